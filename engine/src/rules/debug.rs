use crate::eng::*;
use crate::prog::*;
use crate::val::*;

struct M;
impl Mon for M {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        if std::env::var("SA_CALLS").is_ok() && is_repo(e.f(e.ctxs[st.ctx as usize].f)) {
            println!("CALL {} [{}] ({})  in {}", c.rp, short_span(&c.line), c.args.iter().map(|a| show(*a)).collect::<Vec<_>>().join(" ; "), e.chain(c.ctx));
        }
        Act::Default
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        e.count("returns");
        if std::env::var("SA_RET").is_ok() {
            println!("RET {}", show(ret));
            for (k, f) in &st.facts {
                println!("    {} : {:?}", show(*k), f);
            }
        }
    }
}

pub fn run(e: &mut Eng, root: &str) {
    let ids: Vec<FnId> = e.prog.fns.iter().filter(|f| f.p.ends_with(root) && f.blocks.is_some()).map(|f| f.id).collect();
    for f in ids {
        println!("== {} {}", f, e.f(f).p);
        if let Ok(ev) = std::env::var("SA_EV") {
            let evs: Vec<String> = ev.split(',').map(|x| x.to_string()).collect();
            e.focus(&|n| evs.iter().any(|x| n.ends_with(x.as_str())), &|_| false, 40);
            println!("   relevant: {:?}", e.rel.as_ref().unwrap().relevant.iter().map(|f| short(&e.f(*f).p)).collect::<Vec<_>>());
        }
        e.mon = Some(Box::new(M));
        e.stats = Stats::default();
        let t = std::time::Instant::now();
        e.run_root(f, &mut |_, _| {});
        println!("   blocks {} states {} ctxs {} joins {} maxmem {} fns {} leafs {} exhausted {} {:?}", e.stats.blocks, e.stats.states, e.ctxs.len(), e.stats.joins, e.stats.maxmem, e.stats.fns.len(), e.stats.leaf_calls.len(), e.stats.exhausted, t.elapsed());
        println!("   skipped {:?}", e.skipped.iter().map(|f| short(&e.f(*f).p)).collect::<Vec<_>>());
        if std::env::var("SA_LEAFS").is_ok() {
            for l in &e.stats.leaf_calls {
                println!("   leaf {l}");
            }
        }
        if std::env::var("SA_HOT").is_ok() {
            for x in e.hot(30) {
                println!("   hot {x}");
            }
        }
        println!("   {:?}", e.counters);
    }
}
