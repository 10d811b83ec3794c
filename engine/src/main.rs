mod eng;
mod json;
mod lin;
mod models;
mod prog;
mod prov;
mod rel;
mod rules;
mod val;
use std::fmt::Write;
use std::rc::Rc;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<'a>(it: impl Iterator<Item = &'a String>) -> String {
    format!("[{}]", it.map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: sa PROPERTY DUMPDIR [quick|thorough]");
        std::process::exit(2);
    }
    if args[1] == "debug" {
        let name = std::env::var("SA_PROG").unwrap_or("ipmb_fixture".into());
        let mut e = eng::Eng::new(load(&args[2], &name));
        rules::debug::run(&mut e, args.get(3).map(|s| s.as_str()).unwrap_or(""));
        return;
    }
    let env = rules::Env::new(&args[2], args.get(3).map_or(false, |x| x == "thorough"));
    let mut rep = rules::Rep::default();
    if !rules::dispatch(&args[1], &env, &mut rep) {
        eprintln!("no rule for {}", args[1]);
        std::process::exit(2);
    }
    let mut o = String::from("{\"violations\":[");
    for (i, v) in rep.viol.values().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{{\"key\":{},\"msg\":{},\"loc\":{},\"trace\":{}}}", esc(&v.key), esc(&v.msg), esc(&v.loc), list(v.trace.iter()));
    }
    let _ = write!(o, "],\"incomplete\":{},\"rule\":{},\"counts\":{{", rep.incomplete, esc(&rep.rule));
    o.push_str(&rep.cov.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"sites\":{");
    o.push_str(&rep.sites.iter().map(|(k, v)| format!("{}:{}", esc(k), list(v.iter()))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "}},\"functions\":{},\"roots\":{},\"programs\":{}}}", list(rep.fns.iter()), list(rep.roots.iter()), list(rep.programs.iter()));
    println!("{o}");
}

pub fn load(dir: &str, name: &str) -> Rc<prog::Prog> {
    let t = std::fs::read_to_string(format!("{dir}/{name}.json")).expect("program dump");
    let j = json::parse(&t);
    Rc::new(prog::load(&j.expect("program dump is valid")))
}
