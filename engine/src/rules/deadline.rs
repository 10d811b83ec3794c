//! Waiting against a deadline: C21 (recv), C22 (join) and the waiting part of C33.
use super::controller::*;
use super::errno::{self, *};
use super::util::*;
use super::*;
use crate::models::{self, Out};

const TST: u16 = 110; // 1 no timeout, 2 a timeout, 3 a timeout beyond the range of the clock
const NOW: u16 = 111; // points in time taken since the last wait
const START: u16 = 112; // points in time taken before the first wait
const WAITED: u16 = 113; // 1: waited already
const OVER: u16 = 114; // 1: the time is known to be over
const CLAMP: u16 = 115; // 1: a number of milliseconds did not fit
const INTR: u16 = 116; // 1: the last wait was interrupted
const FRESH: u16 = 117; // 1: the deadline was looked at (or a wait was bounded by it) since the last attempt
const SLEPT: u16 = 118; // 1: waited since the last attempt
const TRIED: u16 = 119; // 1: an attempt was made
const DEADC: u16 = 120; // deadline computed: 1
const PREV: u16 = 121; // points in time taken before the last wait
const FIT: u16 = 123; // 1: the number of milliseconds fits, 2: it does not
const BND: u16 = 122; // durations that are no longer than the remaining time

pub fn is_opt_duration(e: &Eng, t: TyId) -> bool {
    e.ty(t).path == "core::option::Option" && e.ty(t).args.first().map_or(false, |a| e.ty(*a).path == "core::time::Duration")
}
/// joins a bus on behalf of an endpoint
pub fn is_join(e: &Eng, f: &FnD) -> bool {
    is_repo(f) && f.krate == "ipmb" && par(f).iter().any(|t| named(e, *t, "Options")) && par(f).iter().any(|t| is_opt_duration(e, *t)) && rty(f).and_then(|r| result_args(e, r)).map_or(false, |(_, x)| named(e, x, "JoinError"))
}
/// reads a datagram from a connection
pub fn is_from_local(e: &Eng, f: &FnD) -> bool {
    is_repo(f) && par(f).iter().any(|t| named(e, peel(e, *t), "Local")) && !par(f).iter().any(|t| named(e, peel(e, *t), "IoHub")) && rty(f).and_then(|r| result_args(e, r)).map_or(false, |(o, _)| is_enc(e, o))
}
pub fn is_enc(e: &Eng, t: TyId) -> bool {
    named(e, t, "EncodedMessage")
}

pub struct Dl {
    pub want: &'static str,
    pub root: FnId,
    pub ret: TyId,
    /// the timeout of the analysed function
    pub param: Option<Val>,
    pub join: bool,
}

impl Dl {
    fn bad(&self, e: &mut Eng, st: &State, props: &str, key: &str, msg: &str) {
        if props.split('+').any(|p| p == self.want) {
            e.report(st, key, msg.to_string());
        }
    }
    fn id(&self) -> &'static str {
        if self.join {
            "C22"
        } else {
            "C21"
        }
    }
    fn t(&self, e: &Eng) -> Option<Val> {
        let p = self.param?;
        let p = e.project(p, P::D(1));
        Some(e.project(p, P::F(0)))
    }
    fn deadlines(&self, e: &Eng, st: &State) -> Vec<Val> {
        match self.t(e) {
            Some(t) => st.gkeys(START).into_iter().map(|(n, _)| op("tadd", vec![n, t])).collect(),
            None => vec![],
        }
    }
    /// values that are the remaining time
    fn cands(&self, e: &Eng, st: &State) -> Vec<Val> {
        let mut out = vec![];
        let t = match self.t(e) {
            Some(t) => t,
            None => return out,
        };
        if st.gi(WAITED) == 0 {
            out.push(t);
        }
        for (n, _) in st.gkeys(NOW) {
            for d in self.deadlines(e, st) {
                out.push(op("tsub", vec![d, n]));
            }
            for (s, _) in st.gkeys(START) {
                out.push(op("dsub", vec![t, op("tsub", vec![n, s])]));
            }
        }
        out
    }
    fn note(&self, e: &mut Eng, st: &mut State) {
        let cands = self.cands(e, st);
        let mut bnd = vec![];
        let mut fit = 0;
        for (k, f) in &st.facts {
            if let Some(a) = is_op(*k, "lt") {
                if f.eq == Some(1) && cands.contains(&a[1]) {
                    bnd.push(a[0]);
                }
                if f.eq == Some(0) && cands.contains(&a[0]) {
                    bnd.push(a[1]);
                }
            }
        }
        for b in bnd {
            if is_op(b, "dur").is_some() || as_int(b).is_some() {
                st.gset(BND, b, int(1));
            }
        }
        for m in &cands {
            let (lo, hi) = e.range(st, op("millis", vec![*m]));
            if hi.map_or(false, |h| h <= i32::MAX as i128) {
                fit = 1;
            }
            if let Some(n) = lo {
                if n > i32::MAX as i128 {
                    fit = 2;
                }
                if n > 0 {
                    st.gset(BND, int(n), int(1));
                    st.gset(BND, int(n - 1), int(1));
                }
            }
        }
        if fit != 0 {
            st.gseti(FIT, fit);
        }
        if st.gi(TST) != 2 || st.gi(OVER) == 1 {
            return;
        }
        let z = op("dur", vec![int(0)]);
        let mut over = false;
        let mut under = false;
        let nows: Vec<Val> = st.gkeys(NOW).into_iter().chain(st.gkeys(PREV)).map(|x| x.0).collect();
        let mut cands = cands;
        let t = self.t(e).unwrap();
        for n in &nows {
            for d in self.deadlines(e, st) {
                cands.push(op("tsub", vec![d, *n]));
            }
            for (s, _) in st.gkeys(START) {
                cands.push(op("dsub", vec![t, op("tsub", vec![*n, s])]));
            }
        }
        for c in cands {
            over |= e.known(st, mk_eq(c, z)) == Some(1) || e.known(st, mk_lt(z, c)) == Some(0);
            under |= e.known(st, mk_eq(c, z)) == Some(0) || e.known(st, mk_lt(z, c)) == Some(1);
        }
        for n in nows {
            for d in self.deadlines(e, st) {
                over |= e.known(st, mk_lt(n, d)) == Some(0) || e.known(st, mk_lt(d, n)) == Some(1);
                under |= e.known(st, mk_lt(n, d)) == Some(1) || e.known(st, mk_lt(d, n)) == Some(0);
            }
            for (s, _) in st.gkeys(START) {
                let el = op("tsub", vec![n, s]);
                over |= e.known(st, mk_lt(el, t)) == Some(0) || e.known(st, mk_lt(t, el)) == Some(1);
                under |= e.known(st, mk_lt(el, t)) == Some(1) || e.known(st, mk_lt(t, el)) == Some(0);
            }
        }
        if over {
            st.gseti(OVER, 1);
        }
        if over || under {
            st.gseti(FRESH, 1);
        }
    }
    /// may the duration be waited for
    fn within(&self, e: &mut Eng, st: &State, d: Val) -> bool {
        if matches!(is_op(d, "dur"), Some(a) if as_int(a[0]) == Some(0)) || as_int(d) == Some(0) {
            return true;
        }
        if st.g(BND, d).is_some() {
            return true;
        }
        let d = match nd(d) {
            N::Op("cast", a) if st.gi(FIT) == 1 => *a.last().unwrap(),
            _ => d,
        };
        let (d, ms) = match is_op(d, "millis") {
            Some(a) => (a[0], true),
            None => (d, false),
        };
        for c in self.cands(e, st) {
            if c == d {
                return true;
            }
            if e.known(st, mk_lt(d, c)) == Some(1) || e.known(st, mk_lt(c, d)) == Some(0) {
                return true;
            }
            let _ = ms;
            let m = op("millis", vec![c]);
            if e.known(st, mk_lt(d, m)) == Some(1) || e.known(st, mk_lt(m, d)) == Some(0) {
                return true;
            }
        }
        false
    }
    /// a wait for at most `d` (None: without bound)
    fn wait(&self, e: &mut Eng, st: &mut State, c: &Call, d: Option<Val>) {
        let k = site(e, c);
        e.site("bounded or unbounded wait", k.clone());
        match (d, st.gi(TST)) {
            (None, 2) => self.bad(e, st, self.id(), &format!("{k}: waits without bound"), "the caller's timeout is not infinite, but the wait is"),
            (None, _) => {}
            (Some(d), 2) => {
                let clamped = (st.gi(CLAMP) == 1 || st.gi(FIT) == 2) && as_int(d) == Some(i32::MAX as i128);
                if st.gi(OVER) != 1 && !clamped && !self.within(e, st, d) {
                    self.bad(e, st, self.id(), &format!("{k}: waits for longer than the remaining time"), &format!("the wait is for {}, which is not the time that remains of the caller's timeout at this point (the timeout minus the time that passed since the call)", show(d)));
                }
            }
            // without a timeout: polling in pieces is fine
            _ => {}
        }
        st.gseti(WAITED, 1);
        st.gseti(SLEPT, 1);
        st.gseti(FRESH, 1);
        forget(st);
        st.gseti(INTR, 0);
    }
    /// the bound of a wait given as Option<Duration>
    fn opt(&self, e: &mut Eng, st: &State, c: &Call) -> Option<Option<Val>> {
        let i = c.argtys.iter().position(|t| is_opt_duration(e, *t))?;
        let (v, t) = (c.args[i], c.argtys[i]);
        if Some(v) == self.param {
            // passed on
            return Some(if st.gi(TST) == 1 { None } else { self.t(e) });
        }
        match e.variant(st, v, t) {
            Some(0) => Some(None),
            Some(1) => {
                let p = e.project(v, P::D(1));
                Some(Some(e.project(p, P::F(0))))
            }
            _ => Some(Some(v)),
        }
    }
    fn timeout_variant(&self, e: &Eng, t: TyId) -> Option<u32> {
        variant_no(e, t, "Timeout")
    }
    /// outcomes of a fallible wait done by a callee that is checked on its own
    fn outcomes(&self, e: &mut Eng, st: &State, c: &Call, bounded: bool) -> Vec<(State, Val)> {
        let (_, et) = result_args(e, c.ret).unwrap();
        let to = self.timeout_variant(e, et);
        let mut out = vec![];
        let mut s = st.clone();
        let v = e.fresh(&mut s, c.ctx, c.bb, 1);
        out.push((s, models::ok(c.ret, v)));
        for i in 0..e.ty(et).variants.len() as u32 {
            let mut s = st.clone();
            if Some(i) == to {
                if !bounded {
                    continue;
                }
                if s.gi(TST) == 2 {
                    s.gseti(OVER, 1);
                }
            }
            let fs: Vec<Val> = (0..e.ty(et).variants[i as usize].fields.len()).map(|k| e.fresh(&mut s, c.ctx, c.bb, 10 + i * 4 + k as u32)).collect();
            out.push((s, models::err(c.ret, mk(N::Agg(et, i, fs)))));
        }
        out
    }
}

impl Mon for Dl {
    fn leaf(&self, e: &Eng, f: &FnD) -> bool {
        f.id != self.root && (is_hub_recv(e, f) || (!self.join && is_join(e, f)) || is_from_local(e, f) || (self.join && is_connect(e, f)))
    }
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        if let Some(a) = errno::call(e, st, c) {
            return a;
        }
        if let Some(f) = c.f {
            let fd = e.f(f).clone();
            if f != self.root && fd.blocks.is_some() {
                if self.join && is_connect(e, &fd) {
                    e.site("attempt", site(e, c));
                    if st.gi(TST) == 2 && st.gi(TRIED) == 1 && st.gi(FRESH) == 0 {
                        self.bad(e, st, "C22", "a retry without looking at the deadline", "an attempt to connect follows another one on a path where neither the deadline was compared with the clock nor anything was waited for");
                    }
                    if st.gi(TRIED) == 1 && st.gi(TST) == 2 && st.gi(OVER) == 0 && st.gi(DEADC) == 0 {
                        self.bad(e, st, "C22", "a retry without a deadline", "an attempt to connect is repeated although no deadline was computed from the caller's timeout");
                    }
                    st.gseti(TRIED, 1);
                    st.gseti(FRESH, 0);
                    st.gseti(SLEPT, 0);
                    forget(st);
                    st.gseti(WAITED, 1);
                    return Act::Forks(self.outcomes(e, st, c, false).into_iter().chain(timeouts(e, st, c)).collect());
                }
                if is_hub_recv(e, &fd) || (!self.join && is_join(e, &fd)) {
                    let d = match self.opt(e, st, c) {
                        Some(d) => d,
                        None => return Act::Leaf,
                    };
                    self.wait(e, st, c, d);
                    return Act::Forks(self.outcomes(e, st, c, d.is_some()));
                }
                if is_from_local(e, &fd) {
                    e.site("reading a datagram", site(e, c));
                    return Act::Forks(self.outcomes(e, st, c, false));
                }
            }
        }
        let q = c.rp.as_str();
        match libc(c) {
            Some("epoll_wait" | "epoll_pwait" | "poll") => {
                let d = c.args[if libc(c) == Some("poll") { 2 } else { 3 }];
                let inf = e.range(st, d).1.map_or(false, |h| h < 0);
                self.wait(e, st, c, if inf { None } else { Some(d) });
                let mut out = vec![];
                let mut s = st.clone();
                let n = e.fresh(&mut s, c.ctx, c.bb, 5);
                if e.bound(&mut s, n, Some(1), None) {
                    out.push((s, n));
                }
                if !inf {
                    let mut s = st.clone();
                    if s.gi(TST) == 2 && as_int(d).is_none() {
                        s.gseti(OVER, 1);
                    }
                    out.push((s, int(0)));
                }
                let mut s = st.clone();
                s.gseti(INTR, 1);
                out.extend(errno::fails(&s, &[EINTR]));
                return Act::Forks(out);
            }
            Some("select" | "pselect" | "ppoll" | "nanosleep" | "usleep" | "sleep" | "epoll_pwait2") => {
                self.bad(e, st, self.id(), &format!("{}: a wait the rule cannot bound", site(e, c)), "waiting is done by a function whose duration is not understood");
            }
            _ => {}
        }
        if q.starts_with("std::sync::mpsc::Receiver") {
            if q.ends_with("::recv_timeout") {
                self.wait(e, st, c, Some(c.args[1]));
                let (_, et) = result_args(e, c.ret).unwrap();
                let mut out = vec![];
                let mut s = st.clone();
                let v = e.fresh(&mut s, c.ctx, c.bb, 6);
                out.push((s, models::ok(c.ret, v)));
                for i in 0..e.ty(et).variants.len() as u32 {
                    let mut s = st.clone();
                    if e.ty(et).variants[i as usize].name == "Timeout" && s.gi(TST) == 2 {
                        s.gseti(OVER, 1);
                    }
                    out.push((s, models::err(c.ret, mk(N::Agg(et, i, vec![])))));
                }
                return Act::Forks(out);
            }
            if q.ends_with("::recv") {
                self.wait(e, st, c, None);
                return Act::Leaf;
            }
        }
        if q == "std::thread::functions::sleep" || q == "std::thread::sleep" {
            self.wait(e, st, c, Some(c.args[0]));
            return Act::Leaf;
        }
        if q.starts_with("std::thread::") && (q.contains("park") || q.contains("sleep_until")) || q.starts_with("std::sync::") && q.contains("ondvar") && q.contains("wait") {
            self.bad(e, st, self.id(), &format!("{}: a wait the rule cannot bound", site(e, c)), "waiting is done by a function whose duration is not understood");
        }
        if q == "std::time::Instant::checked_add" && st.gi(TST) == 2 && Some(c.args[1]) == self.t(e) {
            // does the deadline exist
            st.gseti(DEADC, 1);
            let i = models::content(e, st, c.args[0], c.argtys[0]);
            let r = op("tadd", vec![i, c.args[1]]);
            let mut s = st.clone();
            s.gseti(TST, 3);
            return Act::Forks(vec![(st.clone(), models::some(c.ret, r)), (s, models::none(c.ret))]);
        }
        if c.p.ends_with("try_from") || c.p.ends_with("try_into") {
            if let Some(a) = is_op(c.args[0], "millis") {
                if self.cands(e, st).contains(&a[0]) {
                    let (_, et) = result_args(e, c.ret).unwrap();
                    let mut s = st.clone();
                    s.gseti(CLAMP, 1);
                    let x = e.fresh(&mut s, c.ctx, c.bb, 7);
                    let _ = et;
                    let mut s0 = st.clone();
                    s0.gseti(CLAMP, 0);
                    return Act::Forks(vec![(s0, models::ok(c.ret, c.args[0])), (s, models::err(c.ret, x))]);
                }
            }
        }
        if (c.p == "core::cmp::Ord::min" || c.p == "core::cmp::Ord::max") && c.args.iter().any(|a| is_op(*a, "millis").is_some()) {
            if let Out::Forks(v) = models::model(e, st, c) {
                let mut out = vec![];
                for (mut s, v) in v {
                    self.note(e, &mut s);
                    out.push((s, v));
                }
                return Act::Forks(out);
            }
        }
        if time_cmp(e, c) || q.starts_with("std::time::Instant::") || q.starts_with("core::time::Duration::") {
            match models::model(e, st, c) {
                Out::Ret(v) => {
                    if q == "std::time::Instant::now" || q == "std::time::Instant::elapsed" {
                        let n = is_op(v, "tsub").map_or(v, |a| a[0]);
                        st.gset(NOW, n, int(1));
                        if st.gi(WAITED) == 0 {
                            st.gset(START, n, int(1));
                        }
                    }
                    if is_bool_term(v) && e.known(st, v).is_none() {
                        let mut out = vec![];
                        for b in [1, 0] {
                            let mut s = st.clone();
                            if e.assume(&mut s, v, b) {
                                self.note(e, &mut s);
                                out.push((s, boolean(b == 1)));
                            }
                        }
                        return Act::Forks(out);
                    }
                    return Act::Ret(v);
                }
                Out::Forks(v) => {
                    let mut out = vec![];
                    for (mut s, v) in v {
                        self.note(e, &mut s);
                        out.push((s, v));
                    }
                    return Act::Forks(out);
                }
                _ => {}
            }
        }
        Act::Default
    }
    fn on_assume(&mut self, e: &mut Eng, st: &mut State, v: Val, _n: Option<i128>) {
        if matches!(is_op(v, "lt"), Some(a) if a.iter().any(|x| is_op(*x, "millis").is_some())) {
            self.note(e, st);
        }
    }
    fn on_panic(&mut self, e: &mut Eng, st: &mut State, what: &str, terms: &[Val]) {
        if (what.contains("Instant") || what.contains("Duration")) && what.contains("overflow") {
            let safe = what.starts_with("Duration -") && terms.len() == 2 && e.known(st, mk_lt(terms[0], terms[1])) == Some(0);
            if !safe && st.gi(TST) == 2 {
                self.bad(e, st, self.id(), &format!("{what}"), "a timeout that is too large for the clock panics");
            }
        }
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        e.count("returns");
        let (_, et) = match result_args(e, self.ret) {
            Some(x) => x,
            None => return,
        };
        match e.variant(st, ret, self.ret) {
            Some(0) => return,
            Some(_) => {}
            None => {
                self.bad(e, st, self.id(), "the result is not known", "the function returns a result that is neither known to be success nor failure");
                return;
            }
        }
        let x = e.project(ret, P::D(1));
        let x = e.project(x, P::F(0));
        let to = self.timeout_variant(e, et);
        let v = e.variant(st, x, et);
        if v.is_none() && to.is_some() {
            let mut s = st.clone();
            let d = e.disc_of(x, et);
            let disc = e.ty(et).variants[to.unwrap() as usize].disc;
            if !e.assume(&mut s, d, disc) {
                return;
            }
        }
        if v == to || v.is_none() {
            e.site("return of a timeout", e.repo_fn(st.ctx));
            if st.gi(INTR) == 1 && st.gi(OVER) != 1 {
                self.bad(e, st, "C33", "an interrupted wait is reported as a timeout", "a wait that was interrupted by a signal is reported as a timeout although the caller's time is not over");
            }
            match st.gi(TST) {
                1 => self.bad(e, st, self.id(), "a timeout without a timeout", "a timeout is reported although the caller gave none"),
                3 => self.bad(e, st, self.id(), "a timeout before an unreachable deadline", "a timeout is reported although the caller's timeout is beyond the range of the clock"),
                _ => {
                    if st.gi(OVER) != 1 {
                        if st.gi(INTR) == 1 {
                            self.bad(e, st, "C21", "an interrupted wait is reported as a timeout", "a wait that was interrupted by a signal is reported as a timeout although the caller's time is not over");
                        } else {
                            self.bad(e, st, self.id(), "a timeout before the time is over", "a timeout is reported on a path where the caller's time is not known to be over");
                        }
                    }
                }
            }
        } else if st.gi(INTR) == 1 {
            self.bad(e, st, "C33", "an interrupted wait fails", "a wait that was interrupted by a signal is reported to the caller as an error");
        }
    }
}

/// time passes
fn forget(st: &mut State) {
    st.gclear(PREV);
    for (n, _) in st.gkeys(NOW) {
        st.gset(PREV, n, int(1));
    }
    st.gclear(NOW);
    st.gclear(BND);
    st.gseti(FIT, 0);
}
/// looks the controller up: connects to a bus
pub fn is_connect(e: &Eng, f: &FnD) -> bool {
    is_repo(f) && par(f).iter().any(|t| named(e, *t, "Label")) && rty(f).and_then(|r| result_args(e, r)).map_or(false, |(o, x)| named(e, x, "Error") && holds_named(e, o, "IoHub") && holds_named(e, o, "Remote"))
}
/// the attempt itself may time out
fn timeouts(e: &mut Eng, st: &State, c: &Call) -> Vec<(State, Val)> {
    let (_, et) = result_args(e, c.ret).unwrap();
    match variant_no(e, et, "Timeout") {
        Some(i) => vec![(st.clone(), models::err(c.ret, mk(N::Agg(et, i, vec![]))))],
        None => vec![],
    }
}

/// run the deadline rule on a function
pub fn unit(e: &mut Eng, rep: &mut Rep, id: &'static str, f: FnId, join: bool) {
    let ret = match rty(e.f(f)) {
        Some(r) => r,
        None => return,
    };
    let i = par(e.f(f)).iter().position(|t| is_opt_duration(e, *t));
    let i = match i {
        Some(i) => i,
        None => return,
    };
    let t = par(e.f(f))[i];
    for k in [0, 1] {
        let m = Dl { want: id, root: f, ret, param: None, join };
        let m = std::rc::Rc::new(RefCell::new(m));
        let m2 = m.clone();
        run(e, rep, f, Box::new(Shared(m)), &mut |e, st| {
            let c = e.local(st.ctx, i as u32 + 1);
            let v = e.read(st, c, &[]);
            m2.borrow_mut().param = Some(v);
            let d = e.disc_of(v, t);
            e.assume(st, d, k);
            st.gseti(TST, if k == 0 { 1 } else { 2 });
        });
    }
}
pub struct Shared(pub Rc<RefCell<Dl>>);
impl Mon for Shared {
    fn leaf(&self, e: &Eng, f: &FnD) -> bool {
        self.0.borrow().leaf(e, f)
    }
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        self.0.borrow_mut().on_call(e, st, c)
    }
    fn on_assume(&mut self, e: &mut Eng, st: &mut State, v: Val, n: Option<i128>) {
        self.0.borrow_mut().on_assume(e, st, v, n)
    }
    fn on_panic(&mut self, e: &mut Eng, st: &mut State, what: &str, terms: &[Val]) {
        self.0.borrow_mut().on_panic(e, st, what, terms)
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        self.0.borrow_mut().on_root_ret(e, st, ret)
    }
}

pub fn hubs(e: &Eng) -> Vec<FnId> {
    e.prog.fns.iter().filter(|f| f.krate == "ipmb" && f.blocks.is_some() && is_hub_recv(e, f)).map(|f| f.id).collect()
}
pub fn c21(id: &'static str, env: &Env, rep: &mut Rep) {
    let mut e = env.core();
    e.focus_repo(40);
    let mut fs = hubs(&e);
    fs.extend(root(&e, "root_recv"));
    for f in fs {
        unit(&mut e, rep, id, f, false);
    }
    rep.floor("bounded or unbounded wait", 2);
    rep.floor("return of a timeout", 1);
}
pub fn c22(env: &Env, rep: &mut Rep) {
    let mut e = env.core();
    e.focus_repo(40);
    if let Some(f) = root(&e, "root_join") {
        unit(&mut e, rep, "C22", f, true);
    }
    rep.floor("attempt", 1);
    rep.floor("bounded or unbounded wait", 1);
}
