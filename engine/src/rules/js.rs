//! The Node binding: promises (C31), closing (C32), parameters (C30).
use super::ffi::{bare, word};
use super::util::*;
use super::*;
use crate::models;

const TOK: u16 = 310; // deferred -> 1 in hand, 2 settled, 3 queued, 5 settled but still queued
const IDX: u16 = 311; // deferred -> place in the queue it was taken from
const EXP: u16 = 312; // deferred -> its deadline was found passed
const MSG: u16 = 313; // outcome of a receive -> 1 in hand, 2 delivered, 3 queued
const FLD: u16 = 314; // (object, name) -> value
const NFAIL: u16 = 315; // a call into the runtime failed on this path
const DONE: u16 = 316; // the whole queue was gone through
/// the place in the queue to look at next
fn next_cell() -> CellId {
    mk_cell(Cell::Static(sstr("next place")))
}
const PROM: u16 = 318; // promise -> deferred
const SWEEP: u16 = 319; // going through the queue without taking: 1 all settled so far, 2 not all
const ALL: u16 = 320; // list of a message that was gone through to its end
const HELD: u16 = 321; // arguments stay known
const POLL: u16 = 322; // 1 the close request was looked at since the last receive
const GOT: u16 = 323; // result of looking
const OPEN: u16 = 324; // the receive loop has begun
const STOP: u16 = 325; // the delegate was told to stop

pub fn word_of(v: Val) -> String {
    match nd(v) {
        N::Str(s) => s.clone(),
        _ => String::new(),
    }
}
fn is_deferred(e: &Eng, t: TyId) -> bool {
    let ty = e.ty(t);
    ty.k == Kind::Ptr && ty.elem.map_or(false, |x| e.ty(x).path.ends_with("napi_deferred__"))
}
fn is_tsfn(e: &Eng, t: TyId) -> bool {
    let ty = e.ty(t);
    ty.k == Kind::Ptr && ty.elem.map_or(false, |x| e.ty(x).path.ends_with("napi_threadsafe_function__"))
}
/// the outcome of a receive: Result<Message, RecvError>
fn is_outcome(e: &Eng, t: TyId) -> bool {
    result_args(e, t).map_or(false, |(o, _)| named(e, o, "Message") && e.ty(o).krate == "ipmb")
}
fn is_core_message(e: &Eng, t: TyId) -> bool {
    named(e, t, "Message") && e.ty(t).krate == "ipmb"
}
fn vec_of(e: &Eng, t: TyId) -> Option<TyId> {
    let ty = e.ty(t);
    if ty.path.ends_with("vec::Vec") {
        ty.args.first().copied()
    } else {
        None
    }
}
fn deferreds(e: &Eng, t: TyId) -> bool {
    vec_of(e, t).map_or(false, |x| path_to(e, x, &is_deferred).is_some())
}
fn outcomes(e: &Eng, t: TyId) -> bool {
    vec_of(e, t).map_or(false, |x| is_outcome(e, x))
}

/// what waits on the JavaScript side: promises, messages and whether it is closed
#[derive(Clone)]
struct Buf {
    d: Vec<P>,
    m: Vec<P>,
    closed: Vec<P>,
}
fn buffer(e: &Eng) -> Option<Buf> {
    for t in 0..e.prog.types.len() as TyId {
        if e.ty(t).krate != "ipmb_js" || e.ty(t).k != Kind::Struct {
            continue;
        }
        if let (Some(d), Some(m), Some(c)) = (path_to(e, t, &deferreds), path_to(e, t, &outcomes), path_to(e, t, &|e, t| e.ty(t).k == Kind::Bool)) {
            return Some(Buf { d, m, closed: c });
        }
    }
    None
}

/// Calls into the JavaScript runtime.
fn napi_call(e: &mut Eng, st: &mut State, c: &Call) -> Option<Act> {
    let f = last(&c.rp).to_string();
    if c.ret != 0 && e.ty(c.ret).path.ends_with("bindgen_runtime::js_values::buffer::Buffer") && c.args.len() == 1 {
        // bytes into a buffer
        let v = arg_content(e, st, c.args[0], c.argtys[0]);
        return Some(Act::Ret(op("buffer", vec![models::s_content(v)])));
    }
    if !c.rp.contains("napi") {
        return None;
    }
    let fail = |e: &mut Eng, st: &State, k: u32| {
        let mut s = st.clone();
        s.gset(NFAIL, unit(), int(1));
        let x = e.fresh(&mut s, c.ctx, c.bb, 70 + k);
        (s, models::err(c.ret, x))
    };
    if result_args(e, c.ret).is_some() {
        let good = match f.as_str() {
            "create_error" => {
                let x = c.args[1];
                op("jserr", vec![x])
            }
            "create_object" => {
                let mut s = st.clone();
                let x = e.fresh(&mut s, c.ctx, c.bb, 60);
                *st = s;
                op("jsobj", vec![x])
            }
            "set" | "set_named_property" if c.args.len() == 3 => {
                let o = arg_content(e, st, c.args[0], c.argtys[0]);
                let n = models::str_content(c.args[1]);
                let bad = fail(e, st, 1);
                st.gset(FLD, op("field", vec![o, n]), c.args[2]);
                return Some(Act::Forks(vec![(st.clone(), models::ok(c.ret, unit())), bad]));
            }
            _ => return None,
        };
        let bad = fail(e, st, 0);
        return Some(Act::Forks(vec![(st.clone(), models::ok(c.ret, good)), bad]));
    }
    match f.as_str() {
        "new" if c.rp.contains("napi::error::Error") && c.args.len() == 2 => Some(Act::Ret(op("napierr", vec![c.args[1]]))),
        "from_reason" if c.rp.contains("napi::error::Error") => Some(Act::Ret(op("napierr", vec![c.args[0]]))),
        "raw" if c.rp.contains("NapiRaw") => {
            let o = arg_content(e, st, c.args[0], c.argtys[0]);
            Some(Act::Ret(op("jsraw", vec![o])))
        }
        "from_raw_unchecked" => Some(Act::Ret(op("jsval", vec![c.args[1]]))),
        _ => None,
    }
}

struct Promises {
    buf: Buf,
    /// the action the delegate is given: pointer and type
    action: Option<(Val, TyId)>,
    /// the method that makes promises
    ret: Option<TyId>,
}

impl Promises {
    fn failed(&self, st: &State) -> bool {
        st.g(NFAIL, unit()).is_some()
    }
    /// the part of the buffer next to the given list
    fn sibling(&self, e: &mut Eng, st: &State, p: Val, t: TyId, own: &[P], other: &[P]) -> Option<Val> {
        let pt = e.pointee(t);
        let (c, path) = e.target(p, pt);
        let base = path.strip_suffix(own)?;
        let mut q = base.to_vec();
        q.extend_from_slice(other);
        Some(e.read(st, c, &q))
    }
    fn empty(&self, e: &Eng, st: &State, list: Val) -> bool {
        let l = mk_len(list);
        e.known(st, l) == Some(0) || e.known(st, mk_eq(l, int(0))) == Some(1) || e.known(st, mk_lt(int(0), l)) == Some(0)
    }
    fn token(&self, e: &Eng, elem: Val, t: TyId) -> Option<Val> {
        let p = path_to(e, t, &is_deferred)?;
        Some(bare(along(e, elem, &p)))
    }
    /// a promise comes into hand
    fn take(&mut self, e: &mut Eng, st: &mut State, d: Val, idx: Val) {
        e.count("promises taken");
        match st.g(TOK, d).and_then(as_int) {
            Some(5) => return st.gset(TOK, d, int(2)),
            Some(1) => self.lost(e, st),
            _ => {}
        }
        st.gset(TOK, d, int(1));
        st.gset(IDX, d, idx);
    }
    fn lost(&self, e: &mut Eng, st: &State) {
        if !self.failed(st) {
            e.report(st, "a promise is dropped unsettled", "a promise is taken from the queue (or made) and neither settled nor queued on this path".into());
        }
    }
    fn live(&self, st: &State, d: Val) -> bool {
        let mut root = d;
        while let N::Fld(x, _) = nd(root) {
            root = *x;
        }
        st.mem.iter().any(|(c, v)| !matches!(cell(*c), Cell::Der(_)) && any_sub(*v, &mut |x| x == d || x == root))
    }
    /// the outcome in hand whose message or error is part of `v`
    fn outcome_in(&self, e: &Eng, st: &State, v: Val, good: bool) -> Option<Val> {
        let _ = e;
        st.gkeys(MSG).into_iter().map(|x| x.0).find(|r| {
            let part = e.project(e.project(*r, P::D(if good { 0 } else { 1 })), P::F(0));
            any_sub(v, &mut |x| x == part)
        })
    }
    fn deliver(&mut self, e: &mut Eng, st: &mut State, r: Val, d: Val) {
        match st.g(MSG, r).and_then(as_int) {
            Some(1) => {}
            _ => e.report(st, "a message is delivered twice", "the outcome of one receive settles a promise although it was delivered or queued before".into()),
        }
        st.gset(MSG, r, int(2));
        if let Some(i) = st.g(IDX, d) {
            if as_int(i) != Some(0) && !word_of(i).eq("made") {
                e.report(st, "a later promise is served first", format!("a message settles the promise at place {} of the queue, not the first", show(i)));
            }
        }
    }
    fn settle(&mut self, e: &mut Eng, st: &mut State, c: &Call, resolve: bool) {
        let d = bare(c.args[1]);
        e.site(if resolve { "promise resolved" } else { "promise rejected" }, site(e, c));
        match st.g(TOK, d).and_then(as_int) {
            Some(1) => st.gset(TOK, d, int(2)),
            Some(3) => st.gset(TOK, d, int(5)),
            Some(_) => e.report(st, "a promise is settled twice", "the same promise is resolved or rejected a second time on this path".into()),
            None => {
                if any_sub(d, &mut |x| is_op(x, "elem").is_some()) {
                    st.gset(TOK, d, int(5));
                    if let N::Fld(..) = nd(d) {
                        let mut root = d;
                        while let N::Fld(x, _) = nd(root) {
                            root = *x;
                        }
                        let i = match nd(root) {
                            N::Op("elem", a) => Some(a[1]),
                            N::Deref(x) => is_op(*x, "elem").map(|a| a[1]),
                            _ => None,
                        };
                        if let Some(i) = i {
                            st.gset(IDX, d, i);
                        }
                    }
                } else {
                    e.report(st, "something else is settled", format!("what is settled is not a promise this function took or made: {}", show(d)));
                }
            }
        }
        // with what
        let v = bare(c.args[2]);
        let o = match is_op(v, "jsraw") {
            Some(a) => a[0],
            None => {
                if !self.failed(st) {
                    e.report(st, "a promise is settled with something else", format!("a promise is settled with {}", show(v)));
                }
                return;
            }
        };
        if resolve {
            let f = |n: &str| st.g(FLD, op("field", vec![o, word(n)]));
            let (b, os, rs) = (f("bytesMessage"), f("objects"), f("memoryRegions"));
            let (b, os, rs) = match (b, os, rs) {
                (Some(b), Some(os), Some(rs)) => (b, os, rs),
                _ => return e.report(st, "a promise is resolved without the message", "the object a promise is resolved with lacks a part of the message".into()),
            };
            let r = match self.outcome_in(e, st, b, true) {
                Some(r) => r,
                None => return e.report(st, "a promise is resolved with another message", format!("what a promise is resolved with is not made of the message that was received: {}", show(b))),
            };
            let _ = (os, rs);
            self.content(e, st, r, b);
            self.deliver(e, st, r, d);
        } else {
            let reason = is_op(o, "jserr").and_then(|a| is_op(a[0], "napierr")).map(|a| a[0]);
            let reason = match reason {
                Some(x) => x,
                None => return,
            };
            if let Some(r) = self.outcome_in(e, st, reason, false) {
                return self.deliver(e, st, r, d);
            }
            // rejected for another reason: closed, or expired
            let closed = st.g(HELD, word("closed")).is_some() || self.is_closed(e, st);
            let expired = st.g(EXP, d).is_some();
            if !closed && !expired {
                e.report(st, "a promise is rejected without a reason", "a promise is rejected although no error was received, the receiver was not closed and the promise's deadline was not found passed".into());
            }
        }
    }
    /// the receiver was marked as closed on this path
    fn is_closed(&self, e: &mut Eng, st: &State) -> bool {
        st.gkeys(HELD).iter().any(|(k, _)| match nd(*k) {
            N::Op("closedat", _) => true,
            _ => false,
        }) && {
            let _ = e;
            true
        }
    }
    /// the payload, the objects and the regions are the message's own
    fn content(&mut self, e: &mut Eng, st: &mut State, r: Val, b: Val) {
        e.count("messages handed to JavaScript");
        let m = e.project(e.project(r, P::D(0)), P::F(0));
        let mt = (0..e.prog.types.len() as TyId).find(|t| is_core_message(e, *t));
        let mt = match mt {
            Some(t) => t,
            None => return,
        };
        let field = |e: &Eng, t: TyId, n: &str| e.ty(t).variants.first().and_then(|v| v.fields.iter().position(|f| f.0 == n)).map(|i| P::F(i as u32));
        let pp = match path_to(e, mt, &|e, t| named(e, t, "BytesMessage")) {
            Some(p) => p,
            None => return,
        };
        let pt = match e.walk_ty(mt, &pp) {
            Some(t) => t,
            None => return,
        };
        let pl = along(e, m, &pp);
        if let (Some(ff), Some(fd)) = (field(e, pt, "format"), field(e, pt, "data")) {
            let wf = e.project(pl, ff);
            let wd = e.project(pl, fd);
            if let N::Agg(t, _, a) = nd(b) {
                let fields: Vec<String> = e.ty(*t).variants.first().map(|v| v.fields.iter().map(|f| f.0.clone()).collect()).unwrap_or_default();
                for (n, x) in fields.iter().zip(a) {
                    let good = match n.as_str() {
                        "format" => *x == wf,
                        "data" => is_op(*x, "buffer").map_or(false, |a| a[0] == wd),
                        _ => true,
                    };
                    if !good {
                        e.report(st, &format!("the {n} is not the message's"), format!("JavaScript gets {}", show(*x)));
                    }
                }
            }
        }
        for n in ["objects", "memory_regions"] {
            if let Some(f) = field(e, mt, n) {
                let l = e.project(m, f);
                if st.g(ALL, l).is_none() && !self.empty(e, st, l) {
                    e.report(st, &format!("the {n} of a message do not reach JavaScript"), format!("not all of the message's {n} are handed over before the promise is resolved"));
                }
            }
        }
    }
    fn examined(&mut self, e: &mut Eng, st: &mut State, i: Val) {
        let x = e.read(st, next_cell(), &[]);
        let d = crate::lin::lin(i).add(&crate::lin::lin(x), -1);
        if d.is_const().map_or(false, |n| n > 0) {
            e.report(st, "a waiting promise is skipped", format!("the place {} of the queue is looked at, but {} was to be next", show(i), show(x)));
        }
        e.write_raw(st, next_cell(), &[], mk_add(i, int(1)));
    }
}

impl Mon for Promises {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        if c.rp.contains("napi_resolve_deferred") || c.rp.contains("napi_reject_deferred") {
            self.settle(e, st, c, c.rp.contains("resolve"));
            return Act::Default;
        }
        if let Some(a) = napi_call(e, st, c) {
            return a;
        }
        let f = last(&c.rp).to_string();
        if c.rp == "sa::retain_end" {
            if c.argtys.first().map_or(false, |t| deferreds(e, peel(e, *t))) {
                st.gset(DONE, unit(), int(1));
            }
            return Act::Default;
        }
        if c.rp == "sa::remove" || c.rp == "sa::keep" {
            if let Some(x) = c.args.get(1).copied() {
                let tok = st.gkeys(TOK).into_iter().find(|(d, _)| any_sub(*d, &mut |y| y == x));
                if let Some((d, s)) = tok {
                    match (c.rp.as_str(), as_int(s)) {
                        ("sa::remove", Some(5)) => st.gset(TOK, d, int(2)),
                        ("sa::keep", Some(5)) => e.report(st, "a settled promise stays queued", "a promise that was settled stays in the queue and will be settled again".into()),
                        _ => {}
                    }
                } else if c.rp == "sa::remove" && c.argtys.first().map_or(false, |t| deferreds(e, peel(e, *t))) {
                    self.lost(e, st);
                }
            }
            return Act::Default;
        }
        let lt = match c.argtys.first() {
            Some(t) => peel(e, *t),
            None => return Act::Default,
        };
        let (isd, ism) = (deferreds(e, lt), outcomes(e, lt));
        if !(isd || ism) || !matches!(e.ty(c.argtys[0]).k, Kind::Ref | Kind::Ptr) {
            return Act::Default;
        }
        let buf = self.buf.clone();
        match f.as_str() {
            "push" if c.args.len() == 2 => {
                if isd {
                    e.site("promise queued", site(e, c));
                    let et = vec_of(e, lt).unwrap();
                    let d = match self.token(e, c.args[1], et) {
                        Some(d) => d,
                        None => return Act::Default,
                    };
                    match st.g(TOK, d).and_then(as_int) {
                        Some(1) => st.gset(TOK, d, int(3)),
                        Some(3) => e.report(st, "a promise is queued twice", "the same promise is queued a second time".into()),
                        Some(_) => e.report(st, "a settled promise is queued", "a promise that was settled is queued and will be settled again".into()),
                        None => e.report(st, "something else is queued", format!("what is queued is not a promise this function made or took: {}", show(d))),
                    }
                    let m = self.sibling(e, st, c.args[0], c.argtys[0], &buf.d, &buf.m);
                    if let Some(m) = m {
                        if !self.empty(e, st, m) {
                            e.report(st, "a promise waits although a message is there", "a promise is queued on a path on which buffered messages were not found to be absent".into());
                        }
                    }
                    let cl = self.sibling(e, st, c.args[0], c.argtys[0], &buf.d, &buf.closed);
                    if let Some(cl) = cl {
                        if e.known(st, cl) != Some(0) {
                            e.report(st, "a promise is queued at a closed receiver", "a promise is queued on a path on which the receiver was not found open: nothing settles it any more".into());
                        }
                    }
                    if let Some(p) = path_to(e, et, &|e, t| e.ty(t).path.ends_with("option::Option")) {
                        let dl = along(e, c.args[1], &p);
                        let dt = e.walk_ty(et, &p).unwrap();
                        self.deadline(e, st, dl, dt);
                    }
                } else {
                    e.site("message buffered", site(e, c));
                    let r = c.args[1];
                    match st.g(MSG, r).and_then(as_int) {
                        Some(1) => st.gset(MSG, r, int(3)),
                        Some(_) => e.report(st, "a message is queued twice", "the outcome of one receive is buffered although it was delivered or buffered before".into()),
                        None => e.report(st, "something else is buffered", format!("what is buffered is not what was received: {}", show(r))),
                    }
                    let d = self.sibling(e, st, c.args[0], c.argtys[0], &buf.m, &buf.d);
                    if let Some(d) = d {
                        if !self.empty(e, st, d) {
                            e.report(st, "a message is buffered although a promise waits", "a message is buffered on a path on which waiting promises were not found to be absent".into());
                        }
                    }
                }
            }
            "index" | "index_mut" | "get" | "get_mut" | "get_unchecked" if isd && c.args.len() == 2 && e.ty(c.argtys[1]).k == Kind::Uint => {
                // a second look at the same place
                let again = e.read(st, next_cell(), &[]) == mk_add(c.args[1], int(1));
                if !again {
                    self.examined(e, st, c.args[1]);
                }
            }
            "insert" | "pop" | "swap_remove" | "swap" | "reverse" | "rotate_left" | "rotate_right" | "sort_by" | "sort_by_key" | "split_off" => {
                e.report(st, "the order of a queue is not first in, first out", format!("`{f}` is used on a queue"));
            }
            "clear" | "truncate" => {
                let pt = e.pointee(c.argtys[0]);
                let l = e.load(st, c.args[0], pt);
                let swept = isd && st.g(SWEEP, unit()).and_then(as_int) != Some(2) && st.g(DONE, unit()).is_some();
                if swept {
                    for (d, s) in st.gkeys(TOK) {
                        if as_int(s) == Some(5) {
                            st.gset(TOK, d, int(2));
                        }
                    }
                    st.gdel(SWEEP, unit());
                } else if !self.empty(e, st, l) && !self.failed(st) {
                    e.report(st, "what waits in a queue is thrown away", format!("`{f}` is used on a queue that is not known to be empty"));
                }
            }
            _ => {}
        }
        Act::Default
    }
    fn after(&mut self, e: &mut Eng, st: &mut State, c: &Call, ret: Val) {
        if c.rp.contains("napi_create_promise") {
            e.site("promise made", site(e, c));
            let (p1, p2) = (e.pointee(c.argtys[1]), e.pointee(c.argtys[2]));
            let d = e.load(st, c.args[1], p1);
            let p = e.load(st, c.args[2], p2);
            st.gset(TOK, bare(d), int(1));
            st.gset(IDX, bare(d), word("made"));
            st.gset(PROM, p, bare(d));
            return;
        }
        let lt = match c.argtys.first() {
            Some(t) => peel(e, *t),
            None => return,
        };
        if last(&c.rp) == "remove" && !c.rp.starts_with("sa::") && c.args.len() == 2 {
            if deferreds(e, lt) {
                e.site("promise taken", site(e, c));
                let et = vec_of(e, lt).unwrap();
                if let Some(d) = self.token(e, ret, et) {
                    if e.read(st, next_cell(), &[]) == mk_add(c.args[1], int(1)) {
                        e.write_raw(st, next_cell(), &[], c.args[1]);
                    }
                    self.take(e, st, d, c.args[1]);
                }
            } else if outcomes(e, lt) {
                e.site("message taken", site(e, c));
                if as_int(c.args[1]) != Some(0) {
                    e.report(st, "a later message is delivered first", format!("the message at place {} is taken, not the first", show(c.args[1])));
                }
                st.gset(MSG, ret, int(1));
            }
        }
    }
    fn on_next(&mut self, e: &mut Eng, st: &mut State, c: &Call, seq: Val, elem: Option<Val>) {
        // the lists of a message that is handed over
        if elem.is_none() {
            for (r, _) in st.gkeys(MSG) {
                let m = e.project(e.project(r, P::D(0)), P::F(0));
                let mut l = None;
                any_sub(seq, &mut |x| {
                    if let N::Fld(y, _) = nd(x) {
                        if *y == m {
                            l = Some(x);
                        }
                    }
                    false
                });
                if let Some(l) = l {
                    st.gset(ALL, l, int(1));
                }
            }
        }
        let et = match (e.ty(c.ret).path.as_str(), e.prog.field_ty(c.ret, 1, 0)) {
            ("core::option::Option", Some(t)) => t,
            _ => return,
        };
        let byval = paths_to(e, et, &is_deferred);
        let mut inner = e.ty(et).fields.clone();
        inner.push(et);
        let byref = inner.iter().any(|t| matches!(e.ty(*t).k, Kind::Ref) && path_to(e, peel(e, *t), &is_deferred).is_some());
        if byval.is_empty() && !byref {
            return;
        }
        match elem {
            None => st.gset(DONE, unit(), int(1)),
            Some(x) => {
                if let Some(p) = byval.first() {
                    e.site("promise taken", site(e, c));
                    let x = if is_op(x, "elem").is_some() { mk(N::Deref(x)) } else { x };
                    let d = bare(along(e, x, p));
                    if st.g(TOK, d).and_then(as_int) == Some(1) {
                        self.lost(e, st);
                    }
                    st.gdel(TOK, d);
                    self.take(e, st, d, word("made"));
                } else {
                    let five = st.gkeys(TOK).iter().any(|t| as_int(t.1) == Some(5));
                    match st.g(SWEEP, unit()).and_then(as_int) {
                        None => st.gset(SWEEP, unit(), int(1)),
                        Some(1) if !five => st.gset(SWEEP, unit(), int(2)),
                        _ => {}
                    }
                    st.gclear(TOK);
                }
            }
        }
    }
    fn on_loop(&mut self, e: &mut Eng, st: &mut State) {
        if self.failed(st) {
            // whatever happens after the runtime failed is not judged
            for (d, s) in st.gkeys(TOK) {
                if as_int(s) != Some(5) {
                    st.gdel(TOK, d);
                    st.gdel(IDX, d);
                }
            }
            st.gclear(EXP);
        }
        for (d, _) in st.gkeys(EXP) {
            if !self.live(st, d) {
                if st.g(TOK, d).is_none() && !self.failed(st) {
                    e.report(st, "an expired promise keeps waiting", "a promise whose deadline was found passed is not rejected".into());
                }
                st.gdel(EXP, d);
            }
        }
        for (d, s) in st.gkeys(TOK) {
            match as_int(s) {
                Some(1) if !self.live(st, d) => {
                    self.lost(e, st);
                    st.gdel(TOK, d);
                    st.gdel(IDX, d);
                    st.gdel(EXP, d);
                }
                Some(2) if !self.live(st, d) => {
                    st.gdel(TOK, d);
                    st.gdel(IDX, d);
                    st.gdel(EXP, d);
                }
                Some(5) if !self.live(st, d) => {
                    st.gdel(TOK, d);
                    st.gdel(IDX, d);
                    st.gset(TOK, word("an earlier promise"), int(5));
                }
                _ => {}
            }
        }
    }
    fn on_assume(&mut self, e: &mut Eng, st: &mut State, v: Val, n: Option<i128>) {
        match nd(v) {
            N::Op("not", a) => {
                let m = n.map(|x| 1 - x).or(Some(0));
                self.on_assume(e, st, a[0], m);
            }
            N::Op("eq", a) => {
                // nothing waits
                let l = a.iter().find_map(|x| is_op(*x, "len"));
                if n.map_or(true, |x| x != 0) && a.iter().any(|x| as_int(*x) == Some(0)) {
                    if let Some(l) = l {
                        if matches!(nd(l[0]), N::Fld(b, p) if self.buf.d.last() == Some(p) && matches!(nd(*b), N::Deref(x) if is_op(*x, "guardptr").is_some())) {
                            st.gset(DONE, unit(), int(1));
                        }
                    }
                }
            }
            N::Op("lt", a) => {
                let truth = n.map_or(true, |x| x != 0);
                // the place is behind the end of the queue
                if !truth {
                    if let Some(l) = is_op(a[1], "len") {
                        let _ = l;
                        let mine = e.read(st, next_cell(), &[]) == a[0];
                        if mine {
                            st.gset(DONE, unit(), int(1));
                        }
                    }
                }
                // a deadline before now
                let time = |x: Val| match nd(x) {
                    N::Fld(..) => Some(x),
                    _ => None,
                };
                let (dl, past) = match (is_op(a[0], "now"), is_op(a[1], "now")) {
                    (None, Some(_)) => (time(a[0]), truth),
                    (Some(_), None) => (time(a[1]), !truth),
                    _ => (None, false),
                };
                if let (Some(dl), true) = (dl, past) {
                    let mut root = dl;
                    while let N::Fld(x, _) = nd(root) {
                        root = *x;
                    }
                    let root = match nd(root) {
                        N::Deref(x) => mk(N::Deref(*x)),
                        _ => root,
                    };
                    let t = (0..e.prog.types.len() as TyId).find(|t| deferreds(e, *t)).and_then(|t| vec_of(e, t));
                    if let Some(p) = t.and_then(|t| path_to(e, t, &is_deferred)) {
                        let d = bare(along(e, root, &p));
                        e.count("deadlines found passed");
                        st.gset(EXP, d, int(1));
                    }
                }
            }
            _ => {}
        }
    }
    fn on_write(&mut self, e: &mut Eng, st: &mut State, c: CellId, path: &[P], v: Val) {
        let _ = (c, e);
        if path.ends_with(&self.buf.closed) && as_int(v) == Some(1) && matches!(nd(v), N::Bool(true)) && matches!(cell(c), Cell::Der(_)) {
            st.gset(HELD, op("closedat", vec![]), int(1));
        }
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        e.count("returns");
        for (d, s) in st.gkeys(TOK) {
            match as_int(s) {
                Some(1) => self.lost(e, st),
                Some(5) => e.report(st, "a settled promise stays queued", "a promise that was settled stays in the queue and will be settled again".into()),
                _ => {}
            }
            let _ = d;
        }
        for (d, _) in st.gkeys(EXP) {
            if !matches!(st.g(TOK, d).and_then(as_int), Some(2)) && !self.failed(st) {
                e.report(st, "an expired promise keeps waiting", "a promise whose deadline was found passed is not rejected".into());
            }
        }
        if let Some(t) = self.ret {
            if e.variant(st, ret, t) == Some(0) {
                let x = e.project(e.project(ret, P::D(0)), P::F(0));
                let p = is_op(x, "jsval").map(|a| a[0]);
                match p.and_then(|p| st.g(PROM, p)) {
                    Some(_) => {}
                    None => e.report(st, "the caller gets another promise", format!("what is returned is not the promise that was made: {}", show(x))),
                }
            }
            for (r, s) in st.gkeys(MSG) {
                let _ = r;
                if as_int(s) == Some(1) && !self.failed(st) {
                    e.report(st, "a message is lost", "a message was taken from the buffer and neither delivered nor put back".into());
                }
            }
        }
        if let Some((a, t)) = self.action {
            let act = mk(N::Deref(a));
            let k = match e.variant(st, act, t) {
                Some(k) => k,
                None => {
                    if !self.failed(st) {
                        e.report(st, "an action is ignored", "the delegate returns without having looked at what it is to do".into());
                    }
                    return;
                }
            };
            let fs = e.ty(t).variants[k as usize].fields.clone();
            let lists: Vec<(CellId, Vec<P>)> = vec![];
            let _ = lists;
            if let Some(i) = fs.iter().position(|f| is_outcome(e, f.1)) {
                e.count("outcomes followed to a return");
                let r = e.project(e.project(act, P::D(k)), P::F(i as u32));
                if !matches!(st.g(MSG, r).and_then(as_int), Some(2) | Some(3)) && !self.failed(st) {
                    e.report(st, "a message is lost", "the delegate is given the outcome of a receive and neither delivers nor buffers it".into());
                }
            } else if fs.iter().any(|f| holds(e, f.1, &is_tsfn)) {
                e.count("closings followed to a return");
                if st.g(HELD, op("closedat", vec![])).is_none() {
                    e.report(st, "closing leaves the receiver open", "the delegate is told to close and does not mark the receiver as closed: promises queued later are never settled".into());
                }
                if st.g(DONE, unit()).is_none() && !self.failed(st) {
                    e.report(st, "closing leaves promises waiting", "the delegate is told to close and does not go through all waiting promises".into());
                }
            } else {
                e.count("clean-ups followed to a return");
                if st.g(DONE, unit()).is_none() && !self.failed(st) {
                    e.report(st, "expired promises keep waiting", "the delegate is told to look for expired promises and does not go through all waiting promises".into());
                }
            }
        }
    }
}

impl Promises {
    /// the deadline that is queued: now and the timeout in milliseconds, none without a timeout
    fn deadline(&self, e: &mut Eng, st: &mut State, dl: Val, t: TyId) {
        let arg = mk(N::Param("arg2".into()));
        let at = (0..e.prog.types.len() as TyId).find(|t| e.ty(*t).path.ends_with("option::Option") && e.ty(*t).args.first().map_or(false, |x| e.ty(*x).s == "u32"));
        let given = at.and_then(|t| e.variant(st, arg, t));
        match (e.variant(st, dl, t), given) {
            (Some(1), Some(0)) => e.report(st, "a promise without a timeout expires", "no timeout was given, but a deadline is set".into()),
            (Some(0), g) if g != Some(0) => e.report(st, "a timeout is dropped", "a timeout was given, but no deadline is set".into()),
            (Some(1), Some(1)) => {
                let x = e.project(e.project(dl, P::D(1)), P::F(0));
                let ms = e.project(e.project(arg, P::D(1)), P::F(0));
                let good = is_op(x, "tadd").map_or(false, |a| is_op(a[0], "now").is_some() && is_op(a[1], "durms").map_or(false, |b| bare(b[0]) == ms));
                if !good {
                    e.report(st, "the deadline is not the timeout from now", format!("the deadline is {}", show(x)));
                }
            }
            (None, _) => e.report(st, "the deadline is not known", "the deadline of a promise is neither set nor absent".into()),
            _ => {}
        }
    }
}

/// functions the runtime calls on the event loop with an action
fn delegates(e: &Eng) -> Vec<(FnId, TyId)> {
    let mut out = vec![];
    for f in &e.prog.fns {
        if f.krate != "ipmb_js" || f.blocks.is_none() {
            continue;
        }
        let ps = par(f).to_vec();
        let ends = |t: TyId, n: &str| e.ty(t).k == Kind::Ptr && e.ty(t).elem.map_or(false, |x| e.ty(x).path.ends_with(n));
        if ps.len() != 4 || !ends(ps[0], "napi_env__") || !ends(ps[1], "napi_value__") {
            continue;
        }
        let all = closure(e, &[f.id]);
        for g in all {
            for b in e.f(g).blocks.iter().flatten().flatten() {
                if let Term::Call(Func::Static(c), args, ..) = &b.term {
                    if c.rp.starts_with("alloc::boxed::Box::<T") && last(&c.rp) == "from_raw" {
                        if let Some(t) = args.first().and_then(|a| e.op_ty(e.f(g), a)).and_then(|t| e.ty(t).elem) {
                            if e.ty(t).k == Kind::Enum && e.ty(t).krate == "ipmb_js" {
                                out.push((f.id, t));
                            }
                        }
                    }
                }
            }
        }
    }
    out.sort();
    out.dedup();
    out
}
/// methods that make promises
fn makers(e: &Eng) -> Vec<FnId> {
    let mk: Vec<FnId> = e.prog.fns.iter().filter(|f| f.krate == "ipmb_js" && f.blocks.is_some()).map(|f| f.id).collect();
    let direct: HashSet<FnId> = repo_calls(e).into_iter().filter(|(_, _, c, _)| c.rp.contains("napi_create_promise")).map(|x| x.0).collect();
    let hit: Vec<FnId> = mk.into_iter().filter(|f| closure(e, &[*f]).iter().any(|g| direct.contains(g))).collect();
    // the methods themselves, not the glue around them
    hit.into_iter().filter(|f| { let x = e.f(*f); !x.p.contains("__napi") && !x.p.contains("{closure") && x.p.contains("::recv") && result_args(e, x.locals[0]).is_some() }).collect()
}

fn promises(env: &Env, rep: &mut Rep) {
    let mut e = env.js();
    e.focus_repo(60);
    let buf = match buffer(&e) {
        Some(b) => b,
        None => return rep.bad("anchor: the buffer of the receiver", "no structure of the Node binding holds waiting promises, messages and whether it is closed".into(), "ipmb-js".into()),
    };
    for (f, t) in delegates(&e) {
        rep.site("delegate", e.f(f).p.clone());
        let a = mk(N::Param("arg4".into()));
        let m = Promises { buf: buf.clone(), action: Some((a, t)), ret: None };
        let vs = e.ty(t).variants.clone();
        run(&mut e, rep, f, Box::new(m), &mut |e, st| {
            st.gset(HELD, a, int(1));
            e.write_raw(st, next_cell(), &[], int(0));
            let act = mk(N::Deref(a));
            for (k, v) in vs.iter().enumerate() {
                for (i, x) in v.fields.iter().enumerate() {
                    if is_outcome(e, x.1) {
                        let r = e.project(e.project(act, P::D(k as u32)), P::F(i as u32));
                        st.gset(MSG, r, int(1));
                    }
                }
            }
        });
    }
    for f in makers(&e) {
        rep.site("promise maker", e.f(f).p.clone());
        let t = e.f(f).locals[0];
        let m = Promises { buf: buf.clone(), action: None, ret: Some(t) };
        run(&mut e, rep, f, Box::new(m), &mut |e, st| {
            e.write_raw(st, next_cell(), &[], int(0));
            st.gset(HELD, mk(N::Param("arg2".into())), int(1));
        });
    }
    for (k, n) in [("delegate", 1), ("promise maker", 1), ("promise made", 1), ("promise queued", 1), ("promise taken", 1), ("promise resolved", 1), ("promise rejected", 1), ("message buffered", 1), ("message taken", 1)] {
        rep.floor(k, n);
    }
}

// ---------------------------------------------------------------------------------------------
// the thread that receives

struct Loop {
    id: &'static str,
}
impl Loop {
    fn bad(&self, e: &mut Eng, st: &State, id: &str, key: &str, msg: &str) {
        if id == self.id {
            e.report(st, key, msg.into());
        }
    }
    /// what became of the last receive
    fn passed_on(&self, e: &mut Eng, st: &mut State) {
        for (r, s) in st.gkeys(MSG) {
            if as_int(s) == Some(1) {
                let _ = r;
                self.bad(e, st, "C31", "the outcome of a receive is dropped", "what was received is not passed on to the event loop before the thread goes on");
            }
        }
        st.gclear(MSG);
    }
}
fn outcome_ty(e: &Eng) -> Option<TyId> {
    (0..e.prog.types.len() as TyId).find(|t| is_outcome(e, *t))
}
impl Mon for Loop {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        let a0 = c.argtys.first().map(|t| peel(e, *t));
        if last(&c.rp) == "recv" && a0.map_or(false, |t| named(e, t, "EndpointReceiver")) {
            e.site("receive of the thread", site(e, c));
            let t = c.argtys[1];
            if e.variant(st, c.args[1], t) != Some(1) {
                self.bad(e, st, "C32", "the thread waits without bound", "the thread's receive has no timeout: a close request is noticed only when a message arrives");
            }
            if st.g(OPEN, unit()).is_some() && st.g(POLL, unit()).is_none() {
                self.bad(e, st, "C32", "a close request is not looked at", "the thread receives again without having looked for a close request since the last receive: under steady traffic closing never ends");
            }
            if let Some(g) = st.g(GOT, unit()) {
                let gt = (0..e.prog.types.len() as TyId).find(|t| result_args(e, *t).map_or(false, |x| e.ty(x.1).path.ends_with("mpsc::TryRecvError") || e.ty(x.1).path.ends_with("mpsc::RecvTimeoutError")));
                if let Some(gt) = gt {
                    if e.variant(st, g, gt) == Some(0) {
                        self.bad(e, st, "C32", "a close request is ignored", "a close request was taken and the thread goes on receiving: nothing repeats the request");
                    }
                }
            }
            if st.g(STOP, unit()).is_some() {
                self.bad(e, st, "C32", "the thread receives after it stopped the delegate", "the delegate was stopped and the thread goes on receiving");
            }
            self.passed_on(e, st);
            st.gset(OPEN, unit(), int(1));
            st.gdel(POLL, unit());
            st.gdel(GOT, unit());
            let x = e.fresh(st, c.ctx, c.bb, 80);
            st.gset(MSG, x, int(1));
            return Act::Ret(x);
        }
        if a0.map_or(false, |t| e.ty(t).path.ends_with("mpsc::Receiver")) {
            match last(&c.rp) {
                "try_recv" | "recv_timeout" => {
                    e.site("look for a close request", site(e, c));
                    st.gset(POLL, unit(), int(1));
                    let x = e.fresh(st, c.ctx, c.bb, 81);
                    st.gset(GOT, unit(), x);
                    return Act::Ret(x);
                }
                "recv" | "iter" | "into_iter" => self.bad(e, st, "C32", "the thread waits for a close request", "the thread blocks until it is closed and receives no message meanwhile"),
                _ => {}
            }
        }
        if c.rp.contains("napi_call_threadsafe_function") {
            e.site("action passed to the event loop", site(e, c));
            let at = (0..e.prog.types.len() as TyId).find(|t| e.ty(*t).krate == "ipmb_js" && e.ty(*t).k == Kind::Enum && e.ty(*t).variants.iter().any(|v| v.fields.iter().any(|f| is_outcome(e, f.1))));
            let at = match at {
                Some(t) => t,
                None => return Act::Default,
            };
            let a = e.load(st, c.args[1], Some(at));
            let k = match e.variant(st, a, at) {
                Some(k) => k,
                None => return Act::Default,
            };
            let rt = outcome_ty(e);
            let fs = e.ty(at).variants[k as usize].fields.clone();
            let errk = |e: &Eng, st: &State, r: Val| -> Option<String> {
                let rt = rt?;
                if e.variant(st, r, rt)? != 1 {
                    return Some("message".into());
                }
                let et = result_args(e, rt)?.1;
                let x = e.project(e.project(r, P::D(1)), P::F(0));
                e.variant(st, x, et).map(|k| e.ty(et).variants[k as usize].name.clone())
            };
            if let Some(i) = fs.iter().position(|f| is_outcome(e, f.1)) {
                let r = e.project(e.project(a, P::D(k)), P::F(i as u32));
                let hit = st.gkeys(MSG).into_iter().find(|(x, _)| same_outcome(e, st, *x, r));
                match hit {
                    Some((x, s)) => {
                        if as_int(s) != Some(1) {
                            self.bad(e, st, "C31", "an outcome is passed on twice", "the outcome of one receive is passed to the event loop twice");
                        }
                        if errk(e, st, x).as_deref() == Some("Timeout") {
                            self.bad(e, st, "C31", "the thread's own timeout reaches a promise", "the thread's waiting period is passed on as the outcome of a receive: a promise is rejected before its time");
                        } else if errk(e, st, x).is_none() {
                            // not distinguished: might be the thread's own timeout
                            let t = e.project(e.project(x, P::D(1)), P::F(0));
                            let et = rt.and_then(|t| result_args(e, t)).map(|x| x.1);
                            if let Some(et) = et {
                                let d = e.disc_of(t, et);
                                let tk = variant_no(e, et, "Timeout").unwrap_or(0) as i128;
                                let ne = st.facts.get(&d).map_or(false, |f| f.ne.contains(&tk));
                                let okv = rt.map_or(false, |rt| { let d = e.disc_of(x, rt); e.known(st, d) == Some(0) });
                                if !ne && !okv {
                                    self.bad(e, st, "C31", "the thread's own timeout reaches a promise", "the outcome is passed on without having been told apart from the thread's waiting period");
                                }
                            }
                        }
                        st.gset(MSG, x, int(2));
                    }
                    None => self.bad(e, st, "C31", "something else is passed on", "what is passed to the event loop is not what was received"),
                }
            } else if fs.iter().any(|f| holds(e, f.1, &is_tsfn)) {
                st.gset(STOP, unit(), int(1));
            } else {
                for (x, s) in st.gkeys(MSG) {
                    if as_int(s) == Some(1) && errk(e, st, x).as_deref() == Some("Timeout") {
                        st.gset(MSG, x, int(2));
                    }
                }
            }
            return Act::Default;
        }
        if c.rp.starts_with("ipmb::") || c.rp.starts_with("<ipmb::") {
            return Act::Leaf;
        }
        Act::Default
    }
    fn on_panic(&mut self, e: &mut Eng, st: &mut State, what: &str, _terms: &[Val]) {
        if what.contains("lock") || what.contains("Poison") {
            return;
        }
        self.bad(e, st, "C32", &format!("the thread panics: {what}"), "the receiving thread panics: the delegate is never stopped");
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, _ret: Val) {
        e.count("ends of the receiving thread");
        self.passed_on(e, st);
        if st.g(STOP, unit()).is_none() {
            let g = st.g(GOT, unit());
            let gt = (0..e.prog.types.len() as TyId).find(|t| result_args(e, *t).map_or(false, |x| e.ty(x.1).path.ends_with("mpsc::TryRecvError") || e.ty(x.1).path.ends_with("mpsc::RecvTimeoutError")));
            let gone = match (g, gt) {
                (Some(g), Some(gt)) => {
                    let et = result_args(e, gt).unwrap().1;
                    let x = e.project(e.project(g, P::D(1)), P::F(0));
                    e.variant(st, g, gt) == Some(1) && e.variant(st, x, et).map_or(false, |k| e.ty(et).variants[k as usize].name == "Disconnected")
                }
                _ => false,
            };
            if !gone {
                self.bad(e, st, "C32", "the thread ends without stopping the delegate", "the receiving thread ends, but the delegate was not told to close: waiting promises are never settled and the event loop is kept alive");
            }
        }
    }
}
fn same_outcome(e: &Eng, st: &State, x: Val, r: Val) -> bool {
    if x == r {
        return true;
    }
    // taken apart and put together again
    match nd(r) {
        N::Agg(_, k, a) if a.len() == 1 => {
            let y = e.project(e.project(x, P::D(*k)), P::F(0));
            let _ = st;
            a[0] == y || matches!(nd(a[0]), N::Agg(_, k2, b) if b.len() <= 1 && {
                let et = outcome_ty(e).and_then(|t| result_args(e, t)).map(|x| x.1);
                et.map_or(false, |et| e.variant(st, y, et) == Some(*k2))
            })
        }
        _ => false,
    }
}

/// closing and joining on the JavaScript side
struct Close;
impl Mon for Close {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        let a0 = c.argtys.first().map(|t| peel(e, *t));
        if a0.map_or(false, |t| e.ty(t).path.ends_with("mpsc::SyncSender") || e.ty(t).path.ends_with("mpsc::Sender")) {
            if last(&c.rp) == "send" {
                e.site("close request", site(e, c));
                st.gset(STOP, unit(), int(1));
                for v in st.mem.values() {
                    if any_sub(*v, &mut |x| is_op(x, "guard").is_some()) {
                        e.report(st, "the close request is made under the lock", "closing waits for the receiving thread while it holds the lock the event loop needs".into());
                        break;
                    }
                }
            }
        }
        Act::Default
    }
    fn on_assume(&mut self, _e: &mut Eng, st: &mut State, v: Val, n: Option<i128>) {
        match nd(v) {
            N::Op("not", a) => self.on_assume(_e, st, a[0], n.map(|x| 1 - x).or(Some(0))),
            N::Fld(b, _) if any_sub(*b, &mut |x| is_op(x, "guardptr").is_some()) && n.map_or(true, |x| x != 0) => st.gset(HELD, word("closed before"), int(1)),
            _ => {}
        }
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, _ret: Val) {
        e.count("closings followed to a return");
        if st.g(STOP, unit()).is_some() {
            return;
        }
        let before = st.g(HELD, word("closed before")).is_some();
        if !before {
            e.report(st, "closing asks nobody", "closing returns on a path on which the receiver was not closed before and no close request that waits to be taken was made".into());
        }
    }
}

pub fn c31(env: &Env, rep: &mut Rep) {
    rep.rule = "typestate of promises and received messages on every path of the event-loop delegate, of the receive method and of the receiving thread".into();
    promises(env, rep);
    thread("C31", env, rep);
}
fn thread(id: &'static str, env: &Env, rep: &mut Rep) {
    let mut e = env.js();
    e.focus_repo(60);
    let n: Vec<FnId> = spawned(&e).into_iter().filter(|f| e.f(*f).krate == "ipmb_js").collect();
    for f in n {
        rep.site("receiving thread", e.f(f).p.clone());
        run(&mut e, rep, f, Box::new(Loop { id }), &mut |_, _| {});
    }
    for (k, n) in [("receiving thread", 1), ("receive of the thread", 1), ("look for a close request", 1), ("action passed to the event loop", 1)] {
        rep.floor(k, n);
    }
}
pub fn c32(env: &Env, rep: &mut Rep) {
    rep.rule = "typestate of the receiving thread (bounded receive, look for a close request, stop the delegate) on every path, and of the close request".into();
    thread("C32", env, rep);
    let mut e = env.js();
    let fs: Vec<FnId> = e.prog.fns.iter().filter(|f| f.krate == "ipmb_js" && f.blocks.is_some() && last(&f.p) == "close" && par(f).len() == 1 && path_to(&e, peel(&e, par(f)[0]), &|e, t| e.ty(t).path.ends_with("mpsc::SyncSender") || e.ty(t).path.ends_with("mpsc::Sender")).is_some()).map(|f| f.id).collect();
    for f in fs {
        rep.site("closing method", e.f(f).p.clone());
        run(&mut e, rep, f, Box::new(Close), &mut |_, _| {});
    }
    rep.floor("closing method", 1);
    rep.floor("close request", 1);
    // the queue to the event loop never fills up: a full one would stop the thread
    for (f, b, c, sp) in repo_calls(&e) {
        if !c.rp.ends_with("napi_create_threadsafe_function") {
            continue;
        }
        rep.site("delegate created", e.f(f).p.clone());
        let fd = e.f(f).clone();
        if let Some(Term::Call(_, args, ..)) = fd.blocks.as_ref().and_then(|x| x[b as usize].as_ref()).map(|x| &x.term) {
            let zero = match args.get(4) {
                Some(Operand::Const(..)) => {
                    let st = State { ctx: 0, bb: 0, mem: BTreeMap::new(), facts: BTreeMap::new(), ghost: BTreeMap::new(), drops: vec![], trace: None };
                    as_int(e.operand(&st, &args[4])) == Some(0)
                }
                _ => true,
            };
            if !zero {
                rep.bad("the queue to the event loop is bounded", "the receiving thread blocks when the queue is full: it then misses a close request made on the event loop".into(), sp);
            }
        }
    }
    rep.floor("delegate created", 1);
}
#[allow(unused)]
fn _u(_: &BTreeSet<u32>) {
    let _ = BTreeMap::<u32, u32>::new();
}
