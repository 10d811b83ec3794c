//! The pool of memory regions: what a region must be to be handed out again (C16) and what becomes
//! of the callback given with an allocation (C17).
use super::util::*;
use super::wire::{counter_op, is_region};
use super::*;
use crate::lin::{lin, Lin};
use crate::models;

const RC: u16 = 282; // entry -> the count read last
const NEW: u16 = 283; // region -> size it was made with
const FROM: u16 = 284; // region -> entry or region it shares with
const FIT: u16 = 285; // region -> what was shown of its entry when it was taken
const KEY: u16 = 286; // keys the pool was asked for to put something in
const PUT: u16 = 287; // 1: the new region is in the pool
const LOST: u16 = 288; // 1: the callback of this request ended without being run
const KEPT: u16 = 289; // 1: the callback of this request is stored
const CUR: u16 = 290; // the entry being maintained
const PASS: u16 = 291; // how far the passes over the pool are, see `step`
/// an entry of the size at hand was not settled (why)
const ENTRY: i128 = 1;
/// all entries of the size at hand are settled
const SETTLED: i128 = 2;
/// why they are not
const WHY: i128 = 3;
/// a size is at hand
const INSIDE: i128 = 4;
/// a size was left without all its entries settled (why)
const FAILED: i128 = 5;
/// a pass over all sizes settled all
const ALL: i128 = 6;
/// why the last complete pass did not
const LAST: i128 = 7;
const RAN: u16 = 292; // entry -> its callback was run on this path
const ASKKEY: u16 = 293; // keeps what is known of the tag asked for
const CALLED: u16 = 294; // 1: a callback was run while the new one waited without a second handle

const T_COUNT: i128 = 1;
const T_TAG: i128 = 2;
const T_MIN: i128 = 4;
const T_MAX: i128 = 8;

pub struct Pool {
    want: &'static str,
    entry: TyId,
    region: Vec<P>,
    tag: Option<Vec<P>>,
    free: Vec<P>,
    /// argument values: size asked for, tag asked for, callback
    size: Option<Val>,
    rtag: Option<(Val, TyId)>,
    cb: Option<Val>,
    mode: Mode,
}
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Alloc,
    Maintain,
    Drop,
}

fn is_cb(e: &Eng, t: TyId) -> bool {
    let ty = e.ty(t);
    ty.is_box && ty.args.first().map_or(false, |a| e.ty(*a).k == Kind::Dyn)
}
fn opt_cb(e: &Eng, t: TyId) -> bool {
    let ty = e.ty(t);
    ty.path == "core::option::Option" && ty.args.first().map_or(false, |a| is_cb(e, *a))
}
fn opt_string(e: &Eng, t: TyId) -> bool {
    let ty = e.ty(t);
    ty.path == "core::option::Option" && ty.args.first().map_or(false, |a| e.ty(*a).path == "alloc::string::String")
}
/// the element of a collection a value is part of
fn elem_in(v: Val) -> Option<Val> {
    match nd(v) {
        N::Op("elem", _) => Some(v),
        N::Op("dataof", a) | N::Op("padd", a) | N::Op("len", a) => elem_in(a[0]),
        N::Op("cast", a) => elem_in(a[1]),
        N::Deref(p) => elem_in(*p),
        N::Fld(x, _) => elem_in(*x),
        N::Ref(c, _) => match cell(*c) {
            Cell::Der(p) => elem_in(p),
            _ => None,
        },
        _ => None,
    }
}
/// the element of the outer collection
fn outer(v: Val) -> Option<Val> {
    match nd(v) {
        N::Op("elem", a) => elem_in(a[0]),
        _ => None,
    }
}

impl Pool {
    fn bad(&self, e: &mut Eng, st: &State, props: &str, key: &str, msg: &str) {
        if props.split('+').any(|p| p == self.want) {
            e.report(st, key, msg.to_string());
        }
    }
    fn field(&self, e: &mut Eng, st: &State, ep: Val, path: &[P]) -> Val {
        let (c, mut p) = e.target(ep, Some(self.entry));
        p.extend(path.iter().cloned());
        e.read(st, c, &p)
    }
    fn ty_at(&self, e: &Eng, path: &[P]) -> TyId {
        e.walk_ty(self.entry, path).unwrap_or(e.prog.unk)
    }
    /// 0: no callback, 1: one, None: not known
    fn pending(&self, e: &mut Eng, st: &State, ep: Val) -> Option<u32> {
        let v = self.field(e, st, ep, &self.free);
        let t = self.ty_at(e, &self.free);
        e.variant(st, v, t)
    }
    fn free_of_others(&self, e: &Eng, st: &State, ep: Val) -> Option<bool> {
        let v = st.g(RC, ep)?;
        match e.range(st, v) {
            (Some(1), Some(1)) => return Some(true),
            (Some(l), _) if l > 1 => return Some(false),
            (_, Some(h)) if h < 1 => return Some(false),
            _ => {}
        }
        match e.known(st, mk_eq(v, int(1))) {
            Some(1) => Some(true),
            Some(0) => Some(false),
            _ => None,
        }
    }
    fn tags_equal(&self, e: &mut Eng, st: &State, ep: Val) -> bool {
        let (q, qt) = match self.rtag {
            Some(x) => x,
            None => return false,
        };
        let path = match &self.tag {
            Some(p) => p.clone(),
            None => return false,
        };
        let t = self.field(e, st, ep, &path);
        let tt = self.ty_at(e, &path);
        match (e.variant(st, q, qt), e.variant(st, t, tt)) {
            (Some(0), Some(0)) => true,
            (Some(1), Some(1)) => {
                let a = e.project(q, P::D(1));
                let a = e.project(a, P::F(0));
                let b = e.project(t, P::D(1));
                let b = e.project(b, P::F(0));
                let (a, b) = (models::s_content(a), models::s_content(b));
                e.known(st, mk_eq(a, b)) == Some(1) || e.known(st, mk_eq(b, a)) == Some(1) || self.eq_fact(e, st, a, b)
            }
            _ => false,
        }
    }
    /// some comparison of the two texts holds
    fn eq_fact(&self, _e: &Eng, st: &State, a: Val, b: Val) -> bool {
        st.facts.iter().any(|(k, f)| match (nd(*k), f.eq) {
            (N::Op("eq", x), Some(1)) => {
                let p = |v: Val, w: Val| v == w || any_sub(v, &mut |y| y == w);
                (p(x[0], a) && p(x[1], b)) || (p(x[0], b) && p(x[1], a))
            }
            _ => false,
        })
    }
    fn fits(&self, e: &mut Eng, st: &State, ep: Val) -> i128 {
        let mut n = 0;
        if self.free_of_others(e, st, ep) == Some(true) {
            n |= T_COUNT;
        }
        if self.tags_equal(e, st, ep) {
            n |= T_TAG;
        }
        let mut sizes = vec![];
        if let Some(m) = outer(ep) {
            let k = op("mapkey", vec![m]);
            sizes.push(k);
            sizes.push(e.load(st, k, None));
        }
        let k = op("mapkey", vec![ep]);
        sizes.push(k);
        sizes.push(e.load(st, k, None));
        let r = self.field(e, st, ep, &self.region);
        let rt = self.ty_at(e, &self.region);
        for p in paths_to(e, rt, &|e, t| e.ty(t).k == Kind::Uint && e.ty(t).size == Some(8)) {
            sizes.push(along(e, r, &p));
        }
        if let Some(s) = self.size {
            for k in sizes {
                // a product that is cut off is not above the product
                for two in [op("satmul", vec![s, int(2)]), op("satmul", vec![int(2), s])] {
                    if e.known(st, mk_lt(k, two)) == Some(1) {
                        n |= T_MAX;
                    }
                }
                let (k, s) = (lin(k), lin(s));
                if e.upper(st, &s.add(&k, -1), 3).map_or(false, |u| u <= 0) {
                    n |= T_MIN;
                }
                // less than twice as large
                if e.upper(st, &k.add(&s.scale(2), -1).add(&Lin::k(1), 1), 3).map_or(false, |u| u <= 0) {
                    n |= T_MAX;
                }
            }
        }
        n
    }
    fn carries(&self, v: Val) -> bool {
        self.cb.map_or(false, |c| v == c || any_sub(v, &mut |x| x == c))
    }
    /// the content of the callback field of a value of the entry type
    fn has_request(&self, e: &mut Eng, st: &State, v: Val) -> bool {
        if self.cb.is_none() {
            return true;
        }
        let f = along(e, v, &self.free);
        if e.variant(st, f, self.ty_at(e, &self.free)) == Some(0) {
            return false;
        }
        if self.carries(f) {
            return true;
        }
        let b = e.project(f, P::D(1));
        let b = e.project(b, P::F(0));
        let w = e.load(st, b, None);
        self.carries(w)
    }
    /// an entry that maintenance is done with
    fn settled(&mut self, e: &mut Eng, st: &mut State, ep: Val) {
        e.count("entries maintained");
        if self.pending(e, st, ep) == Some(0) || st.g(RAN, ep).is_some() {
            return;
        }
        match self.free_of_others(e, st, ep) {
            Some(false) => {}
            Some(true) => st.gset(PASS, int(ENTRY), int(1)),
            None => st.gset(PASS, int(ENTRY), int(2)),
        }
    }
    /// The state of the passes over the pool: a pass over all sizes in which the entries of each
    /// were all looked at is what maintenance has to contain.
    fn step(&mut self, st: &mut State, entries: bool, elem: Option<Val>) {
        if entries {
            match elem {
                Some(ep) => {
                    st.gset(CUR, int(0), ep);
                    st.gclear(RC);
                    st.gclear(RAN);
                }
                None => {
                    match st.g(PASS, int(ENTRY)) {
                        None => st.gset(PASS, int(SETTLED), int(1)),
                        Some(r) => st.gset(PASS, int(WHY), r),
                    }
                    st.gdel(PASS, int(ENTRY));
                }
            }
            return;
        }
        if st.g(PASS, int(INSIDE)).is_some() && st.g(PASS, int(SETTLED)).is_none() {
            let r = st.g(PASS, int(WHY)).unwrap_or(int(3));
            st.gset(PASS, int(FAILED), r);
        }
        for k in [INSIDE, SETTLED, WHY, ENTRY] {
            st.gdel(PASS, int(k));
        }
        match elem {
            Some(_) => st.gset(PASS, int(INSIDE), int(1)),
            None => {
                match st.g(PASS, int(FAILED)) {
                    None => st.gset(PASS, int(ALL), int(1)),
                    Some(r) => st.gset(PASS, int(LAST), r),
                }
                st.gdel(PASS, int(FAILED));
            }
        }
    }
    fn next_one(&mut self, e: &mut Eng, st: &mut State) {
        if let Some(x) = st.g(CUR, int(0)) {
            st.gdel(CUR, int(0));
            self.settled(e, st, x);
        }
    }
}

impl Mon for Pool {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        let f = last(&c.rp).to_string();
        let own = c.rp.starts_with("ipmb::") || c.rp.starts_with("<ipmb::");
        let arg_region = c.argtys.first().map_or(false, |t| is_region(e, peel(e, *t)));
        if own && f == "clone" && arg_region {
            let src = elem_in(c.args[0]);
            let mut out = vec![];
            let mut no = st.clone();
            let er = e.fresh(&mut no, c.ctx, c.bb, 1);
            out.push((no, err(c.ret, er)));
            let mut yes = st.clone();
            let r = e.fresh(&mut yes, c.ctx, c.bb, 0);
            match src {
                Some(ep) => {
                    let n = self.fits(e, st, ep);
                    e.site("pooled region taken", site(e, c));
                    yes.gset(FROM, r, ep);
                    yes.gset(FIT, r, int(n));
                    yes.gdel(RC, ep);
                }
                None => {
                    let t = peel(e, c.argtys[0]);
                    let v = e.load(st, c.args[0], Some(t));
                    yes.gset(FROM, r, v);
                    if let Some(n) = yes.g(NEW, v) {
                        yes.gset(NEW, r, n);
                    }
                }
            }
            out.push((yes, ok(c.ret, r)));
            return Act::Forks(out);
        }
        if own && f == "new" && e.ty(c.ret).path == "core::option::Option" && result_region(e, c.ret) && c.args.len() == 1 {
            e.site("new region", site(e, c));
            let no = (st.clone(), none(c.ret));
            let mut yes = st.clone();
            let r = e.fresh(&mut yes, c.ctx, c.bb, 0);
            yes.gset(NEW, r, c.args[0]);
            return Act::Forks(vec![no, (yes, some(c.ret, r))]);
        }
        // the pool is searched for a place
        if c.rp.contains("btree::map::BTreeMap") && matches!(f.as_str(), "entry" | "insert" | "get_mut") && c.args.len() > 1 {
            let k = if f == "get_mut" { e.load(st, c.args[1], None) } else { c.args[1] };
            st.gset(KEY, k, int(1));
        }
        if f == "box_assume_init_into_vec_unsafe" && models::seq_elem(e, c.ret) == Some(self.entry) {
            // a list with one entry
            let v = e.load(st, c.args[0], None);
            let mut found = None;
            any_sub(v, &mut |x| {
                if let N::Agg(t, _, _) = nd(x) {
                    if *t == self.entry {
                        found = Some(x);
                    }
                }
                found.is_some()
            });
            if let Some(v) = found {
                self.put(e, st, c, v);
            }
        }
        if !own {
            for (i, t) in c.argtys.clone().iter().enumerate() {
                if *t == self.entry || e.ty(*t).k == Kind::Array && e.ty(*t).elem == Some(self.entry) {
                    let v = if *t == self.entry { c.args[i] } else { e.project(c.args[i], P::C(0, false)) };
                    self.put(e, st, c, v);
                }
            }
        }
        if (c.rp.contains("FnOnce") || c.p.contains("FnOnce")) && f == "call_once" && c.argtys.first().map_or(false, |t| is_cb(e, *t)) {
            self.callback(e, st, c.args[0], &site(e, c));
            return Act::Ret(unit());
        }
        if c.rp == "sa::remove" || c.p == "sa::remove" {
            let ep = c.args[1];
            let of_entry = matches!(next_ty(e, c), Some(t) if t == self.entry) || st.g(CUR, int(0)) == Some(ep);
            if of_entry {
                let p = self.pending(e, st, ep);
                if p != Some(0) && self.free_of_others(e, st, ep) != Some(true) {
                    self.bad(e, st, "C17", "an entry with a callback is dropped", "an entry is dropped from the pool, and its callback run, although its region is not known to be free");
                }
                if p != Some(0) {
                    st.gset(RAN, ep, int(1));
                }
            } else {
                let k = match nd(ep) {
                    N::Agg(_, _, a) if a.len() == 2 => a[1],
                    _ => ep,
                };
                let v = e.load(st, k, None);
                let l = mk_len(v);
                if e.known(st, mk_eq(l, int(0))) != Some(1) && e.upper(st, &lin(l), 2).map_or(true, |u| u > 0) {
                    self.bad(e, st, "C17", "entries of a size are dropped", "all entries of a size are dropped from the pool although they are not known to be none");
                }
            }
        }
        Act::Default
    }
    fn after(&mut self, e: &mut Eng, st: &mut State, c: &Call, ret: Val) {
        if let Some((_, Some(0))) = counter_op(e, c) {
            if let Some(ep) = elem_in(c.args[0]) {
                e.site("count of a pooled region read", site(e, c));
                st.gset(RC, ep, ret);
            }
        }
    }
    fn on_next(&mut self, e: &mut Eng, st: &mut State, c: &Call, _seq: Val, elem: Option<Val>) {
        if self.mode != Mode::Maintain {
            st.gclear(RC);
            st.gclear(RAN);
            let _ = elem;
            return;
        }
        let t = next_ty(e, c);
        let entries = t == Some(self.entry);
        if !entries && !t.map_or(false, |t| models::seq_elem(e, t) == Some(self.entry)) {
            return;
        }
        e.site(if entries { "maintenance of entries" } else { "maintenance of sizes" }, site(e, c));
        self.next_one(e, st);
        if st.g(PASS, int(ALL)).is_none() {
            self.step(st, entries, elem);
        } else if let (true, Some(ep)) = (entries, elem) {
            let _ = ep;
            st.gclear(RC);
            st.gclear(RAN);
        }
    }
    fn on_drop(&mut self, e: &mut Eng, st: &mut State, ty: TyId, v: Val, cell: CellId, path: &[P]) {
        if opt_cb(e, ty) {
            if e.variant(st, v, ty).is_none() {
                self.dropped(e, st, v);
            }
            return;
        }
        if !is_cb(e, ty) {
            return;
        }
        let v = if v == undef() { e.read(st, cell, path) } else { v };
        self.dropped(e, st, v);
    }
    fn on_write(&mut self, e: &mut Eng, st: &mut State, c: CellId, path: &[P], v: Val) {
        let ep = match super::super::val::cell(c) {
            Cell::Der(p) => p,
            _ => return,
        };
        if !matches!(nd(ep), N::Op("elem", _)) || e.celltype.get(&c) != Some(&self.entry) {
            return;
        }
        let touches = |f: &[P]| path.len() <= f.len() && f[..path.len()] == path[..] || path.len() > f.len() && path[..f.len()] == f[..];
        if touches(&self.region) || self.tag.as_ref().map_or(false, |t| touches(t)) {
            self.bad(e, st, "C16", "an entry is changed", "the region or the tag of an entry of the pool is replaced");
        }
        if self.mode == Mode::Alloc && touches(&self.free) && self.carries_deep(e, st, v) {
            st.gset(KEPT, int(0), ep);
        }
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        match self.mode {
            Mode::Drop => {}
            Mode::Maintain => {
                self.next_one(e, st);
                if st.g(PASS, int(ALL)).is_none() {
                    match st.g(PASS, int(LAST)).and_then(as_int) {
                        Some(1) => self.bad(e, st, "C17", "a callback is kept although its region is free", "maintenance finds a region that nobody else references and leaves its callback waiting"),
                        Some(2) => self.bad(e, st, "C17", "a callback is not looked at", "maintenance leaves an entry that may have a callback without asking whether its region is free"),
                        Some(_) => self.bad(e, st, "C17", "maintenance skips entries", "maintenance goes to the next size before all entries of one were looked at"),
                        None => self.bad(e, st, "C17", "maintenance stops early", "maintenance ends before all entries were looked at"),
                    }
                }
            }
            Mode::Alloc => {
                let t = e.f(e.ctxs[st.ctx as usize].f).locals[0];
                match e.variant(st, ret, t) {
                    Some(0) => {
                        e.count("refused requests");
                        return;
                    }
                    Some(_) => {}
                    None => return self.bad(e, st, "C16", "the outcome is not known", "an allocation ends with a result that is neither known to be a region nor none"),
                }
                let r = e.project(ret, P::D(1));
                let r = e.project(r, P::F(0));
                if let Some(n) = st.g(NEW, r) {
                    e.count("new regions handed out");
                    if let Some(s) = self.size {
                        if !e.upper(st, &lin(s).add(&lin(n), -1), 3).map_or(false, |u| u <= 0) {
                            self.bad(e, st, "C16", "a new region may be too small", &format!("a new region is made with {} bytes where {} were asked for", show(n), show(s)));
                        }
                    }
                    if self.cb.is_some() && st.gi(PUT) != 1 {
                        self.bad(e, st, "C17", "a callback without an entry", "a new region is handed out with a callback, but neither is put into the pool");
                    }
                } else if let (Some(ep), Some(n)) = (st.g(FROM, r), st.g(FIT, r).and_then(as_int)) {
                    e.count("pooled regions handed out");
                    for (b, k, m) in [
                        (T_COUNT, "not known to be free", "a pooled region is handed out although its count is not known to be one at that moment"),
                        (T_TAG, "not known to have the same tag", "a pooled region is handed out although its tag is not known to equal the tag of the request"),
                        (T_MIN, "may be too small", "a pooled region is handed out that is not known to have the size asked for"),
                        (T_MAX, "may be too large", "a pooled region is handed out that is not known to be less than twice as large as asked for"),
                    ] {
                        if n & b == 0 {
                            self.bad(e, st, "C16", &format!("a pooled region {k}"), m);
                        }
                    }
                    if self.cb.is_some() && st.g(KEPT, int(0)) != Some(ep) {
                        self.bad(e, st, "C17", "a reused region without the new callback", "a pooled region is handed out, but the callback of the request is not stored with it");
                    }
                    if self.cb.is_none() {
                        // the former callback has run, at the latest now
                        if self.pending(e, st, ep) != Some(0) {
                            self.bad(e, st, "C17", "a reused region with the former callback", "a pooled region is handed out again before the callback of its former allocation was run");
                        }
                    }
                } else {
                    self.bad(e, st, "C16", "a region from elsewhere", &format!("the region that is handed out is neither new nor from the pool: {}", show(r)));
                }
                if st.gi(LOST) == 1 {
                    self.bad(e, st, "C17", "a callback is lost", "a region is handed out, but the callback of the request was dropped without being run");
                }
                if st.gi(CALLED) == 1 {
                    self.bad(e, st, "C17", "maintenance before the region is handed out", "callbacks are run while the region of this request has no second handle yet: its own callback may be among them");
                }
            }
        }
    }
}

impl Pool {
    fn carries_deep(&self, e: &mut Eng, st: &State, v: Val) -> bool {
        if self.cb.is_none() {
            return false;
        }
        if self.carries(v) {
            return true;
        }
        let mut cells = vec![];
        any_sub(v, &mut |x| {
            if let N::Ref(c, p) = nd(x) {
                cells.push((*c, p.clone()));
            }
            false
        });
        cells.into_iter().any(|(c, p)| {
            let w = e.read(st, c, &p);
            self.carries(w)
        })
    }
    fn entry_of(&self, e: &mut Eng, st: &State, v: Val) -> Option<Val> {
        let _ = (e, st);
        elem_in(v)
    }
    fn dropped(&mut self, e: &mut Eng, st: &mut State, v: Val) {
        if self.carries_deep(e, st, v) {
            st.gseti(LOST, 1);
            return;
        }
        if self.entry_of(e, st, v).is_some() {
            self.bad(e, st, "C17", "a stored callback is dropped", "a callback that is stored in the pool ends without being run");
        }
    }
    fn callback(&mut self, e: &mut Eng, st: &mut State, v: Val, at: &str) {
        e.site("callback run", at.to_string());
        if self.carries_deep(e, st, v) {
            return self.bad(e, st, "C17", "a callback is run at its allocation", "the callback of a request is run by the request itself");
        }
        let ep = match self.entry_of(e, st, v) {
            Some(x) => x,
            None => return,
        };
        if st.g(RAN, ep).is_some() {
            self.bad(e, st, "C17", "a callback is run twice", "the callback of an entry is run twice");
        }
        st.gset(RAN, ep, int(1));
        if self.mode == Mode::Drop {
            return;
        }
        // taking a handle for the new owner does not count
        let taken = st.gkeys(FROM).into_iter().any(|(r, x)| x == ep && st.g(FIT, r).and_then(as_int).map_or(false, |n| n & T_COUNT != 0));
        if self.free_of_others(e, st, ep) != Some(true) && !taken {
            self.bad(e, st, "C17", "a callback is run too early", "a callback is run although the region of its allocation is not known to be free");
        }
        if self.mode == Mode::Alloc && self.cb.is_some() && st.g(KEPT, int(0)).map_or(false, |k| k != ep) && st.gkeys(FROM).is_empty() {
            st.gseti(CALLED, 1);
        }
    }
    fn put(&mut self, e: &mut Eng, st: &mut State, c: &Call, v: Val) {
        e.site("entry put into the pool", site(e, c));
        let r = along(e, v, &self.region);
        st.gseti(PUT, 1);
        match st.g(NEW, r) {
            Some(n) => {
                for (k, _) in st.gkeys(KEY) {
                    if lin(k).add(&lin(n), -1).is_const() != Some(0) {
                        self.bad(e, st, "C16", "an entry under another size", &format!("a region of {} bytes is put into the pool under {}", show(n), show(k)));
                    }
                }
            }
            None => self.bad(e, st, "C16", "something else is put into the pool", &format!("the region that is put into the pool is not the new one: {}", show(r))),
        }
        if let (Some((q, qt)), Some(p)) = (self.rtag, self.tag.clone()) {
            let t = along(e, v, &p);
            let tt = self.ty_at(e, &p);
            let same = match (e.variant(st, q, qt), e.variant(st, t, tt)) {
                (Some(0), Some(0)) => true,
                (Some(1), Some(1)) => {
                    let a = e.project(q, P::D(1));
                    let a = e.project(a, P::F(0));
                    let b = e.project(t, P::D(1));
                    let b = e.project(b, P::F(0));
                    let (a, b) = (models::s_content(a), models::s_content(b));
                    e.known(st, mk_eq(a, b)) == Some(1) || a == b || any_sub(b, &mut |x| x == a)
                }
                _ => false,
            };
            if !same {
                self.bad(e, st, "C16", "an entry with another tag", &format!("the tag an entry is stored with is not that of the request: {} and {}", show(t), show(q)));
            }
        }
        if self.cb.is_some() {
            if self.has_request(e, st, v) {
                st.gset(KEPT, int(0), r);
            } else {
                self.bad(e, st, "C17", "an entry without the callback", "an entry is put into the pool without the callback of the request");
            }
        }
    }
}
fn err(t: TyId, v: Val) -> Val {
    models::err(t, v)
}
fn ok(t: TyId, v: Val) -> Val {
    models::ok(t, v)
}
fn some(t: TyId, v: Val) -> Val {
    models::some(t, v)
}
fn none(t: TyId) -> Val {
    models::none(t)
}
fn result_region(e: &Eng, t: TyId) -> bool {
    e.ty(t).args.first().map_or(false, |a| is_region(e, *a))
}

pub fn registry(id: &'static str, env: &Env, rep: &mut Rep) {
    let mut e = env.core();
    e.focus_repo(80);
    e.keep_ovf = true;
    let entry = (0..e.prog.types.len() as TyId)
        .filter(|t| e.ty(*t).krate.starts_with("ipmb") && e.ty(*t).k == Kind::Struct && path_to(&e, *t, &is_region).map_or(false, |p| !p.is_empty()) && path_to(&e, *t, &opt_cb).is_some())
        .min_by_key(|t| e.ty(*t).size.unwrap_or(u64::MAX));
    let entry = match entry {
        Some(t) => t,
        None => return rep.bad("anchor: entry", "no type of this program holds a region and a callback".into(), "whole program".into()),
    };
    let region = path_to(&e, entry, &is_region).unwrap();
    let free = path_to(&e, entry, &opt_cb).unwrap();
    let tag = path_to(&e, entry, &opt_string);
    if tag.is_none() {
        rep.bad("anchor: tag", "entries of the pool have no tag".into(), "whole program".into());
    }
    for (n, mode) in [("root_alloc", Mode::Alloc), ("root_alloc_free", Mode::Alloc), ("root_maintain", Mode::Maintain), ("root_registry_drop", Mode::Drop)] {
        let f = match root(&e, n) {
            Some(f) => f,
            None => {
                rep.bad(&format!("anchor: {n}"), "a use of the registry is missing in the fixture".into(), "whole program".into());
                continue;
            }
        };
        rep.site("use of the registry followed", n.to_string());
        let arg = |i: &str| mk(N::Param(i.into()));
        let a = mode == Mode::Alloc;
        let m = Pool {
            want: id,
            entry,
            region: region.clone(),
            tag: tag.clone(),
            free: free.clone(),
            size: a.then(|| arg("arg2")),
            rtag: a.then(|| (arg("arg3"), par(e.f(f))[2])),
            cb: (n == "root_alloc_free").then(|| arg("arg4")),
            mode,
        };
        run(&mut e, rep, f, Box::new(m), &mut |_, st| {
            if a {
                st.gset(ASKKEY, int(0), arg("arg3"));
            }
        });
    }
    rep.floor("new region", 1);
    rep.floor("pooled region taken", 1);
    rep.floor("entry put into the pool", 1);
    rep.floor("count of a pooled region read", 1);
    if id == "C17" {
        rep.floor("callback run", 1);
        rep.floor("maintenance of entries", 1);
        // nothing takes a callback out of ownership
        for (f, _, c, sp) in repo_calls(&e) {
            let p = c.rp.as_str();
            let lose = ["core::mem::forget", "alloc::boxed::Box::<T>::leak", "alloc::boxed::Box::<T>::into_raw", "core::mem::manually_drop::ManuallyDrop", "core::ptr::read", "alloc::rc::Rc::<T>::new"];
            if lose.iter().any(|l| p.starts_with(l)) && c.args.iter().any(|t| path_to(&e, *t, &opt_cb).is_some() || is_cb(&e, *t)) {
                rep.bad(&format!("{} in {}", last(p), e.f(f).p), "a callback or something that holds one is taken out of ownership: it is not run when it is dropped".into(), sp);
            }
        }
    }
}
