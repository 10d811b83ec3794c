//! The datagram: what the writer puts where and what the reader takes from where (C11), how
//! attachments are laid out and taken apart (C12), what the reader does with malformed data (C10)
//! and with datagrams of other versions (C02), and the counts of received regions (C14).
use super::controller::{is_compat, is_encode};
use super::util::*;
use super::wire::{is_region, counter_op};
use super::*;
use crate::eng::{mk_data, mk_eq, mk_len, mk_lt, mk_padd};
use crate::lin::{lin, Lin};
use crate::models;

const RES: u16 = 220; // residue of the selector length, plus one
const BASE: u16 = 221; // buffer for the data
const CTL: u16 = 222; // buffer for the attachments
const CLEN: u16 = 223; // length of the attachments
const GOT: u16 = 224; // bytes received
const LEN: u16 = 225; // the selector length read
const COMP: u16 = 226; // 1 compatible, 2 not
const VOFF: u16 = 227; // offset of the version word
const POP: u16 = 228; // 1 the reply pipe was taken, 2 there was none
const RES2: u16 = 229; // residue of the payload length, plus one
const WR: u16 = 230; // (offset) -> value written
const INIT: u16 = 231; // buffer -> count of zeroed bytes
const PH: u16 = 232; // objects gone through 1, regions gone through 2
const CUR: u16 = 233;
const WROTE: u16 = 234;
const CNT: u16 = 235; // region -> change of its count, plus 100
const NEWR: u16 = 236;
const TAIL: u16 = 237; // list taken off the end of the received attachments
const HEAD: u16 = 238;
const SEEN: u16 = 240; // bound of the last counting step
const FULL: u16 = 241; // length of the header in the control data
const LIST: u16 = 242; // list of received attachments
const PUT: u16 = 243; // the attachment at hand was put into the list
const SPLIT: u16 = 244; // the list was divided
const NET: u16 = 281; // change of its count so far
const MADE: u16 = 245; // 1 region made of the element at hand, 2 it failed
const ENUM: u16 = 247; // element -> its number
const CUT: u16 = 246; // the control data was cut
const ROOM: u16 = 239; // buffer large enough for the attachments

pub fn is_msg(e: &Eng, t: TyId) -> bool {
    named(e, t, "EncodedMessage")
}
fn is_object(e: &Eng, t: TyId) -> bool {
    !is_region(e, t) && e.ty(t).k == Kind::Struct && e.ty(t).krate.starts_with("ipmb") && e.ty(t).variants[0].fields.len() == 1 && e.ty(e.ty(t).variants[0].fields[0].1).path == "std::os::fd::owned::OwnedFd"
}
fn list_of(e: &Eng, t: TyId, f: &dyn Fn(&Eng, TyId) -> bool) -> bool {
    matches!(e.ty(t).k, Kind::Struct) && models::seq_elem(e, t).map_or(false, |x| f(e, x))
}
pub fn objects(e: &Eng, t: TyId) -> Option<Vec<P>> {
    path_to(e, t, &|e, t| list_of(e, t, &is_object))
}
pub fn regions(e: &Eng, t: TyId) -> Option<Vec<P>> {
    path_to(e, t, &|e, t| list_of(e, t, &is_region))
}
fn selector(e: &Eng, t: TyId) -> Option<Vec<P>> {
    path_to(e, t, &|e, t| named(e, t, "Selector"))
}
fn payload_slice(e: &Eng, t: TyId) -> Option<Vec<P>> {
    path_to(e, t, &|e, t| e.ty(t).k == Kind::Ref && e.ty(t).elem.map_or(false, |x| e.ty(x).k == Kind::Slice))
}
fn split(p: Val) -> (Val, Val) {
    match is_op(p, "padd") {
        Some(a) => (a[0], a[1]),
        None => (p, int(0)),
    }
}
fn canon(l: &Lin, q: Option<Val>, s: Option<Val>) -> String {
    // the quarter of the selector length is q, of the payload length p
    let mut out = vec![];
    for (v, k) in &l.t {
        let n = if Some(*v) == q {
            "q".to_string()
        } else if Some(*v) == s {
            "p".to_string()
        } else {
            show(*v)
        };
        out.push(format!("{k}*{n}"));
    }
    out.sort();
    out.push(l.c.to_string());
    out.join("+")
}
fn quarts(l: &Lin) -> Vec<Val> {
    l.t.keys().copied().filter(|k| is_op(*k, "quart").is_some()).collect()
}

/// one row of the layout, for a residue of the selector length
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct Row {
    pub version: String,
    pub magic: i128,
    pub order: Vec<i128>,
    pub sel_len: String,
    pub sel: String,
    pub sel_n: String,
    pub pay_len: String,
    pub pay: String,
}
impl Row {
    fn diff(&self, w: &Row) -> Option<String> {
        for (n, a, b) in [
            ("the version word", &self.version, &w.version),
            ("the length of the selector", &self.sel_len, &w.sel_len),
            ("the selector", &self.sel, &w.sel),
            ("the end of the selector", &self.sel_n, &w.sel_n),
            ("the length of the payload", &self.pay_len, &w.pay_len),
            ("the payload", &self.pay, &w.pay),
        ] {
            if a != b {
                return Some(format!("{n} is written at {b} but read at {a} (q: quarter of the selector length)"));
            }
        }
        if self.magic != w.magic {
            return Some(format!("the first byte written is {}, but {} is expected", w.magic, self.magic));
        }
        if self.order != w.order {
            return Some(format!("the version's components are written in the order {:?}, but read in the order {:?}", w.order, self.order));
        }
        None
    }
}
pub type Rows = Rc<RefCell<BTreeSet<(i128, Row, String)>>>;

// ------------------------------------------------------------------------------------ reader

pub struct Rx {
    want: &'static str,
    okty: TyId,
    errty: TyId,
    rows: Rows,
    root: FnId,
}
impl Rx {
    fn bad(&self, e: &mut Eng, st: &State, props: &str, key: &str, msg: &str) {
        if props.split('+').any(|p| p == self.want) {
            e.report(st, key, msg.to_string());
        }
    }
    fn base(&self, st: &State) -> Val {
        st.g(BASE, unit()).unwrap_or_else(undef)
    }
    /// offset in the received data at which the term was read
    fn offset(&self, e: &mut Eng, st: &State, x: Val) -> Option<Val> {
        let b = self.base(st);
        if let N::Deref(p) = nd(x) {
            let (q, o) = split(*p);
            if q == b {
                return Some(o);
            }
        }
        if e.load(st, b, None) == x {
            return Some(int(0));
        }
        None
    }
    /// the u32 read from the received data: its offset
    fn word(&self, e: &mut Eng, st: &State, v: Val) -> Option<Val> {
        let a = is_op(v, "u32ne")?;
        let s = is_op(a[0], "arr")?;
        let x = match is_op(s[0], "slice") {
            Some(y) => y[0],
            None => s[0],
        };
        self.offset(e, st, x)
    }
    fn row(&mut self, e: &mut Eng, st: &mut State, v: Val) {
        let k = e.f(self.root).p.clone();
        let res = st.gi(RES) - 1;
        let (sp, pp) = match (selector(e, self.okty), payload_slice(e, self.okty)) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        let sel = along(e, v, &sp);
        let pay = along(e, v, &pp);
        let mut r = Row::default();
        let len = st.g(LEN, unit());
        let q = len.map(|l| op("quart", vec![l]));
        let miss = |me: &Self, e: &mut Eng, st: &State, what: &str, x: Val| {
            me.bad(e, st, "C11", &format!("{what} is not taken from the datagram in {k}"), &format!("{what} ({}) of a received message is not read at a determined place of the datagram", show(x)));
        };
        if res < 0 {
            return miss(self, e, st, "the length of the selector", unit());
        }
        r.sel_len = match len.and_then(|l| self.word(e, st, l)) {
            Some(o) => canon(&lin(o), q, None),
            None => return miss(self, e, st, "the length of the selector", unit()),
        };
        let src = is_op(sel, "decoded").and_then(|a| is_op(a[2], "slice"));
        match src.and_then(|a| self.offset(e, st, a[0]).map(|o| (o, a[1]))) {
            Some((o, n)) => {
                r.sel = canon(&lin(o), q, None);
                r.sel_n = canon(&lin(o).add(&lin(n), 1), q, None);
            }
            None => return miss(self, e, st, "the selector", sel),
        }
        let (b, o) = split(mk_data(pay));
        if b != self.base(st) {
            return miss(self, e, st, "the payload", pay);
        }
        r.pay = canon(&lin(o), q, None);
        let n = mk_len(pay);
        let w = match nd(n) {
            N::Op("cast", a) => a[1],
            _ => n,
        };
        r.pay_len = match self.word(e, st, w) {
            Some(o) => canon(&lin(o), q, None),
            None => return miss(self, e, st, "the length of the payload", n),
        };
        // the version word
        match st.g(VOFF, unit()) {
            Some(w) => {
                r.version = match self.word(e, st, w) {
                    Some(o) => canon(&lin(o), q, None),
                    None => return miss(self, e, st, "the version", w),
                };
                let b0 = op("bytes32", vec![w]);
                r.order = st.g(VOFF, int(1)).map(|a| crate::val::nd(a)).and_then(|n| match n {
                    N::Agg(_, _, f) => Some(f.iter().filter_map(|x| as_int(*x)).collect()),
                    _ => None,
                }).unwrap_or_default();
                let first = (0..4).find(|i| !r.order.contains(i)).unwrap_or(0);
                let xs = [e.project(b0, P::C(first as u64, false)), e.project(b0, P::I(int(first))), e.project(b0, P::C(4 - first as u64, true))];
                match xs.iter().find_map(|x| e.known(st, *x)) {
                    Some(m) => r.magic = m,
                    None => return self.bad(e, st, "C11", &format!("the mark is not checked in {k}"), "a datagram is accepted although its first byte was not found to be the expected one"),
                }
                r.order.insert(0, first);
            }
            None => return self.bad(e, st, "C11+C02", &format!("the version is not checked in {k}"), "a datagram is accepted although its version was not compared with that of the library"),
        }
        e.site("datagram taken apart", format!("{k}, residue {res}"));
        self.rows.borrow_mut().insert((res, r, k));
    }
}
fn contains(v: Val, x: Val) -> bool {
    any_sub(v, &mut |y| y == x)
}
fn mentions_ctl(v: Val, ctl: Option<Val>) -> bool {
    ctl.map_or(false, |c| contains(v, c))
}
impl Rx {
    /// does the path guarantee that the bytes lie in what was received
    fn within(&mut self, e: &mut Eng, st: &mut State, off: Val, n: Val, what: &str) {
        let k = e.f(self.root).p.clone();
        let got = match st.g(GOT, int(1)) {
            Some(g) => g,
            None => return,
        };
        e.site("access to received data", format!("{what} in {k}"));
        let end = lin(off).add(&lin(n), 1);
        let pos = |d: &Lin, e: &Eng| d.c >= 0 && d.t.iter().all(|(x, k)| *k >= 0 && (unsigned(*x) || e.range(st, *x).0.map_or(false, |l| l >= 0)));
        let mut ok = false;
        for (f, v) in &st.facts {
            if let (Some(a), Some(0)) = (is_op(*f, "lt"), v.eq) {
                // a[0] >= a[1]
                let (x, y) = (lin(a[0]), lin(a[1]));
                for t in x.t.keys().copied() {
                    if x.t[&t] == 1 && limited(t, got) {
                        let mut r = Lin::default();
                        r.t.insert(t, 1);
                        // t - end - (x - y) is not negative
                        let d = r.add(&end, -1).add(&x, -1).add(&y, 1);
                        if pos(&d, e) {
                            ok = true;
                        }
                    }
                }
            }
        }
        if !ok {
            let (lo, _) = e.range(st, strip(got));
            if let (Some(l), Some(m)) = (lo, end.is_const()) {
                ok = l >= m;
            }
        }
        // bounds of differences
        for (f, v) in &st.facts {
            if let (Some(lo), false) = (v.lo, ok) {
                let x = lin(*f);
                if let Some(t) = x.t.iter().find(|(t, k)| **k == 1 && limited(**t, got)).map(|x| *x.0) {
                    // x - lo is not negative
                    let mut r = Lin::default();
                    r.t.insert(t, 1);
                    let d = r.add(&end, -1).add(&x, -1).add(&Lin::k(lo), 1);
                    ok = pos(&d, e);
                }
            }
        }
        if !ok {
            self.bad(e, st, "C10", &format!("{what} of received data without a check in {k}"), &format!("{what} of the bytes up to {} of a received datagram is not preceded by a check that so many were received", show(end.val())));
        }
    }
    /// slices of the received data handed on
    fn slices(&mut self, e: &mut Eng, st: &mut State, c: &Call) {
        if c.rp.starts_with("core::slice::raw::from_raw_parts") && c.args.len() == 2 {
            let (b, o) = split(c.args[0]);
            if b == self.base(st) {
                let sz = e.pointee(c.argtys[0]).and_then(|t| e.ty(t).size).unwrap_or(1) as i128;
                let n = lin(c.args[1]).scale(sz).val();
                self.within(e, st, o, n, "a slice");
            }
        }
        if matches!(last(&c.rp), "get_unchecked" | "get_unchecked_mut") {
            if split(mk_data(c.args[0])).0 == self.base(st) {
                self.bad(e, st, "C10", &format!("{}: unchecked", site(e, c)), "received data is accessed without a check of its bounds");
            }
        }
    }
    /// what happens to the attachments
    fn attachments(&mut self, e: &mut Eng, st: &mut State, c: &Call, m: &str) {
        let k = site(e, c);
        if m == "from_raw_fd" {
            if let (Some(ctl), N::Deref(p)) = (st.g(CTL, unit()), nd(c.args[0])) {
                let mut base = None;
                any_sub(*p, &mut |x| {
                    if x == ctl {
                        base = Some(());
                    }
                    false
                });
                if base.is_none() {
                    return;
                }
                e.site("attachment taken over", k.clone());
                self.put(e, st);
                st.gseti(PUT, 1);
                // the number of them
                if let Some(b) = st.g(SEEN, unit()) {
                    let good = match is_op(b, "div") {
                        Some(a) if as_int(a[1]) == Some(4) => {
                            let l = lin(a[0]);
                            l.c == -16 && l.t.len() == 1 && l.t.values().all(|x| *x == 1) && !l.t.keys().any(|x| Some(*x) == st.g(CLEN, unit()))
                        }
                        _ => false,
                    };
                    if !good {
                        self.bad(e, st, "C12+C10", &format!("{k}: how many"), &format!("the number of attachments taken over ({}) is not that of the descriptors in the control data", show(b)));
                    }
                }
                // one after another
                let (b, o) = split(*p);
                if b == ctl {
                    let l = lin(o);
                    let bypos = l.c >= 16 && l.c % 4 == 0 && l.t.len() == 1 && l.t.values().all(|x| *x == 4);
                    if !bypos {
                        let next = e.read(st, slot_cell(), &[]);
                        let start = matches!(nd(next), N::Undef | N::Sym(..)) && as_int(o) == Some(16);
                        if !(start || next == *p) {
                            self.bad(e, st, "C12+C10", &format!("{k}: place"), &format!("a descriptor is taken from {} instead of from behind the one before ({})", show(*p), show(next)));
                        }
                        e.write_raw(st, slot_cell(), &[], mk_padd(*p, int(4)));
                    }
                }
            }
            return;
        }
        // how many are gone through
        if m == "into_iter" || m == "next" {
            let v = models::content(e, st, c.args[0], c.argtys[0]);
            let t = peel(e, c.argtys[0]);
            if e.ty(t).path == "core::ops::range::Range" && m == "into_iter" {
                let (lo, hi) = (e.project(v, P::F(0)), e.project(v, P::F(1)));
                st.gset(SEEN, unit(), if as_int(lo) == Some(0) { hi } else { op("sub", vec![hi, lo]) });
            }
        }
        if m == "from_raw_parts" && c.args.len() == 2 && Some(split(c.args[0]).0) == st.g(CTL, unit()) {
            let sz = e.pointee(c.argtys[0]).and_then(|t| e.ty(t).size);
            if sz == Some(4) {
                st.gset(SEEN, unit(), c.args[1]);
            }
        }
        let sl = c.argtys.first().and_then(|t| e.pointee(*t)).filter(|t| e.ty(*t).k == Kind::Slice).and_then(|t| e.ty(t).elem);
        if sl.map_or(false, |t| is_object(e, t) || is_region(e, t)) && matches!(m, "swap" | "reverse" | "rotate_left" | "rotate_right" | "sort_by" | "sort_by_key" | "sort_unstable_by" | "sort_unstable_by_key" | "swap_with_slice") {
            self.bad(e, st, "C12", &format!("{k}: {m}"), "received attachments are moved: they do not arrive in their original order");
        }
        let lt = c.argtys.first().map(|t| peel(e, *t)).filter(|t| list_of(e, *t, &is_object));
        if lt.is_some() && (c.rp.contains("::Vec::<T, A>::") || c.rp.contains("SmallVec")) {
            match m {
                "push" => {
                    st.gset(LIST, unit(), c.args[0]);
                    st.gseti(PUT, 0);
                }
                "insert" | "swap" | "swap_remove" | "remove" | "reverse" | "clear" | "truncate" | "dedup" | "retain" => {
                    let end = m == "insert" && is_op(c.args[1], "len").is_some();
                    if end {
                        st.gseti(PUT, 0);
                    } else if m == "truncate" {
                        self.split_at(e, st, c, c.args[1], &k);
                    } else {
                        self.bad(e, st, "C12", &format!("{k}: {m}"), "received attachments are removed or moved: they do not arrive in their original order");
                    }
                }
                "drain" => {
                    let it = e.ty(c.argtys[1]).clone();
                    let l = models::content(e, st, c.args[0], c.argtys[0]);
                    if it.path == "core::ops::range::RangeFrom" {
                        let lo = e.project(c.args[1], P::F(0));
                        st.gset(TAIL, unit(), l);
                        self.split_at(e, st, c, lo, &k);
                    } else if it.path == "core::ops::range::Range" {
                        let lo = e.project(c.args[1], P::F(0));
                        let hi = e.project(c.args[1], P::F(1));
                        if hi == mk_len(l) {
                            st.gset(TAIL, unit(), l);
                            self.split_at(e, st, c, lo, &k);
                        } else {
                            self.bad(e, st, "C12", &format!("{k}: part"), "regions are not taken from the end of the list of attachments");
                        }
                    } else if it.path == "core::ops::range::RangeTo" {
                        // the objects are taken, the regions stay
                        let hi = e.project(c.args[1], P::F(0));
                        self.split_at(e, st, c, hi, &k);
                    }
                }
                "split_off" => {
                    self.split_at(e, st, c, c.args[1], &k);
                }
                _ => {}
            }
        }
        if m == "rev" && c.rp.contains("Iterator") {
            if let Some(t) = st.g(TAIL, unit()) {
                if contains(c.args[0], t) {
                    self.bad(e, st, "C12", &format!("{k}: reversed"), "the received regions are gone through backwards: they do not arrive in their original order");
                }
            }
        }
    }
    /// the list is divided at that index: objects before, regions behind
    fn split_at(&mut self, e: &mut Eng, st: &mut State, c: &Call, at: Val, k: &str) {
        let l = models::content(e, st, c.args[0], c.argtys[0]);
        let a = lin(at);
        let n = lin(mk_len(l));
        let d = n.add(&a, -1);
        // what is cut off is as long as the selector says
        let cnt = d.c == 0 && d.t.len() == 1 && d.t.iter().all(|(x, k)| *k == 1 && {
            let x = strip(*x);
            matches!(nd(x), N::Fld(b, P::F(_)) if is_op(*b, "decoded").is_some())
        });
        e.site("division of the attachments", k.to_string());
        if !cnt {
            self.bad(e, st, "C12", &format!("{k}: where"), &format!("the attachments are divided into objects and regions at {} instead of so many before the end as the sender attached regions", show(at)));
        }
        st.gseti(SPLIT, 1);
    }
    fn put(&mut self, e: &mut Eng, st: &mut State) {
        if st.gi(PUT) == 1 {
            self.bad(e, st, "C12", &format!("an attachment is passed over in {}", e.f(self.root).p), "a received attachment is not put into the list of the message's attachments");
        }
    }
    fn part(&mut self, e: &mut Eng, st: &mut State) {
        if st.gi(CUR) == 1 && st.gi(MADE) != 1 {
            self.bad(e, st, "C12", &format!("a region is passed over in {}", e.f(self.root).p), "a received region that is not usable is passed over and the message delivered without it");
        }
        let net = st.gi(NET);
        if st.gi(CUR) == 1 && st.gi(MADE) == 1 {
            e.site("region taken over from a message", e.f(self.root).p.clone());
            if net != 0 {
                let k = e.f(self.root).p.clone();
                self.bad(e, st, "C14", &format!("a received region's count is {} in {k}", if net > 0 { "too high" } else { "too low" }), &format!("taking over a received region changes its count by {net} in all: the count the sender added for the message in flight is what the new handle takes over"));
            }
        }
        st.gdel(CUR, unit());
        st.gseti(MADE, 0);
        st.gseti(NET, 0);
    }
    fn lists(&mut self, e: &mut Eng, st: &mut State, x: Val) {
        self.put(e, st);
        self.part(e, st);
        let k = e.f(self.root).p.clone();
        if st.gi(SPLIT) == 0 {
            // e.g. element by element
            e.count("division of the attachments not judged");
        }
        // only what was received is forwarded
        let ctl = st.g(CTL, unit());
        let n = paths_to(e, self.okty, &|e, t| e.ty(t).path == "alloc::vec::Vec" && models::seq_elem(e, t).map_or(false, |x| e.ty(x).size == Some(1))).iter().map(|p| along(e, x, p)).find(|d| Some(mk_data(*d)) == ctl).map(mk_len);
        match (n, st.g(CLEN, unit())) {
            (Some(n), Some(l)) => {
                let whole = e.known(st, mk_lt(l, n)) == Some(0) || matches!((e.range(st, l).0, as_int(n)), (Some(x), Some(y)) if x >= y);
                if !contains(n, l) && st.gi(CUT) == 0 && !whole {
                    self.bad(e, st, "C12", &format!("the control data is not cut to what was received in {k}"), &format!("a message is forwarded with {} bytes of control data instead of as many as were received: the kernel refuses it", show(n)));
                }
                e.site("control data cut to what was received", k);
            }
            _ => self.bad(e, st, "C12", &format!("the control data received is not kept in {k}"), "a received message does not keep its control data: its attachments are lost when it is forwarded"),
        }
    }
}
/// a length that is not more than what was received
fn split_addr(v: Val) -> Option<Val> {
    match nd(v) {
        N::Op("add", a) => is_op(a[0], "paddr").map(|x| x[0]),
        N::Op("paddr", a) => Some(a[0]),
        _ => None,
    }
}
fn limited(t: Val, got: Val) -> bool {
    strip(t) == got || matches!(is_op(t, "min"), Some(a) if a.iter().any(|x| strip(*x) == got))
}
fn unsigned(v: Val) -> bool {
    matches!(nd(v), N::Op("len" | "quart" | "u32ne" | "min", _)) || matches!(nd(v), N::Op("cast", a) if unsigned(a[1]) || matches!(nd(a[0]), N::Str(s) if s.starts_with('u')))
}
fn read_size(m: &str) -> Option<i128> {
    match m {
        "from_ne_bytes" | "from_le_bytes" => Some(4),
        _ => None,
    }
}
impl Mon for Rx {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        let m = last(&c.rp).to_string();
        if let (Some((_, d)), 1) = (super::wire::counter_op(e, c), st.gi(CUR)) {
            match d {
                Some(d) => {
                    let n = st.gi(NET) + d;
                    st.gseti(NET, n);
                }
                None => self.bad(e, st, "C14", &format!("{}: unknown change of a count", site(e, c)), "a received region's count is changed by an unknown amount"),
            }
            if !super::wire::seq_cst(e, c) {
                self.bad(e, st, "C14", &format!("{}: not sequentially consistent", site(e, c)), "a region's count is accessed with a weaker ordering than SeqCst");
            }
        }
        if libc(c) == Some("recvmsg") {
            // where the data goes
            let pt = e.pointee(c.argtys[1]);
            let h = e.load(st, c.args[1], pt);
            let fld = |e: &Eng, n: &str| pt.and_then(|t| e.prog.field(t, 0, n)).map(|i| e.project(h, P::F(i)));
            let it = pt.and_then(|t| e.ty(t).variants[0].fields.iter().find(|f| f.0 == "msg_iov").map(|f| f.1)).and_then(|t| e.pointee(t));
            if let Some(iov) = fld(e, "msg_iov") {
                let iv = e.load(st, iov, it);
                if let (Some(b), Some(l)) = (it.and_then(|t| e.prog.field(t, 0, "iov_base")).map(|i| e.project(iv, P::F(i))), it.and_then(|t| e.prog.field(t, 0, "iov_len")).map(|i| e.project(iv, P::F(i)))) {
                    if is_op(b, "dataof").is_some() {
                        e.site("reception of a datagram", site(e, c));
                        st.gset(BASE, unit(), b);
                        st.gset(GOT, unit(), l);
                    }
                }
            }
            if let (Some(p), Some(l)) = (fld(e, "msg_control"), fld(e, "msg_controllen")) {
                if is_op(p, "dataof").is_some() {
                    st.gset(CTL, unit(), p);
                    let room = as_int(l).or(e.known(st, l)).unwrap_or(0);
                    if room < 16 + 4 * 253 {
                        self.bad(e, st, "C12", &format!("{}: room for attachments", site(e, c)), &format!("there is room for {room} bytes of attachments only, the kernel can pass {} bytes in one datagram", 16 + 4 * 253));
                    }
                }
            }
            return Act::Default;
        }
        self.attachments(e, st, c, &m);
        self.slices(e, st, c);
        if read_size(&m) == Some(4) && c.rp.contains("<impl u32>") && st.gi(RES) == 0 {
            let w = op("u32ne", vec![c.args[0]]);
            if let Some(o) = self.word(e, st, w) {
                if as_int(o).map_or(false, |o| o != 0) {
                    let q = op("quart", vec![w]);
                    let mut out = vec![];
                    for r in 0..4 {
                        let mut s = st.clone();
                        s.gseti(RES, r + 1);
                        s.gset(LEN, unit(), w);
                        out.push((s, mk_add(op("mul", vec![q, int(4)]), int(r))));
                    }
                    return Act::Forks(out);
                }
            }
        }
        if let Some(f) = c.f {
            if is_compat(e, e.f(f)) {
                // which bytes of the version word are compared
                let mut found = None;
                for (a, t) in c.args.iter().zip(&c.argtys) {
                    let x = models::content(e, st, *a, *t);
                    let path = path_to(e, peel(e, *t), &|e, t| e.ty(t).k == Kind::Tuple || e.ty(t).k == Kind::Array).unwrap_or_default();
                    let x = along(e, x, &path);
                    let mut idx = vec![];
                    let mut w = None;
                    for k in 0..3 {
                        let y = e.project(x, P::F(k));
                        let z = byte_of(y);
                        if let Some((b, i)) = z {
                            idx.push(i);
                            w = Some(b);
                        }
                    }
                    if idx.len() == 3 {
                        found = w.map(|w| (w, idx));
                    }
                }
                if let Some((w, idx)) = found {
                    e.site("version comparison", site(e, c));
                    st.gset(VOFF, unit(), w);
                    st.gset(VOFF, int(1), mk(N::Agg(0, 0, idx.into_iter().map(int).collect())));
                } else {
                    self.bad(e, st, "C11+C02", &format!("{}: version", site(e, c)), "the version compared is not that of the datagram");
                }
                let mut out = vec![];
                for (g, r) in [(1, 1), (2, 0)] {
                    let mut s = st.clone();
                    s.gseti(COMP, g);
                    out.push((s, int(r)));
                }
                return Act::Forks(out);
            }
        }
        Act::Default
    }
    fn after(&mut self, e: &mut Eng, st: &mut State, c: &Call, ret: Val) {
        if libc(c) == Some("recvmsg") && st.g(BASE, unit()).is_some() {
            let pt = e.pointee(c.argtys[1]);
            let h = e.load(st, c.args[1], pt);
            let n = pt.and_then(|t| e.prog.field(t, 0, "msg_controllen")).map(|i| e.project(h, P::F(i)));
            if let Some(n) = n {
                st.gset(CLEN, unit(), n);
            }
            st.gset(GOT, int(1), ret);
            let ht = (0..e.prog.types.len() as u32).find(|t| e.ty(*t).path.ends_with("::cmsghdr") && e.ty(*t).k == Kind::Struct);
            if let (Some(ht), Some(ctl)) = (ht, st.g(CTL, unit())) {
                let h = e.load(st, ctl, Some(ht));
                if let Some(i) = e.prog.field(ht, 0, "cmsg_len") {
                    let x = e.project(h, P::F(i));
                    st.gset(FULL, unit(), x);
                }
            }
        }
        // the control data is cut to what was received
        if let (Some(ctl), Some(n)) = (st.g(CTL, unit()), st.g(CLEN, unit())) {
            if c.argtys.first().map_or(false, |t| e.ty(peel(e, *t)).path == "alloc::vec::Vec" && e.ty(*t).k == Kind::Ref) {
                let v = models::content(e, st, c.args[0], c.argtys[0]);
                if mk_data(v) == ctl && contains(mk_len(v), n) {
                    st.gseti(CUT, 1);
                }
            }
        }
        if last(&c.rp) == "pop" && c.argtys.first().map_or(false, |t| list_of(e, peel(e, *t), &is_object)) {
            if let Some(k) = e.variant(st, ret, c.ret) {
                st.gseti(POP, if k == 0 { 2 } else { 1 });
            }
        }
    }
    fn on_ret(&mut self, e: &mut Eng, st: &mut State, f: FnId, ret: Val) {
        // a region is made of an attachment
        let fd = e.f(f);
        if !par(fd).iter().any(|t| is_object(e, *t)) {
            return;
        }
        let r = match rty(fd) {
            Some(r) => r,
            None => return,
        };
        if is_region(e, r) {
            st.gseti(MADE, 1);
        } else if path_to(e, r, &is_region).is_some() || result_args(e, r).map_or(false, |(o, _)| is_region(e, o)) {
            let bad = if e.ty(r).path == "core::option::Option" { 0 } else { 1 };
            match e.variant(st, ret, r) {
                Some(k) if k != bad => st.gseti(MADE, 1),
                _ => st.gseti(MADE, 2),
            }
        }
    }
    fn on_next(&mut self, e: &mut Eng, st: &mut State, c: &Call, seq: Val, el: Option<Val>) {
        if let Some(t) = st.g(TAIL, unit()) {
            if contains(seq, t) {
                self.part(e, st);
                if el.is_some() {
                    st.gseti(CUR, 1);
                }
            }
        }
        let _ = c;
    }
    fn on_assume(&mut self, e: &mut Eng, st: &mut State, v: Val, n: Option<i128>) {
        if let (Some(a), Some(1)) = (is_op(v, "lt"), n) {
            if contains(a[1], st.g(CLEN, unit()).unwrap_or_else(undef)) || mentions_ctl(a[1], st.g(CTL, unit())) || is_op(a[1], "div").is_some() {
                // a loop that does not start at zero goes through fewer
                let old = st.g(SEEN, unit());
                let same = old == Some(a[1]) || old.map_or(false, |o| is_op(o, "sub").map_or(false, |x| x[0] == a[1]));
                if !same {
                    let k = as_int(a[0]).unwrap_or(0);
                    st.gset(SEEN, unit(), if k == 0 { a[1] } else { op("sub", vec![a[1], int(k)]) });
                }
            }
        }
        let _ = e;
    }
    fn on_panic(&mut self, e: &mut Eng, st: &mut State, what: &str, terms: &[Val]) {
        let k = e.f(self.root).p.clone();
        if what.contains("overflow") && terms.len() == 2 {
            // the kernel writes a whole header whenever it writes anything
            let hdr = st.g(CLEN, unit()).map_or(false, |n| e.known(st, mk_eq(n, int(0))) == Some(0) || e.range(st, n).0.map_or(false, |l| l > 0));
            if what.contains("(Sub") && hdr && as_int(terms[1]).map_or(false, |x| x <= 16) {
                return;
            }
            // sizes that come from the kernel and addresses are in range
            let b = self.base(st);
            let peer = terms.iter().any(|t| any_sub(*t, &mut |y| is_op(y, "decoded").is_some() || (is_op(y, "u32ne").is_some() && contains(y, b)) || is_op(y, "quart").is_some()) || mentions_ctl(*t, st.g(CTL, unit())) && is_op(*t, "paddr").is_none() && split_addr(*t).is_none());
            let words = st.g(FULL, unit()).map_or(false, |h| terms.iter().any(|t| contains(*t, h)));
            if !peer && !words {
                return;
            }
        }
        self.bad(e, st, "C10", &format!("{what} in {k}"), &format!("a datagram makes the receiver panic: {what} ({})", terms.iter().map(|t| show(*t)).collect::<Vec<_>>().join(", ")));
    }
    fn on_read(&mut self, e: &mut Eng, st: &mut State, c: CellId, path: &[P], ty: TyId) {
        if let Cell::Der(p) = cell(c) {
            let (b, o) = split(p);
            if b == self.base(st) && path.is_empty() {
                let w = e.ty(ty).size.unwrap_or(1) as i128;
                self.within(e, st, o, int(w), "a read");
            }
        }
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        let rt = rty(e.f(self.root)).unwrap();
        let v = e.variant(st, ret, rt);
        let x = v.map(|k| { let y = e.project(ret, P::D(k)); e.project(y, P::F(0)) });
        match (v, x) {
            (Some(0), Some(x)) => {
                e.count("accepted");
                if st.gi(COMP) != 1 {
                    self.bad(e, st, "C02+C11", "a datagram of another version is accepted", "a datagram is accepted on a path where its version was not found compatible");
                }
                self.row(e, st, x);
                self.lists(e, st, x);
            }
            (Some(1), Some(x)) => {
                let vm = variant_no(e, self.errty, "VersionMismatch");
                let d = e.variant(st, x, self.errty);
                if st.gi(COMP) == 2 {
                    e.site("refusal of a version", e.f(self.root).p.clone());
                    if d != vm || vm.is_none() {
                        self.bad(e, st, "C02", "an incompatible datagram is not reported as one", "a datagram whose version is incompatible is not reported as a version mismatch");
                        return;
                    }
                    self.refusal(e, st, x, vm.unwrap());
                } else if st.gi(COMP) == 1 && d == vm {
                    self.bad(e, st, "C02", "a compatible datagram is refused for its version", "a datagram whose version is compatible is reported as a version mismatch");
                }
            }
            _ => {}
        }
    }
}
/// `bytes32(w)[i]`
fn byte_of(v: Val) -> Option<(Val, i128)> {
    match nd(v) {
        N::Fld(x, p) => {
            let i = match p {
                P::I(i) => as_int(*i)?,
                P::C(k, false) => *k as i128,
                P::C(k, true) => 4 - *k as i128,
                _ => return None,
            };
            is_op(*x, "bytes32").map(|a| (a[0], i))
        }
        _ => None,
    }
}
impl Rx {
    fn refusal(&mut self, e: &mut Eng, st: &mut State, x: Val, vm: u32) {
        let y = e.project(x, P::D(vm));
        let fs = e.ty(self.errty).variants[vm as usize].fields.clone();
        for (i, (_, t)) in fs.iter().enumerate() {
            let f = e.project(y, P::F(i as u32));
            if named(e, *t, "Version") {
                let path = path_to(e, *t, &|e, t| e.ty(t).k == Kind::Tuple).unwrap_or_default();
                let a = along(e, f, &path);
                let w = st.g(VOFF, unit());
                let ok = (0..3).all(|k| {
                    let b = e.project(a, P::F(k));
                    byte_of(b).map_or(false, |(w1, _)| Some(w1) == w)
                });
                self.reply(e, st, y, vm);
                if !ok {
                    self.bad(e, st, "C02", "the version reported is not the datagram's", "the version mismatch does not carry the version found in the datagram");
                }
            }
        }
    }
}

impl Rx {
    fn reply(&mut self, e: &mut Eng, st: &mut State, y: Val, vm: u32) {
        let fs = e.ty(self.errty).variants[vm as usize].fields.clone();
        for (i, (_, t)) in fs.iter().enumerate() {
            let ty = e.ty(*t).clone();
            if ty.path == "core::option::Option" {
                let f = e.project(y, P::F(i as u32));
                e.site("pipe to reply to", e.f(self.root).p.clone());
                if e.variant(st, f, *t) == Some(0) && st.gi(POP) != 2 {
                    self.bad(e, st, "C02", "the pipe to reply to is lost", "a version mismatch does not carry the pipe to reply to although the datagram has attachments: the peer is never told");
                }
            }
        }
    }
}

fn readers(e: &Eng) -> Vec<FnId> {
    let rel = crate::rel::reaching(e, &|n| libc_name(n) == Some("recvmsg"), &|_| false, &|_| false);
    let cand: Vec<FnId> = e.prog.fns.iter().filter(|f| f.krate == "ipmb" && f.blocks.is_some() && rel.contains(&f.id) && rty(f).and_then(|r| result_args(e, r)).map_or(false, |(o, _)| is_msg(e, o))).map(|f| f.id).collect();
    // the innermost ones
    let set: HashSet<FnId> = cand.iter().copied().collect();
    cand.into_iter().filter(|f| { let cl = closure(e, &callees(e, *f).into_iter().collect::<Vec<_>>()); !cl.iter().any(|g| set.contains(g) && g != f) }).collect()
}

pub fn reader(id: &'static str, env: &Env, rep: &mut Rep) -> Rows {
    let mut e = env.core();
    e.focus_repo(40);
    let rows: Rows = Default::default();
    for f in readers(&e) {
        let (okty, errty) = result_args(&e, rty(e.f(f)).unwrap()).unwrap();
        run(&mut e, rep, f, Box::new(Rx { want: id, okty, errty, rows: rows.clone(), root: f }), &mut |e, st| e.write_raw(st, slot_cell(), &[], undef()));
    }
    rep.floor("reception of a datagram", 1);
    rows
}

// ------------------------------------------------------------------------------------ writer

pub struct Wx {
    want: &'static str,
    msg: TyId,
    out: TyId,
    rows: Rows,
    root: FnId,
}
fn enc_len(v: Val) -> Option<(Val, i128)> {
    let l = lin(v);
    let q = quarts(&l);
    if l.t.len() == 1 && q.len() == 1 && l.t[&q[0]] == 4 {
        Some((is_op(q[0], "quart").unwrap()[0], l.c))
    } else {
        None
    }
}
fn slot_cell() -> CellId {
    mk_cell(Cell::Static(sstr("next place for a descriptor")))
}
impl Wx {
    fn bad(&self, e: &mut Eng, st: &State, props: &str, key: &str, msg: &str) {
        if props.split('+').any(|p| p == self.want) {
            e.report(st, key, msg.to_string());
        }
    }
    fn arg(&self, e: &mut Eng, st: &State) -> Val {
        st.g(BASE, int(9)).unwrap_or_else(|| {
            let c = e.local(st.ctx, 1);
            e.read(st, c, &[])
        })
    }
    /// something is written into a buffer
    fn wrote(&mut self, e: &mut Eng, st: &mut State, p: Val, v: Val, n: Option<Val>, k: &str) {
        let (b, o) = split(p);
        if is_op(b, "dataof").is_none() {
            return self.place_slot(e, st, p, v, k);
        }
        if is_op(v, "rawof").is_some() {
            return self.place_slot(e, st, p, v, k);
        }
        let data = self.is_data(v, n);
        if data {
            match st.g(BASE, unit()) {
                None => st.gset(BASE, unit(), b),
                Some(x) if x == b => {}
                Some(_) => return,
            }
            let ent = match n {
                Some(n) => op("copied", vec![v, n]),
                None => v,
            };
            let l = lin(o).val();
            if st.g(WR, l).map_or(false, |x| x != ent) {
                self.bad(e, st, "C11", &format!("{k}: written twice"), "a place of the datagram is written twice");
            }
            st.gset(WR, l, ent);
        }
    }
    fn is_data(&self, v: Val, n: Option<Val>) -> bool {
        if n.is_some() {
            return is_op(v, "encoded").is_some();
        }
        enc_len(strip(v)).is_some() || is_op(strip(v), "u32ne").is_some()
    }
    fn place_slot(&mut self, e: &mut Eng, st: &mut State, p: Val, v: Val, k: &str) {
        let x = match is_op(v, "rawof") {
            Some(a) => a[0],
            None => return,
        };
        e.site("descriptor put into the control data", k.to_string());
        // which element of which list
        let mut el = None;
        any_sub(x, &mut |v| {
            if el.is_none() && is_op(v, "elem").is_some() {
                el = Some(v);
            }
            false
        });
        let (el, a) = match el {
            Some(x) => (x, is_op(x, "elem").unwrap()),
            None => return self.bad(e, st, "C12", &format!("{k}: not an attachment"), "a descriptor that is not one of the message's attachments is put into the control data"),
        };
        let arg = self.arg(e, st);
        let (op_, rp) = (objects(e, self.msg).unwrap(), regions(e, self.msg).unwrap());
        let (ol, rl) = (along(e, arg, &op_), along(e, arg, &rp));
        let which = if a[0] == mk_data(ol) { 0 } else if a[0] == mk_data(rl) { 1 } else { 2 };
        if which == 2 {
            return self.bad(e, st, "C12", &format!("{k}: not an attachment"), "a descriptor that is not one of the message's attachments is put into the control data");
        }
        let next = e.read(st, slot_cell(), &[]);
        let (b, o) = split(p);
        // by position
        let first = if which == 0 { Lin::k(16) } else { Lin::k(16).add(&lin(mk_len(ol)).scale(4), 1) };
        let want = first.add(&lin(a[1]).scale(4), 1);
        let counted = st.g(ENUM, el).map(|i| first.add(&lin(i).scale(4), 1));
        let bypos = is_op(b, "dataof").is_some() && (lin(o) == want || Some(lin(o)) == counted);
        let cur = st.g(CUR, unit()) == Some(el);
        if !bypos {
            let start = matches!(nd(next), N::Undef | N::Sym(..)) && is_op(b, "dataof").is_some() && as_int(o) == Some(16);
            if !(start || next == p) {
                self.bad(e, st, "C12", &format!("{k}: place"), &format!("an attachment's descriptor is put at {} instead of behind the one before ({})", show(p), show(next)));
            }
            if !cur {
                self.bad(e, st, "C12", &format!("{k}: order"), "a descriptor is put into the control data that is not that of the attachment at hand");
            }
            if which == 1 && st.gi(PH) & 1 == 0 {
                self.bad(e, st, "C12", &format!("{k}: regions before objects"), "the descriptor of a region is put into the control data before those of all objects: the receiver takes the last ones for regions");
            }
            if which == 0 && st.gi(PH) & 2 != 0 {
                self.bad(e, st, "C12", &format!("{k}: objects after regions"), "the descriptor of an object is put into the control data after those of the regions: the receiver takes the last ones for regions");
            }
        }
        if cur && st.gi(WROTE) == 1 {
            self.bad(e, st, "C12", &format!("{k}: twice"), "an attachment's descriptor is put into the control data twice");
        }
        st.gseti(WROTE, 1);
        if is_op(b, "dataof").is_some() {
            st.gset(CTL, unit(), b);
        }
        e.write_raw(st, slot_cell(), &[], mk_padd(p, int(4)));
    }
    fn boundary(&mut self, e: &mut Eng, st: &mut State) {
        if st.g(CUR, unit()).is_some() && st.gi(WROTE) == 0 {
            self.bad(e, st, "C12", &format!("an attachment is passed over in {}", e.f(self.root).p), "an attachment is gone through but its descriptor is not put into the control data");
        }
        st.gdel(CUR, unit());
        st.gseti(WROTE, 0);
    }
    fn rows_of(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        let k = e.f(self.root).p.clone();
        let base = match st.g(BASE, unit()) {
            Some(b) => b,
            None => return self.bad(e, st, "C11", &format!("nothing is written in {k}"), "a message is encoded without anything being written into its datagram"),
        };
        let (res, res2) = (st.gi(RES) - 1, st.gi(RES2) - 1);
        if res < 0 || res2 < 0 {
            return self.bad(e, st, "C11", &format!("selector or payload is not encoded in {k}"), "a message is encoded without its selector or its payload");
        }
        let (es, ep) = (st.g(LEN, int(1)), st.g(LEN, int(2)));
        let (es, ep) = match (es, ep) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        let (q, p) = (op("quart", vec![es]), op("quart", vec![ep]));
        let mut r = Row { magic: -1, ..Default::default() };
        let (ns, np) = (lin(mk_len(es)), lin(mk_len(ep)));
        let mut ends: Vec<(Lin, Lin, &str)> = vec![];
        for (o, v) in st.gkeys(WR) {
            let at = lin(o);
            let c = canon(&at, Some(q), Some(p));
            let sv = strip(v);
            if let Some(a) = is_op(v, "copied") {
                let n = lin(a[1]);
                if a[0] == es && n == ns {
                    r.sel_n = canon(&at.add(&n, 1), Some(q), Some(p));
                    r.sel = c;
                    ends.push((at.clone(), at.add(&n, 1), "the selector"));
                } else if a[0] == ep && n == np {
                    r.pay = c;
                    ends.push((at.clone(), at.add(&n, 1), "the payload"));
                } else {
                    self.bad(e, st, "C11+C18", &format!("incomplete copy in {k}"), "only part of the selector or the payload is copied into the datagram");
                    return;
                }
            } else if let Some((x, c0)) = enc_len(sv) {
                ends.push((at.clone(), at.add(&Lin::k(4), 1), "a length"));
                if x == es && c0 == ns.c {
                    r.sel_len = c;
                } else if x == ep && c0 == np.c {
                    r.pay_len = c;
                }
            } else if let Some(a) = is_op(sv, "u32ne") {
                ends.push((at.clone(), at.add(&Lin::k(4), 1), "the version"));
                r.version = c;
                if let N::Agg(_, _, f) = nd(a[0]) {
                    r.magic = f.iter().find_map(|x| as_int(*x)).unwrap_or(-1);
                    // which component stands in which byte
                    let mut order = vec![0; 4];
                    for (i, x) in f.iter().enumerate() {
                        match nd(*x) {
                            N::Fld(_, P::F(j)) if *j < 3 => order[1 + *j as usize] = i as i128,
                            _ => order[0] = i as i128,
                        }
                    }
                    r.order = order;
                }
            }
        }
        for (n, v) in [("the version", &r.version), ("the selector length", &r.sel_len), ("the selector", &r.sel), ("the payload length", &r.pay_len), ("the payload", &r.pay)] {
            if v.is_empty() {
                return self.bad(e, st, "C11", &format!("{n} is not written in {k}"), &format!("{n} is not written into the datagram at a determined place"));
            }
        }
        // the buffer that is sent covers everything
        let vecs = paths_to(e, self.out, &|e, t| e.ty(t).path == "alloc::vec::Vec" && models::seq_elem(e, t).map_or(false, |x| e.ty(x).size == Some(1)));
        let buf = vecs.iter().map(|p| along(e, ret, p)).find(|v| mk_data(*v) == base);
        match buf {
            Some(b) => {
                let n = lin(mk_len(b));
                for (_, end, what) in &ends {
                    let d = n.add(end, -1);
                    if d.c < 0 || d.t.values().any(|k| *k < 0) || d.t.keys().any(|x| is_op(*x, "quart").is_none()) {
                        self.bad(e, st, "C11", &format!("{what} does not fit in {k}"), &format!("{what} ends at {}, the datagram is {} long: the rest is written outside of it", canon(end, Some(q), Some(p)), canon(&n, Some(q), Some(p))));
                    }
                }
                // initialised
                let z = st.g(INIT, base).map(lin);
                let done = z.map_or(false, |z| {
                    let d = z.add(&n, -1);
                    d.c >= 0 && d.t.values().all(|k| *k >= 0)
                });
                let exact = {
                    // gap-free without padding is initialised as well
                    let mut tot = Lin::k(0);
                    for (a, b, _) in &ends {
                        tot = tot.add(&b.add(a, -1), 1);
                    }
                    tot == n
                };
                if !done && !exact {
                    self.bad(e, st, "C11", &format!("uninitialised bytes are sent in {k}"), "bytes of the datagram that nothing is written to are sent without having been initialised: the sender's memory leaks to its peers");
                }
            }
            None => self.bad(e, st, "C11", &format!("the datagram written is not the one returned in {k}"), "the buffer that is written is not the one that is sent"),
        }
        // nothing overlaps
        for i in 0..ends.len() {
            for j in 0..ends.len() {
                if i < j {
                    let before = |a: &Lin, b: &Lin| {
                        let d = b.add(a, -1);
                        d.c >= 0 && d.t.values().all(|k| *k >= 0)
                    };
                    if !before(&ends[i].1, &ends[j].0) && !before(&ends[j].1, &ends[i].0) {
                        self.bad(e, st, "C11", &format!("{} and {} overlap in {k}", ends[i].2, ends[j].2), "two parts of the datagram overlap");
                    }
                }
            }
        }
        // the in-process receiver gets the payload by this reference
        if let Some(pp) = payload_slice(e, self.out) {
            let s = along(e, ret, &pp);
            let (b, o) = split(mk_data(s));
            if b != base || canon(&lin(o), Some(q), Some(p)) != r.pay || lin(mk_len(s)) != np {
                self.bad(e, st, "C11+C13", &format!("the payload handed on in {k} is not the one written"), "the payload given to an in-process receiver is not the one in the datagram");
            }
        }
        e.site("datagram put together", format!("{k}, residues {res} {res2}"));
        self.rows.borrow_mut().insert((res, r, k));
    }
}
fn strip(v: Val) -> Val {
    match nd(v) {
        // a narrowing conversion does not keep the value
        N::Op("cast", a) if !matches!(nd(a[0]), N::Str(s) if matches!(s.as_str(), "u8" | "u16" | "i8" | "i16")) => strip(a[1]),
        N::Op("bytes32", a) => strip(a[0]),
        _ => v,
    }
}
impl Mon for Wx {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        let m = last(&c.rp).to_string();
        if c.rp == "bincode::features::serde::ser::encode_to_vec" && c.argtys.first().map_or(false, |t| named(e, peel(e, *t), "Selector")) {
            let v = models::content(e, st, c.args[0], c.argtys[0]);
            return self.fork_enc(e, st, c, v, RES, 1);
        }
        if c.p == "ipmb::message::MessageBox::encode" {
            let v = models::content(e, st, c.args[0], c.argtys[0]);
            return self.fork_enc(e, st, c, v, RES2, 2);
        }
        let k = site(e, c);
        if m == "rev" && c.rp.contains("Iterator") {
            let arg = self.arg(e, st);
            for p in [objects(e, self.msg).unwrap(), regions(e, self.msg).unwrap()] {
                if contains(c.args[0], mk_data(along(e, arg, &p))) {
                    self.bad(e, st, "C12", &format!("{k}: reversed"), "attachments are gone through backwards: they do not arrive in their original order");
                }
            }
        }
        match m.as_str() {
            "write_bytes" => {
                let pt = e.pointee(c.argtys[0]);
                let sz = pt.and_then(|t| e.ty(t).size).unwrap_or(1);
                let (b, o) = split(c.args[0]);
                if as_int(o) == Some(0) && as_int(c.args[1]).is_some() {
                    let n = lin(c.args[2]).scale(sz as i128).val();
                    st.gset(INIT, b, n);
                }
                return Act::Ret(unit());
            }
            "copy_nonoverlapping" | "copy" | "copy_from_nonoverlapping" | "copy_to_nonoverlapping" if c.args.len() == 3 && (c.rp.starts_with("core::ptr") || c.rp.starts_with("core::intrinsics")) => {
                let (src, dst) = if m == "copy_from_nonoverlapping" { (c.args[1], c.args[0]) } else { (c.args[0], c.args[1]) };
                let ty = e.pointee(c.argtys[0]);
                let sz = ty.and_then(|t| e.ty(t).size).unwrap_or(1) as i128;
                let n = lin(c.args[2]).scale(sz).val();
                self.copied(e, st, dst, src, n, &k);
                return Act::Ret(unit());
            }
            "copy_from_slice" | "clone_from_slice" if c.args.len() == 2 => {
                let (d, s) = (c.args[0], c.args[1]);
                let n = lin(mk_len(s)).val();
                let x = models::content(e, st, s, c.argtys[1]);
                if is_op(x, "bytes32").is_some() || matches!(nd(x), N::Agg(..)) {
                    let v = if is_op(x, "bytes32").is_some() { x } else { op("u32ne", vec![x]) };
                    self.wrote(e, st, mk_data(d), v, None, &k);
                } else {
                    self.copied(e, st, mk_data(d), mk_data(s), n, &k);
                }
                return Act::Ret(unit());
            }
            _ => {}
        }
        Act::Default
    }
    fn after(&mut self, e: &mut Eng, st: &mut State, c: &Call, ret: Val) {
        // a buffer with room for all attachments
        let bytes = |e: &Eng, t: TyId| e.ty(t).path == "alloc::vec::Vec" && models::seq_elem(e, t).map_or(false, |x| e.ty(x).size == Some(1));
        let mut bufs = vec![];
        if bytes(e, c.ret) {
            bufs.push(ret);
        }
        if let Some(t) = c.argtys.first().filter(|t| bytes(e, peel(e, **t))) {
            bufs.push(models::content(e, st, c.args[0], *t));
        }
        for b in bufs {
            let arg = self.arg(e, st);
            let n = objects(e, self.msg).map(|p| lin(mk_len(along(e, arg, &p)))).unwrap_or_default().add(&regions(e, self.msg).map(|p| lin(mk_len(along(e, arg, &p)))).unwrap_or_default(), 1).scale(4);
            if room(mk_len(b), &n) {
                st.gset(ROOM, mk_data(b), int(1));
            }
        }
        // vec![0; n]
        if matches!(last(&c.rp), "from_elem") && c.rp.starts_with("alloc::vec") {
            let n = lin(mk_len(ret)).val();
            let sz = c.argtys.first().and_then(|t| e.ty(*t).size).unwrap_or(1) as i128;
            st.gset(INIT, mk_data(ret), lin(n).scale(sz).val());
        }
    }
    fn on_ret(&mut self, e: &mut Eng, st: &mut State, f: FnId, ret: Val) {
        let fd = e.f(f);
        if fd.p.contains("Enumerate<") && last(&fd.p) == "next" {
            let x = e.project(ret, P::D(1));
            let x = e.project(x, P::F(0));
            let (i, p) = (e.project(x, P::F(0)), e.project(x, P::F(1)));
            let mut el = None;
            any_sub(p, &mut |v| {
                if el.is_none() && is_op(v, "elem").is_some() {
                    el = Some(v);
                }
                false
            });
            if let Some(el) = el {
                st.gset(ENUM, el, i);
            }
        }
    }
    fn on_write(&mut self, e: &mut Eng, st: &mut State, cell_: CellId, path: &[P], v: Val) {
        if let Cell::Der(p) = cell(cell_) {
            if path.is_empty() {
                self.wrote(e, st, p, v, None, &format!("assignment in {}", e.f(self.root).p));
            }
        }
    }
    fn on_next(&mut self, e: &mut Eng, st: &mut State, _c: &Call, seq: Val, el: Option<Val>) {
        let arg = self.arg(e, st);
        let (op_, rp) = (objects(e, self.msg).unwrap(), regions(e, self.msg).unwrap());
        let (ol, rl) = (along(e, arg, &op_), along(e, arg, &rp));
        let d = mk_data(seq);
        let which = if d == mk_data(ol) { 0 } else if d == mk_data(rl) { 1 } else { return };
        self.boundary(e, st);
        match el {
            Some(p) => {
                st.gset(CUR, unit(), p);
                if which == 1 && st.gi(PH) & 2 == 0 {
                    // on to the regions
                }
            }
            None => {
                let all = if which == 0 { mk_len(ol) } else { mk_len(rl) };
                if lin(mk_len(seq)) == lin(all) {
                    st.gseti(PH, st.gi(PH) | if which == 0 { 1 } else { 2 });
                }
            }
        }
    }
    fn on_assume(&mut self, e: &mut Eng, st: &mut State, v: Val, n: Option<i128>) {
        if let (Some(a), Some(0)) = (is_op(v, "lt"), n) {
            let arg = self.arg(e, st);
            let (op_, rp) = (objects(e, self.msg).unwrap(), regions(e, self.msg).unwrap());
            let (ol, rl) = (along(e, arg, &op_), along(e, arg, &rp));
            if a[1] == mk_len(ol) {
                st.gseti(PH, st.gi(PH) | 1);
            }
            if a[1] == mk_len(rl) {
                st.gseti(PH, st.gi(PH) | 2);
            }
        }
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        if self.want == "C11" || self.want == "C13" {
            self.rows_of(e, st, ret);
        }
        self.boundary(e, st);
        let k = e.f(self.root).p.clone();
        let arg = self.arg(e, st);
        let (op_, rp) = (objects(e, self.msg).unwrap(), regions(e, self.msg).unwrap());
        let (ol, rl) = (along(e, arg, &op_), along(e, arg, &rp));
        if st.gi(PH) != 3 {
            let what = if st.gi(PH) & 1 == 0 { "objects" } else { "regions" };
            self.bad(e, st, "C12", &format!("not all {what} are put into the control data in {k}"), "a message is encoded without going through all of its attachments");
        }
        for (what, path, l) in [("objects", objects(e, self.out), ol), ("regions", regions(e, self.out), rl)] {
            if let Some(p) = path {
                if along(e, ret, &p) != l {
                    self.bad(e, st, "C12", &format!("the {what} of the encoded message are not those of the message in {k}"), "the encoded message does not carry the attachments of the message: an in-process receiver gets others, or they are closed before they are sent");
                }
            }
        }
        // the header of the control data
        let ctl = st.g(CTL, unit()).or_else(|| {
            let b = st.g(BASE, unit());
            paths_to(e, self.out, &|e, t| e.ty(t).path == "alloc::vec::Vec" && models::seq_elem(e, t).map_or(false, |x| e.ty(x).size == Some(1))).iter().map(|p| mk_data(along(e, ret, p))).find(|d| Some(*d) != b)
        });
        let ctl = match ctl {
            Some(c) => c,
            None => return,
        };
        let buf = paths_to(e, self.out, &|e, t| e.ty(t).path == "alloc::vec::Vec" && models::seq_elem(e, t).map_or(false, |x| e.ty(x).size == Some(1))).iter().map(|p| along(e, ret, p)).find(|v| mk_data(*v) == ctl);
        let buf = match buf {
            Some(b) => b,
            None => return self.bad(e, st, "C12", &format!("the control data written is not the one returned in {k}"), "the attachments are put into another buffer than the one that is sent"),
        };
        let ht = (0..e.prog.types.len() as u32).find(|t| e.ty(*t).path.ends_with("::cmsghdr") && e.ty(*t).k == Kind::Struct);
        if let Some(ht) = ht {
            let h = e.load(st, ctl, Some(ht));
            let f = |e: &mut Eng, n: &str| e.prog.field(ht, 0, n).map(|i| e.project(h, P::F(i)));
            let bytes = lin(mk_len(ol)).add(&lin(mk_len(rl)), 1).scale(4);
            if let Some(n) = f(e, "cmsg_len") {
                let n = strip(n);
                let ok = is_op(n, "cmsg_len").map_or(lin(n) == bytes.add(&Lin::k(16), 1), |a| lin(strip(a[0])) == bytes);
                if !ok {
                    self.bad(e, st, "C12", &format!("the count of attachments in {k}"), &format!("the control data's length ({}) is not that of all attachments", show(n)));
                }
            }
            let (l, t) = (f(e, "cmsg_level"), f(e, "cmsg_type"));
            if l.and_then(as_int) != Some(1) || t.and_then(as_int) != Some(1) {
                self.bad(e, st, "C12", &format!("the kind of control data in {k}"), "the control data is not marked as descriptors to be passed");
            }
            e.site("control data put together", k.clone());
            // room
            let space = op("cmsg_space", vec![unit()]);
            let _ = space;
            let n = mk_len(buf);
            if !room(n, &bytes) && st.g(ROOM, mk_data(buf)).is_none() {
                self.bad(e, st, "C12", &format!("room for attachments in {k}"), &format!("the control buffer ({} long) is not large enough for the descriptors of all attachments", show(n)));
            }
        }
    }
}
/// does a buffer of that length hold the header and the given bytes of descriptors
fn room(n: Val, bytes: &Lin) -> bool {
    let mut ok = false;
    any_sub(n, &mut |v| {
        if let Some(a) = is_op(v, "cmsg_space").or(is_op(v, "cmsg_len")) {
            if lin(strip(a[0])) == *bytes {
                ok = true;
            }
        }
        false
    });
    let d = lin(n).add(bytes, -1);
    ok || (d.c >= 16 && d.t.values().all(|k| *k >= 0))
}
impl Wx {
    fn copied(&mut self, e: &mut Eng, st: &mut State, dst: Val, src: Val, n: Val, k: &str) {
        let (b, o) = split(src);
        match (is_op(b, "dataof"), as_int(o)) {
            (Some(a), Some(0)) => self.wrote(e, st, dst, a[0], Some(n), k),
            (Some(a), _) if is_op(a[0], "encoded").is_some() => self.bad(e, st, "C11", &format!("{k}: partial copy"), "the selector or the payload is not copied from its beginning"),
            _ => {}
        }
    }
    fn fork_enc(&mut self, e: &mut Eng, st: &mut State, c: &Call, v: Val, tag: u16, key: i128) -> Act {
        e.site("encoding", site(e, c));
        let mut out = vec![];
        for r in 0..4 {
            let mut s = st.clone();
            let x = op("encoded", vec![v, int(c.argtys[0] as i128), int(r)]);
            s.gseti(tag, r + 1);
            s.gset(LEN, int(key), x);
            out.push((s, models::ok(c.ret, x)));
        }
        Act::Forks(out)
    }
}

pub fn writer(id: &'static str, env: &Env, rep: &mut Rep) -> Rows {
    let mut e = env.core();
    e.focus_repo(60);
    let rows: Rows = Default::default();
    let fs: Vec<FnId> = e.prog.fns.iter().filter(|f| f.krate == "ipmb" && f.blocks.is_some() && is_encode(&e, f)).map(|f| f.id).collect();
    for f in fs {
        let msg = par(e.f(f))[0];
        let out = rty(e.f(f)).unwrap();
        if objects(&e, msg).is_none() || regions(&e, msg).is_none() {
            continue;
        }
        rep.site("encoder", e.f(f).p.clone());
        run(&mut e, rep, f, Box::new(Wx { want: id, msg, out, rows: rows.clone(), root: f }), &mut |e, st| {
            let c = e.local(st.ctx, 1);
            let a = e.read(st, c, &[]);
            st.gset(BASE, int(9), a);
            e.write_raw(st, slot_cell(), &[], undef());
        });
    }
    rep.floor("encoder", 1);
    rep.floor("encoding", 2);
    rows
}

pub fn c11(env: &Env, rep: &mut Rep) {
    rep.rule = "layout tables of the reader and of the writer, computed for each residue of the selector length and of the payload length: offset, width and order of each field; comparison of the tables; bounds and initialisation of the buffer written".into();
    let r = reader("C11", env, rep);
    let w = writer("C11", env, rep);
    let (r, w) = (r.borrow(), w.borrow());
    for res in 0..4 {
        if !r.iter().any(|x| x.0 == res) || !w.iter().any(|x| x.0 == res) {
            if rep.viol.is_empty() {
                rep.bad(&format!("anchor: layout for residue {res}"), "no layout was determined for the reader or the writer".into(), "whole program".into());
            }
            continue;
        }
        for (_, a, ra) in r.iter().filter(|x| x.0 == res) {
            for (_, b, wb) in w.iter().filter(|x| x.0 == res) {
                rep.site("layout compared", format!("{ra} / {wb}: {a:?}"));
                if let Some(d) = a.diff(b) {
                    rep.bad(&format!("{ra} and {wb} disagree"), format!("for selector lengths of residue {res}: {d}"), ra.clone());
                }
            }
        }
    }
}
#[allow(unused)]
fn _u(e: &Eng, c: &Call) {
    let _ = (counter_op(e, c), mk_eq(unit(), unit()), CLEN, POP, CNT, NEWR, TAIL, HEAD);
}
