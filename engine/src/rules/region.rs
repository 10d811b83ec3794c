//! Memory regions: what a mapped view covers (C15) and the count of the handles (C14).  Whole
//! lives of a region (fixture) are followed; every address is a mapping plus a linear offset.
use super::util::*;
use super::wire::{counter_op, seq_cst};
use super::*;
use crate::lin::{lin, pageoff, Lin};
use crate::models;

const LEN: u16 = 270; // length of a mapping
const OFF: u16 = 271; // its offset in the object
const FD: u16 = 272; // the object
const GONE: u16 = 273; // 1: unmapped
const ASK: u16 = 274; // 0: lo 1: hi 2: size
const ASKED: u16 = 275; // 1: a view was asked for and not delivered
const MF: u16 = 276; // 1: the kernel refused a mapping since
const COUNT: u16 = 277; // change of the count so far
const SIZE: u16 = 278; // the size a new region was asked for
const TOTAL: u16 = 279; // the size given to an object
const ARG: u16 = 280;

#[derive(Default)]
pub struct Layout {
    /// offset and width of the count
    count: BTreeSet<(i128, i128)>,
    /// where the size is written, where it is read
    size_w: BTreeSet<(i128, i128)>,
    size_r: BTreeSet<(i128, i128)>,
    /// where the data starts
    data: BTreeSet<i128>,
    /// bytes of a new object beyond the size asked for
    extra: BTreeSet<i128>,
}
type Shared = Rc<RefCell<Layout>>;

pub struct Life {
    want: &'static str,
    layout: Shared,
    adopt: bool,
    /// sizes are those of an honest region: the object could be created
    max: i128,
}
const MAX: i128 = u64::MAX as i128;

/// conversions between integers of 64 bits
fn strip(v: Val) -> Val {
    match is_op(v, "cast") {
        Some(a) if matches!(nd(a[0]), N::Str(s) if matches!(s.as_str(), "i64" | "u64" | "usize" | "isize" | "i128" | "u128")) => strip(a[1]),
        _ => v,
    }
}
/// what is meant by a number in the fixture: without wrapping around
fn meant(v: Val) -> Lin {
    match is_op(v, "wadd") {
        Some(a) => lin(a[0]).add(&lin(a[1]), 1),
        None => lin(strip(v)),
    }
}
/// base and offset of an address
fn place(p: Val) -> (Val, Lin) {
    match nd(p) {
        N::Op("padd", a) => {
            let (b, o) = place(a[0]);
            (b, o.add(&lin(a[1]), 1))
        }
        N::Op("cast", a) => place(a[1]),
        _ => (p, Lin::k(0)),
    }
}
/// a multiple of the page size
fn aligned(l: &Lin) -> bool {
    if l.is_const() == Some(0) {
        return true;
    }
    let offs: Vec<_> = l.t.iter().filter(|(v, _)| is_op(**v, "pageoff").is_some()).collect();
    if let [(v, -1)] = offs[..] {
        let rest = l.add(&Lin::atom(*v), 1);
        return pageoff(&rest) == Lin::atom(*v);
    }
    l.c == 0 && l.t.len() == 1 && l.t.keys().all(|v| is_op(*v, "pagesize").is_some())
}

impl Life {
    fn bad(&self, e: &mut Eng, st: &State, props: &str, key: &str, msg: &str) {
        if props.split('+').any(|p| p == self.want) {
            e.report(st, key, msg.to_string());
        }
    }
    fn le0(&self, e: &Eng, st: &State, d: &Lin) -> bool {
        e.upper(st, d, 3).map_or(false, |u| u <= 0)
    }
    /// a constant the term is known to have
    fn constant(&self, e: &Eng, st: &State, d: &Lin) -> Option<i128> {
        if let Some(k) = d.is_const() {
            return Some(k);
        }
        for (f, v) in &st.facts {
            if let (N::Op("eq", a), Some(1)) = (nd(*f), v.eq) {
                let x = lin(a[0]).add(&lin(a[1]), -1);
                for s in [1, -1] {
                    if let Some(k) = d.add(&x, s).is_const() {
                        return Some(k);
                    }
                }
            }
        }
        let (u, l) = (e.upper(st, d, 3), e.upper(st, &d.scale(-1), 3));
        match (u, l) {
            (Some(u), Some(l)) if u == -l => Some(u),
            _ => None,
        }
    }
    fn asked(&self, st: &State) -> [Lin; 3] {
        [0, 1, 2].map(|i| st.g(ASK, int(i)).map_or(Lin::k(0), meant))
    }
    fn view(&mut self, e: &mut Eng, st: &mut State, res: Val, t: TyId) {
        let [lo, hi, size] = self.asked(st);
        let n = hi.add(&lo, -1);
        st.gseti(ASKED, 0);
        let v = match e.variant(st, res, t) {
            Some(v) => v,
            None => return self.bad(e, st, "C15", "the outcome is not known", "mapping ends with a result that is neither known to be success nor failure"),
        };
        if v == 1 {
            e.count("refusals justified");
            let over = e.upper(st, &size.add(&hi, -1), 3).map_or(false, |u| u < 0);
            let rev = e.upper(st, &hi.add(&lo, -1), 3).map_or(false, |u| u < 0);
            if st.gi(MF) != 1 && !over && !rev {
                self.bad(e, st, "C15", "a good range is refused", "mapping fails although the range is not known to be reversed or to end beyond the region");
            }
            return;
        }
        e.count("views delivered");
        let s = e.project(res, P::D(0));
        let s = e.project(s, P::F(0));
        let (m, off) = place(mk_data(s));
        let len = lin(mk_len(s));
        for (d, what) in [(lo.add(&hi, -1), "reversed"), (hi.add(&size, -1), "too long")] {
            if !self.le0(e, st, &d) {
                self.bad(e, st, "C15", &format!("a range that is {what} yields memory"), "a view is delivered although its range is not known to lie inside the region");
            }
        }
        let (l, o) = match (st.g(LEN, m), st.g(OFF, m)) {
            (Some(l), Some(o)) => (lin(strip(l)), lin(strip(o))),
            _ => return self.bad(e, st, "C15", "a view of something else", &format!("the memory that is delivered ({}) is not a mapping of the region", show(m))),
        };
        if st.g(GONE, m).is_some() {
            self.bad(e, st, "C15", "a view of unmapped memory", "the memory that is delivered is no longer mapped");
        }
        if self.constant(e, st, &len.add(&n, -1)) != Some(0) {
            self.bad(e, st, "C15", "a view of another length", &format!("the length of the view ({}) is not known to be that of the range ({})", len.show(), n.show()));
        }
        match self.constant(e, st, &o.add(&off, 1).add(&lo, -1)) {
            Some(d) => {
                self.layout.borrow_mut().data.insert(d);
            }
            None => self.bad(e, st, "C15", "a view of another part", &format!("the view starts at {} of the object, which is not known to be a fixed distance from the start of the range ({})", o.add(&off, 1).show(), lo.show())),
        }
        if !self.le0(e, st, &off.scale(-1)) || !self.le0(e, st, &off.add(&len, 1).add(&l, -1)) {
            self.bad(e, st, "C15", "a view beyond its mapping", &format!("the view covers {} bytes at {} of a mapping of {} bytes", len.show(), off.show(), l.show()));
        }
        let f = st.g(FD, m);
        if st.gkeys(FD).into_iter().any(|x| Some(x.1) != f) {
            self.bad(e, st, "C15", "a view of another object", "the memory that is delivered belongs to another object than the region's header");
        }
    }
}

impl Mon for Life {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        match last(&c.rp) {
            "sa_live" => {
                let n = as_int(c.args[0]).unwrap_or(0);
                let k = st.gi(COUNT);
                e.count("counts compared with the handles");
                if k != n {
                    self.bad(e, st, "C14", &format!("the count is {} where {n} handles are alive", if k > n { "higher" } else { "lower" }), &format!("the count of the region was changed by {k} on a path on which {n} handle(s) are alive"));
                }
                return Act::Ret(unit());
            }
            "sa_ask" => {
                for i in 0..3 {
                    st.gset(ASK, int(i), c.args[i as usize]);
                }
                st.gseti(ASKED, 1);
                st.gseti(MF, 0);
                return Act::Ret(unit());
            }
            "sa_view" => {
                self.view(e, st, c.args[0], c.argtys[0]);
                return Act::Ret(unit());
            }
            "sa_told" => {
                self.told(e, st, c.args[0]);
                return Act::Ret(unit());
            }
            _ => {}
        }
        if let Some((m, d)) = counter_op(e, c) {
            let k = site(e, c);
            e.site("update of a region's count", format!("{m} in {}", e.repo_fn(c.ctx)));
            if !seq_cst(e, c) {
                self.bad(e, st, "C14", &format!("{k}: not sequentially consistent"), "a region's count is accessed with a weaker ordering than SeqCst");
            }
            let (b, off) = place(c.args[0]);
            match (st.g(LEN, b), off.is_const()) {
                (Some(l), Some(o)) => {
                    self.layout.borrow_mut().count.insert((o, 4));
                    if !self.le0(e, st, &Lin::k(o + 4).add(&lin(strip(l)), -1)) {
                        self.bad(e, st, "C15", "the count is outside the header", "the count of the region lies beyond the mapped header");
                    }
                    if st.g(GONE, b).is_some() {
                        self.bad(e, st, "C14", &format!("{k}: after unmapping"), "the count of a region is accessed after its header was unmapped");
                    }
                }
                _ => self.bad(e, st, "C14", &format!("{k}: not the count of a region"), &format!("a counter is changed that is not in the header of the region at hand: {}", show(c.args[0]))),
            }
            match (m.as_str(), d) {
                ("store", _) => match c.args.get(1).and_then(|v| as_int(*v)) {
                    Some(n) => {
                        if self.adopt || st.gi(COUNT) != 0 {
                            self.bad(e, st, "C14", "a count is overwritten", "the count of a region that others may already use is overwritten");
                        }
                        st.gseti(COUNT, n);
                    }
                    None => self.bad(e, st, "C14", &format!("{k}: unknown change of a count"), "a region's count is changed by an unknown amount"),
                },
                (_, Some(d)) => {
                    let n = st.gi(COUNT) + d;
                    st.gseti(COUNT, n);
                }
                _ => self.bad(e, st, "C14", &format!("{k}: unknown change of a count"), "a region's count is changed by an unknown amount"),
            }
            return Act::Default;
        }
        if c.rp.starts_with("core::slice::<impl [T]>::copy_from_slice") || c.rp.starts_with("core::slice::<impl [T]>::clone_from_slice") {
            let v = models::content(e, st, c.args[1], c.argtys[1]);
            let v = match nd(v) {
                N::Op("slice" | "arr", a) => a[0],
                _ => e.load(st, mk_data(c.args[1]), None),
            };
            self.put(e, st, mk_data(c.args[0]), v);
            return Act::Default;
        }
        match libc(c) {
            Some("mmap" | "mmap64") => {
                e.site("mapping", site(e, c));
                let (len, prot, flags, fd, off) = (c.args[1], c.args[2], c.args[3], c.args[4], c.args[5]);
                if bits(prot).0 & 3 != 3 || bits(flags).0 & 1 != 1 {
                    self.bad(e, st, "C15", &format!("{}: not shared", site(e, c)), "the object is not mapped shared, readable and writable");
                }
                if !aligned(&lin(strip(off))) {
                    self.bad(e, st, "C15", &format!("{}: not at a page", site(e, c)), &format!("the offset of a mapping is not a multiple of the page size: {}", show(off)));
                }
                let mut no = st.clone();
                no.gseti(MF, 1);
                let mut yes = st.clone();
                let m = e.fresh(&mut yes, c.ctx, c.bb, 0);
                let mut out = vec![(no, int(MAX))];
                if e.exclude(&mut yes, m, MAX) && e.exclude(&mut yes, m, 0) {
                    yes.gset(LEN, m, len);
                    yes.gset(OFF, m, off);
                    yes.gset(FD, m, fd);
                    yes.gdel(GONE, m);
                    out.push((yes, m));
                }
                return Act::Forks(out);
            }
            Some("munmap") => {
                e.site("unmapping", site(e, c));
                let (b, off) = place(c.args[0]);
                match st.g(LEN, b) {
                    Some(l) => {
                        let same = self.constant(e, st, &lin(strip(c.args[1])).add(&lin(strip(l)), -1)) == Some(0);
                        if off.is_const() != Some(0) || !same {
                            self.bad(e, st, "C15", &format!("{}: not what was mapped", site(e, c)), &format!("{} bytes are unmapped at {} of a mapping of {} bytes", show(c.args[1]), off.show(), show(l)));
                        }
                        if st.g(GONE, b).is_some() {
                            self.bad(e, st, "C15", &format!("{}: twice", site(e, c)), "a mapping is unmapped twice");
                        }
                        st.gset(GONE, b, int(1));
                    }
                    None => self.bad(e, st, "C15", &format!("{}: something else", site(e, c)), &format!("memory is unmapped that is not a mapping of the region: {}", show(b))),
                }
                return Act::Ret(int(0));
            }
            Some("ftruncate" | "ftruncate64") => {
                e.site("sizing of an object", site(e, c));
                let n = strip(c.args[1]);
                let mut yes = st.clone();
                let mut out = vec![];
                let l = lin(n);
                let mut ok = e.bound(&mut yes, n, Some(0), Some(self.max));
                if let (1, Some((v, 1))) = (l.t.len(), l.t.iter().next()) {
                    ok = ok && e.bound(&mut yes, *v, Some(0), Some(self.max - l.c));
                    if Some(*v) == st.g(SIZE, int(0)).map(strip) {
                        self.layout.borrow_mut().extra.insert(l.c);
                    } else {
                        self.bad(e, st, "C15", "an object of another size", "the object of a new region is not sized by the size asked for");
                    }
                } else {
                    self.bad(e, st, "C15", "an object of another size", &format!("the object of a new region is not as large as the size asked for and a header: {}", l.show()));
                }
                if ok {
                    yes.gset(TOTAL, c.args[0], n);
                    out.push((yes, int(0)));
                }
                out.push((st.clone(), int(-1)));
                return Act::Forks(out);
            }
            _ => {}
        }
        Act::Default
    }
    fn on_write(&mut self, e: &mut Eng, st: &mut State, c: CellId, path: &[P], v: Val) {
        let p = match cell(c) {
            Cell::Der(p) => p,
            _ => return,
        };
        if path.is_empty() {
            self.put(e, st, p, v);
        } else if st.g(LEN, place(p).0).is_some() {
            self.bad(e, st, "C15", "something else is written to the header", &format!("{} is written to a mapping", show(v)));
        }
    }
    fn on_panic(&mut self, e: &mut Eng, st: &mut State, what: &str, terms: &[Val]) {
        if st.gi(ASKED) != 1 {
            return;
        }
        if what.contains("overflow") && terms.len() == 2 {
            let (x, y) = (lin(strip(terms[0])), lin(strip(terms[1])));
            let d = if what.contains("(Add") {
                x.add(&y, 1).add(&Lin::k(MAX), -1)
            } else if what.contains("(Sub") {
                y.add(&x, -1)
            } else {
                return;
            };
            if self.le0(e, st, &d) {
                return;
            }
        }
        self.bad(e, st, "C15", &format!("mapping panics: {what}"), &format!("a range makes the mapping panic instead of being refused: {what} ({})", terms.iter().map(|t| show(*t)).collect::<Vec<_>>().join(", ")));
    }
}

impl Life {
    /// a value is written to an address
    fn put(&mut self, e: &mut Eng, st: &mut State, p: Val, v: Val) {
        let (b, off) = place(p);
        let l = match st.g(LEN, b) {
            Some(l) => l,
            None => return,
        };
        if let Some(o) = off.is_const() {
            let size = st.g(SIZE, int(0)).map(strip);
            let (x, w) = match is_op(v, "nebytes") {
                Some(a) => (strip(a[0]), 8),
                None => (strip(v), 8),
            };
            if Some(x) == size {
                self.layout.borrow_mut().size_w.insert((o, w));
                if !self.le0(e, st, &Lin::k(o + w).add(&lin(strip(l)), -1)) {
                    self.bad(e, st, "C15", "the size is outside the header", "the size of the region is written beyond the mapped header");
                }
                return;
            }
        }
        self.bad(e, st, "C15", "something else is written to the header", &format!("{} is written to {} of a mapping", show(v), off.show()));
    }
    /// the size a region reports
    fn told(&mut self, e: &mut Eng, st: &mut State, v: Val) {
        let v = strip(v);
        if let Some(s) = st.g(SIZE, int(0)) {
            e.count("sizes compared");
            if self.constant(e, st, &lin(v).add(&lin(strip(s)), -1)) != Some(0) {
                self.bad(e, st, "C15", "a new region has another size", "the size a new region reports is not the size it was asked for");
            }
            return;
        }
        // an adopted region: the size stands in the header, put there by an honest creator
        let _ = e.bound(st, v, Some(0), Some(self.max - 4096));
        let src = match nd(v) {
            N::Deref(p) => Some(*p),
            _ => {
                let mut p = None;
                any_sub(v, &mut |x| {
                    if let (N::Deref(q), true) = (nd(x), p.is_none()) {
                        p = Some(*q);
                    }
                    false
                });
                p
            }
        };
        let at = src.map(place).and_then(|(b, o)| st.g(LEN, b).map(|l| (l, o.is_const())));
        match at {
            Some((l, Some(o))) => {
                e.count("sizes compared");
                self.layout.borrow_mut().size_r.insert((o, 8));
                if !self.le0(e, st, &Lin::k(o + 8).add(&lin(strip(l)), -1)) {
                    self.bad(e, st, "C15", "the size is read outside the header", "the size of a region is read beyond the mapped header");
                }
            }
            _ => self.bad(e, st, "C15", "the size of a received region is not read from it", &format!("the size a received region reports is not taken from its header: {}", show(v))),
        }
    }
}

const LIVES: &[&str] = &["cycle", "adopt", "family", "view_all", "view_from", "view_to", "view_incl", "view_to_incl", "view_excl", "view_excl_all"];

pub fn lives(id: &'static str, env: &Env, rep: &mut Rep) {
    let mut e = env.core();
    e.focus_repo(40);
    e.keep_ovf = true;
    let layout: Shared = Default::default();
    for n in LIVES {
        let f = match root(&e, &format!("root_region_{n}")) {
            Some(f) => f,
            None => {
                rep.bad(&format!("anchor: {n}"), "a life of a region is missing in the fixture".into(), "whole program".into());
                continue;
            }
        };
        rep.site("life of a region followed", n.to_string());
        let adopt = *n == "adopt";
        let m = Life { want: id, layout: layout.clone(), adopt, max: i64::MAX as i128 };
        run(&mut e, rep, f, Box::new(m), &mut |e, st| {
            for i in 1..=e.f(f).ac {
                let l = e.local(st.ctx, i);
                if e.ty(e.f(f).locals[i as usize]).k == Kind::Uint {
                    let v = e.read(st, l, &[]);
                    let _ = e.bound(st, v, Some(0), Some(MAX));
                    st.gset(ARG, int(i as i128), v);
                    if i == 1 && !adopt {
                        st.gset(SIZE, int(0), v);
                    }
                }
            }
        });
    }
    rep.floor("mapping", 1);
    rep.floor("unmapping", 1);
    rep.floor("update of a region's count", 2);
    if id == "C15" {
        let l = layout.borrow();
        let whole = "whole program";
        let mut bad = |k: &str, m: String| rep.bad(k, m, whole.into());
        for (s, what) in [(&l.count, "count"), (&l.size_w, "size written"), (&l.size_r, "size read")] {
            if s.len() != 1 {
                bad(&format!("layout: {what}"), format!("the place of the {what} is not one place: {s:?}"));
            }
        }
        if l.data.len() != 1 || l.extra.len() != 1 {
            bad("layout: data", format!("the data area starts at {:?}, objects have {:?} bytes beyond the size", l.data, l.extra));
        }
        if l.size_w != l.size_r {
            bad("layout: size", format!("the size is written at {:?} and read at {:?}", l.size_w, l.size_r));
        }
        if let (Some(c), Some(s), Some(d), Some(x)) = (l.count.first(), l.size_w.first(), l.data.first(), l.extra.first()) {
            if c.0 + c.1 > s.0 && s.0 + s.1 > c.0 {
                bad("layout: overlap", "the count and the size overlap".into());
            }
            if *d < (c.0 + c.1).max(s.0 + s.1) {
                bad("layout: header in the data", format!("the data area starts at {d}, inside the header"));
            }
            if *x < *d {
                bad("layout: object too small", format!("an object has {x} bytes beyond the size, but its data starts at {d}"));
            }
            rep.site("layout of a region", format!("count at {}, size at {}, data at {d}", c.0, s.0));
        }
    }
}

/// Handles live and die by the rules of ownership: nothing takes a region, or something that
/// holds one, out of them.
pub fn owned(env: &Env, rep: &mut Rep) {
    for e in [env.core()] {
        let calls = repo_calls(&e);
        rep.add("calls searched for lost or doubled handles", calls.len() as u64);
        for (f, _, c, span) in calls {
            let what = match c.rp.as_str() {
                "core::mem::forget" | "core::mem::manually_drop::ManuallyDrop::<T>::new" | "core::ptr::read" | "core::ptr::read_unaligned" | "core::mem::transmute_copy" => true,
                p => matches!(last(p), "leak" | "copy" | "copy_nonoverlapping" | "read" | "read_unaligned" | "read_volatile" | "assume_init_read") && (p.starts_with("core::ptr") || p.starts_with("alloc::") || p.starts_with("core::intrinsics") || p.starts_with("core::mem::")) || (p.ends_with("::set_len") && p.starts_with("alloc::vec")),
            };
            // the interior of a region may be looked at
            let held = |t: &TyId| match e.ty(*t).path.as_str() {
                _ => holds(&e, *t, &|e, x| named(e, x, "MemoryRegion") && e.ty(x).krate == "ipmb"),
            };
            if what && c.rargs.iter().chain(&c.args).any(|t| held(t)) {
                let g = e.f(f).p.clone();
                rep.bad(&format!("{} in {g}", last(&c.rp)), "a memory region, or something that holds one, is taken out of ownership: its handle is lost or doubled".into(), span);
            }
        }
    }
    rep.site("search for lost or doubled handles", "core".into());
}
