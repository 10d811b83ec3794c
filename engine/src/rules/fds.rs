//! C25: every descriptor has exactly one owner.
//!
//! Ownership typestate of raw descriptor numbers: a number that the kernel just created (or that
//! was taken out of its owner) is loose; it must be put under an owner, closed, or returned.
//! Attachments of a received message are loose as well: the adopting loop must go through all of
//! them, one by one.
use super::errno::{self, *};
use super::flags::{containing, MAKERS, NEVER, PROGS};
use super::util::*;
use super::*;
use crate::lin::lin;
use std::cell::Cell as Flag;

const RAW: u16 = 210; // number -> 1 loose, 2 owned, 3 closed
const ATT: u16 = 211; // 1 attachments are loose, 2 all gone through
const NEXT: u16 = 212; // address of the next one
const BASE: u16 = 214; // address of the first
const CNT: u16 = 215; // how many there are
const CLEN: u16 = 216; // length of the control data
const CUR: u16 = 217; // element at hand, when gone through as a slice
const DONE: u16 = 218; // 1 the element at hand was adopted

struct M25 {
    fin: bool,
    esc: Rc<Flag<bool>>,
    readers: Rc<BTreeSet<FnId>>,
    /// functions that only receive into what their callers give them
    thin: Rc<RefCell<BTreeSet<FnId>>>,
    root: FnId,
}

fn owns_fd(e: &Eng, t: TyId) -> bool {
    holds(e, t, &|e, t| e.ty(t).path == "std::os::fd::owned::OwnedFd")
}
/// how many attachments are left, as well
fn rem_cell() -> CellId {
    mk_cell(Cell::Static(sstr("attachments left")))
}
/// the number of adopted attachments; kept like a variable of the program so that it is joined like one
fn idx_cell() -> CellId {
    mk_cell(Cell::Static(sstr("attachments adopted")))
}
fn loose(st: &State, x: Val) -> i128 {
    st.g(RAW, x).and_then(as_int).unwrap_or(0)
}
/// the descriptor numbers that a maker call yields
fn creates(n: &str) -> bool {
    MAKERS.iter().any(|m| m.0 == n) || NEVER.contains(&n)
}

impl M25 {
    fn up(&self, v: Val) -> bool {
        if !self.fin && from_param(v) {
            self.esc.set(true);
            return true;
        }
        false
    }
    /// a number is put under an owner
    fn adopt(&mut self, e: &mut Eng, st: &mut State, c: &Call, x: Val) {
        let k = site(e, c);
        e.site("owner made", k.clone());
        match loose(st, x) {
            1 => {
                st.gset(RAW, x, int(2));
                return;
            }
            2 => {
                e.report(st, &format!("{k}: second owner"), "a descriptor that already has an owner is put under another one: it is closed twice".into());
                return;
            }
            3 => {
                e.report(st, &format!("{k}: closed descriptor"), "a descriptor that was closed is put under an owner".into());
                return;
            }
            _ => {}
        }
        if e.known(st, x) == Some(-1) || as_int(x) == Some(-1) {
            e.report(st, &format!("{k}: failed call"), "the result of a call that failed is put under an owner".into());
            return;
        }
        if any_sub(x, &mut |v| is_op(v, "rawof").is_some()) {
            e.report(st, &format!("{k}: borrowed descriptor"), "the number of a descriptor that another value owns is put under a second owner: it is closed twice".into());
            return;
        }
        // attachments
        if st.gi(ATT) > 0 {
            let p = match nd(x) {
                N::Deref(p) => Some(*p),
                _ => None,
            };
            if let Some(p) = p {
                self.attachment(e, st, c, p);
                return;
            }
        }
        if self.up(x) || from_param(x) {
            // handed over by the caller (a number read from memory is not remembered: it may be one of many)
            if !matches!(nd(x), N::Deref(_)) {
                st.gset(RAW, x, int(2));
            }
            return;
        }
        if let N::Sym(..) | N::Fld(..) = nd(x) {
            // handed over by foreign code
            st.gset(RAW, x, int(2));
            e.site("owner made of a foreign number", k);
            return;
        }
        if !self.fin {
            self.esc.set(true);
            return;
        }
        e.report(st, &format!("{k}: unknown descriptor"), format!("a number of unknown origin ({}) is put under an owner", show(x)));
    }
    fn attachment(&mut self, e: &mut Eng, st: &mut State, c: &Call, p: Val) {
        let k = site(e, c);
        e.site("adoption of attachments", k.clone());
        let base = st.g(BASE, unit()).unwrap_or_else(undef);
        let idx = e.read(st, idx_cell(), &[]);
        let at = crate::eng::mk_padd(base, e.bin("Mul", idx, int(4), None));
        let next = st.g(NEXT, unit());
        let cur = st.g(CUR, unit());
        if st.gi(ATT) == 2 {
            e.report(st, &format!("{k}: too many"), "a descriptor is adopted after all attachments were".into());
            return;
        }
        if cur.map_or(false, |x| x == p) {
            if st.gi(DONE) == 1 {
                e.report(st, &format!("{k}: twice"), "an attachment is adopted twice".into());
            }
            st.gseti(DONE, 1);
        } else if Some(p) == next || p == at || self.same(p, base, idx) {
        } else {
            e.report(st, &format!("{k}: not the next attachment"), format!("the descriptor adopted is not the next attachment (read at {}, expected at {}): one is adopted twice or leaks", show(p), next.map_or("?".into(), show)));
        }
        let n = crate::eng::mk_padd(p, int(4));
        st.gset(NEXT, unit(), n);
        let i = mk_add(idx, int(1));
        e.write_raw(st, idx_cell(), &[], i);
        let r = e.read(st, rem_cell(), &[]);
        e.write_raw(st, rem_cell(), &[], mk_sub(r, int(1)));
    }
    fn same(&self, p: Val, base: Val, idx: Val) -> bool {
        let (b0, o0) = split(base);
        let (b1, o1) = split(p);
        b0 == b1 && lin(o1).add(&lin(o0), -1) == lin(idx).scale(4)
    }
    fn close(&mut self, e: &mut Eng, st: &mut State, x: Val, k: &str) {
        match loose(st, x) {
            1 => st.gset(RAW, x, int(3)),
            2 => e.report(st, &format!("{k}: owned"), "a descriptor that has an owner is closed by its number: it is closed twice".into()),
            3 => e.report(st, &format!("{k}: closed twice"), "a descriptor is closed twice".into()),
            _ => {
                if any_sub(x, &mut |v| is_op(v, "rawof").is_some()) {
                    e.report(st, &format!("{k}: borrowed"), "a descriptor that another value owns is closed by its number: it is closed twice".into());
                }
                let _ = self.up(x);
            }
        }
    }
    fn take_over(&mut self, e: &mut Eng, st: &mut State, ty: TyId, k: String) {
        if owns_fd(e, ty) {
            e.report(st, &k, "a value that owns a descriptor is taken out of the ownership discipline: its descriptor is never closed, or closed twice".into());
        }
    }
    /// loose numbers must not be given up
    fn leave(&mut self, e: &mut Eng, st: &State, ret: Option<Val>, when: &str) {
        for (x, s) in st.gkeys(RAW) {
            if as_int(s) != Some(1) {
                continue;
            }
            if let Some(r) = ret {
                if contains(r, x) {
                    if !self.fin {
                        self.esc.set(true);
                    }
                    continue;
                }
            }
            if self.stored(st, x) {
                continue;
            }
            e.report(st, &format!("a descriptor leaks {when} in {}", e.f(self.root).p), format!("a descriptor that has no owner ({}) is given up without closing it", show(x)));
        }
        if st.gi(ATT) == 1 {
            let none = st.g(CLEN, unit()).map_or(false, |l| matches!(e.range(st, l), (_, Some(h)) if h < 20));
            if !none {
                e.report(st, &format!("attachments leak {when} in {}", e.f(self.root).p), "the descriptors attached to a received message are not all put under owners on this path".into());
            }
        }
    }
    /// kept in memory of the caller
    fn stored(&self, st: &State, x: Val) -> bool {
        if self.fin {
            return false;
        }
        let r = st.mem.iter().any(|(c, v)| matches!(cell(*c), Cell::Der(_)) && contains(*v, x));
        if r {
            self.esc.set(true);
        }
        r
    }
}
fn split(p: Val) -> (Val, Val) {
    match is_op(p, "padd") {
        Some(a) => (a[0], a[1]),
        None => (p, int(0)),
    }
}

impl Mon for M25 {
    fn leaf(&self, _e: &Eng, f: &FnD) -> bool {
        f.id != self.root && self.readers.contains(&f.id)
    }
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        if let Some(a) = errno::call(e, st, c) {
            return a;
        }
        let m = last(&c.rp).to_string();
        if c.rp.starts_with("core::mem::") || c.rp.contains("ManuallyDrop") {
            let t = c.argtys.first().copied();
            match (m.as_str(), t) {
                ("forget" | "new", Some(t)) => self.take_over(e, st, t, format!("{}: descriptor owner", site(e, c))),
                _ => {}
            }
        }
        if is_repo(e.f(e.ctxs[st.ctx as usize].f)) {
            match (m.as_str(), c.rp.as_str()) {
                ("read" | "read_unaligned" | "transmute_copy", r) if r.starts_with("core::ptr::") || r.starts_with("core::mem::") => self.take_over(e, st, c.ret, format!("{}: descriptor owner", site(e, c))),
                ("leak", r) if r.starts_with("alloc::") => {
                    if let Some(t) = c.argtys.first() {
                        self.take_over(e, st, *t, format!("{}: descriptor owner", site(e, c)))
                    }
                }
                _ => {}
            }
        }
        if m == "from_raw_fd" && e.ty(c.ret).path.starts_with("std::") {
            let x = c.args[0];
            self.adopt(e, st, c, x);
            return Act::Default;
        }
        let n = match libc(c) {
            Some(n) => n.to_string(),
            None => return Act::Default,
        };
        if n == "close" {
            let k = site(e, c);
            e.site("close", k.clone());
            self.close(e, st, c.args[0], &k);
            return Act::Default;
        }
        let dup = n == "fcntl" && matches!(c.args.get(1).and_then(|v| as_int(*v)), Some(0 | 1030));
        if creates(&n) || dup {
            e.site("descriptor made", site(e, c));
            let mut out = vec![];
            let mut ok = st.clone();
            match n.as_str() {
                "socketpair" | "pipe" | "pipe2" => {
                    let i = c.args.len() - 1;
                    let i = if n == "pipe2" { 0 } else { i };
                    let pt = e.pointee(c.argtys[i]);
                    for j in 0..2u32 {
                        let x = e.fresh(&mut ok, c.ctx, c.bb, j);
                        let p = match nd(c.args[i]) {
                            N::Ref(cc, ps) => {
                                let mut ps = ps.clone();
                                ps.push(P::I(int(j as i128)));
                                mk(N::Ref(*cc, ps))
                            }
                            _ => crate::eng::mk_padd(c.args[i], int(4 * j as i128)),
                        };
                        e.store(&mut ok, p, pt, x);
                        if e.bound(&mut ok, x, Some(3), None) {
                            ok.gset(RAW, x, int(1));
                        }
                    }
                    out.push((ok, int(0)));
                }
                _ => {
                    let x = e.fresh(&mut ok, c.ctx, c.bb, 0);
                    if e.bound(&mut ok, x, Some(3), None) {
                        ok.gset(RAW, x, int(1));
                    }
                    out.push((ok, x));
                }
            }
            out.extend(errno::fails(st, &[OTHER]));
            return Act::Forks(out);
        }
        if n == "recvmsg" && st.gi(ATT) == 1 {
            self.leave(e, st, None, "when the next message is received");
            st.gseti(ATT, 0);
        }
        Act::Default
    }
    fn after(&mut self, e: &mut Eng, st: &mut State, c: &Call, ret: Val) {
        if last(&c.rp) == "into_raw_fd" && !c.args.is_empty() {
            e.site("owner taken apart", site(e, c));
            if loose(st, ret) == 3 {
                e.report(st, &format!("{}: closed", site(e, c)), "a closed descriptor is taken out of its owner".into());
            }
            st.gset(RAW, ret, int(1));
            return;
        }
        if libc(c) != Some("recvmsg") {
            return;
        }
        let (must, may) = bits(c.args[2]);
        if must & 2 != 0 {
            return;
        }
        let _ = may;
        let pt = e.pointee(c.argtys[1]);
        let h = e.load(st, c.args[1], pt);
        let fld = |e: &Eng, n: &str| pt.and_then(|t| e.prog.field(t, 0, n)).map(|i| e.project(h, P::F(i)));
        let (ctl, len) = match (fld(e, "msg_control"), fld(e, "msg_controllen")) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        if is_op(ctl, "null").is_some() || as_int(len) == Some(0) {
            return;
        }
        if from_param(ctl) && !self.fin {
            self.esc.set(true);
            self.thin.borrow_mut().insert(self.root);
            return;
        }
        // success only: on failure nothing was received
        match e.range(st, ret) {
            (_, Some(h)) if h <= 0 => return,
            _ => {}
        }
        e.site("message with attachments received", site(e, c));
        let n = e.fresh(st, c.ctx, c.bb, 90);
        if !e.bound(st, n, Some(0), Some(253)) {
            return;
        }
        let ht = e.tys("libc::unix::linux_like::linux::gnu::cmsghdr").first().copied().or_else(|| e.prog.types.iter().position(|t| t.path.ends_with("::cmsghdr")).map(|i| i as TyId));
        if let Some(ht) = ht {
            let (cc, mut ps) = e.target(ctl, Some(ht));
            if let Some(i) = e.prog.field(ht, 0, "cmsg_len") {
                ps.push(P::F(i));
                let l = mk_add(e.bin("Mul", n, int(4), None), int(16));
                e.write_raw(st, cc, &ps, l);
            }
        }
        st.gseti(ATT, 1);
        let b = crate::eng::mk_padd(ctl, int(16));
        st.gset(BASE, unit(), b);
        st.gset(NEXT, unit(), b);
        e.write_raw(st, idx_cell(), &[], int(0));
        e.write_raw(st, rem_cell(), &[], n);
        st.gset(CNT, unit(), n);
        st.gset(CLEN, unit(), len);
        st.gset(217, int(1), ret);
    }
    fn on_assume(&mut self, e: &mut Eng, st: &mut State, v: Val, n: Option<i128>) {
        if st.gi(ATT) != 1 {
            return;
        }
        // the reception failed
        if let Some(r) = st.g(217, int(1)) {
            if let (_, Some(h)) = e.range(st, r) {
                if h <= 0 {
                    st.gseti(ATT, 0);
                    return;
                }
            }
        }
        let cnt = match st.g(CNT, unit()) {
            Some(c) => c,
            None => return,
        };
        let idx = e.read(st, idx_cell(), &[]);
        let rem = e.read(st, rem_cell(), &[]);
        let end = |x: Val| lin(x) == lin(cnt);
        let hit = match nd(v) {
            N::Op("lt", a) if n == Some(0) && as_int(a[0]) == Some(0) && a[1] == rem => true,
            N::Op("eq", a) if n == Some(1) && (as_int(a[0]) == Some(0) || as_int(a[1]) == Some(0)) && a.contains(&rem) => true,
            N::Op("lt", a) if n == Some(0) => end(a[1]) && a[0] == idx,
            N::Op("eq", a) if n == Some(1) => (end(a[1]) && a[0] == idx) || (end(a[0]) && a[1] == idx),
            _ => {
                // counted directly
                n == Some(0) && (v == rem || (end(v) && as_int(idx) == Some(0)))
            }
        };
        if hit {
            e.site("end of the adoption", e.loc(st).split(' ').next().unwrap_or("").split(':').next().unwrap_or("").to_string());
            st.gseti(ATT, 2);
        }
    }
    fn on_next(&mut self, e: &mut Eng, st: &mut State, _c: &Call, seq: Val, el: Option<Val>) {
        if st.gi(ATT) != 1 {
            return;
        }
        let (base, cnt) = match (st.g(BASE, unit()), st.g(CNT, unit())) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        if crate::eng::mk_data(seq) != base && split(crate::eng::mk_data(seq)) != split(base) {
            return;
        }
        if st.g(CUR, unit()).is_some() && st.gi(DONE) == 0 {
            e.report(st, &format!("an attachment is passed over in {}", e.f(self.root).p), "an attached descriptor is gone through but not put under an owner".into());
        }
        st.gseti(DONE, 0);
        match el {
            Some(p) => {
                st.gset(CUR, unit(), p);
            }
            None => {
                st.gdel(CUR, unit());
                if lin(mk_len(seq)) == lin(cnt) {
                    st.gseti(ATT, 2);
                } else {
                    e.report(st, &format!("not all attachments are gone through in {}", e.f(self.root).p), format!("the attachments gone through ({}) are not those received", show(mk_len(seq))));
                }
            }
        }
    }
    fn on_drop(&mut self, e: &mut Eng, st: &mut State, ty: TyId, v: Val, _c: CellId, _p: &[P]) {
        if e.ty(ty).path != "std::os::fd::owned::OwnedFd" {
            return;
        }
        if let Some(a) = is_op(v, "ofd") {
            let x = a[0];
            match loose(st, x) {
                3 => e.report(st, &format!("a descriptor is closed twice in {}", e.f(self.root).p), "an owner closes a descriptor that is closed already".into()),
                2 => st.gset(RAW, x, int(3)),
                _ => {}
            }
        }
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        self.leave(e, st, Some(ret), "when leaving");
    }
}

fn relevant(n: &str) -> bool {
    match libc_name(n) {
        Some(l) => creates(l) || matches!(l, "fcntl" | "recvmsg" | "recvmmsg" | "close"),
        None => {
            let m = last(n);
            matches!(m, "from_raw_fd" | "into_raw_fd") || (m == "forget" && n.starts_with("core::mem")) || n.contains("ManuallyDrop")
        }
    }
}
fn reader(n: &str) -> bool {
    matches!(libc_name(n), Some("recvmsg" | "recvmmsg"))
}

pub fn c25(env: &Env, rep: &mut Rep) {
    rep.rule = "ownership typestate of descriptor numbers: from the call that creates one (or takes it out of its owner) to the owner it is put under, the call that closes it, or the caller it is returned to, on every path; attachments of received messages are adopted one by one to the last; nothing borrowed is adopted or closed".into();
    for prog in PROGS {
        let mut e = Eng::new(env.prog(prog));
        // wrappers of the raw functions in the core crate
        let wrap: BTreeSet<String> = repo_calls(&e).into_iter().filter(|(f, _, c, _)| e.f(*f).krate == "ipmb" && matches!(last(&c.rp), "from_raw_fd" | "into_raw_fd")).map(|(f, ..)| e.f(f).p.clone()).collect();
        let todo = containing(&e, rep, prog, &|n| relevant(n) || (prog != "ipmb_fixture" && wrap.contains(n)));
        let mut readers = Rc::new(containing(&e, rep, prog, &reader));
        let thin: Rc<RefCell<BTreeSet<FnId>>> = Default::default();
        e.focus(&|n| relevant(n) || matches!(last(n), "as_raw_fd") || n.contains("core::iter::range::Step") || n.contains("core::slice::iter") || n.contains("slice::iter::Iter") || n.contains("<impl [T]>::iter"), &|_| false, 40);
        let root = Rc::new(Flag::new(0u32));
        let _ = &root;
        // a wrapper of the system call is part of the functions that use it
        for _ in 0..3 {
            let mut new = BTreeSet::new();
            for f in readers.iter() {
                if thin.borrow().contains(f) {
                    continue;
                }
                let mut scratch = Rep::default();
                let m = M25 { fin: false, esc: Default::default(), readers: readers.clone(), thin: thin.clone(), root: *f };
                run(&mut e, &mut scratch, *f, Box::new(m), &mut |_, _| {});
                if thin.borrow().contains(f) {
                    new.insert(e.f(*f).p.clone());
                }
            }
            if new.is_empty() {
                break;
            }
            let mut r: BTreeSet<FnId> = containing(&e, rep, prog, &|n| new.contains(n));
            r.extend(readers.iter().filter(|f| !thin.borrow().contains(f)));
            readers = Rc::new(r);
        }
        units_f(&mut e, rep, todo, &|f, fin, esc| Box::new(M25 { fin, esc, readers: readers.clone(), thin: thin.clone(), root: f }));
    }
    rep.floor("descriptor made", 5);
    rep.floor("message with attachments received", 1);
    rep.floor("adoption of attachments", 1);
    rep.floor("owner made", 1);
}
