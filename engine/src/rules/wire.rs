//! The transmission of a message over a connection: C33 (interruptions), C34 (which errors mean a
//! dead connection), C14 (counts of attached regions), C12 and C18 (everything is handed over).
use super::controller::*;
use super::errno::{self, *};
use super::util::*;
use super::*;

const CUR: u16 = 100; // element of the list of regions
const ADD: u16 = 101; // changes of its count in this pass
const SUM: u16 = 102; // changes per element in this pass (offset by 100)
const BAL: u16 = 103; // completed passes
const EMPTY: u16 = 104; // there are no regions
const SENT: u16 = 105; // 1 last transmission succeeded, 2 failed
const CLEAN: u16 = 106; // 1: no failure was handled yet

pub const ORDER_FNS: &[&str] = &["fetch_add", "fetch_sub", "store", "load", "swap", "compare_exchange", "compare_exchange_weak", "fetch_and", "fetch_or", "fetch_xor", "fetch_max", "fetch_min", "fetch_nand", "fetch_update"];

/// an operation on a shared counter: (operation, change)
pub fn counter_op(e: &Eng, c: &Call) -> Option<(String, Option<i128>)> {
    if !(c.rp.starts_with("core::sync::atomic::Atomic") || c.p.starts_with("core::sync::atomic::Atomic")) {
        return None;
    }
    let m = last(&c.rp).to_string();
    if !ORDER_FNS.contains(&m.as_str()) {
        return None;
    }
    let _ = e;
    let wrap = |v: i128| (v as u32) as i32 as i128;
    let d = match m.as_str() {
        "load" => Some(0),
        "fetch_add" => c.args.get(1).and_then(|v| as_int(*v)).map(wrap),
        "fetch_sub" => c.args.get(1).and_then(|v| as_int(*v)).map(|v| -wrap(v)),
        _ => None,
    };
    Some((m, d))
}
/// is the ordering argument sequentially consistent
pub fn seq_cst(e: &Eng, c: &Call) -> bool {
    c.args.iter().zip(&c.argtys).filter(|(_, t)| e.ty(**t).path == "core::sync::atomic::Ordering").all(|(v, t)| match nd(*v) {
        N::Agg(_, k, _) => e.ty(*t).variants[*k as usize].name == "SeqCst",
        N::Int(i) => e.ty(*t).variants.iter().any(|x| x.disc == *i && x.name == "SeqCst"),
        _ => false,
    })
}
pub fn is_region(e: &Eng, t: TyId) -> bool {
    named(e, t, "MemoryRegion")
}

pub struct Tx {
    pub want: &'static str,
    pub ret: TyId,
    pub lens: HashSet<Val>,
    pub root: FnId,
}
const DEAD: &[i128] = &[EPIPE, ECONNRESET, ECONNREFUSED, ENOTCONN];
const REFUSED: &[i128] = &[EMSGSIZE, ETOOMANYREFS, ENOBUFS, EINVAL];

impl Tx {
    fn bad(&self, e: &mut Eng, st: &State, props: &str, key: &str, msg: &str) {
        if props.split('+').any(|p| p == self.want) {
            e.report(st, key, msg.to_string());
        }
    }
    fn boundary(&self, e: &mut Eng, st: &mut State) {
        if st.g(CUR, int(0)).is_none() {
            return;
        }
        let a = st.gi(ADD) + 100;
        let s = st.gi(SUM);
        if s == 0 {
            st.gseti(SUM, a);
        } else if s != a {
            self.bad(e, st, "C14", "regions are counted unequally", "during one pass over the attached regions the count of some is changed differently from that of others");
        }
        st.gdel(CUR, int(0));
        st.gseti(ADD, 0);
    }
    fn partial(&self, e: &mut Eng, st: &mut State) {
        self.boundary(e, st);
        let s = st.gi(SUM);
        if s != 0 && s != 100 {
            self.bad(e, st, "C14", "a pass over the attached regions is cut short", "the count of only some of the attached regions is changed before the pass over them is left");
        }
        st.gseti(SUM, 0);
    }
    fn bal(&self, st: &State, n: i128) -> bool {
        st.gi(EMPTY) == 1 || st.gi(BAL) == n
    }
}

impl Mon for Tx {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        if let Some(a) = errno::call(e, st, c) {
            return a;
        }
        if let Some((m, d)) = counter_op(e, c) {
            e.site("update of a region's count", format!("{m} in {}", e.repo_fn(c.ctx)));
            let k = site(e, c);
            if !seq_cst(e, c) {
                self.bad(e, st, "C14", &format!("{k}: not sequentially consistent"), "a region's count is accessed with a weaker ordering than SeqCst");
            }
            match d {
                Some(0) => {}
                Some(d) => {
                    self.touch(e, st, c.args[0]);
                    let cur = st.g(CUR, int(0));
                    if cur.map_or(false, |x| contains(c.args[0], x)) {
                        let a = st.gi(ADD) + d;
                        st.gseti(ADD, a);
                    } else {
                        self.bad(e, st, "C14", &format!("{k}: not the count of the region at hand"), "a count is changed that does not belong to the attached region being gone through");
                    }
                }
                None => self.bad(e, st, "C14", &format!("{k}: unknown change of a count"), "a region's count is changed by an unknown amount"),
            }
            return Act::Default;
        }
        match libc(c) {
            Some("sendmsg" | "send" | "sendto" | "sendmmsg" | "write" | "writev") => {
                e.site("transmission", site(e, c));
                self.partial(e, st);
                if !self.bal(st, 1) {
                    self.bad(e, st, "C14", "a message is transmitted before its regions are counted", "the message is handed to the kernel on a path where the count of each attached region was not raised by exactly one before");
                }
                if st.gi(SENT) == 1 {
                    self.bad(e, st, "C18+C12", "a message is transmitted twice", "the message is transmitted again after the kernel accepted it");
                }
                if st.gi(SENT) == 2 && st.gi(ERR) != EINTR && st.gi(ERR) != EAGAIN {
                    self.bad(e, st, "C34", &format!("the transmission is repeated after {}", errno::name(st.gi(ERR))), "the transmission is repeated although the kernel's error is not transient");
                }
                self.whole(e, st, c);
                let mut ok = st.clone();
                ok.gseti(SENT, 1);
                ok.gseti(ERR, 0);
                let n = e.fresh(&mut ok, c.ctx, c.bb, 0);
                let mut out = vec![];
                if e.bound(&mut ok, n, Some(1), None) && e.exclude(&mut ok, n, -1) {
                    out.push((ok, n));
                }
                let mut st = st.clone();
                st.gseti(SENT, 2);
                let mut all: Vec<i128> = vec![EINTR, OTHER];
                all.extend(DEAD);
                all.extend(REFUSED);
                out.extend(errno::fails(&st, &all));
                Act::Forks(out)
            }
            _ => Act::Default,
        }
    }
    fn on_next(&mut self, e: &mut Eng, st: &mut State, c: &Call, seq: Val, el: Option<Val>) {
        let et = match next_ty(e, c) {
            Some(t) => t,
            None => return,
        };
        if !is_region(e, et) {
            return;
        }
        self.boundary(e, st);
        match el {
            Some(p) => {
                e.site("pass over the attached regions", e.repo_fn(c.ctx));
                st.gset(CUR, int(0), p);
            }
            None => self.done(e, st),
        }
        let _ = seq;
    }
    fn on_assume(&mut self, e: &mut Eng, st: &mut State, v: Val, n: Option<i128>) {
        // end of a loop by index
        if let (Some(a), Some(0)) = (is_op(v, "lt"), n) {
            if self.region_len(e, st, a[1]) && (st.gi(SUM) != 0 || st.g(CUR, int(0)).is_some() || as_int(a[0]) == Some(0)) {
                self.done(e, st);
            }
        }
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        self.partial(e, st);
        let v = e.variant(st, ret, self.ret);
        let (_, et) = result_args(e, self.ret).unwrap();
        let okk = v == Some(0);
        if v.is_none() {
            self.bad(e, st, "C34+C18+C14+C33", "the result is not known", "the transmission returns a result that is neither known to be success nor failure");
            return;
        }
        if okk {
            if st.gi(SENT) != 1 {
                self.bad(e, st, "C18+C33", "success without transmission", "success is returned on a path where the kernel did not accept the message");
            }
            if !self.bal(st, 1) {
                self.bad(e, st, "C14", "counts of a transmitted message are off", "after a successful transmission the count of each attached region must be raised by exactly one");
            }
            return;
        }
        if st.gi(SENT) == 1 {
            self.bad(e, st, "C18", "failure after transmission", "an error is returned although the kernel accepted the message: the caller would transmit it again");
        }
        if !self.bal(st, 0) {
            self.bad(e, st, "C14", "counts of a failed transmission are off", "after a failed transmission the count of each attached region must be what it was before");
        }
        if st.gi(SENT) == 2 {
            let x = e.project(ret, P::D(1));
            let x = e.project(x, P::F(0));
            let d = variant_no(e, et, "Disconnect");
            let isd = match (e.variant(st, x, et), d) {
                (Some(a), Some(b)) => a == b,
                _ => false,
            };
            let n = st.gi(ERR);
            let nm = errno::name(n);
            if n == EINTR {
                self.bad(e, st, "C33", "an interrupted transmission fails", "a transmission interrupted by a signal is reported to the caller instead of being resumed");
            }
            if DEAD.contains(&n) && !isd {
                self.bad(e, st, "C34+C18+C19+C07", &format!("{nm} is not a disconnect"), "the error of a dead connection is not reported as a disconnect");
            }
            if REFUSED.contains(&n) && isd {
                self.bad(e, st, "C34", &format!("{nm} is taken for a disconnect"), "a message the kernel refuses for its own sake is reported as a disconnect: the sender rejoins and transmits it forever, and the controller evicts the receiver");
            }
        }
    }
}

impl Tx {
    /// an element reached by an index
    fn touch(&mut self, e: &mut Eng, st: &mut State, p: Val) {
        let mut el = None;
        any_sub(p, &mut |v| {
            if el.is_none() && is_op(v, "elem").is_some() {
                el = Some(v);
            }
            false
        });
        if let Some(x) = el {
            if st.g(CUR, int(0)) != Some(x) {
                self.boundary(e, st);
                st.gset(CUR, int(0), x);
                if let Some(a) = is_op(x, "elem").and_then(|a| is_op(a[0], "dataof")) {
                    self.lens.insert(mk_len(a[0]));
                }
            }
        }
    }
    /// the length of the list of attached regions
    fn region_len(&self, e: &mut Eng, st: &State, n: Val) -> bool {
        if self.lens.contains(&n) {
            return true;
        }
        let v = match is_op(n, "len") {
            Some(a) => a[0],
            None => return false,
        };
        let c = match st.mem.keys().copied().find(|c| matches!(cell(*c), Cell::Local(0, 1))) {
            Some(c) => c,
            None => return false,
        };
        let t = match par(e.f(self.root)).first() {
            Some(t) => *t,
            None => return false,
        };
        let a = e.read(st, c, &[]);
        let a = arg_content(e, st, a, t);
        let mt = peel(e, t);
        paths_to(e, mt, &|e, t| crate::models::seq_elem(e, t).map_or(false, |x| is_region(e, x))).into_iter().any(|p| along(e, a, &p) == v)
    }
    fn done(&mut self, e: &mut Eng, st: &mut State) {
        self.boundary(e, st);
        let s = st.gi(SUM);
        if s == 0 {
            st.gseti(EMPTY, 1);
        } else {
            let b = st.gi(BAL) + s - 100;
            st.gseti(BAL, b);
        }
        st.gseti(SUM, 0);
    }
    /// the whole message is handed over: data and control data from its buffers, in full
    fn whole(&mut self, e: &mut Eng, st: &mut State, c: &Call) {
        if libc(c) != Some("sendmsg") {
            return;
        }
        let pt = e.pointee(c.argtys[1]);
        let h = e.load(st, c.args[1], pt);
        let fld = |e: &Eng, n: &str| pt.and_then(|t| e.prog.field(t, 0, n)).map(|i| e.project(h, P::F(i)));
        let (iov, n) = match (fld(e, "msg_iov"), fld(e, "msg_iovlen")) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        let k = site(e, c);
        if as_int(n) != Some(1) {
            self.bad(e, st, "C12+C18", &format!("{k}: pieces"), "the message is not handed over in one piece");
            return;
        }
        let it = pt.and_then(|t| e.ty(t).variants[0].fields.iter().find(|f| f.0 == "msg_iov").map(|f| f.1));
        let it = it.and_then(|t| e.pointee(t));
        let iv = e.load(st, iov, it);
        let base = it.and_then(|t| e.prog.field(t, 0, "iov_base")).map(|i| e.project(iv, P::F(i)));
        let len = it.and_then(|t| e.prog.field(t, 0, "iov_len")).map(|i| e.project(iv, P::F(i)));
        let (ctl, clen) = (fld(e, "msg_control"), fld(e, "msg_controllen"));
        if let (Some(b), Some(l), Some(cb), Some(cl)) = (base, len, ctl, clen) {
            let pair = |e: &mut Eng, b: Val, l: Val| -> Option<Val> {
                let v = is_op(b, "dataof").map(|a| a[0])?;
                let _ = e;
                if mk_len(v) == l {
                    Some(v)
                } else {
                    None
                }
            };
            let (d, t) = (pair(e, b, l), pair(e, cb, cl));
            match (d, t) {
                (Some(d), Some(t)) if d != t => {}
                (None, _) => self.bad(e, st, "C18+C12", &format!("{k}: data"), &format!("the data handed to the kernel ({} of length {}) is not the whole buffer of the message", show(b), show(l))),
                (_, None) => self.bad(e, st, "C12", &format!("{k}: attachments"), &format!("the attachments handed to the kernel ({} of length {}) are not the whole control buffer of the message", show(cb), show(cl))),
                _ => self.bad(e, st, "C12", &format!("{k}: attachments"), "data and attachments are the same buffer"),
            }
        }
        let _ = CLEAN;
    }
}

pub fn transmits(e: &Eng) -> Vec<FnId> {
    e.prog.fns.iter().filter(|f| f.krate == "ipmb" && f.blocks.is_some() && is_transmit(e, f)).map(|f| f.id).collect()
}
/// check every function that transmits a message
pub fn tx(id: &'static str, env: &Env, rep: &mut Rep) {
    let mut e = env.core();
    e.focus_repo(40);
    for f in transmits(&e) {
        let ret = rty(e.f(f)).unwrap();
        run(&mut e, rep, f, Box::new(Tx { want: id, ret, lens: HashSet::new(), root: f }), &mut |_, _| {});
    }
    rep.floor("transmission", 1);
}
