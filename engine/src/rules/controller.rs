//! C01, C02 (controller side), C04-C08: the routing automaton, checked on every path of the
//! controller thread.
use super::util::*;
use super::*;

// ghost tags
const MSG: u16 = 10; // current message (value of the struct)
const ROUTED: u16 = 11; // 1: accepted by an endpoint during this attempt
const OWN: u16 = 12; // own endpoint: 0 not handled, 1 does not match, 2 accepted, 3 failed
const DONE: u16 = 13; // every endpoint was gone through
const CTL: u16 = 14; // 1: the message is a connect request
const KEPT: u16 = 15; // the message was put into the buffer
const REOFFER: u16 = 16; // 1: the message comes from the buffer
const DEADL: u16 = 17; // deadline of the buffered message
const FRESHD: u16 = 18; // 1: known not to be expired, 2: known to be expired
const ITER: u16 = 20; // going through endpoints: 0 no, 1 borrowed, 2 owned, 3 retain
const ITN: u16 = 21; // an element was seen
const ITV: u16 = 22; // the message was matched against an element
const ITMISS: u16 = 23; // an element was not handled
const EL: u16 = 24; // current element (pointer)
const ELV: u16 = 25; // 1 matches, 2 does not
const ELT: u16 = 26; // 1 ok, 2 disconnected, 3 other failure
const ELK: u16 = 27; // 1 kept (owned iteration), 2 removed
const ELD: u16 = 28; // 1 dead, 2 alive
const LATE: u16 = 29; // disconnected endpoints not removed yet
const NOW: u16 = 30; // time stamps taken since the last message arrived
const NEWEP: u16 = 31; // an endpoint was added
const DRAINED: u16 = 32; // the buffer was gone through after that
const PURGED: u16 = 33;
const BITER: u16 = 34; // going through the buffer: 1 reoffering, 2 purging (retain)
const BKEEP: u16 = 35; // the elements gone through were put aside
const CYCLE: u16 = 36; // a message was received in this cycle
const HASREM: u16 = 40; // 1 remote of the requester taken, 2 none
const DEC: u16 = 41; // 1 decoded, 2 not
const COMPAT: u16 = 42;
const TOKEN: u16 = 43;
const ACK: u16 = 44; // 1 Ok delivered, 2 Ok failed, 3 version refusal, 4 token refusal
const PEER: u16 = 45; // the remote of the requester
const REQ: u16 = 46; // the decoded request
const HUBV: u16 = 47; // the hub reported a version mismatch with a remote
const SEEN: u16 = 48; // Vec values of endpoints / buffer: lengths
const MODE: u16 = 50; // 1 unicast, 2 multicast
const TTLZ: u16 = 51; // time to live: 1 zero, 2 not zero
const SWF: u16 = 52; // deadline of the element being swept: 1 in the future, 2 over
const RAN: u16 = 49; // the request handler ran

pub struct Ctl {
    want: &'static str,
    root: FnId,
    own_vecs: HashSet<Val>,
    /// buffers of the thread's state that may hold kept messages when it waits
    filled: BTreeSet<Vec<P>>,
}

fn is_kept_vec(e: &Eng, t: TyId) -> bool {
    crate::models::seq_elem(e, t).map_or(false, |x| is_kept(e, x)) && matches!(e.ty(t).k, Kind::Struct)
}
/// the buffers for kept messages in the state of the thread
fn buffers(e: &mut Eng, root: FnId) -> Vec<Vec<P>> {
    match par(e.f(root)).first() {
        Some(t) => {
            let t = *t;
            paths_to(e, t, &is_kept_vec)
        }
        None => vec![],
    }
}

struct Paths {
    label_op: Vec<P>,
    mode: Vec<P>,
    ttl: Vec<P>,
    uuid: Vec<P>,
}

fn is_msg(e: &Eng, t: TyId) -> bool {
    named(e, t, "EncodedMessage")
}
fn is_remote(e: &Eng, t: TyId) -> bool {
    named(e, t, "Remote")
}
/// an element of the list of endpoints
fn is_ep(e: &Eng, t: TyId) -> bool {
    matches!(e.ty(t).k, Kind::Struct | Kind::Tuple) && path_to(e, t, &is_remote).is_some() && !is_remote(e, t) && path_to(e, t, &|e, t| named(e, t, "Label")).is_some()
}
/// an element of the list of kept messages
fn is_kept(e: &Eng, t: TyId) -> bool {
    matches!(e.ty(t).k, Kind::Struct | Kind::Tuple) && path_to(e, t, &is_instant).is_some() && path_to(e, t, &is_msg).is_some()
}

fn paths(e: &Eng) -> Option<Paths> {
    let mt = (0..e.prog.types.len() as u32).find(|t| is_msg(e, *t))?;
    let sel = path_to(e, mt, &|e, t| named(e, t, "Selector"))?;
    let st = (0..e.prog.types.len() as u32).find(|t| named(e, *t, "Selector"))?;
    let sub = |f: &dyn Fn(&Eng, TyId) -> bool| -> Option<Vec<P>> {
        let mut p = sel.clone();
        p.extend(path_to(e, st, f)?);
        Some(p)
    };
    Some(Paths {
        label_op: sub(&|e, t| named(e, t, "LabelOp"))?,
        mode: sub(&|e, t| named(e, t, "SelectorMode"))?,
        ttl: sub(&|e, t| e.ty(t).path == "core::time::Duration")?,
        uuid: sub(&|e, t| e.ty(t).k == Kind::Array && e.ty(t).n == 16)?,
    })
}

/// transmission of a message to a remote
pub fn is_transmit(e: &Eng, f: &FnD) -> bool {
    let msg = par(f).iter().any(|t| is_msg(e, peel(e, *t)));
    let rem = par(f).iter().any(|t| is_remote(e, peel(e, *t)));
    is_repo(f) && msg && rem && par(f).len() == 2 && rty(f).map_or(false, |r| result_args(e, r).is_some())
}
/// the hub: waits for the next message
pub fn is_hub_recv(e: &Eng, f: &FnD) -> bool {
    is_repo(f) && par(f).first().map_or(false, |t| named(e, peel(e, *t), "IoHub")) && rty(f).and_then(|r| result_args(e, r)).map_or(false, |(o, _)| is_msg(e, o))
}
/// evaluation of a label expression
pub fn is_validate(e: &Eng, f: &FnD) -> bool {
    is_repo(f)
        && par(f).len() == 2
        && par(f).iter().any(|t| named(e, peel(e, *t), "LabelOp"))
        && par(f).iter().any(|t| named(e, peel(e, *t), "Label"))
        && rty(f).map_or(false, |r| e.ty(r).k == Kind::Bool)
}
/// version compatibility
pub fn is_compat(e: &Eng, f: &FnD) -> bool {
    is_repo(f) && par(f).len() == 2 && par(f).iter().all(|t| named(e, peel(e, *t), "Version")) && rty(f).map_or(false, |r| e.ty(r).k == Kind::Bool) && f.trait_.is_empty()
}
/// message -> datagram
pub fn is_encode(e: &Eng, f: &FnD) -> bool {
    is_repo(f) && par(f).len() == 1 && named(e, par(f)[0], "Message") && rty(f).map_or(false, |r| is_msg(e, r))
}
/// the remote that came with a connect request
pub fn is_take_remote(e: &Eng, f: &FnD) -> bool {
    is_repo(f) && par(f).len() == 1 && is_msg(e, peel(e, par(f)[0])) && rty(f).map_or(false, |r| e.ty(r).path == "core::option::Option" && e.ty(r).args.first().map_or(false, |a| is_remote(e, *a)))
}
/// liveness probe of a connection
pub fn is_probe(e: &Eng, f: &FnD) -> bool {
    is_repo(f) && par(f).len() == 1 && is_remote(e, peel(e, par(f)[0])) && rty(f).map_or(false, |r| e.ty(r).k == Kind::Bool)
}
/// decoding of the payload of a connect request
pub fn is_decode_req(e: &Eng, f: &FnD) -> bool {
    is_repo(f) && rty(f).and_then(|r| result_args(e, r)).map_or(false, |(o, _)| named(e, o, "ConnectMessage"))
}

/// a comparison of two points in time or two durations
pub fn time_cmp(e: &Eng, c: &Call) -> bool {
    let q = &c.p;
    if !(q.starts_with("core::cmp::Partial") || q.starts_with("core::cmp::Ord") || c.rp == "core::time::Duration::is_zero") {
        return false;
    }
    c.argtys.iter().all(|t| {
        let t = peel(e, *t);
        is_instant(e, t) || e.ty(t).path == "core::time::Duration"
    })
}
/// assume that the mode is (not) multicast
fn assume_multi(e: &mut Eng, st: &mut State, mode: Val, multi: bool) -> bool {
    let t = match (0..e.prog.types.len() as u32).find(|t| named(e, *t, "SelectorMode")) {
        Some(t) => t,
        None => return false,
    };
    let m = match variant_no(e, t, "Multicast") {
        Some(m) => e.ty(t).variants[m as usize].disc,
        None => return false,
    };
    let d = e.disc_of(mode, t);
    let ds: Vec<i128> = e.ty(t).variants.iter().map(|v| v.disc).collect();
    if multi {
        e.assume(st, d, m)
    } else if ds.len() == 2 {
        let o = if ds[0] == m { ds[1] } else { ds[0] };
        e.assume(st, d, o)
    } else {
        e.exclude(st, d, m)
    }
}

impl Ctl {
    fn bad(&self, e: &mut Eng, st: &State, props: &str, key: &str, msg: &str) {
        if props.split('+').any(|p| p == self.want) {
            e.report(st, key, msg.to_string());
        }
    }
    fn msg(&self, st: &State) -> Option<Val> {
        st.g(MSG, int(0))
    }
    fn part(&self, e: &Eng, st: &State, f: impl Fn(&Paths) -> Vec<P>) -> Option<Val> {
        let p = paths(e)?;
        Some(along(e, self.msg(st)?, &f(&p)))
    }
    fn mode(&self, st: &State) -> Option<bool> {
        // Some(true): multicast
        match st.gi(MODE) {
            1 => Some(false),
            2 => Some(true),
            _ => None,
        }
    }
    fn excused(&self, st: &State) -> bool {
        st.gi(ROUTED) == 1 && self.mode(st) == Some(false)
    }
    fn control(&self, e: &Eng, st: &State) -> bool {
        let u = match self.part(e, st, |p| p.uuid.clone()) {
            Some(u) => u,
            None => return false,
        };
        if st.facts.iter().any(|(k, f)| f.eq == Some(1) && matches!(is_op(*k, "eq"), Some(a) if a.contains(&u))) {
            return true;
        }
        let known = |v: Val| e.known(st, v).is_some();
        (0..16).all(|i| known(e.project(u, P::C(i, false))) || known(e.project(u, P::I(int(i as i128)))))
    }
    /// leave the current element of the list of endpoints
    fn boundary(&self, e: &mut Eng, st: &mut State) {
        if st.gi(ITER) == 0 || st.g(EL, int(0)).is_none() {
            return;
        }
        let removed = st.gi(ELK) == 2 || (st.gi(ITER) == 2 && st.gi(ELK) == 0);
        let gone = st.gi(ELT) == 2 || st.gi(ELD) == 1;
        if removed && !gone && st.gi(ELT) == 3 {
            self.bad(e, st, "C34", "an endpoint that refused a message is removed", "an endpoint leaves the routing list because a delivery to it failed, although the failure was not a disconnect");
        }
        if removed && !gone {
            self.bad(e, st, "C07", "an endpoint that was not found disconnected is removed", "an endpoint leaves the routing list although no delivery to it reported a disconnect and no liveness probe found it dead");
        }
        if gone && !removed {
            st.gseti(LATE, 1);
        }
        if self.msg(st).is_some() && st.gi(CTL) == 0 {
            let handled = st.gi(ELV) == 2 || st.gi(ELT) != 0 || self.excused(st);
            if !handled {
                st.gseti(ITMISS, 1);
            }
        }
        st.gdel(EL, int(0));
        for t in [ELV, ELT, ELK, ELD] {
            st.gseti(t, 0);
        }
    }
    fn end_iter(&self, e: &mut Eng, st: &mut State, complete: bool) {
        if st.gi(ITER) == 0 {
            return;
        }
        self.boundary(e, st);
        if complete {
            if st.gi(ITN) == 0 {
                st.gseti(DONE, 1);
            } else if st.gi(ITV) == 1 {
                if st.gi(ITMISS) == 1 {
                    self.bad(e, st, "C06+C07", "an endpoint is passed over", "some endpoint of the list is neither found not to match nor offered the message, and the message was not a unicast already accepted");
                }
                st.gseti(DONE, 1);
            }
        } else if st.gi(ITER) == 2 {
            self.bad(e, st, "C07", "endpoints are dropped by an early exit", "the loop that takes the endpoints out of the list ends early: the rest of them is lost");
        }
        for t in [ITER, ITN, ITV, ITMISS] {
            st.gseti(t, 0);
        }
    }
    fn end_attempt(&self, e: &mut Eng, st: &mut State) {
        self.end_iter(e, st, false);
        if self.msg(st).is_some() && st.gi(CTL) == 0 && !self.control(e, st) {
            let expired = st.gi(REOFFER) == 1 && st.gi(FRESHD) == 2;
            if !expired && !self.excused(st) {
                if st.gi(DONE) == 0 {
                    self.bad(e, st, "C06+C07", "not every endpoint is considered", "a message is finished with although not all connected endpoints were gone through");
                }
                if st.gi(OWN) == 0 {
                    self.bad(e, st, "C06+C07", "the controller's own endpoint is not considered", "a message is finished with although the controller's own endpoint was neither found not to match nor offered the message");
                }
            }
            if !expired && st.gi(ROUTED) == 0 && st.gi(KEPT) == 0 {
                let zero = st.gi(REOFFER) == 0 && st.gi(TTLZ) == 1;
                if !zero {
                    self.bad(e, st, "C08+C07", "an unroutable message is lost", "a message that nobody accepted is neither kept nor has a zero time to live");
                }
            }
        }
        if st.gi(RAN) == 1 {
            let (dec, com, tok, ack, rem) = (st.gi(DEC), st.gi(COMPAT), st.gi(TOKEN), st.gi(ACK), st.gi(HASREM));
            if rem == 1 {
                if (dec == 2 || com == 2) && ack != 3 {
                    self.bad(e, st, "C02", "an incompatible joiner is not told so", "a connect request that is undecodable or of an incompatible version is not answered with a version refusal");
                } else if dec == 1 && com == 1 && tok == 2 && ack != 4 {
                    self.bad(e, st, "C02", "a joiner with a wrong token is not told so", "a connect request with a different token is not answered with a token refusal");
                } else if dec == 1 && com != 2 && tok != 2 && ack == 0 {
                    self.bad(e, st, "C02", "a joiner is not answered", "a connect request is not answered");
                }
            }
        }
        if st.gi(HUBV) != 0 && st.gi(ACK) != 3 {
            self.bad(e, st, "C02", "a joiner with an incompatible header is not told so", "a datagram with an incompatible version header that carried a remote is not answered with a version refusal");
        }
        st.gdel(MSG, int(0));
        st.gdel(DEADL, int(0));
        st.gclear(PEER);
        st.gclear(REQ);
        for t in [ROUTED, OWN, DONE, CTL, KEPT, REOFFER, FRESHD, HASREM, DEC, COMPAT, TOKEN, ACK, RAN, HUBV, MODE, TTLZ] {
            st.gseti(t, 0);
        }
    }
    fn is_zero(&self, e: &mut Eng, st: &State, ttl: Val) -> bool {
        let z = op("dur", vec![int(0)]);
        let a = mk_eq(ttl, z);
        let b = mk_lt(z, ttl);
        e.known(st, a) == Some(1) || e.known(st, b) == Some(0)
    }
    fn nonzero(&self, e: &mut Eng, st: &State, ttl: Val) -> bool {
        let z = op("dur", vec![int(0)]);
        let a = mk_eq(ttl, z);
        let b = mk_lt(z, ttl);
        e.known(st, a) == Some(0) || e.known(st, b) == Some(1)
    }
    /// is a deadline known to be in the future (Some(true)) or over
    fn alive(&self, e: &mut Eng, st: &State, d: Val) -> Option<bool> {
        for (n, _) in st.gkeys(NOW) {
            let (a, b) = (mk_lt(n, d), mk_lt(d, n));
            if e.known(st, a) == Some(1) {
                return Some(true);
            }
            if e.known(st, a) == Some(0) || e.known(st, b) == Some(1) {
                return Some(false);
            }
        }
        None
    }
    /// turn what is known about the time stamps into automaton state
    fn note(&self, e: &mut Eng, st: &mut State) {
        for (k, tag) in [(0, FRESHD), (1, SWF)] {
            if st.gi(tag) == 0 {
                if let Some(d) = st.g(DEADL, int(k)) {
                    match self.alive(e, st, d) {
                        Some(true) => st.gseti(tag, 1),
                        Some(false) => st.gseti(tag, 2),
                        None => {}
                    }
                }
            }
        }
        if st.gi(TTLZ) == 0 && self.msg(st).is_some() {
            if let Some(t) = self.part(e, st, |p| p.ttl.clone()) {
                if self.is_zero(e, st, t) {
                    st.gseti(TTLZ, 1);
                } else if self.nonzero(e, st, t) {
                    st.gseti(TTLZ, 2);
                }
            }
        }
    }
    fn start(&self, e: &mut Eng, st: &mut State, m: Val) {
        self.end_attempt(e, st);
        st.gset(MSG, int(0), m);
    }
    fn deliver(&mut self, e: &mut Eng, st: &mut State, whom: &str) {
        if st.gi(ROUTED) == 1 && self.mode(st) != Some(true) {
            self.bad(e, st, "C05", &format!("a message that was accepted is offered to {whom}"), "a message that one endpoint accepted already, and that is not known to be a multicast, is offered to another endpoint");
        }
        if st.gi(KEPT) == 1 {
            self.bad(e, st, "C05+C08", "a kept message is offered", "a message is offered after it was put into the buffer");
        }
        if st.gi(REOFFER) == 1 && st.gi(FRESHD) != 1 {
            {
                self.bad(e, st, "C08", "a kept message is offered without looking at its deadline", "a kept message is offered on a path where it is not known that its time to live has not expired");
            }
        }
    }
    fn cycle_end(&mut self, e: &mut Eng, st: &mut State) {
        self.end_attempt(e, st);
        // all kept messages are in one buffer
        let root = self.root;
        if let Some(c) = st.mem.keys().copied().find(|c| matches!(cell(*c), Cell::Local(0, 1))) {
            for p in buffers(e, root) {
                let v = e.read(st, c, &p);
                let n = mk_len(v);
                let empty = as_int(n) == Some(0) || e.known(st, mk_eq(n, int(0))) == Some(1) || matches!(nd(v), N::Agg(_, _, fs) if fs.last().and_then(|x| as_int(*x)) == Some(0));
                if empty {
                    e.write(st, c, &p, op("vec_new", vec![]));
                } else {
                    self.filled.insert(p);
                }
            }
            if self.filled.len() > 1 {
                self.bad(e, st, "C08", "kept messages end up in different buffers", "when the thread waits for the next message, kept messages can be in more than one buffer, but only one of them is offered again");
            }
        }
        if st.gi(LATE) == 1 {
            self.bad(e, st, "C07", "a disconnected endpoint stays", "delivery to an endpoint reported that it is disconnected (or a probe found it dead), but it stays in the routing list");
        }
        if st.gi(NEWEP) == 1 && st.gi(DRAINED) == 0 {
            let empty = st.gkeys(SEEN).iter().any(|(k, _)| e.known(st, mk_eq(*k, int(0))) == Some(1));
            if !empty {
                self.bad(e, st, "C08", "kept messages are not offered to a new endpoint", "an endpoint was added, but the kept messages are not offered again before the next message is received");
            }
        }
        if st.gi(CYCLE) == 1 && st.gi(PURGED) == 0 {
            self.bad(e, st, "C08", "expired messages are not discarded", "a message was handled, but the expired kept messages are not discarded before the next one is received");
        }
        for t in [NEWEP, DRAINED, PURGED, BITER, BKEEP, CYCLE, LATE] {
            st.gseti(t, 0);
        }
        st.gclear(NOW);
        st.gclear(SEEN);
    }
    /// is the pointed-to location inside the current element
    fn in_current(&self, e: &mut Eng, st: &State, p: Val, t: TyId) -> bool {
        let el = match st.g(EL, int(0)) {
            Some(x) => x,
            None => return false,
        };
        if p == el || contains(p, el) {
            return true;
        }
        let (c, _) = e.target(p, Some(t));
        if let Cell::Der(q) = cell(c) {
            if q == el || contains(q, el) {
                return true;
            }
        }
        // owned element: compare the values
        let v = e.load(st, p, Some(t));
        contains(v, el)
    }
    fn touch(&mut self, e: &mut Eng, st: &mut State, p: Val, t: TyId) {
        // an element reached by an index
        let (c, _) = e.target(p, Some(t));
        let ptr = match cell(c) {
            Cell::Der(q) => q,
            _ => p,
        };
        if is_op(ptr, "elem").is_some() && st.g(EL, int(0)) != Some(ptr) && st.gi(ITER) <= 1 {
            if st.g(EL, int(0)).is_some() {
                self.boundary(e, st);
            }
            st.gseti(ITER, 1);
            st.gseti(ITN, 1);
            st.gset(EL, int(0), ptr);
        }
    }
}

impl Mon for Ctl {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        let fd = match c.f {
            Some(f) => e.f(f).clone(),
            None => FnD::default(),
        };
        let vec = c.rp.strip_prefix("alloc::vec::Vec::<T, A>::").map(|s| s.to_string());
        if let (Some(m), Some(t0)) = (&vec, c.argtys.first()) {
            if let Some(et) = crate::models::seq_elem(e, *t0) {
                if is_ep(e, et) {
                    let v = e.load(st, c.args[0], None);
                    self.own_vecs.insert(mk_len(v));
                    match m.as_str() {
                        "remove" | "swap_remove" => {
                            e.site("removal of an endpoint", site(e, c));
                            let p = op("elem", vec![mk_data(v), c.args[1]]);
                            if st.g(EL, int(0)) == Some(p) {
                                st.gseti(ELK, 2);
                                if st.gi(ELT) == 3 && st.gi(ELD) != 1 {
                                    self.bad(e, st, "C34", "an endpoint that refused a message is removed", "an endpoint leaves the routing list because a delivery to it failed, although the failure was not a disconnect");
                                }
                            } else if st.gi(LATE) == 1 {
                                st.gseti(LATE, 0);
                            } else {
                                self.bad(e, st, "C07", &format!("{}: an endpoint that was not found disconnected is removed", site(e, c)), "an endpoint leaves the routing list although no delivery to it reported a disconnect and no liveness probe found it dead");
                            }
                        }
                        "clear" | "truncate" | "pop" | "split_off" | "dedup" | "dedup_by" | "dedup_by_key" | "set_len" => {
                            self.bad(e, st, "C07", &format!("{}: endpoints are removed wholesale", site(e, c)), "endpoints leave the routing list although no delivery to them reported a disconnect");
                        }
                        "push" | "insert" => self.add(e, st, c, c.args[c.args.len() - 1]),
                        _ => {}
                    }
                } else if is_kept(e, et) {
                    match m.as_str() {
                        "is_empty" | "len" => {
                            let v = e.load(st, c.args[0], None);
                            st.gset(SEEN, mk_len(v), int(1));
                        }
                        "push" => self.keep(e, st, c, c.args[1], et),
                        "insert" => self.bad(e, st, "C08", &format!("{}: a kept message is not added at the end", site(e, c)), "kept messages must stay in the order of arrival"),
                        "clear" | "truncate" | "pop" | "split_off" | "remove" | "swap_remove" | "set_len" => {
                            let v = e.load(st, c.args[0], None);
                            let empty = m == "clear" && e.known(st, mk_eq(mk_len(v), int(0))) == Some(1);
                            if !empty {
                                self.bad(e, st, "C08", &format!("{}: kept messages are taken out of the buffer", site(e, c)), "kept messages leave the buffer other than by being offered in order or by expiring");
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        if c.rp == "std::sync::mpsc::Sender::<T>::send" && c.argtys.get(1).map_or(false, |t| is_msg(e, *t)) {
            e.site("hand-over to the controller's own endpoint", site(e, c));
            let pm = self.same_msg(e, st, c.args[1]);
            if !pm {
                self.bad(e, st, "C04", &format!("{}: not the message that was received", site(e, c)), "the message handed to the own endpoint is not the one being routed");
            }
            self.deliver(e, st, "the controller's own endpoint");
            if st.gi(OWN) != 4 {
                self.bad(e, st, "C04", &format!("{}: label not checked", site(e, c)), "the message is handed to the controller's own endpoint on a path where its label expression is not known to hold for the own label");
            }
            let ra = result_args(e, c.ret);
            let mut a = st.clone();
            a.gseti(OWN, 2);
            a.gseti(ROUTED, 1);
            let mut b = st.clone();
            b.gseti(OWN, 3);
            let ev = match ra {
                Some((_, et)) => mk(N::Agg(et, 0, vec![c.args[1]])),
                None => undef(),
            };
            return Act::Forks(vec![(a, crate::models::ok(c.ret, unit())), (b, crate::models::err(c.ret, ev))]);
        }
        if is_hub_recv(e, &fd) {
            e.site("wait for the next message", site(e, c));
            self.cycle_end(e, st);
            let mut out = vec![];
            let (_, et) = result_args(e, c.ret).unwrap();
            {
                let mut s = st.clone();
                let m = e.fresh(&mut s, c.ctx, c.bb, 0);
                s.gset(MSG, int(0), m);
                s.gseti(CYCLE, 1);
                out.push((s, crate::models::ok(c.ret, m)));
            }
            let vs = e.ty(et).variants.clone();
            for (i, v) in vs.iter().enumerate() {
                let rem = v.fields.iter().position(|f| holds(e, f.1, &is_remote));
                for some in [true, false] {
                    if !some && rem.is_none() {
                        continue;
                    }
                    let mut s = st.clone();
                    let mut fs = vec![];
                    for (j, f) in v.fields.iter().enumerate() {
                        let x = e.fresh(&mut s, c.ctx, c.bb, 1000 + (i * 10 + j) as u32);
                        if Some(j) == rem && e.ty(f.1).path == "core::option::Option" {
                            if some {
                                s.gset(PEER, int(0), x);
                                s.gseti(HUBV, 1);
                                fs.push(crate::models::some(f.1, x));
                            } else {
                                fs.push(crate::models::none(f.1));
                            }
                        } else {
                            fs.push(x);
                        }
                    }
                    let ev = mk(N::Agg(et, i as u32, fs));
                    out.push((s, crate::models::err(c.ret, ev)));
                }
            }
            return Act::Forks(out);
        }
        if is_transmit(e, &fd) {
            let (mv, mt) = arg_named(e, c, "EncodedMessage").unwrap();
            let (rv, rt) = arg_named(e, c, "Remote").unwrap();
            let m = arg_content(e, st, mv, mt);
            let (_, et) = result_args(e, c.ret).unwrap();
            let disc = variant_no(e, et, "Disconnect");
            let mut out = vec![];
            let errs = |e: &mut Eng, s: &mut State, d: bool| -> Val {
                match (d, disc) {
                    (true, Some(i)) => mk(N::Agg(et, i, vec![])),
                    _ => {
                        let x = e.fresh(s, c.ctx, c.bb, 7);
                        if let Some(i) = disc {
                            let dv = e.ty(et).variants[i as usize].disc;
                            let dd = e.disc_of(x, et);
                            e.exclude(s, dd, dv);
                        }
                        x
                    }
                }
            };
            if let Some(a) = is_op(m, "enc_msg") {
                // an acknowledgement
                let kind = self.ack_kind(e, a[0]);
                e.site("acknowledgement", format!("{} {kind}", site(e, c)));
                let r = arg_content(e, st, rv, rt);
                if st.g(PEER, int(0)) != Some(r) {
                    self.bad(e, st, "C02+C01", &format!("{}: acknowledgement to someone else", site(e, c)), "an acknowledgement is not sent to the remote that came with the request");
                }
                let code = match kind.as_str() {
                    "Ok" => 1,
                    "ErrVersion" => 3,
                    "ErrToken" => 4,
                    _ => 9,
                };
                if code == 9 {
                    self.bad(e, st, "C02", &format!("{}: unknown acknowledgement", site(e, c)), "a message other than a connect acknowledgement with a known verdict is sent to a joiner");
                }
                if code == 1 {
                    if !(st.gi(DEC) == 1 && st.gi(COMPAT) == 1 && st.gi(TOKEN) == 1) {
                        self.bad(e, st, "C01+C02", &format!("{}: positive acknowledgement without the checks", site(e, c)), "a positive acknowledgement is sent on a path where the request is not known to be decoded, compatible and to carry the right token");
                    }
                } else if st.gi(ACK) == 1 {
                    self.bad(e, st, "C02", &format!("{}: refusal after acceptance", site(e, c)), "a refusal is sent after a positive acknowledgement");
                }
                if code == 3 && st.gi(DEC) == 1 && st.gi(COMPAT) != 2 || code == 4 && st.gi(TOKEN) != 2 {
                    self.bad(e, st, "C02", &format!("{}: wrong reason", site(e, c)), "a refusal is sent with a reason that is not the one found");
                }
                for (d, okk) in [(false, true), (true, false), (false, false)] {
                    let mut s = st.clone();
                    if code == 1 {
                        s.gseti(ACK, if okk { 1 } else { 2 });
                    } else {
                        s.gseti(ACK, code);
                    }
                    if okk {
                        out.push((s, crate::models::ok(c.ret, unit())));
                    } else {
                        let x = errs(e, &mut s, d);
                        out.push((s, crate::models::err(c.ret, x)));
                    }
                }
                return Act::Forks(out);
            }
            e.site("delivery to an endpoint", site(e, c));
            if !self.same_msg(e, st, m) {
                self.bad(e, st, "C04", &format!("{}: not the message that was received", site(e, c)), "the message sent to an endpoint is not the one being routed");
            }
            self.touch(e, st, rv, rt);
            self.deliver(e, st, "an endpoint");
            let pt = peel(e, rt);
            if !self.in_current(e, st, rv, pt) || st.gi(ELV) != 1 {
                self.bad(e, st, "C04", &format!("{}: label not checked", site(e, c)), "the message is sent to an endpoint on a path where its label expression is not known to hold for that endpoint's label");
            }
            if st.gi(ELT) == 1 {
                self.bad(e, st, "C05+C06", &format!("{}: delivered twice", site(e, c)), "the message is sent again to an endpoint that accepted it");
            }
            for k in [1, 2, 3] {
                let mut s = st.clone();
                s.gseti(ELT, k);
                if k == 1 {
                    s.gseti(ROUTED, 1);
                    out.push((s, crate::models::ok(c.ret, unit())));
                } else {
                    let x = errs(e, &mut s, k == 2);
                    out.push((s, crate::models::err(c.ret, x)));
                }
            }
            return Act::Forks(out);
        }
        if is_validate(e, &fd) {
            let (ov, ot) = arg_named(e, c, "LabelOp").unwrap();
            let (lv, lt) = arg_named(e, c, "Label").unwrap();
            let o = arg_content(e, st, ov, ot);
            let l = arg_content(e, st, lv, lt);
            let t = op("pred", vec![mk(N::Str("matches".into())), o, l]);
            e.site("label check", site(e, c));
            let mine = self.part(e, st, |p| p.label_op.clone()) == Some(o);
            self.touch(e, st, lv, lt);
            let lpt = peel(e, lt);
            let cur = self.in_current(e, st, lv, lpt);
            let own = !cur && !any_sub(l, &mut |v| is_op(v, "elem").is_some());
            let mut out = vec![];
            for (b, multi) in [(true, true), (true, false), (false, true), (false, false)] {
                let mut s = st.clone();
                if mine {
                    match self.mode(&s) {
                        Some(m) if m != multi => continue,
                        Some(_) => {}
                        None => {
                            let mv = self.part(e, &s, |p| p.mode.clone()).unwrap_or_else(undef);
                            if !assume_multi(e, &mut s, mv, multi) {
                                continue;
                            }
                            s.gseti(MODE, 1 + multi as i128);
                        }
                    }
                } else if multi {
                    continue;
                }
                if let Some(k) = e.known(&s, t) {
                    if (k == 1) != b {
                        continue;
                    }
                } else if !e.assume(&mut s, t, b as i128) {
                    continue;
                }
                if mine && cur {
                    s.gseti(ELV, if b { 1 } else { 2 });
                    s.gseti(ITV, 1);
                } else if mine && own && s.gi(OWN) < 2 {
                    s.gseti(OWN, if b { 4 } else { 1 });
                }
                out.push((s, boolean(b)));
            }
            return Act::Forks(out);
        }
        if is_encode(e, &fd) {
            return Act::Ret(op("enc_msg", vec![c.args[0]]));
        }
        if is_take_remote(e, &fd) {
            e.site("remote of a connect request", site(e, c));
            let m = arg_content(e, st, c.args[0], c.argtys[0]);
            let same = self.same_msg(e, st, m);
            if self.control(e, st) {
                st.gseti(CTL, 1);
            }
            let mut a = st.clone();
            let x = e.fresh(&mut a, c.ctx, c.bb, 0);
            if same {
                a.gset(PEER, int(0), x);
            }
            a.gseti(HASREM, 1);
            a.gseti(RAN, 1);
            let mut b = st.clone();
            b.gseti(HASREM, 2);
            b.gseti(RAN, 1);
            return Act::Forks(vec![(a, crate::models::some(c.ret, x)), (b, crate::models::none(c.ret))]);
        }
        if is_decode_req(e, &fd) {
            e.site("decoding of a connect request", site(e, c));
            if self.control(e, st) {
                st.gseti(CTL, 1);
            }
            // the source must be the payload of the message
            let mut a = st.clone();
            let x = e.fresh(&mut a, c.ctx, c.bb, 0);
            a.gset(REQ, int(0), x);
            a.gseti(DEC, 1);
            a.gseti(RAN, 1);
            let mut b = st.clone();
            let y = e.fresh(&mut b, c.ctx, c.bb, 1);
            b.gseti(DEC, 2);
            b.gseti(RAN, 1);
            return Act::Forks(vec![(a, crate::models::ok(c.ret, x)), (b, crate::models::err(c.ret, y))]);
        }
        if is_compat(e, &fd) {
            let vals: Vec<Val> = c.args.iter().zip(&c.argtys).map(|(v, t)| arg_content(e, st, *v, *t)).collect();
            let req = st.g(REQ, int(0));
            let mine = req.map_or(false, |r| vals.iter().filter(|v| contains(**v, r)).count() == 1);
            e.site("version check", site(e, c));
            if mine {
                let mut a = st.clone();
                a.gseti(COMPAT, 1);
                let mut b = st.clone();
                b.gseti(COMPAT, 2);
                return Act::Forks(vec![(a, boolean(true)), (b, boolean(false))]);
            }
        }
        if (c.p == "core::cmp::PartialEq::eq" || c.p == "core::cmp::PartialEq::ne" || c.rp.contains("core::cmp::PartialEq")) && c.args.len() == 2 {
            let req = st.g(REQ, int(0));
            if let Some(r) = req {
                let stringy = |e: &Eng, t: TyId| {
                    let t = peel(e, t);
                    e.ty(t).k == Kind::Str || e.ty(t).path == "alloc::string::String"
                };
                if c.argtys.iter().all(|t| stringy(e, *t)) {
                    let vals: Vec<Val> = c.args.iter().zip(&c.argtys).map(|(v, t)| crate::models::content(e, st, *v, *t)).collect();
                    let (x, y) = (contains(vals[0], r), contains(vals[1], r));
                    if x != y {
                        let other = if x { vals[1] } else { vals[0] };
                        let theirs = if x { vals[0] } else { vals[1] };
                        let own = matches!(nd(other), N::Fld(..)) && atoms(other).iter().any(|a| matches!(a, At::A(v) if matches!(nd(*v), N::Param(_))));
                        let _ = theirs;
                        e.site("token check", site(e, c));
                        if own {
                            let ne = c.p.ends_with("::ne") || c.rp.ends_with("::ne");
                            let mut a = st.clone();
                            a.gseti(TOKEN, 1);
                            let mut b = st.clone();
                            b.gseti(TOKEN, 2);
                            return Act::Forks(vec![(a, boolean(!ne)), (b, boolean(ne))]);
                        }
                    }
                }
            }
        }
        if is_probe(e, &fd) {
            e.site("liveness probe", site(e, c));
            let pt = peel(e, c.argtys[0]);
            self.touch(e, st, c.args[0], c.argtys[0]);
            let cur = self.in_current(e, st, c.args[0], pt);
            let mut a = st.clone();
            let mut b = st.clone();
            if cur {
                a.gseti(ELD, 1);
                b.gseti(ELD, 2);
            }
            return Act::Forks(vec![(a, boolean(true)), (b, boolean(false))]);
        }
        if c.p == "sa::remove" {
            if st.gi(ITER) == 3 {
                st.gseti(ELK, 2);
                e.site("removal of an endpoint", format!("retain in {}", e.repo_fn(c.ctx)));
            } else if st.gi(BITER) == 2 {
                if st.gi(SWF) != 2 {
                    self.bad(e, st, "C08", "a kept message that has not expired is discarded", "the sweep over the kept messages removes one that is not known to have expired");
                }
                st.gdel(DEADL, int(1));
                st.gseti(SWF, 0);
            }
        }
        // comparisons of times are decided here, so that the automaton keeps their outcome
        if time_cmp(e, c) {
            if let crate::models::Out::Ret(v) = crate::models::model(e, st, c) {
                if e.known(st, v).is_none() && is_bool_term(v) {
                    let mut out = vec![];
                    for b in [1, 0] {
                        let mut s = st.clone();
                        if e.assume(&mut s, v, b) {
                            self.note(e, &mut s);
                            out.push((s, boolean(b == 1)));
                        }
                    }
                    return Act::Forks(out);
                }
            }
        }
        Act::Default
    }
    fn after(&mut self, e: &mut Eng, st: &mut State, c: &Call, ret: Val) {
        if c.rp == "std::time::Instant::now" {
            st.gset(NOW, ret, int(1));
        }
        let _ = e;
    }
    fn on_assume(&mut self, e: &mut Eng, st: &mut State, v: Val, n: Option<i128>) {
        if is_bool_term(v) {
            self.note(e, st);
        }
        // end of a loop over the endpoints by index
        if let Some(a) = is_op(v, "lt") {
            if self.own_vecs.contains(&a[1]) && n == Some(0) {
                st.gseti(ITER, st.gi(ITER).max(1));
                self.end_iter(e, st, true);
            }
        }
    }
    fn on_next(&mut self, e: &mut Eng, st: &mut State, c: &Call, seq: Val, el: Option<Val>) {
        let t0 = match c.argtys.first() {
            Some(t) => *t,
            None => return,
        };
        let it = peel(e, t0);
        let et = crate::models::seq_elem(e, it).or_else(|| e.ty(it).args.first().copied());
        let et = match et {
            Some(t) => t,
            None => return,
        };
        let owned = c.rp.contains("IntoIter") || c.rp.contains("Drain");
        let retain = c.p.starts_with("sa::");
        if is_ep(e, et) {
            self.own_vecs.insert(mk_len(seq));
            match el {
                Some(p) => {
                    if st.gi(ITER) == 0 {
                        e.site("pass over the endpoints", e.repo_fn(c.ctx));
                    }
                    self.boundary(e, st);
                    st.gseti(ITER, if retain { 3 } else if owned { 2 } else { 1 });
                    st.gseti(ITN, 1);
                    st.gset(EL, int(0), p);
                }
                None => {
                    if st.gi(ITER) == 0 {
                        st.gseti(ITER, 1);
                    }
                    self.end_iter(e, st, true);
                }
            }
        } else if is_kept(e, et) {
            let pi = path_to(e, et, &is_instant).unwrap();
            let pm = path_to(e, et, &is_msg).unwrap();
            if c.rp.contains("next_back") {
                self.bad(e, st, "C08", &format!("{}: kept messages are taken in reverse order", site(e, c)), "kept messages must be offered in the order of arrival");
            }
            match el {
                Some(p) => {
                    let v = e.load(st, p, Some(et));
                    let (d, m) = (along(e, v, &pi), along(e, v, &pm));
                    if retain {
                        // sweep: the previous element was retained
                        self.sweep_keep(e, st);
                        st.gseti(BITER, 2);
                        st.gset(DEADL, int(1), d);
                    } else if owned {
                        self.start(e, st, m);
                        st.gseti(BITER, 1);
                        st.gseti(REOFFER, 1);
                        st.gset(DEADL, int(0), d);
                        e.site("pass over the kept messages", e.repo_fn(c.ctx));
                    }
                }
                None => {
                    if retain {
                        self.sweep_keep(e, st);
                        st.gseti(PURGED, 1);
                        st.gseti(BITER, 0);
                        e.site("sweep over the kept messages", e.repo_fn(c.ctx));
                    } else if owned {
                        self.end_attempt(e, st);
                        st.gseti(BITER, 0);
                        if st.gi(NEWEP) == 1 {
                            st.gseti(DRAINED, 1);
                        }
                    }
                }
            }
        }
    }
    fn on_panic(&mut self, e: &mut Eng, st: &mut State, what: &str, terms: &[Val]) {
        if self.want != "C09" {
            return;
        }
        // a counter does not reach the end of its range
        if what == "arithmetic overflow (Add)" && terms.len() == 2 && terms.iter().any(|t| as_int(*t).map_or(false, |n| n.abs() < 1 << 16)) {
            return;
        }
        // bounds of a loop over a list that changes are not followed
        if what == "index out of bounds" && terms.iter().any(|t| any_sub(*t, &mut |x| matches!(nd(x), N::Phi(..)))) {
            e.count("accesses whose bounds are not decided");
            return;
        }
        // a span the program itself fixes, under a hundred years
        if what.starts_with("Instant + Duration") && terms.get(1).map_or(false, |d| is_op(*d, "dur").map_or(false, |a| as_int(a[0]).map_or(false, |n| n < 3_200_000_000_000_000_000))) {
            return;
        }
        let t: Vec<String> = terms.iter().map(|x| show(*x)).collect();
        e.report(st, &format!("the controller can panic: {what}"), format!("a path of the controller's thread ends in a panic: {what} ({})", t.join(", ")));
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, _ret: Val) {
        self.bad(e, st, "C09", "the controller's loop ends", "the thread of the bus controller returns");
    }
}

impl Ctl {
    fn sweep_keep(&mut self, e: &mut Eng, st: &mut State) {
        if st.gi(BITER) != 2 {
            return;
        }
        if st.g(DEADL, int(1)).is_some() {
            if st.gi(SWF) != 1 {
                self.bad(e, st, "C08", "an expired message survives the sweep", "the sweep over the kept messages keeps one that is not known to be unexpired");
            }
        }
        st.gdel(DEADL, int(1));
        st.gseti(SWF, 0);
    }
    fn same_msg(&self, e: &Eng, st: &State, m: Val) -> bool {
        let p = match paths(e) {
            Some(p) => p,
            None => return false,
        };
        match self.msg(st) {
            Some(x) => along(e, m, &p.label_op) == along(e, x, &p.label_op),
            None => false,
        }
    }
    fn ack_kind(&self, e: &Eng, m: Val) -> String {
        // the payload of the message
        if let N::Agg(t, _, fs) = nd(m) {
            let _ = t;
            for f in fs {
                if let N::Agg(t, k, _) = nd(*f) {
                    if named(e, *t, "ConnectMessageAck") {
                        return e.ty(*t).variants[*k as usize].name.clone();
                    }
                }
            }
        }
        "?".into()
    }
    fn add(&mut self, e: &mut Eng, st: &mut State, c: &Call, v: Val) {
        // an element that was just taken out goes back
        if let Some(p) = st.g(EL, int(0)) {
            if contains(v, p) {
                st.gseti(ELK, 1);
                return;
            }
        }
        e.site("new routing target", site(e, c));
        let k = site(e, c);
        for (tag, key, what) in [
            (DEC, "the request is not decoded", "not known to be decoded"),
            (COMPAT, "the version is not checked", "not known to have a compatible version"),
            (TOKEN, "the token is not checked", "not known to carry the controller's token"),
            (ACK, "the acknowledgement is not delivered", "not known to have been acknowledged successfully"),
        ] {
            if st.gi(tag) != 1 {
                self.bad(e, st, "C01", &format!("{k}: {key}"), &format!("an endpoint is added to the routing list on a path where its connect request is {what}"));
            }
        }
        // the list keeps the remote and the label of this very request
        let et = c.argtys.last().copied().unwrap_or(0);
        if let Some(p) = path_to(e, et, &is_remote) {
            if st.g(PEER, int(0)) != Some(along(e, v, &p)) {
                self.bad(e, st, "C01", &format!("{k}: another remote"), "the remote added to the routing list is not the one that came with the request");
            }
        }
        if let Some(p) = path_to(e, et, &|e, t| named(e, t, "Label")) {
            let l = along(e, v, &p);
            if !st.g(REQ, int(0)).map_or(false, |r| contains(l, r)) {
                self.bad(e, st, "C01+C04", &format!("{k}: another label"), "the label added to the routing list is not the one of the request");
            }
        }
        st.gseti(NEWEP, 1);
        st.gseti(DRAINED, 0);
    }
    fn keep(&mut self, e: &mut Eng, st: &mut State, c: &Call, v: Val, et: TyId) {
        e.site("message put into the buffer", site(e, c));
        let k = site(e, c);
        let pi = path_to(e, et, &is_instant).unwrap();
        let pm = path_to(e, et, &is_msg).unwrap();
        let (d, m) = (along(e, v, &pi), along(e, v, &pm));
        if !self.same_msg(e, st, m) {
            self.bad(e, st, "C08", &format!("{k}: another message is kept"), "the message put into the buffer is not the one that could not be routed");
        }
        if st.gi(ROUTED) == 1 {
            self.bad(e, st, "C05+C08", &format!("{k}: a delivered message is kept"), "a message that an endpoint accepted is put into the buffer and will be offered again");
        }
        if st.gi(REOFFER) == 1 {
            if st.g(DEADL, int(0)) != Some(d) {
                self.bad(e, st, "C08", &format!("{k}: the deadline changes"), "a kept message that is still unroutable does not keep its original deadline");
            }
        } else {
            let ttl = self.part(e, st, |p| p.ttl.clone()).unwrap_or_else(undef);
            if st.gi(TTLZ) != 2 {
                self.bad(e, st, "C08", &format!("{k}: kept with a zero time to live"), "a message is kept on a path where its time to live is not known to be non-zero");
            }
            let nows: Vec<Val> = st.gkeys(NOW).into_iter().map(|x| x.0).collect();
            let ok = match is_op(d, "tadd") {
                Some(a) if nows.contains(&a[0]) => a[1] == ttl || self.far(a[1]),
                _ => false,
            };
            if !ok {
                self.bad(e, st, "C08", &format!("{k}: wrong deadline"), &format!("the deadline {} of a kept message is not its arrival time plus its time to live", show(d)));
            } else if is_op(d, "tadd").unwrap()[1] != ttl {
                // only when the sum cannot be represented
                let now = is_op(d, "tadd").unwrap()[0];
                let of = op("pred", vec![mk(N::Str("time_overflow".into())), now, ttl]);
                if e.known(st, of) != Some(1) {
                    self.bad(e, st, "C08", &format!("{k}: time to live replaced"), "the time to live is replaced by a constant although the deadline can be represented");
                }
            }
        }
        st.gseti(KEPT, 1);
    }
    /// a duration of more than ten years
    fn far(&self, v: Val) -> bool {
        is_op(v, "dur").and_then(|a| as_int(a[0])).map_or(false, |n| n >= 10 * 365 * 86400 * 1_000_000_000)
    }
}

/// Types that are decoded from what a peer sends and contain themselves: decoding one calls itself
/// once per level, as deep as the sender likes.
fn nesting(e: &Eng, rep: &mut Rep) {
    fn walk(e: &Eng, t: TyId, on: &mut Vec<TyId>, done: &mut HashSet<TyId>, out: &mut BTreeSet<String>) {
        if on.contains(&t) {
            // the type of the crate that closes the circle
            for x in &on[on.iter().position(|x| *x == t).unwrap()..] {
                if e.ty(*x).path.starts_with("ipmb::") {
                    out.insert(e.ty(*x).path.clone());
                }
            }
            return;
        }
        if !done.insert(t) {
            return;
        }
        on.push(t);
        let ty = e.ty(t);
        let mut sub: Vec<TyId> = ty.variants.iter().flat_map(|v| v.fields.iter().map(|f| f.1)).collect();
        sub.extend(ty.args.iter().copied());
        sub.extend(ty.fields.iter().copied());
        sub.extend(ty.elem);
        for x in sub {
            walk(e, x, on, done, out);
        }
        on.pop();
    }
    let mut out = BTreeSet::new();
    let mut n = 0;
    for t in 0..e.prog.types.len() as TyId {
        let p = e.ty(t).path.clone();
        if p.starts_with("ipmb::") && (p.ends_with("::Selector") || p.ends_with("::ConnectMessage")) {
            n += 1;
            walk(e, t, &mut vec![], &mut HashSet::new(), &mut out);
        }
    }
    if n == 0 {
        rep.bad("anchor: types decoded from peers", "the types decoded from peers were not found".into(), "whole program".into());
    }
    for p in out {
        rep.bad(&format!("decoding {p} calls itself without a bound"), format!("{p} contains itself and is decoded from what peers send, with no bound on the nesting: a deeply nested value exhausts the stack of the controller's thread"), p.clone());
    }
}

pub fn routing(id: &'static str, env: &Env, rep: &mut Rep) {
    rep.rule = match id {
        "C01" => "automaton over all paths of the controller: a push onto the endpoint list requires decoded, compatible, right token and delivered positive acknowledgement for the same remote",
        "C04" => "path-sensitive guard: every delivery is dominated by a true label check of the same message on the same endpoint",
        "C05" => "automaton: no delivery and no buffering after an accepted unicast",
        "C06" => "automaton: every endpoint and the own endpoint is matched or excused by an accepted unicast",
        "C07" => "automaton: removed from the list exactly when disconnected or dead; failures leave the message undelivered",
        "C08" => "automaton: kept iff unrouted with non-zero ttl, with the right deadline; offered again in order, unexpired, after each join; sweep removes exactly the expired",
        _ => "controller automaton",
    }
    .into();
    let mut e = env.core();
    e.focus_repo(40);
    let r = match controller(&e) {
        Some(r) => r,
        None => {
            rep.bad("anchor: controller thread", "no spawned thread receives from the hub".into(), "whole program".into());
            return;
        }
    };
    if paths(&e).is_none() {
        rep.bad("anchor: message layout", "the message type has no selector with label expression, mode, ttl and uuid".into(), "whole program".into());
        return;
    }
    run(&mut e, rep, r, Box::new(Ctl { want: id, root: r, own_vecs: HashSet::new(), filled: BTreeSet::new() }), &mut |e, st| {
        // nothing is kept when the thread starts
        let c = mk_cell(Cell::Local(0, 1));
        for p in buffers(e, r) {
            e.write(st, c, &p, op("vec_new", vec![]));
        }
    });
    if id == "C09" {
        nesting(&e, rep);
    }
    for (k, n) in [
        ("wait for the next message", 1),
        ("delivery to an endpoint", 1),
        ("hand-over to the controller's own endpoint", 1),
        ("label check", 1),
        ("new routing target", 1),
        ("acknowledgement", 1),
        ("message put into the buffer", 1),
        ("pass over the endpoints", 1),
    ] {
        rep.floor(k, n);
    }
}
