//! Joining a bus: the joiner's side of C02, C35 (who becomes the controller), C27 (the address of a
//! bus), and what a join hands over (C19, C23, and the connect request of C01).
use super::client::*;
use super::controller::*;
use super::deadline::*;
use super::errno::{self, *};
use super::util::*;
use super::*;
use crate::models;

const AFF: u16 = 160; // 1 may become the controller, 2 may not
const PH: u16 = 161; // 1 no controller was found, 2 connected, 3 another failure
const CFD: u16 = 162; // the connected descriptor
const CADDR: u16 = 163; // the address looked up
const CLEN: u16 = 164; // its length
const BFD: u16 = 165; // the descriptor bound to the name
const OWN: u16 = 166; // 1 bound, 2 listening, 3 the controller runs
const REF: u16 = 167; // 1 refused because of the version, 2 because of the token
const REFV: u16 = 168; // the version of the bus
const ACK: u16 = 169; // 1 positive acknowledgement
const SPAWN: u16 = 170; // what the controller thread was given
const SENTR: u16 = 171; // 1: the request was transmitted on this connection
const ALL: &[u16] = &[PH, OWN, ACK, SENTR];

fn is_ack_decode(e: &Eng, f: &FnD) -> bool {
    is_repo(f) && rty(f).and_then(|r| result_args(e, r)).map_or(false, |(o, _)| named(e, o, "ConnectMessageAck"))
}
/// computes the address of a bus
pub fn is_addr_fn(e: &Eng, f: &FnD) -> bool {
    is_repo(f) && rty(f).map_or(false, |r| e.ty(r).path.ends_with("sockaddr_un")) && par(f).iter().any(|t| e.ty(peel(e, *t)).k == Kind::Str || e.ty(peel(e, *t)).path == "alloc::string::String")
}
fn is_sender(e: &Eng, t: TyId) -> bool {
    let ty = e.ty(t);
    ty.path.starts_with("std::sync::mpsc::") && last(&ty.path) == "Sender" && ty.args.first().map_or(false, |a| is_enc(e, *a))
}
fn is_receiver(e: &Eng, t: TyId) -> bool {
    let ty = e.ty(t);
    ty.path.starts_with("std::sync::mpsc::") && last(&ty.path) == "Receiver" && ty.args.first().map_or(false, |a| is_enc(e, *a))
}

pub struct Jn {
    pub want: &'static str,
    pub ret: TyId,
    /// parameters: options, generation
    pub opts: Rc<RefCell<Option<(Val, TyId, Option<Val>)>>>,
}
impl Jn {
    fn bad(&self, e: &mut Eng, st: &State, props: &str, key: &str, msg: &str) {
        if props.split('+').any(|p| p == self.want) {
            e.report(st, key, msg.to_string());
        }
    }
    fn opt(&self, e: &Eng, name: &str) -> Option<Val> {
        let (v, t, _) = (*self.opts.borrow())?;
        let i = e.ty(t).variants[0].fields.iter().position(|f| f.0 == name)?;
        Some(e.project(v, P::F(i as u32)))
    }
    fn refused(&self, e: &mut Eng, st: &State, what: &str) {
        if st.gi(REF) != 0 {
            self.bad(e, st, "C02", "a refused join is retried", &format!("after the bus refused the join because of its {}, {what}", if st.gi(REF) == 1 { "version" } else { "token" }));
        }
    }
    fn error(&self, e: &mut Eng, s: &mut State, c: &Call, et: TyId, name: &str, fs: Vec<Val>) -> Option<Val> {
        let i = variant_no(e, et, name)?;
        let n = e.ty(et).variants[i as usize].fields.len();
        let fs: Vec<Val> = (0..n).map(|j| fs.get(j).copied().unwrap_or_else(|| e.fresh(s, c.ctx, c.bb, 30 + i * 4 + j as u32))).collect();
        Some(models::err(c.ret, mk(N::Agg(et, i, fs))))
    }
    fn spawn(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> bool {
        // the thread of the controller: it was given the hub
        let ctl = c.argtys.iter().any(|t| holds_named(e, *t, "IoHub"));
        if !ctl {
            return false;
        }
        e.site("start of the controller", site(e, c));
        if st.gi(AFF) != 1 {
            self.bad(e, st, "C35", "an endpoint without controller affinity becomes the controller", "the controller is started on a path where the options do not allow the endpoint to become one");
        }
        if st.gi(OWN) < 2 {
            self.bad(e, st, "C35", "the controller runs without owning the name", "the controller is started on a path where the endpoint did not bind the bus's name and listen on it");
        }
        if st.gi(PH) != 1 {
            self.bad(e, st, "C35", "the controller runs beside another one", "the controller is started on a path where the last look-up did not find the name unused");
        }
        if let Some(f) = st.g(BFD, int(0)) {
            if !c.args.iter().any(|a| contains(*a, f)) {
                self.bad(e, st, "C35", "the controller does not accept on the bound name", "the controller is started without the descriptor that was bound to the bus's name");
            }
        }
        for n in ["label", "token"] {
            if let Some(x) = self.opt(e, n) {
                if !c.args.iter().any(|a| has_part(*a, x)) {
                    self.bad(e, st, "C01+C19+C04", &format!("the controller is started without the endpoint's {n}"), "the controller does not use the options of the endpoint that started it");
                }
            }
        }
        st.gseti(OWN, 3);
        let all = mk(N::Agg(c.ret, 0, c.args.clone()));
        st.gset(SPAWN, int(0), all);
        true
    }
}
fn has_part(v: Val, x: Val) -> bool {
    contains(v, x) || contains(v, crate::models::s_content(x)) || contains(v, op("string", vec![x]))
}

impl Mon for Jn {
    fn leaf(&self, e: &Eng, f: &FnD) -> bool {
        is_transmit(e, f) || is_hub_recv(e, f) || is_ack_decode(e, f) || is_encode(e, f) || is_addr_fn(e, f)
    }
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        if let Some(a) = errno::call(e, st, c) {
            return a;
        }
        if let Some(f) = c.f {
            let fd = e.f(f).clone();
            if fd.blocks.is_some() {
                if is_addr_fn(e, &fd) {
                    let i = c.argtys.iter().position(|t| matches!(e.ty(peel(e, *t)).k, Kind::Str) || e.ty(peel(e, *t)).path == "alloc::string::String").unwrap();
                    let x = models::content(e, st, c.args[i], c.argtys[i]);
                    let x = crate::models::s_content(x);
                    e.site("address of a bus", site(e, c));
                    if let Some(id) = self.opt(e, "identifier") {
                        if x != crate::models::s_content(id) && x != mk(N::Deref(id)) {
                            self.bad(e, st, "C27+C19", "the address of another identifier", &format!("the address of the bus is computed from something else than the endpoint's identifier: {}", show(x)));
                        }
                    }
                    return Act::Ret(op("sockaddr", vec![int(f as i128), x]));
                }
                if is_encode(e, &fd) {
                    let v = op("enc_msg", vec![c.args[0]]);
                    self.request(e, st, c);
                    return Act::Ret(v);
                }
                if is_transmit(e, &fd) {
                    e.site("transmission of the request", site(e, c));
                    self.refused(e, st, "another request is sent");
                    if let Some((r, rt)) = arg_named(e, c, "Remote") {
                        let r = arg_content(e, st, r, rt);
                        if !st.g(CFD, int(0)).map_or(false, |f| contains(r, f)) {
                            self.bad(e, st, "C02+C27", "the request is sent elsewhere", "the connect request is not sent over the connection that was made to the bus");
                        }
                    }
                    let (_, et) = result_args(e, c.ret).unwrap();
                    let mut out = vec![];
                    let mut s = st.clone();
                    s.gseti(SENTR, 1);
                    out.push((s, models::ok(c.ret, crate::val::unit())));
                    for n in ["Disconnect", "IoError"] {
                        let mut s = st.clone();
                        if let Some(v) = self.error(e, &mut s, c, et, n, vec![]) {
                            out.push((s, v));
                        }
                    }
                    return Act::Forks(out);
                }
                if is_hub_recv(e, &fd) {
                    e.site("wait for the acknowledgement", site(e, c));
                    self.refused(e, st, "another acknowledgement is waited for");
                    let (_, et) = result_args(e, c.ret).unwrap();
                    let mut out = vec![];
                    let mut s = st.clone();
                    let v = e.fresh(&mut s, c.ctx, c.bb, 1);
                    out.push((s, models::ok(c.ret, v)));
                    for n in ["Timeout", "Disconnect", "Decode", "IoError", "VersionMismatch"] {
                        let mut s = st.clone();
                        let mut fs = vec![];
                        if n == "VersionMismatch" {
                            let v = e.fresh(&mut s, c.ctx, c.bb, 2);
                            s.gseti(REF, 1);
                            s.gset(REFV, int(0), v);
                            fs.push(v);
                        }
                        if let Some(v) = self.error(e, &mut s, c, et, n, fs) {
                            out.push((s, v));
                        }
                    }
                    return Act::Forks(out);
                }
                if is_ack_decode(e, &fd) {
                    e.site("verdict of the bus", site(e, c));
                    let (ot, et) = result_args(e, c.ret).unwrap();
                    let mut out = vec![];
                    for i in 0..e.ty(ot).variants.len() as u32 {
                        let v = e.ty(ot).variants[i as usize].clone();
                        let mut s = st.clone();
                        let fs: Vec<Val> = (0..v.fields.len()).map(|k| e.fresh(&mut s, c.ctx, c.bb, 10 + i * 4 + k as u32)).collect();
                        match v.name.as_str() {
                            "Ok" => s.gseti(ACK, 1),
                            "ErrVersion" => {
                                s.gseti(REF, 1);
                                if let Some(x) = fs.first() {
                                    s.gset(REFV, int(0), *x);
                                }
                            }
                            "ErrToken" => s.gseti(REF, 2),
                            _ => {}
                        }
                        out.push((s, models::ok(c.ret, mk(N::Agg(ot, i, fs)))));
                    }
                    for n in ["Decode", "TypeUuidNotFound"] {
                        let mut s = st.clone();
                        if let Some(v) = self.error(e, &mut s, c, et, n, vec![]) {
                            out.push((s, v));
                        }
                    }
                    return Act::Forks(out);
                }
            }
        }
        let q = c.rp.as_str();
        match libc(c) {
            Some("socket") => {
                let mut out = vec![];
                let mut s = st.clone();
                let v = e.fresh(&mut s, c.ctx, c.bb, 1);
                e.bound(&mut s, v, Some(0), None);
                out.push((s, v));
                out.extend(errno::fails(st, &[OTHER]));
                return Act::Forks(out);
            }
            Some("connect") => {
                e.site("connection attempt", site(e, c));
                self.refused(e, st, "another connection is made");
                for t in ALL {
                    st.gseti(*t, 0);
                }
                let a = self.addr(e, st, c);
                st.gset(CADDR, int(0), a);
                st.gset(CLEN, int(0), c.args[2]);
                let mut out = vec![];
                let mut s = st.clone();
                s.gseti(PH, 2);
                s.gset(CFD, int(0), c.args[0]);
                out.push((s, int(0)));
                for (n, p) in [(ECONNREFUSED, 1), (ENOENT, 1), (EACCES, 3), (EAGAIN, 3), (EINTR, 3), (OTHER, 3)] {
                    let mut s = st.clone();
                    s.gseti(PH, p);
                    out.extend(errno::fails(&s, &[n]));
                }
                return Act::Forks(out);
            }
            Some("bind") => {
                e.site("registration of the name", site(e, c));
                self.refused(e, st, "the name is registered");
                let a = self.addr(e, st, c);
                if st.gi(AFF) != 1 {
                    self.bad(e, st, "C35", "an endpoint without controller affinity takes the name", "the name of the bus is bound on a path where the options do not allow the endpoint to become its controller");
                }
                if st.gi(PH) != 1 {
                    self.bad(e, st, "C35", "the name is taken although it may be in use", "the name of the bus is bound on a path where the last look-up did not find it unused");
                }
                if let Some(x) = st.g(CADDR, int(0)) {
                    if x != a {
                        self.bad(e, st, "C27", "different addresses are looked up and registered", &format!("the address that is bound ({}) is not the one that was looked up ({})", show(a), show(x)));
                    }
                }
                if let Some(x) = st.g(CLEN, int(0)) {
                    if x != c.args[2] {
                        self.bad(e, st, "C27", "addresses of different lengths are looked up and registered", &format!("the length of the address that is bound ({}) is not that of the one that was looked up ({})", show(c.args[2]), show(x)));
                    }
                }
                let mut out = vec![];
                let mut s = st.clone();
                s.gset(BFD, int(0), c.args[0]);
                s.gseti(OWN, 1);
                out.push((s, int(0)));
                out.extend(errno::fails(st, &[EADDRINUSE, EACCES, OTHER]));
                return Act::Forks(out);
            }
            Some("listen") => {
                e.site("listening on the name", site(e, c));
                let mut out = vec![];
                let mut s = st.clone();
                if s.gi(OWN) == 1 && s.g(BFD, int(0)) == Some(c.args[0]) {
                    s.gseti(OWN, 2);
                }
                out.push((s, int(0)));
                out.extend(errno::fails(st, &[EADDRINUSE, OTHER]));
                return Act::Forks(out);
            }
            Some("unlink" | "remove" | "rename") => {
                self.bad(e, st, "C35", &format!("{}: the name is freed", site(e, c)), "a name that may be owned by another controller is removed");
            }
            Some("setsockopt") => {
                // SO_REUSEADDR has no meaning for these addresses
                return Act::Leaf;
            }
            _ => {}
        }
        if q.starts_with("std::thread::") && q.contains("spawn") && self.spawn(e, st, c) {
            return Act::Leaf;
        }
        if q == "std::thread::functions::sleep" || q == "std::thread::sleep" {
            self.refused(e, st, "the join waits for another attempt");
            return Act::Leaf;
        }
        if q == "std::sync::mpsc::channel" {
            let s = e.fresh(st, c.ctx, c.bb, 1);
            return Act::Ret(mk(N::Agg(c.ret, 0, vec![op("chtx", vec![s]), op("chrx", vec![s])])));
        }
        Act::Default
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        e.count("returns");
        let (ot, et) = result_args(e, self.ret).unwrap();
        let v = e.variant(st, ret, self.ret);
        let x = e.project(ret, P::D(1));
        let x = e.project(x, P::F(0));
        if st.gi(REF) != 0 {
            let want = if st.gi(REF) == 1 { "VersionMismatch" } else { "TokenMismatch" };
            let got = if v == Some(1) { e.variant(st, x, et).map(|i| (i, e.ty(et).variants[i as usize].name.clone())) } else { None };
            match got {
                Some((i, n)) if n == want => {
                    if n == "VersionMismatch" {
                        let y = e.project(x, P::D(i));
                        let y = e.project(y, P::F(0));
                        if st.g(REFV, int(0)) != Some(y) {
                            self.bad(e, st, "C02", "the version of the bus is lost", "the version reported with a version mismatch is not the one the bus answered with");
                        }
                    }
                }
                Some((_, n)) => self.bad(e, st, "C02", &format!("a refusal with {want} is reported as {n}"), "the reason why the bus refused the join is reported as another one"),
                None => self.bad(e, st, "C02", &format!("a refusal with {want} is not reported"), "the bus refused the join, but the reason is not known to be the result"),
            }
            return;
        }
        if v == Some(1) {
            return;
        }
        // success
        let o = e.project(ret, P::D(0));
        let o = e.project(o, P::F(0));
        let rule = if is_rule(e, ot) { o } else { return };
        let k = match e.variant(st, rule, ot) {
            Some(k) => k,
            None => {
                self.bad(e, st, "C02+C35", "what a join ends as is not known", "join returns without it being known whether the endpoint became a client or the controller");
                return;
            }
        };
        let fields = e.ty(ot).variants[k as usize].fields.clone();
        let client = fields.iter().any(|f| named(e, f.1, "Remote"));
        let at = |e: &Eng, pred: &dyn Fn(&Eng, TyId) -> bool| -> Option<Val> {
            let i = fields.iter().position(|f| pred(e, f.1))?;
            let x = e.project(rule, P::D(k));
            Some(e.project(x, P::F(i as u32)))
        };
        if client {
            e.site("return of a client", e.repo_fn(st.ctx));
            if st.gi(ACK) != 1 || st.gi(SENTR) != 1 {
                self.bad(e, st, "C02", "join succeeds without a positive acknowledgement", "join returns a connection on a path where the bus did not acknowledge the request sent over it");
            }
            if let (Some(r), Some(f)) = (at(e, &|e, t| named(e, t, "Remote")), st.g(CFD, int(0))) {
                if !contains(r, f) {
                    self.bad(e, st, "C02", "join returns another connection", "the connection returned by join is not the one that was acknowledged");
                }
            }
            if let (Some((o, t, ep)), Some(x)) = (*self.opts.borrow(), at(e, &|e, t| named(e, t, "Options"))) {
                let n = e.ty(t).variants[0].fields.len() as u32;
                let same = x == o || (0..n).all(|i| crate::models::s_content(e.project(x, P::F(i))) == crate::models::s_content(e.project(o, P::F(i))));
                if !same {
                    self.bad(e, st, "C19", "join keeps other options", &format!("the options kept for a later rejoin are not those of the join: {}", show(x)));
                }
                if let (Some(ep), Some(y)) = (ep, at(e, &is_u32)) {
                    if y != ep {
                        self.bad(e, st, "C19", "join forgets the generation", "the connection returned by join does not carry the generation the caller gave it");
                    }
                }
            }
            if let Some(b) = at(e, &is_bool) {
                if e.known(st, b) != Some(0) {
                    self.bad(e, st, "C19", "join returns a closed receiver", "the receiver of a new connection is marked as closed");
                }
            }
        } else {
            e.site("return of a controller", e.repo_fn(st.ctx));
            if st.gi(OWN) != 3 {
                self.bad(e, st, "C35", "a controller that does not run", "join returns as the controller on a path where it did not start it");
            }
            let sp = st.g(SPAWN, int(0));
            let part = |e: &Eng, v: Val, pred: &dyn Fn(&Eng, TyId) -> bool| -> Option<Val> {
                for f in &fields {
                    if holds(e, f.1, pred) {
                        let i = fields.iter().position(|g| g.1 == f.1)?;
                        let x = e.project(v, P::D(k));
                        return Some(e.project(x, P::F(i as u32)));
                    }
                }
                None
            };
            if let Some(sp) = sp {
                for (pred, mine, other, what) in [(&is_sender as &dyn Fn(&Eng, TyId) -> bool, "chtx", "chrx", "queue of the controller"), (&is_receiver, "chrx", "chtx", "queue of the controller's own endpoint")] {
                    if let Some(x) = part(e, rule, pred) {
                        let chans: Vec<Val> = atoms_of(x, mine);
                        if chans.is_empty() || !chans.iter().all(|s| contains(sp, op(other, vec![*s]))) {
                            self.bad(e, st, "C23", &format!("the {what} is not connected"), "the two ends of a queue between the endpoint and its controller do not belong together");
                        }
                    }
                }
                if let Some(im) = part(e, rule, &|e, t| named(e, t, "IoMultiplexing")) {
                    if !contains(sp, im) {
                        self.bad(e, st, "C23", "the controller is woken through another descriptor", "what the endpoint wakes after queueing a message is not what its controller waits for");
                    }
                }
            }
        }
    }
}
/// the channels whose end of the given kind occurs in a value
fn atoms_of(v: Val, kind: &'static str) -> Vec<Val> {
    let mut out = vec![];
    fn go(v: Val, kind: &str, out: &mut Vec<Val>, d: u32) {
        if d > 30 {
            return;
        }
        match nd(v) {
            N::Op(k, a) if *k == kind => out.push(a[0]),
            N::Op(_, a) => a.iter().for_each(|x| go(*x, kind, out, d + 1)),
            N::Agg(_, _, a) => a.iter().for_each(|x| go(*x, kind, out, d + 1)),
            _ => {}
        }
    }
    go(v, kind, &mut out, 0);
    out
}
impl Jn {
    fn addr(&self, e: &mut Eng, st: &State, c: &Call) -> Val {
        let (cc, p) = e.target(c.args[1], c.argtys.get(1).and_then(|t| e.pointee(*t)));
        let _ = p;
        let v = e.read(st, cc, &[]);
        v
    }
    /// the connect request carries the endpoint's credentials
    fn request(&self, e: &mut Eng, st: &mut State, c: &Call) {
        let t = match c.argtys.first() {
            Some(t) => peel(e, *t),
            None => return,
        };
        let path = match path_to(e, t, &|e, t| named(e, t, "ConnectMessage")) {
            Some(p) => p,
            None => return,
        };
        e.site("connect request", site(e, c));
        let m = arg_content(e, st, c.args[0], c.argtys[0]);
        let m = along(e, m, &path);
        let mt = match (0..e.prog.types.len() as u32).find(|t| named(e, *t, "ConnectMessage")) {
            Some(t) => t,
            None => return,
        };
        for (i, f) in e.ty(mt).variants[0].fields.clone().iter().enumerate() {
            if f.0 != "label" && f.0 != "token" {
                continue;
            }
            if let Some(want) = self.opt(e, &f.0) {
                let x = e.project(m, P::F(i as u32));
                if crate::models::s_content(x) != crate::models::s_content(want) {
                    self.bad(e, st, "C01+C19+C04", &format!("the connect request carries another {}", f.0), &format!("the connect request does not carry the endpoint's {}: {}", f.0, show(x)));
                }
            }
        }
    }
}

/// the address of an identifier
struct Addr {
    id: Val,
}
impl Mon for Addr {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        let copy = match libc(c) {
            Some("strncpy" | "memcpy" | "memmove" | "strncat") => Some((c.args[0], c.args[1], Some(c.args[2]))),
            Some("strcpy") => Some((c.args[0], c.args[1], None)),
            _ => match last(&c.rp) {
                "copy_nonoverlapping" | "copy" if c.args.len() == 3 => Some((c.args[1], c.args[0], Some(c.args[2]))),
                "copy_to_nonoverlapping" | "copy_to" if c.args.len() == 3 => Some((c.args[1], c.args[0], Some(c.args[2]))),
                "copy_from_nonoverlapping" | "copy_from" if c.args.len() == 3 => Some((c.args[0], c.args[1], Some(c.args[2]))),
                _ => None,
            },
        };
        if let Some((d, s, n)) = copy {
            e.site("copy of the identifier", site(e, c));
            let _ = d;
            if std::env::var("SA_P").is_ok() {
                eprintln!("COPY {} <- {} x {:?}", show(d), show(s), n.map(show));
            }
            let whole = s == self.id || is_op(s, "dataof").map_or(false, |a| a[0] == self.id) || mk_data(self.id) == s;
            if !whole {
                e.report(st, "part of the identifier is left out", format!("the address is not computed from the whole identifier but from {}", show(s)));
            }
            if let Some(n) = n {
                let len = mk_len(self.id);
                let full = n == len || matches!(is_op(n, "add"), Some(a) if a.contains(&len));
                let lt = op("lt", vec![n, len]);
                let bounded = e.known(st, lt) == Some(0) || matches!((as_int(n), e.range(st, len).1), (Some(k), Some(h)) if h <= k);
                if !full && !bounded {
                    let k = as_int(n).or_else(|| e.range(st, n).1).map_or("some".to_string(), |k| k.to_string());
                    e.report(st, &format!("identifiers longer than {k} bytes are cut"), "identifiers that differ only behind that many bytes get the same address: their buses are mixed up".into());
                }
            }
            return Act::Leaf;
        }
        Act::Default
    }
}

pub fn join(id: &'static str, env: &Env, rep: &mut Rep) {
    let mut e = env.core();
    e.focus_repo(40);
    let fs: Vec<FnId> = e.prog.fns.iter().filter(|f| f.blocks.is_some() && is_join(&e, f) && rty(f).and_then(|r| result_args(&e, r)).map_or(false, |(o, _)| is_rule(&e, o))).map(|f| f.id).collect();
    if fs.is_empty() {
        rep.bad("anchor: join", "no function joins a bus and returns the connection".into(), "whole program".into());
        return;
    }
    for f in fs {
        let oi = par(e.f(f)).iter().position(|t| named(&e, *t, "Options"));
        let ei = par(e.f(f)).iter().position(|t| is_u32(&e, *t));
        let oi = match oi {
            Some(i) => i,
            None => continue,
        };
        let ot = par(e.f(f))[oi];
        let ret = rty(e.f(f)).unwrap();
        let opts = Rc::new(RefCell::new(None));
        let o2 = opts.clone();
        for k in [1, 0] {
            let o2 = o2.clone();
            run(&mut e, rep, f, Box::new(Jn { want: id, ret, opts: opts.clone() }), &mut |e, st| {
                let c = e.local(st.ctx, oi as u32 + 1);
                let v = e.read(st, c, &[]);
                let ep = ei.map(|i| {
                    let c = e.local(st.ctx, i as u32 + 1);
                    e.read(st, c, &[])
                });
                *o2.borrow_mut() = Some((v, ot, ep));
                if let Some(i) = e.ty(ot).variants[0].fields.iter().position(|f| is_bool(e, f.1)) {
                    let x = e.project(v, P::F(i as u32));
                    e.assume(st, x, k);
                }
                st.gseti(AFF, if k == 1 { 1 } else { 2 });
            });
        }
    }
    rep.floor("connection attempt", 1);
    rep.floor("wait for the acknowledgement", 1);
    if id == "C02" {
        rep.floor("verdict of the bus", 1);
        rep.floor("return of a client", 1);
    }
    if id == "C35" || id == "C27" {
        rep.floor("registration of the name", 1);
    }
    if id == "C35" {
        rep.floor("listening on the name", 1);
        rep.floor("start of the controller", 1);
    }
    if id == "C27" {
        let fs: Vec<FnId> = e.prog.fns.iter().filter(|f| f.blocks.is_some() && is_addr_fn(&e, f)).map(|f| f.id).collect();
        for f in fs {
            let i = par(e.f(f)).iter().position(|t| matches!(e.ty(peel(&e, *t)).k, Kind::Str)).unwrap_or(0);
            let m = Rc::new(RefCell::new(Addr { id: int(0) }));
            let m2 = m.clone();
            run(&mut e, rep, f, Box::new(SharedAddr(m)), &mut |e, st| {
                let c = e.local(st.ctx, i as u32 + 1);
                m2.borrow_mut().id = e.read(st, c, &[]);
            });
        }
    }
}
struct SharedAddr(Rc<RefCell<Addr>>);
impl Mon for SharedAddr {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        self.0.borrow_mut().on_call(e, st, c)
    }
}
