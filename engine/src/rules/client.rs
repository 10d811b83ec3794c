//! Sending, receiving and rejoining on an endpoint: C18, C19, C20, C23, C34 and the client side of C02.
use super::controller::*;
use super::deadline::*;
use super::util::*;
use super::*;
use crate::models;

const HELD: u16 = 130; // held guards
const MSGP: u16 = 131; // the datagram that is transmitted
const TX: u16 = 132; // 1 accepted by the connection, 2 disconnected, 3 refused, 4 queued for the controller
const LOST: u16 = 133; // 1: a lost connection was noticed and is not repaired yet
const JERR: u16 = 134; // a rejoin failed with this reason (+1)
const JVAL: u16 = 135; // what it carries
const RC: u16 = 136; // 1 the receiver was closed before the rejoin, 2 it was not
const NEWR: u16 = 137; // the new connection
const NEWV: u16 = 138; // variant of the new connection (+1)
const WAKE: u16 = 139; // 1 the controller was woken after queueing
const LOCKED: u16 = 140; // the lock of the rejoin
const EQOK: u16 = 146; // the generation that was compared with the one seen before, and found equal
const CASE: u16 = 141; // the state of the connection seen with the last acquisition

/// the lock of an acquisition: (class, kind)
fn lock_class(e: &Eng, p: &str, args: &[TyId]) -> Option<(String, u8)> {
    let k = match p {
        "std::sync::poison::mutex::Mutex::<T>::lock" | "std::sync::poison::mutex::Mutex::<T>::try_lock" => 0,
        "std::sync::poison::rwlock::RwLock::<T>::read" | "std::sync::poison::rwlock::RwLock::<T>::try_read" => 1,
        "std::sync::poison::rwlock::RwLock::<T>::write" | "std::sync::poison::rwlock::RwLock::<T>::try_write" => 2,
        _ => return None,
    };
    let t = args.first().map_or("?".into(), |t| e.ty(*t).s.clone());
    Some((format!("{}<{}>", if k == 0 { "Mutex" } else { "RwLock" }, t), k))
}
/// locks a function may acquire, with everything it calls
fn locks_of(e: &Eng, f: FnId) -> BTreeSet<(String, u8)> {
    let mut out = BTreeSet::new();
    for g in closure(e, &[f]) {
        let fd = e.f(g);
        if !is_repo(fd) {
            continue;
        }
        for b in fd.blocks.iter().flatten().flatten() {
            if let Term::Call(Func::Static(c), ..) = &b.term {
                out.extend(lock_class(e, &c.p, &c.args));
            }
        }
    }
    out
}
/// the connection of an endpoint: the enum kept behind the lock
pub fn is_rule(e: &Eng, t: TyId) -> bool {
    let ty = e.ty(t);
    ty.k == Kind::Enum && ty.krate.starts_with("ipmb") && ty.variants.iter().any(|v| v.fields.iter().any(|f| named(e, f.1, "Options"))) && holds_named(e, t, "Remote")
}
/// field of a variant satisfying the predicate
pub fn vfield(e: &Eng, t: TyId, v: u32, pred: &dyn Fn(&Eng, TyId) -> bool) -> Option<u32> {
    e.ty(t).variants[v as usize].fields.iter().position(|f| pred(e, f.1)).map(|i| i as u32)
}
pub fn vproj(e: &Eng, x: Val, v: u32, f: u32) -> Val {
    let x = e.project(x, P::D(v));
    e.project(x, P::F(f))
}
fn is_reader(e: &Eng, t: TyId) -> bool {
    e.ty(t).path == "core::option::Option" && holds(e, t, &|e, t| named(e, t, "IoHub") || e.ty(t).path.starts_with("std::sync::mpsc::Receiver"))
}
pub fn is_bool(e: &Eng, t: TyId) -> bool {
    e.ty(t).k == Kind::Bool
}
pub fn is_u32(e: &Eng, t: TyId) -> bool {
    e.ty(t).k == Kind::Uint
}

#[derive(Default)]
pub struct Locks {
    /// (held, acquired) -> where
    pub order: BTreeMap<(String, String), String>,
    /// classes held while waiting without bound -> where
    pub waits: BTreeMap<(String, String), String>,
    /// exclusive acquisitions
    pub excl: BTreeSet<(String, String)>,
}

pub struct Cl {
    pub want: &'static str,
    pub root: FnId,
    pub name: String,
    pub ret: Option<TyId>,
    pub locks: Rc<RefCell<Locks>>,
}

impl Cl {
    fn bad(&self, e: &mut Eng, st: &State, props: &str, key: &str, msg: &str) {
        if props.split('+').any(|p| p == self.want) {
            e.report(st, key, msg.to_string());
        }
    }
    fn held(&self, st: &State) -> Vec<(Val, Val)> {
        st.gkeys(HELD)
    }
    fn class_of(&self, st: &State, g: Val) -> Option<String> {
        st.g(HELD, g).and_then(|v| match nd(v) {
            N::Str(s) => Some(s.to_string()),
            _ => None,
        })
    }
    fn acquire(&mut self, e: &mut Eng, st: &mut State, c: &Call, class: String, kind: u8, g: Option<Val>) {
        e.site("acquisition of a lock", format!("{class} in {}", e.repo_fn(c.ctx)));
        let addr = g.and_then(|g| is_op(g, "guard").map(|a| a[1]));
        for (h, _) in self.held(st) {
            let hc = match self.class_of(st, h) {
                Some(x) => x,
                None => continue,
            };
            let ha = is_op(h, "guard").map(|a| a[1]);
            let same = match (addr, ha) {
                (Some(x), Some(y)) => x == y,
                _ => hc == class,
            };
            if same {
                self.bad(e, st, "C20", &format!("{class} is acquired while it is held"), "a lock is acquired by an operation that holds it already (a reader may block as well when a writer waits)");
            } else {
                self.locks.borrow_mut().order.entry((hc, class.clone())).or_insert(format!("{} (from {})", e.repo_fn(c.ctx), self.name));
            }
        }
        if kind != 1 {
            self.locks.borrow_mut().excl.insert((class.clone(), self.name.clone()));
        }
        if let Some(g) = g {
            st.gset(HELD, g, mk(N::Str(class.as_str().into())));
        }
    }
    /// a callee that is not gone into
    fn leaf_locks(&mut self, e: &mut Eng, st: &mut State, c: &Call, f: FnId) {
        for (class, kind) in locks_of(e, f) {
            self.acquire(e, st, c, class, kind, None);
        }
    }
    fn unbounded(&mut self, e: &mut Eng, st: &State, c: &Call) {
        for (h, _) in self.held(st) {
            if let Some(hc) = self.class_of(st, h) {
                self.locks.borrow_mut().waits.entry((hc, self.name.clone())).or_insert(e.repo_fn(c.ctx));
            }
        }
    }
    /// the connection guarded by a held write lock: (guard, type, content)
    fn rule(&self, e: &mut Eng, st: &State, write: bool) -> Option<(Val, TyId, Val)> {
        let t = (0..e.prog.types.len() as u32).find(|t| is_rule(e, *t))?;
        for (g, _) in self.held(st) {
            let a = is_op(g, "guard")?;
            let k = as_int(a[2]);
            if (write && k == Some(2)) || (!write && k != Some(0)) {
                let p = op("guardptr", vec![a[0], a[1]]);
                let v = e.load(st, p, Some(t));
                return Some((g, t, v));
            }
        }
        None
    }
    fn client_variant(&self, e: &Eng, t: TyId) -> Option<u32> {
        (0..e.ty(t).variants.len() as u32).find(|v| vfield(e, t, *v, &|e, t| named(e, t, "Options")).is_some())
    }
    /// the new connection is installed faithfully
    fn installed(&self, e: &mut Eng, st: &mut State, g: Val) {
        let new = match st.g(NEWR, int(0)) {
            Some(n) => n,
            None => return,
        };
        if st.g(LOCKED, int(0)) != Some(g) {
            return;
        }
        let t = match (0..e.prog.types.len() as u32).find(|t| is_rule(e, *t)) {
            Some(t) => t,
            None => return,
        };
        let a = is_op(g, "guard").unwrap();
        let cur = e.load(st, op("guardptr", vec![a[0], a[1]]), Some(t));
        let v = (st.gi(NEWV) - 1) as u32;
        st.gclear(NEWR);
        // same connection
        let probe = |e: &Eng, x: Val| -> Vec<Val> {
            (0..e.ty(t).variants[v as usize].fields.len() as u32)
                .filter(|f| {
                    let ft = e.ty(t).variants[v as usize].fields[*f as usize].1;
                    !is_reader(e, ft) && !is_bool(e, ft)
                })
                .map(|f| vproj(e, x, v, f))
                .collect()
        };
        if e.variant(st, cur, t) != Some(v) || probe(e, cur) != probe(e, new) {
            self.bad(e, st, "C19", "the new connection is not installed", "after a successful rejoin the lock is released without the new connection being the shared one");
            return;
        }
        let closed = st.gi(RC) == 1;
        if let Some(f) = vfield(e, t, v, &is_reader) {
            let x = vproj(e, cur, v, f);
            let ft = e.ty(t).variants[v as usize].fields[f as usize].1;
            let some = e.variant(st, x, ft);
            if closed && some != Some(0) {
                self.bad(e, st, "C19", "a closed receiver is opened by a rejoin", "the receiver was dropped before the rejoin, but the new connection keeps a receive buffer that nobody reads");
            }
            if !closed && some != Some(1) {
                self.bad(e, st, "C19", "an open receiver is closed by a rejoin", "the receiver is in use, but the new connection has no receive buffer after the rejoin");
            }
        }
        if let Some(f) = vfield(e, t, v, &is_bool) {
            let x = vproj(e, cur, v, f);
            if e.known(st, x) != Some(closed as i128) {
                self.bad(e, st, "C19", "the state of the receiver is lost in a rejoin", "after the rejoin the new connection does not record whether the receiver is closed");
            }
        }
    }
}

impl Mon for Cl {
    fn leaf(&self, e: &Eng, f: &FnD) -> bool {
        is_transmit(e, f) || is_hub_recv(e, f) || is_join(e, f) || is_encode(e, f) || is_validate(e, f)
    }
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        if let Some((class, kind)) = lock_class(e, &c.rp, &c.targs) {
            if let models::Out::Ret(v) = models::model(e, st, c) {
                let g = e.project(v, P::D(0));
                let g = e.project(g, P::F(0));
                self.acquire(e, st, c, class, kind, Some(g));
                return self.cases(e, st, g, v);
            }
            return Act::Default;
        }
        let q = c.rp.as_str();
        if let Some(f) = c.f {
            let fd = e.f(f).clone();
            if fd.blocks.is_some() {
                if is_encode(e, &fd) {
                    let v = op("enc_msg", vec![c.args[0]]);
                    st.gset(MSGP, int(0), v);
                    return Act::Ret(v);
                }
                if is_validate(e, &fd) {
                    return Act::Leaf;
                }
                if is_transmit(e, &fd) {
                    return self.transmit(e, st, c, f);
                }
                if is_hub_recv(e, &fd) {
                    return self.hub(e, st, c, f);
                }
                if is_join(e, &fd) {
                    return self.join(e, st, c, f);
                }
            }
        }
        if q.starts_with("std::sync::mpsc::") && (q.ends_with("Sender::<T>::send") || q.ends_with("SyncSender::<T>::send")) {
            e.site("queueing for the controller", site(e, c));
            if st.gi(TX) == 1 || st.gi(TX) == 4 {
                self.bad(e, st, "C18", "a message is sent twice", "the message is queued for the controller after it was handed over already");
            }
            if let Some(m) = st.g(MSGP, int(0)) {
                if c.args[1] != m {
                    self.bad(e, st, "C18", "another message is queued", "what is queued for the controller is not the message given to send");
                }
            }
            st.gseti(TX, 4);
            st.gseti(WAKE, 0);
            return Act::Ret(models::ok(c.ret, crate::val::unit()));
        }
        if q.starts_with("std::sync::mpsc::Receiver") && q.ends_with("::recv") {
            self.unbounded(e, st, c);
        }
        if libc(c) == Some("write") {
            // raising the counter the controller waits for
            let n = c.args.get(1).copied().unwrap_or(int(0));
            let t = (0..e.prog.types.len() as u32).find(|t| e.ty(*t).s == "u64");
            let v = e.load(st, n, t);
            e.site("waking the controller", site(e, c));
            if st.gi(TX) == 4 {
                st.gseti(WAKE, 1);
            }
            if e.known(st, v) == Some(0) {
                self.bad(e, st, "C23", "the controller is not woken", "the wake-up counter is raised by nothing");
            }
            let mut out = vec![];
            let mut s = st.clone();
            let n = e.fresh(&mut s, c.ctx, c.bb, 9);
            if e.bound(&mut s, n, Some(1), None) {
                out.push((s, n));
            }
            return Act::Forks(out);
        }
        Act::Default
    }
    fn on_assume(&mut self, e: &mut Eng, st: &mut State, v: Val, n: Option<i128>) {
        // the generation changed: somebody else repaired the connection
        let _ = n;
        let mut v = v;
        while let Some(a) = is_op(v, "not") {
            v = a[0];
        }
        let ne = match (is_op(v, "eq"), is_op(v, "ne")) {
            (Some(_), _) => e.known(st, v) == Some(0),
            (_, Some(_)) => e.known(st, v) == Some(1),
            _ => false,
        };
        let eq = match (is_op(v, "eq"), is_op(v, "ne")) {
            (Some(_), _) => e.known(st, v) == Some(1),
            (_, Some(_)) => e.known(st, v) == Some(0),
            _ => false,
        };
        if eq {
            if let Some((g, t, cur)) = self.rule(e, st, true) {
                if let (Some(cv), Some(x)) = (self.client_variant(e, t), is_op(g, "guard")) {
                    if let Some(f) = vfield(e, t, cv, &is_u32) {
                        let cure = vproj(e, cur, cv, f);
                        let gp = op("guardptr", vec![x[0], x[1]]);
                        let a = is_op(v, "eq").or(is_op(v, "ne")).unwrap();
                        if a.contains(&cure) && a.iter().any(|x| *x != cure && !contains(*x, gp)) {
                            st.gset(EQOK, int(0), cure);
                        }
                    }
                }
            }
        }
        if ne && st.gi(LOST) == 1 {
            if let Some((_, t, cur)) = self.rule(e, st, false) {
                if let Some(cv) = self.client_variant(e, t) {
                    if let Some(f) = vfield(e, t, cv, &is_u32) {
                        let cure = vproj(e, cur, cv, f);
                        let a = is_op(v, "eq").or(is_op(v, "ne")).unwrap();
                        if a.contains(&cure) {
                            st.gseti(LOST, 0);
                            if st.gi(TX) == 2 {
                                st.gseti(TX, 0);
                            }
                        }
                    }
                }
            }
        }
    }
    fn on_drop(&mut self, e: &mut Eng, st: &mut State, ty: TyId, v: Val, _c: CellId, _p: &[P]) {
        if e.ty(ty).path.starts_with("std::sync::poison::") && e.ty(ty).path.ends_with("Guard") {
            self.installed(e, st, v);
            if st.g(HELD, v).is_some() {
                st.gdel(HELD, v);
                return;
            }
            // an unknown guard: of the same class
            self.bad(e, st, "C20", "a guard is lost track of", "a lock is released that the analysis did not see acquired");
        }
    }
    fn on_panic(&mut self, e: &mut Eng, st: &mut State, what: &str, terms: &[Val]) {
        let _ = terms;
        if self.name == "root_send" {
            self.bad(e, st, "C18", &format!("send panics: {what}"), "send panics instead of returning an error");
        }
        if self.name == "root_recv" {
            // a receiver that is in use was not closed
            if let Some((_, t, cur)) = self.rule(e, st, false) {
                if let Some(v) = self.client_variant(e, t) {
                    if let Some(f) = vfield(e, t, v, &is_bool) {
                        let x = vproj(e, cur, v, f);
                        if e.variant(st, cur, t) == Some(v) && e.known(st, x) != Some(1) && what.contains("expect") {
                            self.bad(e, st, "C19", "recv panics after a failed rejoin", "a receive that found the connection missing (an earlier rejoin failed) panics instead of rejoining");
                        }
                    }
                }
            }
        }
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        e.count("returns");
        if !self.held(st).is_empty() {
            self.bad(e, st, "C20", "a lock is held on return", "an operation returns without releasing a lock");
        }
        let t = match self.ret {
            Some(t) => t,
            None => return,
        };
        let (_, et) = match result_args(e, t) {
            Some(x) => x,
            None => return,
        };
        let v = e.variant(st, ret, t);
        let je = st.gi(JERR);
        if self.name == "root_send" {
            match v {
                Some(0) => {
                    if st.gi(TX) != 1 && st.gi(TX) != 4 {
                        self.bad(e, st, "C18", "success without handing the message over", "send returns success on a path where neither the connection nor the controller's queue accepted the message");
                    }
                    if st.gi(TX) == 4 && st.gi(WAKE) != 1 {
                        self.bad(e, st, "C23", "the controller is not woken", "a message is queued for the controller, but the controller is not woken afterwards");
                    }
                }
                Some(_) => {
                    if st.gi(TX) == 1 || st.gi(TX) == 4 {
                        self.bad(e, st, "C18", "failure although the message was handed over", "send returns an error on a path where the message was accepted");
                    }
                    if st.gi(LOST) == 1 && je == 0 {
                        self.bad(e, st, "C18+C19", "a lost connection is reported instead of repaired", "send returns an error although the connection was merely lost and no rejoin failed");
                    }
                }
                None => self.bad(e, st, "C18", "the result is not known", "send returns a result that is neither known to be success nor failure"),
            }
        }
        if self.name == "root_recv" && v == Some(1) && st.gi(LOST) == 1 && je == 0 {
            self.bad(e, st, "C19", "a lost connection is reported instead of repaired", "recv returns an error although the connection was merely lost and no rejoin failed");
        }
        if je > 0 {
            // the reason survives
            let x = e.project(ret, P::D(1));
            let x = e.project(x, P::F(0));
            let jt = (0..e.prog.types.len() as u32).find(|t| named(e, *t, "JoinError"));
            let want = jt.map(|t| e.ty(t).variants[(je - 1) as usize].name.clone());
            let got = e.variant(st, x, et).map(|i| (i, e.ty(et).variants[i as usize].name.clone()));
            if v != Some(1) {
                self.bad(e, st, "C02+C19", "a failed rejoin is ignored", "a rejoin failed, but the operation returns success");
            } else {
                match (want, got) {
                    (Some(a), Some((i, b))) => {
                        if a != b {
                            self.bad(e, st, "C02+C29", &format!("{a} of a rejoin is reported as {b}"), "the reason why a rejoin failed is reported as another one");
                        } else if a == "VersionMismatch" {
                            let y = e.project(x, P::D(i));
                            let y = e.project(y, P::F(0));
                            if st.g(JVAL, int(0)) != Some(y) {
                                self.bad(e, st, "C02", "the version of the bus is lost", "the version reported with a version mismatch is not the one the rejoin failed with");
                            }
                        }
                    }
                    _ => self.bad(e, st, "C02+C29", "the reason of a failed rejoin is not known", "the reason why a rejoin failed is not carried over to the result"),
                }
            }
        }
    }
}

impl Cl {
    /// tell the states of the endpoint apart
    fn cases(&mut self, e: &mut Eng, st: &State, g: Val, ret: Val) -> Act {
        let a = match is_op(g, "guard") {
            Some(a) if as_int(a[2]) != Some(0) => a.to_vec(),
            _ => return Act::Ret(ret),
        };
        let t = match (0..e.prog.types.len() as u32).find(|t| is_rule(e, *t)) {
            Some(t) => t,
            None => return Act::Ret(ret),
        };
        let cur = e.load(st, op("guardptr", vec![a[0], a[1]]), Some(t));
        let cv = match self.client_variant(e, t) {
            Some(v) => v,
            None => return Act::Ret(ret),
        };
        let mut out = vec![];
        let d = e.disc_of(cur, t);
        for v in 0..e.ty(t).variants.len() as u32 {
            let mut s = st.clone();
            if !e.assume(&mut s, d, v as i128) {
                continue;
            }
            if v != cv {
                s.gseti(CASE, 1);
                // a controller is never lost
                s.gseti(LOST, 0);
                out.push((s, ret));
                continue;
            }
            let mut cs = vec![(s, 2)];
            for (pred, tag) in [(&is_bool as &dyn Fn(&Eng, TyId) -> bool, 0), (&is_reader, 1)] {
                if let Some(f) = vfield(e, t, cv, pred) {
                    let ft = e.ty(t).variants[cv as usize].fields[f as usize].1;
                    let x = vproj(e, cur, cv, f);
                    let x = if tag == 1 { e.disc_of(x, ft) } else { x };
                    let mut next = vec![];
                    for (s, n) in cs {
                        for b in [0, 1] {
                            let mut s = s.clone();
                            if e.assume(&mut s, x, b) {
                                next.push((s, n * 2 + b));
                            }
                        }
                    }
                    cs = next;
                }
            }
            for (mut s, n) in cs {
                s.gseti(CASE, n);
                out.push((s, ret));
            }
        }
        Act::Forks(out)
    }
    fn transmit(&mut self, e: &mut Eng, st: &mut State, c: &Call, f: FnId) -> Act {
        e.site("transmission", site(e, c));
        self.leaf_locks(e, st, c, f);
        let (m, mt) = match arg_named(e, c, "EncodedMessage") {
            Some(x) => x,
            None => return Act::Leaf,
        };
        let v = arg_content(e, st, m, mt);
        if st.g(MSGP, int(0)) != Some(v) {
            self.bad(e, st, "C18", "another message is transmitted", "what is transmitted is not the message given to send");
        }
        match st.gi(TX) {
            1 | 4 => self.bad(e, st, "C18", "a message is sent twice", "the message is transmitted after it was handed over already"),
            3 => self.bad(e, st, "C34", "a refused message is transmitted again", "the message is transmitted again after the connection refused it"),
            _ => {}
        }
        if st.gi(LOST) == 1 {
            self.bad(e, st, "C18+C19", "a lost connection is not repaired", "the message is transmitted again over a connection that was found lost");
        }
        if let Some((r, rt)) = arg_named(e, c, "Remote") {
            if let Some((g, _, _)) = self.rule(e, st, false) {
                let a = is_op(g, "guard").unwrap();
                let p = op("guardptr", vec![a[0], a[1]]);
                let (cc, _) = e.target(r, e.pointee(rt));
                let cur = contains(r, p) || matches!(cell(cc), Cell::Der(q) if q == p || contains(q, p));
                if !cur {
                    self.bad(e, st, "C18", "the message is transmitted over another connection", "the connection used is not the endpoint's current one");
                }
            }
        }
        let (_, et) = result_args(e, c.ret).unwrap();
        let mut out = vec![];
        let mut s = st.clone();
        s.gseti(TX, 1);
        out.push((s, models::ok(c.ret, crate::val::unit())));
        for (n, k) in [("Disconnect", 2), ("IoError", 3)] {
            if let Some(i) = variant_no(e, et, n) {
                let mut s = st.clone();
                s.gseti(TX, k);
                if k == 2 {
                    s.gseti(LOST, 1);
                }
                let fs: Vec<Val> = (0..e.ty(et).variants[i as usize].fields.len()).map(|j| e.fresh(&mut s, c.ctx, c.bb, 20 + j as u32)).collect();
                out.push((s, models::err(c.ret, mk(N::Agg(et, i, fs)))));
            }
        }
        Act::Forks(out)
    }
    fn hub(&mut self, e: &mut Eng, st: &mut State, c: &Call, f: FnId) -> Act {
        e.site("wait for a message", site(e, c));
        self.leaf_locks(e, st, c, f);
        let i = c.argtys.iter().position(|t| is_opt_duration(e, *t));
        if i.map_or(true, |i| e.variant(st, c.args[i], c.argtys[i]) != Some(1)) {
            self.unbounded(e, st, c);
        }
        if st.gi(LOST) == 1 {
            self.bad(e, st, "C19", "a lost connection is not repaired", "a message is waited for on a connection that was found lost");
        }
        let (_, et) = result_args(e, c.ret).unwrap();
        let mut out = vec![];
        let mut s = st.clone();
        // the hub's state changes
        let _ = e.leaf_result(&mut s, c);
        let v = e.fresh(&mut s, c.ctx, c.bb, 1);
        out.push((s, models::ok(c.ret, v)));
        for i in 0..e.ty(et).variants.len() as u32 {
            let n = e.ty(et).variants[i as usize].name.clone();
            if !["Timeout", "Disconnect", "VersionMismatch", "Decode"].contains(&n.as_str()) {
                continue;
            }
            let mut s = st.clone();
            let _ = e.leaf_result(&mut s, c);
            if n != "Timeout" {
                s.gseti(LOST, 1);
            }
            let fs: Vec<Val> = (0..e.ty(et).variants[i as usize].fields.len()).map(|k| e.fresh(&mut s, c.ctx, c.bb, 10 + i * 4 + k as u32)).collect();
            out.push((s, models::err(c.ret, mk(N::Agg(et, i, fs)))));
        }
        Act::Forks(out)
    }
    fn join(&mut self, e: &mut Eng, st: &mut State, c: &Call, f: FnId) -> Act {
        e.site("rejoin", site(e, c));
        self.leaf_locks(e, st, c, f);
        if st.gi(TX) == 3 {
            self.bad(e, st, "C34", "a refused message makes send rejoin", "a rejoin is started although the connection is alive and merely refused the message");
        }
        let (g, t, cur) = match self.rule(e, st, true) {
            Some(x) => x,
            None => {
                self.bad(e, st, "C19", "a rejoin without exclusive access", "a rejoin is started without holding the endpoint's lock exclusively: both halves may rejoin");
                return Act::Leaf;
            }
        };
        let cv = match self.client_variant(e, t) {
            Some(v) => v,
            None => return Act::Leaf,
        };
        // nobody else rejoined since the loss was noticed
        let gp = {
            let a = is_op(g, "guard").unwrap();
            op("guardptr", vec![a[0], a[1]])
        };
        if let (Some(ef), Some(i)) = (vfield(e, t, cv, &is_u32), c.argtys.iter().position(|t| is_u32(e, *t))) {
            let cure = vproj(e, cur, cv, ef);
            let mut base = c.args[i];
            let mut add = 0;
            if let N::Op("add", a) = nd(base) {
                if let Some(n) = as_int(a[1]) {
                    add = n;
                    base = a[0];
                } else if let Some(n) = as_int(a[0]) {
                    add = n;
                    base = a[1];
                }
            }
            let missing = self.missing(e, st, cur, t, cv);
            let same = |st: &State| {
                st.g(EQOK, int(0)) == Some(cure) || st.facts.iter().any(|(k, fact)| {
                    fact.eq == Some(1)
                        && match is_op(*k, "eq") {
                            Some(a) => a.contains(&cure) && a.iter().any(|x| *x != cure && (contains(*x, gp) == false)),
                            None => false,
                        }
                })
            };
            if st.gi(LOST) == 1 && !same(st) {
                self.bad(e, st, "C19", "a rejoin that somebody else may have done", "a rejoin is started on a path where it was not checked, under the exclusive lock, that the connection is still the one that was found lost");
            }
            if st.gi(LOST) == 0 && !same(st) && !missing {
                self.bad(e, st, "C19", "a rejoin of a live connection", "a rejoin is started although the connection was not found lost");
            }
            let eqb = base == cure || st.facts.iter().any(|(k, f)| f.eq == Some(1) && matches!(is_op(*k, "eq"), Some(a) if a.contains(&base) && a.contains(&cure)));
            if eqb && add.rem_euclid(1 << 32) == 0 {
                self.bad(e, st, "C19", "a rejoin is not recognisable", "the generation of the connection does not change with a rejoin: the other half would rejoin once more");
            }
        } else {
            self.bad(e, st, "C19", "a rejoin that somebody else may have done", "connections carry no generation that tells whether the other half rejoined already");
        }
        // the original options
        if let (Some(of), Some(i)) = (vfield(e, t, cv, &|e, t| named(e, t, "Options")), c.argtys.iter().position(|t| named(e, *t, "Options"))) {
            let want = vproj(e, cur, cv, of);
            if c.args[i] != want && !self.same_parts(e, st, c.args[i], want, c.argtys[i]) {
                self.bad(e, st, "C19", "a rejoin with other options", &format!("the rejoin does not use the endpoint's original options: {} instead of {}", show(c.args[i]), show(want)));
            }
        }
        // was the receiver closed before
        let bf = vfield(e, t, cv, &is_bool);
        let mut outs = vec![];
        let closed: Vec<(State, bool)> = match bf {
            Some(f) => {
                let x = vproj(e, cur, cv, f);
                let mut v = vec![];
                for b in [true, false] {
                    let mut s = st.clone();
                    if e.assume(&mut s, x, b as i128) {
                        v.push((s, b));
                    }
                }
                v
            }
            None => vec![(st.clone(), false)],
        };
        for (s0, b) in closed {
            let mut s0 = s0;
            s0.gseti(RC, if b { 1 } else { 2 });
            s0.gseti(LOST, 0);
            if s0.gi(TX) == 2 {
                s0.gseti(TX, 0);
            }
            // success: a client or the controller
            for v in 0..e.ty(t).variants.len() as u32 {
                let mut s = s0.clone();
                let fields = e.ty(t).variants[v as usize].fields.clone();
                let mut fs = vec![];
                for (k, f) in fields.iter().enumerate() {
                    let x = e.fresh(&mut s, c.ctx, c.bb, 40 + v * 10 + k as u32);
                    let arg = c.argtys.iter().position(|a| *a == f.1 && !is_opt_duration(e, *a));
                    fs.push(if is_reader(e, f.1) {
                        models::some(f.1, x)
                    } else if is_bool(e, f.1) {
                        int(0)
                    } else if let (Some(i), true) = (arg, v == cv) {
                        c.args[i]
                    } else {
                        x
                    });
                }
                let new = mk(N::Agg(t, v, fs));
                s.gset(NEWR, int(0), new);
                s.gset(LOCKED, int(0), g);
                s.gseti(NEWV, v as i128 + 1);
                outs.push((s, models::ok(c.ret, new)));
            }
            let (_, et) = result_args(e, c.ret).unwrap();
            for i in 0..e.ty(et).variants.len() as u32 {
                let mut s = s0.clone();
                s.gseti(JERR, i as i128 + 1);
                let fs: Vec<Val> = (0..e.ty(et).variants[i as usize].fields.len()).map(|k| e.fresh(&mut s, c.ctx, c.bb, 80 + i * 4 + k as u32)).collect();
                if let Some(x) = fs.first() {
                    s.gset(JVAL, int(0), *x);
                }
                outs.push((s, models::err(c.ret, mk(N::Agg(et, i, fs)))));
            }
        }
        Act::Forks(outs)
    }
    /// the connection is known to be missing although the receiver is open
    fn missing(&self, e: &mut Eng, st: &State, cur: Val, t: TyId, cv: u32) -> bool {
        match vfield(e, t, cv, &is_reader) {
            Some(f) => {
                let ft = e.ty(t).variants[cv as usize].fields[f as usize].1;
                let x = vproj(e, cur, cv, f);
                e.variant(st, x, ft) == Some(0)
            }
            None => false,
        }
    }
    /// field by field copies
    fn same_parts(&self, e: &mut Eng, st: &State, a: Val, b: Val, t: TyId) -> bool {
        let _ = st;
        let n = match e.ty(t).k {
            Kind::Struct => e.ty(t).variants[0].fields.len(),
            _ => return false,
        };
        if !matches!(nd(a), N::Agg(..)) {
            return false;
        }
        (0..n as u32).all(|i| {
            let (x, y) = (e.project(a, P::F(i)), e.project(b, P::F(i)));
            let ok = x == y || crate::models::s_content(x) == crate::models::s_content(y);
            ok
        })
    }
}

/// a payload that cannot be encoded
struct Prep;
impl Mon for Prep {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        if c.p.ends_with("MessageBox::encode") {
            e.site("encoding of a payload", site(e, c));
            let mut a = st.clone();
            let v = e.fresh(&mut a, c.ctx, c.bb, 1);
            let mut b = st.clone();
            b.gseti(JERR, 1);
            let x = e.fresh(&mut b, c.ctx, c.bb, 2);
            return Act::Forks(vec![(a, models::ok(c.ret, v)), (b, models::err(c.ret, x))]);
        }
        Act::Default
    }
    fn on_panic(&mut self, e: &mut Eng, st: &mut State, what: &str, _terms: &[Val]) {
        if st.gi(JERR) == 1 && !what.starts_with("arithmetic") {
            e.report(st, "send panics when the payload cannot be encoded", "a payload whose encoding fails makes send panic instead of returning an error".into());
        }
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, _ret: Val) {
        e.count("returns");
        if st.gi(JERR) == 1 {
            e.report(st, "a payload that cannot be encoded is sent", "a message is prepared although its payload could not be encoded".into());
        }
    }
}

/// the operations of an endpoint
const OPS: &[&str] = &["root_send", "root_recv", "root_receiver_drop", "root_sender_drop", "root_sender_clone"];

pub fn client(id: &'static str, env: &Env, rep: &mut Rep) {
    let mut e = env.core();
    e.focus_repo(40);
    let locks = Rc::new(RefCell::new(Locks::default()));
    for n in OPS {
        let f = match root(&e, n) {
            Some(f) => f,
            None => continue,
        };
        let ret = rty(e.f(f));
        let m = Cl { want: id, root: f, name: n.to_string(), ret, locks: locks.clone() };
        run(&mut e, rep, f, Box::new(m), &mut |_, _| {});
    }
    if id == "C18" {
        let fs: Vec<FnId> = match root(&e, "root_send") {
            Some(r) => closure(&e, &[r]).into_iter().filter(|f| is_encode(&e, e.f(*f)) && e.f(*f).blocks.is_some()).collect(),
            None => vec![],
        };
        for f in fs {
            rep.site("preparation of a message", e.f(f).p.clone());
            run(&mut e, rep, f, Box::new(Prep), &mut |_, _| {});
        }
    }
    rep.floor("rejoin", 1);
    rep.floor("transmission", 1);
    if id == "C20" {
        rep.floor("acquisition of a lock", 2);
        if let Some(f) = controller(&e) {
            for (c, k) in locks_of(&e, f) {
                if k != 1 {
                    locks.borrow_mut().excl.insert((c, "controller".into()));
                }
            }
        }
        lock_report(rep, &locks.borrow());
    }
}
fn lock_report(rep: &mut Rep, l: &Locks) {
    for ((a, b), w) in &l.order {
        rep.site("lock order", format!("{a} before {b}: {w}"));
        // is a reachable from b
        let mut seen = BTreeSet::from([b.clone()]);
        let mut todo = vec![b.clone()];
        while let Some(x) = todo.pop() {
            for ((p, q), _) in &l.order {
                if *p == x && seen.insert(q.clone()) {
                    todo.push(q.clone());
                }
            }
        }
        if seen.contains(a) {
            rep.bad(&format!("lock order: {a} and {b}"), format!("{b} is acquired while {a} is held, but elsewhere they are acquired in the opposite order"), w.clone());
        }
    }
    for ((c, who), w) in &l.waits {
        for (x, other) in &l.excl {
            let receiver = |n: &str| n == "root_recv" || n == "root_receiver_drop";
            if x == c && !(receiver(who) && receiver(other)) {
                rep.bad(&format!("{c} is held while {} waits for a message", who.trim_start_matches("root_")), format!("a message is waited for without bound while {c} is held, which {} acquires exclusively", other.trim_start_matches("root_")), w.clone());
            }
        }
    }
}
