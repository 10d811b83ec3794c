//! The wake-up of the controller by messages sent within its process: the waiting half of C23.
use super::controller::*;
use super::deadline::*;
use super::errno;
use super::util::*;
use super::*;
use crate::models;
use std::cell::Cell;

const STALE: u16 = 150; // 1: the queue was not found empty since the last wake-up
const EFD: u16 = 151; // wake-up descriptors: 1 created, 2 registered
const EPOLLIN: i128 = 1;
const EPOLLONESHOT: i128 = 1 << 30;

fn is_queue(e: &Eng, t: TyId) -> bool {
    let ty = e.ty(t);
    ty.path.starts_with("std::sync::mpsc::") && last(&ty.path) == "Receiver" && ty.args.first().map_or(false, |a| is_enc(e, *a))
}

/// the hub of the controller
struct Hub {
    /// the hub and the way to its queue
    this: Rc<RefCell<Option<(Val, TyId)>>>,
}
impl Hub {
    /// the hub is known to have no queue
    fn none(&self, e: &mut Eng, st: &State) -> bool {
        let (p, t) = match *self.this.borrow() {
            Some(x) => x,
            None => return false,
        };
        let hub = e.load(st, p, Some(t));
        for path in paths_to(e, t, &|e, t| e.ty(t).path == "core::option::Option" && e.ty(t).args.first().map_or(false, |a| holds(e, *a, &is_queue))) {
            let mut ot = t;
            for p in &path {
                ot = match e.prog.field_ty(ot, 0, if let P::F(i) = p { *i } else { continue }) {
                    Some(x) => x,
                    None => return false,
                };
            }
            let v = along(e, hub, &path);
            if e.variant(st, v, ot) == Some(0) {
                return true;
            }
        }
        false
    }
}
impl Mon for Hub {
    fn leaf(&self, e: &Eng, f: &FnD) -> bool {
        is_from_local(e, f)
    }
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        if let Some(a) = errno::call(e, st, c) {
            return a;
        }
        let q = c.rp.as_str();
        if q.starts_with("std::sync::mpsc::Receiver") {
            let m = last(q).to_string();
            if ["try_recv", "recv_timeout", "recv"].contains(&m.as_str()) {
                e.site("look at the queue", site(e, c));
                let mut out = vec![];
                let mut s = st.clone();
                let v = e.fresh(&mut s, c.ctx, c.bb, 1);
                s.gseti(STALE, 1);
                out.push((s, models::ok(c.ret, v)));
                if let Some((_, et)) = result_args(e, c.ret) {
                    for i in 0..(e.ty(et).variants.len().max(1)) as u32 {
                        let mut s = st.clone();
                        s.gseti(STALE, 0);
                        out.push((s, models::err(c.ret, mk(N::Agg(et, i, vec![])))));
                    }
                }
                return Act::Forks(out);
            }
            if m == "try_iter" || m == "iter" {
                e.site("look at the queue", site(e, c));
            }
        }
        match libc(c) {
            Some("epoll_wait" | "epoll_pwait" | "epoll_pwait2" | "poll" | "ppoll" | "select" | "pselect") => {
                e.site("wait for events", site(e, c));
                if st.gi(STALE) == 1 && !self.none(e, st) {
                    e.report(st, "the controller waits without looking at its queue", "the controller waits for events on a path where its queue was not found empty since the last wake-up: a message queued before that wake-up stays there while the controller sleeps".into());
                }
                let mut out = vec![];
                let mut s = st.clone();
                let n = e.fresh(&mut s, c.ctx, c.bb, 2);
                if e.bound(&mut s, n, Some(1), None) {
                    s.gseti(STALE, 1);
                    out.push((s, n));
                }
                out.push((st.clone(), int(0)));
                out.extend(errno::fails(st, &[errno::EINTR]));
                return Act::Forks(out);
            }
            Some("read") => {
                // the wake-up counter is reset
                st.gseti(STALE, 1);
                return Act::Leaf;
            }
            _ => {}
        }
        Act::Default
    }
}

/// registrations of descriptors
struct Reg {
    fin: bool,
    esc: Rc<Cell<bool>>,
}
impl Mon for Reg {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        match libc(c) {
            Some("eventfd") => {
                e.site("wake-up descriptor", site(e, c));
                let v = e.fresh(st, c.ctx, c.bb, 1);
                st.gset(EFD, v, int(1));
                return Act::Ret(v);
            }
            Some("epoll_ctl") => {
                e.site("registration for events", site(e, c));
                let op = c.args.get(1).and_then(|v| as_int(*v));
                let fd = c.args[2];
                if op == Some(2) {
                    st.gdel(EFD, fd);
                    return Act::Leaf;
                }
                if st.g(EFD, fd).is_some() {
                    st.gset(EFD, fd, int(2));
                }
                let t = c.argtys.get(3).and_then(|t| e.pointee(*t));
                let ev = e.load(st, c.args[3], t);
                if let Some(t) = t {
                    if let Some(i) = e.ty(t).variants.first().and_then(|v| v.fields.iter().position(|f| f.0 == "events")) {
                        let v = e.project(ev, P::F(i as u32));
                        let (must, may) = bits(v);
                        if !self.fin && from_param(v) {
                            self.esc.set(true);
                        } else {
                            if must & EPOLLIN == 0 {
                                e.report(st, "a descriptor is registered without its input events", "a descriptor is registered for events other than input: wake-ups and messages are not noticed".into());
                            }
                            if may.map_or(true, |m| m & EPOLLONESHOT != 0) {
                                e.report(st, "a descriptor is registered for one event only", "a descriptor is registered for a single event: wake-ups after the first are not noticed".into());
                            }
                        }
                    }
                }
                return Act::Leaf;
            }
            _ => {}
        }
        Act::Default
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, _ret: Val) {
        e.count("returns");
        if st.gkeys(EFD).iter().any(|(_, v)| as_int(*v) == Some(1)) {
            if !self.fin {
                self.esc.set(true);
            } else {
                e.report(st, "the wake-up descriptor is not registered", "the descriptor that wakes the controller is not among the descriptors it waits for".into());
            }
        }
    }
}

pub fn c23(env: &Env, rep: &mut Rep) {
    let mut e = env.core();
    for f in hubs(&e) {
        let this = Rc::new(RefCell::new(None));
        let t2 = this.clone();
        let ht = peel(&e, par(e.f(f))[0]);
        run(&mut e, rep, f, Box::new(Hub { this }), &mut |e, st| {
            let c = e.local(st.ctx, 1);
            let v = e.read(st, c, &[]);
            *t2.borrow_mut() = Some((v, ht));
            st.gseti(STALE, 1);
        });
    }
    rep.floor("look at the queue", 1);
    rep.floor("wait for events", 1);
    let starts: BTreeSet<FnId> = repo_calls(&e).into_iter().filter(|(_, _, c, _)| matches!(libc_name(&c.p), Some("eventfd" | "epoll_ctl"))).map(|x| x.0).collect();
    units(&mut e, rep, starts, &|fin, esc| Box::new(Reg { fin, esc }));
    rep.floor("wake-up descriptor", 1);
    rep.floor("registration for events", 1);
}
