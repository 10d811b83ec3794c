//! C24: every descriptor is close-on-exec from birth.  C26: writes to peers never raise SIGPIPE.
use super::util::*;
use super::*;
use std::cell::Cell;
use std::collections::HashSet;

const O_CLOEXEC: i128 = 0o2000000;
const MSG_CMSG_CLOEXEC: i128 = 0x40000000;
const MSG_NOSIGNAL: i128 = 0x4000;
const F_DUPFD: i128 = 0;
const F_SETFD: i128 = 2;
const F_DUPFD_CLOEXEC: i128 = 1030;

/// descriptor-creating functions: (name, argument with the flag, bit)
pub const MAKERS: &[(&str, usize, i128)] = &[
    ("socket", 1, O_CLOEXEC),
    ("socketpair", 1, O_CLOEXEC),
    ("accept4", 3, O_CLOEXEC),
    ("epoll_create1", 0, O_CLOEXEC),
    ("eventfd", 1, O_CLOEXEC),
    ("memfd_create", 1, 1),
    ("open", 1, O_CLOEXEC),
    ("openat", 2, O_CLOEXEC),
    ("pipe2", 1, O_CLOEXEC),
    ("dup3", 2, O_CLOEXEC),
    ("timerfd_create", 1, O_CLOEXEC),
    ("signalfd", 2, O_CLOEXEC),
    ("inotify_init1", 0, O_CLOEXEC),
    ("shm_open", 1, 0),
    ("mkostemp", 1, O_CLOEXEC),
];
/// descriptor-creating functions without a flag argument
pub const NEVER: &[&str] = &["accept", "epoll_create", "dup", "dup2", "pipe", "creat", "inotify_init", "mkstemp", "fdopendir", "signalfd4"];

struct M24 {
    fin: bool,
    esc: Rc<Cell<bool>>,
}
impl M24 {
    fn bad(&self, e: &mut Eng, st: &State, c: &Call, why: &str, vals: &[Val]) {
        if !self.fin && vals.iter().any(|v| from_param(*v)) {
            self.esc.set(true);
            return;
        }
        let k = format!("{}: {why}", site(e, c));
        e.report(st, &k, format!("{} creates a descriptor {why}; a program started by this process inherits it", c.rp));
    }
}
impl Mon for M24 {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        let n = match libc(c) {
            Some(n) => n.to_string(),
            None => return Act::Default,
        };
        if let Some((_, i, bit)) = MAKERS.iter().find(|m| m.0 == n) {
                e.site("descriptor source", site(e, c));
            let fl = c.args.get(*i).copied().unwrap_or_else(undef);
            if bits(fl).0 & bit != *bit {
                self.bad(e, st, c, "without the close-on-exec flag", &[fl]);
            }
        } else if NEVER.contains(&n.as_str()) {
            self.bad(e, st, c, "with no way to make it close-on-exec", &[]);
        } else if n == "fcntl" {
            let cmd = c.args.get(1).and_then(|v| as_int(*v));
            match cmd {
                Some(F_DUPFD) => self.bad(e, st, c, "with no way to make it close-on-exec", &[]),
                Some(F_SETFD) => {
                    let (must, _) = bits(c.args.get(2).copied().unwrap_or_else(undef));
                    if must & 1 == 0 {
                        self.bad(e, st, c, "and clears its close-on-exec flag", &c.args.clone());
                    }
                }
                Some(F_DUPFD_CLOEXEC) => e.site("descriptor source", site(e, c)),
                Some(_) => {}
                None => self.bad(e, st, c, "through an unknown command", &c.args.clone()),
            }
        } else if n == "ioctl" {
            if c.args.get(1).and_then(|v| as_int(*v)) == Some(0x5450) {
                self.bad(e, st, c, "and clears its close-on-exec flag", &c.args.clone());
            }
        } else if n == "recvmsg" || n == "recvmmsg" {
                // attachments are only installed when there is room for them
            let pt = e.pointee(c.argtys[1]);
            let h = e.load(st, c.args[1], pt);
            let room = pt.and_then(|t| e.prog.field(t, 0, "msg_control")).map(|i| e.project(h, P::F(i)));
            let len = pt.and_then(|t| e.prog.field(t, 0, "msg_controllen")).map(|i| e.project(h, P::F(i)));
            let none = room.map_or(false, |v| is_op(v, "null").is_some()) || len.map_or(false, |v| as_int(v) == Some(0));
            let (must, _) = bits(c.args[2]);
            e.site("descriptor source", format!("{}{}", site(e, c), if none { " (no attachments)" } else { "" }));
            if !none && must & MSG_CMSG_CLOEXEC == 0 {
                self.bad(e, st, c, "(attachment) without MSG_CMSG_CLOEXEC", &[c.args[2], room.unwrap_or_else(undef), len.unwrap_or_else(undef)]);
            }
        }
        Act::Default
    }
}

fn maker(n: &str) -> bool {
    match libc_name(n) {
        Some(l) => MAKERS.iter().any(|m| m.0 == l) || NEVER.contains(&l) || matches!(l, "fcntl" | "ioctl" | "recvmsg" | "recvmmsg"),
        None => false,
    }
}

/// Functions of the analysed program that call a function satisfying the predicate.
pub fn containing(e: &Eng, rep: &mut Rep, prog: &str, pred: &dyn Fn(&str) -> bool) -> BTreeSet<FnId> {
    let calls = repo_calls(e);
    rep.add("call_sites_scanned", calls.len() as u64);
    let mut out = BTreeSet::new();
    for (f, _, c, _) in calls {
        let own = if prog == "ipmb_fixture" { e.f(f).krate == "ipmb" } else { e.f(f).krate != "ipmb" };
        if own && (pred(&c.rp) || pred(&c.p)) {
            out.insert(f);
        }
    }
    rep.programs.insert(prog.into());
    out
}
pub const PROGS: [&str; 3] = ["ipmb_fixture", "ipmb_ffi", "ipmb_js"];

pub fn c24(env: &Env, rep: &mut Rep) {
    rep.rule = "flag propagation: every call that creates a descriptor has its close-on-exec bit set on every path (flags that come from a parameter are followed into all callers)".into();
    for prog in PROGS {
        let mut e = Eng::new(env.prog(prog));
        let todo = containing(&e, rep, prog, &maker);
        e.focus(&maker, &|_| false, 40);
        units(&mut e, rep, todo, &|fin, esc| Box::new(M24 { fin, esc }));
    }
    rep.floor("descriptor source", 5);
}

struct M26 {
    fin: bool,
    esc: Rc<Cell<bool>>,
}
impl Mon for M26 {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        let i = match libc(c) {
            Some("sendmsg") => 2,
            Some("send" | "sendto" | "sendmmsg") => 3,
            _ => return Act::Default,
        };
        e.site("write to a connection", site(e, c));
        let fl = c.args.get(i).copied().unwrap_or_else(undef);
        if bits(fl).0 & MSG_NOSIGNAL == 0 {
            if !self.fin && from_param(fl) {
                self.esc.set(true);
                return Act::Default;
            }
            let k = format!("{}: without MSG_NOSIGNAL", site(e, c));
            e.report(st, &k, format!("{} may raise SIGPIPE when the peer is gone: its flags do not always contain MSG_NOSIGNAL", c.rp));
        }
        Act::Default
    }
}
fn sender(n: &str) -> bool {
    matches!(libc_name(n), Some("sendmsg" | "sendmmsg" | "send" | "sendto"))
}
fn plain(n: &str) -> bool {
    matches!(libc_name(n), Some("write" | "writev" | "pwrite" | "sendfile" | "splice" | "tee" | "vmsplice"))
}

pub fn c26(env: &Env, rep: &mut Rep) {
    rep.rule = "flag propagation: every transmission on a socket carries MSG_NOSIGNAL on every path; descriptor provenance: plain writes only go to event counters".into();
    for prog in PROGS {
        let mut e = Eng::new(env.prog(prog));
        let todo = containing(&e, rep, prog, &sender);
        e.focus(&sender, &|_| false, 40);
        units(&mut e, rep, todo, &|fin, esc| Box::new(M26 { fin, esc }));
        let calls = repo_calls(&e);
        let mut pv = None;
        for (f, b, c, span) in calls {
            let own = if prog == "ipmb_fixture" { e.f(f).krate == "ipmb" } else { e.f(f).krate != "ipmb" };
            if own && plain(&c.rp) {
                let pv = pv.get_or_insert_with(|| crate::prov::Prov::new(&e));
                let args = match &e.f(f).blocks.as_ref().unwrap()[b as usize].as_ref().unwrap().term {
                    Term::Call(_, a, ..) => a.clone(),
                    _ => continue,
                };
                let src = pv.sources(&e, f, &args[0]);
                rep.site("plain write", format!("{} in {} to {:?}", c.rp, e.f(f).p, src));
                if src.is_empty() || src.iter().any(|s| s != "call libc::unix::linux_like::eventfd" && !s.ends_with("::eventfd")) {
                    rep.bad(&format!("{} in {}: plain write to a descriptor that is not an event counter", c.rp, e.f(f).p), format!("{} cannot suppress SIGPIPE and its descriptor may come from {:?}", c.rp, src), span);
                }
            }
        }
    }
    rep.floor("write to a connection", 1);
}
