//! What a failed system call leaves in errno, kept by the monitors as an integer so that it
//! survives merges, and the library functions that read it.
use super::util::*;
use super::*;

pub const ERR: u16 = 200;

pub const EPERM: i128 = 1;
pub const ENOENT: i128 = 2;
pub const EINTR: i128 = 4;
pub const EAGAIN: i128 = 11;
pub const EACCES: i128 = 13;
pub const EINVAL: i128 = 22;
pub const EPIPE: i128 = 32;
pub const EMSGSIZE: i128 = 90;
pub const EADDRINUSE: i128 = 98;
pub const ECONNRESET: i128 = 104;
pub const ENOBUFS: i128 = 105;
pub const ENOTCONN: i128 = 107;
pub const ETOOMANYREFS: i128 = 109;
pub const ECONNREFUSED: i128 = 111;
/// any other value
pub const OTHER: i128 = -1;

const KINDS: &[(i128, &str)] = &[
    (EPERM, "PermissionDenied"),
    (ENOENT, "NotFound"),
    (EINTR, "Interrupted"),
    (EAGAIN, "WouldBlock"),
    (EACCES, "PermissionDenied"),
    (12, "OutOfMemory"),
    (17, "AlreadyExists"),
    (EINVAL, "InvalidInput"),
    (EPIPE, "BrokenPipe"),
    (EMSGSIZE, "Uncategorized"),
    (EADDRINUSE, "AddrInUse"),
    (ECONNRESET, "ConnectionReset"),
    (ENOBUFS, "Uncategorized"),
    (ENOTCONN, "NotConnected"),
    (ETOOMANYREFS, "Uncategorized"),
    (110, "TimedOut"),
    (ECONNREFUSED, "ConnectionRefused"),
];
pub fn name(n: i128) -> &'static str {
    match n {
        1 => "EPERM",
        2 => "ENOENT",
        4 => "EINTR",
        11 => "EAGAIN",
        13 => "EACCES",
        22 => "EINVAL",
        32 => "EPIPE",
        90 => "EMSGSIZE",
        98 => "EADDRINUSE",
        104 => "ECONNRESET",
        105 => "ENOBUFS",
        107 => "ENOTCONN",
        109 => "ETOOMANYREFS",
        111 => "ECONNREFUSED",
        _ => "another error",
    }
}

/// the failing outcomes of a system call
pub fn fails(st: &State, errnos: &[i128]) -> Vec<(State, Val)> {
    errnos
        .iter()
        .map(|n| {
            let mut s = st.clone();
            s.gseti(ERR, *n);
            (s, int(-1))
        })
        .collect()
}

/// the functions that read errno
pub fn call(e: &mut Eng, st: &mut State, c: &Call) -> Option<Act> {
    let q = &c.rp;
    let cur = st.gi(ERR);
    if q.ends_with("::last_os_error") {
        let v = if cur > 0 { int(cur) } else { e.fresh(st, c.ctx, c.bb, 60) };
        let v = if cur == OTHER { op("othererr", vec![v]) } else { v };
        return Some(Act::Ret(op("oserr", vec![v])));
    }
    if q.ends_with("::from_raw_os_error") {
        return Some(Act::Ret(op("oserr", vec![c.args[0]])));
    }
    if q.ends_with("io::error::Error::kind") || q.ends_with("io::error::Error::raw_os_error") {
        let v = arg_content(e, st, c.args[0], c.argtys[0]);
        let n = is_op(v, "oserr").map(|a| a[0])?;
        let raw = q.ends_with("raw_os_error");
        if let Some(i) = as_int(n) {
            if raw {
                return Some(Act::Ret(crate::models::some(c.ret, n)));
            }
            let k = KINDS.iter().find(|k| k.0 == i).map_or("Uncategorized", |k| k.1);
            if let Some(v) = variant_no(e, c.ret, k) {
                return Some(Act::Ret(mk(N::Agg(c.ret, v, vec![]))));
            }
        }
        let x = e.fresh(st, c.ctx, c.bb, 61);
        if is_op(n, "othererr").is_none() {
            return Some(Act::Ret(if raw { crate::models::some(c.ret, x) } else { x }));
        }
        if raw {
            for (i, _) in KINDS {
                e.exclude(st, x, *i);
            }
            return Some(Act::Ret(crate::models::some(c.ret, x)));
        }
        let d = e.disc_of(x, c.ret);
        for (_, k) in KINDS {
            if *k != "Uncategorized" {
                if let Some(v) = variant_no(e, c.ret, k) {
                    let dv = e.ty(c.ret).variants[v as usize].disc;
                    e.exclude(st, d, dv);
                }
            }
        }
        return Some(Act::Ret(x));
    }
    if libc(c) == Some("__errno_location") {
        let t = e.pointee(c.ret);
        let h = e.fresh_heap(st, c.ctx, c.bb, 62, t);
        let v = if cur > 0 { int(cur) } else { e.fresh(st, c.ctx, c.bb, 60) };
        st.mem.insert(h, v);
        return Some(Act::Ret(e.addr(&(h, vec![]))));
    }
    None
}
