//! Helpers shared by the rules.
use crate::eng::*;
use crate::prog::*;
use crate::rel::edges;
use crate::val::*;
use std::collections::{BTreeSet, HashSet};

pub fn libc_name(p: &str) -> Option<&str> {
    if p.starts_with("libc::") {
        p.rsplit("::").next()
    } else {
        None
    }
}
pub fn libc<'a>(c: &'a Call) -> Option<&'a str> {
    libc_name(&c.rp).or_else(|| libc_name(&c.p))
}

/// Entry points of the analysed program: everything a user can call.
pub fn api_roots(e: &Eng) -> Vec<FnId> {
    e.prog.fns.iter().filter(|f| f.krate == "ipmb_fixture" && f.blocks.is_some() && f.p.starts_with("ipmb_fixture::root_") && f.p != "ipmb_fixture::root_life").map(|f| f.id).collect()
}
/// Bodies of the closures handed to thread spawning functions.
pub fn spawned(e: &Eng) -> Vec<FnId> {
    let mut out = BTreeSet::new();
    for f in &e.prog.fns {
        if !is_repo(f) {
            continue;
        }
        for b in f.blocks.iter().flatten().flatten() {
            if let Term::Call(Func::Static(c), args, ..) = &b.term {
                if c.rp.starts_with("std::thread::") && c.rp.contains("spawn") {
                    for a in args {
                        if let Some(t) = e.op_ty(f, a) {
                            if let Some(b) = e.ty(t).body {
                                out.insert(b);
                            }
                        }
                    }
                }
            }
        }
    }
    out.into_iter().collect()
}
/// The thread that runs the bus controller: the spawned closure that receives from the hub.
pub fn controller(e: &Eng) -> Option<FnId> {
    let rel = crate::rel::reaching(e, &|n| libc_name(n) == Some("recvmsg"), &|_| false, &|_| false);
    spawned(e).into_iter().find(|f| rel.contains(f))
}
pub fn root(e: &Eng, name: &str) -> Option<FnId> {
    e.prog.fns.iter().find(|f| f.krate == "ipmb_fixture" && f.p == format!("ipmb_fixture::{name}") && f.blocks.is_some()).map(|f| f.id)
}
pub fn callees(e: &Eng, f: FnId) -> Vec<FnId> {
    if e.f(f).blocks.is_none() {
        return vec![];
    }
    let mut v = edges(e, e.f(f)).0;
    v.sort();
    v.dedup();
    v
}
/// All functions reachable from the given ones.
pub fn closure(e: &Eng, fs: &[FnId]) -> HashSet<FnId> {
    let mut seen: HashSet<FnId> = fs.iter().copied().collect();
    let mut todo: Vec<FnId> = fs.to_vec();
    while let Some(x) = todo.pop() {
        for c in callees(e, x) {
            if seen.insert(c) {
                todo.push(c);
            }
        }
    }
    seen
}

/// Bits that are certainly set / possibly set in a flags value.
pub fn bits(v: Val) -> (i128, Option<i128>) {
    match nd(v) {
        N::Int(i) => (*i, Some(*i)),
        N::Op("bor", a) => {
            let (x, y) = (bits(a[0]), bits(a[1]));
            (x.0 | y.0, x.1.zip(y.1).map(|p| p.0 | p.1))
        }
        N::Op("band", a) => {
            let (x, y) = (bits(a[0]), bits(a[1]));
            let may = match (x.1, y.1) {
                (Some(p), Some(q)) => Some(p & q),
                (Some(p), None) | (None, Some(p)) => Some(p),
                _ => None,
            };
            (x.0 & y.0, may)
        }
        _ => (0, None),
    }
}

/// All call terms of the analysed crates: (function, block, callee).
pub fn repo_calls(e: &Eng) -> Vec<(FnId, u32, Callee, String)> {
    let mut out = vec![];
    for f in &e.prog.fns {
        if !is_repo(f) {
            continue;
        }
        for (i, b) in f.blocks.iter().flatten().enumerate() {
            if let Some(b) = b {
                if let Term::Call(func, _, _, _, _) = &b.term {
                    let c = match func {
                        Func::Static(c) => Some(c.clone()),
                        Func::Op(o) => e.op_ty(f, o).and_then(|t| e.ty(t).callee.clone()),
                    };
                    if let Some(c) = c {
                        out.push((f.id, i as u32, c, b.span.clone()));
                    }
                }
            }
        }
    }
    out
}
/// Site name without line numbers: function and callee.
pub fn site(e: &Eng, c: &Call) -> String {
    format!("{} in {}", c.rp.rsplit("::").next().unwrap_or(""), e.repo_fn(c.ctx))
}

/// does the value depend on an argument of the analysed function
pub fn from_param(v: Val) -> bool {
    atoms(v).iter().any(|a| match a {
        At::A(x) => matches!(nd(*x), N::Param(_)),
        At::C(c) => match cell(*c) {
            Cell::Der(x) => matches!(nd(x), N::Param(_)),
            _ => false,
        },
    })
}
/// Analyse the given functions on their own; a function whose verdict depends on its arguments
/// (the monitor sets the flag) is replaced by its callers.
pub fn units(e: &mut Eng, rep: &mut super::Rep, starts: BTreeSet<FnId>, mk: &dyn Fn(bool, std::rc::Rc<std::cell::Cell<bool>>) -> Box<dyn Mon>) {
    units_f(e, rep, starts, &|_, fin, esc| mk(fin, esc))
}
pub fn units_f(e: &mut Eng, rep: &mut super::Rep, starts: BTreeSet<FnId>, mk: &dyn Fn(FnId, bool, std::rc::Rc<std::cell::Cell<bool>>) -> Box<dyn Mon>) {
    let mut callers: std::collections::HashMap<FnId, BTreeSet<FnId>> = Default::default();
    let ids: Vec<FnId> = e.prog.fns.iter().filter(|f| f.blocks.is_some()).map(|f| f.id).collect();
    for f in ids {
        for c in callees(e, f) {
            callers.entry(c).or_default().insert(f);
        }
    }
    let mut seen: HashSet<FnId> = starts.iter().copied().collect();
    let mut todo: Vec<(FnId, u32)> = starts.iter().map(|f| (*f, 0)).collect();
    while let Some((f, d)) = todo.pop() {
        let up = callers.get(&f).cloned().unwrap_or_default();
        let fin = up.is_empty() || d > 6;
        let esc = std::rc::Rc::new(std::cell::Cell::new(false));
        super::run(e, rep, f, mk(f, fin, esc.clone()), &mut |_, _| {});
        if esc.get() {
            for u in up {
                if seen.insert(u) {
                    todo.push((u, d + 1));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- types
/// parameter types of a function
pub fn par(f: &FnD) -> &[TyId] {
    if f.locals.len() > f.ac as usize {
        &f.locals[1..=f.ac as usize]
    } else {
        &[]
    }
}
/// its return type
pub fn rty(f: &FnD) -> Option<TyId> {
    f.locals.first().copied().or(f.ret)
}
pub fn last(p: &str) -> &str {
    p.rsplit("::").next().unwrap_or(p)
}
/// type behind references and boxes
pub fn peel(e: &Eng, mut t: TyId) -> TyId {
    loop {
        let ty = e.ty(t);
        t = match ty.k {
            Kind::Ref | Kind::Ptr => match ty.elem {
                Some(x) => x,
                None => return t,
            },
            _ if ty.is_box => match ty.args.first() {
                Some(x) => *x,
                None => return t,
            },
            _ => return t,
        };
    }
}
/// is it the type of that name of the analysed crates
pub fn named(e: &Eng, t: TyId, name: &str) -> bool {
    let ty = e.ty(t);
    matches!(ty.k, Kind::Struct | Kind::Enum | Kind::Union) && ty.krate.starts_with("ipmb") && last(&ty.path) == name
}
fn parts(e: &Eng, t: TyId) -> Vec<TyId> {
    let ty = e.ty(t);
    let mut out: Vec<TyId> = ty.variants.iter().flat_map(|v| v.fields.iter().map(|f| f.1)).collect();
    out.extend(&ty.fields);
    out.extend(&ty.args);
    out.extend(ty.elem);
    out
}
/// does the type contain (by value, in a container or behind a pointer) a type satisfying the predicate
pub fn holds(e: &Eng, t: TyId, pred: &dyn Fn(&Eng, TyId) -> bool) -> bool {
    fn go(e: &Eng, t: TyId, pred: &dyn Fn(&Eng, TyId) -> bool, seen: &mut HashSet<TyId>) -> bool {
        if !seen.insert(t) {
            return false;
        }
        pred(e, t) || parts(e, t).into_iter().any(|x| go(e, x, pred, seen))
    }
    go(e, t, pred, &mut HashSet::new())
}
pub fn holds_named(e: &Eng, t: TyId, name: &str) -> bool {
    holds(e, t, &|e, t| named(e, t, name))
}
pub fn is_instant(e: &Eng, t: TyId) -> bool {
    e.ty(t).path.starts_with("std::time::Instant") || e.ty(t).path == "std::time::Instant"
}
/// path to the first part (structs and tuples only, breadth first) satisfying the predicate
pub fn path_to(e: &Eng, t: TyId, pred: &dyn Fn(&Eng, TyId) -> bool) -> Option<Vec<P>> {
    let mut q = std::collections::VecDeque::from([(t, vec![])]);
    let mut n = 0;
    while let Some((t, p)) = q.pop_front() {
        if pred(e, t) {
            return Some(p);
        }
        n += 1;
        if n > 300 {
            return None;
        }
        let ty = e.ty(t);
        match ty.k {
            Kind::Struct => {
                if ty.krate.starts_with("ipmb") {
                    for (i, f) in ty.variants[0].fields.iter().enumerate() {
                        let mut p = p.clone();
                        p.push(P::F(i as u32));
                        q.push_back((f.1, p));
                    }
                }
            }
            Kind::Tuple => {
                for (i, f) in ty.fields.iter().enumerate() {
                    let mut p = p.clone();
                    p.push(P::F(i as u32));
                    q.push_back((*f, p));
                }
            }
            _ => {}
        }
    }
    None
}
/// paths to all parts (structs and tuples only) satisfying the predicate
pub fn paths_to(e: &Eng, t: TyId, pred: &dyn Fn(&Eng, TyId) -> bool) -> Vec<Vec<P>> {
    fn go(e: &Eng, t: TyId, p: &mut Vec<P>, d: u32, pred: &dyn Fn(&Eng, TyId) -> bool, out: &mut Vec<Vec<P>>) {
        if pred(e, t) {
            out.push(p.clone());
            return;
        }
        if d > 6 {
            return;
        }
        let ty = e.ty(t);
        let fs: Vec<TyId> = match ty.k {
            Kind::Struct if ty.krate.starts_with("ipmb") => ty.variants[0].fields.iter().map(|f| f.1).collect(),
            Kind::Tuple | Kind::Closure => ty.fields.clone(),
            _ => vec![],
        };
        for (i, f) in fs.into_iter().enumerate() {
            p.push(P::F(i as u32));
            go(e, f, p, d + 1, pred, out);
            p.pop();
        }
    }
    let mut out = vec![];
    go(e, t, &mut vec![], 0, pred, &mut out);
    out
}
pub fn along(e: &Eng, mut v: Val, path: &[P]) -> Val {
    for p in path {
        v = e.project(v, *p);
    }
    v
}
/// the enum variant number of that name
pub fn variant_no(e: &Eng, t: TyId, name: &str) -> Option<u32> {
    e.ty(t).variants.iter().position(|v| v.name == name).map(|i| i as u32)
}
/// (Ok type, Err type) of a Result type
pub fn result_args(e: &Eng, t: TyId) -> Option<(TyId, TyId)> {
    let ty = e.ty(t);
    if ty.path == "core::result::Result" && ty.args.len() == 2 {
        Some((ty.args[0], ty.args[1]))
    } else {
        None
    }
}
/// first argument whose (peeled) type has the name: (index, value, type)
pub fn arg_named(e: &Eng, c: &Call, name: &str) -> Option<(Val, TyId)> {
    c.args.iter().zip(&c.argtys).find(|(_, t)| named(e, peel(e, **t), name)).map(|(v, t)| (*v, *t))
}
/// value of an argument given by value or by reference
pub fn arg_content(e: &mut Eng, st: &State, v: Val, t: TyId) -> Val {
    let k = e.ty(t).k.clone();
    if matches!(k, Kind::Ref | Kind::Ptr) {
        let pt = e.pointee(t);
        let x = e.load(st, v, pt);
        match pt {
            Some(p) if matches!(e.ty(p).k, Kind::Ref | Kind::Ptr) => arg_content(e, st, x, p),
            _ => x,
        }
    } else {
        v
    }
}

/// element type of the sequence an iterator step goes through
pub fn next_ty(e: &Eng, c: &Call) -> Option<TyId> {
    let it = c.argtys.first().map(|t| peel(e, *t));
    if let Some(it) = it {
        if e.ty(it).path.ends_with("::BTreeMap") || e.ty(it).path.ends_with("::HashMap") {
            return e.ty(it).args.get(1).map(|t| peel(e, *t));
        }
        if let Some(t) = crate::models::seq_elem(e, it) {
            return Some(peel(e, t));
        }
    }
    if e.ty(c.ret).path == "core::option::Option" {
        let t = e.prog.field_ty(c.ret, 1, 0)?;
        let t = if e.ty(t).k == Kind::Tuple { *e.ty(t).fields.last()? } else { t };
        return Some(peel(e, t));
    }
    it.and_then(|t| e.ty(t).args.first().copied()).map(|t| peel(e, t))
}
