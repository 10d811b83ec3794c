//! Meaning of the standard library, libc and third-party functions the analysed code uses.
//! Everything not listed here is an unknown function: it returns an unknown value and may change
//! everything its mutable pointer arguments point to.
use crate::eng::*;
use crate::prog::*;
use crate::val::*;

pub enum Out {
    Ret(Val),
    Forks(Vec<(State, Val)>),
    Stop,
    Body(FnId, Vec<Val>),
    No,
}

pub fn some(t: TyId, v: Val) -> Val {
    mk(N::Agg(t, 1, vec![v]))
}
pub fn none(t: TyId) -> Val {
    mk(N::Agg(t, 0, vec![]))
}
pub fn ok(t: TyId, v: Val) -> Val {
    mk(N::Agg(t, 0, vec![v]))
}
pub fn err(t: TyId, v: Val) -> Val {
    mk(N::Agg(t, 1, vec![v]))
}

/// The content of a string value (String, SmolStr, CString, ...).
pub fn s_content(v: Val) -> Val {
    match nd(v) {
        N::Op("string", a) => a[0],
        _ => v,
    }
}
/// The content behind a &str.
pub fn str_content(v: Val) -> Val {
    match nd(v) {
        N::Str(_) => v,
        N::Op("strof", a) => s_content(a[0]),
        N::Op("str", a) => a[0],
        _ => mk(N::Deref(v)),
    }
}
fn str_of(v: Val) -> Val {
    let c = s_content(v);
    match nd(c) {
        N::Str(_) => c,
        N::Deref(p) => *p,
        _ => op("strof", vec![c]),
    }
}
fn is_stringy(e: &Eng, t: TyId) -> bool {
    matches!(e.ty(t).path.as_str(), "alloc::string::String" | "smol_str::SmolStr")
}
fn is_time(e: &Eng, t: TyId) -> bool {
    matches!(e.ty(t).path.as_str(), "core::time::Duration" | "std::time::Instant")
}

/// What a value denotes once references are followed.
pub fn content(e: &mut Eng, st: &State, v: Val, t: TyId) -> Val {
    let ty = e.ty(t);
    match ty.k {
        Kind::Ref | Kind::Ptr => {
            let pt = match ty.elem {
                Some(p) => p,
                None => return v,
            };
            match e.ty(pt).k {
                Kind::Str => str_content(v),
                Kind::Slice => {
                    let data = mk_data(v);
                    let n = mk_len(v);
                    if let N::Op("dataof", a) = nd(data) {
                        if mk_len(a[0]) == n {
                            return a[0];
                        }
                    }
                    let w = e.load(st, data, None);
                    if let N::Agg(_, _, f) = nd(w) {
                        if as_int(n) == Some(f.len() as i128) {
                            return w;
                        }
                    }
                    op("slice", vec![w, n])
                }
                Kind::Dyn => v,
                _ => {
                    let w = e.load(st, v, Some(pt));
                    content(e, st, w, pt)
                }
            }
        }
        _ if is_stringy(e, t) => s_content(v),
        _ => v,
    }
}

/// A slice over as many elements as the array it is compared with has is that whole array.
fn whole(x: Val, y: Val) -> Val {
    match (nd(x), nd(y)) {
        (N::Op("slice", a), N::Agg(_, _, f)) if as_int(a[1]) == Some(f.len() as i128) => a[0],
        _ => x,
    }
}

fn forks(e: &mut Eng, v: Vec<Option<(State, Val)>>) -> Out {
    let _ = e;
    Out::Forks(v.into_iter().flatten().collect())
}
fn with(e: &mut Eng, st: &State, facts: &[(Val, i128)], r: Val) -> Option<(State, Val)> {
    let mut s = st.clone();
    for (f, n) in facts {
        if !e.assume(&mut s, *f, *n) {
            return None;
        }
    }
    Some((s, r))
}

/// the iterator in the first argument counts
fn aty_int(e: &Eng, c: &Call) -> bool {
    c.argtys.first().and_then(|t| e.pointee(*t)).and_then(|t| e.ty(t).args.first().copied()).map_or(false, |t| e.ty(t).k == Kind::Uint)
}

/// Element type of a sequence-like type.
pub fn seq_elem(e: &Eng, t: TyId) -> Option<TyId> {
    let ty = e.ty(t);
    match ty.k {
        Kind::Ref | Kind::Ptr => ty.elem.and_then(|x| seq_elem(e, x)),
        Kind::Slice | Kind::Array => ty.elem,
        _ => match ty.path.as_str() {
            "alloc::vec::Vec" => ty.args.first().copied(),
            "smallvec::SmallVec" => ty.args.first().and_then(|a| e.ty(*a).elem),
            _ => None,
        },
    }
}

pub fn elem_ptr(e: &mut Eng, seq: Val, i: Val, et: Option<TyId>) -> Val {
    at_ptr(e, mk_data(seq), i, et)
}

/// Pointer to element `i` of the sequence starting at `data`.
fn at_ptr(e: &mut Eng, data: Val, i: Val, et: Option<TyId>) -> Val {
    match nd(data) {
        N::Ref(c, p) => {
            let mut p = p.clone();
            p.push(P::I(i));
            mk(N::Ref(*c, p))
        }
        _ => {
            let p = op("elem", vec![data, i]);
            if let Some(t) = et {
                let c = mk_cell(Cell::Der(p));
                e.celltype.entry(c).or_insert(t);
            }
            p
        }
    }
}

fn callable(e: &Eng, t: TyId) -> Option<(FnId, bool)> {
    let ty = e.ty(t);
    if let Some(b) = ty.body {
        return Some((b, true));
    }
    if let Some(c) = &ty.callee {
        if let Some(r) = c.r {
            return Some((r, false));
        }
    }
    if matches!(ty.k, Kind::Ref) {
        return ty.elem.and_then(|x| callable(e, x));
    }
    None
}

fn pl(l: u32) -> Place {
    Place { local: l, proj: vec![] }
}
fn plf(l: u32, p: Vec<Proj>) -> Place {
    Place { local: l, proj: p }
}
fn cp(l: u32) -> Operand {
    Operand::Copy(pl(l))
}
fn blk(stmts: Vec<Stmt>, term: Term) -> Option<Block> {
    Some(Block { stmts, term, span: String::new() })
}
fn prim(p: &str) -> Func {
    Func::Static(Callee { p: p.into(), rp: p.into(), ..Default::default() })
}
fn direct(e: &Eng, f: FnId) -> Func {
    let p = e.f(f).p.clone();
    Func::Static(Callee { p: "sa::invoke".into(), rp: p, r: Some(f), ..Default::default() })
}

fn install(e: &mut Eng, key: String, locals: Vec<TyId>, ac: u32, blocks: Vec<Option<Block>>) -> FnId {
    let id = (e.prog.fns.len() + e.extra.len()) as FnId;
    let f = FnD { id, p: key.clone(), krate: "sa".into(), ac, locals, blocks: Some(blocks), ..Default::default() };
    e.extra.push(f);
    e.synth.insert(key, id);
    id
}

/// retain / retain_mut: `args[0]` the collection, `args[1]` the predicate.
fn retain(e: &mut Eng, vt: TyId, ft: TyId, map: bool) -> Option<FnId> {
    let key = format!("sa::retain#{vt}#{ft}");
    if let Some(f) = e.synth.get(&key) {
        return Some(*f);
    }
    let (body, is_closure) = callable(e, ft)?;
    let u = e.prog.unk;
    let call = direct(e, body);
    // _1 = &mut Vec, _2 = F, _3 = Option<elem>, _4 = bool, _5 = elem, _6 = &mut F, _7 = ()
    let mut args = vec![];
    if is_closure {
        args.push(if e.ty(ft).k == Kind::Ref { cp(2) } else { cp(6) });
    }
    if map {
        args.push(Operand::Copy(plf(5, vec![Proj::Field(0, u)])));
        args.push(Operand::Copy(plf(5, vec![Proj::Field(1, u)])));
    } else {
        args.push(cp(5));
    }
    let bt = u;
    let blocks = vec![
        blk(vec![Stmt::Assign(pl(6), Rv::Ref(pl(2), true, false), 0)], Term::Goto(1)),
        blk(vec![], Term::Call(prim(if map { "sa::map_next" } else { "sa::next" }), vec![cp(1)], pl(3), Some(2), u)),
        blk(vec![Stmt::Assign(pl(8), Rv::Disc(pl(3)), 0)], Term::Switch(cp(8), vec![(0, 6)], 3)),
        blk(vec![Stmt::Assign(pl(5), Rv::Use(Operand::Copy(plf(3, vec![Proj::Down(1), Proj::Field(0, u)]))), 0)], Term::Call(call, args, pl(4), Some(4), bt)),
        blk(vec![], Term::Switch(cp(4), vec![(0, 5)], 1)),
        blk(vec![], Term::Call(prim("sa::remove"), vec![cp(1), cp(5)], pl(7), Some(1), u)),
        blk(vec![], Term::Call(prim("sa::retain_end"), vec![cp(1)], pl(0), Some(7), u)),
        blk(vec![], Term::Ret),
    ];
    Some(install(e, key, vec![u, vt, ft, u, u, u, u, u, u], 2, blocks))
}

/// `args[0]` iterator by value, result: collection of all its items.
fn collect(e: &mut Eng, it: TyId, into: Option<TyId>) -> Option<FnId> {
    let key = format!("sa::collect#{it}#{into:?}");
    if let Some(f) = e.synth.get(&key) {
        return Some(*f);
    }
    let next = e.ty(it).next?;
    let u = e.prog.unk;
    let nt = e.f(next).locals.first().copied().unwrap_or(e.f(next).ret.unwrap_or(u));
    let np = e.f(next).p.clone();
    let nf = Func::Static(Callee { p: np.clone(), rp: np, r: Some(next), ..Default::default() });
    // extend: _1 = &mut Vec, _2 = iterator; collect: _2 = iterator, _3 the collection
    let (blocks, ac, locals) = if into.is_some() {
        (
            vec![
                blk(vec![Stmt::Assign(pl(6), Rv::Ref(pl(2), true, false), 0)], Term::Goto(1)),
                blk(vec![], Term::Call(nf, vec![cp(6)], pl(4), Some(2), nt)),
                blk(vec![Stmt::Assign(pl(8), Rv::Disc(pl(4)), 0)], Term::Switch(cp(8), vec![(0, 4)], 3)),
                blk(vec![], Term::Call(prim("sa::push"), vec![cp(1), Operand::Move(plf(4, vec![Proj::Down(1), Proj::Field(0, u)]))], pl(7), Some(1), u)),
                blk(vec![Stmt::Assign(pl(0), Rv::Agg(AggK::Tuple, vec![]), 0)], Term::Ret),
            ],
            2,
            vec![u, u, it, u, nt, u, ref_to(e, it), u, u],
        )
    } else {
        (
            vec![
                blk(vec![Stmt::Assign(pl(6), Rv::Ref(pl(1), true, false), 0), Stmt::Assign(pl(5), Rv::Ref(pl(3), true, false), 0)], Term::Call(prim("sa::vec_new"), vec![], pl(3), Some(1), u)),
                blk(vec![], Term::Call(nf, vec![cp(6)], pl(4), Some(2), nt)),
                blk(vec![Stmt::Assign(pl(8), Rv::Disc(pl(4)), 0)], Term::Switch(cp(8), vec![(0, 4)], 3)),
                blk(vec![], Term::Call(prim("sa::push"), vec![cp(5), Operand::Move(plf(4, vec![Proj::Down(1), Proj::Field(0, u)]))], pl(7), Some(1), u)),
                blk(vec![Stmt::Assign(pl(0), Rv::Use(Operand::Move(pl(3))), 0)], Term::Ret),
            ],
            1,
            vec![u, it, u, u, nt, u, ref_to(e, it), u, u],
        )
    };
    Some(install(e, key, locals, ac, blocks))
}

/// fold: `args` = iterator by value, initial value, function.
fn fold(e: &mut Eng, it: TyId, ft: TyId, unit_acc: bool) -> Option<FnId> {
    let key = format!("sa::fold#{it}#{ft}#{unit_acc}");
    if let Some(f) = e.synth.get(&key) {
        return Some(*f);
    }
    let next = e.ty(it).next?;
    let (body, is_closure) = callable(e, ft)?;
    let u = e.prog.unk;
    let nt = e.f(next).locals.first().copied().unwrap_or(u);
    let np = e.f(next).p.clone();
    let nf = Func::Static(Callee { p: np.clone(), rp: np, r: Some(next), ..Default::default() });
    let call = direct(e, body);
    // _1 iterator, _2 accumulator, _3 function
    let mut args = vec![];
    if is_closure {
        args.push(if e.ty(ft).k == Kind::Ref { cp(3) } else { cp(5) });
    }
    if !unit_acc {
        args.push(Operand::Move(pl(2)));
    }
    args.push(Operand::Move(plf(4, vec![Proj::Down(1), Proj::Field(0, u)])));
    let blocks = vec![
        blk(vec![Stmt::Assign(pl(6), Rv::Ref(pl(1), true, false), 0), Stmt::Assign(pl(5), Rv::Ref(pl(3), true, false), 0)], Term::Goto(1)),
        blk(vec![], Term::Call(nf, vec![cp(6)], pl(4), Some(2), nt)),
        blk(vec![Stmt::Assign(pl(8), Rv::Disc(pl(4)), 0)], Term::Switch(cp(8), vec![(0, 4)], 3)),
        blk(vec![], Term::Call(call, args, pl(2), Some(1), u)),
        blk(vec![Stmt::Assign(pl(0), Rv::Use(Operand::Move(pl(2))), 0)], Term::Ret),
    ];
    let rt = ref_to(e, it);
    Some(install(e, key, vec![u, it, u, ft, nt, u, rt, u, u], 3, blocks))
}
/// any / all / find / position / find_map over a slice: `args` = &mut iterator, function.
fn search(e: &mut Eng, it: TyId, ft: TyId, ret: TyId, kind: &str) -> Option<FnId> {
    let key = format!("sa::search#{kind}#{it}#{ft}");
    if let Some(f) = e.synth.get(&key) {
        return Some(*f);
    }
    let next = e.ty(e.pointee(it)?).next?;
    let (body, is_closure) = callable(e, ft)?;
    let u = e.prog.unk;
    let nt = e.f(next).locals.first().copied().unwrap_or(u);
    let np = e.f(next).p.clone();
    let nf = Func::Static(Callee { p: np.clone(), rp: np, r: Some(next), ..Default::default() });
    let call = direct(e, body);
    // _1 iterator, _2 function, _3 next, _4 element, _5 &mut F, _6 result of F, _7 &element, _9 index
    let mut args = vec![];
    if is_closure {
        args.push(if e.ty(ft).k == Kind::Ref { cp(2) } else { cp(5) });
    }
    args.push(if kind == "find" { cp(7) } else { cp(4) });
    let bt = e.prog.types.iter().position(|t| t.k == Kind::Bool).map_or(u, |i| i as u32);
    let tr = |b: bool| Rv::Use(Operand::Const(bt, CV::Int(b as i128), String::new()));
    let opt = |v: u32, f: Vec<Operand>| Rv::Agg(AggK::Adt(ret, v, None), f);
    let (hit_on, hit, miss) = match kind {
        "any" => (true, tr(true), tr(false)),
        "all" => (false, tr(false), tr(true)),
        "find" => (true, opt(1, vec![Operand::Move(pl(4))]), opt(0, vec![])),
        "position" => (true, opt(1, vec![cp(9)]), opt(0, vec![])),
        "find_map" => (true, Rv::Use(Operand::Move(pl(6))), opt(0, vec![])),
        _ => return None,
    };
    let test = if kind == "find_map" { 8 } else { 6 };
    let blocks = vec![
        blk(vec![Stmt::Assign(pl(5), Rv::Ref(pl(2), true, false), 0)], Term::Goto(1)),
        blk(vec![], Term::Call(nf, vec![cp(1)], pl(3), Some(2), nt)),
        blk(vec![Stmt::Assign(pl(8), Rv::Disc(pl(3)), 0)], Term::Switch(cp(8), vec![(0, 6)], 3)),
        blk(
            vec![
                Stmt::Assign(pl(4), Rv::Use(Operand::Copy(plf(3, vec![Proj::Down(1), Proj::Field(0, u)]))), 0),
                Stmt::Assign(pl(7), Rv::Ref(pl(4), false, false), 0),
            ],
            Term::Call(call, args, pl(6), Some(4), u),
        ),
        blk(vec![Stmt::Assign(pl(8), Rv::Disc(pl(6)), 0)], Term::Switch(cp(test), vec![(0, if hit_on { 1 } else { 5 })], if hit_on { 5 } else { 1 })),
        blk(vec![], Term::Call(prim("sa::position"), vec![cp(4), cp(1)], pl(9), Some(7), u)),
        blk(vec![Stmt::Assign(pl(0), miss, 0)], Term::Ret),
        blk(vec![Stmt::Assign(pl(0), hit, 0)], Term::Ret),
    ];
    let et = e.prog.field_ty(nt, 1, 0).unwrap_or(u);
    let fr = ref_to(e, ft);
    let er = ref_to(e, et);
    Some(install(e, key, vec![ret, it, ft, nt, et, fr, u, er, u, u], 2, blocks))
}
/// the type of a mutable reference to `t`
fn ref_to(e: &Eng, t: TyId) -> TyId {
    (0..e.prog.types.len() as u32).find(|i| e.ty(*i).k == Kind::Ref && e.ty(*i).elem == Some(t)).unwrap_or(e.prog.unk)
}

/// An unknown function that takes closures: each of them may be called any number of times.
fn unknown_ho(e: &mut Eng, c: &Call) -> Option<FnId> {
    let mut cl = vec![];
    for (i, t) in c.argtys.iter().enumerate() {
        let mut t = *t;
        let mut by_ref = false;
        if e.ty(t).k == Kind::Ref {
            if let Some(x) = e.ty(t).elem {
                t = x;
                by_ref = true;
            }
        }
        if e.ty(t).k == Kind::Closure {
            if let Some(b) = e.ty(t).body {
                if e.f(b).blocks.is_some() {
                    cl.push((i as u32 + 1, b, by_ref));
                }
            }
        }
    }
    if cl.is_empty() {
        return None;
    }
    let key = format!("sa::unknown#{}#{:?}", c.rp, c.argtys);
    if let Some(f) = e.synth.get(&key) {
        return Some(*f);
    }
    e.count("unmodelled higher-order functions");
    let u = e.prog.unk;
    let n = c.args.len() as u32;
    // locals: 0 ret, 1..n args, n+1 choice, n+2 receiver, n+3 result, n+4.. unknown arguments
    let mut locals = vec![c.ret];
    locals.extend(c.argtys.iter().copied());
    locals.extend([u, u, u, u, u, u, u]);
    let mut blocks: Vec<Option<Block>> = vec![];
    let nb = cl.len() as u32;
    // 0: choose; 1: ret; then 2 blocks per closure
    let cases = (0..nb).map(|i| (i as i128 + 1, 2 + i)).collect();
    blocks.push(blk(vec![], Term::Call(prim("sa::choose"), vec![], pl(n + 1), Some(2 + nb), u)));
    blocks.push(blk(vec![], Term::Call(prim("sa::unknown"), (1..=n).map(cp).collect(), pl(0), Some(3 + nb), c.ret)));
    for (l, b, by_ref) in &cl {
        let ac = e.f(*b).ac;
        let selfty = e.f(*b).locals.get(1).copied().unwrap_or(u);
        let by_val = !matches!(e.ty(selfty).k, Kind::Ref);
        let recv = if by_val || *by_ref { Rv::Use(cp(*l)) } else { Rv::Ref(pl(*l), true, false) };
        let mut args = vec![cp(n + 2)];
        for i in 1..ac {
            args.push(cp(n + 3 + i.min(3)));
        }
        blocks.push(blk(vec![Stmt::Assign(pl(n + 2), recv, 0)], Term::Call(direct(e, *b), args, pl(n + 3), Some(if by_val { 1 } else { 0 }), u)));
    }
    blocks.push(blk(vec![], Term::Call(prim("sa::unknown"), vec![], pl(n + 4), Some(4 + nb), u)));
    blocks.push(blk(vec![], Term::Ret));
    blocks.push(blk(vec![Stmt::Assign(pl(n + 5), Rv::Use(cp(n + 4)), 0), Stmt::Assign(pl(n + 6), Rv::Use(cp(n + 4)), 0)], Term::Switch(cp(n + 1), cases, 1)));
    Some(install(e, key, locals, n, blocks))
}

/// `Once::call_once`: when it returns the closure has run.
fn call_one(e: &mut Eng, c: &Call, i: usize) -> Option<FnId> {
    let t = *c.argtys.get(i)?;
    let b = e.ty(t).body.filter(|b| e.f(*b).blocks.is_some())?;
    let key = format!("sa::one#{}#{:?}", c.rp, c.argtys);
    if let Some(f) = e.synth.get(&key) {
        return Some(*f);
    }
    let selfty = e.f(b).locals.get(1).copied()?;
    let n = c.args.len() as u32;
    let mut locals = vec![c.ret];
    locals.extend(c.argtys.iter().copied());
    locals.extend([selfty, e.prog.unk]);
    let recv = if matches!(e.ty(selfty).k, Kind::Ref) { Rv::Ref(pl(i as u32 + 1), true, false) } else { Rv::Use(cp(i as u32 + 1)) };
    let blocks = vec![
        blk(vec![Stmt::Assign(pl(n + 1), recv, 0)], Term::Call(direct(e, b), vec![cp(n + 1)], pl(n + 2), Some(1), e.prog.unk)),
        blk(vec![], Term::Ret),
    ];
    Some(install(e, key, locals, n, blocks))
}

/// `OnceLock::get_or_init`: a reference to what the closure yields.
fn call_fill(e: &mut Eng, c: &Call) -> Option<FnId> {
    let t = *c.argtys.get(1)?;
    let b = e.ty(t).body.filter(|b| e.f(*b).blocks.is_some())?;
    let out = e.ty(c.ret).elem?;
    let key = format!("sa::fill#{}#{:?}", c.rp, c.argtys);
    if let Some(f) = e.synth.get(&key) {
        return Some(*f);
    }
    let selfty = e.f(b).locals.get(1).copied()?;
    let n = c.args.len() as u32;
    let mut locals = vec![c.ret];
    locals.extend(c.argtys.iter().copied());
    locals.extend([selfty, out]);
    let recv = if matches!(e.ty(selfty).k, Kind::Ref) { Rv::Ref(pl(2), true, false) } else { Rv::Use(cp(2)) };
    let blocks = vec![
        blk(vec![Stmt::Assign(pl(n + 1), recv, 0)], Term::Call(direct(e, b), vec![cp(n + 1)], pl(n + 2), Some(1), e.prog.unk)),
        blk(vec![], Term::Call(prim("sa::keep"), vec![cp(n + 2)], pl(0), Some(2), e.prog.unk)),
        blk(vec![], Term::Ret),
    ];
    Some(install(e, key, locals, n, blocks))
}

fn fresh_vec(e: &mut Eng, st: &mut State, c: &Call, tag: u32) -> Val {
    e.fresh(st, c.ctx, c.bb, tag)
}

/// The sequence value behind a slice or a pointer to a collection.
fn seq_of(e: &mut Eng, st: &State, v: Val, t: TyId) -> Val {
    let ty = e.ty(t);
    if let Kind::Ref | Kind::Ptr = ty.k {
        if let Some(p) = ty.elem {
            match e.ty(p).k {
                Kind::Slice | Kind::Str => return v,
                Kind::Array => {
                    let n = e.ty(p).n;
                    return mk(N::Fat(v, int(n)));
                }
                _ => {
                    let w = e.load(st, v, Some(p));
                    if matches!(e.ty(p).k, Kind::Ref) {
                        return seq_of(e, st, w, p);
                    }
                    return w;
                }
            }
        }
    }
    v
}

pub fn model(e: &mut Eng, st: &mut State, c: &Call) -> Out {
    let p = c.rp.as_str();
    let q = c.p.as_str();
    let a = &c.args;
    let t = &c.argtys;
    let arg = |i: usize| a.get(i).copied().unwrap_or_else(undef);
    let unk = e.prog.unk;
    let aty = move |i: usize| t.get(i).copied().unwrap_or(unk);

    if p == "std::sync::once::Once::call_once" {
        if let Some(f) = call_one(e, c, 1) {
            return Out::Body(f, a.clone());
        }
    }
    // the value of a cell that is filled once
    if matches!(p, "std::sync::once_lock::OnceLock::<T>::get_or_init" | "core::cell::once::OnceCell::<T>::get_or_init" | "std::sync::OnceLock::<T>::get_or_init" | "std::cell::OnceCell::<T>::get_or_init") {
        if let Some(f) = call_fill(e, c) {
            return Out::Body(f, a.clone());
        }
    }
    if p.starts_with("libc::") && p.ends_with("::sysconf") && as_int(arg(0)) == Some(30) {
        return Out::Ret(op("pagesize", vec![]));
    }

    if p.starts_with("<(core::ops::range::Bound<T>, core::ops::range::Bound<T>) as core::ops::range::RangeBounds") && p.ends_with("_bound") {
        let i = p.ends_with("end_bound") as u32;
        if let Some(bt) = e.pointee(aty(0)).and_then(|t| e.ty(t).fields.get(i as usize).copied()) {
            let (cell, path) = e.target(arg(0), e.pointee(aty(0)));
            let mut out = vec![];
            for v in 0..3u32 {
                let mut s = st.clone();
                let mut b = path.clone();
                b.push(P::F(i));
                let w = e.read(&mut s, cell, &b);
                let d = e.disc_of(w, bt);
                let k = e.ty(bt).variants.get(v as usize).map_or(v as i128, |x| x.disc);
                if !e.assume(&mut s, mk_eq(d, int(k)), 1) {
                    continue;
                }
                let fs = if v == 2 {
                    vec![]
                } else {
                    b.push(P::D(v));
                    b.push(P::F(0));
                    vec![mk(N::Ref(cell, b))]
                };
                out.push((s, mk(N::Agg(c.ret, v, fs))));
            }
            return Out::Forks(out);
        }
    }

    // ------------------------------------------------------------ descriptors
    if let Some(m @ ("from_raw_fd" | "as_raw_fd" | "into_raw_fd" | "as_fd" | "from")) = p.rsplit("::").next() {
        let owner = |t: TyId| {
            let mut t = t;
            while let Some(x) = e.pointee(t) {
                t = x;
            }
            matches!(e.ty(t).path.as_str(), "std::os::fd::owned::OwnedFd" | "std::os::fd::owned::BorrowedFd")
        };
        match m {
            "from_raw_fd" if owner(c.ret) => return Out::Ret(op("ofd", vec![arg(0)])),
            "as_raw_fd" | "into_raw_fd" if owner(aty(0)) => {
                let v = content(e, st, arg(0), aty(0));
                return Out::Ret(match nd(v) {
                    N::Op("ofd", a) => a[0],
                    _ => op("rawof", vec![v]),
                });
            }
            "as_fd" if owner(aty(0)) && owner(c.ret) => return Out::Ret(content(e, st, arg(0), aty(0))),
            _ => {}
        }
    }

    // ------------------------------------------------------------ primitives of synthesised bodies
    if q.starts_with("sa::") {
        match q {
            "sa::next" | "sa::map_next" => {
                let l = e.load(st, arg(0), None);
                let mut s1 = st.clone();
                emit_next(e, &mut s1, c, l, None);
                let r1 = none(c.ret);
                let mut s2 = st.clone();
                let s = e.fresh(&mut s2, c.ctx, c.bb, 1);
                let l2 = e.load(&s2, arg(0), None);
                let et = e.pointee(aty(0)).and_then(|x| seq_elem(e, x));
                let ep = elem_ptr(e, l2, s, et);
                emit_next(e, &mut s2, c, l2, Some(ep));
                let r2 = if q == "sa::map_next" {
                    let k = op("mapkey", vec![ep]);
                    some(c.ret, mk(N::Agg(c.ret, 0, vec![k, ep])))
                } else {
                    some(c.ret, ep)
                };
                return Out::Forks(vec![(s1, r1), (s2, r2)]);
            }
            "sa::remove" => {
                // one element left the collection
                return Out::Ret(unit());
            }
            "sa::retain_end" => {
                return Out::Ret(unit());
            }
            "sa::push" => {
                push(e, st, c, arg(0), arg(1));
                return Out::Ret(unit());
            }
            "sa::vec_new" => return Out::Ret(op("vec_new", vec![])),
            "sa::choose" => {
                let s = e.fresh(st, c.ctx, c.bb, 0);
                return Out::Ret(s);
            }
            "sa::keep" => {
                let ot = e.pointee(c.ret);
                let h = e.fresh_heap(st, c.ctx, c.bb, 1, ot);
                e.write_raw(st, h, &[], arg(0));
                let r = e.addr(&(h, vec![].into()));
                return Out::Ret(r);
            }
            "sa::position" => {
                // the index of an element that was found
                let i = match nd(arg(0)) {
                    N::Op("elem", a) => Some(a[1]),
                    N::Ref(_, p) => match p.last() {
                        Some(P::I(i)) => Some(*i),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(i) = i {
                    let it = e.load(st, arg(1), None);
                    if let N::Op("iter", a) = nd(it) {
                        let inb = mk_lt(i, mk_len(a[0]));
                        e.assume(st, inb, 1);
                    }
                    return Out::Ret(i);
                }
                let v = e.leaf_result(st, c);
                return Out::Ret(v);
            }
            "sa::unknown" => {
                let v = e.leaf_result(st, c);
                return Out::Ret(v);
            }
            _ => return Out::No,
        }
    }

    // ------------------------------------------------------------ slice and vec iterators
    match p {
        "<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next"
        | "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::next"
        | "<core::slice::iter::Iter<'a, T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back"
        | "<core::slice::iter::IterMut<'a, T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back"
        | "<alloc::collections::btree::map::RangeMut<'a, K, V> as core::iter::traits::iterator::Iterator>::next"
        | "<alloc::collections::btree::map::Range<'a, K, V> as core::iter::traits::iterator::Iterator>::next"
        | "<alloc::collections::btree::map::Iter<'a, K, V> as core::iter::traits::iterator::Iterator>::next"
        | "<alloc::collections::btree::map::IterMut<'a, K, V> as core::iter::traits::iterator::Iterator>::next"
        | "<alloc::collections::btree::map::ValuesMut<'a, K, V> as core::iter::traits::iterator::Iterator>::next"
        | "<alloc::collections::btree::map::Values<'a, K, V> as core::iter::traits::iterator::Iterator>::next"
        | "<alloc::vec::drain::Drain<'_, T, A> as core::iter::traits::iterator::Iterator>::next"
        | "<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::next"
        | "<smallvec::IntoIter<A> as core::iter::traits::iterator::Iterator>::next"
        | "<smallvec::Drain<'a, T> as core::iter::traits::iterator::Iterator>::next" => {
            let owned = p.contains("IntoIter") || p.contains("Drain");
            let map = p.contains("btree");
            let seqv = |e: &mut Eng, st: &State| -> Val {
                let it = e.load(st, arg(0), None);
                match nd(it) {
                    N::Op("iter" | "iter_rng" | "intoiter" | "drain", a) => a[0],
                    _ => it,
                }
            };
            let mut s1 = st.clone();
            let l1 = seqv(e, &s1);
            let mut out = vec![];
            emit_next(e, &mut s1, c, l1, None);
            let feas = match as_int(mk_len(l1)) {
                Some(0) => false,
                _ => true,
            };
            if e.assume_len_zero_ok(l1) {
                out.push((s1, none(c.ret)));
            }
            if feas {
                let mut s2 = st.clone();
                let s = e.fresh(&mut s2, c.ctx, c.bb, 1);
                let l2 = seqv(e, &s2);
                let et = iter_elem_ty(e, c.ret, owned);
                let ep = elem_ptr(e, l2, s, et);
                if map {
                    in_range(e, &mut s2, arg(0), ep);
                }
                emit_next(e, &mut s2, c, l2, Some(ep));
                let ot = e.prog.field_ty(c.ret, 1, 0).unwrap_or(c.ret);
                let v = if owned {
                    e.load(&s2, ep, et)
                } else if map && e.ty(ot).k == Kind::Tuple {
                    let k = op("mapkey", vec![ep]);
                    mk(N::Agg(ot, 0, vec![k, ep]))
                } else {
                    ep
                };
                out.push((s2, some(c.ret, v)));
            }
            return Out::Forks(out);
        }
        "core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::Range<A>>::next"
        | "core::iter::range::<impl core::iter::traits::double_ended::DoubleEndedIterator for core::ops::range::Range<A>>::next_back"
            if aty_int(e, c) =>
        {
            let t = e.pointee(aty(0));
            let r = e.load(st, arg(0), t);
            let (a, b) = (e.project(r, P::F(0)), e.project(r, P::F(1)));
            let back = p.ends_with("next_back");
            let lt = mk_lt(a, b);
            let mut o1 = with(e, st, &[(lt, 0)], none(c.ret));
            let v = if back { mk_add(b, int(-1)) } else { a };
            let mut o2 = with(e, st, &[(lt, 1)], some(c.ret, v));
            for (o, n) in [(&mut o1, 0), (&mut o2, 1)] {
                if let Some((s, _)) = o.as_mut() {
                    if let Some(mut m) = e.mon.take() {
                        m.on_assume(e, s, lt, Some(n));
                        e.mon = Some(m);
                    }
                }
            }
            if let Some((s, _)) = &mut o2 {
                let (cell, mut path) = e.target(arg(0), t);
                path.push(P::F(if back { 1 } else { 0 }));
                e.write_raw(s, cell, &path, if back { v } else { mk_add(a, int(1)) });
            }
            return forks(e, vec![o1, o2]);
        }
        "core::slice::<impl [T]>::iter" | "core::slice::<impl [T]>::iter_mut" => {
            return Out::Ret(op("iter", vec![arg(0)]));
        }
        "alloc::collections::btree::map::BTreeMap::<K, V, A>::range_mut"
        | "alloc::collections::btree::map::BTreeMap::<K, V, A>::range" => {
            let m = e.load(st, arg(0), None);
            return Out::Ret(op("iter_rng", vec![m, arg(1)]));
        }
        "alloc::collections::btree::map::BTreeMap::<K, V, A>::iter"
        | "alloc::collections::btree::map::BTreeMap::<K, V, A>::iter_mut"
        | "alloc::collections::btree::map::BTreeMap::<K, V, A>::values_mut"
        | "alloc::collections::btree::map::BTreeMap::<K, V, A>::values" => {
            let m = e.load(st, arg(0), None);
            return Out::Ret(op("iter", vec![m]));
        }
        "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a [T]>::into_iter"
        | "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a mut [T]>::into_iter" => {
            return Out::Ret(op("iter", vec![arg(0)]));
        }
        "<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter"
        | "<&'a mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter"
        | "<&'a smallvec::SmallVec<A> as core::iter::traits::collect::IntoIterator>::into_iter"
        | "<&'a mut smallvec::SmallVec<A> as core::iter::traits::collect::IntoIterator>::into_iter" => {
            let v = e.load(st, arg(0), None);
            return Out::Ret(op("iter", vec![mk(N::Fat(mk_data(v), mk_len(v)))]));
        }
        "<&'a alloc::collections::btree::map::BTreeMap<K, V, A> as core::iter::traits::collect::IntoIterator>::into_iter"
        | "<&'a mut alloc::collections::btree::map::BTreeMap<K, V, A> as core::iter::traits::collect::IntoIterator>::into_iter" => {
            let m = e.load(st, arg(0), None);
            return Out::Ret(op("iter", vec![m]));
        }
        "<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter"
        | "<smallvec::SmallVec<A> as core::iter::traits::collect::IntoIterator>::into_iter" => {
            return Out::Ret(op("intoiter", vec![arg(0)]));
        }
        "alloc::vec::Vec::<T, A>::drain" | "smallvec::SmallVec::<A>::drain" => {
            let v = e.load(st, arg(0), None);
            let full = e.ty(aty(1)).path == "core::ops::range::RangeFull";
            let nv = if full { op("vec_new", vec![]) } else { fresh_vec(e, st, c, 2) };
            e.store(st, arg(0), None, nv);
            return Out::Ret(op("drain", vec![v]));
        }
        "<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::fold"
        | "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::fold"
        | "<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::fold" => {
            if let Some(f) = fold(e, aty(0), aty(2), false) {
                return Out::Body(f, a.clone());
            }
        }
        "<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::for_each"
        | "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::for_each" => {
            if let Some(f) = fold(e, aty(0), aty(1), true) {
                return Out::Body(f, vec![arg(0), unit(), arg(1)]);
            }
        }
        _ if (p.starts_with("<core::slice::iter::Iter") || p.starts_with("core::iter::traits::iterator::Iterator::")) && matches!(last(p), "any" | "all" | "find" | "position" | "find_map") && a.len() == 2 => {
            if let Some(f) = search(e, aty(0), aty(1), c.ret, last(p)) {
                return Out::Body(f, a.clone());
            }
        }
        "<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::count"
        | "<core::slice::iter::Iter<'a, T> as core::iter::traits::exact_size::ExactSizeIterator>::len" => {
            let s = e.fresh(st, c.ctx, c.bb, 0);
            e.bound(st, s, Some(0), None);
            return Out::Ret(s);
        }
        "<alloc::vec::Vec<T> as alloc::vec::spec_from_iter::SpecFromIter<T, I>>::from_iter"
        | "<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator<T>>::from_iter"
        | "<smallvec::SmallVec<A> as core::iter::traits::collect::FromIterator<<A as smallvec::Array>::Item>>::from_iter" => {
            if let Some(f) = collect(e, aty(0), None) {
                return Out::Body(f, a.clone());
            }
        }
        "<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend"
        | "<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend"
        | "<smallvec::SmallVec<A> as core::iter::traits::collect::Extend<<A as smallvec::Array>::Item>>::extend" => {
            if e.ty(aty(1)).path == "alloc::vec::Vec" && e.ty(aty(0)).elem == Some(aty(1)) {
                // a whole list put into an empty one
                let old = e.load(st, arg(0), None);
                if as_int(mk_len(old)) == Some(0) {
                    e.store(st, arg(0), None, arg(1));
                    return Out::Ret(unit());
                }
            }
            if e.ty(aty(1)).next.is_some() {
                if let Some(f) = collect(e, aty(1), Some(aty(0))) {
                    return Out::Body(f, a.clone());
                }
            }
        }
        "alloc::vec::Vec::<T, A>::retain" | "alloc::vec::Vec::<T, A>::retain_mut" | "smallvec::SmallVec::<A>::retain" | "smallvec::SmallVec::<A>::retain_mut" => {
            let vt = aty(0);
            if let Some(f) = retain(e, vt, aty(1), false) {
                return Out::Body(f, a.clone());
            }
        }
        "alloc::collections::btree::map::BTreeMap::<K, V, A>::retain" => {
            let vt = aty(0);
            if let Some(f) = retain(e, vt, aty(1), true) {
                return Out::Body(f, a.clone());
            }
        }
        _ => {}
    }

    // ------------------------------------------------------------ vectors
    let vecp = p.strip_prefix("alloc::vec::Vec::<T, A>::").or_else(|| p.strip_prefix("alloc::vec::Vec::<T>::")).or_else(|| p.strip_prefix("smallvec::SmallVec::<A>::"));
    if let Some(m) = vecp {
        let et = seq_elem(e, aty(0));
        match m {
            "new" => return Out::Ret(op("vec_new", vec![])),
            "with_capacity" => {
                let s = e.fresh(st, c.ctx, c.bb, 0);
                return Out::Ret(op("vec_cap", vec![s, arg(0)]));
            }
            "from_raw_parts" => return Out::Ret(op("vec_raw", vec![arg(0), arg(1), arg(2)])),
            "push" => {
                push(e, st, c, arg(0), arg(1));
                return Out::Ret(unit());
            }
            "len" | "is_empty" => {
                let v = e.load(st, arg(0), None);
                let l = mk_len(v);
                return Out::Ret(if m == "len" { l } else { mk_eq(l, int(0)) });
            }
            "capacity" => {
                let v = e.load(st, arg(0), None);
                return Out::Ret(op("capacity", vec![v]));
            }
            "as_ptr" | "as_mut_ptr" => {
                let v = e.load(st, arg(0), None);
                return Out::Ret(mk_data(v));
            }
            "as_slice" | "as_mut_slice" => {
                let v = e.load(st, arg(0), None);
                return Out::Ret(mk(N::Fat(mk_data(v), mk_len(v))));
            }
            "clear" => {
                e.store(st, arg(0), None, op("vec_new", vec![]));
                return Out::Ret(unit());
            }
            "truncate" | "set_len" => {
                let v = e.load(st, arg(0), None);
                let base = match nd(v) {
                    N::Op("vec_len", a) => a[0],
                    _ => v,
                };
                let mut n = arg(1);
                if m == "truncate" {
                    let l = mk_len(v);
                    match e.known(st, mk_lt(l, n)) {
                        Some(1) => n = l,
                        Some(0) => {}
                        _ => {
                            if mk_lt(l, n) != boolean(false) {
                                n = op("min", vec![n, l]);
                            }
                        }
                    }
                }
                e.store(st, arg(0), None, op("vec_len", vec![base, n]));
                return Out::Ret(unit());
            }
            "resize" => {
                let s = fresh_vec(e, st, c, 0);
                e.store(st, arg(0), None, op("vec_len", vec![s, arg(1)]));
                return Out::Ret(unit());
            }
            "pop" => {
                let v = e.load(st, arg(0), None);
                match nd(v) {
                    N::Op("vec_new" | "vec_cap", _) => return Out::Ret(none(c.ret)),
                    N::Op("vec_push", b) => {
                        e.store(st, arg(0), None, b[0]);
                        return Out::Ret(some(c.ret, b[1]));
                    }
                    _ => {}
                }
                let l = mk_len(v);
                let o1 = with(e, st, &[(mk_eq(l, int(0)), 1)], none(c.ret));
                let mut o2 = with(e, st, &[(mk_eq(l, int(0)), 0)], unit());
                if let Some((s, r)) = &mut o2 {
                    let x = e.fresh(s, c.ctx, c.bb, 1);
                    let v = e.load(s, arg(0), None);
                    let ep = elem_ptr(e, v, x, et);
                    let w = e.load(s, ep, et);
                    let (nv, w) = e.fresh_beside(s, c.ctx, c.bb, 2, w);
                    e.store(s, arg(0), None, nv);
                    *r = some(c.ret, w);
                }
                return forks(e, vec![o1, o2]);
            }
            "swap_remove" | "remove" => {
                let v = e.load(st, arg(0), None);
                let d = mk_data(v);
                let ep = at_ptr(e, d, arg(1), et);
                let inb = mk_lt(arg(1), mk_len(v));
                if e.known(st, inb) != Some(1) {
                    panic_event(e, st, "index out of bounds", &[mk_len(v), arg(1)]);
                }
                let w = e.load(st, ep, et);
                let (nv, w) = e.fresh_beside(st, c.ctx, c.bb, 2, w);
                e.store(st, arg(0), None, nv);
                return Out::Ret(w);
            }
            "insert" | "extend_from_slice" | "append" | "dedup" | "split_off" | "reserve" | "shrink_to_fit" => {
                if m == "reserve" || m == "shrink_to_fit" {
                    return Out::Ret(unit());
                }
                if m == "extend_from_slice" && et.map_or(false, |t| !e.ty(t).needs_drop) {
                    let v = e.load(st, arg(0), None);
                    if matches!(nd(v), N::Op("vec_new" | "vec_cap", _)) {
                        let w = content(e, st, arg(1), aty(1));
                        e.store(st, arg(0), None, w);
                        return Out::Ret(unit());
                    }
                }
                let nv = e.fresh(st, c.ctx, c.bb, 2);
                e.store(st, arg(0), None, nv);
                if m == "split_off" {
                    let r = e.fresh(st, c.ctx, c.bb, 0);
                    return Out::Ret(r);
                }
                return Out::Ret(unit());
            }
            _ => {}
        }
    }
    match p {
        "alloc::vec::from_elem" => {
            let s = e.fresh(st, c.ctx, c.bb, 0);
            let d = mk_data(s);
            let cell = mk_cell(Cell::Der(d));
            e.write_raw(st, cell, &[], op("rep", vec![arg(0), arg(1)]));
            return Out::Ret(op("vec_len", vec![s, arg(1)]));
        }
        "alloc::boxed::Box::<T>::new_uninit" => {
            let b = e.fresh_heap(st, c.ctx, c.bb, 0, None);
            return Out::Ret(mk(N::Ref(b, vec![])));
        }
        "alloc::boxed::box_assume_init_into_vec_unsafe" | "alloc::slice::<impl [T]>::into_vec" => {
            let w = e.load(st, arg(0), None);
            let n = match nd(w) {
                N::Agg(_, _, f) => int(f.len() as i128),
                _ => op("len", vec![arg(0)]),
            };
            return Out::Ret(op("vec_raw", vec![mk_data_of_box(arg(0)), n, n]));
        }
        "<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref"
        | "<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut"
        | "<smallvec::SmallVec<A> as core::ops::deref::Deref>::deref"
        | "<smallvec::SmallVec<A> as core::ops::deref::DerefMut>::deref_mut"
        | "<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref"
        | "<alloc::vec::Vec<T, A> as core::borrow::Borrow<[T]>>::borrow" => {
            let v = e.load(st, arg(0), None);
            return Out::Ret(mk(N::Fat(mk_data(v), mk_len(v))));
        }
        "core::array::<impl [T; N]>::as_slice" | "core::array::<impl [T; N]>::as_mut_slice" => {
            if let Some(n) = e.pointee(aty(0)).filter(|t| e.ty(*t).k == Kind::Array).map(|t| e.ty(t).n) {
                return Out::Ret(mk(N::Fat(arg(0), int(n))));
            }
        }
        "core::slice::<impl [T]>::len" | "core::str::<impl str>::len" => return Out::Ret(mk_len(arg(0))),
        "core::slice::<impl [T]>::is_empty" | "core::str::<impl str>::is_empty" => return Out::Ret(mk_eq(mk_len(arg(0)), int(0))),
        "core::slice::<impl [T]>::as_ptr" | "core::slice::<impl [T]>::as_mut_ptr" | "core::str::<impl str>::as_ptr" => return Out::Ret(mk_data(arg(0))),
        "core::str::<impl str>::as_bytes" => return Out::Ret(arg(0)),
        "core::slice::raw::from_raw_parts" | "core::slice::raw::from_raw_parts_mut" | "core::ptr::slice_from_raw_parts" | "core::ptr::slice_from_raw_parts_mut" => {
            return Out::Ret(mk(N::Fat(arg(0), arg(1))));
        }
        "core::slice::<impl [T]>::get" | "core::slice::<impl [T]>::get_mut" => {
            let it = e.ty(aty(1)).clone();
            let len = mk_len(arg(0));
            let data = mk_data(arg(0));
            let et = seq_elem(e, aty(0));
            if it.k == Kind::Uint {
                let inb = mk_lt(arg(1), len);
                let o1 = with(e, st, &[(inb, 0)], none(c.ret));
                let ep = at_ptr(e, data, arg(1), et);
                let o2 = with(e, st, &[(inb, 1)], some(c.ret, ep));
                return forks(e, vec![o1, o2]);
            }
            if let Some((lo, hi)) = range_parts(e, arg(1), &it, len) {
                let c1 = mk_lt(hi, lo);
                let c2 = mk_lt(len, hi);
                let o1 = Some((st.clone(), none(c.ret)));
                let sz = et.and_then(|t| e.ty(t).size).unwrap_or(1);
                let off = e.bin("Mul", lo, int(sz as i128), None);
                let v = mk(N::Fat(mk_padd(data, off), lsub(hi, lo)));
                let o2 = with(e, st, &[(c1, 0), (c2, 0)], some(c.ret, v));
                return forks(e, vec![o1, o2]);
            }
        }
        "core::slice::<impl [T]>::split_at" | "core::slice::<impl [T]>::split_at_mut" | "core::slice::<impl [T]>::split_at_checked" | "core::slice::<impl [T]>::split_at_mut_checked" => {
            let (len, data, mid) = (mk_len(arg(0)), mk_data(arg(0)), arg(1));
            let sz = seq_elem(e, aty(0)).and_then(|t| e.ty(t).size).unwrap_or(1);
            let off = e.bin("Mul", mid, int(sz as i128), None);
            let pair = vec![mk(N::Fat(data, mid)), mk(N::Fat(mk_padd(data, off), lsub(len, mid)))];
            let over = mk_lt(len, mid);
            if p.ends_with("checked") {
                let tt = content_ty(e, c.ret).unwrap_or(0);
                let o1 = with(e, st, &[(over, 1)], none(c.ret));
                let o2 = with(e, st, &[(over, 0)], some(c.ret, mk(N::Agg(tt, 0, pair))));
                return forks(e, vec![o1, o2]);
            }
            if e.known(st, over) != Some(0) {
                panic_event(e, st, "slice split out of bounds", &[len, mid]);
                if !e.assume(st, over, 0) {
                    return Out::Stop;
                }
            }
            return Out::Ret(mk(N::Agg(c.ret, 0, pair)));
        }
        "core::slice::<impl [T]>::first" | "core::slice::<impl [T]>::last" | "core::slice::<impl [T]>::first_mut" | "core::slice::<impl [T]>::last_mut" => {
            let len = mk_len(arg(0));
            let et = seq_elem(e, aty(0));
            let i = if p.contains("last") { mk_sub(len, int(1)) } else { int(0) };
            let z = mk_eq(len, int(0));
            let o1 = with(e, st, &[(z, 1)], none(c.ret));
            let ep = at_ptr(e, mk_data(arg(0)), i, et);
            let o2 = with(e, st, &[(z, 0)], some(c.ret, ep));
            return forks(e, vec![o1, o2]);
        }
        _ => {}
    }
    if q == "core::ops::index::Index::index" || q == "core::ops::index::IndexMut::index_mut" {
        let s = seq_of(e, st, arg(0), aty(0));
        let len = mk_len(s);
        let data = mk_data(s);
        let et = seq_elem(e, aty(0));
        let it = e.ty(aty(1)).clone();
        if it.k == Kind::Uint {
            let inb = mk_lt(arg(1), len);
            if e.known(st, inb) != Some(1) {
                panic_event(e, st, "index out of bounds", &[len, arg(1)]);
                if !e.assume(st, inb, 1) {
                    return Out::Stop;
                }
            }
            let ep = at_ptr(e, data, arg(1), et);
            return Out::Ret(ep);
        }
        if let Some((lo, hi)) = range_parts(e, arg(1), &it, len) {
            let c1 = mk_lt(hi, lo);
            let c2 = mk_lt(len, hi);
            if e.known(st, c1) != Some(0) || e.known(st, c2) != Some(0) {
                panic_event(e, st, "slice index out of bounds", &[len, lo, hi]);
                if !(e.assume(st, c1, 0) && e.assume(st, c2, 0)) {
                    return Out::Stop;
                }
            }
            let sz = et.and_then(|t| e.ty(t).size).unwrap_or(1);
            let off = e.bin("Mul", lo, int(sz as i128), None);
            return Out::Ret(mk(N::Fat(mk_padd(data, off), lsub(hi, lo))));
        }
    }

    // ------------------------------------------------------------ clones, comparisons, strings
    if p == "alloc::slice::<impl [T]>::to_vec" && e.ty(e.pointee(aty(0)).unwrap_or(0)).elem.map_or(false, |t| !e.ty(t).needs_drop) {
        let v = content(e, st, arg(0), aty(0));
        return Out::Ret(v);
    }
    if q == "core::clone::Clone::clone" || q == "alloc::borrow::ToOwned::to_owned" {
        let derived = c.f.map_or(false, |f| e.f(f).derived);
        let body = c.f.map_or(false, |f| e.f(f).blocks.is_some());
        let sel = e.pointee(aty(0));
        if derived || !body {
            if let Some(pt) = sel {
                if matches!(e.ty(pt).k, Kind::Str) {
                    return Out::Ret(op("string", vec![str_content(arg(0))]));
                }
                if matches!(e.ty(pt).k, Kind::Slice) {
                    let v = content(e, st, arg(0), aty(0));
                    return Out::Ret(v);
                }
                let v = e.load(st, arg(0), Some(pt));
                return Out::Ret(v);
            }
        }
        return Out::No;
    }
    if q == "core::cmp::PartialEq::eq" || q == "core::cmp::PartialEq::ne" {
        let body = c.f.map_or(false, |f| e.f(f).blocks.is_some());
        let bytes = |t: TyId| Some(super::rules::util::peel(e, t)).map_or(false, |p| matches!(e.ty(p).k, Kind::Array | Kind::Slice) && e.ty(p).elem.map_or(false, |x| matches!(e.ty(x).k, Kind::Int | Kind::Uint | Kind::Bool)));
        let prim_impl = !body || (bytes(aty(0)) && bytes(aty(1))) || is_time(e, e.pointee(aty(0)).unwrap_or(0)) || e.pointee(aty(0)).map_or(false, |t| is_stringy(e, t));
        if prim_impl {
            let x = content(e, st, arg(0), aty(0));
            let y = content(e, st, arg(1), aty(1));
            let (x, y) = (whole(x, y), whole(y, x));
            let r = mk_eq(x, y);
            return Out::Ret(if q.ends_with("ne") { mk_not(r) } else { r });
        }
        return Out::No;
    }
    if q.starts_with("core::cmp::PartialOrd::") || q.starts_with("core::cmp::Ord::") {
        let t0 = e.pointee(aty(0)).unwrap_or(aty(0));
        if is_time(e, t0) || matches!(e.ty(t0).k, Kind::Int | Kind::Uint) {
            let (x, y) = if e.ty(aty(0)).k == Kind::Ref { (content(e, st, arg(0), aty(0)), content(e, st, arg(1), aty(1))) } else { (arg(0), arg(1)) };
            match q.rsplit("::").next().unwrap_or("") {
                "lt" => return Out::Ret(mk_lt(x, y)),
                "gt" => return Out::Ret(mk_lt(y, x)),
                "le" => return Out::Ret(mk_not(mk_lt(y, x))),
                "ge" => return Out::Ret(mk_not(mk_lt(x, y))),
                m @ ("cmp" | "partial_cmp") => {
                    let mut out = vec![];
                    for (k, fs) in [(-1i128, vec![(mk_lt(x, y), 1)]), (0, vec![(mk_eq(x, y), 1)]), (1, vec![(mk_lt(y, x), 1)])] {
                        let ot = if m == "cmp" { c.ret } else { e.prog.field_ty(c.ret, 1, 0).unwrap_or(c.ret) };
                        let o = mk(N::Agg(ot, (k + 1) as u32, vec![]));
                        let r = if m == "cmp" { o } else { some(c.ret, o) };
                        out.push(with(e, st, &fs, r));
                    }
                    return forks(e, out);
                }
                "min" | "max" => {
                    let m = q.ends_with("min");
                    let y_lt_x = mk_lt(y, x);
                    let o1 = with(e, st, &[(y_lt_x, 1)], if m { y } else { x });
                    let o2 = with(e, st, &[(y_lt_x, 0)], if m { x } else { y });
                    return forks(e, vec![o1, o2]);
                }
                _ => {}
            }
        }
        return Out::No;
    }
    match p {
        "<alloc::string::String as core::ops::deref::Deref>::deref"
        | "alloc::string::String::as_str"
        | "smol_str::SmolStr::as_str"
        | "<smol_str::SmolStr as core::ops::deref::Deref>::deref"
        | "<alloc::string::String as core::convert::AsRef<str>>::as_ref"
        | "<smol_str::SmolStr as core::convert::AsRef<str>>::as_ref"
        | "<smol_str::SmolStr as core::borrow::Borrow<str>>::borrow"
        | "<alloc::string::String as core::borrow::Borrow<str>>::borrow"
        | "<alloc::ffi::c_str::CString as core::ops::deref::Deref>::deref" => {
            let v = e.load(st, arg(0), None);
            return Out::Ret(str_of(v));
        }
        "smol_str::SmolStr::new" | "<smol_str::SmolStr as core::convert::From<&str>>::from" | "smol_str::SmolStr::new_inline" | "<smol_str::SmolStr as core::convert::From<T>>::from"
        | "<smol_str::SmolStr as core::convert::From<alloc::string::String>>::from" | "<alloc::string::String as core::convert::From<&str>>::from" | "<alloc::string::String as core::convert::From<smol_str::SmolStr>>::from"
        | "<str as alloc::string::ToString>::to_string" | "<alloc::string::String as alloc::string::ToString>::to_string" | "<T as alloc::string::ToString>::to_string" | "alloc::str::<impl str>::to_owned" => {
            let tt = aty(0);
            let inner = e.pointee(tt);
            if is_stringy(e, tt) || inner.map_or(false, |x| matches!(e.ty(x).k, Kind::Str) || is_stringy(e, x)) || inner.and_then(|x| e.pointee(x)).map_or(false, |x| matches!(e.ty(x).k, Kind::Str)) {
                let x = content(e, st, arg(0), tt);
                return Out::Ret(op("string", vec![x]));
            }
        }
        "alloc::ffi::c_str::CString::new" => {
            // Err when the text holds an interior NUL
            let x = content(e, st, arg(0), aty(0));
            let nul = op("pred", vec![mk(N::Str("has_nul".into())), x]);
            let s = op("string", vec![x]);
            let ev = op("nulerror", vec![x]);
            let o1 = with(e, st, &[(nul, 0)], ok(c.ret, s));
            let o2 = with(e, st, &[(nul, 1)], err(c.ret, ev));
            return forks(e, vec![o1, o2]);
        }
        "core::ffi::c_str::CStr::as_ptr" => return Out::Ret(arg(0)),
        "core::array::<impl core::convert::TryFrom<&[T]> for [T; N]>::try_from" | "core::array::<impl core::convert::TryFrom<&'a [T]> for &'a [T; N]>::try_from" => {
            let okty = e.prog.field_ty(c.ret, 0, 0).unwrap_or(c.ret);
            let at = e.pointee(okty).unwrap_or(okty);
            let n = e.ty(at).n;
            let x = content(e, st, arg(0), aty(0));
            let cond = mk_eq(mk_len(arg(0)), int(n));
            let v = if e.ty(okty).k == Kind::Ref { mk_data(arg(0)) } else { op("arr", vec![x, int(n)]) };
            let o1 = with(e, st, &[(cond, 1)], ok(c.ret, v));
            let ev = e.fresh(st, c.ctx, c.bb, 3);
            let o2 = with(e, st, &[(cond, 0)], err(c.ret, ev));
            return forks(e, vec![o1, o2]);
        }
        "core::num::<impl u32>::from_ne_bytes" | "core::num::<impl u32>::from_le_bytes" => return Out::Ret(op("u32ne", vec![arg(0)])),
        "core::num::<impl u64>::from_ne_bytes" | "core::num::<impl usize>::from_ne_bytes" | "core::num::<impl u64>::from_le_bytes" | "core::num::<impl usize>::from_le_bytes" => return Out::Ret(op("u64ne", vec![arg(0)])),
        "core::num::<impl u64>::to_ne_bytes" | "core::num::<impl usize>::to_ne_bytes" | "core::num::<impl u64>::to_le_bytes" | "core::num::<impl usize>::to_le_bytes" => return Out::Ret(op("nebytes", vec![arg(0)])),
        "core::num::<impl u32>::to_ne_bytes" | "core::num::<impl u32>::to_le_bytes" => return Out::Ret(op("bytes32", vec![arg(0)])),
        _ => {}
    }
    if let Some(m) = p.strip_prefix("core::num::<impl ").and_then(|x| x.split_once(">::")) {
        let (x, y) = (arg(0), arg(1));
        match m.1 {
            "checked_add" | "checked_sub" | "checked_mul" => {
                let base = match m.1 {
                    "checked_add" => "Add",
                    "checked_sub" => "Sub",
                    _ => "Mul",
                };
                let tt = Some(aty(0));
                let r = e.bin(base, x, y, tt);
                let of = if base == "Sub" && e.ty(aty(0)).k == Kind::Uint {
                    mk_lt(x, y)
                } else {
                    match e.bin(&format!("{base}WithOverflow"), x, y, tt) {
                        v => match nd(v) {
                            N::Agg(_, _, f) => f[1],
                            _ => undef(),
                        },
                    }
                };
                let o1 = with(e, st, &[(of, 1)], none(c.ret));
                let o2 = with(e, st, &[(of, 0)], some(c.ret, r));
                return forks(e, vec![o1, o2]);
            }
            "unsigned_abs" => {
                let lt = mk_lt(x, int(0));
                let o1 = with(e, st, &[(lt, 1)], mk_sub(int(0), x));
                let o2 = with(e, st, &[(lt, 0)], x);
                return forks(e, vec![o1, o2]);
            }
            "wrapping_add" => return Out::Ret(op("wadd", vec![x, y])),
            "wrapping_sub" => return Out::Ret(op("wsub", vec![x, y])),
            "wrapping_mul" => return Out::Ret(op("wmul", vec![x, y])),
            "saturating_mul" => return Out::Ret(op("satmul", vec![x, y])),
            "saturating_add" => return Out::Ret(op("sadd", vec![x, y])),
            "saturating_sub" => {
                let lt = mk_lt(x, y);
                let o1 = with(e, st, &[(lt, 1)], int(0));
                let o2 = with(e, st, &[(lt, 0)], mk_sub(x, y));
                return forks(e, vec![o1, o2]);
            }
            "overflowing_add" => {
                let r = e.bin("AddWithOverflow", x, y, Some(aty(0)));
                if let N::Agg(_, k, f) = nd(r) {
                    return Out::Ret(mk(N::Agg(c.ret, *k, f.clone())));
                }
            }
            "div_ceil" | "next_multiple_of" | "is_power_of_two" | "pow" => {
                let r = op(m.1, vec![x, y]);
                if crate::lin::has_quart(r) {
                    let l = crate::lin::lin(r);
                    if l.t.keys().all(|k| *k != r) {
                        return Out::Ret(l.val());
                    }
                }
                return Out::Ret(r);
            }
            _ => {}
        }
    }
    if p.ends_with("::precondition_check") {
        return Out::Ret(unit());
    }

    // ------------------------------------------------------------ pointers and memory
    for pre in ["core::ptr::const_ptr::<impl *const T>::", "core::ptr::mut_ptr::<impl *mut T>::"] {
        if let Some(m) = p.strip_prefix(pre) {
            let pt = e.pointee(aty(0));
            let sz = pt.and_then(|t| e.ty(t).size).unwrap_or(1) as i128;
            match m {
                "add" | "offset" | "wrapping_add" | "byte_add" | "wrapping_offset" => {
                    let n = if m == "byte_add" { arg(1) } else { e.bin("Mul", arg(1), int(sz), None) };
                    return Out::Ret(mk_padd(arg(0), n));
                }
                "sub" | "byte_sub" => {
                    let n = if m == "byte_sub" { arg(1) } else { e.bin("Mul", arg(1), int(sz), None) };
                    let n = mk_sub(int(0), n);
                    return Out::Ret(mk_padd(arg(0), n));
                }
                "cast" | "cast_mut" | "cast_const" => {
                    return Out::Ret(match nd(arg(0)) {
                        N::Fat(x, _) if m == "cast" => *x,
                        _ => arg(0),
                    })
                }
                "is_null" => {
                    if let N::Ref(..) = nd(arg(0)) {
                        return Out::Ret(boolean(false));
                    }
                    return Out::Ret(mk_eq(arg(0), op("null", vec![])));
                }
                "as_ref" | "as_mut" if e.ty(c.ret).path.ends_with("option::Option") => {
                    if let N::Ref(..) = nd(arg(0)) {
                        return Out::Ret(some(c.ret, arg(0)));
                    }
                    let k = mk_eq(arg(0), op("null", vec![]));
                    let o1 = with(e, st, &[(k, 1)], none(c.ret));
                    let o2 = with(e, st, &[(k, 0)], some(c.ret, arg(0)));
                    return forks(e, vec![o1, o2]);
                }
                "read" | "read_unaligned" | "read_volatile" => return Out::Ret(do_read(e, st, arg(0), pt)),
                "write" | "write_unaligned" | "write_volatile" => {
                    do_write(e, st, arg(0), pt, arg(1));
                    return Out::Ret(unit());
                }
                _ => {}
            }
        }
    }
    match p {
        "core::ptr::read" | "core::ptr::read_unaligned" | "core::ptr::read_volatile" => {
            let pt = e.pointee(aty(0));
            return Out::Ret(do_read(e, st, arg(0), pt));
        }
        "core::ptr::write" | "core::ptr::write_unaligned" | "core::ptr::write_volatile" => {
            let pt = e.pointee(aty(0));
            do_write(e, st, arg(0), pt, arg(1));
            return Out::Ret(unit());
        }
        "core::ptr::null_mut" | "core::ptr::null" => return Out::Ret(op("null", vec![])),
        "core::mem::swap" => {
            let pt = e.pointee(aty(0));
            let (x, y) = (e.load(st, arg(0), pt), e.load(st, arg(1), pt));
            e.store(st, arg(0), pt, y);
            e.store(st, arg(1), pt, x);
            return Out::Ret(unit());
        }
        "core::mem::replace" => {
            let pt = e.pointee(aty(0));
            let x = e.load(st, arg(0), pt);
            e.store(st, arg(0), pt, arg(1));
            return Out::Ret(x);
        }
        "core::mem::forget" => return Out::Ret(unit()),
        "core::mem::manually_drop::ManuallyDrop::<T>::new" | "core::mem::manually_drop::ManuallyDrop::<T>::into_inner" if c.args.len() == 1 => return Out::Ret(c.args[0]),
        "<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::Deref>::deref" | "<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::DerefMut>::deref_mut" if c.args.len() == 1 => return Out::Ret(c.args[0]),
        "core::mem::size_of" | "core::mem::align_of" => {
            if let Some(s) = c.targs.first().and_then(|t| e.ty(*t).size) {
                if p.ends_with("size_of") {
                    return Out::Ret(int(s as i128));
                }
            }
        }
        "core::mem::size_of_val" => {
            if let Some(pt) = e.pointee(aty(0)) {
                match e.ty(pt).k {
                    Kind::Slice => {
                        let es = e.ty(pt).elem.and_then(|t| e.ty(t).size).unwrap_or(1);
                        let r = e.bin("Mul", mk_len(arg(0)), int(es as i128), None);
                        return Out::Ret(r);
                    }
                    Kind::Str => return Out::Ret(mk_len(arg(0))),
                    _ => {
                        if let Some(s) = e.ty(pt).size {
                            return Out::Ret(int(s as i128));
                        }
                    }
                }
            }
        }
        "core::mem::zeroed" => {
            let z = zero(e, c.ret, 0);
            return Out::Ret(z);
        }
        "alloc::boxed::Box::<T>::new" | "alloc::rcs::arc::Arc::<T>::new" | "alloc::sync::Arc::<T>::new" => {
            let b = e.fresh_heap(st, c.ctx, c.bb, 0, Some(aty(0)));
            e.write(st, b, &[], arg(0));
            return Out::Ret(mk(N::Ref(b, vec![])));
        }
        "alloc::boxed::Box::<T, A>::into_raw" | "alloc::boxed::Box::<T>::into_raw" | "alloc::boxed::Box::<T>::from_raw" | "alloc::boxed::Box::<T, A>::leak" | "alloc::rcs::arc::Arc::<T>::from_raw" | "alloc::rcs::arc::Arc::<T, A>::into_raw" => return Out::Ret(arg(0)),
        "<alloc::boxed::Box<T, A> as core::ops::drop::Drop>::drop" => return Out::Ret(unit()),
        "<alloc::rcs::arc::Arc<T, A> as core::ops::deref::Deref>::deref" | "<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref" | "<alloc::boxed::Box<T, A> as core::ops::deref::DerefMut>::deref_mut"
        | "<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref" | "<alloc::rcs::arc::Arc<T, A> as core::convert::AsRef<T>>::as_ref" => {
            let pt = e.pointee(aty(0));
            let v = e.load(st, arg(0), pt);
            let inner = pt.and_then(|t| e.ty(t).args.first().copied());
            if let Some(i) = inner {
                let (cc, path) = e.target(v, Some(i));
                let _ = (cc, path);
            }
            return Out::Ret(v);
        }
        "alloc::rcs::arc::Arc::<T, A>::ptr_eq" => {
            let (x, y) = (e.load(st, arg(0), None), e.load(st, arg(1), None));
            return Out::Ret(mk_eq(x, y));
        }
        "<once_cell::sync::Lazy<T, F> as core::ops::deref::Deref>::deref" => return Out::Ret(op("lazy", vec![arg(0)])),
        "<std::sync::lazy_lock::LazyLock<T, F> as core::ops::deref::Deref>::deref" => return Out::Ret(op("lazy", vec![arg(0)])),
        _ => {}
    }

    // ------------------------------------------------------------ locks
    match p {
        "std::sync::poison::mutex::Mutex::<T>::lock" | "std::sync::poison::rwlock::RwLock::<T>::read" | "std::sync::poison::rwlock::RwLock::<T>::write" => {
            let s = e.fresh(st, c.ctx, c.bb, 0);
            let kind = if p.ends_with("lock") { 0 } else if p.ends_with("read") { 1 } else { 2 };
            let g = op("guard", vec![s, arg(0), int(kind)]);
            return Out::Ret(ok(c.ret, g));
        }
        "std::sync::poison::mutex::Mutex::<T>::new" | "std::sync::poison::rwlock::RwLock::<T>::new" => {
            return Out::Ret(op("newlock", vec![arg(0)]));
        }
        "<std::sync::poison::mutex::MutexGuard<'_, T> as core::ops::deref::Deref>::deref"
        | "<std::sync::poison::mutex::MutexGuard<'_, T> as core::ops::deref::DerefMut>::deref_mut"
        | "<std::sync::poison::rwlock::RwLockReadGuard<'_, T> as core::ops::deref::Deref>::deref"
        | "<std::sync::poison::rwlock::RwLockWriteGuard<'_, T> as core::ops::deref::Deref>::deref"
        | "<std::sync::poison::rwlock::RwLockWriteGuard<'_, T> as core::ops::deref::DerefMut>::deref_mut" => {
            let g = e.load(st, arg(0), None);
            let r = match nd(g) {
                N::Op("guard", a) => op("guardptr", vec![a[0], a[1]]),
                _ => op("guardptr", vec![g]),
            };
            if let Some(pt) = e.pointee(c.ret) {
                let cell = mk_cell(Cell::Der(r));
                e.celltype.entry(cell).or_insert(pt);
            }
            return Out::Ret(r);
        }
        _ => {}
    }

    // ------------------------------------------------------------ time
    match p {
        "core::time::Duration::from_secs" => {
            return Out::Ret(match as_int(arg(0)) {
                Some(n) => op("dur", vec![int(n * 1_000_000_000)]),
                None => op("dursec", vec![arg(0)]),
            })
        }
        "core::time::Duration::from_millis" => {
            return Out::Ret(match as_int(arg(0)) {
                Some(n) => op("dur", vec![int(n * 1_000_000)]),
                None => op("durms", vec![arg(0)]),
            })
        }
        "core::time::Duration::from_micros" | "core::time::Duration::from_nanos" => {
            return Out::Ret(match as_int(arg(0)) {
                Some(n) => op("dur", vec![int(n * if p.ends_with("micros") { 1000 } else { 1 })]),
                None => op("durus", vec![arg(0)]),
            })
        }
        "core::time::Duration::is_zero" => {
            let v = content(e, st, arg(0), aty(0));
            return Out::Ret(mk_eq(v, op("dur", vec![int(0)])));
        }
        "core::time::Duration::as_millis" | "core::time::Duration::as_secs" | "core::time::Duration::as_micros" | "core::time::Duration::as_nanos" => {
            let v = content(e, st, arg(0), aty(0));
            if let N::Op("dur", a) = nd(v) {
                if let Some(n) = as_int(a[0]) {
                    let d = if p.ends_with("millis") { 1_000_000 } else if p.ends_with("micros") { 1000 } else if p.ends_with("nanos") { 1 } else { 1_000_000_000 };
                    return Out::Ret(int(n / d));
                }
            }
            let r = op(if p.ends_with("millis") { "millis" } else { "durunit" }, vec![v]);
            return Out::Ret(r);
        }
        "std::time::Instant::now" => {
            let s = e.fresh(st, c.ctx, c.bb, 0);
            return Out::Ret(op("now", vec![s]));
        }
        "std::time::Instant::checked_add" => {
            let i = content(e, st, arg(0), aty(0));
            let r = op("tadd", vec![i, arg(1)]);
            let of = op("pred", vec![mk(N::Str("time_overflow".into())), i, arg(1)]);
            let o1 = with(e, st, &[(of, 1)], none(c.ret));
            let o2 = with(e, st, &[(of, 0)], some(c.ret, r));
            return forks(e, vec![o1, o2]);
        }
        "<std::time::Instant as core::ops::arith::Add<core::time::Duration>>::add" => {
            panic_event(e, st, "Instant + Duration overflow", &[arg(0), arg(1)]);
            return Out::Ret(op("tadd", vec![arg(0), arg(1)]));
        }
        "<core::time::Duration as core::ops::arith::Add>::add" => return Out::Ret(op("dadd", vec![arg(0), arg(1)])),
        "<core::time::Duration as core::ops::arith::Sub>::sub" => {
            panic_event(e, st, "Duration - Duration overflow", &[arg(0), arg(1)]);
            return Out::Ret(op("dsub", vec![arg(0), arg(1)]));
        }
        "<core::time::Duration as core::ops::arith::Mul<u32>>::mul" => {
            panic_event(e, st, "Duration * u32 overflow", &[arg(0), arg(1)]);
        }
        "core::time::Duration::saturating_sub" => return Out::Ret(op("dsub", vec![arg(0), arg(1)])),
        "<std::time::Instant as core::ops::arith::Sub>::sub" => return Out::Ret(op("tsub", vec![arg(0), arg(1)])),
        "std::time::Instant::saturating_duration_since" | "std::time::Instant::duration_since" => {
            let i = content(e, st, arg(0), aty(0));
            return Out::Ret(op("tsub", vec![i, arg(1)]));
        }
        "std::time::Instant::checked_duration_since" => {
            let i = content(e, st, arg(0), aty(0));
            let lt = mk_lt(i, arg(1));
            let o1 = with(e, st, &[(lt, 1)], none(c.ret));
            let o2 = with(e, st, &[(lt, 0)], some(c.ret, op("tsub", vec![i, arg(1)])));
            return forks(e, vec![o1, o2]);
        }
        "std::time::Instant::elapsed" => {
            let i = content(e, st, arg(0), aty(0));
            let s = e.fresh(st, c.ctx, c.bb, 0);
            return Out::Ret(op("tsub", vec![op("now", vec![s]), i]));
        }
        _ => {}
    }

    // ------------------------------------------------------------ serialisation, libc
    match p {
        "bincode::features::serde::ser::encode_to_vec" => {
            let v = content(e, st, arg(0), aty(0));
            let s = e.fresh(st, c.ctx, c.bb, 0);
            let fail = op("pred", vec![mk(N::Str("encode_fails".into())), v, s]);
            let ev = e.fresh(st, c.ctx, c.bb, 1);
            let v = content(e, st, arg(0), aty(0));
            let o1 = with(e, st, &[(fail, 0)], ok(c.ret, op("encoded", vec![v, int(e.pointee(aty(0)).unwrap_or(aty(0)) as i128)])));
            let o2 = with(e, st, &[(fail, 1)], err(c.ret, ev));
            return forks(e, vec![o1, o2]);
        }
        "bincode::features::serde::de_borrowed::borrow_decode_from_slice" | "bincode::features::serde::de_owned::decode_from_slice" => {
            let src = content(e, st, arg(0), aty(0));
            let s = e.fresh(st, c.ctx, c.bb, 0);
            let ev = e.fresh(st, c.ctx, c.bb, 1);
            let src = if src == arg(0) { src } else { content(e, st, arg(0), aty(0)) };
            let tt = e.prog.field_ty(c.ret, 0, 0).unwrap_or(c.ret);
            let dt = e.ty(tt).fields.first().copied().unwrap_or(tt);
            let v = op("decoded", vec![s, int(dt as i128), src]);
            let fail = op("pred", vec![mk(N::Str("decode_fails".into())), s]);
            let n = op("decodedlen", vec![s]);
            let o1 = with(e, st, &[(fail, 0)], ok(c.ret, mk(N::Agg(tt, 0, vec![v, n]))));
            let o2 = with(e, st, &[(fail, 1)], err(c.ret, ev));
            return forks(e, vec![o1, o2]);
        }
        "bincode::config::standard" => return Out::Ret(unit()),
        "libc::unix::linux_like::CMSG_LEN" => return Out::Ret(match as_int(arg(0)) {
            Some(n) => int(16 + n),
            None => op("cmsg_len", vec![arg(0)]),
        }),
        "libc::unix::linux_like::CMSG_SPACE" => return Out::Ret(match as_int(arg(0)) {
            Some(n) => int(16 + (n + 7) / 8 * 8),
            None => op("cmsg_space", vec![arg(0)]),
        }),
        "libc::unix::linux_like::CMSG_DATA" => return Out::Ret(mk_padd(arg(0), int(16))),
        "libc::unix::linux_like::CMSG_FIRSTHDR" => {
            let pt = e.pointee(aty(0));
            let m = e.load(st, arg(0), pt);
            let f = |e: &Eng, n: &str| pt.and_then(|t| e.prog.field(t, 0, n)).map(|i| e.project(m, P::F(i)));
            if let (Some(p), Some(l)) = (f(e, "msg_control"), f(e, "msg_controllen")) {
                let small = mk_lt(l, int(16));
                let o1 = with(e, st, &[(small, 1)], op("null", vec![]));
                let o2 = with(e, st, &[(small, 0)], p);
                return forks(e, vec![o1, o2]);
            }
            return Out::Ret(op("cmsg_first", vec![m]));
        }
        "libc::unix::linux_like::recvmsg" | "libc::unix::linux_like::linux::recvmsg" => {
            // fills the buffers and the two output fields of the header
            let pt = e.pointee(aty(1));
            let s = e.fresh(st, c.ctx, c.bb, 0);
            let h = arg(1);
            let (cc, path) = e.target(h, pt);
            if let Some(pt) = pt {
                let iov = e.prog.field(pt, 0, "msg_iov");
                let ctl = e.prog.field(pt, 0, "msg_control");
                for (k, f) in ["msg_controllen", "msg_flags", "msg_namelen"].iter().enumerate() {
                    if let Some(i) = e.prog.field(pt, 0, f) {
                        let mut q = path.clone();
                        q.push(P::F(i));
                        let x = e.fresh(st, c.ctx, c.bb, 10 + k as u32);
                        e.write_raw(st, cc, &q, x);
                    }
                }
                let mut bufs = vec![];
                if let Some(i) = ctl {
                    let mut q = path.clone();
                    q.push(P::F(i));
                    bufs.push(e.read(st, cc, &q));
                }
                if let Some(i) = iov {
                    let mut q = path.clone();
                    q.push(P::F(i));
                    let v = e.read(st, cc, &q);
                    let (ic, mut ip) = e.target(v, None);
                    let w = e.read(st, ic, &ip);
                    if let N::Agg(_, _, f) = nd(w) {
                        // one iovec or an array of them
                        if f.iter().all(|x| matches!(nd(*x), N::Agg(..))) && !f.is_empty() {
                            for x in f {
                                if let N::Agg(_, _, g) = nd(*x) {
                                    bufs.push(g[0]);
                                }
                            }
                        } else {
                            bufs.push(f[0]);
                        }
                    } else {
                        ip.push(P::F(0));
                        bufs.push(e.read(st, ic, &ip));
                    }
                }
                for (k, b) in bufs.iter().enumerate() {
                    if matches!(nd(*b), N::Undef | N::Op("null", _)) {
                        continue;
                    }
                    let x = e.fresh(st, c.ctx, c.bb, 20 + k as u32);
                    let (bc, bp) = e.target(*b, None);
                    e.write_raw(st, bc, &bp, x);
                }
            }
            return Out::Ret(s);
        }
        _ => {}
    }
    if p.starts_with("log::") || p.starts_with("core::fmt::") {
        if c.diverges {
            return Out::No;
        }
        let rt = e.ty(c.ret);
        if rt.k == Kind::Tuple && rt.fields.is_empty() {
            return Out::Ret(unit());
        }
    }

    // ------------------------------------------------------------ constructors used as functions
    if let Some(f) = c.f {
        if e.f(f).blocks.is_none() {
            if let Some(v) = ctor(e, p, c) {
                return Out::Ret(v);
            }
        }
    } else if let Some(v) = ctor(e, p, c) {
        return Out::Ret(v);
    }

    // ------------------------------------------------------------ recursive predicates
    if let Some(f) = c.f {
        let fd = e.f(f);
        if fd.blocks.is_some() && is_repo(fd) && e.ty(c.ret).k == Kind::Bool && e.self_recursive(f) {
            let vs: Vec<Val> = a.clone();
            let mut k = vec![mk(N::Str(p.to_string()))];
            for (i, v) in vs.iter().enumerate() {
                k.push(content(e, st, *v, aty2(t, i)));
            }
            return Out::Ret(op("pred", k));
        }
    }
    let has_body = c.f.map_or(false, |f| e.f(f).blocks.is_some());
    let spawns = p.starts_with("std::thread::") && p.contains("spawn");
    if !has_body && !c.diverges && !spawns {
        if let Some(f) = unknown_ho(e, c) {
            return Out::Body(f, a.clone());
        }
    }
    Out::No
}

fn aty2(t: &[TyId], i: usize) -> TyId {
    t.get(i).copied().unwrap_or(0)
}

fn mk_data_of_box(v: Val) -> Val {
    v
}

fn ctor(e: &Eng, p: &str, c: &Call) -> Option<Val> {
    let (adt, var) = p.rsplit_once("::")?;
    let ty = e.ty(c.ret);
    let path = strip_generics(adt);
    if ty.k == Kind::Enum && ty.path == path {
        let k = e.prog.variant(c.ret, var)?;
        return Some(mk(N::Agg(c.ret, k, c.args.clone())));
    }
    if ty.k == Kind::Struct && ty.path == p {
        return Some(mk(N::Agg(c.ret, 0, c.args.clone())));
    }
    None
}

fn strip_generics(s: &str) -> String {
    let mut o = String::new();
    let mut d = 0;
    for ch in s.chars() {
        match ch {
            '<' => d += 1,
            '>' => d -= 1,
            c if d == 0 => o.push(c),
            _ => {}
        }
    }
    o.trim_end_matches("::").to_string()
}

/// difference, simplified where the operands share terms
fn lsub(a: Val, b: Val) -> Val {
    let d = crate::lin::lin(a).add(&crate::lin::lin(b), -1);
    if d.t.values().all(|k| *k > 0) {
        d.val()
    } else {
        mk_sub(a, b)
    }
}
fn content_ty(e: &Eng, t: TyId) -> Option<TyId> {
    e.prog.field_ty(t, 1, 0)
}
fn range_parts(e: &Eng, v: Val, it: &Type, len: Val) -> Option<(Val, Val)> {
    let f = |i: u32| e.project(v, P::F(i));
    match it.path.as_str() {
        "core::ops::range::Range" => Some((f(0), f(1))),
        "core::ops::range::RangeTo" => Some((int(0), f(0))),
        "core::ops::range::RangeFrom" => Some((f(0), len)),
        "core::ops::range::RangeFull" => Some((int(0), len)),
        "core::ops::range::RangeToInclusive" => Some((int(0), mk_add(f(0), int(1)))),
        "core::ops::range::RangeInclusive" => Some((f(0), mk_add(f(1), int(1)))),
        _ => None,
    }
}

fn iter_elem_ty(e: &Eng, ret: TyId, owned: bool) -> Option<TyId> {
    let t = e.prog.field_ty(ret, 1, 0)?;
    if owned {
        return Some(t);
    }
    let t = if e.ty(t).k == Kind::Tuple { *e.ty(t).fields.get(1)? } else { t };
    e.pointee(t)
}

/// The key of an element of a range of a map lies in it.
fn in_range(e: &mut Eng, st: &mut State, it: Val, ep: Val) {
    let it = e.load(st, it, None);
    let r = match nd(it) {
        N::Op("iter_rng", a) => a[1],
        _ => return,
    };
    let k = op("mapkey", vec![ep]);
    if let N::Agg(t, _, a) = nd(r) {
        let lo_hi = match (e.ty(*t).path.as_str(), a.len()) {
            ("core::ops::range::Range", 2) => (Some(a[0]), Some((a[1], false))),
            ("core::ops::range::RangeFrom", 1) => (Some(a[0]), None),
            ("core::ops::range::RangeInclusive", 2 | 3) => (Some(a[0]), Some((a[1], true))),
            ("core::ops::range::RangeTo", 1) => (None, Some((a[0], false))),
            ("core::ops::range::RangeToInclusive", 1) => (None, Some((a[0], true))),
            _ => (None, None),
        };
        if let Some(l) = lo_hi.0 {
            let v = mk_lt(k, l);
            e.assume(st, v, 0);
        }
        match lo_hi.1 {
            Some((h, false)) => {
                let v = mk_lt(k, h);
                e.assume(st, v, 1);
            }
            Some((h, true)) => {
                let v = mk_lt(h, k);
                e.assume(st, v, 0);
            }
            None => {}
        }
    }
}
fn emit_next(e: &mut Eng, st: &mut State, c: &Call, seq: Val, elem: Option<Val>) {
    if let Some(mut m) = e.mon.take() {
        m.on_next(e, st, c, seq, elem);
        e.mon = Some(m);
    }
}
fn panic_event(e: &mut Eng, st: &State, what: &str, terms: &[Val]) {
    if let Some(mut m) = e.mon.take() {
        let mut s = st.clone();
        m.on_panic(e, &mut s, what, terms);
        e.mon = Some(m);
    }
}

fn do_read(e: &mut Eng, st: &mut State, p: Val, pt: Option<TyId>) -> Val {
    let (c, path) = e.target(p, pt);
    if let Some(mut m) = e.mon.take() {
        m.on_read(e, st, c, &path, pt.unwrap_or(e.prog.unk));
        e.mon = Some(m);
    }
    e.read(st, c, &path)
}
fn do_write(e: &mut Eng, st: &mut State, p: Val, pt: Option<TyId>, v: Val) {
    e.store(st, p, pt, v)
}

pub fn push(e: &mut Eng, st: &mut State, c: &Call, addr: Val, x: Val) {
    let v = e.load(st, addr, None);
    let mut d = 0;
    let mut w = v;
    while let N::Op("vec_push", a) = nd(w) {
        d += 1;
        w = a[0];
    }
    let nv = if d >= 3 || depth(x) > 25 {
        e.fresh(st, c.ctx, c.bb, 4)
    } else {
        op("vec_push", vec![v, x])
    };
    e.store(st, addr, None, nv);
}

/// The all-zero value of a type.
pub fn zero(e: &Eng, t: TyId, d: u32) -> Val {
    let ty = e.ty(t);
    if d > 6 {
        return op("zeroed", vec![]);
    }
    match ty.k {
        Kind::Bool => boolean(false),
        Kind::Int | Kind::Uint | Kind::Char | Kind::Float => int(0),
        Kind::Ptr => op("null", vec![]),
        Kind::Struct => {
            let f = ty.variants[0].fields.iter().map(|x| zero(e, x.1, d + 1)).collect();
            mk(N::Agg(t, 0, f))
        }
        Kind::Tuple => mk(N::Agg(t, 0, ty.fields.iter().map(|x| zero(e, *x, d + 1)).collect())),
        Kind::Array => {
            let z = ty.elem.map(|x| zero(e, x, d + 1)).unwrap_or_else(undef);
            if ty.n <= 8 {
                mk(N::Agg(t, 0, vec![z; ty.n as usize]))
            } else {
                op("rep", vec![z, int(ty.n)])
            }
        }
        _ => op("zeroed", vec![]),
    }
}

pub fn drop_model(_e: &mut Eng, _st: &mut State, _t: TyId, _v: Val, _c: CellId, _p: &[P]) {}

impl Eng {
    /// Whether an exhausted iterator over `seq` may have been empty or fully consumed.
    pub fn assume_len_zero_ok(&self, _seq: Val) -> bool {
        true
    }
    /// Does a function call itself, directly or through others of the analysed crates?
    pub fn self_recursive(&self, f: FnId) -> bool {
        let p = self.f(f).p.clone();
        let mut seen: std::collections::HashSet<FnId> = Default::default();
        let mut todo = vec![f];
        while let Some(x) = todo.pop() {
            let fd = self.f(x);
            if let Some(bs) = &fd.blocks {
                for b in bs.iter().flatten() {
                    if let Term::Call(Func::Static(c), args, ..) = &b.term {
                        let mut cs: Vec<FnId> = c.r.into_iter().collect();
                        let _ = args;
                        for t in c.args.iter().chain(&c.rargs) {
                            if let Some(b) = self.ty(*t).body {
                                cs.push(b);
                            }
                        }
                        for r in cs {
                            if r == f || (self.f(r).p == p && is_repo(self.f(r))) {
                                return true;
                            }
                            if is_repo(self.f(r)) && seen.insert(r) {
                                todo.push(r);
                            }
                        }
                    }
                }
            }
        }
        false
    }
}

fn last(p: &str) -> &str {
    p.rsplit("::").next().unwrap_or(p)
}
