//! Flow-insensitive provenance: where may a value come from (fields are told apart by the type that
//! declares them, not by object).
use crate::eng::*;
use crate::prog::*;
use std::collections::{BTreeSet, HashMap, HashSet};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Nd {
    L(FnId, u32),
    Fld(String, u32, u32),
    Ret(FnId),
    Src(String),
}

/// how a value gets from one place to another: within a function, out of or into the callee of a call
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Via {
    Own,
    Out(u32),
    In(u32),
}
pub struct Prov {
    back: HashMap<Nd, HashSet<(Nd, Via)>>,
}

impl Prov {
    pub fn place(e: &Eng, f: &FnD, p: &Place) -> Nd {
        let mut t = f.locals[p.local as usize];
        let mut var = 0;
        let mut out = Nd::L(f.id, p.local);
        for pr in &p.proj {
            let ty = e.ty(t);
            if let Proj::Field(i, _) = pr {
                if ty.k == Kind::Closure {
                    out = Nd::Fld(format!("closure {:?}", ty.body), 0, *i);
                } else if owner(e, ty) {
                    out = Nd::Fld(ty.path.clone(), var, *i);
                }
            }
            match pr {
                Proj::Down(v) => var = *v,
                Proj::Field(_, ft) => {
                    var = 0;
                    t = *ft;
                }
                Proj::Deref | Proj::Index(_) | Proj::CIdx(..) => {
                    let ty = e.ty(t);
                    if ty.is_box {
                        if let Some(a) = ty.args.first() {
                            t = *a;
                        }
                    } else if let Some(el) = ty.elem {
                        t = el;
                    }
                }
                _ => {}
            }
        }
        out
    }
    fn operand(e: &Eng, f: &FnD, o: &Operand) -> Nd {
        match o {
            Operand::Copy(p) | Operand::Move(p) => Self::place(e, f, p),
            Operand::Const(_, _, s) => Nd::Src(format!("const {s}")),
            Operand::Rc => Nd::Src("const".into()),
        }
    }
    fn edge(&mut self, dst: Nd, src: Nd) {
        self.back.entry(dst).or_default().insert((src, Via::Own));
    }
    fn link(&mut self, dst: Nd, src: Nd, via: Via) {
        self.back.entry(dst).or_default().insert((src, via));
    }
    pub fn new(e: &Eng) -> Self {
        let mut s = Prov { back: HashMap::new() };
        let mut sites = 0;
        for f in &e.prog.fns {
            for b in f.blocks.iter().flatten().flatten() {
                for st in &b.stmts {
                    let (pl, rv) = match st {
                        Stmt::Assign(p, r, _) => (p, r),
                        _ => continue,
                    };
                    let d = Self::place(e, f, pl);
                    match rv {
                        Rv::Use(o) | Rv::Rep(o, _) | Rv::Cast(_, o, _) | Rv::Un(_, o) => {
                            let x = Self::operand(e, f, o);
                            s.edge(d, x);
                        }
                        Rv::Ref(p, m, _) => {
                            let x = Self::place(e, f, p);
                            s.edge(d.clone(), x.clone());
                            if *m {
                                s.edge(x, d);
                            }
                        }
                        Rv::Bin(_, a, b) => {
                            let (a, b) = (Self::operand(e, f, a), Self::operand(e, f, b));
                            s.edge(d.clone(), a);
                            s.edge(d, b);
                        }
                        Rv::Tls(n) => s.edge(d, Nd::Src(format!("static {n}"))),
                        Rv::Disc(_) => {}
                        Rv::Agg(k, ops) => {
                            for (i, o) in ops.iter().enumerate() {
                                let x = Self::operand(e, f, o);
                                let dst = match k {
                                    AggK::Adt(t, v, a) if owner(e, e.ty(*t)) => Nd::Fld(e.ty(*t).path.clone(), *v, a.unwrap_or(i as u32)),
                                    AggK::Closure(t) => Nd::Fld(format!("closure {:?}", e.ty(*t).body), 0, i as u32),
                                    _ => d.clone(),
                                };
                                s.edge(dst, x);
                            }
                        }
                    }
                }
                if let Term::Call(func, args, dest, ..) = &b.term {
                    let d = Self::place(e, f, dest);
                    let c = match func {
                        Func::Static(c) => Some(c.clone()),
                        Func::Op(o) => e.op_ty(f, o).and_then(|t| e.ty(t).callee.clone()),
                    };
                    let name = c.as_ref().map_or("indirect".to_string(), |c| c.rp.clone());
                    let r = c.and_then(|c| c.r).filter(|r| e.f(*r).blocks.is_some() && is_repo(e.f(*r)) && !accessor(e, e.f(*r)));
                    let ops: Vec<Nd> = args.iter().map(|a| Self::operand(e, f, a)).collect();
                    match r {
                        Some(r) => {
                            sites += 1;
                            for (i, o) in ops.into_iter().enumerate() {
                                s.link(Nd::L(r, i as u32 + 1), o, Via::In(sites));
                            }
                            s.link(d, Nd::Ret(r), Via::Out(sites));
                        }
                        None if name.starts_with("libc::") => s.edge(d, Nd::Src(format!("call {name}"))),
                        None => {
                            if ops.is_empty() {
                                s.edge(d.clone(), Nd::Src(format!("call {name}")));
                            }
                            for o in ops {
                                s.edge(d.clone(), o);
                            }
                        }
                    }
                }
            }
            if f.blocks.is_some() {
                s.edge(Nd::Ret(f.id), Nd::L(f.id, 0));
            }
        }
        s
    }
    pub fn sources(&self, e: &Eng, f: FnId, o: &Operand) -> BTreeSet<String> {
        let start = Self::operand(e, e.f(f), o);
        let mut seen = HashSet::new();
        // calls whose results are being looked into: their arguments are those of the same call
        let mut todo: Vec<(Nd, Vec<u32>)> = vec![(start, vec![])];
        let mut out = BTreeSet::new();
        while let Some((n, mut at)) = todo.pop() {
            // a field may have been set in any call
            if matches!(n, Nd::Fld(..)) {
                at.clear();
            }
            if !seen.insert((n.clone(), at.clone())) {
                continue;
            }
            if let Nd::Src(s) = &n {
                out.insert(s.clone());
                continue;
            }
            match self.back.get(&n) {
                Some(b) => {
                    for (m, via) in b {
                        let mut at = at.clone();
                        match via {
                            Via::Own => {}
                            // deeper calls are not told apart
                            Via::Out(k) => {
                                if at.len() < 3 && !at.contains(k) {
                                    at.push(*k);
                                } else {
                                    at.clear();
                                }
                            }
                            Via::In(k) => match at.pop() {
                                Some(top) if top != *k => continue,
                                _ => {}
                            },
                        }
                        todo.push((m.clone(), at));
                    }
                }
                None => {
                    if let Nd::L(f, i) = n {
                        if i >= 1 && i <= e.f(f).ac {
                            out.insert(format!("parameter {i} of {}", e.f(f).p));
                        }
                    }
                }
            }
        }
        out
    }
}

/// Struct or enum of the analysed crates whose fields are told apart; wrappers of one value are not.
fn owner(e: &Eng, ty: &Type) -> bool {
    if !matches!(ty.k, Kind::Struct | Kind::Enum | Kind::Union) || !ty.krate.starts_with("ipmb") {
        return false;
    }
    let fs: Vec<TyId> = ty.variants.iter().flat_map(|v| v.fields.iter().map(|f| f.1)).collect();
    fs.len() != 1
}
/// A function without calls of its own: its result is made of its arguments.
fn accessor(e: &Eng, f: &FnD) -> bool {
    f.ac > 0
        && f.blocks.iter().flatten().flatten().all(|b| match &b.term {
            Term::Call(Func::Static(c), ..) => !c.r.map_or(false, |r| is_repo(e.f(r))) && !c.rp.starts_with("libc::"),
            Term::Call(..) => false,
            _ => true,
        })
}
