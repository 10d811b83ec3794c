//! Which functions matter to a rule: those that may, directly or through what they call, reach one
//! of the rule's events.  Everything else is kept only if it is small and free of loops (so that its
//! value can be computed), otherwise its result is an unknown value.
use crate::eng::*;
use crate::prog::*;
use std::collections::{HashMap, HashSet};

pub struct Rel {
    pub relevant: HashSet<FnId>,
    pub small: HashSet<FnId>,
}

/// Functions a type's operations may run: closure bodies, fn items, iterator steps.
fn ty_fns(p: &Prog, t: TyId, out: &mut Vec<FnId>, seen: &mut HashSet<TyId>) {
    if !seen.insert(t) {
        return;
    }
    let ty = &p.types[t as usize];
    if let Some(b) = ty.body {
        out.push(b);
    }
    if let Some(n) = ty.next {
        out.push(n);
    }
    if let Some(c) = &ty.callee {
        if let Some(r) = c.r {
            out.push(r);
        }
    }
    if matches!(ty.k, Kind::Ref) {
        if let Some(e) = ty.elem {
            ty_fns(p, e, out, seen);
        }
    }
    if ty.k == Kind::Struct && (ty.path.starts_with("core::iter") || ty.path.starts_with("core::option")) {
        for a in &ty.args {
            ty_fns(p, *a, out, seen);
        }
    }
}

pub fn drop_fns(p: &Prog, t: TyId, out: &mut Vec<FnId>, seen: &mut HashSet<TyId>) {
    if !seen.insert(t) {
        return;
    }
    let ty = &p.types[t as usize];
    if !ty.needs_drop || ty.mdrop {
        return;
    }
    if let Some(d) = ty.drop {
        out.push(d);
    }
    for v in &ty.variants {
        for f in &v.fields {
            drop_fns(p, f.1, out, seen);
        }
    }
    for f in &ty.fields {
        drop_fns(p, *f, out, seen);
    }
    for a in &ty.args {
        drop_fns(p, *a, out, seen);
    }
    if let Some(e) = ty.elem {
        if matches!(ty.k, Kind::Slice | Kind::Array) {
            drop_fns(p, e, out, seen);
        }
    }
}

fn const_op<'a>(o: &'a Operand) -> Option<TyId> {
    match o {
        Operand::Const(t, ..) => Some(*t),
        _ => None,
    }
}

/// Direct callees (resolved bodies) and the names called.
pub fn edges(e: &Eng, f: &FnD) -> (Vec<FnId>, Vec<String>, Vec<TyId>) {
    let p = &e.prog;
    let mut out = vec![];
    let mut names = vec![];
    let mut drops = vec![];
    for b in f.blocks.iter().flatten().flatten() {
        match &b.term {
            Term::Call(func, args, _, _, _) => {
                match func {
                    Func::Static(c) => {
                        names.push(c.p.clone());
                        names.push(c.rp.clone());
                        if let Some(r) = c.r {
                            out.push(r);
                        }
                    }
                    Func::Op(o) => {
                        if let Some(t) = e.op_ty(f, o) {
                            if let Some(c) = &p.types[t as usize].callee {
                                names.push(c.p.clone());
                                names.push(c.rp.clone());
                            }
                            ty_fns(p, t, &mut out, &mut HashSet::new());
                        }
                    }
                }
                for a in args {
                    let t = const_op(a).or_else(|| e.op_ty(f, a));
                    if let Some(t) = t {
                        ty_fns(p, t, &mut out, &mut HashSet::new());
                    }
                }
            }
            Term::Drop(_, t, _) => {
                drops.push(*t);
                drop_fns(p, *t, &mut out, &mut HashSet::new());
            }
            _ => {}
        }
        for s in &b.stmts {
            if let Stmt::Assign(_, Rv::Cast(_, Operand::Const(t, cv, _), _), _) = s {
                if let CV::FnPtr(f, _) = cv {
                    out.push(*f);
                }
                ty_fns(p, *t, &mut out, &mut HashSet::new());
            }
        }
    }
    (out, names, drops)
}

pub fn reaching(e: &Eng, pred: &dyn Fn(&str) -> bool, tpred: &dyn Fn(&Type) -> bool, fpred: &dyn Fn(&FnD) -> bool) -> HashSet<FnId> {
    let p = &e.prog;
    let mut rev: HashMap<FnId, Vec<FnId>> = HashMap::new();
    let mut todo = vec![];
    let mut rel = HashSet::new();
    for f in &p.fns {
        if f.blocks.is_none() {
            continue;
        }
        let (out, names, drops) = edges(e, f);
        let mut hit = false;
        for o in out {
            hit |= fpred(e.f(o));
            rev.entry(o).or_default().push(f.id);
        }
        if hit || names.iter().any(|n| pred(n)) || drops.iter().any(|t| any_part(p, *t, tpred, &mut HashSet::new())) {
            if rel.insert(f.id) {
                todo.push(f.id);
            }
        }
    }
    while let Some(x) = todo.pop() {
        for c in rev.get(&x).cloned().unwrap_or_default() {
            if rel.insert(c) {
                todo.push(c);
            }
        }
    }
    rel
}

/// does dropping `t` drop a part satisfying the predicate
pub fn any_part(p: &Prog, t: TyId, tp: &dyn Fn(&Type) -> bool, seen: &mut HashSet<TyId>) -> bool {
    if !seen.insert(t) {
        return false;
    }
    let ty = &p.types[t as usize];
    if !ty.needs_drop {
        return false;
    }
    if tp(ty) {
        return true;
    }
    ty.variants.iter().any(|v| v.fields.iter().any(|f| any_part(p, f.1, tp, seen))) || ty.fields.iter().any(|f| any_part(p, *f, tp, seen)) || ty.args.iter().any(|f| any_part(p, *f, tp, seen))
}

/// Functions whose whole call tree is small and loop-free.
pub fn small(e: &mut Eng, budget: u32) -> HashSet<FnId> {
    fn size(e: &mut Eng, f: FnId, memo: &mut HashMap<FnId, Option<u32>>, stack: &mut Vec<FnId>, budget: u32) -> Option<u32> {
        if let Some(r) = memo.get(&f) {
            return *r;
        }
        if stack.contains(&f) || stack.len() > 30 {
            return None;
        }
        if e.f(f).blocks.is_none() {
            return Some(0);
        }
        let inf = e.info(f);
        if !inf.heads.is_empty() {
            memo.insert(f, None);
            return None;
        }
        stack.push(f);
        let (out, ..) = {
            let fd = e.f(f);
            edges(e, fd)
        };
        let mut n = e.f(f).blocks.as_ref().unwrap().iter().flatten().count() as u32;
        let mut r = Some(());
        for o in out {
            match size(e, o, memo, stack, budget) {
                Some(k) => n += k,
                None => {
                    r = None;
                    break;
                }
            }
            if n > budget {
                r = None;
                break;
            }
        }
        stack.pop();
        let res = r.map(|_| n);
        memo.insert(f, res);
        res
    }
    let mut memo = HashMap::new();
    let ids: Vec<FnId> = e.prog.fns.iter().filter(|f| f.blocks.is_some()).map(|f| f.id).collect();
    let mut out = HashSet::new();
    for f in ids {
        if size(e, f, &mut memo, &mut vec![], budget).is_some() {
            out.insert(f);
        }
    }
    out
}

impl Eng {
    /// Restrict inlining to what can reach an event.
    pub fn focus(&mut self, pred: &dyn Fn(&str) -> bool, tpred: &dyn Fn(&Type) -> bool, budget: u32) {
        let relevant = reaching(self, pred, tpred, &|_| false);
        let small = small(self, budget);
        self.rel = Some(Rel { relevant, small });
    }
    /// Inline everything of the analysed crates; of the libraries only what calls back into them.
    pub fn focus_repo(&mut self, budget: u32) {
        let mut relevant = reaching(self, &|n| n.contains("ipmb"), &|_| false, &is_repo);
        relevant.extend(self.prog.fns.iter().filter(|f| is_repo(f)).map(|f| f.id));
        let small = small(self, budget);
        self.rel = Some(Rel { relevant, small });
    }
    pub fn skip(&self, f: FnId) -> bool {
        match &self.rel {
            None => false,
            Some(r) => (f as usize) < self.prog.fns.len() && !r.relevant.contains(&f) && !r.small.contains(&f),
        }
    }
}
