//! Hash-consed abstract values and memory cells.
use crate::prog::TyId;
use std::cell::RefCell;
use std::collections::HashMap;

pub type Val = u32;
pub type CellId = u32;
pub type Ctx = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum P {
    F(u32),
    D(u32),
    I(Val),
    C(u64, bool),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Int(i128),
    Bool(bool),
    Str(String),
    Bytes(usize, Vec<u8>),
    Unit,
    Undef,
    Fn(u32),
    FnItem(TyId),
    Agg(TyId, u32, Vec<Val>),
    Ref(CellId, Vec<P>),
    Fat(Val, Val),
    /// result of a leaf call at a site; gen 1 stands for all older results of the site
    Sym(Ctx, u32, u32, u8),
    Param(String),
    Fld(Val, P),
    Deref(Val),
    Disc(Val),
    Op(&'static str, Vec<Val>),
    Phi(u32, u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cell {
    Local(Ctx, u32),
    Heap(Ctx, u32, u32, u8),
    Der(Val),
    Static(&'static str),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum At {
    A(Val),
    C(CellId),
}

#[derive(Default)]
struct Arena {
    nodes: Vec<&'static N>,
    map: HashMap<&'static N, Val>,
    cells: Vec<Cell>,
    cmap: HashMap<Cell, CellId>,
    atoms: HashMap<Val, &'static [At]>,
    strs: HashMap<String, &'static str>,
    depth: HashMap<Val, u32>,
}

thread_local! {
    static AR: RefCell<Arena> = RefCell::new(Arena::default());
}

pub fn mk(n: N) -> Val {
    AR.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(&v) = a.map.get(&n) {
            return v;
        }
        let v = a.nodes.len() as Val;
        let r: &'static N = Box::leak(Box::new(n));
        a.nodes.push(r);
        a.map.insert(r, v);
        v
    })
}
pub fn nd(v: Val) -> &'static N {
    AR.with(|a| a.borrow().nodes[v as usize])
}
pub fn mk_cell(c: Cell) -> CellId {
    AR.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(&v) = a.cmap.get(&c) {
            return v;
        }
        let v = a.cells.len() as CellId;
        a.cells.push(c);
        a.cmap.insert(c, v);
        v
    })
}
pub fn cell(c: CellId) -> Cell {
    AR.with(|a| a.borrow().cells[c as usize])
}
pub fn sstr(s: &str) -> &'static str {
    AR.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(&v) = a.strs.get(s) {
            return v;
        }
        let r: &'static str = Box::leak(s.to_string().into_boxed_str());
        a.strs.insert(s.to_string(), r);
        r
    })
}

pub fn children(n: &N) -> Vec<Val> {
    match n {
        N::Agg(_, _, f) => f.clone(),
        N::Op(_, f) => f.clone(),
        N::Fat(a, b) => vec![*a, *b],
        N::Fld(a, p) => match p {
            P::I(i) => vec![*a, *i],
            _ => vec![*a],
        },
        N::Deref(a) | N::Disc(a) => vec![*a],
        N::Ref(_, ps) => ps.iter().filter_map(|p| if let P::I(i) = p { Some(*i) } else { None }).collect(),
        _ => vec![],
    }
}

/// Atoms (fresh symbols, parameters, phis) and cells a value mentions.
pub fn atoms(v: Val) -> &'static [At] {
    if let Some(r) = AR.with(|a| a.borrow().atoms.get(&v).copied()) {
        return r;
    }
    let n = nd(v);
    let mut out: Vec<At> = vec![];
    match n {
        N::Sym(..) | N::Param(_) | N::Phi(..) => out.push(At::A(v)),
        _ => {
            if let N::Ref(c, _) = n {
                out.push(At::C(*c));
                if let Cell::Der(p) = cell(*c) {
                    out.extend_from_slice(atoms(p));
                }
            }
            for c in children(n) {
                out.extend_from_slice(atoms(c));
            }
        }
    }
    out.sort();
    out.dedup();
    let r: &'static [At] = Box::leak(out.into_boxed_slice());
    AR.with(|a| a.borrow_mut().atoms.insert(v, r));
    r
}

pub fn depth(v: Val) -> u32 {
    if let Some(r) = AR.with(|a| a.borrow().depth.get(&v).copied()) {
        return r;
    }
    let d = 1 + children(nd(v)).into_iter().map(depth).max().unwrap_or(0);
    AR.with(|a| a.borrow_mut().depth.insert(v, d));
    d
}

pub fn mentions(v: Val, a: At) -> bool {
    atoms(v).binary_search(&a).is_ok()
}

pub fn int(i: i128) -> Val {
    mk(N::Int(i))
}
pub fn boolean(b: bool) -> Val {
    mk(N::Bool(b))
}
pub fn unit() -> Val {
    mk(N::Unit)
}
pub fn undef() -> Val {
    mk(N::Undef)
}
pub fn op(o: &str, a: Vec<Val>) -> Val {
    mk(N::Op(sstr(o), a))
}
pub fn as_int(v: Val) -> Option<i128> {
    match nd(v) {
        N::Int(i) => Some(*i),
        N::Bool(b) => Some(*b as i128),
        _ => None,
    }
}
pub fn is_op<'a>(v: Val, o: &str) -> Option<&'a [Val]> {
    match nd(v) {
        N::Op(p, a) if *p == o => Some(a),
        _ => None,
    }
}
/// does `v` contain `x` as a subterm
pub fn contains(v: Val, x: Val) -> bool {
    if v == x {
        return true;
    }
    if let N::Ref(c, _) = nd(v) {
        if let Cell::Der(p) = cell(*c) {
            if contains(p, x) {
                return true;
            }
        }
    }
    children(nd(v)).into_iter().any(|c| contains(c, x))
}
pub fn any_sub(v: Val, f: &mut dyn FnMut(Val) -> bool) -> bool {
    if f(v) {
        return true;
    }
    if let N::Ref(c, _) = nd(v) {
        if let Cell::Der(p) = cell(*c) {
            if any_sub(p, f) {
                return true;
            }
        }
    }
    children(nd(v)).into_iter().any(|c| any_sub(c, f))
}

/// Simultaneous substitution of values and cells.
#[derive(Default)]
pub struct Subst {
    pub v: HashMap<Val, Val>,
    pub c: HashMap<CellId, CellId>,
}

impl Subst {
    pub fn cell(&mut self, c: CellId) -> CellId {
        if let Some(&r) = self.c.get(&c) {
            return r;
        }
        let r = match cell(c) {
            Cell::Der(p) => {
                let q = self.val(p);
                if q == p {
                    c
                } else {
                    mk_cell(Cell::Der(q))
                }
            }
            _ => c,
        };
        self.c.insert(c, r);
        r
    }
    fn p(&mut self, p: P) -> P {
        match p {
            P::I(v) => P::I(self.val(v)),
            p => p,
        }
    }
    pub fn val(&mut self, v: Val) -> Val {
        if let Some(&r) = self.v.get(&v) {
            return r;
        }
        let n = nd(v);
        let r = match n {
            N::Agg(t, k, f) => {
                let f = f.iter().map(|x| self.val(*x)).collect();
                mk(N::Agg(*t, *k, f))
            }
            N::Op(o, f) => {
                let f = f.iter().map(|x| self.val(*x)).collect();
                mk(N::Op(o, f))
            }
            N::Fat(a, b) => {
                let (a, b) = (self.val(*a), self.val(*b));
                mk(N::Fat(a, b))
            }
            N::Fld(a, p) => {
                let a = self.val(*a);
                let p = self.p(*p);
                mk(N::Fld(a, p))
            }
            N::Deref(a) => {
                let a = self.val(*a);
                mk(N::Deref(a))
            }
            N::Disc(a) => {
                let a = self.val(*a);
                mk(N::Disc(a))
            }
            N::Ref(c, ps) => {
                let c = self.cell(*c);
                let ps = ps.iter().map(|p| self.p(*p)).collect();
                mk(N::Ref(c, ps))
            }
            _ => v,
        };
        self.v.insert(v, r);
        r
    }
}

pub fn show(v: Val) -> String {
    show_d(v, 0)
}
pub fn show_cell(c: CellId) -> String {
    match cell(c) {
        Cell::Local(x, l) => format!("L{x}.{l}"),
        Cell::Heap(x, b, t, g) => format!("H{x}.{b}.{t}{}", if g > 0 { "'" } else { "" }),
        Cell::Der(p) => format!("*({})", show_d(p, 3)),
        Cell::Static(s) => format!("static {s}"),
    }
}
fn show_d(v: Val, d: u32) -> String {
    if d > 9 {
        return "..".into();
    }
    let l = |f: &Vec<Val>| f.iter().map(|x| show_d(*x, d + 1)).collect::<Vec<_>>().join(", ");
    let p = |p: &P| match p {
        P::F(i) => format!(".{i}"),
        P::D(i) => format!("#{i}"),
        P::I(v) => format!("[{}]", show_d(*v, d + 1)),
        P::C(i, e) => format!("[{}{i}]", if *e { "-" } else { "" }),
    };
    match nd(v) {
        N::Int(i) => i.to_string(),
        N::Bool(b) => b.to_string(),
        N::Str(s) => format!("{s:?}"),
        N::Bytes(..) => "bytes".into(),
        N::Unit => "()".into(),
        N::Undef => "undef".into(),
        N::Fn(f) => format!("fn{f}"),
        N::FnItem(t) => format!("fnitem{t}"),
        N::Agg(t, k, f) => format!("{{{t}#{k} {}}}", l(f)),
        N::Ref(c, ps) => format!("&{}{}", show_cell(*c), ps.iter().map(p).collect::<String>()),
        N::Fat(a, b) => format!("fat({}, {})", show_d(*a, d + 1), show_d(*b, d + 1)),
        N::Sym(c, b, t, g) => format!("s{c}.{b}.{t}{}", if *g > 0 { "'" } else { "" }),
        N::Param(s) => s.clone(),
        N::Fld(a, q) => format!("{}{}", show_d(*a, d + 1), p(q)),
        N::Deref(a) => format!("*{}", show_d(*a, d + 1)),
        N::Disc(a) => format!("disc({})", show_d(*a, d + 1)),
        N::Op(o, f) => format!("{o}({})", l(f)),
        N::Phi(a, b) => format!("phi{a}.{b}"),
    }
}
