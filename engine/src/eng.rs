//! The dataflow engine: a context-sensitive abstract interpreter over the exported program.
//! States are propagated along the interprocedural control-flow graph to a fixpoint; states at
//! merge points are deduplicated, states at loop heads are joined.  Rules attach as monitors.
use crate::prog::*;
use crate::val::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Fact {
    pub eq: Option<i128>,
    pub ne: Vec<i128>,
    pub lo: Option<i128>,
    pub hi: Option<i128>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct DropFrame {
    pub ctx: Ctx,
    pub site: u32,
    pub target: u32,
    pub pending: Vec<DropItem>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum DropItem {
    Val(CellId, Vec<P>, TyId, u32),
    After(CellId, Vec<P>, TyId, u32),
}

pub struct Trace {
    pub prev: Option<Rc<Trace>>,
    pub at: String,
}

#[derive(Clone)]
pub struct State {
    pub ctx: Ctx,
    pub bb: u32,
    pub mem: BTreeMap<CellId, Val>,
    pub facts: BTreeMap<Val, Fact>,
    pub ghost: BTreeMap<(u16, Val), Val>,
    pub drops: Vec<DropFrame>,
    pub trace: Option<Rc<Trace>>,
}

/// operations whose operands are joined one by one
const STRUCT_OPS: [&str; 19] = ["quart", "elem", "dataof", "len", "lt", "eq", "not", "tadd", "tsub", "weak", "vec_len", "vec_raw", "vec_cap", "slice", "padd", "decoded", "u32ne", "arr", "bytes32"];

impl State {
    pub fn g(&self, tag: u16, key: Val) -> Option<Val> {
        self.ghost.get(&(tag, key)).copied()
    }
    pub fn gi(&self, tag: u16) -> i128 {
        self.ghost.get(&(tag, unit())).and_then(|v| as_int(*v)).unwrap_or(0)
    }
    pub fn gset(&mut self, tag: u16, key: Val, v: Val) {
        self.ghost.insert((tag, key), v);
    }
    pub fn gseti(&mut self, tag: u16, v: i128) {
        if v == 0 {
            self.ghost.remove(&(tag, unit()));
        } else {
            self.ghost.insert((tag, unit()), int(v));
        }
    }
    pub fn gdel(&mut self, tag: u16, key: Val) {
        self.ghost.remove(&(tag, key));
    }
    pub fn gclear(&mut self, tag: u16) {
        self.ghost.retain(|k, _| k.0 != tag);
    }
    pub fn gkeys(&self, tag: u16) -> Vec<(Val, Val)> {
        self.ghost.iter().filter(|(k, _)| k.0 == tag).map(|(k, v)| (k.1, *v)).collect()
    }
    fn hash(&self) -> (u64, u64) {
        let mut h = DefaultHasher::new();
        self.ctx.hash(&mut h);
        self.bb.hash(&mut h);
        self.mem.hash(&mut h);
        self.facts.hash(&mut h);
        self.ghost.hash(&mut h);
        self.drops.hash(&mut h);
        let a = h.finish();
        0xabcdefu64.hash(&mut h);
        self.mem.hash(&mut h);
        (a, h.finish())
    }
    pub fn note(&mut self, s: String) {
        self.trace = Some(Rc::new(Trace { prev: self.trace.take(), at: s }));
    }
}

#[derive(Clone, Debug)]
pub struct Call {
    /// path as named at the call site and path of the resolved function
    pub p: String,
    pub rp: String,
    pub f: Option<FnId>,
    pub args: Vec<Val>,
    pub argtys: Vec<TyId>,
    pub targs: Vec<TyId>,
    pub ret: TyId,
    pub ctx: Ctx,
    pub bb: u32,
    pub line: String,
    /// the function value of a call through a pointer
    pub fv: Option<Val>,
    pub diverges: bool,
}

impl Call {
    /// either path matches
    pub fn is(&self, s: &str) -> bool {
        self.rp == s || self.p == s
    }
    pub fn has(&self, s: &str) -> bool {
        self.rp.contains(s) || self.p.contains(s)
    }
}

pub enum Act {
    Default,
    Leaf,
    Ret(Val),
    /// several outcomes, each with its own state
    Forks(Vec<(State, Val)>),
    Stop,
}

#[allow(unused_variables)]
pub trait Mon {
    fn leaf(&self, e: &Eng, f: &FnD) -> bool {
        false
    }
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        Act::Default
    }
    fn after(&mut self, e: &mut Eng, st: &mut State, c: &Call, ret: Val) {}
    fn on_enter(&mut self, e: &mut Eng, st: &mut State, c: &Call) {}
    fn on_ret(&mut self, e: &mut Eng, st: &mut State, f: FnId, ret: Val) {}
    fn on_drop(&mut self, e: &mut Eng, st: &mut State, ty: TyId, v: Val, cell: CellId, path: &[P]) {}
    fn on_write(&mut self, e: &mut Eng, st: &mut State, cell: CellId, path: &[P], v: Val) {}
    fn on_read(&mut self, e: &mut Eng, st: &mut State, cell: CellId, path: &[P], ty: TyId) {}
    fn on_panic(&mut self, e: &mut Eng, st: &mut State, what: &str, terms: &[Val]) {}
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {}
    fn on_assume(&mut self, e: &mut Eng, st: &mut State, v: Val, n: Option<i128>) {}
    fn on_next(&mut self, e: &mut Eng, st: &mut State, c: &Call, seq: Val, elem: Option<Val>) {}
    fn on_loop(&mut self, e: &mut Eng, st: &mut State) {}
    fn on_block(&mut self, e: &mut Eng, st: &mut State) {}
}

pub struct NoMon;
impl Mon for NoMon {}

pub struct FnInfo {
    pub preds: Vec<u32>,
    pub heads: HashSet<u32>,
    pub live: Vec<HashSet<u32>>,
    pub taken: HashSet<u32>,
}

#[derive(Clone, Debug)]
pub struct CtxInfo {
    pub parent: Option<Ctx>,
    pub site: u32,
    pub f: FnId,
    pub drop: u32, // 0: call, otherwise drop frame ordinal
    pub depth: u32,
}

#[derive(Default)]
struct Point {
    seen: HashSet<(u64, u64)>,
    joined: HashMap<u64, Vec<State>>,
    counts: HashMap<u64, u32>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Violation {
    pub key: String,
    pub msg: String,
    pub loc: String,
    pub trace: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub blocks: u64,
    pub states: u64,
    pub fns: BTreeSet<FnId>,
    pub edges: BTreeSet<(FnId, u32)>,
    pub leaf_calls: BTreeSet<String>,
    pub joins: u64,
    pub exhausted: bool,
    pub maxmem: usize,
}

pub struct Eng {
    pub prog: Rc<Prog>,
    pub infos: HashMap<FnId, Rc<FnInfo>>,
    pub ctxs: Vec<CtxInfo>,
    ctxmap: HashMap<(Option<Ctx>, u32, FnId, u32), Ctx>,
    points: HashMap<(Ctx, u32, u64), Point>,
    pub work: Vec<State>,
    pub mon: Option<Box<dyn Mon>>,
    pub viol: BTreeMap<String, Violation>,
    pub stats: Stats,
    pub celltype: HashMap<CellId, TyId>,
    pub synth: HashMap<String, FnId>,
    pub extra: Vec<FnD>,
    pub limit: u64,
    pub width: u32,
    pub counters: BTreeMap<String, u64>,
    pub samples: BTreeMap<String, String>,
    pub debug: bool,
    pub keep_ovf: bool,
    pub phis: HashMap<(Ctx, u32), u32>,
    pub paths: HashMap<String, Vec<TyId>>,
    pub rel: Option<crate::rel::Rel>,
    pub skipped: BTreeSet<FnId>,
}

pub type Loc = (CellId, Vec<P>);

/// time and memory of the whole run
fn over_budget() -> bool {
    static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    let t = START.get_or_init(std::time::Instant::now);
    let pages: u64 = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse().ok())).unwrap_or(0);
    t.elapsed().as_secs() > 420 || pages * 4096 > (12 << 30)
}

impl Eng {
    pub fn new(prog: Rc<Prog>) -> Self {
        let mut paths: HashMap<String, Vec<TyId>> = HashMap::new();
        for (i, t) in prog.types.iter().enumerate() {
            if !t.path.is_empty() && t.k != Kind::FnDef && t.k != Kind::Closure {
                paths.entry(t.path.clone()).or_default().push(i as u32);
            }
        }
        Eng {
            prog,
            infos: HashMap::new(),
            ctxs: vec![],
            ctxmap: HashMap::new(),
            points: HashMap::new(),
            work: vec![],
            mon: None,
            viol: BTreeMap::new(),
            stats: Stats::default(),
            celltype: HashMap::new(),
            synth: HashMap::new(),
            extra: vec![],
            limit: std::env::var("SA_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(4_000_000),
            width: std::env::var("SA_WIDTH").ok().and_then(|x| x.parse().ok()).unwrap_or(12),
            counters: BTreeMap::new(),
            samples: BTreeMap::new(),
            debug: std::env::var("SA_DEBUG").is_ok(),
            phis: HashMap::new(),
            keep_ovf: false,
            rel: None,
            skipped: BTreeSet::new(),
            paths,
        }
    }

    pub fn f(&self, id: FnId) -> &FnD {
        if (id as usize) < self.prog.fns.len() {
            &self.prog.fns[id as usize]
        } else {
            &self.extra[id as usize - self.prog.fns.len()]
        }
    }
    pub fn ty(&self, t: TyId) -> &Type {
        &self.prog.types[t as usize]
    }
    pub fn tys(&self, path: &str) -> Vec<TyId> {
        self.paths.get(path).cloned().unwrap_or_default()
    }
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_default() += 1;
    }
    /// Count distinct obligations/sites by name.
    pub fn site(&mut self, k: &str, what: String) {
        let key = format!("{k}: {what}");
        self.samples.entry(key).or_insert_with(|| k.to_string());
    }
    pub fn nsites(&self, k: &str) -> usize {
        self.samples.values().filter(|v| *v == k).count()
    }

    // ---------------------------------------------------------------- reporting
    pub fn report(&mut self, st: &State, key: &str, msg: String) {
        let loc = self.loc(st);
        let key = key.to_string();
        if self.viol.contains_key(&key) {
            return;
        }
        if std::env::var("SA_DUMPV").is_ok() {
            eprintln!("@@ {key}\n{}", dump_state(st).join("\n"));
        }
        let mut trace = vec![];
        let mut t = st.trace.clone();
        while let Some(x) = t {
            if trace.len() >= 40 {
                break;
            }
            trace.push(x.at.clone());
            t = x.prev.clone();
        }
        trace.reverse();
        self.viol.insert(key.clone(), Violation { key, msg, loc, trace });
    }
    pub fn chain(&self, ctx: Ctx) -> String {
        let mut v = vec![];
        let mut c = Some(ctx);
        while let Some(x) = c {
            v.push(short(&self.f(self.ctxs[x as usize].f).p));
            c = self.ctxs[x as usize].parent;
        }
        v.reverse();
        v.join(" > ")
    }
    /// Innermost function of the analysed crates on the stack, and its position.
    pub fn loc(&self, st: &State) -> String {
        let mut c = st.ctx;
        let mut bb = st.bb;
        loop {
            let ci = &self.ctxs[c as usize];
            let f = self.f(ci.f);
            if is_repo(f) || ci.parent.is_none() {
                let sp = f.blocks.as_ref().and_then(|b| b.get(bb as usize)).and_then(|b| b.as_ref()).map(|b| b.span.clone()).unwrap_or(f.span.clone());
                return format!("{} ({})", short_span(&sp), self.chain(c));
            }
            bb = ci.site;
            c = ci.parent.unwrap();
        }
    }
    /// Innermost repo function on the stack.
    pub fn repo_fn(&self, ctx: Ctx) -> String {
        let mut c = Some(ctx);
        while let Some(x) = c {
            let f = self.f(self.ctxs[x as usize].f);
            if is_repo(f) {
                return f.p.clone();
            }
            c = self.ctxs[x as usize].parent;
        }
        "?".into()
    }
    pub fn in_fn(&self, ctx: Ctx, pred: &dyn Fn(&FnD) -> bool) -> bool {
        let mut c = Some(ctx);
        while let Some(x) = c {
            if pred(self.f(self.ctxs[x as usize].f)) {
                return true;
            }
            c = self.ctxs[x as usize].parent;
        }
        false
    }

    // ---------------------------------------------------------------- static info
    pub fn info(&mut self, f: FnId) -> Rc<FnInfo> {
        if let Some(i) = self.infos.get(&f) {
            return i.clone();
        }
        let fd = self.f(f);
        let blocks = fd.blocks.as_ref().unwrap();
        let n = blocks.len();
        let mut preds = vec![0u32; n];
        let mut heads = HashSet::new();
        for b in blocks.iter().flatten() {
            let mut s = Prog::succs(&b.term);
            s.sort();
            s.dedup();
            for t in s {
                preds[t as usize] += 1;
            }
        }
        // back edges by iterative DFS
        let mut color = vec![0u8; n];
        let mut stack = vec![(0u32, 0usize)];
        color[0] = 1;
        while let Some((b, i)) = stack.pop() {
            let ss = blocks[b as usize].as_ref().map(|x| Prog::succs(&x.term)).unwrap_or_default();
            if i < ss.len() {
                stack.push((b, i + 1));
                let t = ss[i];
                if color[t as usize] == 0 {
                    color[t as usize] = 1;
                    stack.push((t, 0));
                } else if color[t as usize] == 1 {
                    heads.insert(t);
                }
            } else {
                color[b as usize] = 2;
            }
        }
        // address-taken locals
        let mut taken = HashSet::new();
        for b in blocks.iter().flatten() {
            for s in &b.stmts {
                if let Stmt::Assign(_, Rv::Ref(p, ..), _) = s {
                    if !p.proj.contains(&Proj::Deref) {
                        taken.insert(p.local);
                    }
                }
            }
            if let Term::Drop(p, ..) = &b.term {
                let _ = p;
            }
        }
        // liveness
        let mut live: Vec<HashSet<u32>> = vec![HashSet::new(); n];
        let mut changed = true;
        while changed {
            changed = false;
            for i in (0..n).rev() {
                let b = match &blocks[i] {
                    Some(b) => b,
                    None => continue,
                };
                let mut l: HashSet<u32> = HashSet::new();
                for s in Prog::succs(&b.term) {
                    l.extend(live[s as usize].iter().copied());
                }
                let usep = |p: &Place, l: &mut HashSet<u32>| {
                    l.insert(p.local);
                    for q in &p.proj {
                        if let Proj::Index(i) = q {
                            l.insert(*i);
                        }
                    }
                };
                let useo = |o: &Operand, l: &mut HashSet<u32>| {
                    if let Operand::Copy(p) | Operand::Move(p) = o {
                        l.insert(p.local);
                        for q in &p.proj {
                            if let Proj::Index(i) = q {
                                l.insert(*i);
                            }
                        }
                    }
                };
                let def = |p: &Place, l: &mut HashSet<u32>| {
                    if p.proj.is_empty() {
                        l.remove(&p.local);
                    } else {
                        usep(p, l);
                    }
                };
                match &b.term {
                    Term::Switch(o, ..) => useo(o, &mut l),
                    Term::Ret => {
                        l.insert(0);
                    }
                    Term::Drop(p, ..) => usep(p, &mut l),
                    Term::Call(f, a, d, ..) => {
                        def(d, &mut l);
                        if let Func::Op(o) = f {
                            useo(o, &mut l);
                        }
                        for o in a {
                            useo(o, &mut l);
                        }
                    }
                    Term::Assert(o, _, k, _) => {
                        useo(o, &mut l);
                        match k {
                            AssertK::Bounds(a, b) | AssertK::Ovf(_, a, b) => {
                                useo(a, &mut l);
                                useo(b, &mut l);
                            }
                            _ => {}
                        }
                    }
                    _ => {}
                }
                for s in b.stmts.iter().rev() {
                    match s {
                        Stmt::Assign(p, r, _) => {
                            def(p, &mut l);
                            match r {
                                Rv::Use(o) | Rv::Rep(o, _) | Rv::Cast(_, o, _) | Rv::Un(_, o) => useo(o, &mut l),
                                Rv::Ref(p, ..) | Rv::Disc(p) => usep(p, &mut l),
                                Rv::Bin(_, a, b) => {
                                    useo(a, &mut l);
                                    useo(b, &mut l);
                                }
                                Rv::Agg(_, os) => {
                                    for o in os {
                                        useo(o, &mut l);
                                    }
                                }
                                Rv::Tls(_) => {}
                            }
                        }
                        Stmt::SetDisc(p, _) => usep(p, &mut l),
                        Stmt::Dead(x) => {
                            l.remove(x);
                        }
                        Stmt::CopyNo(a, b, c) => {
                            useo(a, &mut l);
                            useo(b, &mut l);
                            useo(c, &mut l);
                        }
                    }
                }
                if l != live[i] {
                    live[i] = l;
                    changed = true;
                }
            }
        }
        let r = Rc::new(FnInfo { preds, heads, live, taken });
        self.infos.insert(f, r.clone());
        r
    }

    pub fn child(&mut self, parent: Option<Ctx>, site: u32, f: FnId, drop: u32) -> Ctx {
        let k = (parent, site, f, drop);
        if let Some(&c) = self.ctxmap.get(&k) {
            return c;
        }
        let depth = parent.map(|p| self.ctxs[p as usize].depth + 1).unwrap_or(0);
        let c = self.ctxs.len() as Ctx;
        self.ctxs.push(CtxInfo { parent, site, f, drop, depth });
        self.ctxmap.insert(k, c);
        c
    }
    pub fn recursive(&self, ctx: Ctx, f: FnId) -> bool {
        let p = &self.f(f).p;
        let a = &self.f(f).args;
        let mut c = Some(ctx);
        while let Some(x) = c {
            let i = &self.ctxs[x as usize];
            let g = self.f(i.f);
            if i.f == f || (is_repo(g) && g.p == *p && g.args == *a) {
                return true;
            }
            c = i.parent;
        }
        self.ctxs[ctx as usize].depth > 60
    }

    // ---------------------------------------------------------------- types of places
    pub fn place_ty(&self, f: &FnD, p: &Place) -> TyId {
        let mut t = f.locals[p.local as usize];
        for q in &p.proj {
            t = match q {
                Proj::Deref => self.ty(t).elem.or_else(|| self.ty(t).args.first().copied()).unwrap_or(t),
                Proj::Field(_, ft) => *ft,
                Proj::Index(_) | Proj::CIdx(..) => self.ty(t).elem.unwrap_or(t),
                _ => t,
            };
        }
        t
    }
    pub fn op_ty(&self, f: &FnD, o: &Operand) -> Option<TyId> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => Some(self.place_ty(f, p)),
            Operand::Const(t, ..) => Some(*t),
            Operand::Rc => None,
        }
    }

    // ---------------------------------------------------------------- memory
    pub fn initial(&self, c: CellId) -> Val {
        match cell(c) {
            Cell::Der(p) => match nd(p) {
                N::Op("str", a) => a[0],
                _ => mk(N::Deref(p)),
            },
            Cell::Static(s) => mk(N::Op("static", vec![mk(N::Str(s.to_string()))])),
            Cell::Local(..) | Cell::Heap(..) => undef(),
        }
    }
    pub fn project(&self, v: Val, p: P) -> Val {
        match nd(v) {
            N::Undef => v,
            N::Agg(_, k, f) => match p {
                P::F(i) => f.get(i as usize).copied().unwrap_or_else(undef),
                P::D(d) => {
                    if d == *k {
                        v
                    } else {
                        undef()
                    }
                }
                P::I(i) => match nd(i) {
                    N::Int(n) if *n >= 0 && (*n as usize) < f.len() => f[*n as usize],
                    _ => mk(N::Fld(v, p)),
                },
                P::C(o, e) => {
                    let i = if e { f.len() as i64 - o as i64 } else { o as i64 };
                    f.get(i as usize).copied().unwrap_or_else(undef)
                }
            },
            N::Op("store", a) => match p {
                P::I(i) if i == a[1] => a[2],
                P::I(i) if as_int(i).is_some() && as_int(a[1]).is_some() => self.project(a[0], p),
                P::F(_) => self.project(a[0], p),
                _ => mk(N::Fld(v, p)),
            },
            N::Op("upd", a) if a.len() == 3 => match p {
                P::F(i) if as_int(a[1]) == Some(i as i128) => a[2],
                P::F(_) => self.project(a[0], p),
                _ => mk(N::Fld(v, p)),
            },
            N::Op("rep", a) => match p {
                P::I(_) | P::C(..) => a[0],
                _ => mk(N::Fld(v, p)),
            },
            N::Op("zeroed", _) => mk(N::Op("zeroed", vec![])),
            _ => mk(N::Fld(v, p)),
        }
    }
    pub fn read(&self, st: &State, c: CellId, path: &[P]) -> Val {
        let mut v = st.mem.get(&c).copied().unwrap_or_else(|| self.initial(c));
        for p in path {
            v = self.project(v, *p);
        }
        v
    }
    /// Type reached from a cell's type along a path.
    pub fn walk_ty(&self, mut t: TyId, path: &[P]) -> Option<TyId> {
        let mut var = 0;
        for p in path {
            match p {
                P::F(i) => {
                    t = self.prog.field_ty(t, var, *i)?;
                    var = 0;
                }
                P::D(d) => var = *d,
                P::I(_) | P::C(..) => t = self.ty(t).elem?,
            }
        }
        Some(t)
    }
    fn expand(&self, v: Val, t: Option<TyId>, var: u32) -> Option<Val> {
        let t = t?;
        let ty = self.ty(t);
        let n = match ty.k {
            Kind::Struct | Kind::Enum => ty.variants.get(var as usize)?.fields.len(),
            Kind::Tuple | Kind::Closure => ty.fields.len(),
            _ => return None,
        };
        let base = if ty.k == Kind::Enum { mk(N::Fld(v, P::D(var))) } else { v };
        let fs = (0..n).map(|i| if *nd(v) == N::Undef { v } else { self.project(base, P::F(i as u32)) }).collect();
        Some(mk(N::Agg(t, var, fs)))
    }
    fn update(&self, base: Val, path: &[P], v: Val, t: Option<TyId>, var: u32) -> Val {
        if path.is_empty() {
            return v;
        }
        match path[0] {
            P::D(d) => {
                let b = match nd(base) {
                    N::Agg(_, k, _) if *k == d => base,
                    _ => self.expand(base, t, d).unwrap_or(base),
                };
                self.update(b, &path[1..], v, t, d)
            }
            P::F(i) => {
                let b = match nd(base) {
                    N::Agg(..) => base,
                    _ => match self.expand(base, t, var) {
                        Some(b) => b,
                        None => return op("upd", vec![base, int(i as i128), v]),
                    },
                };
                if let N::Agg(at, k, fs) = nd(b) {
                    let mut fs = fs.clone();
                    if (i as usize) >= fs.len() {
                        return base;
                    }
                    let ft = t.and_then(|t| self.prog.field_ty(t, *k, i)).or_else(|| self.prog.field_ty(*at, *k, i));
                    fs[i as usize] = self.update(fs[i as usize], &path[1..], v, ft, 0);
                    mk(N::Agg(*at, *k, fs))
                } else {
                    base
                }
            }
            P::I(i) => {
                let et = t.and_then(|t| self.ty(t).elem);
                let old = self.project(base, path[0]);
                let nv = self.update(old, &path[1..], v, et, 0);
                if let (N::Agg(at, k, fs), Some(n)) = (nd(base), as_int(i)) {
                    if n >= 0 && (n as usize) < fs.len() {
                        let mut fs = fs.clone();
                        fs[n as usize] = nv;
                        return mk(N::Agg(*at, *k, fs));
                    }
                }
                op("store", vec![base, i, nv])
            }
            P::C(o, e) => {
                if let N::Agg(at, k, fs) = nd(base) {
                    let i = if e { fs.len() as i64 - o as i64 } else { o as i64 } as usize;
                    if i < fs.len() {
                        let mut fs = fs.clone();
                        let et = t.and_then(|t| self.ty(t).elem);
                        fs[i] = self.update(fs[i], &path[1..], v, et, 0);
                        return mk(N::Agg(*at, *k, fs));
                    }
                }
                op("store", vec![base, int(o as i128), v])
            }
        }
    }
    pub fn write(&mut self, st: &mut State, c: CellId, path: &[P], v: Val) {
        if !matches!(cell(c), Cell::Local(..)) {
            if let Some(mut m) = self.mon.take() {
                m.on_write(self, st, c, path, v);
                self.mon = Some(m);
            }
        }
        self.write_raw(st, c, path, v)
    }
    pub fn write_raw(&mut self, st: &mut State, c: CellId, path: &[P], v: Val) {
        let weak = match cell(c) {
            Cell::Heap(_, _, _, g) => g > 0,
            Cell::Der(p) => atoms(p).iter().any(|a| matches!(a, At::A(x) if matches!(nd(*x), N::Sym(_,_,_,1)))),
            _ => false,
        };
        let base = st.mem.get(&c).copied().unwrap_or_else(|| self.initial(c));
        let t = self.celltype.get(&c).copied();
        let nv = self.update(base, path, v, t, 0);
        let nv = if weak && nv != base { op("weak", vec![base]) } else { nv };
        if depth(nv) > 40 {
            st.mem.insert(c, op("deep", vec![int(c as i128)]));
        } else {
            st.mem.insert(c, nv);
        }
    }
    /// Where a pointer value points.
    pub fn target(&mut self, p: Val, pointee: Option<TyId>) -> Loc {
        match nd(p) {
            N::Ref(c, path) => (*c, path.clone()),
            N::Fat(q, _) => {
                let q = *q;
                self.target(q, None)
            }
            _ => {
                let c = mk_cell(Cell::Der(p));
                if let Some(t) = pointee {
                    self.celltype.entry(c).or_insert(t);
                }
                (c, vec![])
            }
        }
    }
    pub fn load(&mut self, st: &State, p: Val, pointee: Option<TyId>) -> Val {
        let (c, path) = self.target(p, pointee);
        self.read(st, c, &path)
    }
    pub fn store(&mut self, st: &mut State, p: Val, pointee: Option<TyId>, v: Val) {
        let (c, path) = self.target(p, pointee);
        self.write(st, c, &path, v)
    }
    pub fn addr(&self, l: &Loc) -> Val {
        if l.1.is_empty() {
            if let Cell::Der(p) = cell(l.0) {
                return p;
            }
        }
        mk(N::Ref(l.0, l.1.clone()))
    }
    /// Pointee type of a pointer type.
    pub fn pointee(&self, t: TyId) -> Option<TyId> {
        let ty = self.ty(t);
        match ty.k {
            Kind::Ref | Kind::Ptr => ty.elem,
            _ if ty.is_box => ty.args.first().copied(),
            _ => None,
        }
    }
    pub fn local(&mut self, ctx: Ctx, l: u32) -> CellId {
        let c = mk_cell(Cell::Local(ctx, l));
        if !self.celltype.contains_key(&c) {
            let t = self.f(self.ctxs[ctx as usize].f).locals[l as usize];
            self.celltype.insert(c, t);
        }
        c
    }
    pub fn place(&mut self, st: &State, p: &Place) -> Loc {
        let ctx = st.ctx;
        let mut c = self.local(ctx, p.local);
        let mut path: Vec<P> = vec![];
        let fid = self.ctxs[ctx as usize].f;
        let mut t = self.f(fid).locals[p.local as usize];
        for q in &p.proj {
            match q {
                Proj::Deref => {
                    let v = self.read(st, c, &path);
                    let pt = self.pointee(t);
                    let l = self.target(v, pt);
                    c = l.0;
                    path = l.1;
                    t = pt.unwrap_or(t);
                }
                Proj::Field(i, ft) => {
                    if self.ty(t).is_box && *i == 0 {
                        // the pointer inside a box is the value of the box
                    } else if self.ty(t).k == Kind::Union || self.ty(t).path == "core::mem::manually_drop::ManuallyDrop" || self.ty(t).path == "core::mem::maybe_dangling::MaybeDangling" || self.ty(t).path == "core::cell::UnsafeCell" {
                        // overlays
                    } else {
                        path.push(P::F(*i));
                    }
                    t = *ft;
                }
                Proj::Down(d) => path.push(P::D(*d)),
                Proj::Index(l) => {
                    let lc = self.local(ctx, *l);
                    let v = self.read(st, lc, &[]);
                    path.push(P::I(v));
                    t = self.ty(t).elem.unwrap_or(t);
                }
                Proj::CIdx(o, e) => {
                    path.push(P::C(*o, *e));
                    t = self.ty(t).elem.unwrap_or(t);
                }
                _ => {}
            }
        }
        (c, path)
    }
    pub fn cv(&mut self, t: TyId, c: &CV) -> Val {
        let ty = self.ty(t);
        match c {
            CV::Int(i) => {
                if ty.k == Kind::Bool {
                    boolean(*i != 0)
                } else {
                    int(*i)
                }
            }
            CV::Str(s) => mk(N::Str(s.clone())),
            CV::Fn => mk(N::FnItem(t)),
            CV::Zst => match ty.k {
                Kind::FnDef => mk(N::FnItem(t)),
                Kind::Struct | Kind::Closure if ty.variants.first().map_or(true, |v| v.fields.is_empty()) => mk(N::Agg(t, 0, vec![])),
                _ => unit(),
            },
            CV::Agg(v, fs) => {
                if ty.path == "core::time::Duration" {
                    // nanoseconds
                    let f: Vec<i128> = fs.iter().map(cv_int).collect();
                    if f.len() == 2 {
                        return op("dur", vec![int(f[0] * 1_000_000_000 + f[1])]);
                    }
                }
                let k = ty.k.clone();
                let tys: Vec<Option<TyId>> = match k {
                    Kind::Array => {
                        let e = ty.elem;
                        fs.iter().map(|_| e).collect()
                    }
                    _ => (0..fs.len()).map(|i| self.prog.field_ty(t, *v, i as u32)).collect(),
                };
                let vals = fs
                    .iter()
                    .zip(tys)
                    .map(|(f, ft)| match ft {
                        Some(ft) => self.cv(ft, f),
                        None => undef(),
                    })
                    .collect();
                mk(N::Agg(t, *v, vals))
            }
            CV::Ref(inner) => {
                let et = self.ty(t).elem.unwrap_or(t);
                let v = self.cv(et, inner);
                let p = op("str", vec![v]);
                if self.ty(et).k == Kind::Array {
                    let n = self.ty(et).n;
                    let _ = n;
                }
                p
            }
            CV::Static(s) => mk(N::Ref(mk_cell(Cell::Static(sstr(s))), vec![])),
            CV::FnPtr(f, _) => mk(N::Fn(*f)),
            CV::Mem(o, b) => mk(N::Bytes(*o, b.clone())),
            CV::Unknown => op("const", vec![mk(N::Str(self.ty(t).s.clone()))]),
        }
    }
    pub fn operand(&mut self, st: &State, o: &Operand) -> Val {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let l = self.place(st, p);
                self.read(st, l.0, &l.1)
            }
            Operand::Const(t, c, name) => {
                if let CV::Unknown = c {
                    return op("const", vec![mk(N::Str(name.clone()))]);
                }
                self.cv(*t, c)
            }
            Operand::Rc => boolean(false),
        }
    }

    // ---------------------------------------------------------------- facts
    pub fn known(&self, st: &State, v: Val) -> Option<i128> {
        if let Some(i) = as_int(v) {
            return Some(i);
        }
        if let Some(f) = st.facts.get(&v) {
            if let Some(e) = f.eq {
                return Some(e);
            }
        }
        match nd(v) {
            N::Op("not", a) => self.known(st, a[0]).map(|x| 1 - x),
            N::Op("ovf", a) => {
                let t = as_int(a[3]).filter(|t| *t != 0)?;
                let (bits, signed) = self.int_bits(t as TyId)?;
                if bits > 64 {
                    return None;
                }
                if matches!(nd(a[0]), N::Str(s) if s == "Sub") && !signed && self.known(st, mk_lt(a[1], a[2])) == Some(0) {
                    return Some(0);
                }
                if matches!(nd(a[0]), N::Str(s) if s == "Sub") && !signed {
                    // x - (x - y) where x - y did not wrap
                    if let N::Op("sub", d) = nd(a[2]) {
                        if d[0] == a[1] && self.known(st, mk_lt(d[0], d[1])) == Some(0) {
                            return Some(0);
                        }
                    }
                }
                let (l0, h0) = self.range(st, a[1]);
                let (l1, h1) = self.range(st, a[2]);
                let (min, max) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
                let (lo, hi) = match nd(a[0]) {
                    N::Str(s) if s == "Add" => (l0? + l1?, h0? + h1?),
                    N::Str(s) if s == "Sub" => (l0? - h1?, h0.unwrap_or(max) - l1?),
                    N::Str(s) if s == "Mul" && l0? >= 0 && l1? >= 0 => (0, h0?.checked_mul(h1?)?),
                    _ => return None,
                };
                (lo >= min && hi <= max).then_some(0)
            }
            N::Op("eq", a) => {
                if a[0] == a[1] {
                    return Some(1);
                }
                for (x, y) in [(a[0], a[1]), (a[1], a[0])] {
                    if let Some(k) = as_int(y) {
                        if let Some(n) = self.known(st, x) {
                            return Some((n == k) as i128);
                        }
                        if let Some(f) = st.facts.get(&x) {
                            if f.ne.contains(&k) || f.lo.map_or(false, |l| k < l) || f.hi.map_or(false, |h| k > h) {
                                return Some(0);
                            }
                        }
                    }
                }
                if let (Some(x), Some(y)) = (self.known(st, a[0]), self.known(st, a[1])) {
                    return Some((x == y) as i128);
                }
                for (x, y) in [(a[0], a[1]), (a[1], a[0])] {
                    let l = op("lt", vec![x, y]);
                    if st.facts.get(&l).and_then(|f| f.eq) == Some(1) {
                        return Some(0);
                    }
                }
                None
            }
            N::Op("lt", a) => {
                if a[0] == a[1] {
                    return Some(0);
                }
                let (lo0, hi0) = self.range(st, a[0]);
                let (lo1, hi1) = self.range(st, a[1]);
                if let (Some(h), Some(l)) = (hi0, lo1) {
                    if h < l {
                        return Some(1);
                    }
                }
                if let (Some(l), Some(h)) = (lo0, hi1) {
                    if l >= h {
                        return Some(0);
                    }
                }
                let l = op("lt", vec![a[1], a[0]]);
                if st.facts.get(&l).and_then(|f| f.eq) == Some(1) {
                    return Some(0);
                }
                let e = op("eq", if a[0] < a[1] { vec![a[0], a[1]] } else { vec![a[1], a[0]] });
                if st.facts.get(&e).and_then(|f| f.eq) == Some(1) {
                    return Some(0);
                }
                // from another comparison with the same or a larger difference
                let sum = |v: Val| matches!(nd(v), N::Op("add" | "sub" | "band", _));
                if sum(a[0]) || sum(a[1]) {
                    let d = crate::lin::lin(a[0]).add(&crate::lin::lin(a[1]), -1);
                    if let Some(k) = d.is_const() {
                        return Some((k < 0) as i128);
                    }
                    let (mut l, mut h) = (Some(d.c), Some(d.c));
                    for (v, k) in &d.t {
                        let (a, b) = self.range(st, *v);
                        let (a, b) = if *k > 0 { (a, b) } else { (b, a) };
                        l = l.zip(a).and_then(|(l, a)| l.checked_add(a.checked_mul(*k)?));
                        h = h.zip(b).and_then(|(h, b)| h.checked_add(b.checked_mul(*k)?));
                    }
                    if l.map_or(false, |l| l >= 0) {
                        return Some(0);
                    }
                    if h.map_or(false, |h| h < 0) {
                        return Some(1);
                    }
                    for (f, v) in &st.facts {
                        if let (N::Op("lt", b), Some(k)) = (nd(*f), v.eq) {
                            let x = crate::lin::lin(b[0]).add(&crate::lin::lin(b[1]), -1);
                            if x.t == d.t && ((k == 0 && d.c >= x.c) || (k == 1 && d.c <= x.c)) {
                                return Some(k);
                            }
                        } else if v.lo.is_some() || v.hi.is_some() {
                            let x = crate::lin::lin(*f);
                            if x.t == d.t {
                                if v.lo.map_or(false, |l| l - x.c + d.c >= 0) {
                                    return Some(0);
                                }
                                if v.hi.map_or(false, |h| h - x.c + d.c < 0) {
                                    return Some(1);
                                }
                            }
                        }
                    }
                }
                None
            }
            N::Op("and", a) => match (self.known(st, a[0]), self.known(st, a[1])) {
                (Some(0), _) | (_, Some(0)) => Some(0),
                (Some(1), Some(1)) => Some(1),
                _ => None,
            },
            N::Op("or", a) => match (self.known(st, a[0]), self.known(st, a[1])) {
                (Some(1), _) | (_, Some(1)) => Some(1),
                (Some(0), Some(0)) => Some(0),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn range(&self, st: &State, v: Val) -> (Option<i128>, Option<i128>) {
        if let Some(i) = as_int(v) {
            return (Some(i), Some(i));
        }
        if let Some(f) = st.facts.get(&v) {
            if let Some(e) = f.eq {
                return (Some(e), Some(e));
            }
            let (l, h) = self.range0(st, v);
            let lo = f.lo.into_iter().chain(l).max();
            return (lo, f.hi.into_iter().chain(h).min());
        }
        self.range0(st, v)
    }
    /// the range a term has by itself
    fn range0(&self, st: &State, v: Val) -> (Option<i128>, Option<i128>) {
        if let N::Op("add", a) = nd(v) {
            let (l0, h0) = self.range(st, a[0]);
            let (l1, h1) = self.range(st, a[1]);
            return (l0.zip(l1).map(|x| x.0 + x.1), h0.zip(h1).map(|x| x.0 + x.1));
        }
        if let N::Op("len", _) = nd(v) {
            return (Some(0), Some(i64::MAX as i128));
        }
        if let N::Op("u32ne", _) = nd(v) {
            return (Some(0), Some(u32::MAX as i128));
        }
        if let N::Op("div", a) = nd(v) {
            if let Some(k) = as_int(a[1]).filter(|k| *k > 0) {
                let (l, h) = self.range(st, a[0]);
                if l.map_or(false, |l| l >= 0) {
                    return (l.map(|x| x / k), h.map(|x| x / k));
                }
            }
        }
        if let N::Op("cast", a) = nd(v) {
            if let N::Str(s) = nd(a[0]) {
                let t = match s.as_str() {
                    "u8" => Some((0, u8::MAX as i128)),
                    "u16" => Some((0, u16::MAX as i128)),
                    "u32" => Some((0, u32::MAX as i128)),
                    "u64" | "usize" => Some((0, u64::MAX as i128)),
                    _ => None,
                };
                if let Some((lo, hi)) = t {
                    let (l, h) = self.range(st, a[1]);
                    return match (l, h) {
                        (Some(l), Some(h)) if l >= lo && h <= hi => (Some(l), Some(h)),
                        _ => (Some(lo), Some(hi)),
                    };
                }
            }
        }
        if let N::Op("quart" | "pageoff", _) = nd(v) {
            return (Some(0), Some(1 << 30));
        }
        if let N::Op("pagesize", _) = nd(v) {
            return (Some(4096), Some(1 << 30));
        }
        if let N::Op("mul", a) = nd(v) {
            if let Some(k) = as_int(a[1]).filter(|k| *k > 0) {
                let (l, h) = self.range(st, a[0]);
                return (l.map(|x| x * k), h.and_then(|x| x.checked_mul(k)));
            }
        }
        if let N::Op("div_ceil", a) = nd(v) {
            if let Some(k) = as_int(a[1]).filter(|k| *k > 0) {
                let (l, h) = self.range(st, a[0]);
                if l.map_or(false, |l| l >= 0) {
                    return (l.map(|x| (x + k - 1) / k), h.map(|x| (x + k - 1) / k));
                }
            }
        }
        if let N::Op("min", a) = nd(v) {
            let r: Vec<_> = a.iter().map(|x| self.range(st, *x)).collect();
            let lo = r.iter().map(|x| x.0).collect::<Option<Vec<_>>>().and_then(|v| v.into_iter().min());
            return (lo, r.iter().filter_map(|x| x.1).min());
        }
        if let N::Op("band", a) = nd(v) {
            if let Some(m) = as_int(a[1]).or(as_int(a[0])) {
                if m >= 0 {
                    let x = if as_int(a[1]).is_some() { a[0] } else { a[1] };
                    let (l, h) = self.range(st, x);
                    if l.map_or(false, |l| l >= 0) {
                        return (Some(0), Some(h.map_or(m, |h| h.min(m))));
                    }
                    return (Some(0), Some(m));
                }
            }
        }
        (None, None)
    }
    /// An upper bound of a linear term, from the ranges of its atoms and up to `depth` comparisons
    /// that hold on the path.
    pub fn upper(&self, st: &State, d: &crate::lin::Lin, depth: u32) -> Option<i128> {
        use crate::lin::{lin, Lin};
        let mut best = Some(d.c);
        for (v, k) in &d.t {
            let (a, b) = self.range(st, *v);
            let r = if *k > 0 { b } else { a };
            best = best.zip(r).and_then(|(l, a)| l.checked_add(a.checked_mul(*k)?));
        }
        if depth == 0 {
            return best;
        }
        let mut with = |x: Lin, best: &mut Option<i128>| {
            // x <= 0
            if x.t.iter().any(|(v, k)| d.t.get(v).map_or(false, |m| (*m > 0) == (*k > 0))) {
                if let Some(u) = self.upper(st, &d.add(&x, -1), depth - 1) {
                    *best = Some(best.map_or(u, |b| b.min(u)));
                }
            }
        };
        // an offset inside a page is no more than what it is an offset of
        for v in d.t.keys() {
            if let N::Op("pageoff", a) = nd(*v) {
                with(Lin::atom(*v).add(&lin(a[0]), -1), &mut best);
            }
        }
        for (f, v) in &st.facts {
            match nd(*f) {
                N::Op("lt", b) => {
                    let x = lin(b[0]).add(&lin(b[1]), -1);
                    match v.eq {
                        Some(1) => with(x.add(&Lin::k(1), 1), &mut best),
                        Some(0) => with(x.scale(-1), &mut best),
                        _ => {}
                    }
                }
                N::Op("eq", b) if v.eq == Some(1) => {
                    let x = lin(b[0]).add(&lin(b[1]), -1);
                    with(x.clone(), &mut best);
                    with(x.scale(-1), &mut best);
                }
                N::Op("ovf", a) => {
                    let (m, s) = match (nd(a[0]), as_int(a[3]).and_then(|t| self.int_bits(t as TyId))) {
                        (N::Str(o), Some((b, false))) if b <= 64 => (o.as_str(), (1i128 << b) - 1),
                        _ => continue,
                    };
                    let (p, q) = (lin(a[1]), lin(a[2]));
                    match (m, v.eq) {
                        ("Add", Some(0)) => with(p.add(&q, 1).add(&Lin::k(s), -1), &mut best),
                        ("Add", Some(1)) => with(Lin::k(s + 1).add(&p, -1).add(&q, -1), &mut best),
                        ("Sub", Some(0)) => with(q.add(&p, -1), &mut best),
                        ("Sub", Some(1)) => with(p.add(&q, -1).add(&Lin::k(1), 1), &mut best),
                        _ => {}
                    }
                }
                _ if v.lo.is_some() || v.hi.is_some() => {
                    let x = lin(*f);
                    if x.t.len() > 1 {
                        if let Some(h) = v.hi {
                            with(x.add(&Lin::k(h), -1), &mut best);
                        }
                        if let Some(l) = v.lo {
                            with(Lin::k(l).add(&x, -1), &mut best);
                        }
                    }
                }
                _ => {}
            }
        }
        best
    }
    fn fact_ok(f: &Fact) -> bool {
        if let Some(e) = f.eq {
            if f.ne.contains(&e) || f.lo.map_or(false, |l| e < l) || f.hi.map_or(false, |h| e > h) {
                return false;
            }
        }
        if let (Some(l), Some(h)) = (f.lo, f.hi) {
            if l > h || (l == h && f.ne.contains(&l)) {
                return false;
            }
        }
        true
    }
    /// Add `v == n`; false if contradictory.
    pub fn assume(&mut self, st: &mut State, v: Val, n: i128) -> bool {
        if let Some(k) = self.known(st, v) {
            return k == n;
        }
        match nd(v) {
            N::Op("not", a) => return self.assume(st, a[0], 1 - n),
            N::Op("eq", a) => {
                for (x, y) in [(a[0], a[1]), (a[1], a[0])] {
                    if let Some(k) = as_int(y) {
                        if n == 1 {
                            return self.assume(st, x, k);
                        }
                        return self.exclude(st, x, k);
                    }
                }
                if n == 1 {
                    // propagate a known side
                    for (x, y) in [(a[0], a[1]), (a[1], a[0])] {
                        if let Some(k) = self.known(st, y) {
                            if !self.assume(st, x, k) {
                                return false;
                            }
                        }
                    }
                }
            }
            N::Op("lt", a) => {
                if let Some(k) = as_int(a[1]) {
                    let ok = if n == 1 { self.bound(st, a[0], None, Some(k - 1)) } else { self.bound(st, a[0], Some(k), None) };
                    return ok;
                }
                if let Some(k) = as_int(a[0]) {
                    let ok = if n == 1 { self.bound(st, a[1], Some(k + 1), None) } else { self.bound(st, a[1], None, Some(k)) };
                    return ok;
                }
            }
            N::Op("ovf", _) if !self.keep_ovf => return true,
            N::Op("and", a) if n == 1 => return self.assume(st, a[0], 1) && self.assume(st, a[1], 1),
            N::Op("or", a) if n == 0 => return self.assume(st, a[0], 0) && self.assume(st, a[1], 0),
            _ => {}
        }
        let f = st.facts.entry(v).or_default();
        f.eq = Some(n);
        let ok = Self::fact_ok(f);
        f.ne.clear();
        f.lo = None;
        f.hi = None;
        ok
    }
    pub fn exclude(&mut self, st: &mut State, v: Val, n: i128) -> bool {
        if let Some(k) = self.known(st, v) {
            return k != n;
        }
        if n == 0 || n == 1 {
            if is_bool_term(v) {
                return self.assume(st, v, 1 - n);
            }
        }
        let f = st.facts.entry(v).or_default();
        if !f.ne.contains(&n) {
            f.ne.push(n);
            f.ne.sort();
        }
        if f.lo == Some(n) {
            f.lo = Some(n + 1);
        }
        if f.hi == Some(n) {
            f.hi = Some(n - 1);
        }
        if f.lo.is_some() && f.lo == f.hi {
            f.eq = f.lo;
        }
        Self::fact_ok(f)
    }
    pub fn bound(&mut self, st: &mut State, v: Val, lo: Option<i128>, hi: Option<i128>) -> bool {
        if let Some(k) = self.known(st, v) {
            return lo.map_or(true, |l| k >= l) && hi.map_or(true, |h| k <= h);
        }
        if let N::Op("add", a) = nd(v) {
            if let Some(k) = as_int(a[1]) {
                return self.bound(st, a[0], lo.map(|l| l - k), hi.map(|h| h - k));
            }
        }
        let f = st.facts.entry(v).or_default();
        if let Some(l) = lo {
            f.lo = Some(f.lo.map_or(l, |x| x.max(l)));
        }
        if let Some(h) = hi {
            f.hi = Some(f.hi.map_or(h, |x| x.min(h)));
        }
        loop {
            let mut ch = false;
            if let Some(l) = f.lo {
                if f.ne.contains(&l) {
                    f.lo = Some(l + 1);
                    ch = true;
                }
            }
            if let Some(h) = f.hi {
                if f.ne.contains(&h) {
                    f.hi = Some(h - 1);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        if f.lo.is_some() && f.lo == f.hi {
            f.eq = f.lo;
        }
        Self::fact_ok(f)
    }

    // ---------------------------------------------------------------- pure operators
    pub fn int_bits(&self, t: TyId) -> Option<(u32, bool)> {
        let ty = self.ty(t);
        match ty.k {
            Kind::Int => Some((ty.size.unwrap_or(8) as u32 * 8, true)),
            Kind::Uint => Some((ty.size.unwrap_or(8) as u32 * 8, false)),
            Kind::Char => Some((32, false)),
            Kind::Bool => Some((1, false)),
            _ => None,
        }
    }
    pub fn wrap(&self, i: i128, t: TyId) -> i128 {
        match self.int_bits(t) {
            Some((b, s)) if b < 128 => {
                let m = 1i128 << b;
                let mut r = i.rem_euclid(m);
                if s && r >= m / 2 {
                    r -= m;
                }
                r
            }
            _ => i,
        }
    }
    pub fn bin(&mut self, o: &str, a: Val, b: Val, t: Option<TyId>) -> Val {
        let r = self.bin0(o, a, b, t);
        if o == "Div" && matches!(nd(r), N::Op("div", _)) {
            let l = crate::lin::lin(r);
            if l.t.len() <= 1 && l.t.keys().all(|k| *k != r) {
                return l.val();
            }
        }
        // so do offsets inside a page
        if matches!(o, "BitAnd" | "Rem" | "Mul") && any_sub(r, &mut |x| is_op(x, "pagesize").is_some()) {
            let l = crate::lin::lin(r);
            if l.t.keys().all(|k| *k != r) {
                return l.val();
            }
        }
        if matches!(o, "Add" | "Sub") && any_sub(r, &mut |x| is_op(x, "pageoff").is_some()) {
            return crate::lin::lin(r).val();
        }
        // lengths known up to their residue fold
        if matches!(o, "Div" | "Rem" | "BitAnd" | "Shr") && crate::lin::has_quart(r) {
            let l = crate::lin::lin(r);
            if l.t.keys().all(|k| *k != r) {
                return l.val();
            }
        }
        r
    }
    fn bin0(&mut self, o: &str, a: Val, b: Val, t: Option<TyId>) -> Val {
        let (x, y) = (as_int(a), as_int(b));
        let w = |e: &Eng, i: i128| match t {
            Some(t) => e.wrap(i, t),
            None => i,
        };
        match o {
            "Eq" => mk_eq(a, b),
            "Ne" => mk_not(mk_eq(a, b)),
            "Lt" => mk_lt(a, b),
            "Gt" => mk_lt(b, a),
            "Le" => mk_not(mk_lt(b, a)),
            "Ge" => mk_not(mk_lt(a, b)),
            "Add" | "AddUnchecked" => {
                if let (Some(x), Some(y)) = (x, y) {
                    return int(w(self, x + y));
                }
                mk_add(a, b)
            }
            "Sub" | "SubUnchecked" => {
                if let (Some(x), Some(y)) = (x, y) {
                    return int(w(self, x - y));
                }
                mk_sub(a, b)
            }
            "Mul" | "MulUnchecked" => {
                if let (Some(x), Some(y)) = (x, y) {
                    if let Some(m) = x.checked_mul(y) {
                        return int(w(self, m));
                    }
                }
                if x == Some(1) {
                    return b;
                }
                if y == Some(1) {
                    return a;
                }
                if x.is_some() {
                    return op("mul", vec![b, a]);
                }
                op("mul", vec![a, b])
            }
            "Div" => match (x, y) {
                (Some(x), Some(y)) if y != 0 => int(x / y),
                _ => op("div", vec![a, b]),
            },
            "Rem" => match (x, y) {
                (Some(x), Some(y)) if y != 0 => int(x % y),
                _ => op("rem", vec![a, b]),
            },
            "BitAnd" | "BitOr" | "BitXor" => {
                if let (N::Bool(p), N::Bool(q)) = (nd(a), nd(b)) {
                    return boolean(match o {
                        "BitAnd" => *p && *q,
                        "BitOr" => *p || *q,
                        _ => *p != *q,
                    });
                }
                if let (Some(x), Some(y)) = (x, y) {
                    return int(w(self, match o {
                        "BitAnd" => x & y,
                        "BitOr" => x | y,
                        _ => x ^ y,
                    }));
                }
                if is_bool_term(a) || is_bool_term(b) || matches!(nd(a), N::Bool(_)) || matches!(nd(b), N::Bool(_)) || t.map_or(false, |t| self.ty(t).k == Kind::Bool) {
                    for (p, q) in [(a, b), (b, a)] {
                        if let N::Bool(k) = nd(p) {
                            match (o, k) {
                                ("BitAnd", true) | ("BitOr", false) | ("BitXor", false) => return q,
                                ("BitAnd", false) => return boolean(false),
                                ("BitOr", true) => return boolean(true),
                                ("BitXor", true) => return mk_not(q),
                                _ => {}
                            }
                        }
                    }
                    return match o {
                        "BitAnd" => op("and", vec![a, b]),
                        "BitOr" => op("or", vec![a, b]),
                        _ => mk_not(mk_eq(a, b)),
                    };
                }
                let (a, b) = if x.is_some() { (b, a) } else { (a, b) };
                match o {
                    "BitAnd" => op("band", vec![a, b]),
                    "BitOr" => op("bor", vec![a, b]),
                    _ => op("bxor", vec![a, b]),
                }
            }
            "Shl" | "ShlUnchecked" => match (x, y) {
                (Some(x), Some(y)) if (0..100).contains(&y) => int(w(self, x << y)),
                _ => op("shl", vec![a, b]),
            },
            "Shr" | "ShrUnchecked" => match (x, y) {
                (Some(x), Some(y)) if (0..100).contains(&y) => int(x >> y),
                _ => op("shr", vec![a, b]),
            },
            "AddWithOverflow" | "SubWithOverflow" | "MulWithOverflow" => {
                let base = &o[..3];
                let r = self.bin(base, a, b, t);
                let of = match (x, y) {
                    (Some(x), Some(y)) => {
                        let e = match base {
                            "Add" => x + y,
                            "Sub" => x - y,
                            _ => x.checked_mul(y).unwrap_or(i128::MAX),
                        };
                        boolean(w(self, e) != e)
                    }
                    _ => op("ovf", vec![mk(N::Str(base.to_string())), a, b, int(t.unwrap_or(0) as i128)]),
                };
                mk(N::Agg(0, 0, vec![r, of]))
            }
            "Offset" => {
                let sz = t.and_then(|t| self.pointee(t)).and_then(|t| self.ty(t).size).unwrap_or(1);
                let n = self.bin("Mul", b, int(sz as i128), None);
                mk_padd(a, n)
            }
            "Cmp" => {
                if let (Some(x), Some(y)) = (x, y) {
                    return op("cmpc", vec![int(x.cmp(&y) as i128)]);
                }
                op("cmp", vec![a, b])
            }
            o => op(o, vec![a, b]),
        }
    }
    fn cast(&mut self, k: &str, v: Val, from: Option<TyId>, to: TyId) -> Val {
        if k == "IntToInt" || k == "FloatToInt" {
            if let Some(i) = as_int(v) {
                return int(self.wrap(i, to));
            }
            if let (Some(f), Some((tb, ts))) = (from, self.int_bits(to)) {
                if let Some((fb, fs)) = self.int_bits(f) {
                    if fb == 1 {
                        return op("b2i", vec![v]);
                    }
                    let keep = if fs { ts && tb >= fb } else { tb > fb || (tb == fb && !ts) };
                    if keep {
                        return v;
                    }
                }
            }
            if is_op(v, "pagesize").is_some() && self.int_bits(to).map_or(false, |b| b.0 >= 32) {
                return v;
            }
            return op("cast", vec![mk(N::Str(self.ty(to).s.clone())), v]);
        }
        if k.contains("Unsize") {
            if let Some(f) = from {
                if let Some(p) = self.pointee(f) {
                    let pt = self.ty(p);
                    if pt.k == Kind::Array {
                        let n = pt.n;
                        return mk(N::Fat(v, int(n)));
                    }
                }
            }
            return v;
        }
        if k.contains("PtrToPtr") || k.contains("MutToConst") || k.contains("ArrayToPointer") {
            // wide to thin
            if let N::Fat(p, _) = nd(v) {
                if let Some(pt) = self.pointee(to) {
                    if !matches!(self.ty(pt).k, Kind::Slice | Kind::Str | Kind::Dyn) {
                        return *p;
                    }
                }
            } else if let (Some(f), Some(pt)) = (from, self.pointee(to)) {
                if let Some(fp) = self.pointee(f) {
                    if matches!(self.ty(fp).k, Kind::Slice | Kind::Str) && !matches!(self.ty(pt).k, Kind::Slice | Kind::Str | Kind::Dyn) {
                        return mk_data(v);
                    }
                }
            }
            return v;
        }
        if k.contains("Expose") || k.contains("Provenance") {
            if let N::Op("padd", a) = nd(v) {
                return mk_add(op("paddr", vec![a[0]]), a[1]);
            }
            return op("paddr", vec![v]);
        }
        v
    }
    pub fn disc_of(&self, v: Val, t: TyId) -> Val {
        match nd(v) {
            N::Agg(_, k, _) => {
                let ty = self.ty(t);
                int(ty.variants.get(*k as usize).map(|x| x.disc).unwrap_or(*k as i128))
            }
            N::Op("cmpc", a) => a[0],
            N::Undef => v,
            _ => mk(N::Disc(v)),
        }
    }
    /// Which variant `v` is known to be.
    pub fn variant(&self, st: &State, v: Val, t: TyId) -> Option<u32> {
        match nd(v) {
            N::Agg(_, k, _) => Some(*k),
            _ => {
                let d = mk(N::Disc(v));
                let mut left = self.ty(t).variants.iter().enumerate().filter(|(_, x)| self.known(st, mk_eq(d, int(x.disc))) != Some(0));
                match (left.next(), left.next()) {
                    (Some((i, _)), None) => Some(i as u32),
                    _ => None,
                }
            }
        }
    }
    fn rvalue(&mut self, st: &State, r: &Rv, dty: TyId) -> Val {
        let fid = self.ctxs[st.ctx as usize].f;
        match r {
            Rv::Use(o) => self.operand(st, o),
            Rv::Rep(o, n) => {
                let v = self.operand(st, o);
                if (0..=8).contains(n) {
                    mk(N::Agg(dty, 0, vec![v; *n as usize]))
                } else {
                    op("rep", vec![v, int(*n)])
                }
            }
            Rv::Ref(p, _, _) => {
                let l = self.place(st, p);
                // re-borrow of a wide pointer keeps its metadata
                if let Some(Proj::Deref) = p.proj.last() {
                    let mut q = p.clone();
                    q.proj.pop();
                    let ql = self.place(st, &q);
                    let v = self.read(st, ql.0, &ql.1);
                    if matches!(nd(v), N::Fat(..) | N::Str(_) | N::Bytes(..)) {
                        return v;
                    }
                }
                self.addr(&l)
            }
            Rv::Tls(s) => mk(N::Ref(mk_cell(Cell::Static(sstr(s))), vec![])),
            Rv::Cast(k, o, t) => {
                let v = self.operand(st, o);
                let ft = self.op_ty(self.f(fid), o);
                self.cast(k, v, ft, *t)
            }
            Rv::Bin(o, a, b) => {
                let t = self.op_ty(self.f(fid), a);
                let (x, y) = (self.operand(st, a), self.operand(st, b));
                let r = self.bin(o, x, y, t);
                if let N::Agg(0, k, f) = nd(r) {
                    return mk(N::Agg(dty, *k, f.clone()));
                }
                r
            }
            Rv::Un(o, a) => {
                let v = self.operand(st, a);
                let t = self.op_ty(self.f(fid), a);
                match o.as_str() {
                    "Not" => {
                        if t.map_or(false, |t| self.ty(t).k == Kind::Bool) {
                            return mk_not(v);
                        }
                        if let (Some(i), Some(t)) = (as_int(v), t) {
                            return int(self.wrap(!i, t));
                        }
                        op("bnot", vec![v])
                    }
                    "Neg" => match as_int(v) {
                        Some(i) => int(-i),
                        None => op("neg", vec![v]),
                    },
                    "PtrMetadata" => mk_len(v),
                    o => op(o, vec![v]),
                }
            }
            Rv::Disc(p) => {
                let l = self.place(st, p);
                let v = self.read(st, l.0, &l.1);
                let t = self.place_ty(self.f(fid), p);
                self.disc_of(v, t)
            }
            Rv::Agg(k, os) => {
                let vs: Vec<Val> = os.iter().map(|o| self.operand(st, o)).collect();
                match k {
                    AggK::Tuple if vs.is_empty() => unit(),
                    AggK::RawPtr(_) => {
                        if vs.len() == 2 && !matches!(nd(vs[1]), N::Unit) {
                            mk(N::Fat(vs[0], vs[1]))
                        } else {
                            vs[0]
                        }
                    }
                    AggK::Adt(t, v, active) => {
                        if active.is_some() || self.ty(*t).path == "core::mem::manually_drop::ManuallyDrop" || self.ty(*t).path == "core::mem::maybe_dangling::MaybeDangling" || self.ty(*t).path == "core::cell::UnsafeCell" {
                            vs.first().copied().unwrap_or_else(undef)
                        } else if self.ty(*t).is_box && !vs.is_empty() {
                            vs[0]
                        } else {
                            mk(N::Agg(dty_or(*t, dty, self), *v, vs))
                        }
                    }
                    _ => mk(N::Agg(dty, 0, vs)),
                }
            }
        }
    }

    // ---------------------------------------------------------------- symbols
    /// A fresh result of the leaf call at the current site. Older results of the same site that
    /// are still referenced are renamed first.
    pub fn fresh(&mut self, st: &mut State, ctx: Ctx, bb: u32, tag: u32) -> Val {
        let v = mk(N::Sym(ctx, bb, tag, 0));
        self.age(st, At::A(v));
        v
    }
    /// a fresh value, with the name it takes over renamed in `w` as in the state
    pub fn fresh_beside(&mut self, st: &mut State, ctx: Ctx, bb: u32, tag: u32, w: Val) -> (Val, Val) {
        let c = mk_cell(Cell::Static(sstr("value in hand")));
        st.mem.insert(c, w);
        let v = self.fresh(st, ctx, bb, tag);
        let w = st.mem.remove(&c).unwrap_or(w);
        (v, w)
    }
    pub fn fresh_heap(&mut self, st: &mut State, ctx: Ctx, bb: u32, tag: u32, t: Option<TyId>) -> CellId {
        let c = mk_cell(Cell::Heap(ctx, bb, tag, 0));
        self.age(st, At::C(c));
        if let Some(t) = t {
            self.celltype.insert(c, t);
        }
        c
    }
    pub fn age(&mut self, st: &mut State, a: At) {
        let used = st.mem.iter().any(|(k, v)| {
            mentions(*v, a)
                || match cell(*k) {
                    Cell::Der(p) => mentions(p, a),
                    _ => At::C(*k) == a,
                }
        }) || st.ghost.iter().any(|(k, v)| mentions(*v, a) || mentions(k.1, a))
            || st.drops.iter().any(|d| d.pending.iter().any(|i| match i {
                DropItem::Val(c, ..) | DropItem::After(c, ..) => At::C(*c) == a || matches!(cell(*c), Cell::Der(p) if mentions(p, a)),
            }));
        if !used {
            // forget stale facts
            st.facts.retain(|k, _| !mentions(*k, a));
            return;
        }
        let mut s = Subst::default();
        match a {
            At::A(v) => {
                if let N::Sym(c, b, t, _) = nd(v) {
                    s.v.insert(v, mk(N::Sym(*c, *b, *t, 1)));
                }
            }
            At::C(c) => {
                if let Cell::Heap(x, b, t, _) = cell(c) {
                    let n = mk_cell(Cell::Heap(x, b, t, 1));
                    if let Some(t) = self.celltype.get(&c).copied() {
                        self.celltype.insert(n, t);
                    }
                    s.c.insert(c, n);
                }
            }
        }
        self.apply(st, &mut s);
    }
    pub fn apply(&mut self, st: &mut State, s: &mut Subst) {
        let mut mem = BTreeMap::new();
        for (c, v) in &st.mem {
            let nc = s.cell(*c);
            if nc != *c {
                if let Some(t) = self.celltype.get(c).copied() {
                    self.celltype.entry(nc).or_insert(t);
                }
            }
            let nv = s.val(*v);
            match mem.get(&nc) {
                Some(&o) if o != nv => {
                    mem.insert(nc, op("weak", vec![o]));
                }
                _ => {
                    mem.insert(nc, nv);
                }
            }
        }
        st.mem = mem;
        let old = std::mem::take(&mut st.facts);
        let mut nf: BTreeMap<Val, Fact> = BTreeMap::new();
        let mut clash: HashSet<Val> = HashSet::new();
        for (k, f) in old {
            let nk = s.val(k);
            if let Some(g) = nf.get(&nk) {
                if *g != f {
                    clash.insert(nk);
                }
            } else {
                nf.insert(nk, f);
            }
        }
        // facts about a summarised symbol must hold for all its instances
        for c in clash {
            nf.remove(&c);
        }
        st.facts = nf;
        let old = std::mem::take(&mut st.ghost);
        for ((t, k), v) in old {
            let nk = s.val(k);
            let nv = s.val(v);
            st.ghost.insert((t, nk), nv);
        }
        for d in &mut st.drops {
            for i in &mut d.pending {
                match i {
                    DropItem::Val(c, ..) | DropItem::After(c, ..) => *c = s.cell(*c),
                }
            }
        }
    }

    // ---------------------------------------------------------------- garbage collection
    pub fn gc(&mut self, st: &mut State) {
        // live locals of every frame
        let mut keep: HashSet<CellId> = HashSet::new();
        let mut frames: Vec<(Ctx, u32, bool)> = vec![(st.ctx, st.bb, true)];
        {
            let mut c = st.ctx;
            while let Some(p) = self.ctxs[c as usize].parent {
                let site = self.ctxs[c as usize].site;
                frames.push((p, site, false));
                c = p;
            }
        }
        let mut rootvals: Vec<Val> = vec![];
        let locals: Vec<CellId> = st.mem.keys().copied().filter(|c| matches!(cell(*c), Cell::Local(..))).collect();
        let mut liveset: HashMap<Ctx, (Rc<FnInfo>, Vec<u32>, Option<u32>)> = HashMap::new();
        for (c, bb, cur) in frames {
            let f = self.ctxs[c as usize].f;
            let inf = self.info(f);
            if cur {
                liveset.insert(c, (inf, vec![bb], None));
            } else {
                let b = self.f(f).blocks.as_ref().unwrap()[bb as usize].as_ref().unwrap();
                let succ = Prog::succs(&b.term);
                let dest = match &b.term {
                    Term::Call(_, _, d, _, _) => {
                        if d.proj.is_empty() {
                            Some(d.local)
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                let mut extra = vec![];
                if let Term::Call(_, _, d, _, _) = &b.term {
                    if !d.proj.is_empty() {
                        extra.push(d.local);
                    }
                }
                for l in extra {
                    keep.insert(mk_cell(Cell::Local(c, l)));
                }
                liveset.insert(c, (inf, succ, dest));
            }
        }
        for c in locals {
            if let Cell::Local(x, l) = cell(c) {
                if let Some((inf, bbs, dest)) = liveset.get(&x) {
                    if bbs.iter().any(|b| inf.live[*b as usize].contains(&l)) && *dest != Some(l) {
                        keep.insert(c);
                    }
                }
            }
        }
        let mut reach: HashSet<At> = HashSet::new();
        let mut todo: Vec<Val> = keep.iter().filter_map(|c| st.mem.get(c).copied()).collect();
        for (k, v) in &st.ghost {
            rootvals.push(k.1);
            rootvals.push(*v);
        }
        for d in &st.drops {
            for i in &d.pending {
                match i {
                    DropItem::Val(c, p, ..) | DropItem::After(c, p, ..) => rootvals.push(mk(N::Ref(*c, p.clone()))),
                }
            }
        }
        todo.extend(rootvals);
        let mut kept: HashSet<CellId> = keep.clone();
        loop {
            while let Some(v) = todo.pop() {
                for a in atoms(v) {
                    if reach.insert(*a) {
                        if let At::C(c) = a {
                            if let Some(v) = st.mem.get(c) {
                                if kept.insert(*c) {
                                    todo.push(*v);
                                }
                            }
                            if let Cell::Der(p) = cell(*c) {
                                todo.push(p);
                            }
                        }
                    }
                }
            }
            // memory behind opaque pointers
            let mut more = false;
            for (c, v) in &st.mem {
                if kept.contains(c) {
                    continue;
                }
                let r = match cell(*c) {
                    Cell::Der(p) => atoms(p).iter().all(|a| reach.contains(a)),
                    Cell::Static(_) => true,
                    _ => false,
                };
                if r {
                    kept.insert(*c);
                    todo.push(*v);
                    more = true;
                }
            }
            if !more && todo.is_empty() {
                break;
            }
        }
        st.mem.retain(|c, _| kept.contains(c));
        st.facts.retain(|k, _| atoms(*k).iter().all(|a| reach.contains(a)));
        self.stats.maxmem = self.stats.maxmem.max(st.mem.len());
    }

    // ---------------------------------------------------------------- skeletons and joins
    fn skel(&self, st: &State, v: Val, h: &mut DefaultHasher, d: u32) {
        match nd(v) {
            N::Bool(b) => (1u8, *b).hash(h),
            N::Agg(t, k, fs) if d < 12 => {
                (2u8, *t, *k, fs.len()).hash(h);
                for f in fs {
                    self.skel(st, *f, h, d + 1);
                }
            }
            N::Ref(c, ps) => (3u8, *c, ps).hash(h),
            N::Fat(a, b) => {
                4u8.hash(h);
                self.skel(st, *a, h, d + 1);
                self.skel(st, *b, h, d + 1);
            }
            N::Fn(f) => (5u8, *f).hash(h),
            N::FnItem(f) => (6u8, *f).hash(h),
            N::Unit => 7u8.hash(h),
            N::Undef => 8u8.hash(h),
            N::Op("tadd", f) => {
                // deadlines computed in different ways are kept apart
                10u8.hash(h);
                match is_op(f[1], "dur").and_then(|x| as_int(x[0])) {
                    Some(i) => i.hash(h),
                    None => 11u8.hash(h),
                }
            }
            _ => {
                9u8.hash(h);
                if as_int(v).is_none() {
                    if is_bool_term(v) || st.facts.contains_key(&v) {
                        st.facts.get(&v).and_then(|f| f.eq).hash(h);
                    }
                    let dd = mk(N::Disc(v));
                    st.facts.get(&dd).and_then(|f| f.eq).hash(h);
                } else {
                    None::<i128>.hash(h);
                    None::<i128>.hash(h);
                }
            }
        }
    }
    fn skeleton(&self, st: &State) -> u64 {
        let mut h = DefaultHasher::new();
        for (c, v) in &st.mem {
            match cell(*c) {
                Cell::Der(_) => {
                    // named by terms: matched by the join
                }
                _ => {
                    c.hash(&mut h);
                    self.skel(st, *v, &mut h, 0);
                }
            }
        }
        for ((t, k), v) in &st.ghost {
            t.hash(&mut h);
            if matches!(nd(*k), N::Unit | N::Int(_) | N::Str(_)) {
                k.hash(&mut h);
            }
            match nd(*v) {
                N::Int(_) | N::Bool(_) | N::Unit | N::Str(_) => v.hash(&mut h),
                _ => self.skel(st, *v, &mut h, 0),
            }
        }
        st.drops.hash(&mut h);
        h.finish()
    }
    fn join_val(&mut self, a: Val, b: Val, m: &mut HashMap<(Val, Val), Val>, point: u32, n: &mut u32) -> Val {
        if let Some(&p) = m.get(&(a, b)) {
            return p;
        }
        if a == b && !matches!(nd(a), N::Phi(p, _) if *p == point) {
            return a;
        }
        match (nd(a), nd(b)) {
            (N::Agg(t, k, f), N::Agg(t2, k2, g)) if t == t2 && k == k2 && f.len() == g.len() => {
                let fs = f.iter().zip(g).map(|(x, y)| self.join_val(*x, *y, m, point, n)).collect();
                return mk(N::Agg(*t, *k, fs));
            }
            (N::Fat(x, y), N::Fat(x2, y2)) => {
                let p = self.join_val(*x, *x2, m, point, n);
                let q = self.join_val(*y, *y2, m, point, n);
                return mk(N::Fat(p, q));
            }
            _ => {}
        }
        let p = mk(N::Phi(point, *n));
        *n += 1;
        m.insert((a, b), p);
        p
    }
    /// Least upper bound of two states with the same skeleton; None if they do not match.
    fn join(&mut self, a: &State, b: &State, point: u32) -> Option<State> {
        let mut m: HashMap<(Val, Val), Val> = HashMap::new();
        // phi indices must not clash with phis of this point that are already in use
        let mut n = 0u32;
        let mine = |x: Val| matches!(nd(x), N::Phi(p, _) if *p == point);
        for v in a.mem.values().chain(b.mem.values()) {
            for x in atoms(*v) {
                if let At::A(x) = x {
                    if let N::Phi(p, i) = nd(*x) {
                        if *p == point {
                            n = n.max(i + 1);
                        }
                    }
                }
            }
        }
        // phis of this point that both sides hold in the same place keep their meaning
        for (c, va) in &a.mem {
            // the place itself must not move with a phi of this point
            let moves = match cell(*c) {
                Cell::Der(p) => any_sub(p, &mut |x| mine(x)),
                _ => false,
            };
            if !moves && b.mem.get(c) == Some(va) {
                for x in atoms(*va) {
                    if let At::A(x) = x {
                        if mine(*x) {
                            m.insert((*x, *x), *x);
                        }
                    }
                }
            }
        }
        let mut mem = BTreeMap::new();
        for (c, va) in &a.mem {
            match cell(*c) {
                Cell::Der(_) => {}
                _ => {
                    let vb = b.mem.get(c)?;
                    let v = self.join_val2(*va, *vb, &mut m, point, &mut n);
                    mem.insert(*c, v);
                }
            }
        }
        if b.mem.keys().any(|c| !matches!(cell(*c), Cell::Der(_)) && !a.mem.contains_key(c)) {
            return None;
        }
        // the names a term of either side has in the joined state
        let mut ta: HashMap<Val, Vec<Val>> = HashMap::new();
        let mut tb: HashMap<Val, Vec<Val>> = HashMap::new();
        for ((x, y), p) in &m {
            if as_int(*x).is_none() {
                ta.entry(*x).or_default().push(*p);
            }
            if as_int(*y).is_none() {
                tb.entry(*y).or_default().push(*p);
            }
        }
        for t in [&mut ta, &mut tb] {
            for v in t.values_mut() {
                v.sort();
                v.dedup();
            }
        }
        fn names(k: Val, t: &HashMap<Val, Vec<Val>>, lost: &dyn Fn(Val) -> bool) -> Vec<Val> {
            let mut subs: Vec<Val> = vec![];
            any_sub(k, &mut |x| {
                if t.contains_key(&x) && !subs.contains(&x) {
                    subs.push(x);
                }
                false
            });
            let mut out = vec![k];
            for x in subs {
                for i in 0..out.len() {
                    for p in &t[&x] {
                        if *p != x && out.len() < 24 {
                            let mut s = Subst::default();
                            s.v.insert(x, *p);
                            let r = s.val(out[i]);
                            if !out.contains(&r) {
                                out.push(r);
                            }
                        }
                    }
                }
            }
            out.retain(|r| !any_sub(*r, &mut |x| lost(x)));
            out
        }
        // a phi of this point that is replaced on the newer side loses its old meaning
        let kept: HashSet<Val> = m.values().copied().collect();
        let lost_b = |x: Val| mine(x) && !kept.contains(&x);
        let stale: HashSet<Val> = tb.iter().filter(|(k, v)| mine(**k) && !v.contains(k)).map(|x| *x.0).collect();
        let absorbed: HashSet<Val> = m.iter().filter(|((x, y), p)| x == *p && x != y).map(|x| *x.1).collect();
        let nb = |k: Val| -> Vec<Val> {
            // the unrenamed old phi is only valid where it was kept
            let mut out = vec![];
            let bad = any_sub(k, &mut |x| mine(x) && (stale.contains(&x) || absorbed.contains(&x) || !kept.contains(&x)));
            if bad {
                // rename first, then drop what still names an old phi
                let marks: Vec<Val> = {
                    let mut v = vec![];
                    any_sub(k, &mut |x| {
                        if mine(x) && (stale.contains(&x) || absorbed.contains(&x) || !kept.contains(&x)) && !v.contains(&x) {
                            v.push(x);
                        }
                        false
                    });
                    v
                };
                let mut s = Subst::default();
                let mut t2 = tb.clone();
                for (i, x) in marks.iter().enumerate() {
                    let d = mk(N::Phi(u32::MAX, i as u32));
                    s.v.insert(*x, d);
                    if let Some(v) = tb.get(x) {
                        t2.insert(d, v.clone());
                    }
                }
                let k2 = s.val(k);
                out.extend(names(k2, &t2, &|x| matches!(nd(x), N::Phi(u32::MAX, _))));
            } else {
                out.extend(names(k, &tb, &lost_b));
            }
            out
        };
        let na = |k: Val| names(k, &ta, &|_| false);
        let der = |c: CellId| match cell(c) {
            Cell::Der(p) => Some(p),
            _ => None,
        };
        let mut da: BTreeMap<CellId, Val> = BTreeMap::new();
        for (c, v) in &a.mem {
            if let Some(p) = der(*c) {
                for q in na(p) {
                    let nc = mk_cell(Cell::Der(q));
                    if let Some(t) = self.celltype.get(c).copied() {
                        self.celltype.entry(nc).or_insert(t);
                    }
                    da.insert(nc, *v);
                }
            }
        }
        let mut db: BTreeMap<CellId, Val> = BTreeMap::new();
        for (c, v) in &b.mem {
            if let Some(p) = der(*c) {
                for q in nb(p) {
                    let nc = mk_cell(Cell::Der(q));
                    if let Some(t) = self.celltype.get(c).copied() {
                        self.celltype.entry(nc).or_insert(t);
                    }
                    db.insert(nc, *v);
                }
            }
        }
        for (nc, v) in &db {
            if let Some(va) = da.get(nc) {
                let j = self.join_val2(*va, *v, &mut m, point, &mut n);
                mem.insert(*nc, j);
            } else {
                // only written on one side
                let j = op("weak", vec![self.initial(*nc)]);
                mem.insert(*nc, j);
            }
        }
        for (c, _) in &da {
            if !mem.contains_key(c) {
                let j = op("weak", vec![self.initial(*c)]);
                mem.insert(*c, j);
            }
        }
        // facts
        let mut fa: BTreeMap<Val, Fact> = BTreeMap::new();
        for (k, f) in &a.facts {
            for q in na(*k) {
                fa.insert(q, f.clone());
            }
        }
        let mut facts = BTreeMap::new();
        for (k, f) in &b.facts {
            for nk in nb(*k) {
                if let Some(g) = fa.get(&nk) {
                    if g == f {
                        facts.insert(nk, f.clone());
                    } else {
                        let r = join_fact(g, f);
                        if r != Fact::default() {
                            facts.insert(nk, r);
                        }
                    }
                }
            }
        }
        // ghosts
        let mut ga: BTreeMap<(u16, Val), (Val, usize)> = BTreeMap::new();
        for (i, ((t, k), v)) in a.ghost.iter().enumerate() {
            for q in na(*k) {
                ga.entry((*t, q)).or_insert((*v, i));
            }
        }
        let mut used: HashSet<usize> = HashSet::new();
        let mut ghost = BTreeMap::new();
        for ((t, k), v) in &b.ghost {
            let mut hit = None;
            for q in nb(*k) {
                if let Some((va, i)) = ga.get(&(*t, q)) {
                    if !used.contains(i) {
                        hit = Some((q, *va, *i));
                        break;
                    }
                }
            }
            let (q, va, i) = hit?;
            used.insert(i);
            let j = if va == *v && !any_sub(va, &mut |x| mine(x)) {
                va
            } else if as_int(va).is_some() || as_int(*v).is_some() {
                if va != *v {
                    return None;
                }
                va
            } else {
                let xa = na(va);
                match nb(*v).into_iter().find(|x| xa.contains(x)) {
                    Some(x) => x,
                    None => self.join_val2(va, *v, &mut m, point, &mut n),
                }
            };
            ghost.insert((*t, q), j);
        }
        if used.len() != a.ghost.len() {
            return None;
        }
        Some(State { ctx: b.ctx, bb: b.bb, mem, facts, ghost, drops: b.drops.clone(), trace: b.trace.clone() })
    }
    /// Join keeping an existing phi of the older state where possible.
    fn join_val2(&mut self, a: Val, b: Val, m: &mut HashMap<(Val, Val), Val>, point: u32, n: &mut u32) -> Val {
        if a == b {
            if let N::Phi(p, _) = nd(a) {
                if *p == point && !m.contains_key(&(a, a)) && m.iter().any(|((x, _), r)| *x == a && *r == a) {
                    // the older phi took in another value already
                    return self.join_val(a, b, m, point, n);
                }
            }
            return a;
        }
        if let N::Phi(p, _) = nd(a) {
            if *p == point {
                // a phi of this point may absorb the new value if it does so everywhere
                let clash = m.iter().any(|((x, y), r)| (*x == a && *y != b) || (*r == a && *x != a));
                if !clash {
                    m.insert((a, b), a);
                    return a;
                }
            }
        }
        // the lengths of two lists that were joined already
        if matches!((nd(a), nd(b)), (N::Op("len" | "add", _), N::Op("len" | "add", _))) && (matches!(nd(a), N::Op("len", _)) || matches!(nd(b), N::Op("len", _))) {
            let l = m.iter().filter(|((x, y), _)| mk_len(*x) == a && mk_len(*y) == b).map(|x| *x.1).min();
            if let Some(l) = l {
                return mk_len(l);
            }
        }
        match (nd(a), nd(b)) {
            (N::Agg(t, k, f), N::Agg(t2, k2, g)) if t == t2 && k == k2 && f.len() == g.len() => {
                let fs = f.iter().zip(g).map(|(x, y)| self.join_val2(*x, *y, m, point, n)).collect();
                return mk(N::Agg(*t, *k, fs));
            }
            (N::Fat(x, y), N::Fat(x2, y2)) => {
                let p = self.join_val2(*x, *x2, m, point, n);
                let q = self.join_val2(*y, *y2, m, point, n);
                return mk(N::Fat(p, q));
            }
            // a list cut to a length, and the whole list
            (N::Op("vec_len", f), y) if !matches!(y, N::Op("vec_len", _)) && f[0] == b => {
                let k = self.join_val2(f[1], mk_len(b), m, point, n);
                return mk(N::Op("vec_len", vec![b, k]));
            }
            (x, N::Op("vec_len", g)) if !matches!(x, N::Op("vec_len", _)) && g[0] == a => {
                let k = self.join_val2(mk_len(a), g[1], m, point, n);
                return mk(N::Op("vec_len", vec![a, k]));
            }
            // the same operation on both sides: join the operands
            (N::Op(o, f), N::Op(o2, g)) if o == o2 && f.len() == g.len() && STRUCT_OPS.contains(o) => {
                let fs = f.iter().zip(g).map(|(x, y)| self.join_val2(*x, *y, m, point, n)).collect();
                return mk(N::Op(o, fs));
            }
            (N::Op(o, f), N::Op(o2, g)) if o == o2 && ["add", "mul"].contains(o) && f.len() == 2 && g.len() == 2 && f[1] == g[1] && as_int(f[1]).is_some() => {
                let x = self.join_val2(f[0], g[0], m, point, n);
                return mk(N::Op(o, vec![x, f[1]]));
            }
            (N::Fld(x, p), N::Fld(y, q)) => {
                let p = match (p, q) {
                    (p, q) if p == q => Some(*p),
                    (P::I(i), P::I(j)) => Some(P::I(self.join_val2(*i, *j, m, point, n))),
                    _ => None,
                };
                if let Some(p) = p {
                    let x = self.join_val2(*x, *y, m, point, n);
                    return mk(N::Fld(x, p));
                }
            }
            (N::Deref(x), N::Deref(y)) => {
                let x = self.join_val2(*x, *y, m, point, n);
                return mk(N::Deref(x));
            }
            (N::Disc(x), N::Disc(y)) => {
                let x = self.join_val2(*x, *y, m, point, n);
                return mk(N::Disc(x));
            }
            _ => {}
        }
        self.join_val(a, b, m, point, n)
    }

    // ---------------------------------------------------------------- propagation
    fn mon<R>(&mut self, f: impl FnOnce(&mut Box<dyn Mon>, &mut Eng) -> R) -> R {
        let mut m = self.mon.take().expect("monitor re-entered");
        let r = f(&mut m, self);
        self.mon = Some(m);
        r
    }

    /// A state reaches the start of a block.
    pub fn arrive(&mut self, mut st: State, cont: bool) {
        let f = self.ctxs[st.ctx as usize].f;
        let inf = self.info(f);
        let head = inf.heads.contains(&st.bb);
        if !(cont || head || inf.preds[st.bb as usize] > 1) {
            self.work.push(st);
            return;
        }
        if head {
            let mut m = self.mon.take().unwrap();
            m.on_loop(self, &mut st);
            self.mon = Some(m);
        }
        self.gc(&mut st);
        let mut dh = DefaultHasher::new();
        st.drops.hash(&mut dh);
        let key = (st.ctx, st.bb, dh.finish());
        let h = st.hash();
        let point = self.points.entry(key).or_default();
        if !point.seen.insert(h) {
            return;
        }
        let sk = self.skeleton(&st);
        let point = self.points.get_mut(&key).unwrap();
        let cnt = point.counts.entry(sk).or_insert(0);
        *cnt += 1;
        let over = *cnt > self.width;
        if head || over {
            let pid = {
                let n = self.phis.len() as u32;
                *self.phis.entry((st.ctx, st.bb)).or_insert(n)
            };
            let point = self.points.get_mut(&key).unwrap();
            let mut olds = std::mem::take(point.joined.entry(sk).or_default());
            let mut done = None;
            for (i, o) in olds.iter().enumerate() {
                if let Some(mut j) = self.join(o, &st, pid) {
                    self.gc(&mut j);
                    done = Some((i, j));
                    break;
                }
            }
            match done {
                Some((i, j)) => {
                    self.stats.joins += 1;
                    let same = j.mem == olds[i].mem && j.facts == olds[i].facts && j.ghost == olds[i].ghost;
                    olds[i] = j.clone();
                    let point = self.points.get_mut(&key).unwrap();
                    point.joined.insert(sk, olds);
                    if same {
                        return;
                    }
                    let h = j.hash();
                    point.seen.insert(h);
                    st = j;
                }
                None => {
                    olds.push(st.clone());
                    let point = self.points.get_mut(&key).unwrap();
                    point.joined.insert(sk, olds);
                }
            }
        }
        self.stats.states += 1;
        if self.debug {
            if let Ok(w) = std::env::var("SA_AT") {
                let n = format!("{} bb{}", self.chain(st.ctx), st.bb);
                if n.ends_with(&w) {
                    println!("@@ STATE");
                    for l in dump_state(&st) {
                        println!("{l}");
                    }
                }
            }
        }
        self.work.push(st);
    }

    pub fn run_root(&mut self, f: FnId, prep: &mut dyn FnMut(&mut Eng, &mut State)) {
        // a state seen from another start says nothing about this one
        self.points.clear();
        let ctx = self.child(None, 0, f, 0);
        let mut st = State { ctx, bb: 0, mem: BTreeMap::new(), facts: BTreeMap::new(), ghost: BTreeMap::new(), drops: vec![], trace: None };
        let ac = self.f(f).ac;
        for i in 1..=ac {
            let c = self.local(ctx, i);
            let v = mk(N::Param(format!("arg{i}")));
            st.mem.insert(c, v);
        }
        prep(self, &mut st);
        self.arrive(st, true);
        self.drain();
    }

    pub fn drain(&mut self) {
        while let Some(st) = self.work.pop() {
            self.stats.blocks += 1;
            if self.stats.blocks > self.limit || (self.stats.blocks % 4096 == 0 && over_budget()) {
                self.stats.exhausted = true;
                self.work.clear();
                return;
            }
            self.step(st);
        }
    }

    fn step(&mut self, mut st: State) {
        let f = self.ctxs[st.ctx as usize].f;
        self.stats.fns.insert(f);
        self.stats.edges.insert((f, st.bb));
        let prog = self.prog.clone();
        let extra: Option<FnD> = if (f as usize) >= prog.fns.len() { Some(self.f(f).clone()) } else { None };
        let fd: &FnD = match &extra {
            Some(x) => x,
            None => &prog.fns[f as usize],
        };
        let block = match fd.blocks.as_ref().unwrap()[st.bb as usize].as_ref() {
            Some(b) => b,
            None => return,
        };
        {
            let mut m = self.mon.take().unwrap();
            m.on_block(self, &mut st);
            self.mon = Some(m);
        }
        for s in &block.stmts {
            match s {
                Stmt::Assign(p, r, _) => {
                    let dty = self.place_ty(fd, p);
                    if let Rv::Use(Operand::Copy(q)) | Rv::Use(Operand::Move(q)) = r {
                        if q.proj.contains(&Proj::Deref) {
                            let l = self.place(&st, q);
                            let mut m = self.mon.take().unwrap();
                            m.on_read(self, &mut st, l.0, &l.1, dty);
                            self.mon = Some(m);
                        }
                    }
                    let v = self.rvalue(&st, r, dty);
                    let l = self.place(&st, p);
                    self.write(&mut st, l.0, &l.1, v);
                }
                Stmt::SetDisc(p, v) => {
                    let l = self.place(&st, p);
                    let t = self.place_ty(fd, p);
                    let old = self.read(&st, l.0, &l.1);
                    let nv = match nd(old) {
                        N::Agg(t, k, fs) if k == v => mk(N::Agg(*t, *k, fs.clone())),
                        _ => self.expand(old, Some(t), *v).unwrap_or(old),
                    };
                    self.write(&mut st, l.0, &l.1, nv);
                }
                Stmt::Dead(l) => {
                    let c = mk_cell(Cell::Local(st.ctx, *l));
                    st.mem.remove(&c);
                }
                Stmt::CopyNo(a, b, n) => {
                    let (x, y, k) = (self.operand(&st, a), self.operand(&st, b), self.operand(&st, n));
                    let c = Call {
                        p: "core::ptr::copy_nonoverlapping".into(),
                        rp: "core::ptr::copy_nonoverlapping".into(),
                        f: None,
                        args: vec![x, y, k],
                        argtys: vec![self.op_ty(fd, a).unwrap_or(0), self.op_ty(fd, b).unwrap_or(0), self.op_ty(fd, n).unwrap_or(0)],
                        targs: vec![],
                        ret: 0,
                        ctx: st.ctx,
                        bb: st.bb,
                        line: block.span.clone(),
                        fv: None,
                        diverges: false,
                    };
                    self.mon(|m, e| m.on_call(e, &mut st, &c));
                }
            }
        }
        match &block.term {
            Term::Goto(b) => {
                st.bb = *b;
                self.arrive(st, false);
            }
            Term::Unreachable => {}
            Term::Switch(o, cases, other) => {
                let v = self.operand(&st, o);
                self.switch(st, v, cases, *other, &block.span);
            }
            Term::Ret => self.ret(st),
            Term::Assert(o, exp, k, b) => {
                let v = self.operand(&st, o);
                let kn = self.known(&st, v);
                match k {
                    AssertK::Other => {}
                    _ => {
                        if kn != Some(*exp as i128) {
                            let (what, terms) = match k {
                                AssertK::Bounds(a, b) => ("index out of bounds", vec![self.operand(&st, a), self.operand(&st, b)]),
                                AssertK::Ovf(_, a, b) => ("arithmetic overflow", vec![self.operand(&st, a), self.operand(&st, b)]),
                                AssertK::OvfNeg => ("negation overflow", vec![]),
                                AssertK::Div0 => ("division by zero", vec![]),
                                AssertK::Other => ("assert", vec![]),
                            };
                            let what = match k {
                                AssertK::Ovf(o, ..) => format!("{what} ({o})"),
                                _ => what.to_string(),
                            };
                            let mut s2 = st.clone();
                            self.mon(|m, e| m.on_panic(e, &mut s2, &what, &terms));
                        }
                        if !self.assume(&mut st, v, *exp as i128) {
                            return;
                        }
                    }
                }
                st.bb = *b;
                self.arrive(st, false);
            }
            Term::Drop(p, t, b) => {
                let l = self.place(&st, p);
                let fr = DropFrame { ctx: st.ctx, site: st.bb, target: *b, pending: vec![DropItem::Val(l.0, l.1, *t, 0)] };
                st.drops.push(fr);
                self.run_drops(st);
            }
            Term::Call(func, args, dest, target, dty) => {
                let vals: Vec<Val> = args.iter().map(|a| self.operand(&st, a)).collect();
                let tys: Vec<TyId> = args.iter().map(|a| self.op_ty(fd, a).unwrap_or(0)).collect();
                let callee = match func {
                    Func::Static(c) => c.clone(),
                    Func::Op(o) => {
                        let t = self.op_ty(fd, o);
                        let v = self.operand(&st, o);
                        match (nd(v), t.and_then(|t| self.ty(t).callee.clone())) {
                            (_, Some(c)) => c,
                            (N::FnItem(t), _) => self.ty(*t).callee.clone().unwrap_or_default(),
                            (N::Fn(f), _) => Callee { p: self.f(*f).p.clone(), rp: self.f(*f).p.clone(), r: Some(*f), ..Default::default() },
                            _ => Callee { p: "<indirect>".into(), rp: "<indirect>".into(), ..Default::default() },
                        }
                    }
                };
                let c = Call {
                    p: callee.p.clone(),
                    rp: if callee.rp.is_empty() { callee.p.clone() } else { callee.rp.clone() },
                    f: callee.r,
                    args: vals,
                    argtys: tys,
                    targs: if callee.rargs.is_empty() { callee.args.clone() } else { callee.rargs.clone() },
                    ret: *dty,
                    ctx: st.ctx,
                    bb: st.bb,
                    line: block.span.clone(),
                    fv: if let Func::Op(o) = func { Some(self.operand(&st, o)) } else { None },
                    diverges: target.is_none(),
                };
                self.call(st, c, dest, *target);
            }
        }
    }

    fn switch(&mut self, st: State, v: Val, cases: &[(i128, u32)], other: u32, span: &str) {
        if *nd(v) == N::Undef {
            // value of an infeasible or uninitialised place: explore all arms
            let mut ts: Vec<u32> = cases.iter().map(|c| c.1).chain([other]).collect();
            ts.sort();
            ts.dedup();
            for t in ts {
                let mut s = st.clone();
                s.bb = t;
                self.arrive(s, false);
            }
            return;
        }
        if let Some(k) = self.known(&st, v) {
            let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(other);
            let mut s = st;
            if as_int(v).is_none() {
                let n = cases.iter().any(|c| c.0 == k).then_some(k);
                self.mon(|m, e| m.on_assume(e, &mut s, v, n));
            }
            s.bb = t;
            self.arrive(s, false);
            return;
        }
        let repo = is_repo(self.f(self.ctxs[st.ctx as usize].f));
        for (n, t) in cases {
            let mut s = st.clone();
            if self.assume(&mut s, v, *n) {
                self.mon(|m, e| m.on_assume(e, &mut s, v, Some(*n)));
                s.bb = *t;
                if repo {
                    s.note(format!("{}: {} == {}", short_span(span), show(v).chars().take(120).collect::<String>(), n));
                }
                self.arrive(s, false);
            }
        }
        // otherwise
        let f = self.f(self.ctxs[st.ctx as usize].f);
        if let Some(Some(b)) = f.blocks.as_ref().unwrap().get(other as usize) {
            if matches!(b.term, Term::Unreachable) && b.stmts.is_empty() {
                return;
            }
        }
        let mut s = st;
        for (n, _) in cases {
            if !self.exclude(&mut s, v, *n) {
                return;
            }
        }
        self.mon(|m, e| m.on_assume(e, &mut s, v, None));
        s.bb = other;
        if repo {
            s.note(format!("{}: {} otherwise", short_span(span), show(v).chars().take(120).collect::<String>()));
        }
        self.arrive(s, false);
    }

    pub fn ret(&mut self, mut st: State) {
        let ctx = st.ctx;
        let rc = self.local(ctx, 0);
        let rty = self.celltype[&rc];
        let mut v = self.read(&st, rc, &[]);
        if *nd(v) == N::Undef && self.ty(rty).size == Some(0) {
            v = unit();
        }
        let info = self.ctxs[ctx as usize].clone();
        self.mon(|m, e| m.on_ret(e, &mut st, info.f, v));
        let parent = match info.parent {
            None => {
                self.mon(|m, e| m.on_root_ret(e, &mut st, v));
                return;
            }
            Some(p) => p,
        };
        st.mem.retain(|c, _| !matches!(cell(*c), Cell::Local(x, _) if x == ctx));
        st.ctx = parent;
        st.bb = info.site;
        if info.drop > 0 {
            self.run_drops(st);
            return;
        }
        let prog = self.prog.clone();
        let pf = self.ctxs[parent as usize].f;
        let extra: Option<FnD> = if (pf as usize) >= prog.fns.len() { Some(self.f(pf).clone()) } else { None };
        let pfd: &FnD = match &extra {
            Some(x) => x,
            None => &prog.fns[pf as usize],
        };
        let b = pfd.blocks.as_ref().unwrap()[info.site as usize].as_ref().unwrap();
        if let Term::Call(_, _, dest, target, _) = &b.term {
            if let Some(t) = target {
                let l = self.place(&st, dest);
                self.write(&mut st, l.0, &l.1, v);
                st.bb = *t;
                self.arrive(st, true);
            }
        }
    }

    // ---------------------------------------------------------------- calls
    fn finish(&mut self, mut st: State, c: &Call, dest: &Place, target: Option<u32>, v: Val, notify: bool) {
        if notify {
            self.mon(|m, e| m.after(e, &mut st, c, v));
        }
        if let Some(t) = target {
            let l = self.place(&st, dest);
            self.write(&mut st, l.0, &l.1, v);
            st.bb = t;
            self.arrive(st, false);
        }
    }

    pub fn call(&mut self, mut st: State, mut c: Call, dest: &Place, target: Option<u32>) {
        let act = self.mon(|m, e| m.on_call(e, &mut st, &c));
        let force_leaf = match act {
            Act::Stop => return,
            Act::Ret(v) => {
                self.finish(st, &c, dest, target, v, true);
                return;
            }
            Act::Forks(fs) => {
                for (s, v) in fs {
                    self.finish(s, &c, dest, target, v, true);
                }
                return;
            }
            Act::Leaf => true,
            Act::Default => false,
        };
        if !force_leaf {
            // models of library functions
            match crate::models::model(self, &mut st, &c) {
                crate::models::Out::Ret(v) => {
                    self.finish(st, &c, dest, target, v, true);
                    return;
                }
                crate::models::Out::Forks(fs) => {
                    for (s, v) in fs {
                        self.finish(s, &c, dest, target, v, true);
                    }
                    return;
                }
                crate::models::Out::Stop => return,
                crate::models::Out::Body(f, args) => {
                    c.f = Some(f);
                    c.args = args;
                    c.p = "sa::synth".into();
                }
                crate::models::Out::No => {}
            }
            if let Some(f) = c.f {
                let leaf = {
                    let m = self.mon.take().unwrap();
                    let r = m.leaf(self, self.f(f)) || self.skip(f);
                    self.mon = Some(m);
                    if self.skip(f) {
                        self.skipped.insert(f);
                    }
                    r
                };
                if self.f(f).blocks.is_some() && !leaf && !self.recursive(st.ctx, f) {
                    self.mon(|m, e| m.on_enter(e, &mut st, &c));
                    self.enter(st, f, &c);
                    return;
                }
            }
        }
        if c.diverges {
            let what = format!("call of {}", short(&c.rp));
            let a = c.args.clone();
            self.mon(|m, e| m.on_panic(e, &mut st, &what, &a));
            return;
        }
        self.stats.leaf_calls.insert(c.rp.clone());
        let v = self.leaf_result(&mut st, &c);
        self.finish(st, &c, dest, target, v, true);
    }

    pub fn leaf_result(&mut self, st: &mut State, c: &Call) -> Val {
        // unknown effect on everything reachable by a mutable reference argument
        for (i, (a, t)) in c.args.iter().zip(&c.argtys).enumerate() {
            let ty = self.ty(*t);
            if matches!(ty.k, Kind::Ref | Kind::Ptr) && ty.mutbl {
                let el = ty.elem;
                if matches!(nd(*a), N::Int(_) | N::Op("null", _)) {
                    continue;
                }
                let s = self.fresh(st, c.ctx, c.bb, 100 + i as u32);
                let (cc, path) = self.target(*a, el);
                self.write_raw(st, cc, &path, s);
            }
        }
        let rt = self.ty(c.ret);
        if rt.k == Kind::Tuple && rt.fields.is_empty() {
            return unit();
        }
        self.fresh(st, c.ctx, c.bb, 0)
    }

    fn enter(&mut self, mut st: State, f: FnId, c: &Call) {
        let fd = self.f(f).clone_sig();
        let mut args = c.args.clone();
        let isfn = c.p.starts_with("core::ops::function::Fn") || c.p.starts_with("core::ops::async_function");
        if isfn && fd.spread.is_none() && args.len() == 2 {
            // untuple
            let tup = args[1];
            let tt = c.argtys.get(1).copied().unwrap_or(0);
            let n = self.ty(tt).fields.len();
            let mut a = vec![args[0]];
            // function items take no receiver
            if fd.ac as usize == n && !fd.p.contains("{closure#") {
                a.clear();
            }
            for i in 0..n {
                a.push(self.project(tup, P::F(i as u32)));
            }
            args = a;
        }
        let ctx = self.child(Some(st.ctx), st.bb, f, 0);
        st.ctx = ctx;
        st.bb = 0;
        for (i, v) in args.iter().enumerate() {
            if i as u32 >= fd.ac {
                break;
            }
            let l = self.local(ctx, i as u32 + 1);
            st.mem.insert(l, *v);
        }
        self.arrive(st, true);
    }

    // ---------------------------------------------------------------- drops
    pub fn run_drops(&mut self, mut st: State) {
        loop {
            let fr = match st.drops.last_mut() {
                None => return,
                Some(f) => f,
            };
            if fr.ctx != st.ctx {
                // the frame belongs to an outer function: return to normal flow (cannot happen)
                return;
            }
            let item = match fr.pending.pop() {
                None => {
                    let t = fr.target;
                    st.drops.pop();
                    st.bb = t;
                    self.arrive(st, true);
                    return;
                }
                Some(i) => i,
            };
            let site = fr.site;
            let fctx = fr.ctx;
            match item {
                DropItem::Val(c, path, t, depth) => {
                    if !self.ty(t).needs_drop || depth > 10 {
                        continue;
                    }
                    let v = self.read(&st, c, &path);
                    if *nd(v) == N::Undef {
                        continue;
                    }
                    self.mon(|m, e| m.on_drop(e, &mut st, t, v, c, &path));
                    crate::models::drop_model(self, &mut st, t, v, c, &path);
                    let ty = self.ty(t).clone();
                    if ty.mdrop {
                        continue;
                    }
                    if let Some(df) = ty.drop {
                        let has = self.f(df).blocks.is_some();
                        let leaf = {
                            let m = self.mon.take().unwrap();
                            let r = m.leaf(self, self.f(df)) || self.skip(df);
                            self.mon = Some(m);
                            r
                        };
                        if has && !leaf && !self.recursive(st.ctx, df) {
                            let fr = st.drops.last_mut().unwrap();
                            fr.pending.push(DropItem::After(c, path.clone(), t, depth));
                            let ord = st.drops.len() as u32;
                            let n = self.ctxs.len() as u32;
                            let _ = n;
                            let ctx = self.child(Some(fctx), site, df, ord);
                            let l = self.local(ctx, 1);
                            let a = self.addr(&(c, path));
                            st.mem.insert(l, a);
                            st.ctx = ctx;
                            st.bb = 0;
                            self.arrive(st, true);
                            return;
                        }
                    }
                    self.push_fields(&mut st, c, path, t, depth);
                }
                DropItem::After(c, path, t, depth) => {
                    self.push_fields(&mut st, c, path, t, depth);
                }
            }
        }
    }

    fn push_fields(&mut self, st: &mut State, c: CellId, path: Vec<P>, t: TyId, depth: u32) {
        let ty = self.ty(t).clone();
        let mut items = vec![];
        match ty.k {
            _ if ty.is_box => {
                let v = self.read(st, c, &path);
                if let Some(pt) = ty.args.first() {
                    if self.ty(*pt).k != Kind::Dyn {
                        let l = self.target(v, Some(*pt));
                        items.push(DropItem::Val(l.0, l.1, *pt, depth + 1));
                    }
                }
            }
            Kind::Struct => {
                if ty.krate != "alloc" && ty.path != "once_cell::sync::Lazy" {
                    for (i, (_, ft)) in ty.variants[0].fields.iter().enumerate() {
                        let mut p = path.clone();
                        if !(ty.path == "core::cell::UnsafeCell" || ty.path == "core::mem::maybe_dangling::MaybeDangling") {
                            p.push(P::F(i as u32));
                        }
                        items.push(DropItem::Val(c, p, *ft, depth + 1));
                    }
                }
            }
            Kind::Enum => {
                let v = self.read(st, c, &path);
                if let Some(k) = self.variant(st, v, t) {
                    for (i, (_, ft)) in ty.variants[k as usize].fields.iter().enumerate() {
                        let mut p = path.clone();
                        p.push(P::D(k));
                        p.push(P::F(i as u32));
                        items.push(DropItem::Val(c, p, *ft, depth + 1));
                    }
                }
            }
            Kind::Tuple | Kind::Closure => {
                for (i, ft) in ty.fields.iter().enumerate() {
                    let mut p = path.clone();
                    p.push(P::F(i as u32));
                    items.push(DropItem::Val(c, p, *ft, depth + 1));
                }
            }
            _ => {}
        }
        items.retain(|i| match i {
            DropItem::Val(_, _, t, _) => self.ty(*t).needs_drop,
            _ => true,
        });
        items.reverse();
        st.drops.last_mut().unwrap().pending.extend(items);
    }
}

impl FnD {
    fn clone_sig(&self) -> FnSig {
        FnSig { p: self.p.clone(), ac: self.ac, spread: self.spread }
    }
}
struct FnSig {
    p: String,
    ac: u32,
    spread: Option<u32>,
}

fn dty_or(t: TyId, d: TyId, e: &Eng) -> TyId {
    // the destination's type names the same ADT
    if e.ty(d).path == e.ty(t).path && !e.ty(t).path.is_empty() {
        d
    } else {
        t
    }
}

fn cv_int(c: &CV) -> i128 {
    match c {
        CV::Int(i) => *i,
        CV::Agg(_, f) if f.len() == 1 => cv_int(&f[0]),
        _ => 0,
    }
}

fn join_fact(a: &Fact, b: &Fact) -> Fact {
    let lo = |f: &Fact| f.eq.or(f.lo);
    let hi = |f: &Fact| f.eq.or(f.hi);
    let excl = |f: &Fact, n: i128| f.eq.map_or(false, |e| e != n) || f.ne.contains(&n) || f.lo.map_or(false, |l| n < l) || f.hi.map_or(false, |h| n > h);
    let mut ne: Vec<i128> = a.ne.iter().chain(&b.ne).copied().filter(|n| excl(a, *n) && excl(b, *n)).collect();
    ne.sort();
    ne.dedup();
    // bounds are only kept when equal, so that joins stabilise
    let l = if lo(a) == lo(b) { lo(a) } else { None };
    let h = if hi(a) == hi(b) { hi(a) } else { None };
    Fact { eq: None, ne, lo: l, hi: h }
}

pub fn is_bool_term(v: Val) -> bool {
    matches!(nd(v), N::Op("eq" | "lt" | "not" | "and" | "or" | "ovf" | "pred", _) | N::Bool(_))
}

pub fn mk_not(v: Val) -> Val {
    match nd(v) {
        N::Bool(b) => boolean(!b),
        N::Op("not", a) => a[0],
        _ => op("not", vec![v]),
    }
}
pub fn mk_eq(a: Val, b: Val) -> Val {
    if a == b {
        return boolean(true);
    }
    if let (Some(x), Some(y)) = (as_int(a), as_int(b)) {
        return boolean(x == y);
    }
    if let (N::Str(x), N::Str(y)) = (nd(a), nd(b)) {
        return boolean(x == y);
    }
    // boolean equality with a constant
    for (x, y) in [(a, b), (b, a)] {
        if let N::Bool(k) = nd(y) {
            return if *k { x } else { mk_not(x) };
        }
    }
    // two values given part by part
    if let (N::Agg(t, i, f), N::Agg(u, j, g)) = (nd(a), nd(b)) {
        if t == u && i == j && f.len() == g.len() {
            let parts: Vec<Option<i128>> = f.iter().zip(g).map(|(x, y)| as_int(mk_eq(*x, *y))).collect();
            if parts.iter().any(|x| *x == Some(0)) {
                return boolean(false);
            }
            if parts.iter().all(|x| *x == Some(1)) {
                return boolean(true);
            }
        }
    }
    // x + c == d
    for (x, y) in [(a, b), (b, a)] {
        if let (N::Op("add", f), Some(k)) = (nd(x), as_int(y)) {
            if let Some(c) = as_int(f[1]) {
                return mk_eq(f[0], int(k - c));
            }
        }
    }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    op("eq", vec![a, b])
}
pub fn mk_lt(a: Val, b: Val) -> Val {
    if a == b {
        return boolean(false);
    }
    if let (Some(x), Some(y)) = (as_int(a), as_int(b)) {
        return boolean(x < y);
    }
    if let (N::Op("dur", x), N::Op("dur", y)) = (nd(a), nd(b)) {
        if let (Some(x), Some(y)) = (as_int(x[0]), as_int(y[0])) {
            return boolean(x < y);
        }
    }
    op("lt", vec![a, b])
}
pub fn mk_add(a: Val, b: Val) -> Val {
    let (a, b) = if as_int(a).is_some() { (b, a) } else { (a, b) };
    if let (Some(x), Some(y)) = (as_int(a), as_int(b)) {
        return int(x + y);
    }
    if as_int(b) == Some(0) {
        return a;
    }
    if let (N::Op("add", f), Some(k)) = (nd(a), as_int(b)) {
        if let Some(c) = as_int(f[1]) {
            return mk_add(f[0], int(c + k));
        }
    }
    if as_int(b).is_none() {
        // keep constants outermost
        if let N::Op("add", f) = nd(a) {
            if let Some(c) = as_int(f[1]) {
                return mk_add(mk_add(f[0], b), int(c));
            }
        }
        if let N::Op("add", f) = nd(b) {
            if let Some(c) = as_int(f[1]) {
                return mk_add(mk_add(a, f[0]), int(c));
            }
        }
        // (x - y) + y
        if let N::Op("sub", f) = nd(a) {
            if f[1] == b {
                return f[0];
            }
        }
        if let N::Op("sub", f) = nd(b) {
            if f[1] == a {
                return f[0];
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        return op("add", vec![a, b]);
    }
    op("add", vec![a, b])
}
pub fn mk_sub(a: Val, b: Val) -> Val {
    if let Some(k) = as_int(b) {
        return mk_add(a, int(-k));
    }
    if a == b {
        return int(0);
    }
    if let N::Op("add", f) = nd(a) {
        if f[0] == b {
            return f[1];
        }
        if f[1] == b {
            return f[0];
        }
        if let (Some(_), N::Op("add", g)) = (as_int(f[1]), nd(f[0])) {
            if g[0] == b {
                return mk_add(g[1], f[1]);
            }
            if g[1] == b {
                return mk_add(g[0], f[1]);
            }
        }
    }
    op("sub", vec![a, b])
}
pub fn mk_padd(p: Val, n: Val) -> Val {
    if as_int(n) == Some(0) {
        return p;
    }
    if let N::Op("padd", a) = nd(p) {
        return mk_padd(a[0], mk_add(a[1], n));
    }
    op("padd", vec![p, n])
}
/// Pointer to the first element of a slice pointer.
pub fn mk_data(v: Val) -> Val {
    match nd(v) {
        N::Fat(p, _) => *p,
        N::Op("vec_len", a) => mk_data(a[0]),
        N::Op("vec_raw", a) => a[0],
        _ => op("dataof", vec![v]),
    }
}
pub fn mk_len(v: Val) -> Val {
    match nd(v) {
        N::Fat(_, m) => *m,
        N::Str(s) => int(s.len() as i128),
        N::Op("vec_new", _) => int(0),
        N::Op("vec_cap", _) => int(0),
        N::Op("vec_push", a) => mk_add(mk_len(a[0]), int(1)),
        N::Op("vec_raw", a) => a[1],
        N::Op("vec_len", a) => a[1],
        N::Op("strof", a) => op("len", vec![a[0]]),
        // the residue of the length is known
        N::Op("encoded", a) if a.len() == 3 => mk_add(op("mul", vec![op("quart", vec![v]), int(4)]), a[2]),
        _ => op("len", vec![v]),
    }
}

pub fn is_repo(f: &FnD) -> bool {
    f.krate.starts_with("ipmb") || f.krate.starts_with("sa_selftest")
}

pub fn short(p: &str) -> String {
    // drop generic noise
    let mut o = String::new();
    for part in p.split("::") {
        o = if o.is_empty() { part.to_string() } else { format!("{o}::{part}") };
    }
    let v: Vec<&str> = o.split("::").collect();
    if v.len() > 3 {
        v[v.len() - 3..].join("::")
    } else {
        o
    }
}

pub fn short_span(s: &str) -> String {
    match s.find("/repo/") {
        Some(i) => s[i + 6..].to_string(),
        None => match s.find("library/") {
            Some(i) => s[i..].to_string(),
            None => s.to_string(),
        },
    }
}

impl Eng {
    /// Program points with the most distinct states (diagnostics).
    pub fn hot(&self, n: usize) -> Vec<String> {
        let mut v: Vec<(usize, String)> = self
            .points
            .iter()
            .map(|((c, b, _), p)| (p.seen.len(), format!("{} bb{} {} sk={}", self.chain(*c), b, p.seen.len(), p.counts.len())))
            .collect();
        v.sort();
        v.reverse();
        v.into_iter().take(n).map(|x| x.1).collect()
    }
}

pub fn dump_state(st: &State) -> Vec<String> {
    let mut v = vec![];
    for (c, x) in &st.mem {
        v.push(format!("M {} = {}", show_cell(*c), show(*x)));
    }
    for (k, f) in &st.facts {
        v.push(format!("F {} : {:?}", show(*k), f));
    }
    for (k, x) in &st.ghost {
        v.push(format!("G {} {} = {}", k.0, show(k.1), show(*x)));
    }
    for d in &st.drops {
        v.push(format!("D {:?}", d));
    }
    v
}
