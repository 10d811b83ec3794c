//! The C interface: ownership of handles (C28).
use super::util::*;
use super::*;
use crate::models;

const MADE: u16 = 300; // pointer made by `into_raw` -> 1 loose, 2 freed, 3 handed to the caller
const EATEN: u16 = 301; // pointer of a handle that was passed by value -> times it was taken back
const OBJ: u16 = 302; // number of an object that was passed by value -> times it was taken over
const GIVEN: u16 = 303; // object whose ownership was given up -> its number

/// A struct of this library around one untyped pointer.
pub fn is_handle(e: &Eng, t: TyId) -> bool {
    let ty = e.ty(t);
    ty.k == Kind::Struct && ty.krate == "ipmb_ffi" && ty.variants.first().map_or(false, |v| v.fields.len() == 1) && e.prog.field_ty(t, 0, 0).map_or(false, |f| e.ty(f).k == Kind::Ptr)
}
pub fn exported(e: &Eng) -> Vec<FnId> {
    e.prog.fns.iter().filter(|f| f.krate == "ipmb_ffi" && f.nomangle && f.blocks.is_some()).map(|f| f.id).collect()
}
fn is_object(e: &Eng, t: TyId) -> bool {
    let ty = e.ty(t);
    ty.krate == "ipmb" && ty.k == Kind::Struct && holds(e, t, &|e, t| e.ty(t).path.ends_with("fd::owned::OwnedFd")) && ty.size == Some(4)
}
/// `v` without casts
pub fn bare(v: Val) -> Val {
    match nd(v) {
        N::Op("cast", a) => match nd(a[0]) {
            // a narrower number is another number
            N::Str(t) if matches!(t.as_str(), "u8" | "i8" | "u16" | "i16") => v,
            _ => bare(a[a.len() - 1]),
        },
        _ => v,
    }
}
fn is_null(v: Val) -> bool {
    as_int(v) == Some(0) || matches!(nd(v), N::Op("null", _))
}

struct Handles {
    /// pointers of handles passed by value, with the type
    owned: Vec<(Val, TyId)>,
    /// parameters that point to handles: mutable reference, out-parameter
    refs: Vec<(Val, TyId)>,
    outs: Vec<(Val, TyId)>,
    /// numbers of objects passed by value
    objs: Vec<Val>,
    getter: bool,
    ret: TyId,
    /// what each kind of handle stands for
    kinds: Rc<RefCell<HashMap<TyId, TyId>>>,
}

impl Handles {
    fn kind(&mut self, e: &mut Eng, st: &State, h: TyId, t: TyId) {
        let was = *self.kinds.borrow_mut().entry(h).or_insert(t);
        if was != t {
            let m = format!("a handle of type {} stands for a {} here and for a {} elsewhere", e.ty(h).s, e.ty(t).s, e.ty(was).s);
            e.report(st, &format!("{} is two types", e.ty(h).path), m);
        }
    }
    fn take_back(&mut self, e: &mut Eng, st: &mut State, p: Val, t: Option<TyId>) {
        let p = bare(p);
        if let Some((o, h)) = self.owned.iter().find(|x| x.0 == p).cloned() {
            let n = st.g(EATEN, o).and_then(as_int).unwrap_or(0);
            if n > 0 {
                e.report(st, "a handle is freed twice", "a handle that was passed by value is taken back a second time on this path".into());
            }
            st.gset(EATEN, o, int(n + 1));
            if let Some(t) = t {
                self.kind(e, st, h, t);
            }
            return;
        }
        match st.g(MADE, p).and_then(as_int) {
            Some(1) => st.gset(MADE, p, int(2)),
            Some(2) => e.report(st, "a handle is freed twice", "a handle that was made here is taken back twice".into()),
            Some(_) => e.report(st, "a handle is freed after it was handed out", "a handle was handed to the caller and is then taken back".into()),
            None => {
                let m = format!("a pointer this function does not own is turned into a box and freed: {}", show(p));
                e.report(st, "a borrowed handle is freed", m);
            }
        }
    }
    /// a handle or a pointer reaches the caller
    fn expose(&mut self, e: &mut Eng, st: &mut State, v: Val, h: TyId, how: &str) {
        let p = bare(e.project(v, P::F(0)));
        if is_null(p) {
            return;
        }
        match st.g(MADE, p).and_then(as_int) {
            Some(1) => {
                if self.getter {
                    return e.report(st, "a getter hands out a handle of its own", format!("a non-owning getter makes a handle nobody will free ({how})"));
                }
                st.gset(MADE, p, int(3));
            }
            Some(2) => e.report(st, "a freed handle is handed out", format!("a handle that was freed before reaches the caller ({how})")),
            Some(_) => e.report(st, "a handle is handed out twice", format!("the same handle reaches the caller twice ({how})")),
            None => {
                if self.getter && from_param(p) && !self.owned.iter().any(|x| x.0 == p) {
                    e.count("borrowed handles handed out");
                    return;
                }
                let m = format!("the handle that reaches the caller as its own was not made here: {} ({how})", show(p));
                e.report(st, "a handle the caller does not own is handed out", m);
            }
        }
        let _ = h;
    }
}

impl Mon for Handles {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        let f = last(&c.rp).to_string();
        if c.rp.starts_with("alloc::boxed::Box::<T") {
            match f.as_str() {
                "from_raw" => {
                    let t = e.ty(c.ret).args.first().copied();
                    e.site("handle taken back", site(e, c));
                    self.take_back(e, st, c.args[0], t);
                }
                "into_raw" | "leak" => {
                    e.site("handle made", site(e, c));
                    st.gset(MADE, bare(c.args[0]), int(1));
                }
                _ => {}
            }
            return Act::Default;
        }
        let own = c.rp.starts_with("ipmb::") || c.rp.starts_with("<ipmb::");
        if own {
            if f == "from_raw" && is_object(e, c.ret) {
                e.site("object taken over", site(e, c));
                let x = c.args[0];
                match self.objs.iter().find(|o| any_sub(x, &mut |y| y == **o)).cloned() {
                    Some(o) => {
                        let n = st.g(OBJ, o).and_then(as_int).unwrap_or(0);
                        if n > 0 {
                            e.report(st, "an object is taken over twice", "the number of an object is put under two owners on this path".into());
                        }
                        st.gset(OBJ, o, int(n + 1));
                    }
                    None => e.report(st, "an object that is not the caller's is taken over", format!("an object is made of a number that was not passed by value: {}", show(x))),
                }
            }
            if f == "into_raw" && c.argtys.first().map_or(false, |t| is_object(e, *t)) {
                e.site("object given up", site(e, c));
                let r = op("given", vec![c.args[0]]);
                st.gset(GIVEN, c.args[0], r);
                return Act::Ret(r);
            }
            if f == "as_raw" && c.argtys.first().map_or(false, |t| is_object(e, peel(e, *t))) {
                return Act::Ret(op("peek", vec![c.args[0]]));
            }
            // what takes handles is generic code of this library's conversions
            if c.argtys.iter().any(|t| is_handle(e, *t)) {
                return Act::Default;
            }
            return Act::Leaf;
        }
        Act::Default
    }
    fn on_write(&mut self, e: &mut Eng, st: &mut State, c: CellId, path: &[P], v: Val) {
        let base = match cell(c) {
            Cell::Der(p) => p,
            _ => return,
        };
        if let Some((_, h)) = self.outs.iter().find(|o| o.0 == base).cloned() {
            e.count("out-parameters written");
            let v = if path.is_empty() { v } else { mk(N::Agg(h, 0, vec![v])) };
            self.expose(e, st, v, h, "out-parameter");
            return;
        }
        if self.refs.iter().any(|r| r.0 == base) {
            return e.report(st, "a borrowed handle is replaced", "a handle that was passed by reference is overwritten".into());
        }
        if self.getter && self.refs.iter().any(|r| any_sub(base, &mut |x| x == r.0)) {
            e.report(st, "a getter changes what it reads", "a non-owning getter changes the object behind the handle: what it hands out may be gone".into());
        }
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        for (p, h) in self.owned.clone() {
            e.count("by-value handles followed to a return");
            if st.g(EATEN, p).and_then(as_int).unwrap_or(0) == 0 {
                let m = format!("a handle of type {} is passed by value and never freed or taken over on this path", e.ty(h).s);
                e.report(st, "a handle leaks", m);
            }
        }
        for o in self.objs.clone() {
            e.count("by-value objects followed to a return");
            if st.g(OBJ, o).and_then(as_int).unwrap_or(0) == 0 {
                e.report(st, "an object leaks", "the number of an object is passed by value and put under no owner on this path".into());
            }
        }
        if is_handle(e, self.ret) {
            self.expose(e, st, ret, self.ret, "return value");
        } else if e.ty(self.ret).k == Kind::Uint && e.ty(self.ret).size == Some(8) {
            let mut given = vec![];
            let mut peek = vec![];
            any_sub(ret, &mut |x| {
                match nd(x) {
                    N::Op("given", a) => given.push(a[0]),
                    N::Op("peek", a) => peek.push(a[0]),
                    _ => {}
                }
                false
            });
            for a in &given {
                st.gdel(GIVEN, *a);
            }
            if self.getter && !given.is_empty() {
                e.report(st, "a getter hands out an object of its own", "a non-owning getter gives up ownership of an object".into());
            }
            if !self.getter && !peek.is_empty() {
                e.report(st, "an object the caller does not own is handed out", "the caller is to own the object it gets, but it is still owned here".into());
            }
            for p in peek {
                if !from_param(p) {
                    e.report(st, "an object that is gone is handed out", format!("the number of an object that does not outlive the call is handed out: {}", show(p)));
                }
            }
            if given.is_empty() && as_int(ret).map_or(false, |x| x != 0) {
                e.report(st, "an object that does not exist is handed out", format!("the result {} is neither 0 nor the number of an object", show(ret)));
            }
        }
        if let Some((x, _)) = st.gkeys(GIVEN).first() {
            e.report(st, "an object leaks", format!("ownership of an object is given up, but its number does not reach the caller: {}", show(*x)));
        }
        for (p, s) in st.gkeys(MADE) {
            if as_int(s) == Some(1) {
                e.report(st, "a handle leaks", format!("a handle is made, but neither handed out nor freed: {}", show(p)));
            }
        }
    }
}

pub fn c28(env: &Env, rep: &mut Rep) {
    let mut e = env.ffi();
    let kinds: Rc<RefCell<HashMap<TyId, TyId>>> = Default::default();
    for f in exported(&e) {
        let fd = e.f(f).clone();
        let mut m = Handles { owned: vec![], refs: vec![], outs: vec![], objs: vec![], getter: fd.p.ends_with("_get"), ret: fd.locals[0], kinds: kinds.clone() };
        let n = last(&fd.p).to_string();
        let mut any = is_handle(&e, fd.locals[0]);
        for (i, t) in par(&fd).iter().enumerate() {
            let a = mk(N::Param(format!("arg{}", i + 1)));
            let ty = e.ty(*t).clone();
            if is_handle(&e, *t) {
                rep.site("handle passed by value", format!("{n} #{i}"));
                let p = e.project(a, P::F(0));
                m.owned.push((p, *t));
                any = true;
            } else if matches!(ty.k, Kind::Ref | Kind::Ptr) && ty.elem.map_or(false, |x| is_handle(&e, x)) {
                any = true;
                if ty.k == Kind::Ref {
                    rep.site("handle passed by reference", format!("{n} #{i}"));
                    m.refs.push((a, ty.elem.unwrap()));
                } else {
                    rep.site("handle handed out by pointer", format!("{n} #{i}"));
                    m.outs.push((a, ty.elem.unwrap()));
                }
            } else if ty.k == Kind::Uint && ty.size == Some(8) && ty.s == "u64" {
                rep.site("object passed by value", format!("{n} #{i}"));
                m.objs.push(a);
                any = true;
            }
        }
        if is_handle(&e, fd.locals[0]) {
            rep.site("handle returned", n.clone());
        }
        if any {
            rep.site("exported function followed", n);
            run(&mut e, rep, f, Box::new(m), &mut |_, _| {});
        }
    }
    for (k, n) in [("handle passed by value", 12), ("handle passed by reference", 10), ("handle handed out by pointer", 6), ("handle returned", 9), ("object passed by value", 2)] {
        rep.floor(k, n);
    }
    // nothing that owns something is taken out of ownership behind the compiler's back
    for (f, _, c, sp) in repo_calls(&e) {
        if e.f(f).krate != "ipmb_ffi" {
            continue;
        }
        let p = c.rp.as_str();
        let lose = ["core::mem::forget", "core::mem::manually_drop::ManuallyDrop::<T>::new", "core::ptr::read", "core::ptr::const_ptr::<impl *const T>::read", "core::ptr::mut_ptr::<impl *mut T>::read", "core::mem::transmute_copy", "core::mem::zeroed"];
        if !lose.iter().any(|l| p == *l || p.starts_with(l)) {
            continue;
        }
        let owns = |t: TyId| {
            let t = if e.ty(t).k == Kind::Ptr || e.ty(t).k == Kind::Ref { e.ty(t).elem.unwrap_or(t) } else { t };
            e.ty(t).needs_drop && !is_handle(&e, t)
        };
        if c.args.iter().any(|t| owns(*t)) {
            rep.bad(&format!("{} in {}", last(p), e.f(f).p), "something that owns a resource is duplicated or left without a destructor".into(), sp);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C29: what a call reports; C30: what a call passes on

const OUTCOME: u16 = 304; // how the core operation ended: 0 well, 1 + variant
const WROTE: u16 = 305; // out-parameter -> written on this path
const CALLS: u16 = 306; // core operation -> times called on this path
const RES: u16 = 307; // what the core operation delivered
const SEEN: u16 = 308; // arguments stay known

/// the operations of the core a binding is for
pub fn core_op(e: &Eng, c: &Call) -> Option<&'static str> {
    if !(c.rp.starts_with("ipmb::") || c.rp.starts_with("<ipmb::")) {
        return None;
    }
    let f = last(&c.rp);
    let a = c.argtys.first().map(|t| peel(e, *t));
    let on = |n: &str| a.map_or(false, |t| named(e, t, n));
    Some(match f {
        "join" if c.args.len() == 2 && e.ty(c.ret).path.ends_with("Result") => "join",
        "send" if on("EndpointSender") => "send",
        "recv" if on("EndpointReceiver") => "recv",
        "alloc" if on("MemoryRegistry") => "alloc",
        "alloc_with_free" if on("MemoryRegistry") => "alloc_with_free",
        "maintain" if on("MemoryRegistry") => "maintain",
        "map" if on("MemoryRegion") => "map",
        "clone" if on("MemoryRegion") => "clone",
        "ref_count" if on("MemoryRegion") => "ref_count",
        "new" if c.rp.contains("MemoryRegion::new") => "new",
        "insert" if on("Label") => "insert",
        "version" if c.args.is_empty() => "version",
        _ => return None,
    })
}
/// without what only wraps a text
pub fn text_of(v: Val) -> Val {
    match nd(v) {
        N::Op("string", a) | N::Op("strof", a) | N::Op("str", a) => text_of(a[0]),
        N::Deref(p) if matches!(nd(*p), N::Op("text" | "string" | "strof", _)) => text_of(*p),
        _ => v,
    }
}
fn is_text(v: Val, ptr: Val) -> bool {
    match nd(text_of(v)) {
        N::Op("text", a) => a[0] == ptr,
        _ => false,
    }
}
pub fn stringy(e: &Eng, t: TyId) -> bool {
    let ty = e.ty(t);
    match ty.k {
        Kind::Ref => ty.elem.map_or(false, |x| stringy(e, x)),
        Kind::Str => true,
        _ => matches!(last(&ty.path), "String" | "SmolStr" | "Cow"),
    }
}
/// is `v` the value at `base`, perhaps spelled out field by field
pub fn same(e: &mut Eng, v: Val, base: Val) -> bool {
    if v == base {
        return true;
    }
    if let N::Agg(t, k, a) = nd(v) {
        let en = e.ty(*t).k == Kind::Enum;
        let (k, a) = (*k, a.clone());
        return a.iter().enumerate().all(|(i, x)| {
            let b = if en { e.project(base, P::D(k as u32)) } else { base };
            let b = e.project(b, P::F(i as u32));
            same(e, *x, b)
        });
    }
    false
}

struct Bind {
    want: &'static str,
    name: String,
    fnc: FnId,
    args: Vec<(Val, TyId)>,
    ret: TyId,
    consts: Rc<HashMap<String, i128>>,
    /// closure body -> what it does with its captures: function pointer, arguments
    free: Option<(Vec<P>, Vec<Vec<P>>)>,
    /// (function, outcome) -> code
    table: Rc<RefCell<BTreeMap<(String, String), i128>>>,
    outs: Vec<usize>,
}

impl Bind {
    fn bad(&self, e: &mut Eng, st: &State, prop: &str, key: &str, msg: String) {
        if prop == self.want {
            e.report(st, &format!("{key} in {}", self.name), msg);
        }
    }
    fn a(&self, i: usize) -> Val {
        self.args.get(i).map_or(unit(), |x| x.0)
    }
    /// the object behind a handle that is passed by reference / by value
    fn object(&self, e: &mut Eng, i: usize) -> Val {
        let (v, t) = match self.args.get(i) {
            Some(x) => *x,
            None => return unit(),
        };
        let h = if is_handle(e, t) { v } else { mk(N::Deref(v)) };
        e.project(h, P::F(0))
    }
    fn expect(&self, e: &mut Eng, st: &State, ok: bool, what: &str, got: Val) {
        e.count("arguments compared");
        if !ok {
            self.bad(e, st, "C30", what, format!("{what}: {} reaches the core", show(got)));
        }
    }
    fn timeout(&self, e: &mut Eng, st: &State, v: Val, t: TyId, arg: Val) {
        let inf = *self.consts.get("TIMEOUT_INFINITE").unwrap_or(&0xffff_ffff);
        let is_inf = e.known(st, mk_eq(arg, int(inf)));
        let ok = match e.variant(st, v, t) {
            Some(0) => is_inf == Some(1),
            Some(1) => {
                let d = e.project(v, P::D(1));
                let d = e.project(d, P::F(0));
                is_inf == Some(0) && d == op("durms", vec![arg])
            }
            _ => false,
        };
        self.expect(e, st, ok, "the timeout is not the caller's", v);
    }
    fn tag(&self, e: &mut Eng, st: &State, v: Val, t: TyId, arg: Val) {
        let null = e.known(st, mk_eq(arg, int(0)));
        let ok = match e.variant(st, v, t) {
            Some(0) => null == Some(1) || self.null(e, st, arg) == Some(true),
            Some(1) => {
                let d = e.project(v, P::D(1));
                let d = e.project(d, P::F(0));
                self.null(e, st, arg) == Some(false) && is_text(models::str_content(d), arg)
            }
            _ => false,
        };
        self.expect(e, st, ok, "the tag is not the caller's", v);
    }
    fn null(&self, e: &mut Eng, st: &State, p: Val) -> Option<bool> {
        for k in [mk_eq(p, int(0)), mk_eq(p, op("null", vec![])), mk_eq(op("null", vec![]), p)] {
            if let Some(x) = e.known(st, k) {
                return Some(x == 1);
            }
        }
        None
    }
    fn core(&mut self, e: &mut Eng, st: &mut State, c: &Call, o: &'static str) {
        let n = st.g(CALLS, word(o)).and_then(as_int).unwrap_or(0);
        st.gset(CALLS, word(o), int(n + 1));
        if n > 0 {
            self.bad(e, st, "C30", "an operation is done twice", format!("{o} is called twice for one call of the binding"));
        }
        let arg = |i: usize| c.args.get(i).copied().unwrap_or(unit());
        let ty = |i: usize| c.argtys.get(i).copied().unwrap_or(0);
        let want = match self.name.as_str() {
            "ipmb_memory_registry" | "ipmb_version" | "ipmb_version_pre" => return,
            x => x.strip_prefix("ipmb_").unwrap_or(x).to_string(),
        };
        let fits = match o {
            "join" | "send" | "recv" => want == o,
            "alloc" => want.starts_with("memory_registry_alloc"),
            "alloc_with_free" => want == "memory_registry_alloc_with_free",
            "maintain" => want == "memory_registry_maintain",
            "map" => want == "memory_region_map",
            "clone" => want == "memory_region_clone",
            "ref_count" => want == "memory_region_ref_count",
            "new" => want == "memory_region",
            "insert" => want == "label_insert",
            _ => true,
        };
        self.expect(e, st, fits, "another operation is done", word(o));
        if !matches!(o, "join" | "new" | "version") {
            let h = self.object(e, 0);
            let ok = arg(0) == h;
            self.expect(e, st, ok, "the object is not the caller's", arg(0));
        }
        match o {
            "join" => {
                let t = ty(0);
                let p = self.a(0);
                let field = |e: &Eng, t: TyId, n: &str| e.ty(t).variants.first().and_then(|v| v.fields.iter().position(|f| f.0 == n)).map(|i| i as u32);
                let src = self.args[0].1;
                for n in ["identifier", "token", "controller_affinity", "label"] {
                    let (i, j) = match (field(e, t, n), field(e, src, n)) {
                        (Some(i), Some(j)) => (i, j),
                        _ => {
                            self.bad(e, st, "C30", "an option is gone", format!("`{n}` is no longer a field of the options"));
                            continue;
                        }
                    };
                    let v = e.project(arg(0), P::F(i));
                    let s = e.project(p, P::F(j));
                    let ok = match n {
                        "identifier" | "token" => is_text(v, s),
                        "label" => {
                            let l = mk(N::Deref(s));
                            let l = e.project(l, P::F(0));
                            let l = mk(N::Deref(l));
                            same(e, v, l)
                        }
                        _ => v == s || e.known(st, s).map_or(false, |k| as_int(v) == Some(k as i128)),
                    };
                    self.expect(e, st, ok, &format!("the {n} is not the caller's"), v);
                }
                self.timeout(e, st, arg(1), ty(1), self.a(1));
            }
            "send" => {
                let m = self.object(e, 1);
                let m = mk(N::Deref(m));
                let ok = same(e, arg(1), m);
                self.expect(e, st, ok, "the message is not the caller's", arg(1));
            }
            "recv" => self.timeout(e, st, arg(1), ty(1), self.a(2)),
            "alloc" | "alloc_with_free" => {
                let ok = arg(1) == self.a(1);
                self.expect(e, st, ok, "the size is not the caller's", arg(1));
                self.tag(e, st, arg(2), ty(2), self.a(2));
                if self.name.ends_with("_with_free") {
                    let (fv, ft) = self.args[4];
                    let some = e.variant(st, fv, ft);
                    let ok = if o == "alloc" {
                        some == Some(0)
                    } else {
                        let f = e.project(fv, P::D(1));
                        let f = e.project(f, P::F(0));
                        some == Some(1)
                            && match &self.free {
                                Some((fp, ap)) => along(e, arg(3), fp) == f && ap.len() == 1 && along(e, arg(3), &ap[0]) == self.a(3),
                                None => false,
                            }
                    };
                    self.expect(e, st, ok, "the callback is not the caller's", arg(3));
                }
            }
            "new" => {
                let ok = arg(0) == self.a(0);
                self.expect(e, st, ok, "the size is not the caller's", arg(0));
            }
            "map" => {
                let (off, size) = (self.a(1), self.a(2));
                let neg = e.known(st, mk_lt(size, int(0)));
                let end = |v: Val| {
                    let s = |x: Val| match nd(x) {
                        N::Op("cast", a) => a[1] == size,
                        _ => x == size,
                    };
                    match nd(v) {
                        N::Op("sadd", a) => a[0] == off && s(a[1]) || a[1] == off && s(a[0]),
                        _ => false,
                    }
                };
                let r = arg(1);
                let ok = match nd(r) {
                    N::Agg(t, _, a) => match (last(&e.ty(*t).path), a.len()) {
                        ("RangeFrom", 1) => a[0] == off && neg == Some(1),
                        ("Range", 2) => a[0] == off && neg == Some(0) && end(a[1]),
                        _ => false,
                    },
                    _ => false,
                };
                self.expect(e, st, ok, "the range is not the caller's", r);
            }
            "insert" => {
                let ok = is_text(arg(1), self.a(1));
                self.expect(e, st, ok, "the label is not the caller's", arg(1));
            }
            _ => {}
        }
    }
    /// the object a handle that was made here stands for
    fn behind(&self, e: &mut Eng, st: &State, h: Val) -> Val {
        let p = e.project(h, P::F(0));
        e.load(st, bare(p), None)
    }
    fn out_value(&self, e: &mut Eng, st: &State, i: usize) -> Val {
        let t = e.ty(self.args[i].1).elem;
        let (c, p) = e.target(self.a(i), t);
        e.read(st, c, &p)
    }
    fn boxed(&self, e: &mut Eng, st: &State, v: Val, base: Val) -> bool {
        let w = e.load(st, v, None);
        same(e, w, mk(N::Deref(base))) || same(e, w, base)
    }
    fn calls(&self, st: &State, o: &'static str) -> i128 {
        st.g(CALLS, word(o)).and_then(as_int).unwrap_or(0)
    }
    /// C30 at the return
    fn passed(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        let n = self.name.clone();
        let res = st.g(RES, unit());
        // the operation was done, and what it delivered is what the caller gets
        let op_of: Option<&'static str> = match n.as_str() {
            "ipmb_send" => Some("send"),
            "ipmb_recv" => Some("recv"),
            "ipmb_memory_registry_alloc" => Some("alloc"),
            "ipmb_memory_registry_maintain" => Some("maintain"),
            "ipmb_memory_region" => Some("new"),
            "ipmb_memory_region_map" => Some("map"),
            "ipmb_memory_region_clone" => Some("clone"),
            "ipmb_memory_region_ref_count" => Some("ref_count"),
            "ipmb_label_insert" => Some("insert"),
            "ipmb_version" => Some("version"),
            _ => None,
        };
        if let Some(o) = op_of {
            let done = self.calls(st, o) == 1;
            self.expect(e, st, done, "the operation is not done", word(o));
        }
        let ok = st.g(OUTCOME, unit()).and_then(as_int) == Some(0);
        if let (true, Some(r)) = (ok, res) {
            let out = match n.as_str() {
                "ipmb_recv" => Some(1),
                "ipmb_memory_region" | "ipmb_memory_region_clone" => Some(1),
                "ipmb_memory_registry_alloc" => Some(3),
                "ipmb_memory_registry_alloc_with_free" => Some(5),
                _ => None,
            };
            if let Some(i) = out {
                let h = self.out_value(e, st, i);
                let v = self.behind(e, st, h);
                let same = same(e, v, r);
                self.expect(e, st, same, "the caller gets something else", v);
            }
            if n == "ipmb_memory_region_map" {
                let good = bare(ret) == mk_data(r);
                self.expect(e, st, good, "the caller gets another place", ret);
                if st.g(WROTE, self.a(3)).is_some() {
                    let v = self.out_value(e, st, 3);
                    let good = bare(v) == mk_len(r);
                    self.expect(e, st, good, "the caller gets another length", v);
                }
            }
        }
        if n == "ipmb_memory_region_ref_count" {
            if let Some(r) = res {
                let good = ret == r;
                self.expect(e, st, good, "the caller gets something else", ret);
            }
        }
        if n == "ipmb_version" {
            if let Some(r) = res {
                let _ = r;
                for (i, f) in ["major", "minor", "patch"].iter().enumerate() {
                                        let null = self.null(e, st, self.a(i));
                    if null == Some(true) {
                        continue;
                    }
                    let want = op("part", vec![word(f)]);
                    let v = self.out_value(e, st, i);
                    let good = st.g(WROTE, self.a(i)).is_some() && want == v;
                    self.expect(e, st, good, &format!("{f} is not the version's"), v);
                }
            }
        }
        // what is handed out was built from what was passed
        let op_t = |e: &Eng, v: Val| match nd(v) {
            N::Agg(t, k, a) => e.ty(*t).variants.get(*k as usize).map(|x| (x.name.clone(), a.clone())),
            _ => None,
        };
        match n.as_str() {
            "ipmb_label_op_bool" | "ipmb_label_op_leaf" | "ipmb_label_op_not" | "ipmb_label_op_and" | "ipmb_label_op_or" => {
                let v = self.behind(e, st, ret);
                let good = match (n.as_str(), op_t(e, v)) {
                    ("ipmb_label_op_bool", Some((k, a))) if a.is_empty() => {
                        let b = truth(e, st, self.a(0));
                        k == "True" && b == Some(true) || k == "False" && b == Some(false)
                    }
                    ("ipmb_label_op_leaf", Some((k, a))) if a.len() == 1 => k == "Leaf" && is_text(a[0], self.a(0)),
                    ("ipmb_label_op_not", Some((k, a))) if a.len() == 1 => {
                        let l = self.object(e, 0);
                        k == "Not" && self.boxed(e, st, a[0], l)
                    }
                    (f, Some((k, a))) if a.len() == 2 => {
                        let (l, r) = (self.object(e, 0), self.object(e, 1));
                        k == (if f.ends_with("and") { "And" } else { "Or" }) && self.boxed(e, st, a[0], l) && self.boxed(e, st, a[1], r)
                    }
                    _ => false,
                };
                self.expect(e, st, good, "another expression is built", v);
            }
            "ipmb_message" => {
                let v = self.behind(e, st, ret);
                self.message(e, st, v);
            }
            "ipmb_message_bytes_data" => {
                let m = self.object(e, 0);
                let m = mk(N::Deref(m));
                if let Some(pl) = self.payload(e, m) {
                    for (i, k) in [(1, "format"), (2, "ptr"), (3, "size")] {
                        let v = self.out_value(e, st, i);
                        let f = self.bytes_field(e, pl, if i == 1 { "format" } else { "data" });
                        let good = match k {
                            "format" => v == f,
                            "ptr" => bare(v) == mk_data(f),
                            _ => bare(v) == mk_len(f),
                        };
                        let good = good && st.g(WROTE, self.a(i)).is_some();
                        self.expect(e, st, good, &format!("the {k} is not the message's"), v);
                    }
                }
            }
            "ipmb_message_object_get" | "ipmb_message_object_retrieve" | "ipmb_message_memory_region_get" | "ipmb_message_memory_region_retrieve" => {
                let (l, et) = match self.list(e) {
                    Some(x) => x,
                    None => return self.bad(e, st, "C30", "the list is gone", "the message has no list of what is asked for".into()),
                };
                let i = self.a(1);
                let none = as_int(ret) == Some(0) || is_handle(e, self.ret) && { let p = e.project(ret, P::F(0)); is_null(bare(p)) };
                if none {
                    let out = e.known(st, mk_lt(i, mk_len(l)));
                    self.expect(e, st, out == Some(0), "nothing is handed out although the index is inside", i);
                    return;
                }
                let ep = models::elem_ptr(e, l, i, Some(et));
                let good = if is_handle(e, self.ret) {
                    let p = e.project(ret, P::F(0));
                    let p = bare(p);
                    if n.ends_with("_get") {
                        p == ep
                    } else {
                        let v = e.load(st, p, None);
                        same(e, v, mk(N::Deref(ep)))
                    }
                } else {
                    let x = bare(ret);
                    match nd(x) {
                        N::Op("peek", a) => a[0] == ep,
                        N::Op("given", a) => same(e, a[0], mk(N::Deref(ep))),
                        _ => false,
                    }
                };
                self.expect(e, st, good, "another element is handed out", ret);
            }
            "ipmb_message_object_append" | "ipmb_message_memory_region_append" => {
                let done = self.calls(st, "append") == 1;
                self.expect(e, st, done, "nothing is appended", unit());
            }
            "ipmb_rstring_data" => {
                let s = self.object(e, 0);
                let s = mk(N::Deref(s));
                let p = self.out_value(e, st, 1);
                let l = self.out_value(e, st, 2);
                let q = self.object(e, 0);
                let good = any_sub(p, &mut |x| x == s || x == q) && any_sub(l, &mut |x| x == s || x == q) && st.g(WROTE, self.a(1)).is_some() && st.g(WROTE, self.a(2)).is_some();
                self.expect(e, st, good, "the text is not the string's", op("both", vec![p, l]));
            }
            _ => {}
        }
    }
    fn payload(&self, e: &mut Eng, m: Val) -> Option<Val> {
        let t = (0..e.prog.types.len() as TyId).find(|t| named(e, *t, "Message") && e.ty(*t).krate == "ipmb" && path_to(e, *t, &|e, t| named(e, t, "BytesMessage")).is_some())?;
        let p = path_to(e, t, &|e, t| named(e, t, "BytesMessage"))?;
        Some(along(e, m, &p))
    }
    fn bytes_field(&self, e: &mut Eng, pl: Val, n: &str) -> Val {
        let t = (0..e.prog.types.len() as TyId).find(|t| named(e, *t, "BytesMessage")).unwrap_or(0);
        let i = e.ty(t).variants.first().and_then(|v| v.fields.iter().position(|f| f.0 == n)).unwrap_or(99);
        e.project(pl, P::F(i as u32))
    }
    /// the list of objects or regions of the message that is passed
    fn list(&self, e: &mut Eng) -> Option<(Val, TyId)> {
        let m = self.object(e, 0);
        let m = mk(N::Deref(m));
        let t = (0..e.prog.types.len() as TyId).find(|t| named(e, *t, "Message") && e.ty(*t).krate == "ipmb" && path_to(e, *t, &|e, t| named(e, t, "BytesMessage")).is_some())?;
        let regions = self.name.contains("memory_region");
        let p = path_to(e, t, &|e, t| e.ty(t).path == "alloc::vec::Vec" && e.ty(t).args.first().map_or(false, |a| if regions { named(e, *a, "MemoryRegion") } else { is_object(e, *a) }))?;
        let et = e.walk_ty(t, &p).and_then(|t| e.ty(t).args.first().copied())?;
        Some((along(e, m, &p), et))
    }
    fn message(&mut self, e: &mut Eng, st: &mut State, v: Val) {
        let mt = match nd(v) {
            N::Agg(t, _, _) => *t,
            _ => return self.bad(e, st, "C30", "the message is not known", format!("the message that is made is not known: {}", show(v))),
        };
        let sp = match path_to(e, mt, &|e, t| named(e, t, "Selector") && e.ty(t).krate == "ipmb") {
            Some(p) => p,
            None => return self.bad(e, st, "C30", "the selector is gone", "a message has no selector".into()),
        };
        let sel = along(e, v, &sp);
        let sty = e.walk_ty(mt, &sp).unwrap();
        let field = |e: &Eng, t: TyId, n: &str| e.ty(t).variants.first().and_then(|v| v.fields.iter().position(|f| f.0 == n)).map(|i| i as u32);
        let ft = self.args[0].1;
        for n in ["label_op", "mode", "ttl"] {
            let (i, j) = match (field(e, sty, n), field(e, ft, n)) {
                (Some(i), Some(j)) => (i, j),
                _ => {
                    self.bad(e, st, "C30", "a part of the selector is gone", format!("`{n}` is no longer a field of the selector"));
                    continue;
                }
            };
            let x = e.project(sel, P::F(i));
            let s = e.project(self.a(0), P::F(j));
            let good = match n {
                "label_op" => {
                    let l = mk(N::Deref(s));
                    let l = e.project(l, P::F(0));
                    let l = mk(N::Deref(l));
                    same(e, x, l)
                }
                "ttl" => x == op("durms", vec![s]),
                _ => {
                    let (t1, t2) = (e.prog.field_ty(sty, 0, i).unwrap_or(0), e.prog.field_ty(ft, 0, j).unwrap_or(0));
                    match (e.variant(st, x, t1), e.variant(st, s, t2)) {
                        (Some(a), Some(b)) => {
                            let (a, b) = (e.ty(t1).variants[a as usize].name.clone(), e.ty(t2).variants[b as usize].name.clone());
                            b.trim_start_matches('k') == a
                        }
                        _ => false,
                    }
                }
            };
            let what = match n {
                "label_op" => "the label expression is not the caller's",
                "ttl" => "the time to live is not the caller's",
                _ => "the routing mode is not the caller's",
            };
            self.expect(e, st, good, what, x);
        }
        if let Some(p) = path_to(e, mt, &|e, t| named(e, t, "BytesMessage")) {
            let pl = along(e, v, &p);
            let f = self.bytes_field(e, pl, "format");
            let good = f == self.a(1);
            self.expect(e, st, good, "the format is not the caller's", f);
            let d = self.bytes_field(e, pl, "data");
            let (ptr, n) = (self.a(2), self.a(3));
            let good = match nd(d) {
                N::Op("slice", a) => a[0] == mk(N::Deref(ptr)) && bare(a[1]) == n,
                _ => as_int(mk_len(d)) == Some(0) && (e.known(st, mk_eq(n, int(0))) == Some(1) || self.null(e, st, ptr) == Some(true)),
            };
            self.expect(e, st, good, "the bytes are not the caller's", d);
        }
    }
    /// C29 at the return
    fn reported(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        let how = st.g(OUTCOME, unit()).and_then(as_int);
        let good = how == Some(0);
        let errt = st.g(OUTCOME, int(1)).and_then(as_int).map(|t| t as TyId);
        if e.ty(self.ret).s == "i32" {
            let code = match as_int(ret) {
                Some(c) => c,
                None => return self.bad(e, st, "C29", "the code is not known", format!("the code returned is not a constant: {}", show(ret))),
            };
            let success = self.consts.get("ERROR_CODE_SUCCESS").copied();
            if good != (Some(code) == success) {
                self.bad(e, st, "C29", "success and failure are mixed up", format!("the code {code} is returned although the operation {}", if good { "succeeded" } else { "did not succeed" }));
            }
            let unknown = self.consts.get("ERROR_CODE_UNKNOWN").copied();
            let reason = match (how, errt) {
                (Some(k), Some(t)) if k > 0 => e.ty(t).variants.get(k as usize - 1).map(|v| v.name.clone()),
                _ => None,
            };
            if !good {
                let want = reason.as_ref().and_then(|r| self.consts.get(&format!("ERROR_CODE_{}", snake(r)))).copied().or(unknown);
                if want != Some(code) {
                    self.bad(e, st, "C29", &format!("{} is reported under another name", reason.clone().unwrap_or("a failure".into())), format!("{} is reported as {code}, its code is {want:?}", reason.clone().unwrap_or("a failure of another kind".into())));
                }
            }
            e.count("outcomes followed to their code");
            self.table.borrow_mut().insert((self.name.clone(), if good { "Ok".into() } else { reason.unwrap_or("(refused)".into()) }), code);
        } else if e.ty(self.ret).k == Kind::Ptr {
            let null = is_null(ret) || e.known(st, mk_eq(ret, int(0))) == Some(1);
            if null == good {
                self.bad(e, st, "C29", "success and failure are mixed up", format!("{} is returned although the operation {}", show(ret), if good { "succeeded" } else { "did not succeed" }));
            }
            e.count("outcomes followed to their code");
        } else {
            return;
        }
        for i in self.outs.clone() {
            let w = st.g(WROTE, self.a(i)).is_some();
            if w && !good {
                self.bad(e, st, "C29", "an out-parameter is written although the call failed", format!("out-parameter #{i} is written on a path that does not succeed"));
            }
            if !w && good && self.null(e, st, self.a(i)) != Some(true) {
                self.bad(e, st, "C29", "an out-parameter is not written although the call succeeded", format!("out-parameter #{i} is not written on a path that succeeds"));
            }
        }
    }
}
fn snake(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() && i > 0 {
            o.push('_');
        }
        o.push(c.to_ascii_uppercase());
    }
    o
}

impl Mon for Bind {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        let f = last(&c.rp).to_string();
        if matches!(f.as_str(), "major" | "minor" | "patch") && c.rp.starts_with("ipmb::Version") {
            let mut v = c.args[0];
            if e.ty(c.argtys[0]).k == Kind::Ref {
                v = e.load(st, v, None);
            }
            if Some(v) == st.g(RES, unit()) {
                return Act::Ret(op("part", vec![word(&f)]));
            }
        }
        if f == "len" && c.args.len() == 1 && stringy(e, c.argtys[0]) {
            let v = e.load(st, c.args[0], None);
            return Act::Ret(op("textlen", vec![v]));
        }
        if f == "from_raw_parts" && c.rp.contains("slice") && c.args.len() == 2 {
            let fine = self.null(e, st, bare(c.args[0])) == Some(false) || self.null(e, st, c.args[0]) == Some(false) || truth(e, st, bare(c.args[1])) == Some(true) || truth(e, st, c.args[1]) == Some(true);
            e.site("bytes read from the caller", site(e, c));
            if !fine {
                self.bad(e, st, "C30", "an empty payload without a pointer is read", "the bytes are taken from the pointer although it may be null when the size is 0".into());
            }
        }
        // texts of the caller
        if c.rp.contains("c_str") {
            let text = op("text", vec![c.args.first().copied().unwrap_or(unit())]);
            match f.as_str() {
                "from_ptr" => return Act::Ret(c.args[0]),
                "to_str" => {
                    let mut no = st.clone();
                    let x = e.fresh(&mut no, c.ctx, c.bb, 1);
                    let y = (st.clone(), models::ok(c.ret, text));
                    return Act::Forks(vec![(no, models::err(c.ret, x)), y]);
                }
                "to_string_lossy" => return Act::Ret(text),
                _ => {}
            }
        }
        if let (Some(a), Some(t)) = (c.args.first().copied(), c.argtys.first().copied()) {
            if c.args.len() == 1 && stringy(e, t) && stringy(e, c.ret) {
                let mut v = a;
                if !matches!(nd(text_of(v)), N::Op("text", _)) {
                    v = e.load(st, a, None);
                }
                let v = text_of(v);
                if matches!(nd(v), N::Op("text", _)) && matches!(f.as_str(), "into" | "from" | "into_owned" | "to_string" | "to_owned" | "clone" | "deref" | "as_ref" | "borrow" | "as_str") {
                    return Act::Ret(if e.ty(c.ret).k == Kind::Ref { op("strof", vec![v]) } else { op("string", vec![v]) });
                }
            }
        }
        if let Some(o) = core_op(e, c) {
            e.site("core operation", format!("{o} in {}", self.name));
            self.core(e, st, c, o);
            return self.outcome(e, st, c);
        }
        let own = c.rp.starts_with("ipmb::") || c.rp.starts_with("<ipmb::");
        if own && is_object(e, c.argtys.first().map_or(0, |t| peel(e, *t))) && matches!(f.as_str(), "into_raw" | "as_raw") {
            return Act::Ret(op(if f == "into_raw" { "given" } else { "peek" }, vec![c.args[0]]));
        }
        if own && f == "from_raw" && is_object(e, c.ret) {
            let ok = self.args.iter().any(|a| bare(c.args[0]) == a.0);
            self.expect(e, st, ok, "the object is not the caller's", c.args[0]);
            return Act::Ret(op("taken", vec![bare(c.args[0])]));
        }
        if c.rp.starts_with("alloc::vec::Vec::<T") && self.name.ends_with("_append") && matches!(f.as_str(), "push" | "insert" | "extend" | "resize") {
            let l = self.list(e);
            let at = e.load(st, c.args[0], None);
            let mut ok = f == "push" && l.map_or(false, |l| at == l.0);
            if ok {
                let v = c.args[1];
                ok = if self.name.contains("memory_region") {
                    let o = self.object(e, 1);
                    same(e, v, mk(N::Deref(o)))
                } else {
                    v == op("taken", vec![self.a(1)])
                };
            }
            self.expect(e, st, ok, "something else is appended", c.args[1]);
            let n = self.calls(st, "append");
            st.gset(CALLS, word("append"), int(n + 1));
        }
        if c.rp.starts_with("alloc::vec::Vec::<T") && matches!(f.as_str(), "swap_remove" | "pop" | "clear" | "truncate" | "drain") {
            self.bad(e, st, "C30", "the other elements are moved", format!("{f} changes the place of other elements of the message"));
        }
        Act::Default
    }
    fn on_write(&mut self, e: &mut Eng, st: &mut State, c: CellId, _path: &[P], _v: Val) {
        let _ = e;
        if let Cell::Der(p) = cell(c) {
            if self.args.iter().any(|a| a.0 == p) {
                st.gset(WROTE, p, int(1));
            }
        }
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        e.count("returns compared");
        if self.want == "C29" {
            self.reported(e, st, ret);
        } else {
            self.passed(e, st, ret);
        }
        let _ = self.fnc;
    }
}
impl Bind {
    /// every way a core operation can end
    fn outcome(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        let ty = e.ty(c.ret).clone();
        let mut out = vec![];
        let mut yes = st.clone();
        yes.gset(OUTCOME, unit(), int(0));
        if ty.path.ends_with("option::Option") {
            let mut no = st.clone();
            no.gset(OUTCOME, unit(), int(1));
            no.gdel(OUTCOME, int(1));
            out.push((no, models::none(c.ret)));
            let v = e.fresh(&mut yes, c.ctx, c.bb, 0);
            yes.gset(RES, unit(), v);
            out.push((yes, models::some(c.ret, v)));
        } else if ty.path.ends_with("result::Result") {
            let et = ty.args.get(1).copied().unwrap_or(0);
            let vs = e.ty(et).variants.clone();
            for (i, v) in vs.iter().enumerate() {
                let mut no = st.clone();
                no.gset(OUTCOME, unit(), int(i as i128 + 1));
                no.gset(OUTCOME, int(1), int(et as i128));
                let mut fs = vec![];
                for k in 0..v.fields.len() {
                    fs.push(e.fresh(&mut no, c.ctx, c.bb, 10 + 4 * i as u32 + k as u32));
                }
                out.push((no, models::err(c.ret, mk(N::Agg(et, i as u32, fs)))));
            }
            let v = e.fresh(&mut yes, c.ctx, c.bb, 0);
            yes.gset(RES, unit(), v);
            out.push((yes, models::ok(c.ret, v)));
        } else {
            let v = e.fresh(&mut yes, c.ctx, c.bb, 0);
            yes.gset(RES, unit(), v);
            yes.gset(RES, int(1), int(c.ret as i128));
            out.push((yes, v));
        }
        Act::Forks(out)
    }
}

/// what a closure does with what it captured: the function pointer it calls and the arguments
struct Captured {
    found: Rc<RefCell<Vec<(Val, Vec<Val>)>>>,
}
impl Mon for Captured {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        let _ = (e, st);
        if let (Some(fv), None) = (c.fv, c.f) {
            self.found.borrow_mut().push((fv, c.args.clone()));
        }
        Act::Default
    }
}

pub fn bindings(id: &'static str, env: &Env, rep: &mut Rep) {
    let mut e = env.ffi();
    let mut consts = HashMap::new();
    for (p, (_, v, _)) in &e.prog.statics {
        if let (true, CV::Int(n)) = (p.starts_with("ipmb_ffi::"), v) {
            consts.insert(last(p).to_string(), *n);
        }
    }
    if id == "C29" {
        let mut by: BTreeMap<i128, Vec<String>> = BTreeMap::new();
        for (k, v) in &consts {
            if k.starts_with("ERROR_CODE_") {
                rep.site("error code", format!("{k} = {v}"));
                by.entry(*v).or_default().push(k.clone());
            }
        }
        rep.floor("error code", 7);
        for (v, mut ks) in by {
            ks.sort();
            if ks.len() > 1 {
                rep.bad("two reasons share a code", format!("{} have the value {v}", ks.join(" and ")), "ipmb-ffi/src/lib.rs".into());
            }
        }
    }
    if id == "C30" && consts.get("TIMEOUT_INFINITE") != Some(&0xffff_ffff) {
        rep.bad("the value that stands for no timeout is another one", format!("TIMEOUT_INFINITE is {:?}; callers pass the largest u32", consts.get("TIMEOUT_INFINITE")), "ipmb-ffi/src/lib.rs".into());
    }
    let consts = Rc::new(consts);
    // what the callback handed to the registry does with what it captured
    let mut free = None;
    let giver = exported(&e).into_iter().find(|f| last(&e.f(*f).p) == "ipmb_memory_registry_alloc_with_free");
    if let (Some(g), "C30") = (giver, id) {
        let mut cb = None;
        for (_, _, c, _) in repo_calls(&e) {
            if last(&c.rp) == "alloc_with_free" && (c.rp.starts_with("ipmb::") || c.rp.starts_with("<ipmb::")) {
                for t in c.rargs.iter().chain(c.args.iter()) {
                    if e.ty(*t).k == Kind::Closure && e.ty(*t).path.starts_with("ipmb_ffi::") {
                        cb = e.ty(*t).body;
                    }
                }
            }
        }
        let _ = g;
        if let Some(b) = cb {
            rep.site("callback followed", e.f(b).p.clone());
            let found: Rc<RefCell<Vec<(Val, Vec<Val>)>>> = Default::default();
            run(&mut e, rep, b, Box::new(Captured { found: found.clone() }), &mut |_, _| {});
            let got = found.borrow();
            if got.len() == 1 {
                free = captured(got[0].0).zip(got[0].1.iter().map(|v| captured(*v)).collect());
            }
        }
        rep.floor("callback followed", 1);
    }
    let table: Rc<RefCell<BTreeMap<(String, String), i128>>> = Default::default();
    for f in exported(&e) {
        let fd = e.f(f).clone();
        let name = last(&fd.p).to_string();
        let args: Vec<(Val, TyId)> = par(&fd).iter().enumerate().map(|(i, t)| (mk(N::Param(format!("arg{}", i + 1))), *t)).collect();
        let codes = e.ty(fd.locals[0]).s == "i32" || e.ty(fd.locals[0]).k == Kind::Ptr;
        if id == "C29" && !codes {
            continue;
        }
        // outs: raw pointers to handles or numbers that can be written
        let outs = args.iter().enumerate().filter(|(_, a)| e.ty(a.1).k == Kind::Ptr && e.ty(a.1).mutbl && e.ty(a.1).elem.map_or(false, |x| is_handle(&e, x) || matches!(e.ty(x).k, Kind::Int | Kind::Uint) && e.ty(x).size != Some(1))).map(|(i, _)| i).collect();
        let m = Bind { want: id, name: name.clone(), fnc: f, args, ret: fd.locals[0], consts: consts.clone(), free: free.clone(), table: table.clone(), outs };
        rep.site("exported function followed", name);
        let vals: Vec<Val> = m.args.iter().map(|a| a.0).collect();
        run(&mut e, rep, f, Box::new(m), &mut |_, st| {
            for v in &vals {
                st.gset(SEEN, *v, unit());
            }
        });
    }
    for ((f, r), c) in table.borrow().iter() {
        rep.site("outcome", format!("{f}: {r} -> {c}"));
    }
    if id == "C29" {
        rep.floor("outcome", 25);
    } else {
        rep.floor("exported function followed", 35);
        rep.floor("core operation", 12);
    }
}
pub fn word(s: &str) -> Val {
    mk(N::Str(s.to_string()))
}

/// the place of a captured variable inside the closure
fn captured(v: Val) -> Option<Vec<P>> {
    match nd(v) {
        N::Param(_) => Some(vec![]),
        N::Deref(p) => captured(*p),
        N::Fld(b, p) => {
            let mut x = captured(*b)?;
            x.push(p.clone());
            Some(x)
        }
        _ => None,
    }
}

/// what is known of a boolean argument
pub fn truth(e: &Eng, st: &State, v: Val) -> Option<bool> {
    if let Some(k) = e.known(st, v) {
        return Some(k != 0);
    }
    if let Some(f) = st.facts.get(&v) {
        if f.ne.contains(&0) {
            return Some(true);
        }
        if f.ne.contains(&1) {
            return Some(false);
        }
    }
    let (lo, hi) = e.range(st, v);
    if lo == Some(1) {
        return Some(true);
    }
    (hi == Some(0)).then_some(false)
}
