//! The Node binding's parameters (C30): what it gives to the core is what JavaScript gave to it.
use super::ffi::{core_op, same, text_of, truth, word};
use super::util::*;
use super::*;
use crate::models;

const CALLS: u16 = 330; // core operation -> times done on this path
const KEEP: u16 = 331; // arguments stay known
const BOOL: u16 = 332; // the boolean JavaScript gave
const TEXT: u16 = 333; // the text JavaScript gave
const RES: u16 = 334; // what the core operation delivered
const OLD: u16 = 335; // argument -> the expression it stood for at the beginning
const LOST: u16 = 337; // an attachment went away before it was sent
const REV: u16 = 338; // something is iterated backwards
const REGION: u16 = 339; // the attachment being prepared
const FAIL: u16 = 336; // the core operation failed

struct Node {
    name: String,
    args: Vec<(Val, TyId)>,
}
fn fld(e: &Eng, t: TyId, n: &str) -> Option<(u32, TyId)> {
    e.ty(t).variants.first().and_then(|v| v.fields.iter().position(|f| f.0 == n).map(|i| (i as u32, v.fields[i].1)))
}
fn is_a(e: &Eng, t: TyId, n: &str) -> bool {
    last(&e.ty(t).path) == n
}
/// something the analysis knows nothing of: not judged
fn opaque(v: Val) -> bool {
    match nd(v) {
        N::Op(..) | N::Agg(..) | N::Int(..) | N::Bool(_) | N::Bytes(..) | N::Unit | N::Str(_) | N::Param(_) | N::Fld(..) => false,
        N::Deref(p) => opaque(*p),
        _ => true,
    }
}
impl Node {
    fn a(&self, i: usize) -> Val {
        self.args.get(i).map_or(int(0), |x| x.0)
    }
    fn field(&self, e: &mut Eng, i: usize, n: &str) -> Option<(Val, TyId)> {
        let (v, t) = *self.args.get(i)?;
        let (k, ft) = fld(e, t, n)?;
        Some((e.project(v, P::F(k)), ft))
    }
    fn expect(&self, e: &mut Eng, st: &State, ok: bool, what: &str, got: Val) {
        e.count("arguments of the Node binding compared");
        if ok {
            return;
        }
        if opaque(got) {
            e.count("arguments of the Node binding not known");
            return;
        }
        e.report(st, &format!("{what} in the Node binding's {}", self.name), format!("{what}: {} reaches the core", show(got)));
    }
    fn timeout(&self, e: &mut Eng, st: &State, v: Val, t: TyId, arg: Val, at: TyId) {
        let ok = match (e.variant(st, v, t), e.variant(st, arg, at)) {
            (Some(0), Some(0)) => true,
            (Some(1), Some(1)) => {
                let d = e.project(v, P::D(1));
                let d = e.project(d, P::F(0));
                let a = e.project(arg, P::D(1));
                let a = e.project(a, P::F(0));
                d == op("durms", vec![a])
            }
            _ => false,
        };
        self.expect(e, st, ok, "the timeout is not the caller's", v);
    }
    fn inner(&self, e: &mut Eng, i: usize) -> Val {
        let p = self.a(i);
        let d = mk(N::Deref(p));
        e.project(d, P::F(0))
    }
    fn core(&mut self, e: &mut Eng, st: &mut State, c: &Call, o: &'static str) {
        let n = st.g(CALLS, word(o)).and_then(as_int).unwrap_or(0);
        st.gset(CALLS, word(o), int((n + 1).min(2)));
        let arg = |i: usize| c.args.get(i).copied().unwrap_or(int(0));
        let ty = |i: usize| c.argtys.get(i).copied().unwrap_or(0);
        match (self.name.as_str(), o) {
            ("send", "alloc") => {
                let ok = match nd(arg(1)) {
                    N::Op("len", a) => is_op(a[0], "bytesof").is_some(),
                    _ => false,
                };
                self.expect(e, st, ok, "the size of the attachment is not the caller's", arg(1));
            }
            ("join", "join") => {
                let t = ty(0);
                for n in ["identifier", "token", "controller_affinity", "label"] {
                    let (k, s) = match (fld(e, t, n), self.field(e, 0, n)) {
                        (Some(k), Some(s)) => (k.0, s.0),
                        _ => continue,
                    };
                    let v = e.project(arg(0), P::F(k));
                    let ok = match n {
                        "label" => v == op("labelof", vec![s]),
                        "controller_affinity" => v == s || truth(e, st, s).map_or(false, |k| as_int(v) == Some(k as i128)),
                        _ => v == s || text_of(v) == text_of(s),
                    };
                    self.expect(e, st, ok, &format!("the {n} is not the caller's"), v);
                }
                let (x, t) = self.args[1];
                self.timeout(e, st, arg(1), ty(1), x, t);
            }
            ("send", "send") => {
                if st.gi(LOST) == 1 {
                    e.report(st, "an attachment is lost in the Node binding's send", "the message is sent although a region made for one of its attachments was given up".into());
                }
                let (m, mt) = (arg(1), ty(1));
                let sp = path_to(e, mt, &|e, t| named(e, t, "Selector") && e.ty(t).krate == "ipmb");
                if let Some(sp) = sp {
                    let sel = along(e, m, &sp);
                    let sty = e.walk_ty(mt, &sp).unwrap();
                    for n in ["label_op", "mode", "ttl"] {
                        let ((k, kt), (s, sty2)) = match (fld(e, sty, n), self.field(e, 1, n)) {
                            (Some(k), Some(s)) => (k, s),
                            _ => continue,
                        };
                        let v = e.project(sel, P::F(k));
                        let (ok, what) = match n {
                            "ttl" => (v == op("durms", vec![s]), "the time to live is not the caller's"),
                            "mode" => (
                                match (e.variant(st, v, kt), e.variant(st, s, sty2)) {
                                    (Some(a), Some(b)) => e.ty(kt).variants[a as usize].name == e.ty(sty2).variants[b as usize].name,
                                    _ => false,
                                },
                                "the routing mode is not the caller's",
                            ),
                            _ => (any_sub(v, &mut |x| x == s), "the label expression is not the caller's"),
                        };
                        self.expect(e, st, ok, what, v);
                    }
                }
                if let Some(p) = path_to(e, mt, &|e, t| named(e, t, "BytesMessage")) {
                    let pl = along(e, m, &p);
                    let pt = e.walk_ty(mt, &p).unwrap();
                    for n in ["format", "data"] {
                        let (k, s) = match (fld(e, pt, n), self.field(e, 2, n)) {
                            (Some(k), Some(s)) => (k.0, s.0),
                            _ => continue,
                        };
                        let v = e.project(pl, P::F(k));
                        let ok = if n == "format" { v == s } else { any_sub(v, &mut |x| x == s) };
                        self.expect(e, st, ok, &format!("the {n} is not the caller's"), v);
                    }
                }
            }
            ("map", "map") => {
                let (off, size) = (self.a(1), self.a(2));
                let neg = e.known(st, mk_lt(size, int(0)));
                fn bare(v: Val) -> Val {
                    match nd(v) {
                        N::Op("cast", a) => bare(a[1]),
                        _ => v,
                    }
                }
                let r = arg(1);
                let ok = match nd(r) {
                    N::Agg(t, _, a) => match (last(&e.ty(*t).path), a.len()) {
                        ("RangeFrom", 1) => bare(a[0]) == bare(off) && neg == Some(1),
                        ("Range", 2) => {
                            bare(a[0]) == off
                                && neg == Some(0)
                                && match nd(a[1]) {
                                    N::Op("sadd" | "add", x) => bare(x[0]) == off && bare(x[1]) == size || bare(x[1]) == off && bare(x[0]) == size,
                                    _ => false,
                                }
                        }
                        _ => false,
                    },
                    _ => false,
                };
                self.expect(e, st, ok, "the range is not the caller's", r);
            }
            _ => {}
        }
    }
    fn outcome(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        let mut out = vec![];
        let mut yes = st.clone();
        let v = e.fresh(&mut yes, c.ctx, c.bb, 0);
        yes.gset(RES, int(0), v);
        if named(e, result_args(e, c.ret).map_or_else(|| e.ty(c.ret).args.first().copied().unwrap_or(c.ret), |x| x.0), "MemoryRegion") {
            yes.gset(REGION, int(0), v);
        }
        if e.ty(c.ret).path.ends_with("result::Result") {
            out.push((yes, models::ok(c.ret, v)));
            let mut no = st.clone();
            no.gseti(FAIL, 1);
            let x = e.fresh(&mut no, c.ctx, c.bb, 1);
            out.push((no, models::err(c.ret, x)));
        } else if e.ty(c.ret).path.ends_with("option::Option") {
            out.push((yes, models::some(c.ret, v)));
            let mut no = st.clone();
            no.gseti(FAIL, 1);
            out.push((no, models::none(c.ret)));
        } else {
            out.push((yes, v));
        }
        Act::Forks(out)
    }
    fn boxed(&self, e: &mut Eng, st: &State, v: Val, base: Val) -> bool {
        let w = e.load(st, v, None);
        same(e, w, base) || same(e, v, base) || any_sub(w, &mut |x| x == base)
    }
}
impl Mon for Node {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        let f = last(&c.rp).to_string();
        let t0 = c.argtys.first().map_or(0, |t| peel(e, *t));
        // the expression behind an instance of a JavaScript class
        if is_a(e, t0, "ClassInstance") && matches!(f.as_str(), "deref" | "deref_mut" | "as_ref" | "as_mut" | "borrow") {
            let v = match e.ty(c.argtys[0]).k {
                Kind::Ref => e.load(st, c.args[0], None),
                _ => c.args[0],
            };
            return Act::Ret(op("instance", vec![v]));
        }
        if c.args.len() == 1 && named(e, c.ret, "Label") && e.ty(c.ret).krate == "ipmb" && f != "clone" {
            return Act::Ret(op("labelof", vec![c.args[0]]));
        }
        if is_a(e, t0, "Buffer") && c.args.len() == 1 && !c.rp.starts_with("core::mem") {
            let v = match e.ty(c.argtys[0]).k {
                Kind::Ref => e.load(st, c.args[0], None),
                _ => c.args[0],
            };
            if is_a(e, c.ret, "Vec") || e.ty(c.ret).k == Kind::Ref {
                return Act::Ret(op("bytesof", vec![v]));
            }
        }
        if self.name == "new" && c.rp.contains("napi") {
            if let Some((o, _)) = result_args(e, c.ret) {
                let bool_ = e.ty(o).k == Kind::Bool;
                let text = matches!(e.ty(o).k, Kind::Ref) && e.ty(o).elem.map_or(false, |x| e.ty(x).k == Kind::Str);
                if bool_ || text {
                    let mut yes = st.clone();
                    let v = e.fresh(&mut yes, c.ctx, c.bb, 0);
                    yes.gset(if bool_ { BOOL } else { TEXT }, int(0), v);
                    let mut no = st.clone();
                    let x = e.fresh(&mut no, c.ctx, c.bb, 1);
                    return Act::Forks(vec![(yes, models::ok(c.ret, v)), (no, models::err(c.ret, x))]);
                }
            }
        }
        if self.name == "send" {
            let r = st.g(RES, int(0));
            if f == "rev" || f == "reverse" {
                st.gseti(REV, 1);
            }
            if (f == "copy" || f == "copy_nonoverlapping" || f == "copy_to" || f == "copy_to_nonoverlapping" || f == "copy_from") && c.args.len() == 3 {
                let (src, dst) = if f == "copy_from" { (c.args[1], c.args[0]) } else { (c.args[0], c.args[1]) };
                if r.map_or(false, |r| any_sub(dst, &mut |x| x == r)) {
                    let b = is_op(src, "dataof").and_then(|a| is_op(a[0], "bytesof").map(|_| a[0]));
                    let ok = b.map_or(false, |b| c.args[2] == op("len", vec![b]));
                    self.expect(e, st, ok, "the attachment copied is not the caller's", c.args[2]);
                }
            }
            let el = |k: usize| c.argtys.get(k).copied();
            if f == "insert" && c.args.len() == 3 && el(2).map_or(false, |t| named(e, t, "MemoryRegion")) && as_int(c.args[1]) == Some(0) && st.gi(REV) == 0 {
                e.report(st, "the attachments are reordered in the Node binding's send", "each attachment is put in front of the earlier ones".into());
            }
        }
        if let Some(o) = core_op(e, c) {
            e.site("core operation of the Node binding", format!("{o} in {}", self.name));
            self.core(e, st, c, o);
            if matches!(o, "join" | "send" | "map" | "alloc") {
                return self.outcome(e, st, c);
            }
        }
        Act::Default
    }
    fn on_drop(&mut self, _e: &mut Eng, st: &mut State, _ty: TyId, v: Val, _cell: CellId, _path: &[P]) {
        if self.name == "send" && st.g(REGION, int(0)) == Some(v) {
            st.gseti(LOST, 1);
        }
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        let name = self.name.clone();
        match name.as_str() {
            "value" => {
                fn narrow(v: Val) -> bool {
                    match nd(v) {
                        N::Op("cast", a) => matches!(nd(a[0]), N::Str(s) if matches!(s.as_str(), "u8" | "i8" | "u16" | "i16" | "bool")) || narrow(a[1]),
                        N::Op("rawof", _) => false,
                        N::Op(..) => true,
                        _ => false,
                    }
                }
                let p = self.a(0);
                let d = mk(N::Deref(p));
                let ok = !narrow(ret) && any_sub(ret, &mut |x| x == d);
                self.expect(e, st, ok, "another number than the object's", ret);
            }
            "not" | "and" | "or" => {
                let p = self.a(0);
                let t = e.ty(self.args[0].1).elem;
                let w = e.load(st, p, t);
                let w = e.project(w, P::F(0));
                let (l, r) = (st.g(OLD, int(0)), st.g(OLD, int(1)));
                let ok = match nd(w) {
                    N::Agg(t, k, a) => {
                        let (k, a) = (e.ty(*t).variants[*k as usize].name.to_lowercase(), a.clone());
                        k == name
                            && a.len() == (if name == "not" { 1 } else { 2 })
                            && [l, r].iter().zip(a.iter()).all(|(o, x)| o.map_or(true, |o| self.boxed(e, st, *x, o)))
                    }
                    _ => false,
                };
                self.expect(e, st, ok, "another expression is built", w);
            }
            "new" => {
                if let N::Agg(_, 0, a) = nd(ret) {
                    let v = match a.first() {
                        Some(x) => *x,
                        None => return,
                    };
                    let v = e.project(v, P::F(0));
                    if let N::Agg(t, k, b) = nd(v) {
                        let k = e.ty(*t).variants[*k as usize].name.clone();
                        let b = b.clone();
                        let known = st.g(BOOL, int(0)).and_then(|x| truth(e, st, x));
                        let ok = match k.as_str() {
                            "True" => known == Some(true),
                            "False" => known == Some(false),
                            "Leaf" => match (st.g(TEXT, int(0)), b.first()) {
                                (Some(t), Some(x)) => any_sub(*x, &mut |y| y == t) || text_of(*x) == text_of(t),
                                _ => false,
                            },
                            _ => false,
                        };
                        self.expect(e, st, ok, "another expression is built", v);
                    }
                }
            }
            "join" | "send" | "map" => {
                let n = st.g(CALLS, word(&name)).and_then(as_int).unwrap_or(0);
                let good = matches!(nd(ret), N::Agg(_, 0, _));
                e.count("returns of the Node binding compared");
                if good && st.gi(FAIL) == 1 {
                    e.report(st, &format!("a failure is reported as success in the Node binding's {name}"), format!("{name} returns normally although the core reported a failure"));
                } else if good && n != 1 {
                    e.report(st, &format!("the operation is not done once in the Node binding's {name}"), format!("{name} returns normally although the core operation was not called exactly once ({n})"));
                }
            }
            _ => {}
        }
    }
}

pub fn node(env: &Env, rep: &mut Rep) {
    let mut e = env.js();
    e.focus_repo(60);
    let fs: Vec<FnId> = e
        .prog
        .fns
        .iter()
        .filter(|f| {
            let own = f.p.starts_with("ipmb_js::") && !f.p.contains("{closure") && !f.p.contains("__napi") && f.blocks.is_some();
            own && (f.p == "ipmb_js::join"
                || f.p.starts_with("ipmb_js::LabelOp::") && matches!(last(&f.p), "new" | "not" | "and" | "or")
                || f.p == "ipmb_js::Sender::send"
                || f.p == "ipmb_js::Object::value"
                || f.p == "ipmb_js::MemoryRegion::map")
        })
        .map(|f| f.id)
        .collect();
    for f in fs {
        let fd = e.f(f).clone();
        let name = last(&fd.p).to_string();
        rep.site("method of the Node binding followed", fd.p.clone());
        let args: Vec<(Val, TyId)> = par(&fd).iter().enumerate().map(|(i, t)| (mk(N::Param(format!("arg{}", i + 1))), *t)).collect();
        let m = Node { name, args: args.clone() };
        run(&mut e, rep, f, Box::new(m), &mut |e, st| {
            for (i, (v, t)) in args.iter().enumerate() {
                st.gset(KEEP, *v, int(1));
                let x = peel(e, *t);
                if e.ty(*t).k == Kind::Ref && named(e, x, "LabelOp") {
                    let d = mk(N::Deref(*v));
                    let d = e.project(d, P::F(0));
                    st.gset(OLD, int(i as i128), d);
                }
            }
        });
    }
    rep.floor("method of the Node binding followed", 8);
    rep.floor("core operation of the Node binding", 3);
}
