//! Label expressions and labels (C03), and the comparison of versions (C01).
use super::controller::*;
use super::util::*;
use super::*;
use crate::models::{self, Out};

const SAT: u16 = 180; // operand -> 1 false, 2 true
const CUR: u16 = 181; // current element of the label
const CMP: u16 = 182; // it was compared with the text
const GAP: u16 = 183; // an element was passed over
const HIT: u16 = 184; // text found in the label
const MISS: u16 = 185; // text compared with every element of the label
const PUSH: u16 = 186; // texts added
const ITEM: u16 = 187; // the current one of the given texts
const ITEMS: u16 = 188; // 1 in the middle of the given texts, 2 at their end
const BADI: u16 = 189; // a given text was passed over without being found / inserted
const RM: u16 = 190; // removed elements: 1 current removed
const PASS: u16 = 191; // 1 a complete pass
const INS: u16 = 192; // texts inserted (this item)

#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Leaf,
    Insert,
    Remove,
    All,
    From,
}

/// membership of a text in a label
struct Lab {
    what: What,
    /// the elements of the label
    label: Rc<RefCell<Option<Val>>>,
    /// the text
    text: Rc<RefCell<Option<Val>>>,
    ret: Option<TyId>,
}
fn is_text(e: &Eng, t: TyId) -> bool {
    let t = peel(e, t);
    e.ty(t).k == Kind::Str || matches!(e.ty(t).path.as_str(), "alloc::string::String" | "smol_str::SmolStr")
}
/// a text, whatever pointers lead to it
fn canon(v: Val) -> Val {
    let mut v = models::s_content(v);
    loop {
        v = match nd(v) {
            N::Deref(x) => *x,
            N::Op("strof", a) => models::s_content(a[0]),
            _ => return v,
        };
    }
}
fn text(e: &mut Eng, st: &State, v: Val, t: TyId) -> Val {
    let (mut v, mut t) = (v, t);
    while let Some(p) = e.pointee(t) {
        if e.pointee(p).is_none() {
            break;
        }
        v = e.load(st, v, Some(p));
        t = p;
    }
    models::s_content(models::content(e, st, v, t))
}
impl Lab {
    fn bad(&self, e: &mut Eng, st: &State, key: &str, msg: &str) {
        e.report(st, key, msg.to_string());
    }
    fn is_insert(&self, e: &Eng, f: &FnD) -> bool {
        self.what == What::From && is_repo(f) && par(f).len() == 2 && named(e, peel(e, par(f)[0]), "Label") && e.ty(par(f)[0]).k == Kind::Ref && is_text(e, par(f)[1])
    }
    /// the text a value is an element of the label for
    fn elem(&self, st: &State, x: Val) -> bool {
        st.g(CUR, int(0)).map_or(false, |p| contains(x, p) || x == mk(N::Deref(p)))
    }
    fn boundary(&self, e: &mut Eng, st: &mut State) {
        if st.g(CUR, int(0)).is_none() {
            return;
        }
        if st.gi(CMP) == 0 {
            st.gseti(GAP, 1);
        }
        if self.what == What::Remove {
            let removed = st.gi(RM) == 1;
            if removed && st.gi(CMP) != 2 {
                self.bad(e, st, "another element is removed", "an element leaves the label although it was not found equal to the given text");
            }
            if !removed && st.gi(CMP) == 2 {
                self.bad(e, st, "the element is not removed", "an element equal to the given text stays in the label");
            }
        }
        st.gdel(CUR, int(0));
        st.gseti(CMP, 0);
        st.gseti(RM, 0);
    }
    fn item_end(&self, e: &mut Eng, st: &mut State) {
        if let Some(t) = st.g(ITEM, int(0)) {
            match self.what {
                What::All => {
                    if st.g(HIT, t).is_none() {
                        st.gseti(BADI, 1);
                    }
                }
                What::From => {
                    if st.gi(INS) != 1 {
                        self.bad(e, st, "a given element is not inserted", "a label is built without one of the elements it was given");
                    }
                    st.gseti(INS, 0);
                }
                _ => {}
            }
            st.gdel(ITEM, int(0));
        }
        let _ = e;
    }
    fn subject(&self, st: &State) -> Option<Val> {
        match self.what {
            What::All => st.g(ITEM, int(0)).or(*self.text.borrow()),
            _ => *self.text.borrow(),
        }
    }
}
impl Mon for Lab {
    fn leaf(&self, e: &Eng, f: &FnD) -> bool {
        self.is_insert(e, f)
    }
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        if let Some(f) = c.f {
            let fd = e.f(f).clone();
            if self.is_insert(e, &fd) {
                e.site("insertion of a given element", site(e, c));
                let x = canon(text(e, st, c.args[1], c.argtys[1]));
                let it = st.g(ITEM, int(0));
                if it != Some(x) {
                    self.bad(e, st, "another element is inserted", &format!("what is inserted into the label is not the given element: {}", show(x)));
                }
                st.gseti(INS, 1);
                let (cc, _) = e.target(c.args[0], e.pointee(c.argtys[0]));
                let k = e.addr(&(cc, vec![]));
                st.gset(PUSH, int(0), k);
                return Act::Leaf;
            }
        }
        if c.p == "core::cmp::PartialEq::eq" || c.p == "core::cmp::PartialEq::ne" {
            if let Out::Ret(v) = models::model(e, st, c) {
                let mut b = v;
                let mut neg = false;
                while let Some(a) = is_op(b, "not") {
                    b = a[0];
                    neg = !neg;
                }
                if let Some(a) = is_op(b, "eq") {
                    let (x, y) = (models::s_content(a[0]), models::s_content(a[1]));
                    let other = if self.elem(st, x) { Some(y) } else if self.elem(st, y) { Some(x) } else { None };
                    if let Some(t) = other {
                        let t = canon(t);
                        e.site("comparison with an element", site(e, c));
                        let want = self.subject(st);
                        if want.is_some() && want != Some(t) {
                            self.bad(e, st, "another text is looked for", &format!("the elements of the label are compared with something else than the given text: {}", show(t)));
                        }
                        let mut out = vec![];
                        for k in [1, 0] {
                            let mut s = st.clone();
                            if !e.assume(&mut s, b, k) {
                                continue;
                            }
                            s.gseti(CMP, 1 + k);
                            if k == 1 {
                                s.gset(HIT, t, int(1));
                            }
                            out.push((s, boolean((k == 1) != neg)));
                        }
                        return Act::Forks(out);
                    }
                }
                return Act::Ret(v);
            }
            return Act::Default;
        }
        let q = c.rp.as_str();
        let vec = q.strip_prefix("alloc::vec::Vec::<T, A>::").or_else(|| q.strip_prefix("smallvec::SmallVec::<A>::"));
        if c.p == "sa::remove" && self.what == What::Remove {
            st.gseti(RM, 1);
        } else if let Some(m) = vec {
            match m {
                "push" | "insert" => {
                    e.site("addition of an element", site(e, c));
                    let i = c.args.len() - 1;
                    let x = canon(text(e, st, c.args[i], c.argtys[i]));
                    if self.what == What::Insert {
                        match *self.text.borrow() {
                            Some(t) if t != x => self.bad(e, st, "another text is added", &format!("what is added to the label is not the given text: {}", show(x))),
                            Some(t) => {
                                if st.g(HIT, t).is_some() {
                                    self.bad(e, st, "an element is added twice", "a text is added to a label that contains it already");
                                } else if st.g(MISS, t).is_none() {
                                    self.bad(e, st, "an element may be added twice", "a text is added to a label without having been compared with every element of it");
                                }
                            }
                            None => {}
                        }
                        let n = st.gi(PUSH);
                        st.gseti(PUSH, (n + 1).min(2));
                    } else {
                        self.bad(e, st, "the label grows", "an operation that must not add elements to a label does");
                    }
                }
                "remove" | "swap_remove" => {
                    if self.what == What::Remove && st.gi(CMP) == 2 {
                        st.gseti(RM, 1);
                    } else {
                        self.bad(e, st, "another element is removed", "an element leaves the label although it was not found equal to the given text");
                    }
                }
                "clear" | "truncate" | "pop" | "dedup" | "drain" if !matches!(self.what, What::From) => {
                    self.bad(e, st, "elements are lost", "elements leave the label although they were not found equal to the given text");
                }
                _ => {}
            }
        }
        Act::Default
    }
    fn on_next(&mut self, e: &mut Eng, st: &mut State, _c: &Call, seq: Val, el: Option<Val>) {
        let own = self.label.borrow().map_or(false, |l| contains(seq, l) || mk_data(l) == seq || el.map_or(false, |p| contains(p, l)));
        if std::env::var("SA_P").is_ok() {
            eprintln!("NEXT own {own} seq {} el {:?}", show(seq), el.map(show));
        }
        if own {
            match el {
                Some(p) => {
                    if st.g(CUR, int(0)).is_none() && st.gi(PASS) == 0 {
                        st.gseti(GAP, 0);
                    }
                    self.boundary(e, st);
                    st.gset(CUR, int(0), p);
                    st.gseti(PASS, 1);
                }
                None => {
                    self.boundary(e, st);
                    if st.gi(GAP) == 0 {
                        if let Some(t) = self.subject(st) {
                            st.gset(MISS, t, int(1));
                        }
                    }
                    st.gseti(PASS, 0);
                    st.gseti(GAP, 0);
                }
            }
            return;
        }
        // the given texts
        match el {
            Some(p) => {
                self.item_end(e, st);
                st.gset(ITEM, int(0), canon(p));
                st.gseti(ITEMS, 1);
                st.gdel(CUR, int(0));
                st.gseti(CMP, 0);
                st.gseti(PASS, 0);
                st.gseti(GAP, 0);
            }
            None => {
                self.item_end(e, st);
                st.gseti(ITEMS, 2);
            }
        }
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        e.count("returns");
        if std::env::var("SA_P").is_ok() {
            eprintln!("RET {} hit {:?} miss {:?} items {} badi {}", show(ret), st.gkeys(HIT).iter().map(|x| show(x.0)).collect::<Vec<_>>(), st.gkeys(MISS).iter().map(|x| show(x.0)).collect::<Vec<_>>(), st.gi(ITEMS), st.gi(BADI));
        }
        let t = *self.text.borrow();
        match self.what {
            What::Leaf | What::All => {
                let r = e.known(st, ret);
                match (r, t) {
                    (None, _) => self.bad(e, st, "the verdict is not known", "the verdict about a label does not follow from comparisons with its elements"),
                    (Some(1), Some(t)) => {
                        if st.g(HIT, t).is_none() {
                            self.bad(e, st, "an element is taken to be there", "a label is said to contain a text that none of its elements was found equal to");
                        }
                    }
                    (Some(_), Some(t)) => {
                        if st.g(MISS, t).is_none() || st.g(HIT, t).is_some() {
                            self.bad(e, st, "an element is taken to be missing", "a label is said not to contain a text although it was found, or not compared with every element");
                        }
                    }
                    (Some(1), None) => {
                        self.item_end(e, st);
                        if st.gi(BADI) == 1 || st.gi(ITEMS) != 2 {
                            self.bad(e, st, "an element is taken to be there", "a label is said to contain all given texts although one of them was not found in it");
                        }
                    }
                    (Some(_), None) => {
                        let cur = st.g(ITEM, int(0));
                        let miss = cur.map_or(false, |t| st.g(MISS, t).is_some() && st.g(HIT, t).is_none());
                        if !miss && st.gi(BADI) == 0 {
                            self.bad(e, st, "an element is taken to be missing", "a label is said not to contain all given texts although none of them was found missing");
                        }
                    }
                }
            }
            What::Insert => {
                let t = t.unwrap();
                let hit = st.g(HIT, t).is_some();
                if !hit && st.gi(PUSH) != 1 {
                    self.bad(e, st, "an element is not added", "a text that the label does not contain is not added to it");
                }
            }
            What::Remove => {
                self.boundary(e, st);
                let t = t.unwrap();
                if st.g(MISS, t).is_none() && st.g(HIT, t).is_none() {
                    self.bad(e, st, "the element is not removed", "a text is not removed from the label although the label was not searched for it");
                }
            }
            What::From => {
                if st.gi(ITEMS) != 2 {
                    self.bad(e, st, "a given element is not inserted", "a label is built without going through all the elements it was given");
                }
                if let (Some(k), Some(_)) = (st.g(PUSH, int(0)), self.ret) {
                    let v = e.load(st, k, self.ret);
                    let _ = v;
                }
            }
        }
    }
}

/// the operators
struct Ops {
    root: FnId,
    kind: String,
    me: Rc<RefCell<(Val, TyId, Val, TyId)>>,
}
impl Ops {
    fn operand(&self, e: &mut Eng, st: &State, i: u32) -> Option<Val> {
        let (v, t, _, _) = *self.me.borrow();
        let pt = e.pointee(t).unwrap_or(t);
        let k = variant_no(e, pt, &self.kind)?;
        let x = models::content(e, st, v, t);
        let x = e.project(x, P::D(k));
        Some(e.project(x, P::F(i)))
    }
}
impl Mon for Ops {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        if let Some(f) = c.f {
            let fd = e.f(f).clone();
            if is_validate(e, &fd) {
                e.site("evaluation of an operand", site(e, c));
                let i = c.argtys.iter().position(|t| named(e, peel(e, *t), "LabelOp")).unwrap();
                let j = c.argtys.iter().position(|t| named(e, peel(e, *t), "Label")).unwrap();
                let l = models::content(e, st, c.args[j], c.argtys[j]);
                let (_, _, lv, lt) = *self.me.borrow();
                if l != models::content(e, st, lv, lt) {
                    e.report(st, "an operand is evaluated on another label", "an operand of a label expression is not evaluated on the label the expression is".into());
                }
                let x = models::content(e, st, c.args[i], c.argtys[i]);
                let mut which = None;
                for k in 0..2 {
                    if let Some(o) = self.operand(e, st, k) {
                        if contains(x, o) || x == mk(N::Deref(o)) {
                            which = Some(k);
                        }
                    }
                }
                let w = match which {
                    Some(w) => w,
                    None => {
                        e.report(st, &format!("{}: something else than an operand is evaluated", self.kind), format!("an operator evaluates an expression that is not one of its operands: {}", show(x)));
                        return Act::Leaf;
                    }
                };
                if std::env::var("SA_P").is_ok() {
                    eprintln!("OPERAND {} {} {:?}", self.kind, w, st.g(SAT, int(w as i128)).map(show));
                }
                let mut out = vec![];
                for b in [1, 0] {
                    let old = st.g(SAT, int(w as i128)).and_then(as_int);
                    if old.map_or(true, |o| o == b + 1) {
                        let mut s = st.clone();
                        s.gset(SAT, int(w as i128), int(b + 1));
                        out.push((s, boolean(b == 1)));
                    }
                }
                return Act::Forks(out);
            }
        }
        Act::Default
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        e.count("returns");
        let r = e.known(st, ret);
        let s = |i: i128| st.g(SAT, int(i)).and_then(as_int).map(|n| n == 2);
        let want = match self.kind.as_str() {
            "True" => Some(true),
            "False" => Some(false),
            "Not" => s(0).map(|b| !b),
            "And" => match (s(0), s(1)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            "Or" => match (s(0), s(1)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            _ => return,
        };
        let _ = self.root;
        if std::env::var("SA_P").is_ok() {
            eprintln!("OP {} {:?} {:?} ret {}", self.kind, s(0), s(1), show(ret));
        }
        if want.is_none() || r != want.map(|b| b as i128) {
            e.report(st, &format!("{} has another meaning", self.kind), format!("with operands that evaluated to {:?} and {:?} (None: not evaluated) the operator {} yields {}", s(0), s(1), self.kind, r.map_or("an unknown result".into(), |r| (r == 1).to_string())));
        }
    }
}

/// the builders of expressions
struct Build {
    variant: &'static str,
    args: Rc<RefCell<Vec<Val>>>,
    ret: TyId,
}
impl Mon for Build {
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        e.count("returns");
        let n = variant_no(e, self.ret, self.variant);
        if e.variant(st, ret, self.ret) != n || n.is_none() {
            e.report(st, &format!("{} is built as something else", self.variant), format!("the builder of {} yields {}", self.variant, show(ret)));
            return;
        }
        let args = self.args.borrow().clone();
        for (i, a) in args.iter().enumerate() {
            let x = e.project(ret, P::D(n.unwrap()));
            let x = e.project(x, P::F(i as u32));
            let v = if self.variant == "Leaf" { models::s_content(x) } else { boxed(e, st, x, self.ret) };
            let a = if self.variant == "Leaf" { models::str_content(*a) } else { *a };
            if v != a {
                e.report(st, &format!("{} is built over something else", self.variant), format!("operand {} of the built expression is {} instead of the given one", i + 1, show(v)));
            }
        }
    }
}
/// what a box holds
fn boxed(e: &mut Eng, st: &State, x: Val, t: TyId) -> Val {
    let mut x = x;
    for _ in 0..6 {
        match nd(x) {
            N::Agg(_, _, f) if !f.is_empty() => x = f[0],
            _ => break,
        }
    }
    e.load(st, x, Some(t))
}

pub fn c03(env: &Env, rep: &mut Rep) {
    rep.rule = "decision tables of the operators over their operands; membership automata over every path of the label operations; structure of built expressions".into();
    let mut e = env.core();
    e.focus_repo(60);
    let vals: Vec<FnId> = e.prog.fns.iter().filter(|f| f.krate == "ipmb" && f.blocks.is_some() && is_validate(&e, f)).map(|f| f.id).collect();
    for f in &vals {
        let i = par(e.f(*f)).iter().position(|t| named(&e, peel(&e, *t), "LabelOp")).unwrap();
        let j = par(e.f(*f)).iter().position(|t| named(&e, peel(&e, *t), "Label")).unwrap();
        let (ot, lt) = (par(e.f(*f))[i], par(e.f(*f))[j]);
        let pt = e.pointee(ot).unwrap_or(ot);
        for (k, v) in e.ty(pt).variants.clone().iter().enumerate() {
            rep.site("operator", v.name.clone());
            let lpath = path_to(&e, e.pointee(lt).unwrap_or(lt), &|e, t| e.ty(t).path == "smallvec::SmallVec" || e.ty(t).path == "alloc::vec::Vec").unwrap_or_default();
            if v.name == "Leaf" {
                let label = Rc::new(RefCell::new(None));
                let txt = Rc::new(RefCell::new(None));
                let (l2, t2) = (label.clone(), txt.clone());
                run(&mut e, rep, *f, Box::new(Lab { what: What::Leaf, label, text: txt, ret: None }), &mut |e, st| {
                    let c = e.local(st.ctx, i as u32 + 1);
                    let v = e.read(st, c, &[]);
                    let x = models::content(e, st, v, ot);
                    let d = e.disc_of(x, pt);
                    let dv = e.ty(pt).variants[k].disc;
                    e.assume(st, d, dv);
                    let x = e.project(x, P::D(k as u32));
                    let x = e.project(x, P::F(0));
                    *t2.borrow_mut() = Some(canon(models::s_content(x)));
                    let c = e.local(st.ctx, j as u32 + 1);
                    let v = e.read(st, c, &[]);
                    let l = models::content(e, st, v, lt);
                    *l2.borrow_mut() = Some(along(e, l, &lpath));
                });
                continue;
            }
            let me = Rc::new(RefCell::new((int(0), ot, int(0), lt)));
            let m2 = me.clone();
            run(&mut e, rep, *f, Box::new(Ops { root: *f, kind: v.name.clone(), me }), &mut |e, st| {
                let c = e.local(st.ctx, i as u32 + 1);
                let v = e.read(st, c, &[]);
                let c = e.local(st.ctx, j as u32 + 1);
                let l = e.read(st, c, &[]);
                *m2.borrow_mut() = (v, ot, l, lt);
                let x = models::content(e, st, v, ot);
                let d = e.disc_of(x, pt);
                let dv = e.ty(pt).variants[k].disc;
                e.assume(st, d, dv);
            });
        }
    }
    for (n, what) in [("root_label_insert", What::Insert), ("root_label_remove", What::Remove), ("root_label_all", What::All), ("root_label_all_many", What::All), ("root_label_from", What::From)] {
        let f = match root(&e, n) {
            Some(f) => f,
            None => {
                rep.bad(&format!("anchor: {n}"), "an operation of labels is missing".into(), "whole program".into());
                continue;
            }
        };
        rep.site("label operation", n.trim_start_matches("root_").to_string());
        let label = Rc::new(RefCell::new(None));
        let txt = Rc::new(RefCell::new(None));
        let (l2, t2) = (label.clone(), txt.clone());
        let pars = par(e.f(f)).to_vec();
        let ret = rty(e.f(f));
        run(&mut e, rep, f, Box::new(Lab { what, label, text: txt, ret }), &mut |e, st| {
            for (i, t) in pars.iter().enumerate() {
                let c = e.local(st.ctx, i as u32 + 1);
                let v = e.read(st, c, &[]);
                if named(e, peel(e, *t), "Label") {
                    let lpath = path_to(e, peel(e, *t), &|e, t| e.ty(t).path == "smallvec::SmallVec" || e.ty(t).path == "alloc::vec::Vec").unwrap_or_default();
                    let l = models::content(e, st, v, *t);
                    *l2.borrow_mut() = Some(along(e, l, &lpath));
                } else if is_text(e, *t) {
                    let x = text(e, st, v, *t);
                    *t2.borrow_mut() = Some(canon(x));
                }
            }
        });
    }
    for (n, v) in [("root_op_and", "And"), ("root_op_or", "Or"), ("root_op_not", "Not"), ("root_op_leaf", "Leaf")] {
        let f = match root(&e, n) {
            Some(f) => f,
            None => continue,
        };
        rep.site("builder", n.trim_start_matches("root_").to_string());
        let args = Rc::new(RefCell::new(vec![]));
        let a2 = args.clone();
        let np = par(e.f(f)).len();
        let ret = rty(e.f(f)).unwrap();
        run(&mut e, rep, f, Box::new(Build { variant: v, args, ret }), &mut |e, st| {
            let mut out = vec![];
            for i in 0..np {
                let c = e.local(st.ctx, i as u32 + 1);
                out.push(e.read(st, c, &[]));
            }
            *a2.borrow_mut() = out;
        });
    }
    rep.floor("operator", 6);
    rep.floor("evaluation of an operand", 1);
    rep.floor("comparison with an element", 1);
    rep.floor("addition of an element", 1);
    rep.floor("insertion of a given element", 1);
}

/// the comparison of versions, row by row
struct Compat {
    row: String,
    want: bool,
}
impl Mon for Compat {
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        e.count("returns");
        if e.known(st, ret) != Some(self.want as i128) {
            e.report(st, &format!("versions: {}", self.row), format!("two versions with {} are {} compatible, they must {}be", self.row, e.known(st, ret).map_or("not known to be", |k| if k == 1 { "taken to be" } else { "taken not to be" }), if self.want { "" } else { "not " }));
        }
    }
}
pub fn versions(env: &Env, rep: &mut Rep) {
    let mut e = env.core();
    e.focus_repo(60);
    let fs: Vec<FnId> = e.prog.fns.iter().filter(|f| f.krate == "ipmb" && f.blocks.is_some() && is_compat(&e, f)).map(|f| f.id).collect();
    for f in fs {
        let pars = par(e.f(f)).to_vec();
        // (first major is 0, second major is 0, majors equal, minors equal)
        for (z1, z2, meq, neq) in [(1, 1, 1, 1), (1, 1, 1, 0), (1, 0, 0, 1), (1, 0, 0, 0), (0, 1, 0, 1), (0, 1, 0, 0), (0, 0, 1, 1), (0, 0, 1, 0), (0, 0, 0, 1), (0, 0, 0, 0)] {
            for (peq, pz) in [(1, ""), (0, "")] {
                let want = meq == 1 && (z1 == 0 || neq == 1);
                let zero = |z: i32| if z == 1 { "0" } else { "not 0" };
                let row = format!("first major {}, second major {}, majors {}, minors {}{pz}", zero(z1), zero(z2), if meq == 1 { "equal" } else { "different" }, if neq == 1 { "equal" } else { "different" });
                rep.site("row of the version table", format!("{row}, patches {}", if peq == 1 { "equal" } else { "different" }));
                run(&mut e, rep, f, Box::new(Compat { row, want }), &mut |e, st| {
                    let mut comp = vec![];
                    for (i, t) in pars.iter().enumerate() {
                        let c = e.local(st.ctx, i as u32 + 1);
                        let v = e.read(st, c, &[]);
                        let x = models::content(e, st, v, *t);
                        let path = path_to(e, peel(e, *t), &|e, t| e.ty(t).k == Kind::Tuple || e.ty(t).k == Kind::Array).unwrap_or_default();
                        let x = along(e, x, &path);
                        comp.push((0..3).map(|k| e.project(x, P::F(k))).collect::<Vec<_>>());
                    }
                    for (i, z) in [(0, z1), (1, z2)] {
                        let b = crate::eng::mk_eq(comp[i][0], int(0));
                        e.assume(st, b, z as i128);
                    }
                    for (k, q) in [(0usize, meq), (1, neq), (2, peq)] {
                        let b = crate::eng::mk_eq(comp[0][k], comp[1][k]);
                        e.assume(st, b, q as i128);
                    }
                });
            }
        }
    }
    rep.floor("row of the version table", 20);
}
