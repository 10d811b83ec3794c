//! The resolved program as exported by the compiler driver.
use crate::json::J;
use std::collections::HashMap;

pub type TyId = u32;
pub type FnId = u32;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    Bool,
    Char,
    Int,
    Uint,
    Float,
    Str,
    Never,
    Ref,
    Ptr,
    Slice,
    Array,
    Tuple,
    Closure,
    FnDef,
    FnPtr,
    Dyn,
    Struct,
    Enum,
    Union,
    Other,
}

#[derive(Clone, Debug)]
pub struct Variant {
    pub name: String,
    pub disc: i128,
    pub fields: Vec<(String, TyId)>,
}

#[derive(Clone, Debug)]
pub struct Type {
    pub s: String,
    pub k: Kind,
    pub size: Option<u64>,
    pub needs_drop: bool,
    pub elem: Option<TyId>,
    pub mutbl: bool,
    pub path: String,
    pub args: Vec<TyId>,
    pub n: i128,
    pub variants: Vec<Variant>,
    pub fields: Vec<TyId>,
    pub is_box: bool,
    pub mdrop: bool,
    pub drop: Option<FnId>,
    pub body: Option<FnId>,
    pub next: Option<FnId>,
    pub krate: String,
    pub callee: Option<Callee>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Proj {
    Deref,
    Field(u32, TyId),
    Down(u32),
    Index(u32),
    CIdx(u64, bool),
    Sub(u64, u64, bool),
    Other,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Place {
    pub local: u32,
    pub proj: Vec<Proj>,
}

#[derive(Clone, Debug)]
pub enum CV {
    Int(i128),
    Str(String),
    Fn,
    Zst,
    Agg(u32, Vec<CV>),
    Ref(Box<CV>),
    Static(String),
    FnPtr(FnId, String),
    Mem(usize, Vec<u8>),
    Unknown,
}

#[derive(Clone, Debug)]
pub enum Operand {
    Copy(Place),
    Move(Place),
    Const(TyId, CV, String),
    Rc,
}

#[derive(Clone, Debug)]
pub enum AggK {
    Array(TyId),
    Tuple,
    Adt(TyId, u32, Option<u32>),
    Closure(TyId),
    RawPtr(TyId),
    Other,
}

#[derive(Clone, Debug)]
pub enum Rv {
    Use(Operand),
    Rep(Operand, i128),
    Ref(Place, bool, bool), // place, mutable, raw
    Tls(String),
    Cast(String, Operand, TyId),
    Bin(String, Operand, Operand),
    Un(String, Operand),
    Disc(Place),
    Agg(AggK, Vec<Operand>),
}

#[derive(Clone, Debug)]
pub enum Stmt {
    Assign(Place, Rv, u32),
    SetDisc(Place, u32),
    Dead(u32),
    CopyNo(Operand, Operand, Operand),
}

#[derive(Clone, Debug, Default)]
pub struct Callee {
    pub p: String,
    pub args: Vec<TyId>,
    pub r: Option<FnId>,
    pub rp: String,
    pub rargs: Vec<TyId>,
    pub rk: String,
}

#[derive(Clone, Debug)]
pub enum Func {
    Static(Callee),
    Op(Operand),
}

#[derive(Clone, Debug)]
pub enum AssertK {
    Bounds(Operand, Operand),
    Ovf(String, Operand, Operand),
    OvfNeg,
    Div0,
    Other,
}

#[derive(Clone, Debug)]
pub enum Term {
    Goto(u32),
    Switch(Operand, Vec<(i128, u32)>, u32),
    Ret,
    Drop(Place, TyId, u32),
    Call(Func, Vec<Operand>, Place, Option<u32>, TyId),
    Assert(Operand, bool, AssertK, u32),
    Unreachable,
}

#[derive(Clone, Debug)]
pub struct Block {
    pub stmts: Vec<Stmt>,
    pub term: Term,
    pub span: String,
}

#[derive(Clone, Debug, Default)]
pub struct FnD {
    pub id: FnId,
    pub p: String,
    pub krate: String,
    pub args: Vec<TyId>,
    pub local: bool,
    pub derived: bool,
    pub trait_: String,
    pub implof: String,
    pub span: String,
    pub is_pub: bool,
    pub nomangle: bool,
    pub sym: String,
    pub foreign: bool,
    pub abi: String,
    pub ac: u32,
    pub locals: Vec<TyId>,
    pub names: HashMap<u32, String>,
    pub spread: Option<u32>,
    pub blocks: Option<Vec<Option<Block>>>,
    pub ret: Option<TyId>,
}

pub struct Prog {
    pub krate: String,
    pub types: Vec<Type>,
    pub fns: Vec<FnD>,
    pub roots: Vec<FnId>,
    /// a stand-in type for locals of synthesised bodies
    pub unk: TyId,
    pub statics: HashMap<String, (TyId, CV, bool)>,
}

fn cv(j: &J) -> CV {
    match j.at(0).s() {
        "i" => CV::Int(j.at(1).i()),
        "s" => CV::Str(j.at(1).s().to_string()),
        "fn" => CV::Fn,
        "z" => CV::Zst,
        "agg" => CV::Agg(j.at(1).u(), j.at(2).arr().iter().map(cv).collect()),
        "ref" => CV::Ref(Box::new(cv(j.at(1)))),
        "static" => CV::Static(j.at(1).s().to_string()),
        "fnptr" => CV::FnPtr(j.at(1).u(), j.at(2).s().to_string()),
        "mem" => CV::Mem(j.at(1).i() as usize, j.at(2).arr().iter().map(|x| x.i() as u8).collect()),
        _ => CV::Unknown,
    }
}

fn place(j: &J) -> Place {
    Place {
        local: j.at(0).u(),
        proj: j
            .at(1)
            .arr()
            .iter()
            .map(|p| match p {
                J::Str(s) if s == "*" => Proj::Deref,
                _ => match p.at(0).s() {
                    "f" => Proj::Field(p.at(1).u(), p.at(2).u()),
                    "d" => Proj::Down(p.at(1).u()),
                    "i" => Proj::Index(p.at(1).u()),
                    "c" => Proj::CIdx(p.at(1).i() as u64, p.at(3).i() != 0),
                    "s" => Proj::Sub(p.at(1).i() as u64, p.at(2).i() as u64, p.at(3).i() != 0),
                    _ => Proj::Other,
                },
            })
            .collect(),
    }
}

fn operand(j: &J) -> Operand {
    match j.at(0).s() {
        "c" => Operand::Copy(place(j.at(1))),
        "m" => Operand::Move(place(j.at(1))),
        "k" => Operand::Const(j.at(1).u(), cv(j.at(2)), j.at(3).s().to_string()),
        _ => Operand::Rc,
    }
}

fn rvalue(j: &J) -> Rv {
    match j.at(0).s() {
        "use" => Rv::Use(operand(j.at(1))),
        "rep" => Rv::Rep(operand(j.at(1)), j.at(2).i()),
        "ref" => Rv::Ref(place(j.at(1)), j.at(2).i() != 0, false),
        "raw" => Rv::Ref(place(j.at(1)), j.at(2).i() != 0, true),
        "tls" => Rv::Tls(j.at(1).s().to_string()),
        "cast" => Rv::Cast(j.at(1).s().to_string(), operand(j.at(2)), j.at(3).u()),
        "bin" => Rv::Bin(j.at(1).s().to_string(), operand(j.at(2)), operand(j.at(3))),
        "un" => Rv::Un(j.at(1).s().to_string(), operand(j.at(2))),
        "disc" => Rv::Disc(place(j.at(1))),
        _ => {
            let ops = j.at(4).arr().iter().map(operand).collect();
            let k = match j.at(1).s() {
                "array" => AggK::Array(j.at(2).u()),
                "tuple" => AggK::Tuple,
                "adt" => AggK::Adt(j.at(2).u(), j.at(3).u(), j.at(5).opt_u()),
                "closure" => AggK::Closure(j.at(2).u()),
                "rawptr" => AggK::RawPtr(j.at(2).u()),
                _ => AggK::Other,
            };
            Rv::Agg(k, ops)
        }
    }
}

pub fn callee(j: &J) -> Callee {
    Callee {
        p: j.get("p").s().to_string(),
        args: j.get("a").arr().iter().map(|x| x.u()).collect(),
        r: j.get("r").opt_u(),
        rp: j.get("rp").s().to_string(),
        rargs: j.get("ra").arr().iter().map(|x| x.u()).collect(),
        rk: j.get("rk").s().to_string(),
    }
}

fn block(j: &J) -> Block {
    let stmts = j
        .at(0)
        .arr()
        .iter()
        .map(|s| match s.at(0).s() {
            "=" => Stmt::Assign(place(s.at(1)), rvalue(s.at(2)), s.at(3).u()),
            "sd" => Stmt::SetDisc(place(s.at(1)), s.at(2).u()),
            "x" => Stmt::Dead(s.at(1).u()),
            _ => Stmt::CopyNo(operand(s.at(1)), operand(s.at(2)), operand(s.at(3))),
        })
        .collect();
    let t = j.at(1);
    let term = match t.at(0).s() {
        "goto" => Term::Goto(t.at(1).u()),
        "sw" => Term::Switch(operand(t.at(1)), t.at(2).arr().iter().map(|c| (c.at(0).i(), c.at(1).u())).collect(), t.at(3).u()),
        "ret" => Term::Ret,
        "drop" => Term::Drop(place(t.at(1)), t.at(2).u(), t.at(3).u()),
        "call" => {
            let f = t.at(1);
            let func = if !f.get("op").is_null() { Func::Op(operand(f.get("op"))) } else { Func::Static(callee(f)) };
            let tg = t.at(4).i();
            Term::Call(func, t.at(2).arr().iter().map(operand).collect(), place(t.at(3)), if tg < 0 { None } else { Some(tg as u32) }, t.at(5).u())
        }
        "assert" => {
            let m = t.at(3);
            let k = match m.at(0).s() {
                "bounds" => AssertK::Bounds(operand(m.at(1)), operand(m.at(2))),
                "ovf" => AssertK::Ovf(m.at(1).s().to_string(), operand(m.at(2)), operand(m.at(3))),
                "ovfneg" => AssertK::OvfNeg,
                "div0" | "rem0" => AssertK::Div0,
                _ => AssertK::Other,
            };
            Term::Assert(operand(t.at(1)), t.at(2).i() != 0, k, t.at(4).u())
        }
        _ => Term::Unreachable,
    };
    Block { stmts, term, span: j.at(2).s().to_string() }
}

pub fn load(j: &J) -> Prog {
    let mut types: Vec<Type> = j
        .get("types")
        .arr()
        .iter()
        .map(|t| {
            let k = match t.get("k").s() {
                "bool" => Kind::Bool,
                "char" => Kind::Char,
                "int" => Kind::Int,
                "uint" => Kind::Uint,
                "float" => Kind::Float,
                "str" => Kind::Str,
                "never" => Kind::Never,
                "ref" => Kind::Ref,
                "ptr" => Kind::Ptr,
                "slice" => Kind::Slice,
                "array" => Kind::Array,
                "tuple" => Kind::Tuple,
                "closure" => Kind::Closure,
                "fndef" => Kind::FnDef,
                "fnptr" => Kind::FnPtr,
                "dyn" => Kind::Dyn,
                "struct" => Kind::Struct,
                "enum" => Kind::Enum,
                "union" => Kind::Union,
                _ => Kind::Other,
            };
            let sz = t.get("sz");
            Type {
                s: t.get("s").s().to_string(),
                size: if sz.is_null() { None } else { Some(sz.i() as u64) },
                needs_drop: t.get("nd").i() != 0,
                elem: t.get("t").opt_u(),
                mutbl: t.get("m").i() != 0,
                path: t.get("p").s().to_string(),
                args: t.get("a").arr().iter().map(|x| x.u()).collect(),
                n: t.get("n").i(),
                variants: t
                    .get("v")
                    .arr()
                    .iter()
                    .map(|v| Variant {
                        name: v.get("n").s().to_string(),
                        disc: v.get("d").i(),
                        fields: v.get("f").arr().iter().map(|f| (f.at(0).s().to_string(), f.at(1).u())).collect(),
                    })
                    .collect(),
                fields: t.get("f").arr().iter().map(|x| x.u()).collect(),
                is_box: t.get("box").i() != 0,
                mdrop: t.get("mdrop").i() != 0,
                drop: t.get("drop").opt_u(),
                body: t.get("body").opt_u(),
                next: t.get("next").opt_u(),
                krate: t.get("cr").s().to_string(),
                callee: if t.get("c").is_null() { None } else { Some(callee(t.get("c"))) },
                k,
            }
        })
        .collect();
    let unk = types.len() as TyId;
    types.push(Type {
        s: "?".into(),
        k: Kind::Other,
        size: None,
        needs_drop: false,
        elem: None,
        mutbl: false,
        path: String::new(),
        args: vec![],
        n: 0,
        variants: vec![],
        fields: vec![],
        is_box: false,
        mdrop: false,
        drop: None,
        body: None,
        next: None,
        krate: String::new(),
        callee: None,
    });
    let fns: Vec<FnD> = j
        .get("fns")
        .arr()
        .iter()
        .map(|f| FnD {
            id: f.get("id").u(),
            p: f.get("p").s().to_string(),
            krate: f.get("cr").s().to_string(),
            args: f.get("a").arr().iter().map(|x| x.u()).collect(),
            local: f.get("local").i() != 0,
            derived: f.get("derived").i() != 0,
            trait_: f.get("trait").s().to_string(),
            implof: f.get("implof").s().to_string(),
            span: f.get("sp").s().to_string(),
            is_pub: f.get("pub").i() != 0,
            nomangle: f.get("nomangle").i() != 0,
            sym: f.get("sym").s().to_string(),
            foreign: f.get("foreign").i() != 0,
            abi: f.get("abi").s().to_string(),
            ac: f.get("ac").u(),
            locals: f.get("l").arr().iter().map(|x| x.u()).collect(),
            names: match f.get("ln") {
                J::Obj(m) => m.iter().map(|(k, v)| (k.parse().unwrap(), v.s().to_string())).collect(),
                _ => HashMap::new(),
            },
            spread: f.get("spread").opt_u(),
            blocks: if f.get("b").is_null() { None } else { Some(f.get("b").arr().iter().map(|b| if b.is_null() { None } else { Some(block(b)) }).collect()) },
            ret: f.get("ret").opt_u(),
        })
        .collect();
    for (i, f) in fns.iter().enumerate() {
        assert_eq!(i as u32, f.id, "function ids must be dense");
    }
    Prog {
        krate: j.get("crate").s().to_string(),
        types,
        unk,
        fns,
        roots: j.get("roots").arr().iter().map(|x| x.u()).collect(),
        statics: j.get("statics").arr().iter().map(|s| (s.get("p").s().to_string(), (s.get("t").u(), cv(s.get("v")), s.get("mut").i() != 0))).collect(),
    }
}

impl Prog {
    pub fn ty(&self, t: TyId) -> &Type {
        &self.types[t as usize]
    }
    pub fn f(&self, f: FnId) -> &FnD {
        &self.fns[f as usize]
    }
    /// Field index of `name` in variant `v` of an ADT.
    pub fn field(&self, t: TyId, v: usize, name: &str) -> Option<u32> {
        self.ty(t).variants.get(v)?.fields.iter().position(|f| f.0 == name).map(|x| x as u32)
    }
    pub fn field_ty(&self, t: TyId, v: u32, i: u32) -> Option<TyId> {
        let ty = self.ty(t);
        match ty.k {
            Kind::Struct | Kind::Enum | Kind::Union => ty.variants.get(v as usize)?.fields.get(i as usize).map(|f| f.1),
            Kind::Tuple | Kind::Closure => ty.fields.get(i as usize).copied(),
            _ => None,
        }
    }
    pub fn variant(&self, t: TyId, name: &str) -> Option<u32> {
        self.ty(t).variants.iter().position(|v| v.name == name).map(|x| x as u32)
    }
    pub fn succs(t: &Term) -> Vec<u32> {
        match t {
            Term::Goto(b) => vec![*b],
            Term::Switch(_, c, o) => c.iter().map(|x| x.1).chain([*o]).collect(),
            Term::Drop(_, _, b) => vec![*b],
            Term::Call(_, _, _, t, _) => t.iter().copied().collect(),
            Term::Assert(_, _, _, b) => vec![*b],
            Term::Ret | Term::Unreachable => vec![],
        }
    }
}
