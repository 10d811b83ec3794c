//! RUSTC_WRAPPER that compiles the crates under analysis with full MIR and dumps the
//! type-checked, monomorphised program (resolved callees, evaluated constants, drop-elaborated
//! MIR) as JSON.  All deciding logic lives in the Python side; this only exports the compiler's
//! own view of the current source.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::path::PathBuf;
use std::process::Command;

const TARGETS: &[&str] = &["ipmb", "ipmb_ffi", "ipmb_js", "ipmb_fixture", "sa_selftest"];

/// Standard library functions whose own MIR is exported (generic combinators); every other
/// external function is a leaf of the exported program.
const STD_PREFIX: &[&str] = &[
    "core::option::", "core::result::", "core::ops::function::", "core::ops::control_flow::",
    "core::convert::", "core::bool::", "core::cmp::", "core::iter::", "core::mem::drop",
    "core::mem::take", "core::ops::range::", "core::ops::try_trait::", "core::time::impls",
    "core::default::", "core::tuple::",
];

macro_rules! full { ($e:expr) => { with_resolve_crate_name!(with_no_trimmed_paths!(with_no_visible_paths!($e))) } }

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<Instance<'tcx>>,
    statics: HashMap<DefId, String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { full!(self.tcx.def_path_str(d)) }

    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let n = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", n, lo.line)
    }

    fn inst_id(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&n) = self.insts.get(&i) { return n; }
        let n = self.insts.len();
        self.insts.insert(i, n);
        self.queue.push_back(i);
        n
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&n) = self.types.get(&t) { return n; }
        let n = self.type_json.len();
        self.types.insert(t, n);
        self.type_json.push(String::new());
        let s = full!(format!("{t}"));
        let mut j = format!("{{\"s\":{}", esc(&s));
        let size = if t.has_param() || t.has_escaping_bound_vars() { None } else {
            self.tcx.layout_of(self.env.as_query_input(t)).ok().map(|l| (l.size.bytes(), l.align.abi.bytes()))
        };
        if let Some((sz, al)) = size { let _ = write!(j, ",\"sz\":{sz},\"al\":{al}"); }
        if !t.has_escaping_bound_vars() && t.needs_drop(self.tcx, self.env) { j.push_str(",\"nd\":1"); }
        match t.kind() {
            ty::Bool => j.push_str(",\"k\":\"bool\""),
            ty::Char => j.push_str(",\"k\":\"char\""),
            ty::Int(_) => j.push_str(",\"k\":\"int\""),
            ty::Uint(_) => j.push_str(",\"k\":\"uint\""),
            ty::Float(_) => j.push_str(",\"k\":\"float\""),
            ty::Str => j.push_str(",\"k\":\"str\""),
            ty::Never => j.push_str(",\"k\":\"never\""),
            ty::Ref(_, u, m) => {
                let u = self.ty(*u);
                let _ = write!(j, ",\"k\":\"ref\",\"t\":{u},\"m\":{}", m.is_mut() as u8);
            }
            ty::RawPtr(u, m) => {
                let u = self.ty(*u);
                let _ = write!(j, ",\"k\":\"ptr\",\"t\":{u},\"m\":{}", m.is_mut() as u8);
            }
            ty::Slice(u) => { let u = self.ty(*u); let _ = write!(j, ",\"k\":\"slice\",\"t\":{u}"); }
            ty::Array(u, n) => {
                let u = self.ty(*u);
                let n = n.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1);
                let _ = write!(j, ",\"k\":\"array\",\"t\":{u},\"n\":{n}");
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(j, ",\"k\":\"tuple\",\"f\":[{}]", v.join(","));
            }
            ty::Closure(d, args) => {
                let sig_kind = args.as_closure().kind();
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let p = self.path(*d);
                let body = Instance::resolve_closure(self.tcx, *d, args, sig_kind);
                let id = self.inst_id(body);
                let _ = write!(j, ",\"k\":\"closure\",\"p\":{},\"f\":[{}],\"ck\":\"{:?}\",\"body\":{}", esc(&p), ups.join(","), sig_kind, id);
            }
            ty::FnDef(d, args) => {
                let p = self.path(*d);
                let _ = write!(j, ",\"k\":\"fndef\",\"p\":{}", esc(&p));
                if let Some(c) = self.callee_json(*d, args.skip_binder()) { let _ = write!(j, ",\"c\":{c}"); }
            }
            ty::FnPtr(..) => j.push_str(",\"k\":\"fnptr\""),
            ty::Dynamic(..) => j.push_str(",\"k\":\"dyn\""),
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(j, ",\"k\":\"{kind}\",\"p\":{},\"a\":[{}]", esc(&p), targs.join(","));
                if def.is_box() { j.push_str(",\"box\":1"); }
                if def.is_manually_drop() { j.push_str(",\"mdrop\":1"); }
                let krate = self.tcx.crate_name(def.did().krate).to_string();
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let d = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val.to_string() } else { "0".into() };
                    let fs: Vec<String> = v.fields.iter().map(|f| {
                        let ft = f.ty(self.tcx, args).skip_norm_wip();
                        let ft = if t.has_escaping_bound_vars() { ft } else {
                            self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft)).unwrap_or(ft)
                        };
                        format!("[{},{}]", esc(f.name.as_str()), self.ty(ft))
                    }).collect();
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(v.name.as_str()), d, fs.join(",")));
                }
                let _ = write!(j, ",\"cr\":{},\"v\":[{}]", esc(&krate), vs.join(","));
                if let Some(ds) = def.destructor(self.tcx) {
                    if !t.has_param() {
                        // the user-written Drop::drop for this instantiation
                        let trait_fn = self.tcx.associated_item_def_ids(self.tcx.lang_items().drop_trait().unwrap())[0];
                        let _ = ds;
                        let inst = Instance::try_resolve(self.tcx, self.env, trait_fn, self.tcx.mk_args(&[t.into()]));
                        if let Ok(Some(inst)) = inst {
                            let id = self.inst_id(inst);
                            let _ = write!(j, ",\"drop\":{id}");
                        }
                    }
                }
            }
            _ => j.push_str(",\"k\":\"other\""),
        }
        if matches!(t.kind(), ty::Adt(..)) && !t.has_param() && !t.has_escaping_bound_vars() {
            if let Some(it) = self.tcx.get_diagnostic_item(rustc_span::sym::Iterator) {
                use rustc_infer::infer::TyCtxtInferExt;
                use rustc_trait_selection::infer::InferCtxtExt;
                let (infcx, penv) = self.tcx.infer_ctxt().build_with_typing_env(self.env);
                let ok = infcx.type_implements_trait(it, [t], penv).must_apply_modulo_regions();
                if ok {
                    let next = self.tcx.associated_item_def_ids(it).iter().copied().find(|d| self.tcx.item_name(*d).as_str() == "next").unwrap();
                    if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, self.env, next, self.tcx.mk_args(&[t.into()])) {
                        let id = self.inst_id(inst);
                        let _ = write!(j, ",\"next\":{id}");
                    }
                }
            }
        }
        j.push('}');
        self.type_json[n] = j;
        n
    }

    fn callee_json(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<String> {
        let p = self.path(d);
        let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let mut j = format!("{{\"p\":{},\"a\":[{}]", esc(&p), targs.join(","));
        if args.has_escaping_bound_vars() { j.push('}'); return Some(j); }
        if !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..) | DefKind::Closure) { j.push('}'); return Some(j); }
        if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, self.env, d, args) {
            let rp = self.path(inst.def_id());
            let kind = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::LlvmIntrinsic(_) => "llvm",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
                InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr",
                InstanceKind::Shim(ShimKind::Clone(..)) => "clone",
                InstanceKind::Shim(ShimKind::DropGlue(..)) => "dropglue",
                _ => "shim",
            };
            let id = self.inst_id(inst);
            let ra: Vec<String> = inst.args.types().map(|t| self.ty(t).to_string()).collect();
            let _ = write!(j, ",\"r\":{},\"rp\":{},\"ra\":[{}],\"rk\":\"{}\"", id, esc(&rp), ra.join(","), kind);
        }
        j.push('}');
        Some(j)
    }

    fn has_body(&self, i: Instance<'tcx>) -> bool {
        match i.def {
            InstanceKind::Item(d) => {
                if !self.tcx.is_mir_available(d) { return false; }
                let k = self.tcx.crate_name(d.krate);
                if d.is_local() || TARGETS.contains(&k.as_str()) { return true; }
                let p = self.path(d);
                let p = p.trim_start_matches('<');
                STD_PREFIX.iter().any(|x| p.starts_with(x)) || p.contains(" as core::iter::") || p.contains(" as core::ops::function::")
                    || p.contains(" as core::convert::") || p.contains(" as core::cmp::")
                    || p.contains(" as core::ops::try_trait::") || p.contains(" as core::default::")
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ShimKind::FnPtr(..)) => true,
            _ => false,
        }
    }

    fn scalar(&self, s: Scalar, t: Ty<'tcx>) -> String {
        match s {
            Scalar::Int(i) => {
                if t.is_signed() { format!("[\"i\",{}]", i.to_int(i.size())) } else { format!("[\"i\",{}]", i.to_uint(i.size())) }
            }
            _ => "[\"?\"]".into(),
        }
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        match t.kind() {
            ty::FnDef(..) => return "[\"fn\"]".into(),
            ty::Ref(_, u, _) if u.is_str() => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return format!("[\"s\",{}]", esc(&String::from_utf8_lossy(b)));
                }
            }
            _ => {}
        }
        match v {
            ConstValue::ZeroSized => {
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_struct() { return "[\"agg\",0,[]]".into(); }
                }
                return "[\"z\"]".into();
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => {
                        let p = self.path(d);
                        self.statics.entry(d).or_insert_with(|| p.clone());
                        return format!("[\"static\",{}]", esc(&p));
                    }
                    GlobalAlloc::Function { instance } => {
                        let p = self.path(instance.def_id());
                        let id = self.inst_id(instance);
                        return format!("[\"fnptr\",{},{}]", id, esc(&p));
                    }
                    GlobalAlloc::Memory(m) => {
                        let u = match t.kind() { ty::Ref(_, u, _) => Some(*u), ty::RawPtr(u, _) => Some(*u), _ => None };
                        if let Some(u) = u {
                            if depth < 4 && off.bytes() == 0 && u.is_sized(tcx, self.env) {
                                let inner = self.const_val(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, u, depth + 1);
                                return format!("[\"ref\",{}]", inner);
                            }
                        }
                        let a = m.inner();
                        if a.len() < 256 && a.provenance().ptrs().is_empty() {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                            return format!("[\"mem\",{},{:?}]", off.bytes(), b);
                        }
                    }
                    _ => {}
                }
                return "[\"?\"]".into();
            }
            ConstValue::Scalar(s) => {
                if t.is_integral() || t.is_bool() || t.is_char() || t.is_any_ptr() { return self.scalar(s, t); }
                if t.is_floating_point() { return "[\"?\"]".into(); }
            }
            _ => {}
        }
        if depth < 6 {
            if t.is_integral() || t.is_bool() || t.is_char() {
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                        if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                            let r = m.inner().read_scalar(&tcx, AllocRange { start: offset, size: l.size }, false);
                            if let Ok(s) = r { return self.scalar(s, t); }
                        }
                    }
                }
                return "[\"?\"]".into();
            }
            if matches!(t.kind(), ty::Adt(d, _) if !d.is_union()) || matches!(t.kind(), ty::Tuple(_) | ty::Array(..)) {
                if !t.has_param() {
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let fs: Vec<String> = d.fields.iter().map(|(v, t)| self.const_val(*v, *t, depth + 1)).collect();
                        return format!("[\"agg\",{},[{}]]", d.variant.map(|v| v.as_u32()).unwrap_or(0), fs.join(","));
                    }
                }
            }
        }
        "[\"?\"]".into()
    }

    fn constant(&mut self, c: &mir::Const<'tcx>, span: Span) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let v = if t.is_fn() || matches!(t.kind(), ty::FnDef(..)) { "[\"fn\"]".to_string() } else {
            match c.eval(self.tcx, self.env, span) {
                Ok(v) => self.const_val(v, t, 0),
                Err(_) => "[\"?\"]".into(),
            }
        };
        let name = match c { mir::Const::Unevaluated(u, _) if u.promoted.is_none() => format!(",{}", esc(&self.path(u.def))), _ => String::new() };
        format!("[\"k\",{ti},{v}{name}]")
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); format!("[\"f\",{},{}]", f.as_u32(), t) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{offset},{min_length},{}]", from_end as u8),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{from},{to},{}]", from_end as u8),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_u32()),
                _ => "\"o\"".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_u32(), v.join(","))
    }

    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_, c.span),
            Operand::RuntimeChecks(_) => { "[\"rc\"]".to_string() }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1);
                format!("[\"rep\",{},{}]", self.op(o), n)
            }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(k, mir::BorrowKind::Mut { .. }) as u8),
            Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", self.place(p), matches!(k, mir::RawPtrKind::Mut) as u8),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{k:?}");
                let o = self.op(o);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&ks), o, t)
            }
            Rvalue::BinaryOp(b, ops) => { let a = self.op(&ops.0); let c = self.op(&ops.1); format!("[\"bin\",\"{b:?}\",{a},{c}]") }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{u:?}\",{}]", self.op(o)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let os = os.join(",");
                match &**k {
                    mir::AggregateKind::Array(t) => { let t = self.ty(*t); format!("[\"agg\",\"array\",{t},0,[{os}]]") }
                    mir::AggregateKind::Tuple => format!("[\"agg\",\"tuple\",0,0,[{os}]]"),
                    mir::AggregateKind::Adt(d, v, args, _, active) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.ty(t);
                        let a = active.map(|f| format!(",{}", f.as_u32())).unwrap_or_default();
                        format!("[\"agg\",\"adt\",{t},{},[{os}]{a}]", v.as_u32())
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.ty(t);
                        format!("[\"agg\",\"closure\",{t},0,[{os}]]")
                    }
                    mir::AggregateKind::RawPtr(t, _) => { let t = self.ty(*t); format!("[\"agg\",\"rawptr\",{t},0,[{os}]]") }
                    _ => format!("[\"agg\",\"other\",0,0,[{os}]]"),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
        }
    }

    fn body(&mut self, id: usize, inst: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let d = inst.def_id();
        let p = self.path(d);
        let krate = tcx.crate_name(d.krate).to_string();
        let ia: Vec<String> = inst.args.types().map(|t| self.ty(t).to_string()).collect();
        let mut j = format!("{{\"id\":{id},\"p\":{},\"cr\":{},\"a\":[{}],\"local\":{}", esc(&p), esc(&krate), ia.join(","), d.is_local() as u8);
        if let Some(t) = tcx.trait_of_assoc(d) { let t = self.path(t); let _ = write!(j, ",\"trait\":{}", esc(&t)); }
        if let Some(t) = tcx.trait_impl_of_assoc(d) {
            if tcx.is_automatically_derived(t) || tcx.is_builtin_derived(t) { j.push_str(",\"derived\":1"); }
            let t = self.path(tcx.impl_trait_id(t)); let _ = write!(j, ",\"implof\":{}", esc(&t));
        }
        let _ = write!(j, ",\"sp\":{}", esc(&self.span(tcx.def_span(d))));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(j, ",\"pub\":{},\"abi\":{},\"foreign\":{}", tcx.visibility(d).is_public() as u8, esc(&format!("{:?}", tcx.fn_sig(d).skip_binder().abi())), tcx.is_foreign_item(d) as u8);
            let attrs = tcx.codegen_fn_attrs(d);
            if let Some(s) = attrs.symbol_name { let _ = write!(j, ",\"sym\":{}", esc(s.as_str())); }
            if attrs.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE) { let _ = write!(j, ",\"nomangle\":1"); }
        }
        if !self.has_body(inst) {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && !inst.args.has_param() {
                let sig = tcx.fn_sig(d).instantiate(tcx, inst.args).skip_norm_wip();
                let sig = tcx.erase_and_anonymize_regions(tcx.instantiate_bound_regions_with_erased(sig));
                if !sig.has_escaping_bound_vars() {
                    let o = sig.output();
                    let o = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(o)).unwrap_or(o);
                    let o = self.ty(o);
                    let _ = write!(j, ",\"ret\":{o}");
                }
            }
            j.push('}');
            return j;
        }
        let body = tcx.instance_mir(inst.def);
        let body: mir::Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body.clone()));
        let ls: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(j, ",\"ac\":{},\"l\":[{}]", body.arg_count, ls.join(","));
        if let Some(s) = body.spread_arg { let _ = write!(j, ",\"spread\":{}", s.as_u32()); }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names.push(format!("\"{}\":{}", p.local.as_u32(), esc(v.name.as_str()))); }
            }
        }
        let _ = write!(j, ",\"ln\":{{{}}}", names.join(","));
        let mut bs = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup { bs.push("null".to_string()); continue; }
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let pl = self.place(&b.0);
                        let rv = self.rvalue(&b.1);
                        let sp = self.span(s.source_info.span);
                        let ln = sp.rsplit(':').next().unwrap_or("0").to_string();
                        ss.push(format!("[\"=\",{pl},{rv},{ln}]"));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place);
                        ss.push(format!("[\"sd\",{pl},{}]", variant_index.as_u32()));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"x\",{}]", l.as_u32())),
                    StatementKind::Intrinsic(i) => {
                        if let mir::NonDivergingIntrinsic::CopyNonOverlapping(c) = &**i {
                            let (a, b, n) = (self.op(&c.src), self.op(&c.dst), self.op(&c.count));
                            ss.push(format!("[\"cp\",{a},{b},{n}]"));
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(discr);
                    let signed = { let t = discr.ty(&body.local_decls, tcx); if t.is_signed() { tcx.layout_of(self.env.as_query_input(t)).ok().map(|l| l.size) } else { None } };
                    let v: Vec<String> = targets.iter().map(|(v, b)| {
                        let v = if let Some(sz) = signed { sz.sign_extend(v).to_string() } else { v.to_string() };
                        format!("[{v},{}]", b.as_u32())
                    }).collect();
                    format!("[\"sw\",{o},[{}],{}]", v.join(","), targets.otherwise().as_u32())
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pl = self.place(place);
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let t = self.ty(t);
                    format!("[\"drop\",{pl},{t},{}]", target.as_u32())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func.const_fn_def() {
                        Some((d, a)) => { let d2 = d; let a2 = self.tcx.erase_and_anonymize_regions(a); self.callee_json(d2, a2).unwrap() }
                        None => format!("{{\"op\":{}}}", self.op(func)),
                    };
                    let v: Vec<String> = args.iter().map(|a| self.op(&a.node)).collect();
                    let dst = self.place(destination);
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    let tg = target.map(|t| t.as_u32() as i64).unwrap_or(-1);
                    format!("[\"call\",{f},[{}],{dst},{tg},{dt}]", v.join(","))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond);
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.op(len), self.op(index)),
                        mir::AssertKind::Overflow(b, x, y) => format!("[\"ovf\",\"{b:?}\",{},{}]", self.op(x), self.op(y)),
                        mir::AssertKind::OverflowNeg(x) => format!("[\"ovfneg\",{}]", self.op(x)),
                        mir::AssertKind::DivisionByZero(x) => format!("[\"div0\",{}]", self.op(x)),
                        mir::AssertKind::RemainderByZero(x) => format!("[\"rem0\",{}]", self.op(x)),
                        _ => "[\"other\"]".to_string(),
                    };
                    format!("[\"assert\",{c},{},{m},{}]", *expected as u8, target.as_u32())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                _ => "[\"unreachable\"]".to_string(),
            };
            bs.push(format!("[[{}],{},{}]", ss.join(","), tj, esc(&sp)));
        }
        let _ = write!(j, ",\"b\":[{}]}}", bs.join(","));
        j
    }
}

struct Cb { out: PathBuf }

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        if name == "ipmb" && std::env::var("SA_DUMP_CORE").is_err() { return Compilation::Continue; }
        let mut cx = Cx { tcx, env: ty::TypingEnv::fully_monomorphized(), types: HashMap::new(), type_json: vec![], insts: HashMap::new(), queue: VecDeque::new(), statics: HashMap::new() };
        let mut roots = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { continue; }
            if tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
            let inst = Instance::mono(tcx, d);
            let id = cx.inst_id(inst);
            roots.push(id.to_string());
        }
        let mut fns = vec![];
        while let Some(i) = cx.queue.pop_front() {
            let id = cx.insts[&i];
            let s = cx.body(id, i);
            fns.push((id, s));
        }
        let mut st = vec![];
        let keys: Vec<(DefId, String)> = cx.statics.iter().map(|(a, b)| (*a, b.clone())).collect();
        for (d, p) in keys {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let ti = cx.ty(t);
            let mut v = "[\"?\"]".to_string();
            let foreign_ok = !tcx.is_foreign_item(d);
            if foreign_ok && !tcx.is_mutable_static(d) && t.is_integral() {
                if let Ok(a) = tcx.eval_static_initializer(d) {
                    if let Ok(l) = tcx.layout_of(cx.env.as_query_input(t)) {
                        if let Ok(s) = a.inner().read_scalar(&tcx, AllocRange { start: rustc_abi::Size::ZERO, size: l.size }, false) { v = cx.scalar(s, t); }
                    }
                }
            }
            st.push(format!("{{\"p\":{},\"t\":{ti},\"v\":{v},\"mut\":{}}}", esc(&p), tcx.is_mutable_static(d) as u8));
        }
        // named constants of the crate itself
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Const { .. }) || tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            if !t.is_integral() { continue; }
            if let Ok(v) = tcx.const_eval_poly(d) {
                let p = cx.path(d);
                let ti = cx.ty(t);
                let v = cx.const_val(v, t, 0);
                st.push(format!("{{\"p\":{},\"t\":{ti},\"v\":{v},\"mut\":0}}", esc(&p)));
            }
        }
        // functions discovered while describing statics
        while let Some(i) = cx.queue.pop_front() { let id = cx.insts[&i]; let s = cx.body(id, i); fns.push((id, s)); }
        fns.sort_by_key(|f| f.0);
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},\"roots\":[{}],\n\"types\":[\n{}\n],\n\"statics\":[{}],\n\"fns\":[\n{}\n]}}\n", esc(&name), roots.join(","), cx.type_json.join(",\n"), st.join(","), fns.into_iter().map(|f| f.1).collect::<Vec<_>>().join(",\n"));
        let tmp = self.out.join(format!("{name}.json.tmp"));
        std::fs::write(&tmp, o).expect("write dump");
        std::fs::rename(&tmp, self.out.join(format!("{name}.json"))).expect("rename dump");
        Compilation::Continue
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER protocol: argv[1] is the real rustc
    let rustc = args[1].clone();
    let rest: Vec<String> = args[2..].to_vec();
    let crate_name = rest.iter().position(|a| a == "--crate-name").and_then(|i| rest.get(i + 1)).cloned();
    let is_target = crate_name.as_deref().map_or(false, |n| TARGETS.contains(&n));
    let out = std::env::var("SA_OUT").ok();
    if !is_target || out.is_none() {
        let st = Command::new(&rustc).args(&rest).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let mut a = vec![rustc];
    a.extend(rest);
    for f in ["-Zalways-encode-mir", "-Zmir-opt-level=0", "-Zinline-mir=no", "-Coverflow-checks=on", "-Awarnings"] { a.push(f.into()); }
    let mut cb = Cb { out: PathBuf::from(out.unwrap()) };
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&a, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
