#![feature(rustc_private)]
#![allow(clippy::all)]
//! MIR dumper: writes the monomorphised MIR reachable from every local function
//! of the crate under analysis as JSON.  It runs as RUSTC_WORKSPACE_WRAPPER.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_hir::def::DefKind;
use rustc_middle::mir as imir;
use rustc_middle::mir::interpret::{GlobalAlloc as IGlobal, Scalar};
use rustc_middle::ty::{self as ity, TyCtxt};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal::{internal, stable};
use rustc_public::ty::{ConstantKind, GenericArgKind, RigidTy, Ty, TyKind};
use rustc_public::{CrateDef, CrateDefType};
use rustc_middle::ty::print::PrintTraitRefExt;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tyidx: HashMap<Ty, usize>,
    insts: Vec<Instance>,
    instidx: HashMap<Instance, usize>,
    queue: VecDeque<usize>,
    descend: Vec<String>,
    iterq: VecDeque<Ty>,
    itermap: BTreeMap<usize, String>,
}

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyidx.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tyidx.insert(t, i);
        self.iterq.push_back(t);
        let s = self.ty_json(t);
        self.types[i] = s;
        i
    }
    fn args_json(&mut self, a: &rustc_public::ty::GenericArgs) -> String {
        let mut v = vec![];
        for x in &a.0 {
            if let GenericArgKind::Type(t) = x {
                v.push(self.ty(*t).to_string())
            }
        }
        arr(v)
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let name = esc(&format!("{}", internal(self.tcx, t)));
        let k = match t.kind() {
            TyKind::RigidTy(r) => r,
            other => return format!("{{\"k\":\"other\",\"s\":{},\"d\":{}}}", name, esc(&format!("{other:?}"))),
        };
        match k {
            RigidTy::Bool => "{\"k\":\"bool\",\"s\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\",\"s\":\"char\"}".into(),
            RigidTy::Str => "{\"k\":\"str\",\"s\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\",\"s\":\"!\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"s\":{},\"bits\":{},\"signed\":true}}", name, i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"s\":{},\"bits\":{},\"signed\":false}}", name, i.num_bytes() * 8),
            RigidTy::Float(_) => format!("{{\"k\":\"float\",\"s\":{}}}", name),
            RigidTy::Array(e, n) => {
                let e = self.ty(e);
                let n = n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"s\":{name},\"elem\":{e},\"len\":{n}}}")
            }
            RigidTy::Slice(e) => {
                let e = self.ty(e);
                format!("{{\"k\":\"slice\",\"s\":{name},\"elem\":{e}}}")
            }
            RigidTy::RawPtr(e, m) => {
                let e = self.ty(e);
                format!("{{\"k\":\"rawptr\",\"s\":{name},\"elem\":{e},\"mut\":{}}}", m == Mutability::Mut)
            }
            RigidTy::Ref(_, e, m) => {
                let e = self.ty(e);
                format!("{{\"k\":\"ref\",\"s\":{name},\"elem\":{e},\"mut\":{}}}", m == Mutability::Mut)
            }
            RigidTy::Tuple(v) => {
                let v: Vec<String> = v.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"s\":{name},\"elems\":{}}}", arr(v))
            }
            RigidTy::Adt(def, args) => {
                let iadt = internal(self.tcx, def);
                let local = iadt.did().is_local();
                let path = esc(&def.name());
                let kind = format!("{:?}", def.kind());
                let a = self.args_json(&args);
                let mut vs = vec![];
                for v in def.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&args);
                        let vis = {
                            let did = internal(self.tcx, f.def_id());
                            self.tcx.visibility(did).is_public()
                        };
                        // normalise projections in field types
                        let ift = internal(self.tcx, ft);
                        let nft = self
                            .tcx
                            .try_normalize_erasing_regions(ity::TypingEnv::fully_monomorphized(), ity::Unnormalized::new_wip(ift))
                            .unwrap_or(ift);
                        let id = self.ty(stable(nft));
                        fs.push(format!("[{},{},{}]", esc(&f.name), id, vis));
                    }
                    let d = if iadt.is_enum() { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                    vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(&v.name()), d, arr(fs)));
                }
                format!(
                    "{{\"k\":\"adt\",\"s\":{name},\"path\":{path},\"akind\":\"{kind}\",\"local\":{local},\"args\":{a},\"variants\":{}}}",
                    arr(vs)
                )
            }
            RigidTy::FnDef(def, args) => {
                let f = self.callee(def, &args);
                format!("{{\"k\":\"fndef\",\"s\":{name},\"callee\":{f}}}")
            }
            RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"s\":{name}}}"),
            RigidTy::Closure(def, args) => {
                let inst = Instance::resolve_closure(def, &args, rustc_public::ty::ClosureKind::FnOnce).ok();
                let (kind, upv) = {
                    let it = internal(self.tcx, t);
                    if let ity::TyKind::Closure(_, a) = it.kind() {
                        let ca = a.as_closure();
                        let k = format!("{:?}", ca.kind());
                        let u: Vec<Ty> = ca.upvar_tys().iter().map(|x| stable(x)).collect();
                        (k, u)
                    } else {
                        ("?".into(), vec![])
                    }
                };
                let body = {
                    let it = internal(self.tcx, t);
                    if let ity::TyKind::Closure(d, a) = it.kind() {
                        let i = ity::Instance::new_raw(*d, a);
                        let si: Instance = stable(i);
                        self.inst(si).to_string()
                    } else {
                        "null".into()
                    }
                };
                let _ = inst;
                let u: Vec<String> = upv.iter().map(|t| self.ty(*t).to_string()).collect();
                format!(
                    "{{\"k\":\"closure\",\"s\":{name},\"path\":{},\"kind\":{},\"upvars\":{},\"body\":{body}}}",
                    esc(&def.name()),
                    esc(&kind),
                    arr(u)
                )
            }
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{name}}}"),
            _ => format!("{{\"k\":\"other\",\"s\":{name}}}"),
        }
    }
    fn iter_info(&mut self, t: Ty) {
        let it = internal(self.tcx, t);
        match it.kind() {
            ity::TyKind::Adt(..) | ity::TyKind::Array(..) => {}
            ity::TyKind::Ref(_, i, _) if !i.is_ref() => {}
            _ => return,
        }
        let env = ity::TypingEnv::fully_monomorphized();
        let id = self.ty(t);
        let mut parts = vec![];
        for (tr, m, key) in [
            (rustc_span::sym::Iterator, "next", "next"),
            (rustc_span::Symbol::intern("DoubleEndedIterator"), "next_back", "next_back"),
            (rustc_span::sym::IntoIterator, "into_iter", "into_iter"),
        ] {
            let Some(trd) = self.tcx.get_diagnostic_item(tr) else { continue };
            let tref = ity::TraitRef::new(self.tcx, trd, [it]);
            let ok = self.tcx.codegen_select_candidate(env.as_query_input(tref)).is_ok();
            if !ok {
                continue;
            }
            let Some(md) = self
                .tcx
                .associated_items(trd)
                .in_definition_order()
                .find(|a| a.name().as_str() == m)
                .map(|a| a.def_id)
            else {
                continue;
            };
            let args = self.tcx.mk_args(&[it.into()]);
            if let Ok(Some(i)) = ity::Instance::try_resolve(self.tcx, env, md, args) {
                let si: Instance = stable(i);
                let n = self.inst(si);
                parts.push(format!("\"{key}\":{n}"));
                let core = if let ity::TyKind::Ref(_, i, _) = it.kind() { *i } else { it };
                let direct = match core.kind() {
                    ity::TyKind::Array(..) | ity::TyKind::Slice(..) => true,
                    ity::TyKind::Adt(d, _) => matches!(self.tcx.item_name(d.did()).as_str(), "Vec" | "BTreeMap" | "BTreeSet" | "HashMap"),
                    _ => false,
                };
                if key == "into_iter" && direct && !format!("{t}").contains("MaybeUninit<") {
                    let sig = i.ty(self.tcx, env).fn_sig(self.tcx);
                    let out = self.tcx.normalize_erasing_late_bound_regions(env, sig.output());
                    let o = self.ty(stable(out));
                    parts.push(format!("\"into\":{o}"));
                }
            }
        }
        if !parts.is_empty() {
            self.itermap.insert(id, format!("{{{}}}", parts.join(",")));
        }
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.instidx.get(&i) {
            return *x;
        }
        let n = self.insts.len();
        self.insts.push(i);
        self.instidx.insert(i, n);
        self.queue.push_back(n);
        n
    }
    fn callee(&mut self, def: rustc_public::ty::FnDef, args: &rustc_public::ty::GenericArgs) -> String {
        let a = self.args_json(args);
        let tpath = {
            let did = internal(self.tcx, def.def_id());
            self.tcx.def_path_str(did)
        };
        match Instance::resolve(def, args) {
            Ok(i) => {
                let id = self.inst(i);
                format!("{{\"decl\":{},\"inst\":{id},\"args\":{a}}}", esc(&tpath))
            }
            Err(_) => format!("{{\"decl\":{},\"inst\":null,\"args\":{a}}}", esc(&tpath)),
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"D\"]".to_string(),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    format!("[\"F\",{i},{t}]")
                }
                ProjectionElem::Index(l) => format!("[\"I\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"C\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"S\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(v) => {
                    let iv = internal(self.tcx, *v);
                    format!("[\"V\",{}]", iv.as_u32())
                }
                ProjectionElem::OpaqueCast(_) => "[\"O\"]".to_string(),
            });
        }
        if v.is_empty() {
            format!("{}", p.local)
        } else {
            format!("[{},{}]", p.local, arr(v))
        }
    }
    fn cval(&mut self, val: imir::ConstValue, ty: ity::Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 12 {
            return "{\"u\":\"depth\"}".into();
        }
        match ty.kind() {
            ity::TyKind::Bool | ity::TyKind::Char | ity::TyKind::Uint(_) | ity::TyKind::Int(_) => {
                let size = match ty.kind() {
                    ity::TyKind::Bool => rustc_abi::Size::from_bytes(1),
                    ity::TyKind::Char => rustc_abi::Size::from_bytes(4),
                    ity::TyKind::Uint(u) => rustc_abi::Size::from_bits(u.bit_width().unwrap_or(64)),
                    ity::TyKind::Int(u) => rustc_abi::Size::from_bits(u.bit_width().unwrap_or(64)),
                    _ => unreachable!(),
                };
                let bits = match val {
                    imir::ConstValue::Scalar(Scalar::Int(i)) => Some(i.to_bits(i.size())),
                    imir::ConstValue::Indirect { alloc_id, offset } => {
                        let a = tcx.global_alloc(alloc_id).unwrap_memory();
                        let r = rustc_middle::mir::interpret::alloc_range(offset, size);
                        a.inner().read_scalar(&tcx, r, false).ok().and_then(|s| match s {
                            Scalar::Int(i) => Some(i.to_bits(i.size())),
                            _ => None,
                        })
                    }
                    _ => None,
                };
                match bits {
                    None => "{\"u\":\"scalar\"}".into(),
                    Some(b) => match ty.kind() {
                        ity::TyKind::Bool => format!("{{\"b\":{}}}", b != 0),
                        ity::TyKind::Char => format!("{{\"c\":{}}}", b),
                        ity::TyKind::Int(_) => {
                            let sh = 128 - size.bits() as u32;
                            format!("{{\"i\":{}}}", ((b << sh) as i128) >> sh)
                        }
                        _ => format!("{{\"i\":{}}}", b),
                    },
                }
            }
            ity::TyKind::Ref(_, inner, _) => {
                // locate pointer (+len)
                let ptr_size = rustc_abi::Size::from_bytes(8);
                let (alloc_id, off, meta): (_, rustc_abi::Size, Option<u64>) = match val {
                    imir::ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        (prov.alloc_id(), off, None)
                    }
                    imir::ConstValue::Slice { alloc_id, meta } => (alloc_id, rustc_abi::Size::ZERO, Some(meta)),
                    imir::ConstValue::Indirect { alloc_id, offset } => {
                        let a = tcx.global_alloc(alloc_id).unwrap_memory();
                        let r = rustc_middle::mir::interpret::alloc_range(offset, ptr_size);
                        let p = match a.inner().read_scalar(&tcx, r, true) {
                            Ok(Scalar::Ptr(p, _)) => p,
                            _ => return "{\"u\":\"ptr\"}".into(),
                        };
                        let (prov, off) = p.into_raw_parts();
                        let wide = matches!(inner.kind(), ity::TyKind::Str | ity::TyKind::Slice(_));
                        let meta = if wide {
                            let r = rustc_middle::mir::interpret::alloc_range(offset + ptr_size, ptr_size);
                            match a.inner().read_scalar(&tcx, r, false) {
                                Ok(Scalar::Int(i)) => Some(i.to_bits(i.size()) as u64),
                                _ => return "{\"u\":\"meta\"}".into(),
                            }
                        } else {
                            None
                        };
                        (prov.alloc_id(), off, meta)
                    }
                    _ => return "{\"u\":\"ref\"}".into(),
                };
                match tcx.global_alloc(alloc_id) {
                    IGlobal::Memory(a) => match inner.kind() {
                        ity::TyKind::Str => {
                            let n = meta.unwrap_or(0) as usize;
                            let o = off.bytes() as usize;
                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                            match std::str::from_utf8(b) {
                                Ok(s) => format!("{{\"s\":{}}}", esc(s)),
                                Err(_) => "{\"u\":\"utf8\"}".into(),
                            }
                        }
                        ity::TyKind::Slice(e) => {
                            let n = meta.unwrap_or(0);
                            let es = tcx
                                .layout_of(ity::TypingEnv::fully_monomorphized().as_query_input(*e))
                                .map(|l| l.size)
                                .unwrap_or(rustc_abi::Size::ZERO);
                            if n > 20000 {
                                return "{\"u\":\"long\"}".into();
                            }
                            let mut v = vec![];
                            for i in 0..n {
                                v.push(self.cval(imir::ConstValue::Indirect { alloc_id, offset: off + es * i }, *e, depth + 1));
                            }
                            let et = self.ty(stable(*e));
                            format!("{{\"r\":{{\"a\":{},\"et\":{et},\"slice\":true}}}}", arr(v))
                        }
                        ity::TyKind::Dynamic(..) => "{\"u\":\"dyn\"}".into(),
                        _ => {
                            let x = self.cval(imir::ConstValue::Indirect { alloc_id, offset: off }, *inner, depth + 1);
                            format!("{{\"r\":{x}}}")
                        }
                    },
                    IGlobal::Static(d) => format!("{{\"static\":{}}}", esc(&tcx.def_path_str(d))),
                    IGlobal::Function { .. } => "{\"u\":\"fn\"}".into(),
                    _ => "{\"u\":\"galloc\"}".into(),
                }
            }
            ity::TyKind::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                let et = self.ty(stable(*e));
                if n > 20000 {
                    return "{\"u\":\"long\"}".into();
                }
                if let imir::ConstValue::Indirect { alloc_id, offset } = val {
                    let es = tcx
                        .layout_of(ity::TypingEnv::fully_monomorphized().as_query_input(*e))
                        .map(|l| l.size)
                        .unwrap_or(rustc_abi::Size::ZERO);
                    let mut v = vec![];
                    for i in 0..n {
                        v.push(self.cval(imir::ConstValue::Indirect { alloc_id, offset: offset + es * i }, *e, depth + 1));
                    }
                    return format!("{{\"a\":{},\"et\":{et}}}", arr(v));
                }
                if n == 0 {
                    return format!("{{\"a\":[],\"et\":{et}}}");
                }
                match tcx.try_destructure_mir_constant_for_user_output(val, ty) {
                    Some(d) => {
                        let mut v = vec![];
                        for (cv, t) in d.fields.iter() {
                            v.push(self.cval(*cv, *t, depth + 1));
                        }
                        format!("{{\"a\":{},\"et\":{et}}}", arr(v))
                    }
                    None => "{\"u\":\"array\"}".into(),
                }
            }
            ity::TyKind::Tuple(..) | ity::TyKind::Adt(..) => {
                if let ity::TyKind::Adt(d, _) = ty.kind() {
                    if d.is_union() {
                        return "{\"u\":\"union\"}".into();
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(val, ty) {
                    Some(d) => {
                        let mut v = vec![];
                        for (cv, t) in d.fields.iter() {
                            v.push(self.cval(*cv, *t, depth + 1));
                        }
                        let var = d.variant.map(|v| v.as_u32().to_string()).unwrap_or("0".into());
                        format!("{{\"v\":{var},\"f\":{}}}", arr(v))
                    }
                    None => {
                        if let imir::ConstValue::ZeroSized = val {
                            "{\"z\":true}".into()
                        } else {
                            "{\"u\":\"adt\"}".into()
                        }
                    }
                }
            }
            ity::TyKind::FnDef(..) | ity::TyKind::Closure(..) => "{\"z\":true}".into(),
            _ => "{\"u\":\"kind\"}".into(),
        }
    }
    fn konst(&mut self, c: &ConstOperand) -> String {
        let t = self.ty(c.const_.ty());
        let v = match c.const_.kind() {
            ConstantKind::ZeroSized => {
                let it = internal(self.tcx, c.const_.ty());
                self.cval(imir::ConstValue::ZeroSized, it, 0)
            }
            _ => {
                let ic = internal(self.tcx, c.const_.clone());
                match ic.eval(self.tcx, ity::TypingEnv::fully_monomorphized(), rustc_span::DUMMY_SP) {
                    Ok(v) => {
                        let it = internal(self.tcx, c.const_.ty());
                        self.cval(v, it, 0)
                    }
                    Err(_) => "{\"u\":\"eval\"}".into(),
                }
            }
        };
        format!("{{\"k\":{v},\"t\":{t}}}")
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(r) => format!("{{\"rc\":{}}}", esc(&format!("{r:?}"))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => format!("[\"addr\",{},{}]", self.place(p), esc(&format!("{k:?}"))),
            Rvalue::Aggregate(k, ops) => {
                let kk = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        let t = self.ty(t);
                        let iv = internal(self.tcx, *v);
                        format!("[\"adt\",{t},{},{}]", iv.as_u32(), f.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                format!("[\"agg\",{kk},{}]", arr(v))
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{b:?}\",{},{}]", self.operand(x), self.operand(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{b:?}\",{},{}]", self.operand(x), self.operand(y)),
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o);
                let t = self.ty(*t);
                format!("[\"cast\",{},{o},{t}]", esc(&format!("{k:?}")))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{m},{}]", self.place(p))
            }
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().unwrap_or(0);
                format!("[\"repeat\",{},{n}]", self.operand(o))
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{u:?}\",{}]", self.operand(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", *m == Mutability::Mut, self.place(p)),
        }
    }
    fn line(&self, s: &rustc_public::ty::Span) -> usize {
        s.get_lines().start_line
    }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let ln = self.line(&s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r);
                        st.push(format!("[\"=\",{p},{r},{ln}]"))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let iv = internal(self.tcx, *variant_index);
                        st.push(format!("[\"sd\",{},{}]", self.place(place), iv.as_u32()))
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{l}]")),
                    StatementKind::Intrinsic(i) => match i {
                        NonDivergingIntrinsic::Assume(o) => st.push(format!("[\"assume\",{}]", self.operand(o))),
                        _ => st.push("[\"copynonoverlapping\"]".into()),
                    },
                    _ => {}
                }
            }
            let ln = self.line(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{v},{t}]")).collect();
                    format!("[\"switch\",{d},{},{}]", arr(br), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{target}]", self.place(place)),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let d = self.place(destination);
                    let tg = target.map(|x| x.to_string()).unwrap_or("null".into());
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(def, ga)) => self.callee(def, &ga),
                            _ => format!("{{\"op\":{}}}", self.operand(func)),
                        },
                        _ => format!("{{\"op\":{}}}", self.operand(func)),
                    };
                    format!("[\"call\",{f},{},{d},{tg},{ln}]", arr(a))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let (k, ops): (String, Vec<String>) = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(len), self.operand(index)])
                        }
                        AssertMessage::Overflow(b, x, y) => {
                            (format!("overflow:{b:?}"), vec![self.operand(x), self.operand(y)])
                        }
                        AssertMessage::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.operand(x)]),
                        AssertMessage::DivisionByZero(x) => ("div0".into(), vec![self.operand(x)]),
                        AssertMessage::RemainderByZero(x) => ("rem0".into(), vec![self.operand(x)]),
                        o => (format!("other:{o:?}").chars().take(40).collect(), vec![]),
                    };
                    format!("[\"assert\",{c},{expected},{},{},{target},{ln}]", esc(&k), arr(ops))
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{t}}}", arr(st)));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pl = self.place(p);
                names.push(format!("[{},{}]", esc(&v.name), pl));
            }
        }
        format!(
            "\"argc\":{},\"spread\":{},\"locals\":{},\"blocks\":{},\"names\":{}",
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            arr(locals),
            arr(blocks),
            arr(names)
        )
    }
}

struct UnsafeBlocks<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<String>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeBlocks<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided)) && !b.span.from_expansion() {
            let sp: rustc_public::ty::Span = stable(b.span);
            self.out.push(format!("{}:{}", sp.get_filename(), sp.get_lines().start_line));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn auto_trait<'tcx>(tcx: TyCtxt<'tcx>, name: &str, t: ity::Ty<'tcx>) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let tr = if name == "Sync" {
        tcx.lang_items().sync_trait()
    } else {
        tcx.get_diagnostic_item(rustc_span::Symbol::intern(name))
    };
    let Some(tr) = tr else { return false };
    let infcx = tcx.infer_ctxt().build(ity::TypingMode::non_body_analysis());
    infcx.type_implements_trait(tr, [t], ity::ParamEnv::empty()).must_apply_modulo_regions()
}

/// Every path of fields from a type to interior mutability.  regex is opaque: its
/// pool of caches does not change what a search returns.
fn cell_paths<'tcx>(tcx: TyCtxt<'tcx>, t: ity::Ty<'tcx>, seen: &mut std::collections::HashSet<ity::Ty<'tcx>>, path: &mut Vec<String>, out: &mut Vec<String>) {
    if !seen.insert(t) || path.len() > 24 {
        return;
    }
    match t.kind() {
        ity::TyKind::Adt(def, args) => {
            let krate = tcx.crate_name(def.did().krate).to_string();
            if krate.starts_with("regex") {
                return;
            }
            if Some(def.did()) == tcx.lang_items().unsafe_cell_type() {
                out.push(path.join("."));
                return;
            }
            let shared = matches!(tcx.def_path_str(def.did()).as_str(), "std::rc::Rc" | "std::sync::Arc" | "std::rc::Weak" | "std::sync::Weak");
            for f in def.all_fields() {
                if shared {
                    // the counters of a shared pointer
                    break;
                }
                let ft = tcx.type_of(f.did).instantiate(tcx, args).skip_norm_wip();
                let ft = tcx
                    .try_normalize_erasing_regions(ity::TypingEnv::fully_monomorphized(), ity::Unnormalized::new_wip(ft))
                    .unwrap_or(ft);
                path.push(format!("{}::{}", tcx.def_path_str(def.did()), f.name));
                cell_paths(tcx, ft, seen, path, out);
                path.pop();
            }
            for a in args.types() {
                cell_paths(tcx, a, seen, path, out);
            }
        }
        ity::TyKind::Ref(_, e, _) | ity::TyKind::Slice(e) | ity::TyKind::Array(e, _) => cell_paths(tcx, *e, seen, path, out),
        ity::TyKind::RawPtr(e, _) => cell_paths(tcx, *e, seen, path, out),
        ity::TyKind::Tuple(es) => {
            for e in es.iter() {
                cell_paths(tcx, e, seen, path, out);
            }
        }
        ity::TyKind::Dynamic(..) => out.push(format!("{}.dyn", path.join("."))),
        _ => {}
    }
}

fn run(tcx: TyCtxt<'_>, out: &str) {
    let descend: Vec<String> = std::env::var("RPHON_DESCEND")
        .unwrap_or_default()
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.to_string())
        .collect();
    let mut d = Dump {
        tcx,
        types: vec![],
        tyidx: HashMap::new(),
        insts: vec![],
        instidx: HashMap::new(),
        queue: VecDeque::new(),
        descend,
        iterq: VecDeque::new(),
        itermap: BTreeMap::new(),
    };
    let env = ity::TypingEnv::fully_monomorphized();
    let mut roots = vec![];
    let mut generic_roots = vec![];
    let mut impls = vec![];
    let only_ty_generic = |did: rustc_span::def_id::DefId| -> bool {
        let g = tcx.generics_of(did);
        (0..g.count()).any(|i| !matches!(g.param_at(i, tcx).kind, ity::GenericParamDefKind::Lifetime))
    };
    let erased = |did: rustc_span::def_id::DefId| -> ity::GenericArgsRef<'_> {
        ity::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
            ity::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => panic!("generic"),
        })
    };
    let mut statics = vec![];
    let mut consts = vec![];
    let mut adts = vec![];
    let mut unsafes = vec![];
    for ldid in tcx.hir_body_owners() {
        let mut v = UnsafeBlocks { tcx, out: vec![] };
        rustc_hir::intravisit::Visitor::visit_body(&mut v, tcx.hir_body_owned_by(ldid));
        for l in v.out {
            unsafes.push(format!("{{\"in\":{},\"what\":\"unsafe block\",\"at\":{}}}", esc(&tcx.def_path_str(ldid.to_def_id())), esc(&l)));
        }
    }
    for ldid in tcx.hir_crate_items(()).definitions() {
        let did = ldid.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let vis = tcx.effective_visibilities(()).is_reachable(ldid);
                let gen = only_ty_generic(did);
                let t = if gen {
                    tcx.type_of(did).instantiate_identity().skip_norm_wip()
                } else {
                    tcx.type_of(did).instantiate(tcx, erased(did)).skip_norm_wip()
                };
                let (send, sync, mut cells) = (auto_trait(tcx, "Send", t), auto_trait(tcx, "Sync", t), vec![]);
                let mut seen = std::collections::HashSet::new();
                let mut path = vec![];
                cell_paths(tcx, t, &mut seen, &mut path, &mut cells);
                let sp: rustc_public::ty::Span = stable(tcx.def_span(did));
                let fields: Vec<String> = tcx.adt_def(did).all_fields().map(|f| {
                    format!("[{},{}]", esc(f.name.as_str()), esc(&format!("{}", tcx.type_of(f.did).instantiate_identity().skip_norm_wip())))
                }).collect();
                adts.push(format!(
                    "{{\"path\":{},\"pub\":{vis},\"generic\":{gen},\"kind\":{},\"send\":{send},\"sync\":{sync},\"cells\":{},\"fields\":{},\"file\":{},\"line\":{}}}",
                    esc(&tcx.def_path_str(did)),
                    esc(&format!("{:?}", tcx.def_kind(did))),
                    arr(cells.iter().map(|c| esc(c))),
                    arr(fields),
                    esc(&sp.get_filename().to_string()),
                    sp.get_lines().start_line
                ));
            }
            DefKind::Fn | DefKind::AssocFn => {
                // skip trait method declarations without Self
                if let Some(tr) = tcx.trait_of_assoc(did) {
                    let _ = tr;
                    continue;
                }
                let p = tcx.def_path_str(did);
                if only_ty_generic(did) {
                    generic_roots.push(esc(&p));
                    continue;
                }
                let a = erased(did);
                if let Ok(Some(i)) = ity::Instance::try_resolve(tcx, env, did, a) {
                    let si: Instance = stable(i);
                    let vis = tcx.effective_visibilities(()).is_reachable(ldid);
                    let id = d.inst(si);
                    roots.push(format!("{{\"inst\":{id},\"path\":{},\"reach\":{vis}}}", esc(&p)));
                }
            }
            DefKind::Impl { of_trait } => {
                let self_ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let p = if of_trait {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    format!("{}", tr.print_only_trait_path())
                } else {
                    String::new()
                };
                if of_trait && !tcx.impl_trait_header(did).safety.is_safe() {
                    unsafes.push(format!("{{\"in\":{},\"what\":\"unsafe impl\",\"at\":\"\"}}", esc(&format!("{p} for {self_ty}"))));
                }
                let auto = of_trait && tcx.is_builtin_derived(did);
                let sp: rustc_public::ty::Span = stable(tcx.def_span(did));
                impls.push(format!(
                    "{{\"trait\":{},\"self\":{},\"derived\":{auto},\"file\":{},\"line\":{}}}",
                    esc(&p),
                    esc(&format!("{self_ty}")),
                    esc(&sp.get_filename().to_string()),
                    sp.get_lines().start_line
                ));
                if of_trait && !only_ty_generic(did) {
                    let a = erased(did);
                    let tr = tcx.impl_trait_ref(did).instantiate(tcx, a).skip_norm_wip();
                    for item in tcx.associated_items(tr.def_id).in_definition_order() {
                        if !matches!(item.kind, ity::AssocKind::Fn { .. }) {
                            continue;
                        }
                        // default methods of local traits only (others are std plumbing)
                        if !tr.def_id.is_local() {
                            continue;
                        }
                        let g = tcx.generics_of(item.def_id);
                        let own_ty = g.own_params.iter().any(|p| !matches!(p.kind, ity::GenericParamDefKind::Lifetime));
                        if own_ty {
                            continue;
                        }
                        let full = ity::GenericArgs::for_item(tcx, item.def_id, |p, _| {
                            if (p.index as usize) < tr.args.len() {
                                tr.args[p.index as usize]
                            } else {
                                tcx.lifetimes.re_erased.into()
                            }
                        });
                        if let Ok(Some(i)) = ity::Instance::try_resolve(tcx, env, item.def_id, full) {
                            let si: Instance = stable(i);
                            let id = d.inst(si);
                            roots.push(format!(
                                "{{\"inst\":{id},\"path\":{},\"reach\":true,\"impl_self\":{},\"trait_item\":{}}}",
                                esc(&tcx.def_path_str(i.def_id())),
                                esc(&format!("{self_ty}")),
                                esc(&tcx.def_path_str(item.def_id))
                            ));
                        }
                    }
                }
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let mut cells = vec![];
                let mut seen = std::collections::HashSet::new();
                cell_paths(tcx, t, &mut seen, &mut vec![], &mut cells);
                let sp: rustc_public::ty::Span = stable(tcx.def_span(did));
                statics.push(format!(
                    "{{\"path\":{},\"mut\":{},\"ty\":{},\"cells\":{},\"tls\":{},\"file\":{},\"line\":{}}}",
                    esc(&tcx.def_path_str(did)),
                    mutability.is_mut(),
                    esc(&format!("{t}")),
                    arr(cells.iter().map(|c| esc(c))),
                    tcx.is_thread_local_static(did),
                    esc(&sp.get_filename().to_string()),
                    sp.get_lines().start_line
                ));
            }
            DefKind::Const { .. } => {
                if !only_ty_generic(did) {
                    let p = tcx.def_path_str(did);
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let v = match tcx.const_eval_poly(did) {
                        Ok(v) => d.cval(v, tcx.erase_and_anonymize_regions(t), 0),
                        Err(_) => "{\"u\":\"eval\"}".into(),
                    };
                    let vis = tcx.effective_visibilities(()).is_reachable(ldid);
                    consts.push(format!("{{\"path\":{},\"ty\":{},\"pub\":{vis},\"v\":{v}}}", esc(&p), esc(&format!("{t}"))));
                }
            }
            _ => {}
        }
    }
    let mut fns: BTreeMap<usize, String> = BTreeMap::new();
    let mut rounds = 0;
    loop {
        let n = match d.queue.pop_front() {
            Some(n) => n,
            None => {
                // iterator protocols of every type met so far
                let mut any = false;
                rounds += 1;
                if rounds > 4 {
                    break;
                }
                while let Some(t) = d.iterq.pop_front() {
                    any = true;
                    d.iter_info(t);
                }
                if any {
                    continue;
                }
                break;
            }
        };
        let i = d.insts[n];
        let ii = internal(tcx, i);
        let did = ii.def_id();
        let path = tcx.def_path_str(did);
        let krate = tcx.crate_name(did.krate).to_string();
        let local = did.is_local();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
            InstanceKind::LlvmIntrinsic => "llvm",
        };
        let shim = match ii.def {
            ity::InstanceKind::Item(_) => String::new(),
            o => format!("{o:?}").split('(').next().unwrap_or("").to_string(),
        };
        let is_closure = tcx.def_kind(did) == DefKind::Closure;
        let full = format!("{}", tcx.def_path_str(did));
        let vpath = {
            // stable path: krate::path with impl types
            let s = full.clone();
            s
        };
        let args = {
            let a = i.args();
            d.args_json(&a)
        };
        let target = if let ity::InstanceKind::Shim(_) = ii.def { String::new() } else { String::new() };
        let _ = target;
        let trait_item = tcx
            .opt_associated_item(did)
            .and_then(|a| a.trait_item_def_id())
            .map(|t| esc(&tcx.def_path_str(t)))
            .unwrap_or("null".into());
        let want = local
            || d.descend.iter().any(|p| path.starts_with(p.as_str()) || full.starts_with(p.as_str()))
            || is_closure;
        let sp: rustc_public::ty::Span = stable(tcx.def_span(did));
        let mut s = format!(
            "{{\"id\":{n},\"path\":{},\"crate\":{},\"local\":{local},\"kind\":\"{kind}\",\"shim\":{},\"closure\":{is_closure},\"tc\":{},\"unsafe\":{},\"args\":{args},\"trait_item\":{trait_item},\"file\":{},\"line\":{}",
            esc(&vpath),
            esc(&krate),
            esc(&shim),
            ii.def.requires_caller_location(tcx),
            matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && !tcx.fn_sig(did).skip_binder().safety().is_safe(),
            esc(&sp.get_filename().to_string()),
            sp.get_lines().start_line
        );
        // signature types
        if kind == "item" && want {
            if let Some(b) = i.body() {
                let bj = d.body(&b);
                s.push(',');
                s.push_str(&bj);
            }
        }
        s.push('}');
        fns.insert(n, s);
    }
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"crate\":{},\"roots\":{},\n\"generic\":{},\n\"impls\":{},\n\"statics\":{},\n\"adts\":{},\n\"unsafes\":{},\n\"consts\":{},\n\"iters\":{{{}}},\n\"types\":[\n{}\n],\n\"fns\":[\n{}\n]}}",
        esc(&tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string()),
        arr(roots),
        arr(generic_roots),
        arr(impls),
        arr(statics),
        arr(adts),
        arr(unsafes),
        arr(consts),
        d.itermap.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","),
        d.types.join(",\n"),
        fns.values().cloned().collect::<Vec<_>>().join(",\n")
    );
    std::fs::write(out, o).expect("write dump");
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("RPHON_CRATE").unwrap_or_else(|_| "rphonetic".into());
    let cname = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let out = std::env::var("RPHON_OUT").ok();
    let is_target = cname.as_deref() == Some(want.as_str()) && out.is_some();
    if is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
        args.push("-Awarnings".into());
        let out = out.unwrap();
        let r = rustc_public::run_with_tcx!(&args, |tcx: TyCtxt<'_>| {
            run(tcx, &out);
            ControlFlow::<(), ()>::Continue(())
        });
        if r.is_err() {
            std::process::exit(101);
        }
    } else {
        let r = rustc_public::run_with_tcx!(&args, |_tcx: TyCtxt<'_>| ControlFlow::<(), ()>::Continue(()));
        match r {
            Ok(_) | Err(rustc_public::CompilerError::Skipped) => {}
            Err(_) => std::process::exit(101),
        }
    }
}
