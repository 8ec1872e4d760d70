#![feature(rustc_private)]
// MIR extractor: a rustc wrapper which, for the crates named in MIRDUMP_CRATES, walks the
// program from the crate's own functions and dumps monomorphic MIR with resolved callees as
// JSON.  It executes nothing from the analysed crate.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_infer;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashSet<String>,
    types: BTreeMap<String, String>,
    tyqueue: Vec<Ty<'tcx>>,
    externs: BTreeMap<String, String>,
}

fn env<'tcx>() -> TypingEnv<'tcx> {
    TypingEnv::fully_monomorphized()
}

/// every type a value of type t is made of, through fields, pointers and type arguments
fn reach<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, seen: &mut HashSet<Ty<'tcx>>, out: &mut std::collections::BTreeSet<String>) {
    let t = tcx.erase_and_anonymize_regions(t);
    if seen.len() > 20000 || !seen.insert(t) { return; }
    match t.kind() {
        ty::Adt(def, args) => {
            out.insert(ty::print::with_no_trimmed_paths!(tcx.def_path_str(def.did())));
            for a in args.types() { reach(tcx, a, seen, out); }
            for v in def.variants() {
                for f in v.fields.iter() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let ft = tcx.try_normalize_erasing_regions(env(), ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                    reach(tcx, ft, seen, out);
                }
            }
        }
        ty::RawPtr(p, _) => reach(tcx, *p, seen, out),
        ty::Ref(_, p, m) => {
            if m.is_mut() { out.insert(ty::print::with_no_trimmed_paths!(format!("&mut {p}"))); }
            reach(tcx, *p, seen, out)
        }
        ty::Slice(p) | ty::Array(p, _) => reach(tcx, *p, seen, out),
        ty::Pat(p, _) => reach(tcx, *p, seen, out),
        ty::Tuple(ts) => for x in ts.iter() { reach(tcx, x, seen, out); },
        ty::Dynamic(..) => { out.insert("dyn".into()); }
        _ => {}
    }
}

fn implements<'tcx>(tcx: TyCtxt<'tcx>, tr: DefId, t: Ty<'tcx>) -> bool {
    let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
    infcx.type_implements_trait(tr, [t], ty::ParamEnv::empty()).must_apply_modulo_regions()
}

impl<'tcx> Cx<'tcx> {
    fn tystr(&mut self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let s = ty::print::with_no_trimmed_paths!(format!("{t}"));
        if !self.types.contains_key(&s) {
            self.types.insert(s.clone(), "null".to_string());
            self.tyqueue.push(t);
        }
        s
    }

    fn emit_types(&mut self) {
        while let Some(t) = self.tyqueue.pop() {
            let s = ty::print::with_no_trimmed_paths!(format!("{t}"));
            let j = match t.kind() {
                ty::Adt(def, args) => {
                    let path = self.tcx.def_path_str(def.did());
                    let kind = if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    };
                    let krate = self.tcx.crate_name(def.did().krate).to_string();
                    let mut vs = vec![];
                    let discrs: Vec<u128> = if def.is_enum() {
                        def.discriminants(self.tcx).map(|(_, d)| d.val).collect()
                    } else {
                        vec![0]
                    };
                    // std internals are modelled by name: only open up local types and
                    // the plain std enums/structs the analysis looks inside of
                    let open = krate.starts_with("graphrox")
                        || krate == "c_graphrox"
                        || def.is_enum()
                        || matches!(path.as_str(), "std::ops::Range" | "std::ops::RangeInclusive" | "std::num::Wrapping" | "core::ops::Range" | "core::num::Wrapping");
                    if open {
                        for (i, v) in def.variants().iter().enumerate() {
                            let mut fs = vec![];
                            for f in v.fields.iter() {
                                let ft = f.ty(self.tcx, args).skip_norm_wip();
                                let ft = self
                                    .tcx
                                    .try_normalize_erasing_regions(env(), ty::Unnormalized::new_wip(ft))
                                    .unwrap_or(ft);
                                let fts = self.tystr(ft);
                                fs.push(format!(
                                    "[{},{},{}]",
                                    esc(f.name.as_str()),
                                    esc(&fts),
                                    if f.vis.is_public() { "true" } else { "false" }
                                ));
                            }
                            vs.push(format!(
                                "{{\"name\":{},\"discr\":\"{}\",\"fields\":[{}]}}",
                                esc(v.name.as_str()),
                                discrs[i],
                                fs.join(",")
                            ));
                        }
                    }
                    let mut targs = vec![];
                    for a in args.types() {
                        let x = self.tystr(a);
                        targs.push(esc(&x));
                    }
                    format!(
                        "{{\"kind\":\"{kind}\",\"path\":{},\"crate\":{},\"open\":{open},\"variants\":[{}],\"targs\":[{}],\"repr_c\":{}}}",
                        esc(&path), esc(&krate), vs.join(","), targs.join(","), def.repr().c()
                    )
                }
                ty::Ref(_, inner, m) => {
                    let i = self.tystr(*inner);
                    format!("{{\"kind\":\"ref\",\"mut\":{},\"to\":{}}}", m.is_mut(), esc(&i))
                }
                ty::RawPtr(inner, m) => {
                    let i = self.tystr(*inner);
                    format!("{{\"kind\":\"ptr\",\"mut\":{},\"to\":{}}}", m.is_mut(), esc(&i))
                }
                ty::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|x| { let y = self.tystr(x); esc(&y) }).collect();
                    format!("{{\"kind\":\"tuple\",\"elems\":[{}]}}", v.join(","))
                }
                ty::Array(t, n) => {
                    let i = self.tystr(*t);
                    let len = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                    format!("{{\"kind\":\"array\",\"to\":{},\"len\":{}}}", esc(&i), len)
                }
                ty::Slice(t) => {
                    let i = self.tystr(*t);
                    format!("{{\"kind\":\"slice\",\"to\":{}}}", esc(&i))
                }
                ty::Int(_) | ty::Uint(_) => "{\"kind\":\"int\"}".into(),
                ty::Float(_) => "{\"kind\":\"float\"}".into(),
                ty::Bool => "{\"kind\":\"bool\"}".into(),
                ty::Char => "{\"kind\":\"char\"}".into(),
                ty::Str => "{\"kind\":\"str\"}".into(),
                ty::Never => "{\"kind\":\"never\"}".into(),
                ty::Closure(_, args) => {
                    let v: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| { let y = self.tystr(x); esc(&y) }).collect();
                    format!("{{\"kind\":\"closure\",\"upvars\":[{}]}}", v.join(","))
                }
                ty::FnDef(did, _) => format!("{{\"kind\":\"fndef\",\"path\":{}}}", esc(&self.tcx.def_path_str(*did))),
                ty::FnPtr(..) => "{\"kind\":\"fnptr\"}".into(),
                ty::Dynamic(..) => "{\"kind\":\"dyn\"}".into(),
                _ => "{\"kind\":\"other\"}".into(),
            };
            self.types.insert(s, j);
        }
    }

    fn inst_key(&mut self, inst: Instance<'tcx>) -> String {
        let a = self.tcx.erase_and_anonymize_regions(inst.args);
        let p = self.tcx.def_path_str_with_args(inst.def_id(), a);
        let p = ty::print::with_no_trimmed_paths!({
            let _ = &p;
            self.tcx.def_path_str_with_args(inst.def_id(), a)
        });
        let tag = match inst.def {
            ty::InstanceKind::Item(_) => String::new(),
            _ => format!("#{}", variant_name(&inst.def)),
        };
        // closures: make unique by def path + span
        if self.tcx.is_closure_like(inst.def_id()) {
            let sp = self.tcx.def_span(inst.def_id());
            let loc = self.tcx.sess.source_map().span_to_diagnostic_string(sp);
            let par = self.tcx.typeck_root_def_id(inst.def_id());
            let targs: Vec<String> = inst
                .args
                .as_closure()
                .parent_args()
                .iter()
                .filter_map(|g| g.as_type())
                .map(|t| ty::print::with_no_trimmed_paths!(format!("{t}")))
                .collect();
            return format!("closure@{}<{}>@{}{}", self.tcx.def_path_str(par), targs.join(","), loc, tag);
        }
        format!("{p}{tag}")
    }

    fn is_local_crate(&self, did: DefId) -> bool {
        did.is_local()
    }

    fn want_body(&self, inst: Instance<'tcx>) -> bool {
        match inst.def {
            ty::InstanceKind::Item(did) => {
                if self.tcx.is_closure_like(did) {
                    return true;
                }
                if self.is_local_crate(did) {
                    return self.tcx.is_mir_available(did);
                }
                false
            }
            _ => false,
        }
    }

    fn request(&mut self, inst: Instance<'tcx>) -> (String, bool) {
        let key = self.inst_key(inst);
        let want = self.want_body(inst);
        if want && self.seen.insert(key.clone()) {
            self.queue.push_back(inst);
        }
        (key, want)
    }

    fn resolve(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        Instance::try_resolve(self.tcx, env(), did, args).ok().flatten()
    }

    // function-like values appearing as type arguments: make their bodies available
    fn callable_json(&mut self, t: Ty<'tcx>) -> Option<String> {
        match t.kind() {
            ty::Closure(did, args) => {
                let inst = Instance::new_raw(*did, self.tcx.erase_and_anonymize_regions(*args));
                let (k, w) = self.request(inst);
                Some(format!("{{\"closure\":true,\"key\":{},\"body\":{}}}", esc(&k), w))
            }
            ty::FnDef(did, args) => {
                let args = args.no_bound_vars()?;
                let j = self.fn_json(*did, args);
                Some(j)
            }
            ty::Ref(_, inner, _) => self.callable_json(*inner),
            _ => None,
        }
    }

    fn fn_json(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> String {
        let args = self.tcx.erase_and_anonymize_regions(args);
        let base = ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(did));
        let mut o = format!("{{\"path\":{}", esc(&base));
        if let Some(ctor) = match self.tcx.def_kind(did) {
            DefKind::Ctor(..) => Some(()),
            _ => None,
        } {
            let _ = ctor;
            let parent = self.tcx.parent(did);
            let (adt, vidx) = match self.tcx.def_kind(parent) {
                DefKind::Variant => {
                    let adt = self.tcx.parent(parent);
                    let idx = self
                        .tcx
                        .adt_def(adt)
                        .variants()
                        .iter()
                        .position(|v| v.def_id == parent)
                        .unwrap_or(0);
                    (adt, idx)
                }
                _ => (parent, 0),
            };
            let t = self.tcx.type_of(adt).instantiate(self.tcx, args).skip_norm_wip();
            let ts = self.tystr(t);
            let _ = write!(o, ",\"ctor\":[{},{}]", esc(&ts), vidx);
        }
        let mut targs = vec![];
        let mut calls = vec![];
        for g in args.iter() {
            if let Some(t) = g.as_type() {
                let ts = self.tystr(t);
                targs.push(esc(&ts));
                calls.push(self.callable_json(t).unwrap_or("null".into()));
            } else if let Some(c) = g.as_const() {
                targs.push(esc(&format!("const {c}")));
                calls.push("null".into());
            }
        }
        let _ = write!(o, ",\"targs\":[{}],\"callables\":[{}]", targs.join(","), calls.join(","));
        let tr = self.tcx.trait_of_assoc(did);
        if let Some(tr) = tr {
            let _ = write!(o, ",\"trait\":{}", esc(&self.tcx.def_path_str(tr)));
        }
        match self.resolve(did, args) {
            Some(inst) => {
                let (k, w) = self.request(inst);
                let rp = ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(inst.def_id()));
                let cr = self.tcx.crate_name(inst.def_id().krate).to_string();
                let _ = write!(o, ",\"key\":{},\"body\":{},\"rpath\":{},\"crate\":{}", esc(&k), w, esc(&rp), esc(&cr));
                let kind = variant_name(&inst.def);
                let _ = write!(o, ",\"ikind\":\"{kind}\"");
                // resolved impl's Self type, to name trait implementations
                if let Some(imp) = self.tcx.impl_of_assoc(inst.def_id()) {
                    let st = self.tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    let sts = ty::print::with_no_trimmed_paths!(format!("{st}"));
                    let _ = write!(o, ",\"impl_self\":{}", esc(&sts));
                }
                if !w {
                    self.externs.insert(k, String::new());
                }
            }
            None => {
                let _ = write!(o, ",\"key\":null,\"body\":false");
            }
        }
        // iterator adapters and consumers: make <I as Iterator>::next available for local I
        self.extra_traits(did, args, &mut o);
        o.push('}');
        o
    }

    // For std generic functions that take a type implementing Iterator / IntoIterator /
    // Display / Clone / PartialEq / Default ..., expose the local implementations.
    fn extra_traits(&mut self, did: DefId, args: GenericArgsRef<'tcx>, o: &mut String) {
        if self.is_local_crate(did) {
            return;
        }
        let mut extra: Vec<(String, String)> = vec![];
        let tcx = self.tcx;
        let items = [
            ("into_iter", tcx.lang_items().into_iter_fn()),
            ("next", tcx.lang_items().next_fn()),
        ];
        let mut tys: Vec<Ty<'tcx>> = vec![];
        for g in args.iter() {
            if let Some(t) = g.as_type() {
                for sub in t.walk() {
                    if let Some(st) = sub.as_type() {
                        if !tys.contains(&st) {
                            tys.push(st);
                        }
                    }
                }
            }
        }
        for t in tys.iter() {
            for (nm, it) in items.iter() {
                let Some(fd) = it else { continue };
                let tr = tcx.trait_of_assoc(*fd).unwrap();
                let a = tcx.mk_args(&[(*t).into()]);
                // only attempt when the type implements the trait
                if tcx.generics_of(tr).own_params.len() != 1 {
                    continue;
                }
                let implements = {
                    let mut ok = false;
                    if let Some(ad) = base_adt(*t) {
                        if self.is_local_crate(ad) {
                            ok = tcx
                                .non_blanket_impls_for_ty(tr, *t)
                                .next()
                                .is_some();
                        }
                    }
                    ok
                };
                if !implements {
                    continue;
                }
                if let Some(inst) = self.resolve(*fd, a) {
                    let (k, w) = self.request(inst);
                    if w {
                        let ts = self.tystr(*t);
                        extra.push((format!("{nm}:{ts}"), k));
                    }
                }
            }
        }
        if !extra.is_empty() {
            let v: Vec<String> = extra
                .iter()
                .map(|(a, b)| format!("{}:{}", esc(a), esc(b)))
                .collect();
            let _ = write!(o, ",\"extra\":{{{}}}", v.join(","));
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, t) => {
                    let ts = self.tystr(t);
                    let _ = write!(o, ",[\"f\",{},{}]", f.as_usize(), esc(&ts));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, ",[\"c\",{offset},{min_length},{from_end}]");
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"s\",{from},{to},{from_end}]");
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(o, ",[\"d\",{}]", v.as_usize());
                }
                ProjectionElem::OpaqueCast(_) => o.push_str(",[\"o\"]"),
                _ => o.push_str(",[\"?\"]"),
            }
        }
        o.push(']');
        o
    }

    fn scalar_int(&mut self, bits: u128, t: Ty<'tcx>, size: u64) -> String {
        match t.kind() {
            ty::Int(_) => {
                let v = if size >= 16 { bits as i128 } else {
                    let sh = 128 - 8 * size;
                    ((bits << sh) as i128) >> sh
                };
                format!("\"{v}\"")
            }
            _ => format!("\"{bits}\""),
        }
    }

    // read a constant value of type t out of an allocation
    fn alloc_val(&mut self, aid: rustc_middle::mir::interpret::AllocId, off: u64, t: Ty<'tcx>, depth: usize) -> Option<String> {
        if depth > 6 {
            return None;
        }
        let tcx = self.tcx;
        let GlobalAlloc::Memory(a) = tcx.try_get_global_alloc(aid)? else { return None };
        let a = a.inner();
        let lay = tcx.layout_of(env().as_query_input(t)).ok()?;
        let size = lay.size.bytes();
        let ts = self.tystr(t);
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) => {
                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + size) as usize);
                let mut b: u128 = 0;
                for (i, x) in bytes.iter().enumerate() {
                    b |= (*x as u128) << (8 * i);
                }
                let v = self.scalar_int(b, t, size);
                Some(format!("{{\"ty\":{},\"bits\":{}}}", esc(&ts), v))
            }
            ty::Tuple(ts2) => {
                let mut v = vec![];
                for (i, et) in ts2.iter().enumerate() {
                    let fo = lay.fields.offset(i).bytes();
                    v.push(self.alloc_val(aid, off + fo, et, depth + 1)?);
                }
                Some(format!("{{\"ty\":{},\"fields\":[{}]}}", esc(&ts), v.join(",")))
            }
            ty::Array(et, n) => {
                let n = n.try_to_target_usize(tcx)?;
                if n > 4096 {
                    return None;
                }
                let el = tcx.layout_of(env().as_query_input(*et)).ok()?.size.bytes();
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.alloc_val(aid, off + i * el, *et, depth + 1)?);
                }
                Some(format!("{{\"ty\":{},\"elems\":[{}]}}", esc(&ts), v.join(",")))
            }
            ty::Adt(d, args) if d.is_struct() => {
                let mut v = vec![];
                for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let fo = lay.fields.offset(i).bytes();
                    v.push(self.alloc_val(aid, off + fo, ft, depth + 1)?);
                }
                Some(format!("{{\"ty\":{},\"fields\":[{}]}}", esc(&ts), v.join(",")))
            }
            ty::Ref(_, inner, _) => {
                // pointer stored in the allocation
                let prov = a.provenance().ptrs().iter().find(|(o, _)| o.bytes() == off).map(|(_, p)| *p)?;
                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + 8) as usize);
                let mut po: u64 = 0;
                for (i, x) in bytes.iter().enumerate() {
                    po |= (*x as u64) << (8 * i);
                }
                let meta = if size == 16 {
                    let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter((off + 8) as usize..(off + 16) as usize);
                    let mut m: u64 = 0;
                    for (i, x) in bytes.iter().enumerate() {
                        m |= (*x as u64) << (8 * i);
                    }
                    Some(m)
                } else {
                    None
                };
                self.pointee(prov.alloc_id(), po, *inner, meta, &ts, depth + 1)
            }
            _ => None,
        }
    }

    fn pointee(&mut self, aid: rustc_middle::mir::interpret::AllocId, off: u64, inner: Ty<'tcx>, meta: Option<u64>, ts: &str, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        match inner.kind() {
            ty::Str => {
                let GlobalAlloc::Memory(a) = tcx.try_get_global_alloc(aid)? else { return None };
                let n = meta?;
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize);
                Some(format!("{{\"ty\":{},\"str\":{}}}", esc(ts), esc(&String::from_utf8_lossy(b))))
            }
            ty::Slice(et) => {
                let n = meta?;
                if n > 4096 {
                    return None;
                }
                let el = tcx.layout_of(env().as_query_input(*et)).ok()?.size.bytes();
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.alloc_val(aid, off + i * el, *et, depth)?);
                }
                let its = self.tystr(inner);
                Some(format!("{{\"ty\":{},\"ref\":{{\"ty\":{},\"elems\":[{}]}}}}", esc(ts), esc(&its), v.join(",")))
            }
            _ => {
                let v = self.alloc_val(aid, off, inner, depth)?;
                Some(format!("{{\"ty\":{},\"ref\":{}}}", esc(ts), v))
            }
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let ts = self.tystr(t);
        if let ty::FnDef(did, args) = t.kind() {
            if let Some(args) = args.no_bound_vars() {
                let f = self.fn_json(*did, args);
                return format!("{{\"ty\":{},\"fn\":{}}}", esc(&ts), f);
            }
        }
        if let ty::Closure(..) = t.kind() {
            let f = self.callable_json(t).unwrap_or("null".into());
            return format!("{{\"ty\":{},\"fn\":{}}}", esc(&ts), f);
        }
        let name = match c.const_ {
            mir::Const::Unevaluated(u, _) if u.promoted.is_none() => {
                Some(self.tcx.def_path_str(u.def))
            }
            _ => None,
        };
        let tcx = self.tcx;
        let val = c.const_.eval(tcx, env(), c.span);
        let r = match val {
            Ok(ConstValue::Scalar(Scalar::Int(i))) => {
                let v = self.scalar_int(i.to_bits(i.size()), t, i.size().bytes());
                match t.kind() {
                    ty::RawPtr(..) | ty::Ref(..) => Some(format!("{{\"ty\":{},\"addr\":{}}}", esc(&ts), v)),
                    ty::Adt(d, args) if d.is_struct() => {
                        // newtype constant
                        let fs: Vec<_> = d.non_enum_variant().fields.iter().collect();
                        let mut out = None;
                        let mut parts = vec![];
                        let mut good = true;
                        for f in fs {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let l = tcx.layout_of(env().as_query_input(ft)).ok();
                            match l {
                                Some(l) if l.size.bytes() == i.size().bytes() && out.is_none() => {
                                    let fts = self.tystr(ft);
                                    let v = self.scalar_int(i.to_bits(i.size()), ft, i.size().bytes());
                                    out = Some(());
                                    parts.push(format!("{{\"ty\":{},\"bits\":{}}}", esc(&fts), v));
                                }
                                Some(l) if l.size.bytes() == 0 => {
                                    let fts = self.tystr(ft);
                                    parts.push(format!("{{\"ty\":{},\"zst\":true}}", esc(&fts)));
                                }
                                _ => good = false,
                            }
                        }
                        if good { Some(format!("{{\"ty\":{},\"fields\":[{}]}}", esc(&ts), parts.join(","))) } else { None }
                    }
                    ty::Adt(d, _) if d.is_enum() => Some(format!("{{\"ty\":{},\"enumbits\":{}}}", esc(&ts), v)),
                    _ => Some(format!("{{\"ty\":{},\"bits\":{}}}", esc(&ts), v)),
                }
            }
            Ok(ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, off) = p.into_raw_parts();
                match t.kind() {
                    ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                        self.pointee(prov.alloc_id(), off.bytes(), *inner, None, &ts, 0)
                    }
                    _ => None,
                }
            }
            Ok(ConstValue::ZeroSized) => Some(format!("{{\"ty\":{},\"zst\":true}}", esc(&ts))),
            Ok(ConstValue::Slice { alloc_id, meta }) => match t.kind() {
                ty::Ref(_, inner, _) => self.pointee(alloc_id, 0, *inner, Some(meta), &ts, 0),
                _ => None,
            },
            Ok(ConstValue::Indirect { alloc_id, offset }) => self.alloc_val(alloc_id, offset.bytes(), t, 0),
            Err(_) => None,
        };
        let mut r = r.unwrap_or_else(|| format!("{{\"ty\":{},\"opaque\":{}}}", esc(&ts), esc(&format!("{:?}", c.const_))));
        if let Some(n) = name {
            r.pop();
            let _ = write!(r, ",\"name\":{}}}", esc(&n));
        }
        r
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c)),
            #[allow(unreachable_patterns)]
            other => format!("[\"?\",{}]", esc(&format!("{other:?}"))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(op, ..) => format!("[\"use\",{}]", self.operand(op)),
            Rvalue::Repeat(op, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(op), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ptr\",{}]", self.place(p)),
            Rvalue::Cast(k, op, t) => {
                let ts = self.tystr(*t);
                let extra = if let Operand::Constant(c) = op {
                    let _ = c;
                    ""
                } else { "" };
                let _ = extra;
                format!("[\"cast\",{},{},{}]", esc(&format!("{k:?}")), self.operand(op), esc(&ts))
            }
            Rvalue::BinaryOp(b, ops) => {
                let (x, y) = (&ops.0, &ops.1);
                format!("[\"bin\",{},{},{}]", esc(&format!("{b:?}")), self.operand(x), self.operand(y))
            }
            Rvalue::UnaryOp(u, op) => format!("[\"un\",{},{}]", esc(&format!("{u:?}")), self.operand(op)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => {
                        let ts = self.tystr(*t);
                        format!("[\"array\",{}]", esc(&ts))
                    }
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(did, v, args, _, fi) => {
                        let t = self.tcx.type_of(*did).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.tcx.try_normalize_erasing_regions(env(), ty::Unnormalized::new_wip(t)).unwrap_or(t);
                        let ts = self.tystr(t);
                        format!("[\"adt\",{},{},{}]", esc(&ts), v.as_usize(), fi.map(|x| x.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(did, args) => {
                        let t = Ty::new_closure(self.tcx, *did, args);
                        let c = self.callable_json(t).unwrap_or("null".into());
                        let ts = self.tystr(t);
                        format!("[\"closure\",{},{}]", esc(&ts), c)
                    }
                    AggregateKind::RawPtr(t, m) => {
                        let ts = self.tystr(*t);
                        format!("[\"rawptr\",{},{}]", esc(&ts), m.is_mut())
                    }
                    other => format!("[\"?\",{}]", esc(&format!("{other:?}"))),
                };
                format!("[\"agg\",{},[{}]]", kj, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            other => format!("[\"?\",{}]", esc(&format!("{other:?}"))),
        }
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        let f = match f.find("graphrox-") { Some(i) if !f.starts_with("/rustc") => f[i..].to_string(), _ => f };
        format!("{}:{}", f, lo.line)
    }

    fn body(&mut self, inst: Instance<'tcx>, key: &str) -> String {
        let tcx = self.tcx;
        let body = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env(),
            ty::EarlyBinder::bind(tcx, body.clone()),
        );
        let mut o = String::new();
        let did = inst.def_id();
        let _ = write!(
            o,
            "{{\"key\":{},\"path\":{},\"crate\":{},\"span\":{},\"argc\":{}",
            esc(key),
            esc(&ty::print::with_no_trimmed_paths!(tcx.def_path_str(did))),
            esc(tcx.crate_name(did.krate).as_str()),
            esc(&self.span(body.span)),
            body.arg_count
        );
        let names: BTreeMap<usize, String> = body
            .var_debug_info
            .iter()
            .filter_map(|v| match v.value {
                VarDebugInfoContents::Place(p) if p.projection.is_empty() => {
                    Some((p.local.as_usize(), v.name.to_string()))
                }
                _ => None,
            })
            .collect();
        let mut ls = vec![];
        for (i, l) in body.local_decls.iter_enumerated() {
            let t = self.tystr(l.ty);
            ls.push(format!(
                "[{},{}]",
                esc(&t),
                names.get(&i.as_usize()).map(|n| esc(n)).unwrap_or("null".into())
            ));
        }
        let _ = write!(o, ",\"locals\":[{}]", ls.join(","));
        if let Some(sa) = body.spread_arg {
            let _ = write!(o, ",\"spread\":{}", sa.as_usize());
        }
        let mut bs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut ss = vec![];
            for s in bb.statements.iter() {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1);
                        ss.push(format!("[\"=\",{},{},{}]", p, r, esc(&sp)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(format!("[\"sd\",{},{},{}]", p, variant_index.as_usize(), esc(&sp)));
                    }
                    StatementKind::StorageLive(_)
                    | StatementKind::StorageDead(_)
                    | StatementKind::Nop
                    | StatementKind::FakeRead(..)
                    | StatementKind::AscribeUserType(..)
                    | StatementKind::Coverage(..)
                    | StatementKind::ConstEvalCounter
                    | StatementKind::PlaceMention(..)
                    | StatementKind::BackwardIncompatibleDropHint { .. } => {}
                    other => ss.push(format!("[\"?\",{},{}]", esc(&format!("{other:?}")), esc(&sp))),
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dt = discr.ty(&body, tcx);
                    let size = tcx.layout_of(env().as_query_input(dt)).map(|l| l.size.bytes()).unwrap_or(16);
                    let mut v: Vec<String> = vec![];
                    for (x, b) in targets.iter() {
                        let xs = self.scalar_int(x, dt, size);
                        v.push(format!("[{},{}]", xs, b.as_usize()));
                    }
                    let dts = self.tystr(dt);
                    format!("[\"switch\",{},[{}],{},{}]", d, v.join(","), targets.otherwise().as_usize(), esc(&dts))
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body, tcx).ty;
                    let ts = self.tystr(t);
                    format!("[\"drop\",{},{},{}]", self.place(place), target.as_usize(), esc(&ts))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => self.constant(c),
                        o => format!("{{\"dyn\":{}}}", self.operand(o)),
                    };
                    let v: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let aty: Vec<String> = args.iter().map(|a| { let t = a.node.ty(&body, tcx); let s = self.tystr(t); esc(&s) }).collect();
                    let dty = { let t = destination.ty(&body, tcx).ty; self.tystr(t) };
                    format!(
                        "[\"call\",{},[{}],{},{},[{}],{}]",
                        f,
                        v.join(","),
                        self.place(destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        aty.join(","),
                        esc(&dty)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index))
                        }
                        AssertKind::Overflow(op, a, b) => {
                            format!("[\"overflow\",{},{},{}]", esc(&format!("{op:?}")), self.operand(a), self.operand(b))
                        }
                        AssertKind::OverflowNeg(a) => format!("[\"overflowneg\",{}]", self.operand(a)),
                        AssertKind::DivisionByZero(a) => format!("[\"divzero\",{}]", self.operand(a)),
                        AssertKind::RemainderByZero(a) => format!("[\"remzero\",{}]", self.operand(a)),
                        other => format!("[\"other\",{}]", esc(&format!("{other:?}"))),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond), expected, k, target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                other => format!("[\"?\",{}]", esc(&format!("{other:?}"))),
            };
            bs.push(format!(
                "{{\"s\":[{}],\"t\":{},\"sp\":{},\"cleanup\":{}}}",
                ss.join(","),
                tj,
                esc(&sp),
                bb.is_cleanup
            ));
        }
        let _ = write!(o, ",\"blocks\":[{}]}}", bs.join(",\n"));
        o
    }
}

fn variant_name<'tcx>(k: &ty::InstanceKind<'tcx>) -> String {
    let s = format!("{k:?}");
    let e = s.find(|c: char| !c.is_alphanumeric()).unwrap_or(s.len());
    s[..e].to_string()
}

fn base_adt<'tcx>(t: Ty<'tcx>) -> Option<DefId> {
    match t.kind() {
        ty::Adt(d, _) => Some(d.did()),
        ty::Ref(_, i, _) => base_adt(*i),
        _ => None,
    }
}

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = std::env::var("CARGO_PKG_NAME").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() == "build_script_build" {
            return Compilation::Continue;
        }
        let wanted = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
        let dir = std::env::var("MIRDUMP_OUT").unwrap_or_default();
        let locals: HashSet<String> = wanted.split(',').map(|s| s.to_string()).collect();
        if !locals.contains(&krate) || dir.is_empty() {
            return Compilation::Continue;
        }
        let mut cx = Cx {
            tcx,
            queue: VecDeque::new(),
            seen: HashSet::new(),
            types: BTreeMap::new(),
            tyqueue: vec![],
            externs: BTreeMap::new(),
        };
        // instantiation types for the crate's own generic parameters
        let numeric: Vec<Ty<'tcx>> = vec![
            tcx.types.f64, tcx.types.u64, tcx.types.f32, tcx.types.u8, tcx.types.u16, tcx.types.u32,
            tcx.types.u128, tcx.types.i8, tcx.types.i16, tcx.types.i32, tcx.types.i64, tcx.types.i128,
        ];
        let mut roots = vec![];
        let mut items = vec![];
        for did in tcx.mir_keys(()).iter() {
            let did = did.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            let vis = tcx.visibility(did).is_public();
            let gens = tcx.generics_of(did);
            let mut tparams = 0;
            let mut g = Some(gens);
            while let Some(x) = g {
                for p in x.own_params.iter() {
                    match p.kind {
                        ty::GenericParamDefKind::Type { .. } => tparams += 1,
                        // no constant to instantiate with: analysed at the uses only
                        ty::GenericParamDefKind::Const { .. } => tparams += 2,
                        _ => {}
                    }
                }
                g = x.parent.map(|p| tcx.generics_of(p));
            }
            let is_trait_item = tcx.trait_of_assoc(did).is_some();
            let path = ty::print::with_no_trimmed_paths!(tcx.def_path_str(did));
            let safety = !tcx.fn_sig(did).skip_binder().safety().is_safe();
            let imp = tcx.impl_of_assoc(did).map(|i| {
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let tr = tcx.impl_opt_trait_ref(i).map(|t| t.skip_binder().to_string());
                (ty::print::with_no_trimmed_paths!(format!("{st}")), tr)
            });
            let attrs = tcx.codegen_fn_attrs(did);
            let nomangle = attrs.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE);
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            let sigs = ty::print::with_no_trimmed_paths!(format!("{}", sig.skip_binder()));
            let exported = tcx.effective_visibilities(()).is_exported(did.expect_local());
            let mut outs = std::collections::BTreeSet::new();
            {
                let o = sig.skip_binder().output();
                let o = tcx.try_normalize_erasing_regions(ty::TypingEnv::non_body_analysis(tcx, did), ty::Unnormalized::new_wip(tcx.erase_and_anonymize_regions(o))).unwrap_or(o);
                reach(tcx, o, &mut HashSet::new(), &mut outs);
            }
            if imp.is_some() {
                // what a caller's closure is handed
                for clause in tcx.param_env(did).caller_bounds() {
                    if let Some(tp) = clause.as_trait_clause() {
                        let tr = tp.skip_binder().trait_ref;
                        if tcx.fn_trait_kind_from_def_id(tr.def_id).is_some() {
                            for a in tr.args.types().skip(1) { reach(tcx, a, &mut HashSet::new(), &mut outs); }
                        }
                    }
                }
            }
            let outs: Vec<String> = outs.iter().filter(|s| s.starts_with("&mut ")).map(|s| esc(s)).collect();
            let mut keys = vec![];
            if !is_trait_item && tparams <= 1 {
                let tys: Vec<Option<Ty<'tcx>>> = if tparams == 0 { vec![None] } else { numeric.iter().map(|t| Some(*t)).collect() };
                for t in tys {
                    let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        ty::GenericParamDefKind::Type { .. } => t.unwrap().into(),
                        ty::GenericParamDefKind::Const { .. } => p.to_error(tcx),
                    });
                    // check the where-clauses (e.g. T: Numeric)
                    if t.is_some() && tcx.instantiate_and_check_impossible_clauses((did, args)) {
                        continue;
                    }
                    let inst = Instance::new_raw(did, args);
                    let (k, _) = cx.request(inst);
                    keys.push(esc(&k));
                    roots.push(k);
                }
            }
            items.push(format!(
                "{{\"path\":{},\"pub\":{},\"unsafe\":{},\"nomangle\":{},\"abi\":{},\"impl\":{},\"trait\":{},\"span\":{},\"sig\":{},\"keys\":[{}],\"tparams\":{},\"exported\":{},\"mutouts\":[{}]}}",
                esc(&path), vis, safety, nomangle,
                esc(&format!("{:?}", sig.skip_binder().abi())),
                imp.as_ref().map(|x| esc(&x.0)).unwrap_or("null".into()),
                imp.as_ref().and_then(|x| x.1.as_ref().map(|t| esc(t))).unwrap_or("null".into()),
                esc(&cx.span(tcx.def_span(did))),
                esc(&sigs), keys.join(","), tparams, exported, outs.join(",")
            ));
        }
        let mut bodies = vec![];
        while let Some(i) = cx.queue.pop_front() {
            let key = cx.inst_key(i);
            bodies.push(cx.body(i, &key));
        }
        // all ADTs of the crate
        let mut adts = vec![];
        let mut surface = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            match tcx.def_kind(id) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {}
                _ => continue,
            }
            let d = id.to_def_id();
            let gens = tcx.generics_of(d);
            if gens.own_params.iter().any(|p| matches!(p.kind, ty::GenericParamDefKind::Const { .. })) {
                continue;
            }
            let n = gens.own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).count();
            let tys: Vec<Option<Ty<'tcx>>> = if n == 0 { vec![None] } else { vec![Some(tcx.types.f64), Some(tcx.types.u64)] };
            for t in tys {
                let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    ty::GenericParamDefKind::Type { .. } => t.unwrap().into(),
                    ty::GenericParamDefKind::Const { .. } => p.to_error(tcx),
                });
                let t = tcx.type_of(d).instantiate(tcx, args).skip_norm_wip();
                let s = cx.tystr(t);
                adts.push(esc(&s));
                let mut outs = std::collections::BTreeSet::new();
                reach(tcx, t, &mut HashSet::new(), &mut outs);
                let send = implements(tcx, tcx.get_diagnostic_item(rustc_span::sym::Send).unwrap(), t);
                let sync = implements(tcx, tcx.lang_items().sync_trait().unwrap(), t);
                let copy = implements(tcx, tcx.lang_items().copy_trait().unwrap(), t);
                let exported = tcx.effective_visibilities(()).is_exported(id);
                surface.push(format!(
                    "{{\"type\":{},\"exported\":{exported},\"send\":{send},\"sync\":{sync},\"copy\":{copy},\"span\":{},\"reach\":[{}]}}",
                    esc(&s), esc(&cx.span(tcx.def_span(d))), outs.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")
                ));
            }
        }
        // statics
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Static { mutability, .. } = tcx.def_kind(id) {
                let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let fr = t.is_freeze(tcx, env());
                statics.push(format!("[{},{},{},{}]", esc(&tcx.def_path_str(id.to_def_id())), esc(&t.to_string()), mutability.is_mut(), fr));
            }
        }
        // consts
        let mut consts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Const { .. } = tcx.def_kind(id) {
                let d = id.to_def_id();
                if tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
                let p = tcx.def_path_str(d);
                if let Ok(v) = tcx.const_eval_poly(d) {
                    if let Some(s) = v.try_to_scalar_int() {
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        let b = cx.scalar_int(s.to_bits(s.size()), t, s.size().bytes());
                        consts.push(format!("[{},{},{},{}]", esc(&p), esc(&t.to_string()), b, tcx.visibility(d).is_public()));
                    }
                }
            }
        }
        cx.emit_types();
        let types: Vec<String> = cx.types.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let out = format!(
            "{{\"crate\":{},\"items\":[\n{}\n],\"adts\":[{}],\"surface\":[\n{}\n],\"statics\":[{}],\"consts\":[{}],\"externs\":[{}],\"types\":{{\n{}\n}},\"bodies\":[\n{}\n]}}\n",
            esc(&krate),
            items.join(",\n"),
            adts.join(","),
            surface.join(",\n"),
            statics.join(","),
            consts.join(","),
            cx.externs.keys().map(|k| esc(k)).collect::<Vec<_>>().join(",\n"),
            types.join(",\n"),
            bodies.join(",\n")
        );
        std::fs::write(format!("{dir}/{krate}.json"), out).unwrap();
        Compilation::Continue
    }
}

fn main() {
    // as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc")) {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
