// MIR dumper: a rustc driver used through RUSTC_WORKSPACE_WRAPPER.
// It writes, for one crate, every function body reachable from the crate's own functions,
// instantiated with the caller's generics and with callees resolved, as JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
#[allow(unused_extern_crates)]
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::{self, Body, ConstValue, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use rustc_ast::attr::AttributeExt;

enum J { S(String), N(i128), T(usize), B(bool), A(Vec<J>), O(Vec<(&'static str, J)>), M(Vec<(String, J)>), Null }
impl J {
    /// the same text with types by name instead of by number, for comparing two dumps
    fn f(&self, names: &[String], o: &mut String) {
        match self {
            J::T(i) => ws(&names[*i], o),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.f(names, o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } ws(k, o); o.push(':'); x.f(names, o); } o.push('}'); }
            J::M(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } ws(k, o); o.push(':'); x.f(names, o); } o.push('}'); }
            x => x.w(o),
        }
    }
    fn w(&self, o: &mut String) {
        match self {
            J::T(i) => { let _ = write!(o, "{}", i); }
            J::S(s) => ws(s, o),
            J::N(n) => { let _ = write!(o, "{}", n); }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Null => o.push_str("null"),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } ws(k, o); o.push(':'); x.w(o); } o.push('}'); }
            J::M(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } ws(k, o); o.push(':'); x.w(o); } o.push('}'); }
        }
    }
}
fn ws(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: usize) -> J { J::N(x as i128) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    local: HashMap<DefId, Body<'tcx>>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    bodies: Vec<(String, J)>,
    seen: HashSet<String>,
    queue: VecDeque<(String, Instance<'tcx>, TypingEnv<'tcx>, usize)>,
    envs: BTreeMap<String, usize>,
    env: Option<TypingEnv<'tcx>>,
    env_id: usize,
}

const FOLLOW: &[&str] = &[
    "core::option::", "core::result::", "core::ops::", "core::convert::", "core::cmp::", "core::bool::",
    "core::iter::", "core::mem::", "core::num::", "core::array::", "core::clone::", "core::default::",
    "core::future::", "core::pin::", "core::task::", "core::tuple::", "core::slice::iter", "core::slice::<impl",
];

/// whether the documentation of a function (or of the impl or trait it belongs to) has a section on panics
#[allow(deprecated)]
fn doc_panics(tcx: TyCtxt<'_>, d: DefId) -> bool {
    let has = |d: DefId| tcx.get_all_attrs(d).iter().any(|a| a.doc_str().map_or(false, |t| t.as_str().contains("# Panics")));
    if has(d) || tcx.codegen_fn_attrs(d).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER) { return true; }
    match tcx.opt_parent(d) { Some(p) if matches!(tcx.def_kind(p), DefKind::Impl { of_trait: true }) => has(p), _ => false }
}
fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(tcx.def_path_str(d))))
}
fn tystr(t: Ty<'_>) -> String { with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(t.to_string()))) }

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J { J::T(self.tyid(t)) }

    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>> + Copy>(&self, t: T) -> T {
        self.tcx.try_normalize_erasing_regions(self.env.unwrap(), ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }

    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.type_ids.get(&t) { return *i; }
        let id = self.types.len();
        self.type_ids.insert(t, id);
        self.types.push(J::Null);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(tystr(t)))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(i) => { o.push(("k", s("int"))); o.push(("w", n(i.bit_width().unwrap_or(64) as usize))); o.push(("sg", J::B(true))); }
            ty::Uint(i) => { o.push(("k", s("int"))); o.push(("w", n(i.bit_width().unwrap_or(64) as usize))); o.push(("sg", J::B(false))); }
            ty::Float(f) => { o.push(("k", s("float"))); o.push(("w", n(f.bit_width() as usize))); }
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Slice(e) => { o.push(("k", s("slice"))); let e = self.ty(e); o.push(("e", e)); }
            ty::Array(e, l) => {
                o.push(("k", s("array"))); let e = self.ty(e); o.push(("e", e));
                o.push(("len", match l.try_to_target_usize(tcx) { Some(x) => J::N(x as i128), None => J::Null }));
            }
            ty::RawPtr(e, _) => { o.push(("k", s("ptr"))); let e = self.ty(e); o.push(("e", e)); }
            ty::Ref(_, e, m) => { o.push(("k", s("ref"))); o.push(("mut", J::B(m.is_mut()))); let e = self.ty(e); o.push(("e", e)); }
            ty::Tuple(ts) => { o.push(("k", s("tuple"))); let v = ts.iter().map(|x| self.ty(x)).collect(); o.push(("f", J::A(v))); }
            ty::Param(p) => { o.push(("k", s("param"))); o.push(("name", s(p.name.to_string()))); }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let c = self.callee(d, args.skip_binder());
                o.push(("callee", c));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(preds, _) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() { o.push(("trait", s(path(tcx, p)))); }
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure"))); o.push(("path", s(path(tcx, d))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("f", J::A(ups)));
                let key = self.enqueue_closure(d, args);
                o.push(("body", key));
            }
            ty::Coroutine(d, args) => {
                o.push(("k", s("coroutine"))); o.push(("path", s(path(tcx, d))));
                let ups: Vec<J> = args.as_coroutine().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("f", J::A(ups)));
                let key = self.enqueue_closure(d, args);
                o.push(("body", key));
            }
            ty::Adt(def, args) => {
                let p = path(tcx, def.did());
                o.push(("k", s("adt")));
                o.push(("adt", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                o.push(("path", s(p.clone())));
                o.push(("local", J::B(def.did().is_local())));
                let targs: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(targs)));
                let show = def.did().is_local() || def.is_enum() || ["core::ops::range", "core::pin::", "core::iter::", "core::cmp::", "core::num::", "core::task::", "core::ops::", "core::option", "core::result", "core::mem::manually", "core::slice::iter", "core::array::iter"].iter().any(|x| p.starts_with(x));
                if show {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = self.norm(ft);
                            let ft = self.ty(ft);
                            fs.push(J::A(vec![s(f.name.to_string()), ft, J::B(f.vis.is_public())]));
                        }
                        let d = if def.is_enum() { J::N(def.discriminant_for_variant(tcx, vi).val as i128) } else { J::N(0) };
                        vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", d), ("f", J::A(fs))]));
                    }
                    o.push(("v", J::A(vs)));
                    if def.is_enum() {
                        let dt = def.repr().discr_type();
                        use rustc_abi::IntegerType::*;
                        let (w, sg) = match dt { Pointer(sg) => (64usize, sg), Fixed(i, sg) => (i.size().bits() as usize, sg) };
                        o.push(("dw", n(w))); o.push(("dsg", J::B(sg)));
                    }
                }
            }
            _ => o.push(("k", s("other"))),
        }
        if !t.has_param() && !t.has_escaping_bound_vars() {
            let te = self.env.unwrap();
            if let Ok(l) = tcx.layout_of(te.as_query_input(t)) {
                if l.is_sized() { o.push(("size", J::N(l.size.bytes() as i128))); }
            }
        }
        self.types[id] = J::O(o);
        id
    }

    fn key(&self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let a: Vec<String> = args.iter().filter_map(|x| x.as_type().map(tystr)).collect();
        let mut k = path(self.tcx, d);
        if self.tcx.is_closure_like(d) {
            // distinguish sibling closures
            let _ = write!(k, "@{}", self.tcx.def_path(d).data.iter().map(|x| format!("{}{}", x.disambiguator, "")).collect::<Vec<_>>().join("."));
        }
        if !a.is_empty() { let _ = write!(k, "<{}>", a.join(", ")); }
        let _ = write!(k, "#e{}", self.env_id);
        k
    }

    fn enqueue_closure(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        if self.local.contains_key(&d) || self.follow(d) {
            let k = self.key(d, args);
            self.enqueue(k.clone(), Instance { def: InstanceKind::Item(d), args });
            s(k)
        } else { J::Null }
    }

    fn follow(&self, d: DefId) -> bool {
        if d.is_local() { return false; }
        let p = path(self.tcx, d);
        let q = p.trim_start_matches('<');
        (FOLLOW.iter().any(|x| q.starts_with(x) || p.contains(&format!(" as {}", x)))) && self.tcx.is_mir_available(d)
    }

    fn enqueue(&mut self, k: String, i: Instance<'tcx>) {
        if self.seen.insert(k.clone()) {
            let e = self.env.unwrap();
            let id = self.env_id;
            self.queue.push_back((k, i, e, id));
        }
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = self.norm(args);
        let mut o: Vec<(&'static str, J)> = vec![("path", s(path(tcx, d)))];
        let targs: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("args", J::A(targs)));
        o.push(("local", J::B(d.is_local())));
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("r", s("ctor")));
            let (adt, vi) = {
                let par = tcx.parent(d);
                if tcx.def_kind(par) == DefKind::Variant { let a = tcx.parent(par); (a, tcx.adt_def(a).variant_index_with_id(par).as_usize()) } else { (par, 0) }
            };
            let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip().skip_binder();
            let out = self.norm(sig.output());
            let _ = adt;
            o.push(("ty", self.ty(out))); o.push(("v", n(vi)));
            return J::O(o);
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, t))));
            o.push(("trait_local", J::B(t.is_local())));
            o.push(("m", s(tcx.item_name(d).to_string())));
            o.push(("has_default", J::B(tcx.defaultness(d).has_value())));
            let st = self.ty(args.type_at(0));
            o.push(("self", st));
            // remaining args own to the method
            let tg = tcx.generics_of(t).count();
            let own: Vec<J> = args.iter().skip(tg).filter_map(|x| x.as_type()).map(|x| self.ty(x)).collect();
            o.push(("own", J::A(own)));
            let tr: Vec<J> = args.iter().take(tg).skip(1).filter_map(|x| x.as_type()).map(|x| self.ty(x)).collect();
            o.push(("targs", J::A(tr)));
        } else {
            o.push(("m", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        }
        // output type
        {
            let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip();
            let out = tcx.instantiate_bound_regions_with_erased(sig.output());
            let out = self.norm(tcx.erase_and_anonymize_regions(out));
            if !out.has_escaping_bound_vars() { let t = self.ty(out); o.push(("out", t)); }
        }
        let mut res = Instance::try_resolve(tcx, self.env.unwrap(), d, args).ok().flatten();
        if res.is_none() {
            // a local trait whose only impl is a blanket impl: any implementation is that one
            if let Some(t) = tcx.trait_of_assoc(d) {
                if t.is_local() {
                    let impls: Vec<DefId> = tcx.all_impls(t).collect();
                    if impls.len() == 1 {
                        let hdr = tcx.impl_trait_ref(impls[0]).skip_binder();
                        if let ty::Param(p) = *hdr.self_ty().kind() {
                            let ig = tcx.generics_of(impls[0]);
                            let st = args.type_at(0);
                            // only lifetimes and the self param
                            let ntypes = ig.own_params.iter().filter(|x| matches!(x.kind, ty::GenericParamDefKind::Type { .. })).count();
                            if ntypes == 1 {
                                let tg = tcx.generics_of(t).count();
                                let item = tcx.associated_items(impls[0]).in_definition_order().find(|i| i.trait_item_def_id() == Some(d)).map(|i| i.def_id);
                                if let Some(item) = item {
                                    let mut rest = args.iter().skip(tg);
                                    let nargs = ty::GenericArgs::for_item(tcx, item, |param, _| match param.kind {
                                        ty::GenericParamDefKind::Lifetime => { if param.index as usize >= ig.count() { let _ = rest.next(); } tcx.lifetimes.re_erased.into() }
                                        _ => { if param.index == p.index { st.into() } else { loop { match rest.next() { Some(r) => { if r.as_type().is_some() { break r; } } None => panic!("args") } } } }
                                    });
                                    res = Some(Instance { def: InstanceKind::Item(item), args: nargs });
                                }
                            }
                        }
                    }
                }
            }
        }
        // iterators over slices, arrays and vectors override provided methods with pointer walks; the provided body says the same
        if let (Some(inst), Some(t)) = (res, tcx.trait_of_assoc(d)) {
            if let InstanceKind::Item(did) = inst.def {
                if did != d && ["core::iter::traits::iterator::Iterator", "core::iter::traits::double_ended::DoubleEndedIterator"].contains(&path(tcx, t).as_str()) && tcx.defaultness(d).has_value()
                    && matches!(tcx.item_name(d).as_str(), "fold" | "nth" | "count" | "last" | "advance_by" | "try_fold" | "for_each" | "all" | "any" | "find" | "find_map"
                        | "position" | "rposition" | "nth_back" | "rfold" | "try_rfold" | "rfind" | "advance_back_by")
                    && ["core::slice::iter", "core::array::iter", "alloc::vec::into_iter"].iter().any(|x| path(tcx, did).contains(x)) {
                    res = Some(Instance { def: InstanceKind::Item(d), args });
                }
            }
        }
        match res {
            None => { o.push(("r", s("event"))); }
            Some(inst) => match inst.def {
                InstanceKind::Item(did) => {
                    o.push(("rpath", s(path(tcx, did))));
                    if self.local.contains_key(&did) || self.follow(did) {
                        let k = self.key(did, inst.args);
                        self.enqueue(k.clone(), inst);
                        o.push(("r", s("body"))); o.push(("key", s(k)));
                        o.push(("rlocal", J::B(did.is_local())));
                    } else {
                        o.push(("r", s("extern")));
                        if doc_panics(tcx, did) || doc_panics(tcx, d) { o.push(("pan", J::B(true))); }
                    }
                    if let Some(imp) = tcx.impl_of_assoc(did) { o.push(("impl", s(path(tcx, imp)))); }
                }
                InstanceKind::Virtual(..) => o.push(("r", s("virtual"))),
                InstanceKind::Intrinsic(did) => { o.push(("r", s("intrinsic"))); o.push(("rpath", s(path(tcx, did)))); }
                InstanceKind::Shim(k) => {
                    o.push(("r", s("shim")));
                    o.push(("shim", s(format!("{:?}", k).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string())));
                }
                _ => o.push(("r", s("other"))),
            },
        }
        J::O(o)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::A(vec![s("f"), n(f.as_usize()), t]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("ci"), J::N(offset as i128), J::N(min_length as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), J::N(from as i128), J::N(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("d"), n(vi.as_usize())]),
                _ => J::A(vec![s("oc")]),
            });
        }
        J::A(v)
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 6 { return J::A(vec![s("opaque")]); }
        let tid = self.ty(t);
        if let ConstValue::ZeroSized = v {
            match t.kind() {
                ty::Tuple(x) if x.is_empty() => return J::A(vec![s("agg"), tid, n(0), J::A(vec![])]),
                ty::FnDef(..) | ty::Closure(..) => return J::A(vec![s("zst"), tid]),
                _ => {}
            }
        }
        match (v, t.kind()) {
            (ConstValue::Scalar(sc), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_)) => {
                if let Ok(i) = sc.try_to_scalar_int() {
                    let sz = i.size();
                    let b = i.to_bits(sz);
                    let val: J = match t.kind() { ty::Int(_) => J::N(sz.sign_extend(b) as i128), _ => if b <= i128::MAX as u128 { J::N(b as i128) } else { s(b.to_string()) } };
                    return J::A(vec![s("int"), tid, val]);
                }
                J::A(vec![s("opaque"), tid])
            }
            (ConstValue::Slice { alloc_id, meta }, _) => {
                let data = tcx.global_alloc(alloc_id).unwrap_memory();
                let b = data.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                match t.kind() {
                    ty::Ref(_, e, _) if e.is_str() => J::A(vec![s("str"), tid, s(String::from_utf8_lossy(b).to_string())]),
                    _ => J::A(vec![s("bytes"), tid, J::A(b.iter().map(|x| n(*x as usize)).collect())]),
                }
            }
            (_, ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) if !t.has_param() => {
                if let ty::Adt(d, _) = t.kind() { if d.variants().is_empty() || d.is_union() { return J::A(vec![s("opaque"), tid]); } }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                    let fs: Vec<J> = d.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                    return J::A(vec![s("agg"), tid, n(vi), J::A(fs)]);
                }
                J::A(vec![s("opaque"), tid])
            }
            (ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), ty::Ref(_, e, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let id = prov.alloc_id();
                if let Some(mir::interpret::GlobalAlloc::Memory(_)) = tcx.try_get_global_alloc(id) {
                    if e.is_sized(tcx, self.env.unwrap()) {
                        let inner = self.cval_ind(id, off, *e, depth + 1);
                        return J::A(vec![s("ref"), tid, inner]);
                    }
                }
                J::A(vec![s("opaque"), tid])
            }
            (ConstValue::Indirect { alloc_id, offset }, ty::Ref(_, e, _)) if matches!(e.kind(), ty::Slice(_) | ty::Str) => {
                // a fat reference stored in memory
                let data = tcx.global_alloc(alloc_id).unwrap_memory();
                let al = data.inner();
                let o = offset.bytes() as usize;
                let raw = al.inspect_with_uninit_and_ptr_outside_interpreter(o..o + 16);
                let len = u64::from_le_bytes(raw[8..16].try_into().unwrap());
                let ptr_off = u64::from_le_bytes(raw[0..8].try_into().unwrap());
                if let Some(pr) = al.provenance().ptrs().get(&offset) {
                    let id = pr.alloc_id();
                    if let ty::Slice(et) = *e.kind() {
                        if let Ok(l) = tcx.layout_of(self.env.unwrap().as_query_input(et)) {
                            let mut items = vec![];
                            for i in 0..len.min(256) { items.push(self.cval_ind(id, rustc_abi::Size::from_bytes(ptr_off + i * l.size.bytes()), et, depth + 1)); }
                            return J::A(vec![s("slice"), tid, J::A(items)]);
                        }
                    } else {
                        let m = tcx.global_alloc(id).unwrap_memory();
                        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(ptr_off as usize..(ptr_off + len) as usize);
                        return J::A(vec![s("str"), tid, s(String::from_utf8_lossy(b).to_string())]);
                    }
                }
                J::A(vec![s("opaque"), tid])
            }
            _ => J::A(vec![s("opaque"), tid]),
        }
    }

    fn cval_ind(&mut self, id: mir::interpret::AllocId, off: rustc_abi::Size, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let sz = tcx.layout_of(self.env.unwrap().as_query_input(t)).map(|l| l.size).unwrap();
                let m = tcx.global_alloc(id).unwrap_memory();
                let o = off.bytes() as usize;
                let raw = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + sz.bytes() as usize);
                let mut b: u128 = 0;
                for (i, x) in raw.iter().enumerate() { b |= (*x as u128) << (8 * i); }
                let tid = self.ty(t);
                let v = match t.kind() { ty::Int(_) => sz.sign_extend(b) as i128, _ => b as i128 };
                J::A(vec![s("int"), tid, J::N(v)])
            }
            _ => self.cval(ConstValue::Indirect { alloc_id: id, offset: off }, t, depth),
        }
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => { let p = self.place(p); J::A(vec![s("c"), p]) }
            Operand::Move(p) => { let p = self.place(p); J::A(vec![s("m"), p]) }
            Operand::Constant(c) => {
                let t = c.const_.ty();
                if let ty::FnDef(..) = t.kind() { let tid = self.ty(t); return J::A(vec![s("k"), J::A(vec![s("zst"), tid])]); }
                let v = match c.const_ {
                    mir::Const::Val(v, t) => self.cval(v, t, 0),
                    k => match k.eval(self.tcx, self.env.unwrap(), rustc_span::DUMMY_SP) {
                        Ok(v) => self.cval(v, t, 0),
                        Err(_) => { let tid = self.ty(t); let nm = format!("{}", k); J::A(vec![s("generic"), tid, s(nm)]) }
                    },
                };
                let mut v2 = vec![s("k"), v];
                if let mir::Const::Unevaluated(u, _) = c.const_ { if u.promoted.is_none() { v2.push(s(path(self.tcx, u.def))); } }
                J::A(v2)
            }
            _ => J::A(vec![s("rt")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => { let o = self.operand(o); J::A(vec![s("use"), o]) }
            Rvalue::Repeat(o, c) => { let o = self.operand(o); J::A(vec![s("repeat"), o, match c.try_to_target_usize(tcx) { Some(x) => J::N(x as i128), None => J::Null }]) }
            Rvalue::Ref(_, k, p) => { let p = self.place(p); J::A(vec![s("ref"), p, s(if k.mutability().is_mut() { "mut" } else { "shr" })]) }
            Rvalue::RawPtr(_, p) => { let p = self.place(p); J::A(vec![s("ref"), p, s("raw")]) }
            Rvalue::Reborrow(_, m, p) => { let p = self.place(p); J::A(vec![s("ref"), p, s(if m.is_mut() { "mut" } else { "shr" })]) }
            Rvalue::Cast(k, o, t) => { let o = self.operand(o); let t = self.ty(*t); J::A(vec![s("cast"), s(format!("{:?}", k)), o, t]) }
            Rvalue::BinaryOp(b, ops) => { let a = self.operand(&ops.0); let c = self.operand(&ops.1); J::A(vec![s("bin"), s(format!("{:?}", b)), a, c]) }
            Rvalue::UnaryOp(u, o) => { let o = self.operand(o); J::A(vec![s("un"), s(format!("{:?}", u)), o]) }
            Rvalue::Discriminant(p) => { let p = self.place(p); J::A(vec![s("discr"), p]) }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); J::A(vec![s("use"), J::A(vec![s("c"), p])]) }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let (kind, t, v) = match **k {
                    mir::AggregateKind::Array(t) => { let t = self.ty(t); ("array", t, 0) }
                    mir::AggregateKind::Tuple => ("tuple", J::Null, 0),
                    mir::AggregateKind::Adt(d, vi, args, _, _) => { let t = tcx.type_of(d).instantiate(tcx, args).skip_norm_wip(); let t = self.norm(t); let t = self.ty(t); ("adt", t, vi.as_usize()) }
                    mir::AggregateKind::Closure(d, args) => { let t = Ty::new_closure(tcx, d, args); let t = self.ty(t); ("closure", t, 0) }
                    mir::AggregateKind::Coroutine(d, args) => { let t = Ty::new_coroutine(tcx, d, args); let t = self.ty(t); ("coroutine", t, 0) }
                    mir::AggregateKind::RawPtr(t, _) => { let t = self.ty(t); ("rawptr", t, 0) }
                    _ => ("other", J::Null, 0),
                };
                J::A(vec![s("agg"), s(kind), t, n(v), J::A(os)])
            }
            _ => J::A(vec![s("unknown"), s(format!("{:?}", r))]),
        }
    }

    fn dump(&mut self, key: &str, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let did = inst.def_id();
        let body: Body<'tcx> = if let Some(b) = self.local.get(&did) { b.clone() } else { tcx.instance_mir(inst.def).clone() };
        let env = self.env.unwrap();
        let body = match tcx.try_instantiate_and_normalize_erasing_regions(inst.args, env, EarlyBinder::bind(tcx, body)) {
            Ok(b) => b,
            Err(_) => return J::O(vec![("err", s("normalize")), ("path", s(path(tcx, did)))]),
        };
        let mut locals = vec![];
        for l in body.local_decls.iter() { locals.push(self.ty(l.ty)); }
        let mut names: Vec<J> = vec![];
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value { let p = self.place(&p); names.push(J::A(vec![s(v.name.to_string()), p])); }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut sts = vec![];
            if bb.is_cleanup { blocks.push(J::Null); continue; }
            for st in &bb.statements {
                let j = match &st.kind {
                    StatementKind::Assign(b) => { let p = self.place(&b.0); let r = self.rvalue(&b.1); J::A(vec![s("="), p, r, self.span(st.source_info.span)]) }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); J::A(vec![s("setd"), p, n(variant_index.as_usize())]) }
                    StatementKind::StorageDead(l) => J::A(vec![s("sd"), n(l.as_usize())]),
                    StatementKind::StorageLive(l) => J::A(vec![s("sl"), n(l.as_usize())]),
                    _ => continue,
                };
                sts.push(j);
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dt = discr.ty(&body.local_decls, tcx); let dt = self.ty(dt);
                    let ts: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![if v <= i128::MAX as u128 { J::N(v as i128) } else { s(v.to_string()) }, n(b.as_usize())])).collect();
                    J::A(vec![s("switch"), d, dt, J::A(ts), n(targets.otherwise().as_usize())])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); J::A(vec![s("drop"), n(target.as_usize()), p]) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let c = match *ft.kind() {
                        ty::FnDef(d, a) => self.callee(d, a.skip_binder()),
                        _ => { let f = self.operand(func); let t = self.ty(ft); J::O(vec![("r", s("ptr")), ("f", f), ("ty", t), ("path", s(""))]) }
                    };
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let d = self.place(destination);
                    J::A(vec![s("call"), c, J::A(a), d, match target { Some(t) => n(t.as_usize()), None => J::Null }])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = format!("{:?}", msg);
                    let kind = m.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    J::A(vec![s("assert"), c, J::B(*expected), s(if kind.is_empty() { m.clone() } else { kind }), n(target.as_usize()), s(m)])
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => { let p = self.place(resume_arg); J::A(vec![s("yield"), n(resume.as_usize()), p]) }
                k => J::A(vec![s("other"), s(format!("{:?}", k))]),
            };
            blocks.push(J::A(vec![J::A(sts), tj, sp]));
        }
        let _ = key;
        let spn = self.span(body.span);
        J::O(vec![
            ("path", s(path(tcx, did))), ("local", J::B(did.is_local())), ("span", spn), ("argc", n(body.arg_count)),
            ("coroutine", J::B(tcx.is_coroutine(did))), ("spread", match body.spread_arg { Some(l) => n(l.as_usize()), None => J::Null }),
            ("locals", J::A(locals)), ("names", J::A(names)), ("blocks", J::A(blocks)),
        ])
    }
}

// Does `t` implement the trait, every type parameter of `owner` being assumed to implement each of `given`?
fn holds<'tcx>(tcx: TyCtxt<'tcx>, owner: DefId, t: Ty<'tcx>, tr: DefId, given: &[DefId]) -> bool {
    let te = TypingEnv::post_analysis(tcx, owner);
    let mut cl: Vec<ty::Clause<'tcx>> = te.param_env.caller_bounds().collect();
    for (i, a) in ty::GenericArgs::identity_for_item(tcx, owner).iter().enumerate() {
        let _ = i;
        if let Some(p) = a.as_type() {
            for g in given { cl.push(ty::Upcast::upcast(ty::TraitRef::new(tcx, *g, [p]), tcx)); }
        }
    }
    let pe = ty::ParamEnv::new(tcx, cl);
    let infcx = tcx.infer_ctxt().build(te.typing_mode());
    infcx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions()
}

struct UnsafeV<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<Span> }
impl<'tcx> Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules { self.out.push(b.span); }
        intravisit::walk_block(self, b);
    }
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut local = HashMap::new();
        let mut roots: Vec<LocalDefId> = vec![];
        for d in tcx.hir_body_owners() {
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { continue; }
            let b = tcx.mir_built(d).borrow().clone();
            local.insert(d.to_def_id(), b);
            if k != DefKind::Closure { roots.push(d); }
        }
        if tcx.dcx().has_errors().is_some() { return Compilation::Continue; }
        let mut cx = Cx { tcx, local, types: vec![], type_ids: HashMap::new(), bodies: vec![], seen: HashSet::new(), queue: VecDeque::new(), envs: BTreeMap::new(), env: None, env_id: 0 };
        let mut jroots = vec![];
        for r in &roots {
            let did = r.to_def_id();
            let te = TypingEnv::post_analysis(tcx, did);
            let es = format!("{:?}", te.param_env);
            let nid = cx.envs.len();
            let id = *cx.envs.entry(es).or_insert(nid);
            cx.env = Some(te); cx.env_id = id;
            let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, did));
            let key = cx.key(did, args);
            cx.enqueue(key.clone(), Instance { def: InstanceKind::Item(did), args });
            let mut o: Vec<(&'static str, J)> = vec![("key", s(key)), ("path", s(path(tcx, did))), ("name", s(tcx.item_name(did).to_string()))];
            o.push(("pub", J::B(tcx.visibility(did).is_public())));
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            let sig = tcx.instantiate_bound_regions_with_erased(sig);
            let sig = cx.norm(tcx.erase_and_anonymize_regions(sig.inputs_and_output));
            let tys: Vec<J> = sig.iter().map(|t| cx.ty(t)).collect();
            o.push(("sig", J::A(tys)));
            o.push(("async", J::B(tcx.asyncness(did).is_async())));
            let raw = tcx.fn_sig(did).skip_binder();
            o.push(("unsafe", J::B(!raw.safety().is_safe())));
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip(); let st = cx.norm(st);
                let t = cx.ty(st);
                o.push(("impl_self", t));
                if tcx.impl_opt_trait_ref(imp).is_some() {
                    let tr = tcx.impl_trait_ref(imp).skip_binder();
                    o.push(("impl_trait", s(path(tcx, tr.def_id))));
                    let ta: Vec<J> = tr.args.types().skip(1).map(|t| { let t = cx.norm(t); cx.ty(t) }).collect();
                    o.push(("impl_targs", J::A(ta)));
                }
            }
            if let Some(t) = tcx.trait_of_assoc(did) { o.push(("in_trait", s(path(tcx, t)))); }
            // is it derived / macro generated
            o.push(("derived", J::B(tcx.is_automatically_derived(tcx.parent(did)))));
            jroots.push(J::O(o));
        }
        // consts
        let mut consts = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::AssocConst { .. } | DefKind::Const { .. }) { continue; }
            let did = d.to_def_id();
            if tcx.generics_of(did).requires_monomorphization(tcx) { continue; }
            cx.env = Some(TypingEnv::post_analysis(tcx, did)); cx.env_id = 0;
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let t = tcx.erase_and_anonymize_regions(t);
            if let Ok(v) = tcx.const_eval_poly(did) {
                let jv = cx.cval(v, t, 0);
                consts.push(J::A(vec![s(path(tcx, did)), jv, J::B(tcx.visibility(did).is_public())]));
            }
        }
        while let Some((k, inst, env, id)) = cx.queue.pop_front() {
            cx.env = Some(env); cx.env_id = id;
            let b = cx.dump(&k, inst);
            cx.bodies.push((k, b));
        }
        // trait impls of the crate and trait items
        let mut impls = vec![];
        for (t, is) in tcx.all_local_trait_impls(()).iter() {
            for i in is {
                let tr = tcx.impl_trait_ref(i.to_def_id()).skip_binder();
                let items: Vec<J> = tcx.associated_items(i.to_def_id()).in_definition_order().map(|x| s(x.name().to_string())).collect();
                impls.push(J::O(vec![("trait", s(path(tcx, *t))), ("self", s(tystr(tr.self_ty()))), ("items", J::A(items)),
                    ("derived", J::B(tcx.is_automatically_derived(i.to_def_id()))),
                    ("unsafe", J::B(tcx.impl_trait_header(i.to_def_id()).safety.is_unsafe()))]));
            }
        }
        let mut traits = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            if tcx.def_kind(d) == DefKind::Trait {
                let items: Vec<J> = tcx.associated_items(d.to_def_id()).in_definition_order().map(|x| J::A(vec![s(x.name().to_string()), J::B(tcx.defaultness(x.def_id).has_value())])).collect();
                traits.push(J::O(vec![("path", s(path(tcx, d.to_def_id()))), ("items", J::A(items))]));
            }
        }
        let mut adts = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                cx.env = Some(TypingEnv::post_analysis(tcx, d.to_def_id())); cx.env_id = 0;
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                let j = cx.ty(t);
                adts.push(J::O(vec![("ty", j), ("path", s(path(tcx, d.to_def_id()))), ("name", s(tcx.item_name(d.to_def_id()).to_string())), ("pub", J::B(tcx.visibility(d).is_public())), ("span", cx.span(tcx.def_span(d)))]));
            }
        }
        while let Some((k, inst, env, id)) = cx.queue.pop_front() {
            cx.env = Some(env); cx.env_id = id;
            let b = cx.dump(&k, inst);
            cx.bodies.push((k, b));
        }
        // marker traits: futures of the asynchronous functions, and the crate's own types
        let named = |p: &str| tcx.all_traits_including_private().find(|d| path(tcx, *d) == p);
        let send = tcx.get_diagnostic_item(rustc_span::sym::Send).unwrap();
        let sync = tcx.lang_items().sync_trait().unwrap();
        let clone = tcx.lang_items().clone_trait().unwrap();
        let eq = tcx.lang_items().eq_trait().unwrap();
        let fut = tcx.lang_items().future_trait().unwrap();
        let _ = named;
        let mut sends = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { continue; }
            let did = d.to_def_id();
            let o = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            let o = tcx.instantiate_bound_regions_with_erased(o);
            let te = TypingEnv::post_analysis(tcx, did);
            let out = tcx.erase_and_anonymize_regions(o.output());
            let out = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(out)).unwrap_or(out);
            if !holds(tcx, did, out, fut, &[send]) { continue; }
            sends.push(J::O(vec![("path", s(path(tcx, did))), ("ty", s(tystr(out))), ("span", cx.span(tcx.def_span(did))), ("send", J::B(holds(tcx, did, out, send, &[send]))),
                ("local_only", J::B(!holds(tcx, did, out, send, &[])))]));
        }
        let mut marks = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            if !matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) { continue; }
            let did = d.to_def_id();
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let t = tcx.erase_and_anonymize_regions(t);
            let mut o = vec![("path", s(path(tcx, did))), ("pub", J::B(tcx.visibility(d).is_public())), ("span", cx.span(tcx.def_span(d)))];
            o.push(("lifetimes", J::N(tcx.generics_of(did).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Lifetime)).count() as i128)));
            for (k, tr) in [("send", send), ("sync", sync), ("clone", clone)] { o.push((k, J::B(holds(tcx, did, t, tr, &[tr])))); }
            let te = TypingEnv::post_analysis(tcx, did);
            let infcx = tcx.infer_ctxt().build(te.typing_mode());
            o.push(("eq", J::B(infcx.type_implements_trait(eq, [t, t], te.param_env).must_apply_modulo_regions())));
            o.push(("freeze", J::B(t.is_freeze(tcx, te))));
            marks.push(J::O(o));
        }
        // statics, and the names every module makes available
        let mut statics = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Static { .. } = tcx.def_kind(d) {
                let did = d.to_def_id();
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                let te = TypingEnv::post_analysis(tcx, did);
                let mut o = vec![("path", s(path(tcx, did))), ("span", cx.span(tcx.def_span(did))), ("ty", s(tystr(t))), ("mut", J::B(tcx.is_mutable_static(did))),
                    ("thread_local", J::B(tcx.is_thread_local_static(did))), ("freeze", J::B(t.is_freeze(tcx, te)))];
                if let ty::Adt(a, args) = t.kind() {
                    o.push(("adt", s(path(tcx, a.did()))));
                    o.push(("inner_freeze", J::B(args.types().next().map_or(false, |x| x.is_freeze(tcx, te)))));
                }
                statics.push(J::O(o));
            }
        }
        let mut exports = vec![];
        for d in tcx.hir_crate_items(()).definitions().chain([rustc_hir::def_id::CRATE_DEF_ID]) {
            if tcx.def_kind(d) != DefKind::Mod { continue; }
            for c in tcx.module_children_local(d) {
                if !c.vis.is_public() { continue; }
                let to = match c.res.opt_def_id() { Some(x) => path(tcx, x), None => format!("{:?}", c.res) };
                exports.push(J::A(vec![s(path(tcx, d.to_def_id())), s(c.ident.name.to_string()), s(to)]));
            }
        }
        let mut uv = UnsafeV { tcx, out: vec![] };
        tcx.hir_walk_toplevel_module(&mut uv);
        let us: Vec<J> = uv.out.iter().map(|x| cx.span(*x)).collect();
        let feats: Vec<J> = tcx.sess.config.iter().filter(|(k, _)| k.as_str() == "feature").filter_map(|(_, v)| v.map(|x| s(x.to_string()))).collect();
        let bodies = std::mem::take(&mut cx.bodies);
        let types = std::mem::take(&mut cx.types);
        let top = J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())), ("features", J::A(feats)),
            ("roots", J::A(jroots)), ("types", J::A(types)), ("bodies", J::M(bodies)), ("consts", J::A(consts)),
            ("impls", J::A(impls)), ("traits", J::A(traits)), ("adts", J::A(adts)), ("unsafe", J::A(us)), ("sends", J::A(sends)), ("marks", J::A(marks)), ("statics", J::A(statics)), ("exports", J::A(exports)),
        ]);
        let mut o = String::new();
        top.w(&mut o);
        std::fs::write(&self.out, o).expect("write dump");
        let J::O(top) = &top else { unreachable!() };
        let get = |k: &str| &top.iter().find(|x| x.0 == k).unwrap().1;
        let J::A(types) = get("types") else { unreachable!() };
        let names: Vec<String> = types.iter().map(|t| match t { J::O(v) => match &v[0].1 { J::S(x) => x.clone(), _ => unreachable!() }, _ => unreachable!() }).collect();
        let mut o = String::new();
        for k in ["roots", "types", "consts", "impls", "traits", "adts", "statics", "exports", "bodies"] {
            match get(k) {
                J::A(v) => for x in v { let _ = write!(o, "{} ", k); x.f(&names, &mut o); o.push('\n'); },
                J::M(v) => for (n, x) in v { let _ = write!(o, "{} {} ", k, n); x.f(&names, &mut o); o.push('\n'); },
                _ => {}
            }
        }
        std::fs::write(format!("{}.fp", self.out), o).expect("write dump");
        Compilation::Continue
    }
}
struct Nop;
impl Callbacks for Nop {}

fn main() {
    // argv: driver rustc args...
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(1);
    let out = std::env::var("MIRDUMP_OUT").ok();
    let name = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone());
    let is_target = name.as_deref() == Some("parquet_format_safe") && !args.iter().any(|a| a == "--test");
    args[0] = "rustc".into();
    match (out, is_target) {
        (Some(o), true) => rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out: o }),
        _ => rustc_driver_impl::compiler_entrypoint(&args, &mut Nop),
    }
}
