//! brackmir: a rustc driver that dumps the *type-checked program* of one crate
//! (MIR as built from THIR, before any optimisation or coroutine lowering) as JSON.
//! It is injected through RUSTC_WORKSPACE_WRAPPER, so it sees exactly what cargo builds.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;

/// Minimal JSON value.
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(x) => esc(x, o),
            J::A(v) => {
                o.push('[');
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    e.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    e.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    e.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    ty_ix: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    adt_seen: BTreeSet<String>,
    ext: Vec<DefId>,
    ext_seen: BTreeSet<String>,
}

fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!(
        "{}{}",
        tcx.crate_name(d.krate),
        tcx.def_path(d).to_string_no_crate_verbose()
    )
}
fn name(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)));
    if d.is_local() {
        format!("{}::{}", tcx.crate_name(LOCAL_CRATE), p)
    } else {
        p
    }
}

impl<'tcx> D<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) -> String {
        let tcx = self.tcx;
        let k = name(tcx, def.did());
        if self.adt_seen.insert(k.clone()) {
            let mut vs = vec![];
            let skip = !def.is_enum() && !def.is_struct();
            if !skip {
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        def.discriminant_for_variant(tcx, vi).val as i128
                    } else {
                        0
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let t = self.ty(fty);
                        fs.push(J::A(vec![s(f.name.to_string()), n(t)]));
                    }
                    vs.push(J::O(vec![
                        ("name", s(v.name.to_string())),
                        ("discr", J::I(discr)),
                        ("fields", J::A(fs)),
                    ]));
                }
            }
            let kind = if def.is_enum() {
                "enum"
            } else if def.is_struct() {
                "struct"
            } else {
                "union"
            };
            let params: Vec<J> = tcx
                .generics_of(def.did())
                .own_params
                .iter()
                .map(|p| s(p.name.to_string()))
                .collect();
            self.adts.insert(
                k.clone(),
                J::O(vec![
                    ("kind", s(kind)),
                    ("params", J::A(params)),
                    ("local", J::B(def.did().is_local())),
                    ("variants", J::A(vs)),
                ]),
            );
        }
        k
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.ty_ix.get(&t) {
            return i;
        }
        let i = self.tys.len();
        self.tys.push(J::Null);
        self.ty_ix.insert(t, i);
        let st = with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()));
        let mut o: Vec<(&'static str, J)> = vec![("s", s(st))];
        match t.kind() {
            ty::Adt(def, args) => {
                let k = self.adt(*def);
                o.push(("k", s("adt")));
                o.push(("adt", s(k)));
                let mut v = vec![];
                for a in args.iter() {
                    if let Some(t) = a.as_type() {
                        let x = self.ty(t);
                        v.push(n(x));
                    }
                }
                o.push(("args", J::A(v)));
            }
            ty::Ref(_, t2, m) => {
                let x = self.ty(*t2);
                o.push(("k", s(if m.is_mut() { "refmut" } else { "ref" })));
                o.push(("to", n(x)));
            }
            ty::RawPtr(t2, _) => {
                let x = self.ty(*t2);
                o.push(("k", s("ptr")));
                o.push(("to", n(x)));
            }
            ty::Slice(t2) => {
                let x = self.ty(*t2);
                o.push(("k", s("slice")));
                o.push(("to", n(x)));
            }
            ty::Array(t2, _) => {
                let x = self.ty(*t2);
                o.push(("k", s("array")));
                o.push(("to", n(x)));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let mut v = vec![];
                for t2 in ts.iter() {
                    let x = self.ty(t2);
                    v.push(n(x));
                }
                o.push(("args", J::A(v)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("key", s(key(self.tcx, *d))));
                let mut v = vec![];
                for t2 in args.as_closure().upvar_tys() {
                    let x = self.ty(t2);
                    v.push(n(x));
                }
                o.push(("args", J::A(v)));
            }
            ty::Coroutine(d, args) => {
                o.push(("k", s("coroutine")));
                o.push(("key", s(key(self.tcx, *d))));
                let mut v = vec![];
                for t2 in args.as_coroutine().upvar_tys() {
                    let x = self.ty(t2);
                    v.push(n(x));
                }
                o.push(("args", J::A(v)));
            }
            ty::FnDef(d, _) => {
                o.push(("k", s("fndef")));
                o.push(("key", s(key(self.tcx, *d))));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name.to_string())));
            }
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Int(_) => o.push(("k", s("int"))),
            ty::Uint(_) => o.push(("k", s("uint"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            _ => o.push(("k", s("other"))),
        }
        self.tys[i] = J::O(o);
        i
    }
    fn fnref(&mut self, body_owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![
            ("key", s(key(tcx, d))),
            ("name", s(name(tcx, d))),
        ];
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                let x = self.ty(t);
                v.push(n(x));
            }
        }
        o.push(("targs", J::A(v)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(name(tcx, tr))));
            o.push(("item", s(tcx.item_name(d).to_string())));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            // constructor used as a function
            let parent = tcx.parent(d);
            let (adt, vi) = match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let e = tcx.parent(parent);
                    let ad = tcx.adt_def(e);
                    (ad, ad.variant_index_with_id(parent).as_usize())
                }
                _ => (tcx.adt_def(parent), 0),
            };
            let k = self.adt(adt);
            o.push(("ctor", J::A(vec![s(k), n(vi)])));
        }
        let env = TypingEnv::post_analysis(tcx, body_owner);
        let res = if args.has_non_region_param() && tcx.trait_of_assoc(d).is_none() {
            None
        } else {
            let args = tcx.erase_and_anonymize_regions(args);
            Instance::try_resolve(tcx, env, d, args).ok().flatten()
        };
        if let Some(inst) = res {
            let rd = inst.def_id();
            let kind = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                _ => "other",
            };
            let derived = tcx
                .impl_of_assoc(rd)
                .map(|i| tcx.is_automatically_derived(i))
                .unwrap_or(false);
            o.push((
                "res",
                J::O(vec![
                    ("key", s(key(tcx, rd))),
                    ("name", s(name(tcx, rd))),
                    ("kind", s(kind)),
                    ("derived", J::B(derived)),
                ]),
            ));
            if !rd.is_local() && matches!(tcx.def_kind(rd), DefKind::Fn | DefKind::AssocFn) {
                self.want_ext(rd);
            }
        }
        J::O(o)
    }
    fn want_ext(&mut self, d: DefId) {
        // external const fns of the protocol crate only: needed to evaluate its constants
        let tcx = self.tcx;
        let c = tcx.crate_name(d.krate).to_string();
        if c == "lsp_types" && tcx.is_const_fn(d) && tcx.is_mir_available(d) {
            if self.ext_seen.insert(key(tcx, d)) {
                self.ext.push(d);
            }
        }
    }
    fn place_ty(&self, body: &Body<'tcx>, p: Place<'tcx>) -> Ty<'tcx> {
        p.ty(&body.local_decls, self.tcx).ty
    }
    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut pr = vec![];
        for (base, e) in p.iter_projections() {
            let bt = base.ty(&body.local_decls, self.tcx);
            pr.push(match e {
                ProjectionElem::Deref => {
                    let t = self.ty(bt.ty);
                    J::A(vec![s("*"), n(t)])
                }
                ProjectionElem::Field(f, fty) => {
                    let nm = match bt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_enum() || def.is_struct() {
                                def.variant(vi).fields[f].name.to_string()
                            } else {
                                f.as_usize().to_string()
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let t = self.ty(fty);
                    J::A(vec![s("f"), n(f.as_usize()), s(nm), n(t)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("c"),
                    n(offset as usize),
                    n(min_length as usize),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(nm, v) => J::A(vec![
                    s("d"),
                    n(v.as_usize()),
                    s(nm.map(|x| x.to_string()).unwrap_or_default()),
                ]),
                _ => J::A(vec![s("o")]),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }
    fn scalar(&mut self, t: Ty<'tcx>, bits: u128, size: u64) -> J {
        match t.kind() {
            ty::Bool => J::O(vec![("bool", J::B(bits != 0))]),
            ty::Char => J::O(vec![(
                "char",
                s(char::from_u32(bits as u32).map(|c| c.to_string()).unwrap_or_default()),
            )]),
            ty::Int(_) => {
                let sh = 128 - size * 8;
                let v = ((bits << sh) as i128) >> sh;
                J::O(vec![("int", J::I(v))])
            }
            ty::Uint(_) => J::O(vec![("int", J::I(bits as i128))]),
            _ => J::O(vec![("bits", J::I(bits as i128))]),
        }
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let inner = match t.kind() {
            ty::Ref(_, i, _) => Some(*i),
            _ => None,
        };
        match v {
            ConstValue::ZeroSized => return J::O(vec![("zst", J::B(true))]),
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                if matches!(
                    t.kind(),
                    ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_)
                ) {
                    let sz = i.size();
                    return self.scalar(t, i.to_bits(sz), sz.bytes());
                }
            }
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    if inner.map(|x| x.is_str()).unwrap_or(false) {
                        return J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))]);
                    }
                    return J::O(vec![(
                        "bytes",
                        J::A(b.iter().map(|x| J::I(*x as i128)).collect()),
                    )]);
                }
            }
            _ => {}
        }
        // &[u8; N] byte-string constants
        if let Some(i) = inner {
            if let ty::Array(et, len) = i.kind() {
                if matches!(et.kind(), ty::Uint(ty::UintTy::U8)) {
                    if let (ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), Some(len)) =
                        (v, len.try_to_target_usize(tcx))
                    {
                        let (prov, off) = p.into_raw_parts();
                        if let mir::interpret::GlobalAlloc::Memory(a) =
                            tcx.global_alloc(prov.alloc_id())
                        {
                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                off.bytes_usize()..off.bytes_usize() + len as usize,
                            );
                            return J::O(vec![(
                                "bytes",
                                J::A(b.iter().map(|x| J::I(*x as i128)).collect()),
                            )]);
                        }
                    }
                }
            }
        }
        // structured constants (enums, tuples, structs)
        if let (ty::FnPtr(..), ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _))) = (t.kind(), v) {
            let (prov, _) = p.into_raw_parts();
            if let mir::interpret::GlobalAlloc::Function { instance, .. } = tcx.global_alloc(prov.alloc_id()) {
                let f = self.fnref(instance.def_id(), instance.def_id(), instance.args);
                return J::O(vec![("fnptr", f)]);
            }
        }
        if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) {
            if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                let mut fs = vec![];
                for (fv, ft) in d.fields.iter() {
                    let x = self.cval(*fv, *ft);
                    let ti = self.ty(*ft);
                    fs.push(J::O(vec![("ty", n(ti)), ("v", x)]));
                }
                let vi = d.variant.map(|v| v.as_usize()).unwrap_or(0);
                return J::O(vec![("agg", n(vi)), ("fields", J::A(fs))]);
            }
        }
        J::O(vec![("unk", s(format!("{:?}", v)))])
    }
    fn constant(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("ty", n(ti))];
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            let f = self.fnref(owner, *d, args);
            o.push(("fn", f));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("item", s(key(tcx, u.def))));
            o.push(("itemname", s(name(tcx, u.def))));
            if !u.def.is_local() {
                let cn = tcx.crate_name(u.def.krate).to_string();
                if cn == "lsp_types" && self.ext_seen.insert(key(tcx, u.def)) {
                    self.ext.push(u.def);
                }
            }
        }
        let env = TypingEnv::post_analysis(tcx, owner);
        if !c.const_.has_non_region_param() {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                let x = self.cval(v, t);
                o.push(("v", x));
                return J::O(o);
            }
        }
        o.push(("v", J::O(vec![("unk", s(format!("{:?}", c.const_)))])));
        J::O(o)
    }
    fn op(&mut self, owner: DefId, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => {
                let x = self.place(body, *p);
                J::A(vec![s("c"), x])
            }
            Operand::Move(p) => {
                let x = self.place(body, *p);
                J::A(vec![s("m"), x])
            }
            Operand::Constant(c) => {
                let x = self.constant(owner, c);
                J::A(vec![s("k"), x])
            }
            _ => J::A(vec![s("o")]),
        }
    }
    fn rvalue(&mut self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => {
                let x = self.op(owner, body, o);
                J::A(vec![s("use"), x])
            }
            Rvalue::Repeat(o, c) => {
                let x = self.op(owner, body, o);
                let l = c
                    .try_to_target_usize(self.tcx)
                    .map(|v| n(v as usize))
                    .unwrap_or(J::Null);
                J::A(vec![s("repeat"), x, l])
            }
            Rvalue::Ref(_, k, p) => {
                let x = self.place(body, *p);
                let t = self.place_ty(body, *p);
                let t = self.ty(t);
                let ks = match k {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shared",
                    _ => "fake",
                };
                J::A(vec![s("ref"), s(ks), x, n(t)])
            }
            Rvalue::RawPtr(_, p) => {
                let x = self.place(body, *p);
                J::A(vec![s("rawptr"), x])
            }
            Rvalue::Cast(k, o, t) => {
                let x = self.op(owner, body, o);
                let st = o.ty(&body.local_decls, self.tcx);
                let st = self.ty(st);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), x, n(t), n(st)])
            }
            Rvalue::BinaryOp(b, ab) => {
                let x = self.op(owner, body, &ab.0);
                let y = self.op(owner, body, &ab.1);
                let t = ab.0.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                J::A(vec![s("bin"), s(format!("{:?}", b)), x, y, n(t)])
            }
            Rvalue::UnaryOp(u, o) => {
                let x = self.op(owner, body, o);
                J::A(vec![s("un"), s(format!("{:?}", u)), x])
            }
            Rvalue::Discriminant(p) => {
                let x = self.place(body, *p);
                let t = self.place_ty(body, *p);
                let t = self.ty(t);
                J::A(vec![s("discr"), x, n(t)])
            }
            Rvalue::Aggregate(k, os) => {
                let mut v = vec![];
                for o in os.iter() {
                    v.push(self.op(owner, body, o));
                }
                let kk = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, fi) => {
                        let def = self.tcx.adt_def(*d);
                        let k = self.adt(def);
                        J::A(vec![
                            s("adt"),
                            s(k),
                            n(vi.as_usize()),
                            fi.map(|f| n(f.as_usize())).unwrap_or(J::Null),
                        ])
                    }
                    AggregateKind::Closure(d, _) => {
                        J::A(vec![s("closure"), s(key(self.tcx, *d))])
                    }
                    AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        J::A(vec![s("coroutine"), s(key(self.tcx, *d))])
                    }
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kk, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let x = self.place(body, *p);
                J::A(vec![s("use"), J::A(vec![s("c"), x])])
            }
            Rvalue::Reborrow(_, m, p) => {
                let x = self.place(body, *p);
                let t = self.place_ty(body, *p);
                let t = self.ty(t);
                J::A(vec![s("reborrow"), J::B(m.is_mut()), x, n(t)])
            }
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }
    fn body(&mut self, owner: DefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut locals = vec![];
        for d in body.local_decls.iter() {
            locals.push(n(self.ty(d.ty)));
        }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                let x = self.place(body, p);
                names.push(J::A(vec![s(v.name.to_string()), x]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for st in bb.statements.iter() {
                match &st.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(body, a.0);
                        let r = self.rvalue(owner, body, &a.1);
                        let sp = self.span(st.source_info.span);
                        ss.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, **place);
                        ss.push(J::A(vec![s("sd"), p, n(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => {
                        ss.push(J::A(vec![s("dead"), n(l.as_usize())]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tk = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    J::A(vec![s("goto"), n(target.as_usize())])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(owner, body, discr);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dti = self.ty(dt);
                    let mut v = vec![];
                    for (val, b) in targets.iter() {
                        let val = match dt.kind() {
                            ty::Int(it) => {
                                let size = it.normalize(64).bit_width().unwrap_or(64);
                                let sh = 128 - size;
                                ((val << sh) as i128) >> sh
                            }
                            _ => val as i128,
                        };
                        v.push(J::A(vec![J::I(val), n(b.as_usize())]));
                    }
                    J::A(vec![
                        s("switch"),
                        o,
                        n(dti),
                        J::A(v),
                        n(targets.otherwise().as_usize()),
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(body, *place);
                    J::A(vec![s("drop"), p, n(target.as_usize())])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(owner, body, func);
                    let mut v = vec![];
                    for a in args.iter() {
                        v.push(self.op(owner, body, &a.node));
                    }
                    let d = self.place(body, *destination);
                    let dt = self.place_ty(body, *destination);
                    let dt = self.ty(dt);
                    let mut ats = vec![];
                    for a in args.iter() {
                        let at = a.node.ty(&body.local_decls, tcx);
                        ats.push(n(self.ty(at)));
                    }
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(v),
                        d,
                        target.map(|b| n(b.as_usize())).unwrap_or(J::Null),
                        n(dt),
                        J::A(ats),
                        J::B(t.source_info.span.from_expansion()),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(owner, body, cond);
                    let mut mo = vec![];
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            mo.push(self.op(owner, body, len));
                            mo.push(self.op(owner, body, index));
                            "bounds"
                        }
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "div0",
                        _ => "other",
                    };
                    J::A(vec![
                        s("assert"),
                        c,
                        J::B(*expected),
                        s(m),
                        n(target.as_usize()),
                        J::A(mo),
                    ])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let v = self.op(owner, body, value);
                    let d = self.place(body, *resume_arg);
                    J::A(vec![s("yield"), v, n(resume.as_usize()), d])
                }
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_usize())])
                }
                TerminatorKind::UnwindResume
                | TerminatorKind::UnwindTerminate(_)
                | TerminatorKind::CoroutineDrop => J::A(vec![s("unwind")]),
                other => J::A(vec![s("other"), s(format!("{:?}", other))]),
            };
            blocks.push(J::A(vec![J::A(ss), tk, sp, J::B(bb.is_cleanup)]));
        }
        let mut gens = vec![];
        let mut g = Some(tcx.generics_of(owner));
        let mut all = vec![];
        while let Some(x) = g {
            let mut own: Vec<String> = vec![];
            for p in x.own_params.iter() {
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                    own.push(p.name.to_string());
                }
            }
            all.push(own);
            g = x.parent.map(|p| tcx.generics_of(p));
        }
        all.reverse();
        for o in all {
            for x in o {
                gens.push(s(x));
            }
        }
        let kind = match tcx.def_kind(owner) {
            DefKind::Closure => {
                if tcx.is_coroutine(owner) {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            DefKind::Fn => "fn",
            DefKind::AssocFn => "assoc",
            DefKind::Const { .. } => "const",
            DefKind::AssocConst { .. } => "const",
            DefKind::Static { .. } => "static",
            _ => "other",
        };
        let mut o = vec![
            ("key", s(key(tcx, owner))),
            ("name", s(name(tcx, owner))),
            ("kind", s(kind)),
            ("argc", n(body.arg_count)),
            ("generics", J::A(gens)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("span", self.span(tcx.def_span(owner))),
            ("blocks", J::A(blocks)),
        ];
        if kind == "assoc" {
            if let Some(i) = tcx.impl_of_assoc(owner) {
                o.push(("derived", J::B(tcx.is_automatically_derived(i))));
                if let Some(tr) = tcx.impl_opt_trait_ref(i) {
                    let tr = tr.skip_binder();
                    o.push(("trait", s(name(tcx, tr.def_id))));
                    let st = self.ty(tr.self_ty());
                    o.push(("self", n(st)));
                    o.push(("item", s(tcx.item_name(owner).to_string())));
                }
            }
        }
        if matches!(kind, "fn" | "assoc") {
            o.push(("pub", J::B(tcx.visibility(owner).is_public())));
        }
        J::O(o)
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("BRACKMIR_OUT") else {
            return Compilation::Continue;
        };
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut bodies = vec![];
        for d in tcx.hir_body_owners() {
            if !matches!(
                tcx.def_kind(d),
                DefKind::Fn
                    | DefKind::AssocFn
                    | DefKind::Closure
                    | DefKind::Const { .. }
                    | DefKind::AssocConst { .. }
                    | DefKind::Static { .. }
            ) {
                continue;
            }
            if tcx.typeck(d).tainted_by_errors.is_some() {
                continue;
            }
            let b = tcx.mir_built(d);
            if b.is_stolen() {
                tcx.dcx().warn(format!("brackmir: stolen {:?}", d));
                continue;
            }
            bodies.push((d.to_def_id(), b.borrow().clone()));
        }
        let mut dd = D {
            tcx,
            tys: vec![],
            ty_ix: HashMap::new(),
            adts: BTreeMap::new(),
            adt_seen: BTreeSet::new(),
            ext: vec![],
            ext_seen: BTreeSet::new(),
        };
        let mut fns = vec![];
        for (d, b) in bodies.iter() {
            fns.push(dd.body(*d, b));
        }
        while let Some(d) = dd.ext.pop() {
            let b = tcx.mir_for_ctfe(d).clone();
            fns.push(dd.body(d, &b));
        }
        let adts = J::M(dd.adts.into_iter().collect());
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let kinds: Vec<String> = tcx.crate_types().iter().map(|t| format!("{:?}", t)).collect();
        let test = tcx.sess.is_test_crate();
        let j = J::O(vec![
            ("crate", s(krate.clone())),
            ("types_of_crate", J::A(kinds.iter().map(|k| s(k.clone())).collect())),
            ("test", J::B(test)),
            ("types", J::A(dd.tys)),
            ("adts", adts),
            ("fns", J::A(fns)),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        let f = format!("{}/{}.{}.json", out, krate, kinds.join("_"));
        if !test {
            std::fs::write(&f, o).unwrap();
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked by cargo as: brackmir <path to rustc> <rustc args...>
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb)
    });
    let ok = format!("{:?}", code) == format!("{:?}", std::process::ExitCode::SUCCESS);
    std::process::exit(if ok { 0 } else { 1 });
}
