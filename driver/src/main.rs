//! Fact extractor: a rustc driver which, for the crate named by FACTS_CRATE,
//! writes the freshly built MIR of every body, the types, ADTs, impls and
//! evaluated constants as one JSON file (FACTS_OUT). It is used as
//! RUSTC_WORKSPACE_WRAPPER, so it sees exactly what cargo compiles. It never
//! runs any code of the analysed crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_type_ir;

mod json;
use json::J;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let want = std::env::var("FACTS_CRATE").unwrap_or_default();
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let test = tcx.sess.opts.test;
        if want.split(',').any(|w| w == name) && !test {
            let out = std::env::var("FACTS_OUT").expect("FACTS_OUT");
            let out = out.replace("{crate}", &name);
            let mut d = Dump::new(tcx);
            let j = d.run();
            let mut s = String::new();
            j.write(&mut s);
            std::fs::write(&out, s).expect("write facts");
        }
        rustc_driver::Compilation::Continue
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<(String, J)>,
    adtseen: HashMap<DefId, String>,
    consts: Vec<(String, J)>,
    constseen: HashMap<DefId, ()>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: impl Into<i128>) -> J {
    J::N(x.into())
}
fn us(x: usize) -> J {
    J::N(x as i128)
}

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dump {
            tcx,
            types: vec![],
            tymap: HashMap::new(),
            adts: vec![],
            adtseen: HashMap::new(),
            consts: vec![],
            constseen: HashMap::new(),
        }
    }

    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    /// unique id
    fn id(&self, d: DefId) -> String {
        let c = self.tcx.crate_name(d.krate);
        format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn adt(&mut self, a: ty::AdtDef<'tcx>) -> String {
        let d = a.did();
        if let Some(p) = self.adtseen.get(&d) {
            return p.clone();
        }
        let p = self.id(d);
        self.adtseen.insert(d, p.clone());
        let mut vs = vec![];
        let discrs: HashMap<_, _> = if a.is_enum() {
            a.discriminants(self.tcx).map(|(i, d)| (i, d.val)).collect()
        } else {
            HashMap::new()
        };
        for (i, v) in a.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let fty = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = if d.is_local() { us(self.ty(fty)) } else { J::Null };
                fs.push(J::A(vec![
                    s(f.name.to_string()),
                    t,
                    J::B(f.vis.is_public()),
                ]));
            }
            vs.push(J::O(vec![
                ("name", s(v.name.to_string())),
                ("discr", J::N(discrs.get(&i).copied().unwrap_or(0) as i128)),
                ("fields", J::A(fs)),
            ]));
        }
        let j = J::O(vec![
            (
                "kind",
                s(if a.is_enum() {
                    "enum"
                } else if a.is_union() {
                    "union"
                } else {
                    "struct"
                }),
            ),
            ("local", J::B(d.is_local())),
            ("path", s(self.path(d))),
            ("variants", J::A(vs)),
        ]);
        self.adts.push((p.clone(), j));
        p
    }

    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => v.push(us(self.ty(t))),
                GenericArgKind::Const(c) => v.push(J::O(vec![("c", s(format!("{c}")))])),
                _ => v.push(J::Null),
            }
        }
        J::A(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let idx = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, idx);
        let mut o: Vec<(&'static str, J)> = vec![];
        use rustc_type_ir::TyKind::*;
        match *t.kind() {
            Bool => o.push(("k", s("bool"))),
            Char => o.push(("k", s("char"))),
            Str => o.push(("k", s("str"))),
            Never => o.push(("k", s("never"))),
            Int(i) => {
                o.push(("k", s("int")));
                o.push(("n", s(i.name_str())));
            }
            Uint(i) => {
                o.push(("k", s("uint")));
                o.push(("n", s(i.name_str())));
            }
            Float(i) => {
                o.push(("k", s("float")));
                o.push(("n", s(i.name_str())));
            }
            Adt(a, args) => {
                let p = self.adt(a);
                o.push(("k", s("adt")));
                o.push(("p", s(p)));
                let a = self.args(args);
                o.push(("a", a));
            }
            Array(t, c) => {
                o.push(("k", s("array")));
                let t = us(self.ty(t));
                o.push(("t", t));
                o.push((
                    "n",
                    match c.try_to_target_usize(self.tcx) {
                        Some(x) => J::N(x as i128),
                        None => J::Null,
                    },
                ));
            }
            Slice(t) => {
                o.push(("k", s("slice")));
                let t = us(self.ty(t));
                o.push(("t", t));
            }
            Ref(_, t, m) => {
                o.push(("k", s("ref")));
                o.push(("m", J::B(m.is_mut())));
                let t = us(self.ty(t));
                o.push(("t", t));
            }
            RawPtr(t, m) => {
                o.push(("k", s("ptr")));
                o.push(("m", J::B(m.is_mut())));
                let t = us(self.ty(t));
                o.push(("t", t));
            }
            FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| {
                    self.tcx.instantiate_bound_regions_with_erased(args)
                });
                o.push(("k", s("fndef")));
                let f = self.fnref(d, args);
                o.push(("f", f));
            }
            FnPtr(..) => o.push(("k", s("fnptr"))),
            Dynamic(preds, _) => {
                o.push(("k", s("dyn")));
                let mut v = vec![];
                if let Some(p) = preds.principal_def_id() {
                    v.push(s(self.id(p)));
                }
                for p in preds.auto_traits() {
                    v.push(s(self.id(p)));
                }
                o.push(("p", J::A(v)));
            }
            Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("id", s(self.id(d))));
                let a = self.args(self.tcx.mk_args(args.as_closure().parent_args()));
                o.push(("a", a));
            }
            Coroutine(d, args) => {
                o.push(("k", s("coroutine")));
                o.push(("id", s(self.id(d))));
                let a = self.args(self.tcx.mk_args(args.as_coroutine().parent_args()));
                o.push(("a", a));
            }
            CoroutineClosure(d, _) => {
                o.push(("k", s("corclosure")));
                o.push(("id", s(self.id(d))));
            }
            Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|t| us(self.ty(t))).collect();
                o.push(("a", J::A(v)));
            }
            Alias(_, a) => {
                o.push(("k", s("alias")));
                let d: DefId = match a.kind {
                    ty::AliasTyKind::Projection { def_id } => def_id.into(),
                    ty::AliasTyKind::Inherent { def_id } => def_id.into(),
                    ty::AliasTyKind::Opaque { def_id } => def_id.into(),
                    ty::AliasTyKind::Free { def_id } => def_id.into(),
                };
                o.push(("p", s(self.id(d))));
                if let Some(tr) = self.tcx.trait_of_assoc(d) {
                    o.push(("tr", s(self.id(tr))));
                    o.push(("nm", s(self.tcx.item_name(d).to_string())));
                }
                let a = self.args(a.args);
                o.push(("a", a));
            }
            Param(p) => {
                o.push(("k", s("param")));
                o.push(("n", s(p.name.to_string())));
                o.push(("i", n(p.index as i128)));
            }
            _ => o.push(("k", s("other"))),
        }
        o.push(("s", s(with_no_trimmed_paths!(format!("{t}")))));
        self.types[idx] = J::O(o);
        idx
    }

    /// description of a callee
    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("p", s(self.path(d))));
        o.push(("id", s(self.id(d))));
        if d.is_local() {
            o.push(("local", J::B(true)));
        }
        o.push(("nm", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        let nm = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default();
        let mut cn = self.id(d);
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("tr", s(self.id(tr))));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let head = match *st.kind() {
                rustc_type_ir::TyKind::Adt(a, _) => self.id(a.did()),
                rustc_type_ir::TyKind::Slice(_) => "slice".to_string(),
                rustc_type_ir::TyKind::Array(..) => "array".to_string(),
                _ => with_no_trimmed_paths!(format!("{st}")),
            };
            cn = format!("{head}::{nm}");
            if let Some(tr) = tcx.impl_opt_trait_id(im) {
                o.push(("itr", s(self.id(tr))));
                cn = format!("<{head} as {}>::{nm}", self.id(tr));
            }
            let st = self.ty(st);
            o.push(("iself", us(st)));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let v = tcx.parent(d);
            let (adt, variant) = if tcx.def_kind(v) == DefKind::Variant {
                let adt = tcx.parent(v);
                (adt, Some(v))
            } else {
                (v, None)
            };
            let a = tcx.adt_def(adt);
            let p = self.adt(a);
            o.push(("ctor", s(p)));
            let vi = match variant {
                Some(v) => a.variant_index_with_id(v).as_u32(),
                None => 0,
            };
            o.push(("cv", n(vi as i128)));
        }
        o.push(("cn", s(cn)));
        let a = self.args(args);
        o.push(("a", a));
        J::O(o)
    }

    fn fn_const(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut j = self.fnref(d, args);
        if self.tcx.trait_of_assoc(d).is_some() {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let args = self.tcx.erase_and_anonymize_regions(args);
                Instance::try_resolve(self.tcx, env, d, args)
            }));
            if let Ok(Ok(Some(i))) = r {
                let rd = i.def_id();
                if rd != d || matches!(i.def, ty::InstanceKind::Item(_)) {
                    let mut rj = self.fnref(rd, i.args);
                    if let (J::O(o), true) = (&mut rj, rd == d) {
                        // resolved to the trait's own provided method
                        o.push(("dflt", J::B(true)));
                    }
                    if let J::O(o) = &mut j {
                        o.push(("res", rj));
                    }
                }
            }
        }
        j
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::O(vec![("k", s("deep"))]);
        }
        let t = match *t.kind() {
            ty::Pat(inner, _) => inner,
            _ => t,
        };
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let Some(si) = v.try_to_scalar_int() {
                    let bits = si.to_bits_unchecked();
                    let val: J = match *t.kind() {
                        ty::Int(_) => J::N(si.size().sign_extend(bits)),
                        ty::Char => J::O(vec![(
                            "ch",
                            s(char::from_u32(bits as u32).map(|c| c.to_string()).unwrap_or_default()),
                        )]),
                        ty::Bool => J::B(bits != 0),
                        ty::Float(ty::FloatTy::F32) => {
                            s(format!("{:?}", f32::from_bits(bits as u32)))
                        }
                        ty::Float(ty::FloatTy::F64) => {
                            s(format!("{:?}", f64::from_bits(bits as u64)))
                        }
                        _ => {
                            if bits <= i128::MAX as u128 {
                                J::N(bits as i128)
                            } else {
                                s(bits.to_string())
                            }
                        }
                    };
                    return J::O(vec![("k", s("lit")), ("v", val)]);
                }
            }
            ty::Ref(_, inner, _) => {
                match *inner.kind() {
                    ty::Str => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return J::O(vec![
                                ("k", s("str")),
                                ("v", s(String::from_utf8_lossy(b).to_string())),
                            ]);
                        }
                    }
                    ty::Slice(e) if e == tcx.types.u8 => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return J::O(vec![
                                ("k", s("bytes")),
                                ("v", J::A(b.iter().map(|x| n(*x as i128)).collect())),
                            ]);
                        }
                    }
                    ty::Slice(e) => {
                        if let ConstValue::Slice { alloc_id, meta } = v {
                            let at = Ty::new_array(tcx, e, meta);
                            let iv = ConstValue::Indirect {
                                alloc_id,
                                offset: rustc_abi::Size::ZERO,
                            };
                            let x = self.cval(iv, at, depth + 1);
                            return J::O(vec![("k", s("ref")), ("v", x)]);
                        }
                        if let Some((a, off, meta)) = self.fat(v) {
                            let at = Ty::new_array(tcx, e, meta);
                            let iv = ConstValue::Indirect { alloc_id: a, offset: off };
                            let x = self.cval(iv, at, depth + 1);
                            return J::O(vec![("k", s("ref")), ("v", x)]);
                        }
                    }
                    _ if inner.is_sized(tcx, TypingEnv::fully_monomorphized()) => {
                        let sc = match v {
                            ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                                let (prov, off) = p.prov_and_relative_offset();
                                Some((prov.alloc_id(), off))
                            }
                            ConstValue::Indirect { alloc_id, offset } => {
                                self.thin(alloc_id, offset)
                            }
                            _ => None,
                        };
                        if let Some((a, off)) = sc {
                            let mut a = a;
                            if let interpret::GlobalAlloc::Static(d) = tcx.global_alloc(a) {
                                let env = TypingEnv::fully_monomorphized();
                                if !tcx.is_foreign_item(d)
                                    && !tcx.is_mutable_static(d)
                                    && inner.is_freeze(tcx, env)
                                {
                                    if let Ok(al) = tcx.eval_static_initializer(d) {
                                        a = tcx.reserve_and_set_memory_alloc(al);
                                    }
                                }
                            }
                            if let interpret::GlobalAlloc::Memory(_) = tcx.global_alloc(a) {
                                let iv = ConstValue::Indirect { alloc_id: a, offset: off };
                                let x = self.cval(iv, inner, depth + 1);
                                return J::O(vec![("k", s("ref")), ("v", x)]);
                            }
                        }
                    }
                    _ => {}
                }
            }
            ty::FnDef(..) => return J::O(vec![("k", s("zst"))]),
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Adt(a, _) = t.kind() {
                    if a.is_union() {
                        return J::O(vec![("k", s("opaque"))]);
                    }
                }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let var = dc.variant.map(|v| n(v.as_u32() as i128)).unwrap_or(J::Null);
                    let f = dc
                        .fields
                        .iter()
                        .map(|(v, t)| {
                            let x = self.cval(*v, *t, depth + 1);
                            J::A(vec![x, us(self.ty(*t))])
                        })
                        .collect();
                    return J::O(vec![("k", s("agg")), ("var", var), ("f", J::A(f))]);
                }
            }
            _ => {}
        }
        if matches!(v, ConstValue::ZeroSized) {
            return J::O(vec![("k", s("zst"))]);
        }
        J::O(vec![("k", s("opaque"))])
    }

    fn thin(
        &self,
        a: interpret::AllocId,
        off: rustc_abi::Size,
    ) -> Option<(interpret::AllocId, rustc_abi::Size)> {
        let interpret::GlobalAlloc::Memory(al) = self.tcx.global_alloc(a) else { return None };
        let al = al.inner();
        let prov = al.provenance().ptrs().iter().find(|(o, _)| *o == off)?.1;
        let b = al.inspect_with_uninit_and_ptr_outside_interpreter(
            off.bytes_usize()..off.bytes_usize() + 8,
        );
        let o = u64::from_le_bytes(b.try_into().ok()?);
        Some((prov.alloc_id(), rustc_abi::Size::from_bytes(o)))
    }
    fn fat(
        &self,
        v: ConstValue,
    ) -> Option<(interpret::AllocId, rustc_abi::Size, u64)> {
        let ConstValue::Indirect { alloc_id, offset } = v else { return None };
        let (a, o) = self.thin(alloc_id, offset)?;
        let interpret::GlobalAlloc::Memory(al) = self.tcx.global_alloc(alloc_id) else {
            return None;
        };
        let st = offset.bytes_usize() + 8;
        let b = al.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + 8);
        Some((a, o, u64::from_le_bytes(b.try_into().ok()?)))
    }

    fn konst(&mut self, c: &mir::Const<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(d, args) = *t.kind() {
            let args = tcx.instantiate_bound_regions_with_erased(args);
            let f = self.fn_const(d, args, env);
            return J::O(vec![("k", s("fn")), ("f", f)]);
        }
        let ti = us(self.ty(t));
        match *c {
            mir::Const::Ty(_, ct) => {
                if let Some(u) = ct.try_to_target_usize(tcx) {
                    return J::O(vec![("k", s("lit")), ("v", J::N(u as i128)), ("t", ti)]);
                }
                if let ty::ConstKind::Value(v) = ct.kind() {
                    if v.ty.is_str() || matches!(v.ty.kind(), ty::Ref(_, i, _) if i.is_str()) {
                        let bytes: Option<Vec<u8>> = v
                            .try_to_branch()
                            .and_then(|b| {
                                b.iter()
                                    .map(|x| x.try_to_value()?.try_to_leaf().map(|l| l.to_u8()))
                                    .collect()
                            });
                        if let Some(b) = bytes {
                            return J::O(vec![
                                ("k", s("str")),
                                ("v", s(String::from_utf8_lossy(&b).to_string())),
                                ("t", ti),
                            ]);
                        }
                    }
                }
                J::O(vec![("k", s("tyconst")), ("s", s(format!("{ct}"))), ("t", ti)])
            }
            mir::Const::Unevaluated(u, _) => {
                let mut o = vec![("k", s("named"))];
                o.push(("p", s(self.path(u.def))));
                o.push(("id", s(self.id(u.def))));
                if let Some(tr) = tcx.trait_of_assoc(u.def) {
                    o.push(("nm", s(tcx.item_name(u.def).to_string())));
                    o.push(("tr", s(self.id(tr))));
                }
                if let Some(p) = u.promoted {
                    o.push(("promoted", n(p.as_u32() as i128)));
                }
                let a = self.args(u.args);
                o.push(("a", a));
                o.push(("t", ti));
                if !ty::TypeVisitableExt::has_param(&u.args) && u.promoted.is_none() {
                    let r = c.eval(tcx, TypingEnv::fully_monomorphized(), rustc_span::DUMMY_SP);
                    if let Ok(v) = r {
                        let x = self.cval(v, t, 0);
                        o.push(("v", x));
                    }
                }
                J::O(o)
            }
            mir::Const::Val(v, _) => {
                let x = self.cval(v, t, 0);
                match x {
                    J::O(mut o) => {
                        o.push(("t", ti));
                        J::O(o)
                    }
                    x => x,
                }
            }
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    J::A(vec![s("f"), n(f.as_u32() as i128), us(self.ty(t))])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), n(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), n(from as i128), n(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), n(v.as_u32() as i128)]),
                _ => s("?"),
            });
        }
        J::A(vec![n(p.local.as_u32() as i128), J::A(pr)])
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(&c.const_, env)]),
            _ => J::A(vec![s("rt")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o, env)]),
            Rvalue::Repeat(o, c) => J::A(vec![
                s("repeat"),
                self.operand(o, env),
                c.try_to_target_usize(self.tcx).map(|x| J::N(x as i128)).unwrap_or(J::Null),
            ]),
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                self.place(p),
                J::B(matches!(k, BorrowKind::Mut { .. })),
                J::B(matches!(k, BorrowKind::Fake(_))),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(p), J::B(true), J::B(false)]),
            Rvalue::Reborrow(_, _, p) => {
                J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p)])])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p)])]),
            Rvalue::Cast(k, o, t) => J::A(vec![
                s("cast"),
                s(format!("{k:?}")),
                self.operand(o, env),
                us(self.ty(*t)),
            ]),
            Rvalue::BinaryOp(op, b) => J::A(vec![
                s("bin"),
                s(format!("{op:?}")),
                self.operand(&b.0, env),
                self.operand(&b.1, env),
            ]),
            Rvalue::UnaryOp(op, o) => {
                J::A(vec![s("un"), s(format!("{op:?}")), self.operand(o, env)])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o, env)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), us(self.ty(*t))]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let a = self.tcx.adt_def(*d);
                        let p = self.adt(a);
                        let ar = self.args(args);
                        J::A(vec![
                            s("adt"),
                            s(p),
                            n(v.as_u32() as i128),
                            ar,
                            f.map(|f| n(f.as_u32() as i128)).unwrap_or(J::Null),
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let a = self.args(self.tcx.mk_args(args.as_closure().parent_args()));
                        J::A(vec![s("closure"), s(self.id(*d)), a])
                    }
                    AggregateKind::Coroutine(d, args) => {
                        let a = self.args(self.tcx.mk_args(args.as_coroutine().parent_args()));
                        J::A(vec![s("coroutine"), s(self.id(*d)), a])
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        J::A(vec![s("corclosure"), s(self.id(*d))])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                };
                J::A(vec![s("agg"), kk, J::A(ops)])
            }
            other => J::A(vec![s("other"), s(format!("{other:?}"))]),
        }
    }

    fn line(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        us(l.line)
    }
    fn file(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}", l.file.name.prefer_local_unconditionally())
    }

    fn body(&mut self, d: DefId, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::non_body_analysis(tcx, d);
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", s(self.path(d))));
        o.push(("kind", s(format!("{:?}", tcx.def_kind(d)))));
        o.push(("file", s(self.file(b.span))));
        o.push(("line", self.line(b.span)));
        o.push(("nm", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        let root = tcx.typeck_root_def_id(d);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Const{..} | DefKind::AssocConst{..} | DefKind::Static{..}) {
            o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
        }
        if matches!(tcx.def_kind(root), DefKind::Fn | DefKind::AssocFn) {
            o.push(("unsafe", J::B(!tcx.fn_sig(root).skip_binder().safety().is_safe())));
            if d == root { o.push(("async", J::B(tcx.asyncness(root).is_async()))); }
        }
        o.push(("root", s(self.id(root))));
        if let Some(im) = tcx.impl_of_assoc(root) {
            o.push(("impl", s(self.id(im))));
        }
        if let Some(tr) = tcx.trait_of_assoc(root) {
            o.push(("trait", s(self.id(tr))));
        }
        let g = tcx.generics_of(root);
        let mut gs = vec![];
        for i in 0..g.count() {
            gs.push(s(g.param_at(i, tcx).name.to_string()));
        }
        o.push(("generics", J::A(gs)));
        o.push(("argc", us(b.arg_count)));
        o.push((
            "locals",
            J::A(b.local_decls.iter().map(|l| us(self.ty(l.ty))).collect()),
        ));
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                dbg.push(J::A(vec![s(v.name.to_string()), self.place(&p)]));
            }
        }
        o.push(("vars", J::A(dbg)));
        let mut bs = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let rv = self.rvalue(&a.1, env);
                        let pl = self.place(&a.0);
                        st.push(J::A(vec![s("="), pl, rv, self.line(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place);
                        st.push(J::A(vec![s("setd"), pl, n(variant_index.as_u32() as i128)]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), n(l.as_u32() as i128)]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let bi = |b: BasicBlock| us(b.as_usize());
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bi(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dj = self.operand(discr, env);
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dt = self.ty(dt);
                    let ts = targets
                        .iter()
                        .map(|(v, b)| {
                            J::A(vec![
                                if v <= i128::MAX as u128 {
                                    J::N(v as i128)
                                } else {
                                    s(v.to_string())
                                },
                                bi(b),
                            ])
                        })
                        .collect();
                    J::A(vec![s("switch"), dj, J::A(ts), bi(targets.otherwise()), us(dt)])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&b.local_decls, tcx).ty;
                    J::A(vec![s("drop"), self.place(place), bi(*target), us(self.ty(ty))])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(func, env);
                    let a = args.iter().map(|a| self.operand(&a.node, env)).collect();
                    let at = args
                        .iter()
                        .map(|a| {
                            let t = a.node.ty(&b.local_decls, tcx);
                            us(self.ty(t))
                        })
                        .collect();
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        self.place(destination),
                        target.map(bi).unwrap_or(J::Null),
                        self.line(*fn_span),
                        J::A(at),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::OverflowNeg(_) => "overflow:neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        other => format!("{other:?}").chars().take(40).collect(),
                    };
                    J::A(vec![
                        s("assert"),
                        self.operand(cond, env),
                        J::B(*expected),
                        bi(*target),
                        s(m),
                        self.line(t.source_info.span),
                    ])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => J::A(vec![
                    s("yield"),
                    self.operand(value, env),
                    bi(*resume),
                    self.place(resume_arg),
                ]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), bi(*real_target)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), bi(*real_target)])
                }
                TerminatorKind::UnwindResume
                | TerminatorKind::UnwindTerminate(_)
                | TerminatorKind::CoroutineDrop => J::A(vec![s("unwind")]),
                other => J::A(vec![s("other"), s(format!("{other:?}"))]),
            };
            bs.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("l", self.line(t.source_info.span)),
                ("c", J::B(bb.is_cleanup)),
            ]));
        }
        o.push(("blocks", J::A(bs)));
        J::O(o)
    }

    fn run(&mut self) -> J {
        let tcx = self.tcx;
        // 1. clone all built bodies before anything steals them
        let mut bodies = vec![];
        let mut skipped = vec![];
        let owners: Vec<_> = tcx.hir_body_owners().collect();
        for d in &owners {
            let st = tcx.mir_built(*d);
            if st.is_stolen() {
                skipped.push(s(self.id(d.to_def_id())));
                continue;
            }
            bodies.push((d.to_def_id(), st.borrow().clone()));
        }
        // 2. serialise
        let mut bj = vec![];
        for (d, b) in &bodies {
            let id = self.id(*d);
            if b.tainted_by_errors.is_some() {
                continue;
            }
            let j = self.body(*d, b);
            bj.push((id, j));
        }
        // impls, traits
        let mut impls = vec![];
        let mut traits = vec![];
        let mut items = vec![];
        for it in tcx.hir_free_items() {
            let d = it.owner_id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Impl { of_trait } => {
                    let mut o: Vec<(&'static str, J)> = vec![("id", s(self.id(d)))];
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    o.push(("self", us(self.ty(st))));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(self.id(tr.def_id))));
                        let a = self.args(tr.args);
                        o.push(("targs", a));
                    }
                    let g = tcx.generics_of(d);
                    let mut gs = vec![];
                    for i in 0..g.count() {
                        gs.push(s(g.param_at(i, tcx).name.to_string()));
                    }
                    o.push(("generics", J::A(gs)));
                    let mut ms = vec![];
                    let mut tys = vec![];
                    for ai in tcx.associated_items(d).in_definition_order() {
                        let nm = ai.opt_name().map(|x| x.to_string()).unwrap_or_default();
                        match ai.kind {
                            ty::AssocKind::Type { .. } => {
                                let t = tcx.type_of(ai.def_id).instantiate_identity().skip_norm_wip();
                                tys.push(J::A(vec![s(nm), us(self.ty(t))]));
                            }
                            _ => ms.push(J::A(vec![s(nm), s(self.id(ai.def_id))])),
                        }
                    }
                    o.push(("items", J::A(ms)));
                    o.push(("types", J::A(tys)));
                    let mut preds = vec![];
                    for (p, _) in tcx.clauses_of(d).instantiate_identity(tcx) {
                        preds.push(s(with_no_trimmed_paths!(format!("{:?}", p.skip_norm_wip()))));
                    }
                    o.push(("preds", J::A(preds)));
                    o.push(("line", self.line(tcx.def_span(d))));
                    impls.push(J::O(o));
                }
                DefKind::Trait => {
                    let mut ms = vec![];
                    for ai in tcx.associated_items(d).in_definition_order() {
                        ms.push(J::A(vec![
                            s(ai.opt_name().map(|x| x.to_string()).unwrap_or_default()),
                            s(self.id(ai.def_id)),
                            J::B(ai.defaultness(tcx).has_value()),
                        ]));
                    }
                    traits.push(J::O(vec![
                        ("path", s(self.id(d))),
                        ("items", J::A(ms)),
                    ]));
                }
                DefKind::Struct | DefKind::Enum => {
                    self.adt(tcx.adt_def(d));
                }
                _ => {}
            }
            items.push(J::A(vec![
                s(format!("{:?}", tcx.def_kind(d))),
                s(self.path(d)),
                s(format!("{:?}", tcx.visibility(d))),
                s(self.file(tcx.def_span(d))),
            ]));
        }
        let adts = std::mem::take(&mut self.adts);
        let types = std::mem::take(&mut self.types);
        let externs: Vec<J> = tcx
            .crates(())
            .iter()
            .map(|c| s(tcx.crate_name(*c).to_string()))
            .collect();
        let files: Vec<J> = tcx
            .sess
            .source_map()
            .files()
            .iter()
            .filter(|f| f.cnum == LOCAL_CRATE)
            .map(|f| s(format!("{}", f.name.prefer_local_unconditionally())))
            .collect();
        let _ = &self.consts;
        let _ = &self.constseen;
        J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("types", J::A(types)),
            ("adts", J::M(adts)),
            ("bodies", J::M(bj)),
            ("skipped", J::A(skipped)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
            ("items", J::A(items)),
            ("externs", J::A(externs)),
            ("files", J::A(files)),
        ])
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    rustc_driver::install_ice_hook("none", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
