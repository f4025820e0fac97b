//! rustc driver that dumps the type-checked, resolved program (MIR) of the
//! crate it compiles as JSON facts.  It decides nothing by itself.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let mut d = D::new(tcx);
        d.run();
        let j = d.finish();
        let tmp = format!("{}.tmp", self.out);
        std::fs::write(&tmp, j.to_string()).expect("write facts");
        std::fs::rename(&tmp, &self.out).expect("rename facts");
        Compilation::Continue
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Unit<'tcx> {
    Inst(Instance<'tcx>),
    Promoted(Instance<'tcx>, Promoted),
    Const(DefId, ty::GenericArgsRef<'tcx>),
    Poly(DefId),
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    units: HashMap<Unit<'tcx>, usize>,
    queue: VecDeque<(usize, Unit<'tcx>)>,
    fns: Vec<(usize, J)>,
    types: HashMap<Ty<'tcx>, usize>,
    type_js: Vec<J>,
    adts: HashMap<DefId, ()>,
    adt_js: Vec<J>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}

impl<'tcx> D<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        D {
            tcx,
            units: HashMap::new(),
            queue: VecDeque::new(),
            fns: vec![],
            types: HashMap::new(),
            type_js: vec![],
            adts: HashMap::new(),
            adt_js: vec![],
        }
    }

    fn path(&self, d: DefId) -> String {
        let p = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() && self.tcx.crate_name(LOCAL_CRATE).as_str() != p.split("::").next().unwrap_or("")
        {
            return p;
        }
        p
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", name, lo.line))
    }

    fn unit(&mut self, u: Unit<'tcx>) -> usize {
        if let Some(i) = self.units.get(&u) {
            return *i;
        }
        let i = self.units.len();
        self.units.insert(u, i);
        self.queue.push_back((i, u));
        i
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        for k in keys {
            let did = k.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {
                    let g = tcx.generics_of(did);
                    if g.requires_monomorphization(tcx) {
                        // polymorphic: dumped with identity substitution
                        self.unit(Unit::Poly(did));
                        continue;
                    }
                    let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => unreachable!(),
                    });
                    let inst = Instance::new_raw(did, args);
                    self.unit(Unit::Inst(inst));
                }
                _ => {}
            }
        }
        while let Some((i, u)) = self.queue.pop_front() {
            let j = self.dump_unit(u);
            self.fns.push((i, j));
        }
        // local ADTs
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                self.adt(did);
            }
        }
    }

    fn finish(mut self) -> J {
        self.fns.sort_by_key(|x| x.0);
        let fns = std::mem::take(&mut self.fns).into_iter().map(|x| x.1).collect();
        J::O(vec![
            ("crate".into(), s(self.tcx.crate_name(LOCAL_CRATE).to_string())),
            ("fns".into(), J::A(fns)),
            ("types".into(), J::A(self.type_js)),
            ("adts".into(), J::A(self.adt_js)),
        ])
    }

    fn adt(&mut self, did: DefId) {
        if self.adts.insert(did, ()).is_some() {
            return;
        }
        let tcx = self.tcx;
        let def = tcx.adt_def(did);
        let mut vs = vec![];
        let local = did.is_local();
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                J::N(def.discriminant_for_variant(tcx, vi).val as i128)
            } else {
                J::Null
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let mut o = vec![("name".into(), s(f.name.to_string()))];
                if local {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    o.push(("ty".into(), n(self.ty(t))));
                    o.push(("attrs".into(), self.attrs(f.did)));
                }
                fs.push(J::O(o));
            }
            let mut o = vec![
                ("name".into(), s(v.name.to_string())),
                ("discr".into(), discr),
                ("fields".into(), J::A(fs)),
            ];
            if local && def.is_enum() {
                o.push(("attrs".into(), self.attrs(v.def_id)));
            }
            vs.push(J::O(o));
        }
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let mut o = vec![
            ("path".into(), s(self.path(did))),
            ("kind".into(), s(kind)),
            ("local".into(), J::B(local)),
            ("variants".into(), J::A(vs)),
            ("span".into(), self.span(tcx.def_span(did))),
        ];
        if local {
            o.push(("attrs".into(), self.attrs(did)));
        }
        self.adt_js.push(J::O(o));
    }

    fn attrs(&self, d: DefId) -> J {
        let mut out = vec![];
        if let Some(l) = d.as_local() {
            let hid = self.tcx.local_def_id_to_hir_id(l);
            for a in self.tcx.hir_attrs(hid) {
                if let rustc_attr_ir::Attribute::DeriveHelper(item) = a {
                    let p: Vec<String> = item.path.segments.iter().map(|x| x.to_string()).collect();
                    let span = item.span;
                    let snip = self
                        .tcx
                        .sess
                        .source_map()
                        .span_to_snippet(span)
                        .unwrap_or_default();
                    out.push(J::A(vec![s(p.join("::")), s(snip)]));
                }
            }
        }
        J::A(out)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_js.len();
        self.types.insert(t, i);
        self.type_js.push(J::Null);
        let tcx = self.tcx;
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
        let mut o: Vec<(String, J)> = vec![("s".into(), s(name))];
        let k = match t.kind() {
            TyKind::Bool => "bool",
            TyKind::Char => "char",
            TyKind::Int(_) | TyKind::Uint(_) => "int",
            TyKind::Float(_) => "float",
            TyKind::Str => "str",
            TyKind::Never => "never",
            TyKind::Adt(def, args) => {
                self.adt(def.did());
                o.push(("path".into(), s(self.path(def.did()))));
                let a: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|t| n(self.ty(t))).collect();
                o.push(("args".into(), J::A(a)));
                "adt"
            }
            TyKind::Ref(_, inner, m) => {
                o.push(("inner".into(), n(self.ty(*inner))));
                o.push(("mut".into(), J::B(m.is_mut())));
                "ref"
            }
            TyKind::RawPtr(inner, _) => {
                o.push(("inner".into(), n(self.ty(*inner))));
                "ptr"
            }
            TyKind::Slice(inner) => {
                o.push(("inner".into(), n(self.ty(*inner))));
                "slice"
            }
            TyKind::Array(inner, len) => {
                o.push(("inner".into(), n(self.ty(*inner))));
                if let Some(l) = len.try_to_target_usize(tcx) {
                    o.push(("len".into(), n(l as usize)));
                }
                "array"
            }
            TyKind::Tuple(ts) => {
                let a: Vec<J> = ts.iter().collect::<Vec<_>>().into_iter().map(|t| n(self.ty(t))).collect();
                o.push(("args".into(), J::A(a)));
                "tuple"
            }
            TyKind::Closure(did, args) => {
                o.push(("path".into(), s(self.path(*did))));
                if !ty::TypeVisitableExt::has_param(&t) {
                    let inst = Instance::new_raw(*did, args);
                    o.push(("fn".into(), n(self.unit(Unit::Inst(inst)))));
                }
                let kind = args.as_closure().kind();
                o.push(("ckind".into(), s(format!("{:?}", kind))));
                "closure"
            }
            TyKind::FnDef(did, args) => {
                let args = args.no_bound_vars().unwrap();
                o.push(("path".into(), s(self.path(*did))));
                let c = self.callee(*did, args, TypingEnv::fully_monomorphized());
                o.push(("callee".into(), c));
                "fndef"
            }
            TyKind::FnPtr(..) => "fnptr",
            TyKind::Dynamic(..) => "dyn",
            TyKind::Param(_) => "param",
            _ => "other",
        };
        o.push(("k".into(), s(k)));
        self.type_js[i] = J::O(o);
        i
    }

    fn want_body(&self, inst: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        let did = match inst.def {
            InstanceKind::Item(d) => d,
            _ => return false,
        };
        if did.is_local() {
            return tcx.is_mir_available(did) && !tcx.is_foreign_item(did);
        }
        let cn = tcx.crate_name(did.krate);
        if !matches!(cn.as_str(), "core" | "alloc" | "std") {
            return false;
        }
        if !tcx.is_mir_available(did) {
            return false;
        }
        let p = format!("{:?}", did);
        let mods = [
            "::option::",
            "::result::",
            "::bool::",
            "::cmp::",
            "::convert::",
            "::ops::function",
            "::ops::try_trait",
            "::ops::control_flow",
            "::mem::replace",
            "::mem::swap",
            "::mem::take",
            "::borrow::",
            "::default::",
            "::clone::",
        ];
        // impls in the modules above only
        mods.iter().any(|m| p.contains(m))
    }

    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(String, J)> = vec![("path".into(), s(self.path(did)))];
        let targs: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|t| n(self.ty(t))).collect();
        o.push(("targs".into(), J::A(targs)));
        if let DefKind::Ctor(..) = tcx.def_kind(did) {
            o.push(("ctor".into(), s(self.path(tcx.parent(did)))));
            let parent = tcx.parent(did);
            if tcx.def_kind(parent) == DefKind::Variant {
                o.push(("variant".into(), s(tcx.item_name(parent).to_string())));
                o.push(("adt".into(), s(self.path(tcx.parent(parent)))));
            } else {
                o.push(("adt".into(), s(self.path(parent))));
            }
            return J::O(o);
        }
        let poly = ty::TypeVisitableExt::has_param(&args);
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait".into(), s(self.path(tr))));
        }
        if !poly {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, did, args) {
                o.push(("rpath".into(), s(self.path(inst.def_id()))));
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                    InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr_shim",
                    InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone_shim",
                    InstanceKind::Shim(ty::ShimKind::Reify(..)) => "reify",
                    _ => "other",
                };
                o.push(("kind".into(), s(kind)));
                o.push(("local".into(), J::B(inst.def_id().is_local())));
                if self.want_body(inst) {
                    o.push(("fn".into(), n(self.unit(Unit::Inst(inst)))));
                }
                // auxiliary: Display/Debug body used through fmt machinery
                let p = self.path(did);
                let tr = if p.contains("Argument") && p.contains("new_display") || p == "std::string::ToString::to_string" {
                    Some("Display")
                } else if p.contains("Argument") && p.contains("new_debug") {
                    Some("Debug")
                } else {
                    None
                };
                if let Some(tr) = tr {
                    if let Some(t) = args.types().next() {
                        if let Some(fid) = self.fmt_impl(t, tr) {
                            o.push(("fmt".into(), n(fid)));
                        }
                    }
                }
            }
        }
        J::O(o)
    }

    fn fmt_impl(&mut self, t: Ty<'tcx>, tr: &str) -> Option<usize> {
        let tcx = self.tcx;
        let mut t = t;
        while let TyKind::Ref(_, inner, _) = t.kind() {
            t = *inner;
        }
        let is_local = match t.kind() {
            TyKind::Adt(d, _) => d.did().is_local(),
            _ => false,
        };
        if !is_local {
            return None;
        }
        let trd = tcx.get_diagnostic_item(rustc_span::Symbol::intern(tr))?;
        let m = tcx.associated_items(trd).in_definition_order().next()?.def_id;
        let args = tcx.mk_args(&[t.into()]);
        let args = ty::GenericArgs::for_item(tcx, m, |p, _| {
            if (p.index as usize) < args.len() {
                args[p.index as usize]
            } else {
                tcx.lifetimes.re_erased.into()
            }
        });
        let inst = Instance::try_resolve(tcx, TypingEnv::fully_monomorphized(), m, args).ok()??;
        if inst.def_id().is_local() {
            Some(self.unit(Unit::Inst(inst)))
        } else {
            None
        }
    }

    fn dump_unit(&mut self, u: Unit<'tcx>) -> J {
        let tcx = self.tcx;
        let (body, did, env, name, kind): (Body<'tcx>, DefId, TypingEnv<'tcx>, String, &str) = match u {
            Unit::Inst(inst) => {
                let b = tcx.instance_mir(inst.def).clone();
                let b = inst.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    TypingEnv::fully_monomorphized(),
                    EarlyBinder::bind(tcx, b),
                );
                let nm = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", inst));
                (b, inst.def_id(), TypingEnv::fully_monomorphized(), nm, "fn")
            }
            Unit::Promoted(inst, p) => {
                let b = tcx.promoted_mir(inst.def_id())[p].clone();
                let b = inst.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    TypingEnv::fully_monomorphized(),
                    EarlyBinder::bind(tcx, b),
                );
                (b, inst.def_id(), TypingEnv::fully_monomorphized(), format!("{}#p{}", inst, p.as_u32()), "promoted")
            }
            Unit::Const(d, args) => {
                let b = tcx.mir_for_ctfe(d).clone();
                let inst = Instance::new_raw(d, args);
                let b = inst.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    TypingEnv::fully_monomorphized(),
                    EarlyBinder::bind(tcx, b),
                );
                (b, d, TypingEnv::fully_monomorphized(), self.path(d), "const")
            }
            Unit::Poly(d) => {
                let b = tcx.optimized_mir(d).clone();
                (b, d, TypingEnv::post_analysis(tcx, d), self.path(d), "poly")
            }
        };
        let inst = match u {
            Unit::Inst(i) | Unit::Promoted(i, _) => Some(i),
            _ => None,
        };
        let mut o: Vec<(String, J)> = vec![
            ("path".into(), s(self.path(did))),
            ("name".into(), s(name)),
            ("kind".into(), s(kind)),
            ("crate".into(), s(tcx.crate_name(did.krate).to_string())),
            ("local".into(), J::B(did.is_local())),
            ("argc".into(), n(body.arg_count)),
            ("span".into(), self.span(body.span)),
        ];
        if did.is_local() {
            let derived = tcx.is_automatically_derived(tcx.parent(did));
            o.push(("derived".into(), J::B(derived)));
            if let Some(im) = tcx.impl_of_assoc(did) {
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("impl_trait".into(), s(self.path(tr.def_id))));
                    let st = tcx.erase_and_anonymize_regions(tr.self_ty());
                    o.push(("impl_self".into(), n(self.ty(st))));
                } else {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let st = tcx.erase_and_anonymize_regions(st);
                    o.push(("impl_self".into(), n(self.ty(st))));
                }
            }
            if matches!(tcx.def_kind(did), DefKind::Closure) {
                let p = tcx.parent(did);
                o.push(("parent".into(), s(self.path(p))));
            }
        }
        if let Some(sp) = body.spread_arg {
            o.push(("spread".into(), n(sp.as_usize())));
        }
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(n(self.ty(l.ty)));
        }
        o.push(("locals".into(), J::A(locals)));
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(&body, p);
                names.push(J::A(vec![s(v.name.to_string()), pj]));
            }
        }
        o.push(("names".into(), J::A(names)));
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for x in bb.statements.iter() {
                if let StatementKind::Assign(b) = &x.kind {
                    let (pl, rv) = &**b;
                    let pj = self.place(&body, *pl);
                    let rj = self.rvalue(&body, rv, inst, env);
                    let sp = self.span(x.source_info.span);
                    st.push(J::A(vec![pj, rj, sp]));
                } else if let StatementKind::SetDiscriminant { place, variant_index } = &x.kind {
                    let pj = self.place(&body, **place);
                    st.push(J::A(vec![
                        pj,
                        J::O(vec![("k".into(), s("setdiscr")), ("v".into(), n(variant_index.as_usize()))]),
                        self.span(x.source_info.span),
                    ]));
                }
            }
            let t = self.term(&body, bb.terminator(), inst, env);
            blocks.push(J::O(vec![("s".into(), J::A(st)), ("t".into(), t)]));
        }
        o.push(("blocks".into(), J::A(blocks)));
        J::O(o)
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut proj = vec![];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => {
                    let isbox = pty.ty.is_box();
                    proj.push(J::A(vec![s(if isbox { "dbox" } else { "d" })]))
                }
                ProjectionElem::Field(..) if pty.ty.is_box() => proj.push(J::A(vec![s("bx")])),
                ProjectionElem::Field(f, _) => {
                    let mut of = String::new();
                    let name = match pty.ty.kind() {
                        TyKind::Adt(def, _) => {
                            of = self.path(def.did());
                            let v = match pty.variant_index {
                                Some(v) => def.variant(v),
                                None => {
                                    if def.is_enum() {
                                        def.variant(rustc_abi::FIRST_VARIANT)
                                    } else {
                                        def.non_enum_variant()
                                    }
                                }
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    proj.push(J::A(vec![s("f"), n(f.as_usize()), s(name), s(of)]));
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pty.ty.kind() {
                        TyKind::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => format!("{}", v.as_usize()),
                    };
                    proj.push(J::A(vec![s("v"), n(v.as_usize()), s(name)]));
                }
                ProjectionElem::Index(l) => proj.push(J::A(vec![s("i"), n(l.as_usize())])),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => proj.push(J::A(vec![
                    s("ci"),
                    n(offset as usize),
                    J::B(from_end),
                    n(min_length as usize),
                ])),
                ProjectionElem::Subslice { from, to, from_end } => proj.push(J::A(vec![
                    s("sub"),
                    n(from as usize),
                    n(to as usize),
                    J::B(from_end),
                ])),
                _ => proj.push(J::A(vec![s("cast")])),
            }
            pty = pty.projection_ty(tcx, e);
        }
        J::A(vec![n(p.local.as_usize()), J::A(proj)])
    }

    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>, inst: Option<Instance<'tcx>>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(body, *p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(body, *p)]),
            Operand::Constant(c) => self.constant(&c.const_, inst, env, c.span),
            _ => J::A(vec![s("rc")]),
        }
    }

    fn bytes(&self, b: &[u8]) -> J {
        J::A(b.iter().map(|x| n(*x as usize)).collect())
    }

    fn constant(&mut self, c: &Const<'tcx>, inst: Option<Instance<'tcx>>, env: TypingEnv<'tcx>, span: Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        if let TyKind::FnDef(..) = t.kind() {
            return J::A(vec![s("k"), n(ti), J::O(vec![("fndef".into(), J::B(true))])]);
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                if let Some(i) = inst {
                    if !ty::TypeVisitableExt::has_param(&i.args) && i.def_id() == u.def {
                        let id = self.unit(Unit::Promoted(i, p));
                        return J::A(vec![s("k"), n(ti), J::O(vec![("body".into(), n(id)), ("ref".into(), J::B(false))])]);
                    }
                }
            }
        }
        let v = c.eval(tcx, env, span);
        let mut o = vec![];
        if let Ok(v) = v {
            match v {
                ConstValue::ZeroSized => o.push(("zst".into(), J::B(true))),
                ConstValue::Scalar(Scalar::Int(i)) => {
                    let size = i.size();
                    let bits = i.to_bits(size);
                    let val: i128 = match t.kind() {
                        TyKind::Int(_) => size.sign_extend(bits) as i128,
                        _ => bits as i128,
                    };
                    o.push(("int".into(), J::N(val)));
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Memory(m) => {
                            let m = m.inner();
                            // &[u8; N]
                            if let Some(inner) = t.builtin_deref(true) {
                                if let TyKind::Array(e, _) = inner.kind() {
                                    if *e == tcx.types.u8 {
                                        let b = m.inspect_with_uninit_and_ptr_outside_interpreter(
                                            off.bytes_usize()..m.len(),
                                        );
                                        o.push(("bytes".into(), self.bytes(b)));
                                    }
                                }
                            }
                            if o.is_empty() {
                                if let Const::Unevaluated(u, _) = c {
                                    if u.def.is_local() && u.promoted.is_none() {
                                        let id = self.unit(Unit::Const(u.def, u.args));
                                        o.push(("body".into(), n(id)));
                                    }
                                }
                            }
                        }
                        GlobalAlloc::Static(d) => {
                            o.push(("static".into(), s(self.path(d))));
                            if d.is_local() {
                                let id = self.unit(Unit::Const(d, ty::List::empty()));
                                o.push(("body".into(), n(id)));
                                o.push(("ref".into(), J::B(true)));
                            }
                        }
                        _ => {}
                    }
                }
                ConstValue::Slice { alloc_id, meta } => {
                    if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                        let inner = t.builtin_deref(true);
                        let is_str = matches!(inner.map(|t| t.kind()), Some(TyKind::Str));
                        let is_bytes = match inner.map(|t| t.kind()) {
                            Some(TyKind::Slice(e)) => *e == tcx.types.u8,
                            _ => false,
                        };
                        let m = m.inner();
                        if is_str || is_bytes {
                            let r = AllocRange { start: rustc_abi::Size::ZERO, size: rustc_abi::Size::from_bytes(meta) };
                            let b = m.inspect_with_uninit_and_ptr_outside_interpreter(
                                0..r.size.bytes_usize(),
                            );
                            if is_str {
                                o.push(("str".into(), s(String::from_utf8_lossy(b).to_string())));
                            } else {
                                o.push(("bytes".into(), self.bytes(b)));
                            }
                        } else if let Const::Unevaluated(u, _) = c {
                            if u.def.is_local() && u.promoted.is_none() {
                                let id = self.unit(Unit::Const(u.def, u.args));
                                o.push(("body".into(), n(id)));
                            }
                        }
                    }
                }
                ConstValue::Indirect { .. } => {
                    if let Const::Unevaluated(u, _) = c {
                        if u.def.is_local() && u.promoted.is_none() {
                            let id = self.unit(Unit::Const(u.def, u.args));
                            o.push(("body".into(), n(id)));
                        } else {
                            o.push(("ext".into(), s(self.path(u.def))));
                        }
                    }
                }
            }
        }
        if let Const::Unevaluated(u, _) = c {
            o.push(("def".into(), s(self.path(u.def))));
        }
        J::A(vec![s("k"), n(ti), J::O(o)])
    }

    fn rvalue(&mut self, body: &Body<'tcx>, rv: &Rvalue<'tcx>, inst: Option<Instance<'tcx>>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(String, J)> = vec![];
        match rv {
            Rvalue::Use(op, ..) => {
                o.push(("k".into(), s("use")));
                o.push(("o".into(), self.operand(body, op, inst, env)));
            }
            Rvalue::Ref(_, bk, p) => {
                o.push(("k".into(), s("ref")));
                o.push(("mut".into(), J::B(matches!(bk, BorrowKind::Mut { .. }))));
                o.push(("p".into(), self.place(body, *p)));
            }
            Rvalue::RawPtr(_, p) => {
                o.push(("k".into(), s("ref")));
                o.push(("raw".into(), J::B(true)));
                o.push(("p".into(), self.place(body, *p)));
            }
            Rvalue::Cast(k, op, t) => {
                o.push(("k".into(), s("cast")));
                o.push(("ck".into(), s(format!("{:?}", k))));
                o.push(("o".into(), self.operand(body, op, inst, env)));
                o.push(("ty".into(), n(self.ty(*t))));
                let from = op.ty(&body.local_decls, tcx);
                o.push(("from".into(), n(self.ty(from))));
            }
            Rvalue::BinaryOp(b, ops) => {
                o.push(("k".into(), s("bin")));
                o.push(("op".into(), s(format!("{:?}", b))));
                o.push(("a".into(), self.operand(body, &ops.0, inst, env)));
                o.push(("b".into(), self.operand(body, &ops.1, inst, env)));
            }
            Rvalue::UnaryOp(u, op) => {
                o.push(("k".into(), s("un")));
                o.push(("op".into(), s(format!("{:?}", u))));
                o.push(("o".into(), self.operand(body, op, inst, env)));
            }
            Rvalue::Discriminant(p) => {
                o.push(("k".into(), s("discr")));
                o.push(("p".into(), self.place(body, *p)));
                let t = p.ty(&body.local_decls, tcx).ty;
                o.push(("ty".into(), n(self.ty(t))));
            }
            Rvalue::Aggregate(k, ops) => {
                o.push(("k".into(), s("agg")));
                let fs: Vec<J> = ops.iter().map(|x| self.operand(body, x, inst, env)).collect();
                match &**k {
                    AggregateKind::Array(_) => o.push(("a".into(), s("array"))),
                    AggregateKind::Tuple => o.push(("a".into(), s("tuple"))),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        self.adt(*d);
                        let def = tcx.adt_def(*d);
                        let var = def.variant(*v);
                        o.push(("a".into(), s("adt")));
                        o.push(("path".into(), s(self.path(*d))));
                        o.push(("enum".into(), J::B(def.is_enum())));
                        o.push(("variant".into(), s(var.name.to_string())));
                        o.push(("vi".into(), n(v.as_usize())));
                        let names: Vec<J> = var.fields.iter().map(|f| s(f.name.to_string())).collect();
                        o.push(("names".into(), J::A(names)));
                        let _ = active;
                    }
                    AggregateKind::Closure(d, args) => {
                        o.push(("a".into(), s("closure")));
                        o.push(("path".into(), s(self.path(*d))));
                        if !ty::TypeVisitableExt::has_param(args) {
                            let inst = Instance::new_raw(*d, args);
                            o.push(("fn".into(), n(self.unit(Unit::Inst(inst)))));
                        }
                    }
                    _ => o.push(("a".into(), s("other"))),
                }
                o.push(("fs".into(), J::A(fs)));
            }
            Rvalue::Repeat(op, _) => {
                o.push(("k".into(), s("repeat")));
                o.push(("o".into(), self.operand(body, op, inst, env)));
            }
            Rvalue::CopyForDeref(p) => {
                o.push(("k".into(), s("use")));
                o.push(("o".into(), J::A(vec![s("c"), self.place(body, *p)])));
            }
            other => {
                o.push(("k".into(), s("other")));
                o.push(("d".into(), s(format!("{:?}", other))));
            }
        }
        J::O(o)
    }

    fn term(&mut self, body: &Body<'tcx>, t: &Terminator<'tcx>, inst: Option<Instance<'tcx>>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(String, J)> = vec![("sp".into(), self.span(t.source_info.span))];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.push(("k".into(), s("goto")));
                o.push(("t".into(), n(target.as_usize())));
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                o.push(("k".into(), s("goto")));
                o.push(("t".into(), n(real_target.as_usize())));
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                o.push(("k".into(), s("goto")));
                o.push(("t".into(), n(real_target.as_usize())));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("k".into(), s("switch")));
                o.push(("o".into(), self.operand(body, discr, inst, env)));
                let t = discr.ty(&body.local_decls, tcx);
                o.push(("ty".into(), n(self.ty(t))));
                let size_signed = matches!(t.kind(), TyKind::Int(_));
                let bits = match t.kind() {
                    TyKind::Int(i) => i.bit_width().unwrap_or(64),
                    _ => 0,
                };
                let mut ts = vec![];
                for (v, b) in targets.iter() {
                    let v = if size_signed && bits < 128 {
                        let sh = 128 - bits as u32;
                        ((v as i128) << sh) >> sh
                    } else {
                        v as i128
                    };
                    ts.push(J::A(vec![J::N(v), n(b.as_usize())]));
                }
                o.push(("ts".into(), J::A(ts)));
                o.push(("else".into(), n(targets.otherwise().as_usize())));
            }
            TerminatorKind::Return => o.push(("k".into(), s("ret"))),
            TerminatorKind::Unreachable => o.push(("k".into(), s("unreachable"))),
            TerminatorKind::Drop { place, target, .. } => {
                o.push(("k".into(), s("drop")));
                o.push(("p".into(), self.place(body, *place)));
                let t = place.ty(&body.local_decls, tcx).ty;
                o.push(("ty".into(), n(self.ty(t))));
                o.push(("t".into(), n(target.as_usize())));
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                o.push(("k".into(), s("call")));
                let ft = func.ty(&body.local_decls, tcx);
                match ft.kind() {
                    TyKind::FnDef(d, a) => {
                        let a = a.no_bound_vars().unwrap();
                        let c = self.callee(*d, a, env);
                        o.push(("f".into(), c));
                    }
                    _ => {
                        o.push(("ptr".into(), self.operand(body, func, inst, env)));
                    }
                }
                let a: Vec<J> = args.iter().map(|x| self.operand(body, &x.node, inst, env)).collect();
                o.push(("a".into(), J::A(a)));
                o.push(("d".into(), self.place(body, *destination)));
                let dt = destination.ty(&body.local_decls, tcx).ty;
                o.push(("dty".into(), n(self.ty(dt))));
                if let Some(t) = target {
                    o.push(("t".into(), n(t.as_usize())));
                }
                let _ = fn_span;
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                o.push(("k".into(), s("assert")));
                o.push(("o".into(), self.operand(body, cond, inst, env)));
                o.push(("e".into(), J::B(*expected)));
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(op, ..) => format!("overflow {:?}", op),
                    AssertKind::OverflowNeg(_) => "overflow neg".to_string(),
                    AssertKind::DivisionByZero(_) => "div0".to_string(),
                    AssertKind::RemainderByZero(_) => "rem0".to_string(),
                    _ => "other".to_string(),
                };
                o.push(("m".into(), s(m)));
                o.push(("t".into(), n(target.as_usize())));
            }
            other => {
                o.push(("k".into(), s("other")));
                o.push(("d".into(), s(format!("{:?}", other))));
            }
        }
        J::O(o)
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let out = std::env::var("PODO_FACTS_OUT").unwrap_or_default();
    let probing = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"));
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "podo");
    if out.is_empty() || probing || !is_target {
        struct No;
        impl rustc_driver::Callbacks for No {}
        rustc_driver::compiler_entrypoint(&args, &mut No);
        return;
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
