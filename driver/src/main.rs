#![feature(rustc_private)]
//! `mirfacts`: a rustc driver used as RUSTC_WORKSPACE_WRAPPER. It compiles the crate exactly as rustc
//! would and, after analysis, writes one JSON file per workspace crate with the type-checked facts the
//! rules in /verif/rules work on: MIR bodies (optimisations off) with resolved callees, ADTs, impls.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE, LocalDefId};
use rustc_interface::interface::{Compiler, Config};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

/// blocks marked unsafe by whoever wrote them
struct Unsafe(Vec<Span>);
impl<'v> rustc_hir::intravisit::Visitor<'v> for Unsafe {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.0.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

// ---------------------------------------------------------------- json
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn q(s: &str) -> String {
    let mut o = String::new();
    esc(s, &mut o);
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn hash(&self, d: DefId) -> String {
        let h = self.tcx.def_path_hash(d);
        format!("{:?}", h.0).replace("Fingerprint", "")
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn ty_head(&self, t: Ty<'tcx>) -> Option<String> {
        match t.kind() {
            ty::Adt(d, _) => Some(self.path(d.did())),
            ty::Ref(_, t, _) => self.ty_head(*t),
            ty::Dynamic(p, ..) => p.principal_def_id().map(|d| format!("dyn {}", self.path(d))),
            ty::Param(p) => Some(format!("param {}", p.name)),
            ty::Closure(d, _) => Some(format!("closure {}", self.hash(*d))),
            _ => None,
        }
    }
    fn callee(&self, did: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut rd = did;
        let mut rargs = args;
        let mut resolved = false;
        if let Ok(eargs) = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)) {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, did, eargs) {
                match i.def {
                    ty::InstanceKind::Item(d) => {
                        rd = d;
                        rargs = i.args;
                        resolved = true;
                    }
                    ty::InstanceKind::Virtual(..) => {}
                    _ => resolved = true,
                }
            }
        }
        let mut o = String::from("{");
        let _ = write!(o, "\"path\":{},\"h\":{}", q(&self.path(rd)), q(&self.hash(rd)));
        if let Some(n) = tcx.opt_item_name(rd) {
            let _ = write!(o, ",\"name\":{}", q(n.as_str()));
        }
        if rd != did {
            let _ = write!(o, ",\"opath\":{},\"oh\":{}", q(&self.path(did)), q(&self.hash(did)));
        }
        let _ = write!(o, ",\"local\":{},\"res\":{}", rd.is_local(), resolved);
        let _ = write!(o, ",\"krate\":{}", q(tcx.crate_name(rd.krate).as_str()));
        if let Some(t) = tcx.trait_of_assoc(did) {
            let _ = write!(o, ",\"trait\":{}", q(&self.path(t)));
            if let Some(s) = args.types().next() {
                let _ = write!(o, ",\"self\":{}", q(&self.ty(s)));
                if let Some(h) = self.ty_head(s) {
                    let _ = write!(o, ",\"selfh\":{}", q(&h));
                }
            }
        }
        let _ = write!(
            o,
            ",\"targs\":{}",
            arr(args.types().map(|t| q(&self.ty(t))).collect())
        );
        // closures passed as generic arguments
        let cl: Vec<String> = args
            .types()
            .filter_map(|t| match t.peel_refs().kind() {
                ty::Closure(d, _) => Some(q(&self.hash(*d))),
                _ => None,
            })
            .collect();
        if !cl.is_empty() {
            let _ = write!(o, ",\"closures\":{}", arr(cl));
        }
        let _ = rargs;
        o.push('}');
        o
    }
    fn konst(&self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.no_bound_vars().unwrap();
            return format!("{{\"k\":\"fn\",\"fn\":{}}}", self.callee(*d, a, env));
        }
        let mut o = String::from("{\"k\":\"const\"");
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(o, ",\"def\":{},\"defh\":{}", q(&self.path(u.def)), q(&self.hash(u.def)));
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"promoted\":{}", p.as_usize());
            }
        }
        let v = match c.const_ {
            Const::Unevaluated(u, _) if u.promoted.is_some() => None,
            _ => c.const_.eval(tcx, env, c.span).ok(),
        };
        if let Some(v) = v {
            let s = match v {
                ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                    let bits = i.to_bits(i.size());
                    match t.kind() {
                        ty::Float(ty::FloatTy::F64) => format!("{:?}", f64::from_bits(bits as u64)),
                        ty::Float(ty::FloatTy::F32) => format!("{:?}", f32::from_bits(bits as u32)),
                        ty::Bool => (if bits != 0 { "true" } else { "false" }).to_string(),
                        ty::Int(_) => {
                            let n = i.size().bits();
                            let sh = 128 - n;
                            format!("{}", ((bits << sh) as i128) >> sh)
                        }
                        _ => format!("{bits}"),
                    }
                }
                ConstValue::ZeroSized => "()".to_string(),
                v => {
                    let mut s = None;
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                s = Some(format!("str:{}", String::from_utf8_lossy(b)));
                            }
                        }
                    }
                    s.unwrap_or_else(|| format!("opaque:{}", with_no_trimmed_paths!(c.const_.to_string())))
                }
            };
            let _ = write!(o, ",\"v\":{}", q(&s));
        }
        let _ = write!(o, ",\"ty\":{}}}", q(&self.ty(t)));
        o
    }
    fn place(&self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pt = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut el = vec![];
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_usize());
                    let mut adt = String::new();
                    if let ty::Adt(d, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_usize(0));
                        if d.is_struct() || d.is_union() || d.is_enum() {
                            if vi.as_usize() < d.variants().len() {
                                let v = d.variant(vi);
                                if f.as_usize() < v.fields.len() {
                                    name = v.fields[f].name.to_string();
                                }
                                adt = self.path(d.did());
                            }
                        }
                    }
                    format!("{{\"f\":{},\"n\":{},\"adt\":{}}}", f.as_usize(), q(&name), q(&adt))
                }
                ProjectionElem::Index(l) => format!("{{\"ix\":{}}}", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("{{\"cix\":{},\"end\":{}}}", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("{{\"sub\":[{},{},{}]}}", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => {
                    format!("{{\"dc\":{},\"n\":{}}}", v.as_usize(), q(&n.map(|n| n.to_string()).unwrap_or_default()))
                }
                _ => "\"?\"".to_string(),
            };
            pt = pt.projection_ty(tcx, e);
            el.push(s);
        }
        format!("{{\"l\":{},\"p\":[{}]}}", p.local.as_usize(), el.join(","))
    }
    fn operand(&self, op: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"k\":\"cp\",\"pl\":{}}}", self.place(p, body)),
            Operand::Move(p) => format!("{{\"k\":\"mv\",\"pl\":{}}}", self.place(p, body)),
            Operand::Constant(c) => self.konst(c, env),
            _ => "{\"k\":\"const\",\"v\":\"runtimecheck\",\"ty\":\"bool\"}".to_string(),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let op = |o: &Operand<'tcx>| self.operand(o, b, env);
        match r {
            Rvalue::Use(o, ..) => format!("{{\"k\":\"use\",\"o\":[{}]}}", op(o)),
            Rvalue::Repeat(o, _) => format!("{{\"k\":\"repeat\",\"o\":[{}]}}", op(o)),
            Rvalue::Ref(_, k, p) => format!(
                "{{\"k\":\"ref\",\"mut\":{},\"pl\":{}}}",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(p, b)
            ),
            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"rawptr\",\"pl\":{}}}", self.place(p, b)),
            Rvalue::Cast(k, o, t) => format!(
                "{{\"k\":\"cast\",\"ck\":{},\"ty\":{},\"o\":[{}]}}",
                q(&format!("{k:?}")),
                q(&self.ty(*t)),
                op(o)
            ),
            Rvalue::BinaryOp(bo, ops) => format!(
                "{{\"k\":\"bin\",\"op\":{},\"o\":[{},{}]}}",
                q(&format!("{bo:?}")),
                op(&ops.0),
                op(&ops.1)
            ),
            Rvalue::UnaryOp(u, o) => {
                format!("{{\"k\":\"un\",\"op\":{},\"o\":[{}]}}", q(&format!("{u:?}")), op(o))
            }
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"pl\":{}}}", self.place(p, b)),
            Rvalue::CopyForDeref(p) => {
                format!("{{\"k\":\"use\",\"o\":[{{\"k\":\"cp\",\"pl\":{}}}]}}", self.place(p, b))
            }
            Rvalue::Aggregate(k, ops) => {
                let ops = arr(ops.iter().map(|o| op(o)).collect());
                match &**k {
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let ad = self.tcx.adt_def(*d);
                        let va = ad.variant(*v);
                        format!(
                            "{{\"k\":\"agg\",\"ak\":\"adt\",\"adt\":{},\"var\":{},\"vi\":{},\"fs\":{},\"o\":{}}}",
                            q(&self.path(*d)),
                            q(va.name.as_str()),
                            v.as_usize(),
                            arr(va.fields.iter().map(|f| q(f.name.as_str())).collect()),
                            ops
                        )
                    }
                    AggregateKind::Closure(d, _) => format!(
                        "{{\"k\":\"agg\",\"ak\":\"closure\",\"h\":{},\"o\":{}}}",
                        q(&self.hash(*d)),
                        ops
                    ),
                    AggregateKind::Array(_) => format!("{{\"k\":\"agg\",\"ak\":\"array\",\"o\":{ops}}}"),
                    AggregateKind::Tuple => format!("{{\"k\":\"agg\",\"ak\":\"tuple\",\"o\":{ops}}}"),
                    _ => format!("{{\"k\":\"agg\",\"ak\":\"other\",\"o\":{ops}}}"),
                }
            }
            other => format!("{{\"k\":\"other\",\"s\":{}}}", q(&format!("{other:?}"))),
        }
    }
    fn body(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &mut String) {
        let _ = write!(o, "\"argc\":{}", body.arg_count);
        let _ = write!(
            o,
            ",\"locals\":{}",
            arr(body
                .local_decls
                .iter()
                .map(|d| {
                    let h = self.ty_head(d.ty);
                    match h {
                        Some(h) => format!("[{},{}]", q(&self.ty(d.ty)), q(&h)),
                        None => format!("[{}]", q(&self.ty(d.ty))),
                    }
                })
                .collect())
        );
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", q(v.name.as_str()), self.place(p, body)));
            }
        }
        let _ = write!(o, ",\"names\":{}", arr(names));
        o.push_str(",\"blocks\":[");
        for (i, bb) in body.basic_blocks.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(bx) => st.push(format!(
                        "{{\"d\":{},\"r\":{},\"s\":{}}}",
                        self.place(&bx.0, body),
                        self.rvalue(&bx.1, body, env),
                        q(&self.span(s.source_info.span))
                    )),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!(
                        "{{\"d\":{},\"r\":{{\"k\":\"setdiscr\",\"vi\":{}}},\"s\":{}}}",
                        self.place(place, body),
                        variant_index.as_usize(),
                        q(&self.span(s.source_info.span))
                    )),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = q(&self.span(t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":[{}]}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vals: Vec<String> = targets.iter().map(|(v, _)| format!("\"{v}\"")).collect();
                    let mut ts: Vec<String> = targets.iter().map(|(_, t)| t.as_usize().to_string()).collect();
                    ts.push(targets.otherwise().as_usize().to_string());
                    format!(
                        "{{\"k\":\"switch\",\"o\":{},\"vals\":{},\"t\":{}}}",
                        self.operand(discr, body, env),
                        arr(vals),
                        arr(ts)
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, body, env)).collect();
                    let uw = match unwind {
                        UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                        _ => "null".into(),
                    };
                    format!(
                        "{{\"k\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"t\":[{}],\"uw\":{},\"s\":{}}}",
                        self.operand(func, body, env),
                        arr(a),
                        self.place(destination, body),
                        target.map(|t| t.as_usize().to_string()).unwrap_or_default(),
                        uw,
                        sp
                    )
                }
                TerminatorKind::Drop { place, target, .. } => format!(
                    "{{\"k\":\"drop\",\"pl\":{},\"t\":[{}]}}",
                    self.place(place, body),
                    target.as_usize()
                ),
                TerminatorKind::Assert { target, cond, expected, .. } => format!(
                    "{{\"k\":\"assert\",\"o\":{},\"e\":{},\"t\":[{}]}}",
                    self.operand(cond, body, env),
                    expected,
                    target.as_usize()
                ),
                TerminatorKind::Return => "{\"k\":\"return\",\"t\":[]}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\",\"t\":[]}".into(),
                TerminatorKind::UnwindResume => "{\"k\":\"resume\",\"t\":[]}".into(),
                TerminatorKind::UnwindTerminate(_) => "{\"k\":\"abort\",\"t\":[]}".into(),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":[{}]}}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":[{}]}}", real_target.as_usize())
                }
                k => format!("{{\"k\":\"other\",\"dbg\":{},\"t\":[]}}", q(&format!("{k:?}"))),
            };
            let _ = write!(
                o,
                "{{\"c\":{},\"st\":{},\"t\":{}}}",
                bb.is_cleanup,
                arr(st),
                tj
            );
        }
        o.push(']');
    }
    fn function(&self, ld: LocalDefId, o: &mut String) {
        let tcx = self.tcx;
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let env = TypingEnv::post_analysis(tcx, did);
        let _ = write!(
            o,
            "{{\"h\":{},\"path\":{},\"kind\":{},\"span\":{}",
            q(&self.hash(did)),
            q(&self.path(did)),
            q(&format!("{kind:?}")),
            q(&self.span(tcx.def_span(did)))
        );
        if let Some(n) = tcx.opt_item_name(did) {
            let _ = write!(o, ",\"name\":{}", q(n.as_str()));
        }
        let parent = tcx.parent(did);
        let _ = write!(o, ",\"parent\":{},\"parenth\":{}", q(&self.path(parent)), q(&self.hash(parent)));
        if matches!(kind, DefKind::Closure) {
            let root = tcx.typeck_root_def_id(did);
            let _ = write!(o, ",\"rooth\":{}", q(&self.hash(root)));
            let caps: Vec<String> = tcx
                .closure_captures(ld)
                .iter()
                .map(|c| format!("[{},{}]", q(&c.to_string(tcx)), c.is_by_ref()))
                .collect();
            let _ = write!(o, ",\"captures\":{}", arr(caps));
        } else {
            let _ = write!(o, ",\"vis\":{}", q(&format!("{:?}", tcx.visibility(did))));
        }
        if matches!(kind, DefKind::AssocFn) {
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"self\":{}", q(&self.ty(st)));
                if let Some(h) = self.ty_head(st) {
                    let _ = write!(o, ",\"selfh\":{}", q(&h));
                }
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(
                        o,
                        ",\"trait\":{},\"traitref\":{}",
                        q(&self.path(tr.def_id)),
                        q(&with_no_trimmed_paths!(tr.to_string()))
                    );
                    if let Some(ti) = tcx.trait_item_of(did) {
                        let _ = write!(o, ",\"traitmh\":{}", q(&self.hash(ti)));
                    }
                }
            } else if let Some(t) = tcx.trait_of_assoc(did) {
                let _ = write!(o, ",\"traitdef\":{}", q(&self.path(t)));
            }
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            let _ = write!(o, ",\"unsafe\":{}", sig.safety().is_unsafe());
        }
        if let Some(body) = tcx.hir_maybe_body_owned_by(ld) {
            let mut v = Unsafe(vec![]);
            rustc_hir::intravisit::Visitor::visit_body(&mut v, body);
            if !v.0.is_empty() {
                let l = v.0.iter().map(|s| {
                    let own = !s.from_expansion() || s.ctxt().outer_expn_data().macro_def_id.is_some_and(|d| d.is_local());
                    format!("[{},{}]", q(&self.span(*s)), own)
                });
                let _ = write!(o, ",\"unsafes\":{}", arr(l.collect()));
            }
        }
        o.push(',');
        let body = if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            tcx.optimized_mir(did)
        } else {
            tcx.mir_for_ctfe(did)
        };
        self.body(body, env, o);
        let pr = tcx.promoted_mir(did);
        if !pr.is_empty() {
            o.push_str(",\"promoted\":[");
            for (i, b) in pr.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push('{');
                self.body(b, env, o);
                o.push('}');
            }
            o.push(']');
        }
        o.push('}');
    }
    fn krate(&self) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},\"fns\":[", q(tcx.crate_name(LOCAL_CRATE).as_str()));
        let mut first = true;
        for ld in tcx.hir_body_owners() {
            let k = tcx.def_kind(ld);
            if !matches!(
                k,
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }
            ) {
                continue;
            }
            if !matches!(k, DefKind::Closure | DefKind::Fn | DefKind::AssocFn) && tcx.generics_of(ld).count() > 0 && false {
                continue;
            }
            if !first {
                o.push_str(",\n");
            }
            first = false;
            self.function(ld, &mut o);
        }
        o.push_str("],\n\"adts\":[");
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(did);
                    let ds: Vec<u128> = if ad.is_enum() { ad.discriminants(tcx).map(|(_, d)| d.val).collect() } else { vec![0] };
                    let vs: Vec<String> = ad
                        .variants()
                        .iter()
                        .enumerate()
                        .map(|(i, v)| {
                            format!(
                                "{{\"n\":{},\"d\":{},\"fs\":{}}}",
                                q(v.name.as_str()),
                                ds.get(i).copied().unwrap_or(0),
                                arr(v
                                    .fields
                                    .iter()
                                    .map(|f| {
                                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                        format!("[{},{}]", q(f.name.as_str()), q(&self.ty(t)))
                                    })
                                    .collect())
                            )
                        })
                        .collect();
                    adts.push(format!(
                        "{{\"path\":{},\"kind\":{},\"span\":{},\"vs\":{}}}",
                        q(&self.path(did)),
                        q(&format!("{:?}", tcx.def_kind(did))),
                        q(&self.span(tcx.def_span(did))),
                        arr(vs)
                    ));
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    let st = tr.self_ty();
                    let items: Vec<String> = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .filter(|i| i.is_fn())
                        .map(|i| format!("[{},{}]", q(i.name().as_str()), q(&self.hash(i.def_id))))
                        .collect();
                    impls.push(format!(
                        "{{\"trait\":{},\"ref\":{},\"self\":{},\"selfh\":{},\"items\":{},\"unsafe\":{},\"exp\":{},\"span\":{}}}",
                        q(&self.path(tr.def_id)),
                        q(&with_no_trimmed_paths!(tr.to_string())),
                        q(&self.ty(st)),
                        q(&self.ty_head(st).unwrap_or_default()),
                        arr(items),
                        tcx.impl_trait_header(did).safety.is_unsafe(),
                        tcx.def_span(did).from_expansion(),
                        q(&self.span(tcx.def_span(did)))
                    ));
                }
                DefKind::Trait => {
                    let items: Vec<String> = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .filter(|i| i.is_fn())
                        .map(|i| {
                            format!(
                                "[{},{},{}]",
                                q(i.name().as_str()),
                                q(&self.hash(i.def_id)),
                                tcx.defaultness(i.def_id).has_value()
                            )
                        })
                        .collect();
                    traits.push(format!("{{\"path\":{},\"items\":{}}}", q(&self.path(did)), arr(items)));
                }
                _ => {}
            }
        }
        let _ = write!(o, "{}],\n\"impls\":[{}],\n\"traits\":[{}]}}", adts.join(",\n"), impls.join(",\n"), traits.join(",\n"));
        o
    }
}

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn config(&mut self, c: &mut Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.cg.overflow_checks = Some(false);
        c.opts.cg.debug_assertions = Some(false);
        c.opts.unstable_opts.always_encode_mir = false;
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(dir) = &self.out {
            let cx = Cx { tcx };
            let s = cx.krate();
            let name = tcx.crate_name(LOCAL_CRATE).to_string();
            let kind = if tcx.entry_fn(()).is_some() { "bin" } else { "lib" };
            let f = format!("{dir}/{name}.{kind}.json");
            std::fs::write(&f, s).expect("write facts");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let want = !name.is_empty() && name != "build_script_build" && name != "___";
    let out = if want { std::env::var("MIRFACTS_OUT").ok() } else { None };
    rustc_driver::install_ice_hook("none", |_| ());
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
