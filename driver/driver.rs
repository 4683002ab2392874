//! rustc wrapper that dumps a crate's resolved, typed program (MIR as first built, before any
//! transformation) as JSON lines.  Used as RUSTC_WORKSPACE_WRAPPER; extraction happens only for
//! the crates named in VFACTS_CRATES, into VFACTS_OUT/<crate>.jsonl.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    adts: BTreeMap<String, String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!({
            let p = self.tcx.def_path_str(d);
            if d.is_local() {
                format!("{}::{}", self.tcx.crate_name(d.krate), p)
            } else {
                p
            }
        }))
    }
    fn tstr(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(
            ty::print::with_resolve_crate_name!(t.to_string())
        ))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let s = self.tstr(t);
        let mut inner = t;
        let mut refs = 0;
        loop {
            match inner.kind() {
                ty::Ref(_, x, _) => {
                    refs += 1;
                    inner = *x;
                }
                _ => break,
            }
        }
        let adt = match inner.kind() {
            ty::Adt(d, _) => {
                self.adt(*d);
                esc(&self.path(d.did()))
            }
            ty::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.path(*d))),
            ty::FnDef(d, _) => format!("[\"fn\",{}]", esc(&self.path(*d))),
            ty::Param(p) => format!("[\"param\",{}]", esc(p.name.as_str())),
            _ => "null".into(),
        };
        let i = self.ty_out.len();
        self.ty_out.push(format!("{{\"s\":{},\"adt\":{},\"refs\":{}}}", esc(&s), adt, refs));
        self.tys.insert(t, i);
        i
    }
    fn adt(&mut self, d: ty::AdtDef<'tcx>) {
        let p = self.path(d.did());
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), String::new());
        let mut vs = vec![];
        for (vi, v) in d.variants().iter_enumerated() {
            let discr = if d.is_enum() {
                d.discriminant_for_variant(self.tcx, vi).val.to_string()
            } else {
                "0".into()
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                fs.push(format!("[{},{}]", esc(f.name.as_str()), esc(&self.tstr(t))));
            }
            vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(v.name.as_str()), discr, arr(fs)));
        }
        let kind = if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" };
        let j = format!(
            "{{\"k\":\"adt\",\"path\":{},\"kind\":\"{}\",\"local\":{},\"variants\":{}}}",
            esc(&p), kind, d.did().is_local(), arr(vs)
        );
        self.adts.insert(p, j);
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            _ => String::new(),
        };
        format!("[{},{}]", esc(&f), l.line)
    }
    fn line(&self, s: Span) -> usize {
        let s = s.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(s.lo()).line
    }
}

struct Bx<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'a, 'tcx> Bx<'a, 'tcx> {
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let mut out = vec![p.local.as_usize().to_string()];
        let mut pty = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            out.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = match pty.variant_index {
                                Some(v) => d.variant(v),
                                None if d.is_enum() => d.variant(rustc_abi::VariantIdx::from_u32(0)),
                                None => d.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    format!("[\"f\",{}]", esc(&name))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"c\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(n, v) => {
                    let name = match (n, pty.ty.kind()) {
                        (_, ty::Adt(d, _)) => d.variant(v).name.to_string(),
                        (Some(n), _) => n.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    format!("[\"v\",{}]", esc(&name))
                }
                _ => "\"?\"".into(),
            });
            pty = pty.projection_ty(tcx, e);
        }
        arr(out)
    }
    fn konst(&mut self, c: &Const<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let t = c.ty();
        let ti = self.cx.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            return format!("[\"fn\",{}]", self.fnref(*d, args.skip_binder()));
        }
        let mut def = "null".to_string();
        if let Const::Unevaluated(u, _) = c {
            def = esc(&self.cx.path(u.def));
        }
        let mut val = "null".to_string();
        let is_param = matches!(c, Const::Ty(..));
        if let Some(b) = c.try_eval_bits(tcx, self.env) {
            if t.is_integral() || t.is_bool() || t.is_char() {
                let s = if t.is_signed() {
                    let size = tcx.layout_of(self.env.as_query_input(t)).unwrap().size;
                    size.sign_extend(b).to_string()
                } else {
                    b.to_string()
                };
                val = if t.is_bool() { (b != 0).to_string() } else if t.is_char() {
                    esc(&char::from_u32(b as u32).unwrap_or('?').to_string())
                } else { format!("{}", esc(&s)) };
            }
        } else if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Ok(cv) = c.eval(tcx, self.env, rustc_span::DUMMY_SP) {
                    if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                        val = format!("[\"str\",{}]", esc(&String::from_utf8_lossy(b)));
                    }
                }
            }
        }
        let extra = if is_param { esc(&format!("{c}")) } else { "null".into() };
        format!("[\"k\",{ti},{val},{def},{extra}]")
    }
    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let p = self.cx.path(d);
        let mut targs = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                targs.push(self.cx.ty(t).to_string());
            } else if let Some(c) = a.as_const() {
                targs.push(esc(&format!("{c}")));
            }
        }
        let mut trait_ = "null".to_string();
        let mut res = "null".to_string();
        if let Some(t) = tcx.trait_of_assoc(d) {
            trait_ = esc(&self.cx.path(t));
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, args) {
                res = esc(&self.cx.path(i.def_id()));
            }
        }
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        format!(
            "{{\"p\":{},\"n\":{},\"t\":{},\"r\":{},\"a\":{},\"l\":{}}}",
            esc(&p), esc(&name), trait_, res, arr(targs), d.is_local()
        )
    }
    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            _ => "[\"k\",0,null,null,null]".into(),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>) -> String {
        let tcx = self.cx.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.op(o), esc(&format!("{n}"))),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(p), m)
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"static\",{}]", esc(&self.cx.path(*d))),
            Rvalue::Cast(_, o, t) => {
                let t = self.cx.ty(*t);
                format!("[\"cast\",{},{}]", self.op(o), t)
            }
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(&ops.0), self.op(&ops.1)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(self.body, tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(d, _) = t.kind() {
                    self.cx.adt(*d);
                    if d.is_enum() {
                        for (vi, v) in d.variants().iter_enumerated() {
                            vs.push(format!("[{},{}]", d.discriminant_for_variant(tcx, vi).val, esc(v.name.as_str())));
                        }
                    }
                }
                let ti = self.cx.ty(t);
                format!("[\"discr\",{},{},{}]", self.place(p), arr(vs), ti)
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".into(),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let ad = tcx.adt_def(*d);
                        self.cx.adt(ad);
                        let var = ad.variant(*v);
                        let fs: Vec<String> = match active {
                            Some(f) => vec![esc(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        format!("[\"adt\",{},{},{}]", esc(&self.cx.path(*d)), esc(var.name.as_str()), arr(fs))
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        format!("[\"closure\",{}]", esc(&self.cx.path(*d)))
                    }
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", kk, arr(os))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            _ => "[\"other\"]".into(),
        }
    }
    fn term(&mut self, t: &Terminator<'tcx>) -> String {
        let ln = self.cx.line(t.source_info.span);
        let f = |b: Option<BasicBlock>| b.map(|b| b.as_usize() as i64).unwrap_or(-1);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(self.body, self.cx.tcx);
                let dti = self.cx.ty(dt);
                let vs: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.as_usize())).collect();
                format!("[\"sw\",{},{},{},{},{}]", self.op(discr), arr(vs), targets.otherwise().as_usize(), ln, dti)
            }
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let a: Vec<String> = args.iter().map(|a| self.op(&a.node)).collect();
                format!("[\"call\",{},{},{},{},{}]", self.op(func), arr(a), self.place(destination), f(*target), ln)
            }
            TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                let k = format!("{:?}", msg.description_kind());
                format!("[\"assert\",{},{},{},{},{}]", self.op(cond), expected, target.as_usize(), ln, esc(&k))
            }
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                format!("[\"yield\",{},{},{}]", self.op(value), resume.as_usize(), self.place(resume_arg))
            }
            TerminatorKind::TailCall { .. } => "[\"unk\"]".into(),
            _ => "[\"unr\"]".into(),
        }
    }
}

trait DescKind {
    fn description_kind(&self) -> &'static str;
}
impl<O> DescKind for AssertKind<O> {
    fn description_kind(&self) -> &'static str {
        match self {
            AssertKind::BoundsCheck { .. } => "bounds",
            AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
            AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "div0",
            _ => "other",
        }
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], adts: BTreeMap::new() };
        let mut lines: Vec<String> = vec![];
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        let mut bodies: Vec<(LocalDefId, Option<Body<'tcx>>)> = vec![];
        for d in &owners {
            // array lengths and const generic arguments: no behaviour of their own, and asking for
            // their types before the types that mention them are lowered is an error
            if matches!(tcx.def_kind(d.to_def_id()), DefKind::AnonConst) {
                continue;
            }
            let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let tainted = tcx.typeck(*d).tainted_by_errors.is_some();
                if tainted { None } else { Some(tcx.mir_built(*d).borrow().clone()) }
            }));
            bodies.push((*d, b.unwrap_or(None)));
        }
        for (d, b) in &bodies {
            let did = d.to_def_id();
            let kind = format!("{:?}", tcx.def_kind(did));
            let path = cx.path(did);
            let parent = tcx.opt_parent(did).map(|p| cx.path(p)).unwrap_or_default();
            let span = cx.span(tcx.def_span(did));
            let mut gens = vec![];
            {
                let mut g = tcx.generics_of(did);
                loop {
                    for p in g.own_params.iter().rev() {
                        if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                            gens.push(esc(p.name.as_str()));
                        }
                    }
                    match g.parent {
                        Some(p) => g = tcx.generics_of(p),
                        None => break,
                    }
                }
                gens.reverse();
            }
            let gens = arr(gens);
            let Some(body) = b else {
                lines.push(format!("{{\"k\":\"tainted\",\"path\":{},\"kind\":{},\"span\":{}}}", esc(&path), esc(&kind), span));
                continue;
            };
            let name = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let env = TypingEnv::post_analysis(tcx, did);
                let mut bx = Bx { cx: &mut cx, body, env };
                let mut names: BTreeMap<usize, String> = BTreeMap::new();
                let mut upvars: Vec<String> = vec![];
                for v in &body.var_debug_info {
                    if let VarDebugInfoContents::Place(p) = &v.value {
                        if p.projection.is_empty() {
                            names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                        } else {
                            upvars.push(format!("[{},{}]", esc(v.name.as_str()), bx.place(p)));
                        }
                    }
                }
                let mut locals = vec![];
                for (i, l) in body.local_decls.iter_enumerated() {
                    let t = bx.cx.ty(l.ty);
                    let n = names.get(&i.as_usize()).map(|s| esc(s)).unwrap_or("null".into());
                    locals.push(format!("[{},{}]", t, n));
                }
                let mut blocks = vec![];
                for bb in body.basic_blocks.iter() {
                    let mut st = vec![];
                    for s in &bb.statements {
                        match &s.kind {
                            StatementKind::Assign(pr) => {
                                let ln = bx.cx.line(s.source_info.span);
                                let (p, r) = &**pr;
                                st.push(format!("[{},{},{}]", bx.place(p), bx.rv(r), ln));
                            }
                            StatementKind::SetDiscriminant { place, variant_index } => {
                                st.push(format!("[{},[\"setd\",{}],0]", bx.place(place), variant_index.as_usize()));
                            }
                            _ => {}
                        }
                    }
                    let t = bx.term(bb.terminator());
                    blocks.push(format!("[{},{},{}]", arr(st), t, bb.is_cleanup));
                }
                format!(
                    "\"args\":{},\"locals\":{},\"upvars\":{},\"blocks\":{}",
                    body.arg_count, arr(locals), arr(upvars), arr(blocks)
                )
            }));
            match r {
                Ok(s) => lines.push(format!(
                    "{{\"k\":\"body\",\"path\":{},\"name\":{},\"kind\":{},\"parent\":{},\"span\":{},\"gen\":{},{}}}",
                    esc(&path), esc(&name), esc(&kind), esc(&parent), span, gens, s
                )),
                Err(_) => lines.push(format!("{{\"k\":\"tainted\",\"path\":{},\"kind\":{},\"span\":{}}}", esc(&path), esc(&kind), span)),
            }
        }
        // items: impls, traits, functions with attributes, constants, statics
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { .. } => {
                    let tr = tcx.impl_opt_trait_ref(did).map(|t| {
                        let t = t.instantiate_identity().skip_norm_wip();
                        (cx.path(t.def_id), ty::print::with_no_trimmed_paths!(t.to_string()))
                    });
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let sti = cx.ty(st);
                    let mut items = vec![];
                    for a in tcx.associated_items(did).in_definition_order() {
                        let tp = a.trait_item_def_id().map(|t| esc(&cx.path(t))).unwrap_or("null".into());
                        items.push(format!("[{},{},{}]", esc(&a.name().to_string()), esc(&cx.path(a.def_id)), tp));
                    }
                    let (tp, ts) = tr.map(|(a, b)| (esc(&a), esc(&b))).unwrap_or(("null".into(), "null".into()));
                    lines.push(format!(
                        "{{\"k\":\"impl\",\"path\":{},\"trait\":{},\"tref\":{},\"self\":{},\"items\":{},\"span\":{}}}",
                        esc(&cx.path(did)), tp, ts, sti, arr(items), cx.span(tcx.def_span(did))
                    ));
                }
                DefKind::Trait => {
                    let mut items = vec![];
                    for a in tcx.associated_items(did).in_definition_order() {
                        items.push(format!("[{},{},{}]", esc(&a.name().to_string()), esc(&cx.path(a.def_id)), a.defaultness(tcx).has_value()));
                    }
                    lines.push(format!("{{\"k\":\"trait\",\"path\":{},\"items\":{}}}", esc(&cx.path(did)), arr(items)));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    cx.adt(tcx.adt_def(did));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let val = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        if matches!(tcx.def_kind(did), DefKind::Static { .. }) || tcx.generics_of(did).requires_monomorphization(tcx) {
                            return None;
                        }
                        let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                        if !(t.is_integral() || t.is_bool()) {
                            return None;
                        }
                        let v = tcx.const_eval_poly(did).ok()?;
                        v.try_to_scalar_int().map(|i| i.to_bits_unchecked().to_string())
                    }))
                    .unwrap_or(None);
                    let v = val.map(|v| esc(&v)).unwrap_or("null".into());
                    lines.push(format!("{{\"k\":\"const\",\"path\":{},\"val\":{},\"span\":{}}}", esc(&cx.path(did)), v, cx.span(tcx.def_span(did))));
                }
                _ => {}
            }
        }
        let mut f = std::io::BufWriter::new(std::fs::File::create(&self.out).unwrap());
        for l in &lines {
            writeln!(f, "{l}").unwrap();
        }
        for a in cx.adts.values() {
            if !a.is_empty() {
                writeln!(f, "{a}").unwrap();
            }
        }
        writeln!(f, "{{\"k\":\"types\",\"types\":{}}}", arr(cx.ty_out.clone())).unwrap();
        writeln!(f, "{{\"k\":\"end\",\"bodies\":{}}}", bodies.len()).unwrap();
        f.flush().unwrap();
        if std::env::var("VFACTS_STOP").is_ok() {
            Compilation::Stop
        } else {
            Compilation::Continue
        }
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as: driver <rustc> <args...>
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let want = std::env::var("VFACTS_CRATES").unwrap_or_default();
    let out = std::env::var("VFACTS_OUT").unwrap_or_default();
    let is_build_script = name.starts_with("build_script");
    if !is_build_script && want.split(',').any(|w| w == name) {
        let mut cb = Cb { out: format!("{out}/{name}.jsonl") };
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
    } else {
        struct N;
        impl Callbacks for N {}
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut N))
    }
}
