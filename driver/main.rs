// rustc driver: type-checks a crate exactly as cargo asked for and, for the crates of /repo,
// writes its MIR (resolved callees, field names, types, constants) as JSON.
// Used as RUSTC_WORKSPACE_WRAPPER; nothing of the analysed program is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_structures;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::BTreeMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    format!("[{}]", it.into_iter().collect::<Vec<_>>().join(","))
}

static IS_BIN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, String>,
}

fn id_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    let bin = d.is_local() && IS_BIN.load(std::sync::atomic::Ordering::Relaxed);
    format!(
        "{}{}{}",
        tcx.crate_name(d.krate),
        if bin { "_bin" } else { "" },
        tcx.def_path(d).to_string_no_crate_verbose()
    )
}

fn path_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = with_no_trimmed_paths!(tcx.def_path_str(d));
    if d.is_local() && !p.starts_with('<') {
        format!("{}::{}", tcx.crate_name(d.krate), p)
    } else {
        p
    }
}

fn ty_str<'tcx>(t: Ty<'tcx>) -> String {
    with_no_trimmed_paths!(t.to_string())
}

impl<'tcx> Cx<'tcx> {
    fn note_adt(&mut self, t: Ty<'tcx>) {
        let t = t.peel_refs();
        if let ty::Adt(def, _) = t.kind() {
            let key = id_of(self.tcx, def.did());
            if self.adts.contains_key(&key) {
                return;
            }
            let variants = def.variants().iter_enumerated().map(|(i, v)| {
                let discr = if def.is_enum() {
                    def.discriminant_for_variant(self.tcx, i).val.to_string()
                } else {
                    "0".into()
                };
                format!(
                    "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                    esc(v.name.as_str()),
                    esc(&discr),
                    list(v.fields.iter().map(|f| {
                        let ft = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        format!(
                            "{{\"name\":{},\"ty\":{},\"pub\":{}}}",
                            esc(f.name.as_str()),
                            esc(&ty_str(ft)),
                            f.vis.is_public()
                        )
                    }))
                )
            });
            let s = format!(
                "{{\"path\":{},\"local\":{},\"kind\":{},\"variants\":{}}}",
                esc(&path_of(self.tcx, def.did())),
                def.did().is_local(),
                esc(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" }),
                list(variants)
            );
            self.adts.insert(key, s);
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut cur = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut out = Vec::new();
        for elem in p.projection.iter() {
            let e = match elem {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let (owner, name) = match cur.ty.kind() {
                        ty::Adt(def, _) => {
                            self.note_adt(cur.ty);
                            let v = match cur.variant_index {
                                Some(v) => def.variant(v),
                                None => def.non_enum_variant(),
                            };
                            (id_of(tcx, def.did()), v.fields[f].name.to_string())
                        }
                        ty::Closure(did, _) => {
                            let n = did
                                .as_local()
                                .and_then(|l| {
                                    tcx.closure_captures(l)
                                        .get(f.as_usize())
                                        .map(|c| c.to_symbol().to_string())
                                })
                                .unwrap_or_else(|| f.as_usize().to_string());
                            (id_of(tcx, *did), n)
                        }
                        _ => ("".to_string(), f.as_usize().to_string()),
                    };
                    format!("[\"f\",{},{},{}]", f.as_usize(), esc(&name), esc(&owner))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    format!("[\"ci\",{},{},{}]", offset, from_end, min_length)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match cur.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    format!("[\"d\",{}]", esc(&name))
                }
                _ => "\"?\"".to_string(),
            };
            out.push(e);
            cur = cur.projection_ty(tcx, elem);
        }
        format!("[{},[{}]]", p.local.as_usize(), out.join(","))
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!(
            "\"id\":{},\"path\":{},\"args\":{}",
            esc(&id_of(tcx, did)),
            esc(&path_of(tcx, did)),
            list(args.iter().filter_map(|a| a.as_type()).map(|t| esc(&ty_str(t))))
        );
        if let Some(tr) = tcx.trait_of_assoc(did) {
            let _ = write!(s, ",\"trait\":{}", esc(&path_of(tcx, tr)));
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, did, tcx.erase_and_anonymize_regions(args)) {
            let rd = inst.def_id();
            if rd != did || matches!(inst.def, ty::InstanceKind::Item(_)) {
                let _ = write!(
                    s,
                    ",\"rid\":{},\"rpath\":{}",
                    esc(&id_of(tcx, rd)),
                    esc(&path_of(tcx, rd))
                );
            }
        }
        // receiver that is a closure, called through Fn*::call*
        if let Some(t) = args.types().next() {
            if let ty::Closure(cd, _) = t.peel_refs().kind() {
                let _ = write!(s, ",\"self_closure\":{}", esc(&id_of(tcx, *cd)));
            }
        }
        s
    }

    fn konst(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut s = format!("\"ty\":{}", esc(&ty_str(t)));
        if let ty::FnDef(did, args) = t.kind() {
            let callee = self.callee(env, *did, args.no_bound_vars().unwrap());
            let _ = write!(s, ",\"fn\":{{{}}}", callee);
            return format!("{{\"k\":\"const\",{}}}", s);
        }
        if let ty::Closure(did, _) = t.kind() {
            let _ = write!(s, ",\"closure\":{}", esc(&id_of(tcx, *did)));
            return format!("{{\"k\":\"const\",{}}}", s);
        }
        match c.const_ {
            Const::Unevaluated(uv, _) => {
                if let Some(p) = uv.promoted {
                    let _ = write!(
                        s,
                        ",\"promoted\":{},\"of\":{}",
                        p.as_usize(),
                        esc(&id_of(tcx, uv.def))
                    );
                } else {
                    let _ = write!(s, ",\"item\":{}", esc(&path_of(tcx, uv.def)));
                }
            }
            Const::Ty(_, ct) => {
                let _ = write!(s, ",\"pretty\":{}", esc(&with_no_trimmed_paths!(ct.to_string())));
            }
            Const::Val(v, ty) => {
                let v: ConstValue = v;
                if let Some(b) = v.try_to_bits_for_ty(tcx, env, ty) {
                    let _ = write!(s, ",\"int\":{}", esc(&b.to_string()));
                } else {
                    let mut bytes: Option<Vec<u8>> = None;
                    match v {
                        ConstValue::Slice { alloc_id, meta } => {
                            if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                                bytes = Some(
                                    a.inner()
                                        .inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize)
                                        .to_vec(),
                                );
                            }
                        }
                        ConstValue::Scalar(interpret::Scalar::Ptr(ptr, _)) => {
                            let (prov, off) = ptr.into_raw_parts();
                            if let GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                                let n = a.inner().len();
                                bytes = Some(
                                    a.inner()
                                        .inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..n)
                                        .to_vec(),
                                );
                            }
                        }
                        _ => {}
                    }
                    if let Some(b) = bytes {
                        match std::str::from_utf8(&b) {
                            Ok(x) if ty_str(ty).contains("str") => {
                                let _ = write!(s, ",\"str\":{}", esc(x));
                            }
                            _ => {
                                let _ = write!(s, ",\"bytes\":{}", list(b.iter().map(|x| x.to_string())));
                            }
                        }
                    } else {
                        let _ = write!(s, ",\"pretty\":{}", esc(&with_no_trimmed_paths!(format!("{}", c.const_))));
                    }
                }
            }
        }
        format!("{{\"k\":\"const\",{}}}", s)
    }

    fn op(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.konst(env, c),
            _ => "{\"k\":\"const\",\"ty\":\"bool\",\"rtcheck\":true}".to_string(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"k\":\"use\",\"o\":{}}}", self.op(body, env, o)),
            Rvalue::Repeat(o, n) => format!(
                "{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}",
                self.op(body, env, o),
                esc(&n.to_string())
            ),
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"k\":\"ref\",\"mut\":{},\"p\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(body, p)
            ),
            Rvalue::Reborrow(_, m, p) => format!(
                "{{\"k\":\"ref\",\"mut\":{},\"p\":{}}}",
                m.is_mut(),
                self.place(body, p)
            ),
            Rvalue::RawPtr(k, p) => format!(
                "{{\"k\":\"rawptr\",\"mut\":{},\"p\":{}}}",
                matches!(k, RawPtrKind::Mut),
                self.place(body, p)
            ),
            Rvalue::Cast(k, o, t) => format!(
                "{{\"k\":\"cast\",\"kind\":{},\"o\":{},\"from\":{},\"ty\":{}}}",
                esc(&format!("{:?}", k)),
                self.op(body, env, o),
                esc(&ty_str(o.ty(body, self.tcx))),
                esc(&ty_str(*t))
            ),
            Rvalue::BinaryOp(b, ops) => format!(
                "{{\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}",
                esc(&format!("{:?}", b)),
                self.op(body, env, &ops.0),
                self.op(body, env, &ops.1)
            ),
            Rvalue::UnaryOp(u, o) => format!(
                "{{\"k\":\"un\",\"op\":{},\"o\":{}}}",
                esc(&format!("{:?}", u)),
                self.op(body, env, o)
            ),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                self.note_adt(t);
                let adt = match t.kind() {
                    ty::Adt(d, _) => id_of(self.tcx, d.did()),
                    _ => ty_str(t),
                };
                format!("{{\"k\":\"discr\",\"p\":{},\"adt\":{}}}", self.place(body, p), esc(&adt))
            }
            Rvalue::Aggregate(k, ops) => {
                let os = list(ops.iter().map(|o| self.op(body, env, o)));
                match &**k {
                    AggregateKind::Array(_) => format!("{{\"k\":\"agg\",\"a\":\"array\",\"ops\":{}}}", os),
                    AggregateKind::Tuple => format!("{{\"k\":\"agg\",\"a\":\"tuple\",\"ops\":{}}}", os),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        self.note_adt(Ty::new_adt(self.tcx, def, args));
                        let vd = def.variant(*v);
                        format!(
                            "{{\"k\":\"agg\",\"a\":\"adt\",\"adt\":{},\"variant\":{},\"fields\":{},\"ops\":{}}}",
                            esc(&id_of(self.tcx, *d)),
                            esc(vd.name.as_str()),
                            list(vd.fields.iter().map(|f| esc(f.name.as_str()))),
                            os
                        )
                    }
                    AggregateKind::Closure(d, _) => format!(
                        "{{\"k\":\"agg\",\"a\":\"closure\",\"closure\":{},\"ops\":{}}}",
                        esc(&id_of(self.tcx, *d)),
                        os
                    ),
                    _ => format!("{{\"k\":\"agg\",\"a\":\"other\",\"ops\":{}}}", os),
                }
            }
            Rvalue::CopyForDeref(p) => {
                format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(body, p))
            }
            _ => "{\"k\":\"other\"}".to_string(),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        (l.file.name.prefer_local_unconditionally().to_string(), l.line)
    }

    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let locals = list(body.local_decls.iter_enumerated().map(|(l, d)| {
            format!(
                "{{\"ty\":{},\"name\":{}}}",
                esc(&ty_str(d.ty)),
                names.get(&l.as_usize()).map_or("null".to_string(), |n| esc(n))
            )
        }));
        let mut bbs = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut stmts = Vec::new();
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        stmts.push(format!(
                            "{{\"p\":{},\"r\":{},\"l\":{}}}",
                            self.place(body, p),
                            self.rvalue(body, env, r),
                            self.line(st.source_info.span).1
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        stmts.push(format!(
                            "{{\"setdiscr\":{},\"v\":{}}}",
                            self.place(body, place),
                            variant_index.as_usize()
                        ));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = self.line(t.source_info.span).1;
            let exp = t.source_info.span.from_expansion();
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => format!(
                    "{{\"k\":\"switch\",\"o\":{},\"ts\":{},\"else\":{},\"l\":{}}}",
                    self.op(body, env, discr),
                    list(targets.iter().map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.as_usize()))),
                    targets.otherwise().as_usize(),
                    line
                ),
                TerminatorKind::Return => "{\"k\":\"return\"}".to_string(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "{\"k\":\"resume\"}".to_string()
                }
                TerminatorKind::Drop { place, target, .. } => format!(
                    "{{\"k\":\"drop\",\"p\":{},\"t\":{}}}",
                    self.place(body, place),
                    target.as_usize()
                ),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(body, env, func);
                    let a = list(args.iter().map(|a| self.op(body, env, &a.node)));
                    format!(
                        "{{\"k\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"t\":{},\"l\":{},\"exp\":{}}}",
                        f,
                        a,
                        self.place(body, destination),
                        target.map_or("null".to_string(), |t| t.as_usize().to_string()),
                        line,
                        exp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, _, _) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    let mut extra = String::new();
                    match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            extra = format!(
                                ",\"len\":{},\"index\":{}",
                                self.op(body, env, len),
                                self.op(body, env, index)
                            );
                        }
                        AssertKind::Overflow(_, a, b) => {
                            extra = format!(
                                ",\"a\":{},\"b\":{}",
                                self.op(body, env, a),
                                self.op(body, env, b)
                            );
                        }
                        _ => {}
                    }
                    format!(
                        "{{\"k\":\"assert\",\"o\":{},\"exp\":{},\"msg\":{},\"t\":{},\"l\":{}{}}}",
                        self.op(body, env, cond),
                        expected,
                        esc(&kind),
                        target.as_usize(),
                        line,
                        extra
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize())
                }
                _ => "{\"k\":\"other\"}".to_string(),
            };
            bbs.push(format!(
                "{{\"s\":[{}],\"t\":{},\"c\":{}}}",
                stmts.join(","),
                term,
                bb.is_cleanup
            ));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"bbs\":[{}]",
            body.arg_count,
            locals,
            bbs.join(",")
        )
    }
}

fn dump(tcx: TyCtxt<'_>, dir: &str) {
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let is_bin = tcx.crate_types().iter().any(|t| matches!(t, rustc_structures::CrateType::Executable));
    IS_BIN.store(is_bin, std::sync::atomic::Ordering::Relaxed);
    let mut cx = Cx { tcx, adts: BTreeMap::new() };
    let mut fns = Vec::new();
    for ld in tcx.hir_body_owners() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let kname = match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Closure => "closure",
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => "const",
            _ => continue,
        };
        let env = TypingEnv::post_analysis(tcx, did);
        let body: &Body<'_> = if kname == "const" {
            tcx.mir_for_ctfe(did)
        } else {
            tcx.optimized_mir(did)
        };
        let (file, line) = cx.line(tcx.def_span(did));
        let mut s = format!(
            "\"id\":{},\"name\":{},\"kind\":\"{}\",\"file\":{},\"line\":{},\"pub\":{}",
            esc(&id_of(tcx, did)),
            esc(&path_of(tcx, did)),
            kname,
            esc(&file),
            line,
            if kname == "closure" { false } else { tcx.visibility(did).is_public() }
        );
        if kname == "closure" {
            let _ = write!(s, ",\"parent\":{}", esc(&id_of(tcx, tcx.parent(did))));
        }
        let root = tcx.typeck_root_def_id(did);
        let _ = write!(s, ",\"root\":{}", esc(&id_of(tcx, root)));
        if let Some(im) = tcx.impl_of_assoc(root) {
            let _ = write!(s, ",\"impl\":{}", esc(&id_of(tcx, im)));
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let _ = write!(s, ",\"self_ty\":{}", esc(&ty_str(st)));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(s, ",\"trait_ref\":{}", esc(&with_no_trimmed_paths!(format!("{:?}", tr))));
            }
            if let Some(trd) = tcx.impl_opt_trait_ref(im).map(|t| t.skip_binder().def_id) {
                let _ = write!(s, ",\"trait\":{}", esc(&path_of(tcx, trd)));
            }
            if let Some(ti) = tcx.trait_item_of(root) {
                let _ = write!(s, ",\"trait_item\":{}", esc(&id_of(tcx, ti)));
            }
            let derived = tcx.is_automatically_derived(im);
            let _ = write!(s, ",\"derived\":{}", derived);
        }
        if let Some(tr) = tcx.trait_of_assoc(root) {
            let _ = write!(s, ",\"in_trait\":{}", esc(&path_of(tcx, tr)));
        }
        let b = cx.body(body, env);
        let proms = if kname == "const" {
            Vec::new()
        } else {
            tcx.promoted_mir(did).iter().map(|p| format!("{{{}}}", cx.body(p, env))).collect()
        };
        fns.push(format!("{{{},{},\"promoted\":[{}]}}", s, b, proms.join(",")));
    }
    // items: ADTs and impls
    let mut impls = Vec::new();
    for item in tcx.hir_crate_items(()).definitions() {
        let did = item.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum => cx.note_adt(tcx.type_of(did).instantiate_identity().skip_norm_wip()),
            DefKind::Impl { .. } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tr = tcx.impl_opt_trait_ref(did);
                let assoc_names: Vec<String> = tcx
                    .associated_items(did)
                    .in_definition_order()
                    .map(|i| esc(&id_of(tcx, i.def_id)))
                    .collect();
                impls.push(format!(
                    "{{\"id\":{},\"self\":{},\"trait\":{},\"trait_ref\":{},\"derived\":{},\"items\":{}}}",
                    esc(&id_of(tcx, did)),
                    esc(&ty_str(st)),
                    tr.map_or("null".into(), |t| esc(&path_of(tcx, t.skip_binder().def_id))),
                    tr.map_or("null".into(), |t| esc(&with_no_trimmed_paths!(format!("{:?}", t.instantiate_identity().skip_norm_wip())))),
                    tcx.is_automatically_derived(did),
                    list(assoc_names)
                ));
            }
            _ => {}
        }
    }
    let adts = cx
        .adts
        .iter()
        .map(|(k, v)| format!("{}:{}", esc(k), v))
        .collect::<Vec<_>>()
        .join(",");
    let text = format!(
        "{{\"crate\":{},\"bin\":{},\"fns\":[\n{}\n],\"impls\":[{}],\"adts\":{{{}}}}}",
        esc(&krate),
        is_bin,
        fns.join(",\n"),
        impls.join(",\n"),
        adts
    );
    let file = format!("{}/{}{}.json", dir, krate, if is_bin { "-bin" } else { "" });
    std::fs::write(&file, text).unwrap();
}

struct Cb {
    dir: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump(tcx, &self.dir);
        Compilation::Continue
    }
}

struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [wrapper, rustc, args...]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let dir = std::env::var("VP_MIR_OUT").unwrap_or_default();
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let wanted = ["rustomata", "search", "unique_heap", "vecmultimap"];
    if dir.is_empty() || !wanted.contains(&crate_name.as_str()) {
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop));
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Awarnings".into());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { dir }))
}
