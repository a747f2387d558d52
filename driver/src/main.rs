//! Dumps the type-checked program (MIR with resolved callees) of the crate
//! being compiled as JSON.  Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    /// Stable unique key of a definition.
    fn key(&self, d: DefId) -> String {
        let k = self.tcx.def_path(d).to_string_no_crate_verbose();
        format!("{}{}", self.tcx.crate_name(d.krate), k)
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        format!("[{},{}]", esc(&f), lo.line)
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut projs = Vec::new();
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let mut name = f.index().to_string();
                    let mut of = String::new();
                    match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            of = self.path(def.did());
                            let v = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            if !def.is_enum() || pt.variant_index.is_some() {
                                name = def.variant(v).fields[f].name.to_string();
                            }
                        }
                        _ => {}
                    }
                    format!("[\".\",{},{},{}]", esc(&name), f.index(), esc(&of))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => v.index().to_string(),
                    };
                    let of = match pt.ty.kind() {
                        ty::Adt(def, _) => self.path(def.did()),
                        _ => String::new(),
                    };
                    format!("[\"as\",{},{}]", esc(&name), esc(&of))
                }
                other => format!("[\"?\",{}]", esc(&format!("{:?}", other))),
            };
            projs.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("[{},{},{}]", p.local.index(), arr(projs), esc(&self.ty(pt.ty)))
    }

    fn bytes_json(&self, b: &[u8]) -> String {
        arr(b.iter().map(|x| x.to_string()).collect())
    }

    fn fnref(&self, owner: DefId, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, owner);
        let gargs = arr(args
            .iter()
            .map(|a| esc(&with_no_trimmed_paths!(a.to_string())))
            .collect());
        let closures = arr(args
            .types()
            .filter_map(|t| match t.kind() {
                ty::Closure(c, _) => Some(esc(&self.key(*c))),
                ty::FnDef(c, _) => Some(esc(&self.key(*c))),
                _ => None,
            })
            .collect());
        let mut resolved = "null".to_string();
        let mut resolved_local = false;
        let dk = tcx.def_kind(d);
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let r = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args));
            let a = r.unwrap_or(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, a) {
                resolved = esc(&self.key(i.def_id()));
                resolved_local = i.def_id().is_local();
                let _ = resolved_local;
            }
        }
        let trait_of = match tcx.trait_of_assoc(d) {
            Some(t) => esc(&self.path(t)),
            None => "null".to_string(),
        };
        format!(
            "{{\"path\":{},\"key\":{},\"name\":{},\"args\":{},\"clos\":{},\"res\":{},\"trait\":{},\"local\":{},\"rlocal\":{}}}",
            esc(&self.path(d)),
            esc(&self.key(d)),
            esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()),
            gargs,
            closures,
            resolved,
            trait_of,
            d.is_local(),
            resolved_local,
        )
    }

    fn konst(&self, owner: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ts = esc(&self.ty(t));
        match t.kind() {
            ty::FnDef(d, a) => {
                return format!("{{\"k\":\"fn\",\"fn\":{},\"ty\":{}}}", self.fnref(owner, *d, a.skip_binder()), ts)
            }
            ty::Closure(d, _) => {
                return format!("{{\"k\":\"clos\",\"key\":{},\"ty\":{}}}", esc(&self.key(*d)), ts)
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!(
                    "{{\"k\":\"promoted\",\"key\":{},\"ty\":{}}}",
                    esc(&format!("{}#p{}", self.key(u.def), p.index())),
                    ts
                );
            }
        }
        let env = TypingEnv::post_analysis(tcx, owner);
        if let Ok(v) = c.const_.eval(tcx, env, c.span) {
            match v {
                ConstValue::Scalar(s) => {
                    if let Ok(i) = s.try_to_scalar_int() {
                        let size = i.size();
                        let val: String = match t.kind() {
                            ty::Int(_) => i.to_int(size).to_string(),
                            ty::Float(ty::FloatTy::F64) => {
                                return format!("{{\"k\":\"float\",\"v\":{},\"ty\":{}}}", esc(&f64::from_bits(i.to_bits(size) as u64).to_string()), ts)
                            }
                            _ => i.to_bits(size).to_string(),
                        };
                        return format!("{{\"k\":\"int\",\"v\":{},\"ty\":{}}}", val, ts);
                    }
                    // pointer to constant memory: &[u8; N], &str consts
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if let ty::Array(el, n) = inner.kind() {
                            if *el == tcx.types.u8 {
                                if let (Ok(ptr), Some(n)) = (s.to_pointer(&tcx).into_pointer_or_addr(), n.try_to_target_usize(tcx)) {
                                    {
                                        let (prov, off) = ptr.prov_and_relative_offset();
                                        if let interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                                            let o = off.bytes() as usize;
                                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                                            return format!("{{\"k\":\"bytes\",\"v\":{},\"ty\":{}}}", self.bytes_json(b), ts);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                ConstValue::ZeroSized => {
                    return format!("{{\"k\":\"zst\",\"ty\":{}}}", ts);
                }
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if inner.is_str() {
                                return format!(
                                    "{{\"k\":\"str\",\"v\":{},\"ty\":{}}}",
                                    esc(&String::from_utf8_lossy(b)),
                                    ts
                                );
                            }
                        }
                        let is_u8 = match t.kind() {
                            ty::Ref(_, inner, _) => matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8),
                            _ => false,
                        };
                        if is_u8 {
                            return format!("{{\"k\":\"bytes\",\"v\":{},\"ty\":{}}}", self.bytes_json(b), ts);
                        }
                    }
                }
                ConstValue::Indirect { .. } => {}
            }
            // a reference to a static that never changes
            if let ConstValue::Scalar(s) = v {
                if let Ok(ptr) = s.to_pointer(&tcx).into_pointer_or_addr() {
                    let (prov, off) = ptr.prov_and_relative_offset();
                    if let interpret::GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                        if d.is_local() && off.bytes() == 0 && self.constant(d) {
                            return format!("{{\"k\":\"promoted\",\"key\":{},\"ty\":{}}}", esc(&self.key(d)), ts);
                        }
                    }
                }
            }
        }
        // the body of a constant of this crate
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() && self.constant(u.def) {
                return format!("{{\"k\":\"promoted\",\"key\":{},\"ty\":{}}}", esc(&self.key(u.def)), ts);
            }
        }
        let txt = with_no_trimmed_paths!(format!("{:?}", c.const_));
        format!("{{\"k\":\"other\",\"v\":{},\"ty\":{}}}", esc(&txt), ts)
    }

    /// a constant or an immutable static of this crate, without type parameters
    fn constant(&self, d: DefId) -> bool {
        let tcx = self.tcx;
        if !d.is_local() || tcx.generics_of(d).own_requires_monomorphization() || tcx.generics_of(d).parent_count > 0 {
            return false;
        }
        match tcx.def_kind(d) {
            DefKind::Const { .. } | DefKind::AssocConst { .. } => true,
            DefKind::Static { .. } => {
                !tcx.is_mutable_static(d) && tcx.type_of(d).skip_binder().is_freeze(tcx, TypingEnv::post_analysis(tcx, d))
            }
            _ => false,
        }
    }

    fn operand(&self, owner: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(owner, c)),
            Operand::RuntimeChecks(_) => "[\"k\",{\"k\":\"int\",\"v\":0,\"ty\":\"bool\"}]".to_string(),
        }
    }

    fn rvalue(&self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(owner, body, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(owner, body, o), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(body, p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", m.is_mut(), self.place(body, p)),
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{},{}]",
                esc(&format!("{:?}", k)),
                self.operand(owner, body, o),
                esc(&self.ty(o.ty(body, tcx))),
                esc(&self.ty(*t))
            ),
            Rvalue::BinaryOp(op, ab) => format!(
                "[\"bin\",{},{},{},{}]",
                esc(&format!("{:?}", op)),
                self.operand(owner, body, &ab.0),
                self.operand(owner, body, &ab.1),
                esc(&self.ty(ab.0.ty(body, tcx)))
            ),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(owner, body, o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                let mut m = Vec::new();
                let mut of = String::new();
                if let ty::Adt(def, _) = t.kind() {
                    of = self.path(def.did());
                    if def.is_enum() {
                        for (vi, d) in def.discriminants(tcx) {
                            m.push(format!("{}:{}", esc(&d.val.to_string()), esc(&def.variant(vi).name.to_string())));
                        }
                    }
                }
                format!("[\"discr\",{},{{{}}},{}]", self.place(body, p), m.join(","), esc(&of))
            }
            Rvalue::Aggregate(k, ops) => {
                let ops = arr(ops.iter().map(|o| self.operand(owner, body, o)).collect());
                let kk = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let def = tcx.adt_def(*d);
                        let var = def.variant(*v);
                        format!(
                            "{{\"k\":\"adt\",\"adt\":{},\"variant\":{},\"enum\":{},\"fields\":{}}}",
                            esc(&self.path(*d)),
                            esc(&var.name.to_string()),
                            def.is_enum(),
                            arr(var.fields.iter().map(|f| esc(&f.name.to_string())).collect())
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("{{\"k\":\"closure\",\"key\":{}}}", esc(&self.key(*d))),
                    other => format!("{{\"k\":\"other\",\"v\":{}}}", esc(&format!("{:?}", other))),
                };
                format!("[\"agg\",{},{}]", kk, ops)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.index().to_string(),
            _ => "null".to_string(),
        }
    }

    fn terminator(&self, owner: DefId, body: &Body<'tcx>, t: &Terminator<'tcx>) -> String {
        let sp = self.span(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ts = arr(targets.iter().map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.index())).collect());
                format!(
                    "[\"switch\",{},{},{},{},{}]",
                    self.operand(owner, body, discr),
                    ts,
                    targets.otherwise().index(),
                    esc(&self.ty(discr.ty(body, self.tcx))),
                    sp
                )
            }
            TerminatorKind::UnwindResume => "[\"resume\"]".into(),
            TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
            TerminatorKind::Return => format!("[\"return\",{}]", sp),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, unwind, .. } => format!(
                "[\"drop\",{},{},{},{}]",
                self.place(body, place),
                target.index(),
                self.unwind(unwind),
                sp
            ),
            TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                let mut dynfn = "null".to_string();
                let f = match func {
                    Operand::Constant(c) => self.konst(owner, c),
                    o => {
                        dynfn = self.operand(owner, body, o);
                        "null".into()
                    }
                };
                format!(
                    "[\"call\",{{\"f\":{},\"dyn\":{},\"args\":{},\"argtys\":{},\"dest\":{},\"target\":{},\"unwind\":{},\"span\":{}}}]",
                    f,
                    dynfn,
                    arr(args.iter().map(|a| self.operand(owner, body, &a.node)).collect()),
                    arr(args.iter().map(|a| esc(&self.ty(a.node.ty(body, self.tcx)))).collect()),
                    self.place(body, destination),
                    target.map(|b| b.index().to_string()).unwrap_or("null".into()),
                    self.unwind(unwind),
                    self.span(*fn_span)
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let kind = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds",
                    AssertKind::Overflow(..) => "overflow",
                    AssertKind::DivisionByZero(..) => "div0",
                    _ => "other",
                };
                format!(
                    "[\"assert\",{},{},{},{},{},{}]",
                    self.operand(owner, body, cond),
                    expected,
                    esc(kind),
                    target.index(),
                    self.unwind(unwind),
                    sp
                )
            }
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn body(&self, owner: DefId, body: &Body<'tcx>) -> String {
        let mut names = vec![String::new(); body.local_decls.len()];
        let mut upvars = Vec::new();
        for vdi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = vdi.value {
                if p.projection.is_empty() {
                    if names[p.local.index()].is_empty() {
                        names[p.local.index()] = vdi.name.to_string();
                    }
                } else {
                    upvars.push(format!("[{},{}]", esc(&vdi.name.to_string()), self.place(body, &p)));
                }
            }
        }
        let locals = arr(body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| format!("[{},{},{}]", esc(&self.ty(d.ty)), esc(&names[l.index()]), self.needs_drop(owner, d.ty)))
            .collect());
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => st.push(format!(
                        "[\"=\",{},{},{}]",
                        self.place(body, &b.0),
                        self.rvalue(owner, body, &b.1),
                        sp
                    )),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(body, self.tcx).ty;
                        let (v, of) = match t.kind() {
                            ty::Adt(def, _) => (def.variant(*variant_index).name.to_string(), self.path(def.did())),
                            _ => (variant_index.index().to_string(), String::new()),
                        };
                        st.push(format!("[\"setd\",{},{},{},{}]", self.place(body, place), esc(&v), sp, esc(&of)))
                    }
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.index())),
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.index())),
                    _ => {}
                }
            }
            blocks.push(format!(
                "{{\"s\":{},\"t\":{},\"cleanup\":{}}}",
                arr(st),
                self.terminator(owner, body, bb.terminator()),
                bb.is_cleanup
            ));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"upvars\":{},\"blocks\":{}",
            body.arg_count,
            locals,
            arr(upvars),
            arr(blocks)
        )
    }

    fn needs_drop(&self, owner: DefId, t: Ty<'tcx>) -> bool {
        t.needs_drop(self.tcx, TypingEnv::post_analysis(self.tcx, owner))
    }

    fn run(&self) -> String {
        let tcx = self.tcx;
        let mut fns = Vec::new();
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let span = tcx.def_span(d);
            let derived = span.from_expansion();
            if !is_fn {
                if self.constant(d) {
                    let own = (self.key(d), tcx.mir_for_ctfe(d));
                    let more = tcx.promoted_mir(d).iter_enumerated().map(|(i, p)| (format!("{}#p{}", self.key(d), i.index()), p));
                    for (key, b) in std::iter::once(own).chain(more) {
                        fns.push(format!(
                            "{{\"key\":{},\"path\":{},\"name\":\"\",\"kind\":\"Promoted\",\"derived\":{},\"parent\":null,\"self_ty\":null,\"impl_trait\":null,\"sig\":null,\"span\":{},{}}}",
                            esc(&key),
                            esc(&self.path(d)),
                            derived,
                            self.span(span),
                            self.body(d, b)
                        ));
                    }
                }
                continue;
            }
            let body = tcx.optimized_mir(d);
            let parent = tcx.opt_parent(d).map(|p| esc(&self.key(p))).unwrap_or("null".into());
            let mut self_ty = "null".to_string();
            let mut impl_trait = "null".to_string();
            if let Some(imp) = tcx.impl_of_assoc(d) {
                self_ty = esc(&self.ty(tcx.type_of(imp).skip_binder()));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    impl_trait = esc(&self.path(tr.skip_binder().def_id));
                }
            }
            let sig = if matches!(kind, DefKind::Closure) {
                "null".to_string()
            } else {
                esc(&with_no_trimmed_paths!(tcx.fn_sig(d).skip_binder().skip_binder().to_string()))
            };
            fns.push(format!(
                "{{\"key\":{},\"path\":{},\"name\":{},\"kind\":{},\"derived\":{},\"parent\":{},\"self_ty\":{},\"impl_trait\":{},\"sig\":{},\"span\":{},{}}}",
                esc(&self.key(d)),
                esc(&self.path(d)),
                esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()),
                esc(&format!("{:?}", kind)),
                derived,
                parent,
                self_ty,
                impl_trait,
                sig,
                self.span(span),
                self.body(d, body)
            ));
            for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                fns.push(format!(
                    "{{\"key\":{},\"path\":{},\"name\":\"\",\"kind\":\"Promoted\",\"derived\":{},\"parent\":{},\"self_ty\":null,\"impl_trait\":null,\"sig\":null,\"span\":{},{}}}",
                    esc(&format!("{}#p{}", self.key(d), i.index())),
                    esc(&self.path(d)),
                    derived,
                    esc(&self.key(d)),
                    self.span(span),
                    self.body(d, p)
                ));
            }
        }
        let mut adts = Vec::new();
        let mut impls = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    let def = tcx.adt_def(d);
                    let vs = arr(def
                        .variants()
                        .iter()
                        .map(|v| {
                            format!(
                                "{{\"name\":{},\"fields\":{}}}",
                                esc(&v.name.to_string()),
                                arr(v
                                    .fields
                                    .iter()
                                    .map(|f| format!(
                                        "[{},{}]",
                                        esc(&f.name.to_string()),
                                        esc(&self.ty(tcx.type_of(f.did).skip_binder()))
                                    ))
                                    .collect())
                            )
                        })
                        .collect());
                    adts.push(format!(
                        "{{\"path\":{},\"enum\":{},\"variants\":{},\"span\":{}}}",
                        esc(&self.path(d)),
                        def.is_enum(),
                        vs,
                        self.span(tcx.def_span(d))
                    ));
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(d).skip_binder();
                    let ms = arr(tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter(|a| matches!(tcx.def_kind(a.def_id), DefKind::AssocFn))
                        .map(|a| {
                            format!(
                                "[{},{}]",
                                esc(&tcx.item_name(a.def_id).to_string()),
                                esc(&self.key(a.def_id))
                            )
                        })
                        .collect());
                    impls.push(format!(
                        "{{\"trait\":{},\"self\":{},\"methods\":{}}}",
                        esc(&self.path(tr.def_id)),
                        esc(&self.ty(tcx.type_of(d).skip_binder())),
                        ms
                    ));
                }
                _ => {}
            }
        }
        format!(
            "{{\"crate\":{},\"fns\":{},\"adts\":{},\"impls\":{}}}",
            esc(&tcx.crate_name(LOCAL_CRATE).to_string()),
            arr(fns),
            arr(adts),
            arr(impls)
        )
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let cx = Cx { tcx };
        let s = cx.run();
        std::fs::write(&self.out, s).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_target = !out.is_empty() && args.iter().any(|a| a == "--crate-name") && !args.iter().any(|a| a == "--print" || a == "-vV");
    if is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Awarnings".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
