//! `mirfacts`: a rustc driver used as RUSTC_WORKSPACE_WRAPPER.  It compiles the crate exactly as
//! cargo asked, and after analysis writes the crate's MIR (resolved calls, named constants,
//! discriminant switches, field projections) as one JSON file into $MIRFACTS_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{
    with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name,
};
use rustc_middle::ty::{self, Ty, TyCtxt};

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(tcx.def_path_str(d))))
}
fn tystr(t: Ty<'_>) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(t.to_string())))
}
fn hash(tcx: TyCtxt<'_>, d: DefId) -> String {
    let h = tcx.def_path_hash(d);
    let (a, b) = h.0.split();
    format!("{:016x}{:016x}", a.as_u64(), b.as_u64())
}

struct Cx<'tcx, 'a> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    tenv: ty::TypingEnv<'tcx>,
    owner: DefId,
}

impl<'tcx, 'a> Cx<'tcx, 'a> {
    fn line(&self, span: rustc_span::Span) -> usize {
        // Attribute macro-expanded code to its outermost call site in the file.
        let sp = span.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }

    fn place(&self, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        for (base, elem) in p.iter_projections() {
            o.push(',');
            let s = match elem {
                ProjectionElem::Deref => "*".to_string(),
                ProjectionElem::Field(f, _) => {
                    let bt = base.ty(self.body, self.tcx);
                    match bt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let v = def.variant(vi);
                            format!(".{}@{}", v.fields[f].name, path(self.tcx, def.did()))
                        }
                        ty::Closure(d, _) => {
                            let names = self.tcx.closure_saved_names_of_captured_variables(*d);
                            let n = names
                                .get(f)
                                .map(|s| s.to_string())
                                .unwrap_or_else(|| f.as_usize().to_string());
                            format!(".{}#{}@closure", f.as_usize(), n)
                        }
                        _ => format!(".{}@tuple", f.as_usize()),
                    }
                }
                ProjectionElem::Index(l) => format!("[_{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[{}{}]", if from_end { "-" } else { "" }, offset)
                }
                ProjectionElem::Subslice { from, to, .. } => format!("[{}..{}]", from, to),
                ProjectionElem::Downcast(n, vi) => {
                    let bt = base.ty(self.body, self.tcx);
                    match (n, bt.ty.kind()) {
                        (Some(n), _) => format!("#{}", n),
                        (None, ty::Adt(def, _)) => format!("#{}", def.variant(vi).name),
                        _ => format!("#{}", vi.as_usize()),
                    }
                }
                _ => "?".to_string(),
            };
            o.push_str(&esc(&s));
        }
        o.push(']');
        o
    }

    fn bytes_of(&self, val: ConstValue, t: Ty<'tcx>) -> Option<Vec<u8>> {
        // &str / &[u8] / &[u8; N]
        let slicy = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str() || matches!(i.kind(), ty::Slice(_)));
        if slicy {
            if !matches!(val, ConstValue::Slice { .. } | ConstValue::Indirect { .. }) {
                return None;
            }
            if let Some(b) = val.try_get_slice_bytes_for_diagnostics(self.tcx) {
                return Some(b.to_vec());
            }
            return None;
        }
        if let ty::Ref(_, inner, _) = t.kind() {
            if let ty::Array(el, n) = inner.kind() {
                if *el == self.tcx.types.u8 {
                    let n = n.try_to_target_usize(self.tcx)?;
                    if let ConstValue::Scalar(Scalar::Ptr(p, _)) = val {
                        let (prov, off) = p.prov_and_relative_offset();
                        if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(prov.alloc_id()) {
                            let s = off.bytes() as usize;
                            return Some(
                                a.inner()
                                    .inspect_with_uninit_and_ptr_outside_interpreter(s..s + n as usize)
                                    .to_vec(),
                            );
                        }
                    }
                }
            }
        }
        None
    }

    fn constval(&self, val: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        if depth > 6 {
            return "{}".into();
        }
        match t.kind() {
            ty::FnDef(d, args) => return self.fnref(*d, args.skip_binder()),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(si) = val.try_to_scalar_int() {
                    let v: i128 = match t.kind() {
                        ty::Int(_) => si.to_int(si.size()),
                        _ => si.to_uint(si.size()) as i128,
                    };
                    return format!("{{\"v\":{}}}", v);
                }
            }
            ty::Float(_) => {
                if let Some(si) = val.try_to_scalar_int() {
                    return format!("{{\"fbits\":{}}}", si.to_uint(si.size()));
                }
            }
            ty::Ref(_, inner, _) => {
                let strish = inner.is_str()
                    || matches!(inner.kind(), ty::Slice(e) if *e == self.tcx.types.u8)
                    || matches!(inner.kind(), ty::Array(e, _) if *e == self.tcx.types.u8);
                if strish {
                    if let Some(b) = self.bytes_of(val, t) {
                        if inner.is_str() {
                            return format!("{{\"s\":{}}}", esc(&String::from_utf8_lossy(&b)));
                        }
                        let hex: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                        return format!("{{\"b\":\"{}\"}}", hex);
                    }
                }
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = val {
                    let (prov, _off) = p.prov_and_relative_offset();
                    if let Some(GlobalAlloc::Static(d)) =
                        self.tcx.try_get_global_alloc(prov.alloc_id())
                    {
                        return format!("{{\"static\":{}}}", esc(&path(self.tcx, d)));
                    }
                }
            }
            ty::RawPtr(..) => {
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = val {
                    let (prov, _off) = p.prov_and_relative_offset();
                    if let Some(GlobalAlloc::Static(d)) =
                        self.tcx.try_get_global_alloc(prov.alloc_id())
                    {
                        return format!("{{\"static\":{}}}", esc(&path(self.tcx, d)));
                    }
                }
            }
            ty::Tuple(_) | ty::Adt(..) | ty::Array(..) => {
                use rustc_middle::ty::TypeVisitableExt;
                if !t.has_param() && !t.has_aliases() {
                    if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(val, t) {
                        let mut o = String::from("{");
                        if let ty::Adt(def, _) = t.kind() {
                            let _ = write!(o, "\"adt\":{},", esc(&path(self.tcx, def.did())));
                            if let Some(v) = d.variant {
                                let _ = write!(o, "\"var\":{},", esc(def.variant(v).name.as_str()));
                            }
                        }
                        o.push_str("\"agg\":[");
                        for (i, (v, ft)) in d.fields.iter().enumerate() {
                            if i > 0 {
                                o.push(',');
                            }
                            o.push_str(&self.constval(*v, *ft, depth + 1));
                        }
                        o.push_str("]}");
                        return o;
                    }
                }
            }
            _ => {}
        }
        "{}".into()
    }

    fn fnref(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::from("{");
        let mut target = d;
        let mut resolved = false;
        let mut virt = false;
        let mut iargs = None;
        let is_fnlike = matches!(
            tcx.def_kind(d),
            DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)
        );
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.tenv, d, args) {
                match inst.def {
                    ty::InstanceKind::Item(x) => {
                        target = x;
                        resolved = true;
                        iargs = Some(inst.args);
                    }
                    ty::InstanceKind::Virtual(x, _) => {
                        target = x;
                        virt = true;
                    }
                    _ => {}
                }
            }
        }
        let _ = write!(
            o,
            "\"fn\":{},\"h\":\"{}\"",
            esc(&path(tcx, target)),
            hash(tcx, target)
        );
        if !is_fnlike {
            o.push_str(",\"kind\":\"other\"");
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            o.push_str(",\"kind\":\"ctor\"");
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(
                o,
                ",\"tr\":{},\"tm\":{},\"th\":\"{}\"",
                esc(&path(tcx, tr)),
                esc(&path(tcx, d)),
                hash(tcx, d)
            );
            if !resolved {
                o.push_str(",\"unres\":1");
                // What else the receiver's type parameter must implement.
                if let Some(sty) = args.types().next() {
                    if matches!(sty.kind(), ty::Param(_)) {
                        let bt: Vec<String> = self
                            .tenv
                            .param_env
                            .caller_bounds()
                            .filter_map(|c| c.as_trait_clause())
                            .filter(|c| c.self_ty().skip_binder() == sty)
                            .map(|c| esc(&path(tcx, c.def_id())))
                            .collect();
                        if !bt.is_empty() {
                            let _ = write!(o, ",\"bt\":[{}]", bt.join(","));
                        }
                    }
                }
            }
        }
        if virt {
            o.push_str(",\"virt\":1");
        }
        // Type arguments; a closure or function item is named by its hash.
        let gstr = |t: ty::Ty<'tcx>| match t.kind() {
            ty::Closure(c, _) => format!("\"closure#{}\"", hash(tcx, *c)),
            ty::FnDef(c, _) => format!("\"fn#{}\"", hash(tcx, *c)),
            _ => esc(&tystr(t)),
        };
        let g: Vec<String> = args.types().map(gstr).collect();
        if !g.is_empty() {
            let _ = write!(o, ",\"g\":[{}]", g.join(","));
        }
        if let Some(ia) = iargs {
            let ig: Vec<String> = ia.types().map(gstr).collect();
            if ig != g {
                let _ = write!(o, ",\"ig\":[{}]", ig.join(","));
            }
        }
        // Closures appearing among the generic arguments are callable from here.
        let cl: Vec<String> = args
            .types()
            .filter_map(|t| match t.kind() {
                ty::Closure(c, _) => Some(format!("\"{}\"", hash(tcx, *c))),
                ty::FnDef(c, _) => Some(format!("\"{}\"", hash(tcx, *c))),
                _ => None,
            })
            .collect();
        if !cl.is_empty() {
            let _ = write!(o, ",\"cl\":[{}]", cl.join(","));
        }
        o.push('}');
        o
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return self.fnref(*d, args.skip_binder());
        }
        let mut o = format!("{{\"ty\":{}", esc(&tystr(t)));
        let mut promoted = false;
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                promoted = true;
                let _ = write!(o, ",\"prom\":{}", p.as_usize());
            } else {
                let _ = write!(o, ",\"u\":{}", esc(&path(self.tcx, u.def)));
            }
        }
        let _ = promoted;
        use rustc_middle::ty::TypeVisitableExt;
        let ok = match c.const_ {
            Const::Unevaluated(u, _) => !u.args.has_param(),
            _ => true,
        };
        if ok && !t.has_param() {
            if let Ok(v) = c.const_.eval(self.tcx, self.tenv, c.span) {
                let s = self.constval(v, t, 0);
                if s != "{}" {
                    o.push(',');
                    o.push_str(&s[1..s.len() - 1]);
                }
            }
        }
        o.push('}');
        o
    }

    fn operand(&self, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(c)),
            #[allow(unreachable_patterns)]
            _ => "{\"k\":{}}".into(),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(op, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(op)),
            Rvalue::Repeat(op, n) => format!(
                "{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}",
                self.operand(op),
                n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1)
            ),
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }) as u8,
                self.place(p)
            ),
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"ref\",\"mut\":1,\"p\":{}}}", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!(
                "{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}",
                m.is_mut() as u8,
                self.place(p)
            ),
            Rvalue::CopyForDeref(p) => {
                format!("{{\"r\":\"use\",\"o\":{{\"c\":{}}}}}", self.place(p))
            }
            Rvalue::Cast(k, op, t) => format!(
                "{{\"r\":\"cast\",\"k\":{},\"o\":{},\"ty\":{}}}",
                esc(&format!("{:?}", k)),
                self.operand(op),
                esc(&tystr(*t))
            ),
            Rvalue::BinaryOp(b, ops) => format!(
                "{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}",
                b,
                self.operand(&ops.0),
                self.operand(&ops.1)
            ),
            Rvalue::UnaryOp(u, op) => {
                format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"o\":{}}}", u, self.operand(op))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(self.body, self.tcx).ty;
                let adt = match t.kind() {
                    ty::Adt(d, _) => {
                        let p = path(self.tcx, d.did());
                        if !d.did().is_local() && d.is_enum() {
                            let mut e = EXT.lock().unwrap();
                            if !e.contains_key(&p) {
                                let v: Vec<String> = d
                                    .variants()
                                    .iter_enumerated()
                                    .map(|(vi, v)| {
                                        format!(
                                            "{{\"n\":{},\"d\":{},\"f\":[]}}",
                                            esc(v.name.as_str()),
                                            d.discriminant_for_variant(self.tcx, vi).val
                                        )
                                    })
                                    .collect();
                                e.insert(p.clone(), v.join(","));
                            }
                        }
                        p
                    }
                    _ => tystr(t),
                };
                format!("{{\"r\":\"discr\",\"p\":{},\"adt\":{}}}", self.place(p), esc(&adt))
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.operand(x)).collect();
                let (kind, extra) = match &**k {
                    AggregateKind::Adt(d, vi, _, _, act) => {
                        let def = self.tcx.adt_def(*d);
                        let v = def.variant(*vi);
                        let f: Vec<String> = match act {
                            Some(i) => vec![esc(v.fields[*i].name.as_str())],
                            None => v.fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        (
                            "adt",
                            format!(
                                ",\"adt\":{},\"var\":{},\"f\":[{}]",
                                esc(&path(self.tcx, *d)),
                                esc(v.name.as_str()),
                                f.join(",")
                            ),
                        )
                    }
                    AggregateKind::Closure(d, _) => (
                        "closure",
                        format!(
                            ",\"fn\":{},\"h\":\"{}\"",
                            esc(&path(self.tcx, *d)),
                            hash(self.tcx, *d)
                        ),
                    ),
                    AggregateKind::Array(_) => ("array", String::new()),
                    AggregateKind::Tuple => ("tuple", String::new()),
                    _ => ("other", String::new()),
                };
                format!("{{\"r\":\"agg\",\"k\":\"{}\"{},\"a\":[{}]}}", kind, extra, o.join(","))
            }
            Rvalue::ThreadLocalRef(d) => {
                format!("{{\"r\":\"tls\",\"u\":{}}}", esc(&path(self.tcx, *d)))
            }
            _ => "{\"r\":\"?\"}".into(),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => format!(",\"uw\":{}", b.as_usize()),
            _ => String::new(),
        }
    }

    fn body_json(&self) -> String {
        let b = self.body;
        let mut o = String::new();
        o.push_str("\"locals\":[");
        let mut names: Vec<Option<String>> = vec![None; b.local_decls.len()];
        let mut upnames: Vec<(String, String)> = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()].get_or_insert(v.name.to_string());
                } else {
                    upnames.push((v.name.to_string(), self.place(p)));
                }
            }
        }
        for (i, l) in b.local_decls.iter_enumerated() {
            if i.as_usize() > 0 {
                o.push(',');
            }
            let _ = write!(o, "[{}", esc(&tystr(l.ty)));
            if let Some(n) = &names[i.as_usize()] {
                let _ = write!(o, ",{}", esc(n));
            }
            o.push(']');
        }
        let _ = write!(o, "],\"argc\":{},\"blocks\":[", b.arg_count);
        for (i, bb) in b.basic_blocks.iter_enumerated() {
            if i.as_usize() > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for st in bb.statements.iter() {
                let s = match &st.kind {
                    StatementKind::Assign(x) => format!(
                        "[{},{},{}]",
                        self.place(&x.0),
                        self.rvalue(&x.1),
                        self.line(st.source_info.span)
                    ),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(b, self.tcx).ty;
                        let vn = match t.kind() {
                            ty::Adt(d, _) => d.variant(*variant_index).name.to_string(),
                            _ => variant_index.as_usize().to_string(),
                        };
                        format!(
                            "[{},{{\"r\":\"setdiscr\",\"var\":{}}},{}]",
                            self.place(place),
                            esc(&vn),
                            self.line(st.source_info.span)
                        )
                    }
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&s);
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[{},{}]", v, t.as_usize()))
                        .collect();
                    format!(
                        "{{\"k\":\"switch\",\"o\":{},\"v\":[{}],\"d\":{},\"ty\":{},\"ln\":{}}}",
                        self.operand(discr),
                        v.join(","),
                        targets.otherwise().as_usize(),
                        esc(&tystr(discr.ty(b, self.tcx))),
                        ln
                    )
                }
                TerminatorKind::Return => "{\"k\":\"ret\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreach\"}".into(),
                TerminatorKind::UnwindResume => "{\"k\":\"resume\"}".into(),
                TerminatorKind::UnwindTerminate(_) => "{\"k\":\"abort\"}".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => format!(
                    "{{\"k\":\"drop\",\"p\":{},\"ty\":{},\"t\":{}{}}}",
                    self.place(place),
                    esc(&tystr(place.ty(b, self.tcx).ty)),
                    target.as_usize(),
                    self.unwind(unwind)
                ),
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    format!(
                        "{{\"k\":\"call\",\"f\":{},\"a\":[{}],\"d\":{},\"t\":{},\"ln\":{}{}}}",
                        self.operand(func),
                        a.join(","),
                        self.place(destination),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        ln,
                        self.unwind(unwind)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = format!("{:?}", msg);
                    format!(
                        "{{\"k\":\"assert\",\"o\":{},\"e\":{},\"msg\":{},\"t\":{}{}}}",
                        self.operand(cond),
                        *expected as u8,
                        esc(&m),
                        target.as_usize(),
                        self.unwind(unwind)
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize())
                }
                _ => "{\"k\":\"?\"}".into(),
            };
            o.push_str(&ts);
            if bb.is_cleanup {
                o.push_str(",\"cl\":1");
            }
            o.push('}');
        }
        o.push(']');
        if !upnames.is_empty() {
            o.push_str(",\"up\":[");
            for (i, (n, p)) in upnames.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                let _ = write!(o, "[{},{}]", esc(n), p);
            }
            o.push(']');
        }
        let _ = self.owner;
        o
    }
}

/// Enums of other crates whose discriminant is read here.
static EXT: std::sync::Mutex<std::collections::BTreeMap<String, String>> =
    std::sync::Mutex::new(std::collections::BTreeMap::new());

struct Cb;

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }

    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let out = match std::env::var("MIRFACTS_OUT") {
            Ok(x) => x,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut o = format!("{{\"crate\":{},\n\"adts\":{{", esc(&krate));
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let def = tcx.adt_def(d);
                if !first {
                    o.push(',');
                }
                first = false;
                let _ = write!(
                    o,
                    "\n{}:{{\"kind\":\"{:?}\",\"vis\":{},\"vars\":[",
                    esc(&path(tcx, d)),
                    def.adt_kind(),
                    esc(&format!("{:?}", tcx.visibility(d)))
                );
                for (i, (vi, v)) in def.variants().iter_enumerated().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let discr = if def.is_enum() {
                        def.discriminant_for_variant(tcx, vi).val
                    } else {
                        0
                    };
                    let f: Vec<String> = v
                        .fields
                        .iter()
                        .map(|f| {
                            format!(
                                "[{},{},{}]",
                                esc(f.name.as_str()),
                                esc(&tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                                esc(&format!("{:?}", tcx.visibility(f.did)))
                            )
                        })
                        .collect();
                    let _ = write!(
                        o,
                        "{{\"n\":{},\"d\":{},\"f\":[{}]}}",
                        esc(v.name.as_str()),
                        discr,
                        f.join(",")
                    );
                }
                o.push_str("]}");
            }
        }
        o.push_str("},\n\"impls\":[");
        first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
                if of_trait {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let _ = write!(
                        o,
                        "\n[{},{},{}]",
                        esc(&path(tcx, tr.def_id)),
                        esc(&tystr(tr.self_ty())),
                        esc(&with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(tr.to_string()))))
                    );
                }
            }
        }
        o.push_str("],\n\"fns\":[");
        first = true;
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let body: &Body<'_> = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if !tcx.is_mir_available(d) {
                        continue;
                    }
                    tcx.optimized_mir(d)
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    tcx.mir_for_ctfe(d)
                }
                _ => continue,
            };
            let tenv = ty::TypingEnv::post_analysis(tcx, d);
            let cx = Cx { tcx, body, tenv, owner: d };
            if !first {
                o.push(',');
            }
            first = false;
            let sp = tcx.def_span(d);
            let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
            let fname = format!("{}", loc.file.name.prefer_local_unconditionally());
            let _ = write!(
                o,
                "\n{{\"p\":{},\"h\":\"{}\",\"kind\":{},\"file\":{},\"ln\":{}",
                esc(&path(tcx, d)),
                hash(tcx, d),
                esc(match kind {
                    DefKind::Closure => "closure",
                    DefKind::Fn => "fn",
                    DefKind::AssocFn => "method",
                    DefKind::Static { .. } => "static",
                    _ => "const",
                }),
                esc(&fname),
                loc.line
            );
            if kind == DefKind::Closure {
                let parent = tcx.parent(d);
                let _ = write!(o, ",\"parent\":\"{}\"", hash(tcx, parent));
            } else if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let _ = write!(o, ",\"vis\":{}", esc(&format!("{:?}", tcx.visibility(d))));
            }
            if kind == DefKind::AssocFn {
                if let Some(t) = tcx.trait_item_of(d) {
                    let _ = write!(
                        o,
                        ",\"impl_of\":{},\"impl_h\":\"{}\"",
                        esc(&path(tcx, t)),
                        hash(tcx, t)
                    );
                }
                if let Some(imp) = tcx.impl_of_assoc(d) {
                    let _ = write!(
                        o,
                        ",\"self\":{}",
                        esc(&tystr(tcx.type_of(imp).instantiate_identity().skip_norm_wip()))
                    );
                }
                if tcx.trait_of_assoc(d).is_some() {
                    o.push_str(",\"trdef\":1");
                }
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let gp: Vec<String> = ty::GenericArgs::identity_for_item(tcx, d)
                    .types()
                    .map(|t| esc(&tystr(t)))
                    .collect();
                if !gp.is_empty() {
                    let _ = write!(o, ",\"gp\":[{}]", gp.join(","));
                }
            }
            o.push(',');
            o.push_str(&cx.body_json());
            {
                let pm = tcx.promoted_mir(d);
                if !pm.is_empty() {
                    o.push_str(",\"proms\":[");
                    for (i, pb) in pm.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        let pcx = Cx { tcx, body: pb, tenv, owner: d };
                        o.push('{');
                        o.push_str(&pcx.body_json());
                        o.push('}');
                    }
                    o.push(']');
                }
            }
            o.push('}');
        }
        o.push_str("],\n\"ext\":{");
        for (i, (p, v)) in EXT.lock().unwrap().iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "\n{}:[{}]", esc(p), v);
        }
        o.push_str("}}\n");
        let kind = if tcx.sess.opts.test { "test" } else { "lib" };
        let ct = format!("{:?}", tcx.crate_types().first());
        let ct: String = ct.chars().filter(|c| c.is_alphanumeric()).collect();
        let f = format!("{}/{}.{}.{}.json", out, krate, ct, kind);
        let tmp = format!("{}.tmp{}", f, std::process::id());
        std::fs::write(&tmp, o).expect("write facts");
        std::fs::rename(&tmp, &f).expect("rename facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if args.iter().any(|a| a == "-vV" || a == "--version") || args.iter().any(|a| a == "___") {
        // let rustc answer version queries
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
