//! Compiler driver that dumps the freshly built MIR of a crate as JSON facts.
//! Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc, which we replace.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_data_structures::steal::Steal;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{
    self, AggregateKind, BasicBlock, Body, Operand, Place, ProjectionElem, Rvalue, StatementKind,
    TerminatorKind, VarDebugInfoContents,
};
use rustc_middle::ty::print::{
    with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name,
};
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::OnceLock;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn i(x: usize) -> J {
    J::I(x as i128)
}

impl J {
    fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(n) => {
                let _ = write!(out, "{n}");
            }
            J::S(t) => {
                out.push('"');
                for c in t.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\r' => out.push_str("\\r"),
                        '\t' => out.push_str("\\t"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(out, "\\u{:04x}", c as u32);
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(v) => {
                out.push('[');
                for (n, x) in v.iter().enumerate() {
                    if n > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                let mut first = true;
                for (k, x) in v.iter() {
                    if let J::Null = x {
                        continue;
                    }
                    if !first {
                        out.push(',');
                    }
                    first = false;
                    let _ = write!(out, "\"{k}\":");
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_list: Vec<J>,
    env: ty::TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(self.tcx.def_path_str(d))))
    }
    fn hash(&self, d: DefId) -> String {
        let h = self.tcx.def_path_hash(d);
        let (a, b) = h.0.split();
        format!("{:016x}{:016x}", a.as_u64(), b.as_u64())
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(n) = self.types.get(&t) {
            return i(*n);
        }
        let n = self.type_list.len();
        self.types.insert(t, n);
        self.type_list.push(J::Null);
        let text = with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(format!("{t}"))));
        let mut o = vec![("s", s(text))];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("d", s(self.path(def.did()))));
                o.push(("h", s(self.hash(def.did()))));
                let a = args.types().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("m", J::B(m.is_mut())));
                let a = self.ty(*inner);
                o.push(("a", J::A(vec![a])));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", s("ptr")));
                o.push(("m", J::B(m.is_mut())));
                let a = self.ty(*inner);
                o.push(("a", J::A(vec![a])));
            }
            ty::Slice(inner) | ty::Array(inner, _) => {
                o.push(("k", s("slice")));
                let a = self.ty(*inner);
                o.push(("a", J::A(vec![a])));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("h", s(self.hash(*d))));
                o.push(("d", s(self.path(*d))));
                let a = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| self.ty(x))
                    .collect();
                o.push(("a", J::A(a)));
            }
            ty::Coroutine(d, args) => {
                o.push(("k", s("coroutine")));
                o.push(("h", s(self.hash(*d))));
                o.push(("d", s(self.path(*d))));
                let a = args
                    .as_coroutine()
                    .upvar_tys()
                    .iter()
                    .map(|x| self.ty(x))
                    .collect();
                o.push(("a", J::A(a)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let c = self.callee(*d, args.no_bound_vars().expect("bound vars in fn def"));
                o.push(("f", c));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Bool => o.push(("k", s("bool"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", s("int"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::Never => o.push(("k", s("never"))),
            _ => o.push(("k", s("other"))),
        }
        self.type_list[n] = J::O(o);
        i(n)
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("h", s(self.hash(d))),
            ("p", s(self.path(d))),
            ("n", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
            ("c", s(tcx.crate_name(d.krate).to_string())),
        ];
        let kind = tcx.def_kind(d);
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("tr", s(self.path(tr))));
        }
        if kind == DefKind::AssocFn && tcx.trait_of_assoc(d).is_none() {
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
                let st = self.ty(st);
                o.push(("st", st));
            }
        }
        if matches!(kind, DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
        }
        let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("a", J::A(a)));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, d, eargs) {
                let rd = inst.def_id();
                let k = format!("{:?}", inst.def);
                let k = k.split('(').next().unwrap_or("").to_string();
                if rd != d || k != "Item" {
                    let mut ro = vec![
                        ("h", s(self.hash(rd))),
                        ("p", s(self.path(rd))),
                        ("k", s(k)),
                    ];
                    if let Some(im) = tcx.impl_of_assoc(rd) {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        ro.push((
                            "st",
                            s(with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(format!("{st}"))))),
                        ));
                    }
                    o.push(("r", J::O(ro)));
                }
            }
        }
        J::O(o)
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let root = sp.source_callsite();
        let lo = sm.lookup_char_pos(root.lo());
        let f = match lo.file.name.clone().into_local_path() {
            Some(p) => p.display().to_string(),
            None => format!("{:?}", lo.file.name),
        };
        let mut v = vec![s(f), i(lo.line), i(lo.col.0 + 1)];
        if sp.from_expansion() {
            // Outermost macro.
            let mut e = sp;
            let mut names = vec![];
            while e.from_expansion() {
                let data = e.ctxt().outer_expn_data();
                names.push(data.kind.descr().to_string());
                e = data.call_site;
            }
            v.push(s(names.last().cloned().unwrap_or_default()));
        }
        J::A(v)
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut proj = vec![];
        let tcx = self.tcx;
        for (base, elem) in p.iter_projections() {
            let bt = base.ty(&body.local_decls, tcx);
            match elem {
                ProjectionElem::Deref => proj.push(s("*")),
                ProjectionElem::Field(f, _) => {
                    let name = match bt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match bt.variant_index {
                                Some(v) => def.variant(v),
                                None if def.is_enum() => {
                                    proj.push(J::A(vec![s("f"), i(f.as_usize())]));
                                    continue;
                                }
                                None => def.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    proj.push(J::A(vec![s("f"), s(name)]));
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match bt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    proj.push(J::A(vec![s("v"), s(name)]));
                }
                ProjectionElem::Index(l) => proj.push(J::A(vec![s("i"), i(l.as_usize())])),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => proj.push(J::A(vec![
                    s("c"),
                    J::I(offset as i128),
                    J::B(from_end),
                ])),
                ProjectionElem::Subslice { from, to, from_end } => proj.push(J::A(vec![
                    s("sub"),
                    J::I(from as i128),
                    J::I(to as i128),
                    J::B(from_end),
                ])),
                _ => {}
            }
        }
        if proj.is_empty() {
            i(p.local.as_usize())
        } else {
            J::A(vec![i(p.local.as_usize()), J::A(proj)])
        }
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.callee(*d, args.no_bound_vars().expect("bound vars in fn def"));
            return J::O(vec![("fn", f)]);
        }
        let mut o = vec![("t", self.ty(t))];
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            o.push(("item", s(self.path(u.def))));
        }
        let val = c.const_.eval(tcx, self.env, c.span);
        if let Ok(v) = val {
            if let Some(sc) = v.try_to_scalar_int() {
                if t.is_bool() {
                    o.push(("v", J::B(sc.to_bits_unchecked() != 0)));
                } else if t.is_signed() {
                    let n = sc.to_int(sc.size());
                    o.push(("v", J::I(n)));
                } else {
                    o.push(("v", J::I(sc.to_bits_unchecked() as i128)));
                }
            } else if let Some(bytes) = self.bytes_of(v, t) {
                match std::str::from_utf8(&bytes) {
                    Ok(x) => o.push(("str", s(x))),
                    Err(_) => o.push((
                        "bytes",
                        J::A(bytes.iter().map(|b| J::I(*b as i128)).collect()),
                    )),
                }
            } else if let mir::ConstValue::ZeroSized = v {
                o.push(("z", J::B(true)));
            } else {
                // References to statics and the like.
                if let Some(mir::interpret::Scalar::Ptr(p, _)) = v.try_to_scalar() {
                    let id = p.provenance.alloc_id();
                    if let mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(id) {
                        o.push(("static", s(self.path(d))));
                        if let Some(bytes) = self.static_bytes(d) {
                            o.push((
                                "bytes",
                                J::A(bytes.iter().map(|b| J::I(*b as i128)).collect()),
                            ));
                        }
                    }
                }
                let txt = with_no_trimmed_paths!(format!("{}", c.const_));
                o.push(("x", s(txt.chars().take(200).collect::<String>())));
            }
        } else {
            o.push(("x", s("?")));
        }
        J::O(o)
    }

    /// The content of a static that holds bytes or refers to them.
    fn static_bytes(&self, d: DefId) -> Option<Vec<u8>> {
        let tcx = self.tcx;
        if tcx.is_mutable_static(d) || tcx.is_foreign_item(d) {
            return None;
        }
        let a = tcx.eval_static_initializer(d).ok()?;
        let a = a.inner();
        let all = |a: &mir::interpret::Allocation| {
            a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len()).to_vec()
        };
        match tcx.type_of(d).instantiate_identity().skip_norm_wip().kind() {
            ty::Array(e, _) if *e == tcx.types.u8 => Some(all(a)),
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Array(e, _) | ty::Slice(e) if *e == tcx.types.u8 => {
                    let (_, prov) = a.provenance().ptrs().iter().next()?;
                    match tcx.global_alloc(prov.alloc_id()) {
                        mir::interpret::GlobalAlloc::Memory(m) => Some(all(m.inner())),
                        _ => None,
                    }
                }
                _ => None,
            },
            _ => None,
        }
    }

    fn bytes_of(&self, v: mir::ConstValue, t: Ty<'tcx>) -> Option<Vec<u8>> {
        let tcx = self.tcx;
        if let (ty::Array(e, n), mir::ConstValue::Indirect { alloc_id, offset }) = (t.kind(), v) {
            if *e == tcx.types.u8 {
                let n = n.try_to_target_usize(tcx)? as usize;
                if let mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                    let st = offset.bytes() as usize;
                    return Some(
                        m.inner()
                            .inspect_with_uninit_and_ptr_outside_interpreter(st..st + n)
                            .to_vec(),
                    );
                }
            }
        }
        if let ty::Ref(_, inner, _) = t.kind() {
            match inner.kind() {
                ty::Str => return v.try_get_slice_bytes_for_diagnostics(tcx).map(|b| b.to_vec()),
                ty::Slice(e) if *e == tcx.types.u8 => {
                    return v.try_get_slice_bytes_for_diagnostics(tcx).map(|b| b.to_vec())
                }
                ty::Array(e, n) if *e == tcx.types.u8 => {
                    let n = n.try_to_target_usize(tcx)?;
                    if let Some(mir::interpret::Scalar::Ptr(p, _)) = v.try_to_scalar() {
                        let (prov, off) = p.prov_and_relative_offset();
                        if let mir::interpret::GlobalAlloc::Memory(m) =
                            tcx.global_alloc(prov.alloc_id())
                        {
                            let a = m.inner();
                            let st = off.bytes() as usize;
                            return Some(
                                a.inspect_with_uninit_and_ptr_outside_interpreter(
                                    st..st + n as usize,
                                )
                                .to_vec(),
                            );
                        }
                    }
                }
                _ => {}
            }
        }
        None
    }

    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(body, *p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(body, *p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(c)]),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("k"), J::O(vec![("x", s("runtime check"))])]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(op, ..) => J::A(vec![s("use"), self.operand(body, op)]),
            Rvalue::Repeat(op, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null);
                J::A(vec![s("repeat"), self.operand(body, op), n])
            }
            Rvalue::Ref(_, k, p) => {
                let kind = match k {
                    mir::BorrowKind::Shared => "&",
                    mir::BorrowKind::Fake(_) => "&fake",
                    mir::BorrowKind::Mut { .. } => "&mut",
                };
                J::A(vec![s("ref"), s(kind), self.place(body, *p)])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), s("&raw"), self.place(body, *p)]),
            Rvalue::Cast(k, op, t) => {
                let o = self.operand(body, op);
                let t = self.ty(*t);
                let k = format!("{k:?}");
                J::A(vec![s("cast"), s(k), o, t])
            }
            Rvalue::BinaryOp(b, ops) => {
                let a = self.operand(body, &ops.0);
                let c = self.operand(body, &ops.1);
                J::A(vec![s("bin"), s(format!("{b:?}")), a, c])
            }
            Rvalue::UnaryOp(u, op) => {
                let a = self.operand(body, op);
                J::A(vec![s("un"), s(format!("{u:?}")), a])
            }
            Rvalue::Discriminant(p) => {
                // Map discriminant values to variant names.
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let mut m = vec![];
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_enum() {
                        for (v, d) in def.discriminants(self.tcx) {
                            m.push(J::A(vec![
                                J::I(d.val as i128),
                                s(def.variant(v).name.to_string()),
                            ]));
                        }
                    }
                }
                J::A(vec![s("disc"), self.place(body, *p), J::A(m)])
            }
            Rvalue::Aggregate(k, ops) => {
                let vals: Vec<J> = ops.iter().map(|o| self.operand(body, o)).collect();
                match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("agg"), s("array"), J::A(vals)]),
                    AggregateKind::Tuple => J::A(vec![s("agg"), s("tuple"), J::A(vals)]),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let names: Vec<J> = match active {
                            Some(f) => vec![s(var.fields[*f].name.to_string())],
                            None => var.fields.iter().map(|f| s(f.name.to_string())).collect(),
                        };
                        let vn = if def.is_enum() { s(var.name.to_string()) } else { J::Null };
                        J::A(vec![
                            s("agg"),
                            s("adt"),
                            J::A(vals),
                            s(self.path(*d)),
                            vn,
                            J::A(names),
                        ])
                    }
                    AggregateKind::Closure(d, _) => {
                        J::A(vec![s("agg"), s("closure"), J::A(vals), s(self.hash(*d)), s(self.path(*d))])
                    }
                    AggregateKind::Coroutine(d, _) => {
                        J::A(vec![s("agg"), s("coroutine"), J::A(vals), s(self.hash(*d)), s(self.path(*d))])
                    }
                    _ => J::A(vec![s("agg"), s("other"), J::A(vals)]),
                }
            }
            Rvalue::CopyForDeref(p) => {
                let pl = self.place(body, *p);
                J::A(vec![s("use"), J::A(vec![s("c"), pl])])
            }
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("other")]),
        }
    }

    fn body(&mut self, def: LocalDefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let d = def.to_def_id();
        self.env = ty::TypingEnv::post_analysis(tcx, d);
        let mut o = vec![
            ("h", s(self.hash(d))),
            ("p", s(self.path(d))),
            ("kind", s(format!("{:?}", tcx.def_kind(d)))),
            ("n", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
            ("c", s(tcx.crate_name(d.krate).to_string())),
            ("span", self.span(tcx.def_span(d))),
            ("argc", i(body.arg_count)),
        ];
        if tcx.is_typeck_child(d) {
            o.push(("parent", s(self.hash(tcx.parent(d)))));
            let up: Vec<J> = tcx
                .closure_captures(def)
                .iter()
                .map(|c| s(c.to_string(tcx)))
                .collect();
            o.push(("upvars", J::A(up)));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            o.push(("self_ty", st));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", s(self.path(tr.def_id))));
            }
        }
        if let Some(k) = tcx.coroutine_kind(d) {
            o.push(("coroutine", s(format!("{k:?}"))));
        }
        let derived = tcx.is_automatically_derived(tcx.typeck_root_def_id(d))
            || tcx.impl_of_assoc(tcx.typeck_root_def_id(d)).is_some_and(|x| tcx.is_automatically_derived(x));
        if derived {
            o.push(("derived", J::B(true)));
        }
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        o.push(("locals", J::A(locals)));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pl = self.place(body, p);
                names.push(J::A(vec![s(v.name.to_string()), pl]));
            }
        }
        o.push(("vars", J::A(names)));
        let bb = |b: BasicBlock| i(b.as_usize());
        let mut blocks = vec![];
        for (_, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for stmt in &data.statements {
                match &stmt.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, b.0);
                        let r = self.rvalue(body, &b.1);
                        let sp = self.span(stmt.source_info.span);
                        st.push(J::A(vec![p, r, sp]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), i(l.as_usize())]));
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(J::A(vec![s("live"), i(l.as_usize())]));
                    }
                    StatementKind::SetDiscriminant { .. } => st.push(J::A(vec![s("setdisc")])),
                    _ => {}
                }
            }
            let term = data.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bb(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(body, discr);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::I(v as i128), bb(b)]))
                        .collect();
                    J::A(vec![
                        s("switch"),
                        d,
                        J::A(v),
                        bb(targets.otherwise()),
                        J::B(dt.is_bool()),
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::A(vec![s("resume")])
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(body, *place);
                    J::A(vec![s("drop"), p, bb(*target)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, func);
                    let ft = func.ty(&body.local_decls, tcx);
                    let ft = self.ty(ft);
                    let a: Vec<J> = args.iter().map(|x| self.operand(body, &x.node)).collect();
                    let dst = self.place(body, *destination);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        dst,
                        target.map(bb).unwrap_or(J::Null),
                        ft,
                    ])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.operand(body, cond);
                    let m = format!("{msg:?}");
                    J::A(vec![s("assert"), c, J::B(*expected), bb(*target), s(m)])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let v = self.operand(body, value);
                    let ra = self.place(body, *resume_arg);
                    J::A(vec![s("yield"), v, bb(*resume), ra])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), bb(*real_target)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), bb(*real_target)])
                }
                _ => J::A(vec![s("other")]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", t), ("sp", sp), (
                "cl",
                if data.is_cleanup { J::B(true) } else { J::Null },
            )]));
        }
        o.push(("blocks", J::A(blocks)));
        J::O(o)
    }
}

type Build = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>;

static BUILD: OnceLock<Build> = OnceLock::new();

thread_local! {
    // Bodies as they were built. Looking at one may take away another, e.g. when a future is spawned.
    static BUILT: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}

fn mir_built<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    let steal = BUILD.get().unwrap()(tcx, def);
    let body: Body<'tcx> = steal.borrow().clone();
    // They are used and removed before the type context goes away.
    let body: Body<'static> = unsafe { std::mem::transmute(body) };
    BUILT.with(|b| b.borrow_mut().insert(def, body));
    steal
}

struct Dump {
    out: String,
}

impl Callbacks for Dump {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_, providers| {
            let _ = BUILD.set(providers.queries.mir_built);
            providers.queries.mir_built = mir_built;
        });
    }

    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let crate_name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut bodies: Vec<(LocalDefId, Body<'tcx>)> = vec![];
        let mut missed = vec![];
        for def in tcx.hir_body_owners() {
            let steal = tcx.mir_built(def);
            match BUILT.with(|b| b.borrow_mut().remove(&def)) {
                Some(body) => bodies.push((def, unsafe {
                    std::mem::transmute::<Body<'static>, Body<'tcx>>(body)
                })),
                None if !steal.is_stolen() => bodies.push((def, steal.borrow().clone())),
                None => missed.push(s(tcx.def_path_str(def.to_def_id()))),
            }
        }
        BUILT.with(|b| b.borrow_mut().clear());
        let mut cx = Cx {
            tcx,
            types: HashMap::new(),
            type_list: vec![],
            env: ty::TypingEnv::fully_monomorphized(),
        };
        let mut out_bodies = vec![];
        for (def, body) in &bodies {
            if body.tainted_by_errors.is_some() {
                continue;
            }
            out_bodies.push(cx.body(*def, body));
        }
        // Local type definitions.
        let mut adts = vec![];
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let def = tcx.adt_def(d);
                let mut vs = vec![];
                for v in def.variants() {
                    let fs: Vec<J> = v
                        .fields
                        .iter()
                        .map(|f| {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let t = cx.ty(t);
                            J::A(vec![s(f.name.to_string()), t, J::B(f.vis.is_public())])
                        })
                        .collect();
                    vs.push(J::A(vec![s(v.name.to_string()), J::A(fs)]));
                }
                adts.push(J::O(vec![
                    ("p", s(cx.path(d))),
                    ("h", s(cx.hash(d))),
                    ("enum", J::B(def.is_enum())),
                    ("variants", J::A(vs)),
                    ("span", cx.span(tcx.def_span(d))),
                ]));
            }
        }
        let is_bin = tcx.entry_fn(()).is_some();
        let doc = J::O(vec![
            ("crate", s(crate_name.clone())),
            ("bin", J::B(is_bin)),
            ("missed", J::A(missed)),
            ("types", J::A(cx.type_list.clone())),
            ("adts", J::A(adts)),
            ("bodies", J::A(out_bodies)),
        ]);
        let mut text = String::new();
        doc.write(&mut text);
        let file = format!("{}/{}-{}.json", self.out, crate_name, if is_bin { "bin" } else { "lib" });
        std::fs::write(&file, text).expect("cannot write facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo calls `wrapper rustc args...`.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("VFA_OUT").ok();
    let name = args.iter().position(|a| a == "--crate-name").map(|p| args[p + 1].clone());
    let probe = args.iter().any(|a| a == "-" || a == "-vV" || a.starts_with("--print"));
    rustc_driver::catch_with_exit_code(|| match (out, name) {
        (Some(out), Some(name)) if !probe && name != "build_script_build" => {
            rustc_driver::compiler_entrypoint(&args, &mut Dump { out });
        }
        _ => {
            struct Plain;
            impl Callbacks for Plain {}
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    })
}
