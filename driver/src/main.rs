//! rustc driver: type-checks a crate of the workspace exactly as cargo asked, then writes the
//! type-resolved MIR of every body (functions, closures, constants, promoteds) and the item
//! facts (ADTs, fields, visibility, impls, statics, unsafety) as one JSON file per crate.
//! It decides nothing: the analyses in /verif/sa read these facts.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::fmt::Write as _;

mod json;
use json::J;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Ok(dir) = std::env::var("GCFACTS_DIR") {
            let name = tcx.crate_name(LOCAL_CRATE).to_string();
            let is_bin = tcx.entry_fn(()).is_some();
            let j = dump_crate(tcx, &name, is_bin);
            let mut s = String::new();
            j.write(&mut s);
            let tmp = format!("{}/.{}.tmp{}", dir, name, std::process::id());
            std::fs::write(&tmp, s).expect("write facts");
            std::fs::rename(&tmp, format!("{}/{}{}.json", dir, if is_bin { "bin-" } else { "" }, name)).expect("rename facts");
        }
        Compilation::Continue
    }
}

fn did(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

fn pstr(tcx: TyCtxt<'_>, d: DefId) -> String {
    let s = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d));
    if d.is_local() {
        if s.starts_with('<') { s } else { format!("{}::{}", tcx.crate_name(LOCAL_CRATE), s) }
    } else {
        s
    }
}

fn span_s(tcx: TyCtxt<'_>, sp: Span) -> String {
    let sp = sp.source_callsite();
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(sp.lo());
    format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
}

fn ty_j<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> J {
    let mut v: Vec<(&str, J)> = vec![];
    match t.kind() {
        ty::Adt(def, args) => {
            v.push(("k", J::s("adt")));
            v.push(("p", J::S(pstr(tcx, def.did()))));
            v.push(("d", J::S(did(tcx, def.did()))));
            let a: Vec<J> = args.iter().filter_map(|g| g.as_type()).map(|x| ty_j(tcx, x)).collect();
            if !a.is_empty() { v.push(("a", J::A(a))); }
        }
        ty::Ref(_, inner, m) => {
            v.push(("k", J::s("ref")));
            v.push(("m", J::B(m.is_mut())));
            v.push(("t", ty_j(tcx, *inner)));
        }
        ty::RawPtr(inner, m) => {
            v.push(("k", J::s("ptr")));
            v.push(("m", J::B(m.is_mut())));
            v.push(("t", ty_j(tcx, *inner)));
        }
        ty::Closure(d, _) => {
            v.push(("k", J::s("closure")));
            v.push(("d", J::S(did(tcx, *d))));
        }
        ty::FnDef(d, args) => {
            v.push(("k", J::s("fndef")));
            v.push(("p", J::S(pstr(tcx, *d))));
            v.push(("d", J::S(did(tcx, *d))));
            let a: Vec<J> = args.skip_binder().iter().filter_map(|g| g.as_type()).map(|x| ty_j(tcx, x)).collect();
            if !a.is_empty() { v.push(("a", J::A(a))); }
        }
        ty::Tuple(ts) => {
            v.push(("k", J::s("tuple")));
            v.push(("a", J::A(ts.iter().map(|x| ty_j(tcx, x)).collect())));
        }
        ty::Slice(x) => {
            v.push(("k", J::s("slice")));
            v.push(("t", ty_j(tcx, *x)));
        }
        ty::Array(x, _) => {
            v.push(("k", J::s("array")));
            v.push(("t", ty_j(tcx, *x)));
        }
        ty::Param(p) => {
            v.push(("k", J::s("param")));
            v.push(("s", J::S(p.name.to_string())));
        }
        _ => {
            v.push(("k", J::s(if t.is_primitive() || t.is_str() || t.is_never() { "prim" } else { "other" })));
            v.push(("s", J::S(rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string()))));
        }
    }
    J::O(v)
}

struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    env: ty::TypingEnv<'tcx>,
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn place(&self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        let mut pty = rustc_middle::mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _) => {
                    // field name when it is a struct / variant / closure
                    let mut name = format!("{}", f.as_usize());
                    let mut owner = String::new();
                    if let ty::Adt(def, _) = pty.ty.kind() {
                        owner = pstr(self.tcx, def.did());
                        let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if !def.is_union() && vi.as_usize() < def.variants().len() {
                            let var = def.variant(vi);
                            if f.as_usize() < var.fields.len() {
                                name = var.fields[f].name.to_string();
                            }
                        }
                    }
                    J::A(vec![J::s("f"), J::I(f.as_usize() as i128), J::S(name), J::S(owner)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("ci"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, vi) => {
                    let nm = match n {
                        Some(s) => s.to_string(),
                        None => match pty.ty.kind() {
                            ty::Adt(def, _) if vi.as_usize() < def.variants().len() => def.variant(vi).name.to_string(),
                            _ => format!("{}", vi.as_usize()),
                        },
                    };
                    J::A(vec![J::s("d"), J::S(nm)])
                }
                _ => J::s("?"),
            };
            pr.push(j);
            pty = pty.projection_ty(self.tcx, e);
        }
        if pr.is_empty() { J::I(p.local.as_usize() as i128) } else { J::A(vec![J::I(p.local.as_usize() as i128), J::A(pr)]) }
    }

    fn bytes_of_alloc(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: Option<u64>) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                let total = a.len() as u64;
                let l = len.unwrap_or(total.checked_sub(off)?);
                if off + l > total { return None; }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + l) as usize).to_vec())
            }
            _ => None,
        }
    }

    fn const_val(&self, v: ConstValue, t: Ty<'tcx>) -> J {
        match v {
            ConstValue::ZeroSized => J::O(vec![("k", J::s("zst")), ("t", ty_j(self.tcx, t))]),
            ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                let bits = i.to_bits_unchecked();
                match t.kind() {
                    ty::Bool => J::O(vec![("k", J::s("bool")), ("v", J::B(bits != 0))]),
                    ty::Int(_) => {
                        let size = i.size();
                        J::O(vec![("k", J::s("int")), ("v", J::I(size.sign_extend(bits))), ("t", ty_j(self.tcx, t))])
                    }
                    ty::Uint(_) => J::O(vec![("k", J::s("int")), ("v", J::S(bits.to_string())), ("t", ty_j(self.tcx, t))]),
                    ty::Char => J::O(vec![("k", J::s("char")), ("v", J::S(char::from_u32(bits as u32).unwrap_or('?').to_string()))]),
                    _ => J::O(vec![("k", J::s("bits")), ("v", J::S(bits.to_string())), ("t", ty_j(self.tcx, t))]),
                }
            }
            ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let id = prov.alloc_id();
                match self.tcx.try_get_global_alloc(id) {
                    Some(GlobalAlloc::Static(d)) => J::O(vec![("k", J::s("static")), ("p", J::S(pstr(self.tcx, d))), ("d", J::S(did(self.tcx, d)))]),
                    Some(GlobalAlloc::Function { instance, .. }) => J::O(vec![("k", J::s("fnptr")), ("d", J::S(did(self.tcx, instance.def_id())))]),
                    _ => {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if let ty::Array(e, _) = inner.kind() {
                                if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                                    if let Some(b) = self.bytes_of_alloc(id, off.bytes(), None) {
                                        return J::O(vec![("k", J::s("bytes")), ("v", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))]);
                                    }
                                }
                            }
                        }
                        J::O(vec![("k", J::s("ptr")), ("t", ty_j(self.tcx, t))])
                    }
                }
            }
            ConstValue::Slice { alloc_id, meta } => match self.bytes_of_alloc(alloc_id, 0, Some(meta)) {
                Some(b) => match t.kind() {
                    ty::Ref(_, inner, _) if inner.is_str() => J::O(vec![("k", J::s("str")), ("v", J::S(String::from_utf8_lossy(&b).to_string()))]),
                    _ => J::O(vec![("k", J::s("bytes")), ("v", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))]),
                },
                None => J::O(vec![("k", J::s("opaque"))]),
            },
            ConstValue::Indirect { .. } => J::O(vec![("k", J::s("opaque")), ("t", ty_j(self.tcx, t))]),
        }
    }

    fn constant(&self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            let mut v = vec![("k", J::s("fn")), ("p", J::S(pstr(self.tcx, *d))), ("d", J::S(did(self.tcx, *d)))];
            let a: Vec<J> = args.iter().filter_map(|g| g.as_type()).map(|x| ty_j(self.tcx, x)).collect();
            if !a.is_empty() { v.push(("a", J::A(a))); }
            if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, self.env, *d, args) {
                let rd = inst.def_id();
                if rd != *d {
                    v.push(("r", J::S(did(self.tcx, rd))));
                    v.push(("rp", J::S(pstr(self.tcx, rd))));
                }
            }
            if let Some(tr) = self.tcx.trait_of_assoc(*d) {
                v.push(("tr", J::S(pstr(self.tcx, tr))));
            }
            if let ty::FnDef(..) = t.kind() {
                let sig = self.tcx.fn_sig(*d).skip_binder();
                if sig.safety().is_unsafe() { v.push(("unsafe", J::B(true))); }
            }
            return J::O(v);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return J::O(vec![("k", J::s("promoted")), ("d", J::S(did(self.tcx, u.def))), ("i", J::I(p.as_usize() as i128))]);
            }
        }
        let name = match c.const_ {
            Const::Unevaluated(u, _) => Some(pstr(self.tcx, u.def)),
            _ => None,
        };
        let ev = c.const_.eval(self.tcx, self.env, c.span);
        let mut j = match ev {
            Ok(v) => self.const_val(v, t),
            Err(_) => J::O(vec![("k", J::s("opaque")), ("t", ty_j(self.tcx, t))]),
        };
        if let (Some(n), J::O(v)) = (name, &mut j) { v.push(("n", J::S(n))); }
        j
    }

    fn op(&self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("cp"), self.place(p)]),
            Operand::Move(p) => J::A(vec![J::s("mv"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![J::s("c"), self.constant(c)]),
            _ => J::A(vec![J::s("c"), J::O(vec![("k", J::s("opaque"))])]),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![J::s("use"), self.op(o)]),
            Rvalue::Repeat(o, n) => J::A(vec![J::s("repeat"), self.op(o), J::S(n.to_string())]),
            Rvalue::Ref(_, bk, p) => J::A(vec![J::s("ref"), J::B(matches!(bk, BorrowKind::Mut { .. })), self.place(p)]),
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("rawptr"), self.place(p)]),
            Rvalue::Cast(k, o, t) => J::A(vec![J::s("cast"), J::S(format!("{:?}", k)), self.op(o), ty_j(self.tcx, *t), ty_j(self.tcx, o.ty(self.body, self.tcx))]),
            Rvalue::BinaryOp(b, ops) => J::A(vec![J::s("bin"), J::S(format!("{:?}", b)), self.op(&ops.0), self.op(&ops.1)]),
            Rvalue::UnaryOp(u, o) => J::A(vec![J::s("un"), J::S(format!("{:?}", u)), self.op(o)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(self.body, self.tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_enum() {
                        for (i, d) in def.discriminants(self.tcx) {
                            vs.push(J::A(vec![J::S(d.val.to_string()), J::S(def.variant(i).name.to_string())]));
                        }
                    }
                }
                J::A(vec![J::s("discr"), self.place(p), J::A(vs)])
            }
            Rvalue::Aggregate(k, fs) => {
                let fields = J::A(fs.iter().map(|o| self.op(o)).collect());
                match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array"), fields]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple"), fields]),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*vi);
                        J::A(vec![
                            J::s("adt"), fields, J::S(pstr(self.tcx, *d)),
                            J::S(if def.is_enum() { var.name.to_string() } else { String::new() }),
                            J::A(var.fields.iter().map(|f| J::S(f.name.to_string())).collect()),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![J::s("closure"), fields, J::S(did(self.tcx, *d))]),
                    _ => J::A(vec![J::s("other"), fields]),
                }
            }
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("use"), J::A(vec![J::s("cp"), self.place(p)])]),
            _ => J::A(vec![J::s("unknown"), J::S(format!("{:?}", r))]),
        }
    }

    fn body_j(&self) -> Vec<(&'static str, J)> {
        let b = self.body;
        let tcx = self.tcx;
        let mut out = vec![];
        out.push(("argc", J::I(b.arg_count as i128)));
        out.push(("locals", J::A(b.local_decls.iter().map(|l| ty_j(tcx, l.ty)).collect())));
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![J::S(v.name.to_string()), self.place(&p)]));
            }
        }
        out.push(("names", J::A(names)));
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        st.push(J::A(vec![self.place(&x.0), self.rvalue(&x.1), J::S(span_s(tcx, s.source_info.span))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![J::s("setdiscr"), self.place(place), J::I(variant_index.as_usize() as i128)]));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = span_s(tcx, term.source_info.span);
            let bi = |x: BasicBlock| J::I(x.as_usize() as i128);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), bi(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<J> = targets.iter().map(|(v, t)| J::A(vec![J::S(v.to_string()), bi(t)])).collect();
                    J::A(vec![J::s("switch"), self.op(discr), J::A(ts), bi(targets.otherwise()), ty_j(tcx, discr.ty(b, tcx)), J::S(sp)])
                }
                TerminatorKind::Return => J::A(vec![J::s("return"), J::S(sp)]),
                TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    J::A(vec![J::s("drop"), self.place(place), bi(*target), ty_j(tcx, place.ty(b, tcx).ty)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => J::A(vec![
                    J::s("call"),
                    self.op(func),
                    J::A(args.iter().map(|a| self.op(&a.node)).collect()),
                    self.place(destination),
                    match target { Some(t) => bi(*t), None => J::N },
                    J::S(sp),
                    J::A(args.iter().map(|a| ty_j(tcx, a.node.ty(b, tcx))).collect()),
                    ty_j(tcx, destination.ty(b, tcx).ty),
                ]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let mut m = String::new();
                    let _ = write!(m, "{:?}", msg);
                    J::A(vec![J::s("assert"), self.op(cond), J::B(*expected), J::S(m), bi(*target), J::S(sp)])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![J::s("goto"), bi(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![J::s("goto"), bi(*real_target)]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![J::s("resume")]),
                _ => J::A(vec![J::s("unknown"), J::S(sp)]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", t), ("cu", J::B(bb.is_cleanup))]));
        }
        out.push(("blocks", J::A(blocks)));
        out
    }
}

fn dump_crate<'tcx>(tcx: TyCtxt<'tcx>, name: &str, is_bin: bool) -> J {
    let mut bodies = vec![];
    for ld in tcx.mir_keys(()).iter() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let env = ty::TypingEnv::post_analysis(tcx, d);
        let mut v = vec![
            ("d", J::S(did(tcx, d))),
            ("p", J::S(pstr(tcx, d))),
            ("kind", J::S(format!("{:?}", kind).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string())),
            ("span", J::S(span_s(tcx, tcx.def_span(d)))),
        ];
        if is_fn {
            let mut gs = vec![];
            let mut g = Some(tcx.generics_of(d));
            let mut chain = vec![];
            while let Some(x) = g { chain.push(x); g = x.parent.map(|p| tcx.generics_of(p)); }
            for x in chain.iter().rev() {
                for p in &x.own_params {
                    if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) { gs.push(J::S(p.name.to_string())); }
                }
            }
            if !gs.is_empty() { v.push(("generics", J::A(gs))); }
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            v.push(("vis", J::S(format!("{:?}", tcx.visibility(d)))));
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            if sig.safety().is_unsafe() { v.push(("unsafe", J::B(true))); }
            v.push(("ret", ty_j(tcx, sig.output())));
            v.push(("params", J::A(sig.inputs().iter().map(|x| ty_j(tcx, *x)).collect())));
            if let Some(im) = tcx.impl_of_assoc(d) {
                v.push(("impl_self", ty_j(tcx, tcx.type_of(im).instantiate_identity().skip_norm_wip())));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    v.push(("impl_trait", J::S(pstr(tcx, tr.instantiate_identity().skip_norm_wip().def_id))));
                }
            }
        }
        if is_fn {
            let b = tcx.optimized_mir(d);
            let cx = Cx { tcx, body: b, env };
            v.extend(cx.body_j());
        } else if matches!(kind, DefKind::Ctor(..)) {
            v.push(("ctor", J::B(true)));
        } else {
            let b = tcx.mir_for_ctfe(d);
            let cx = Cx { tcx, body: b, env };
            v.extend(cx.body_j());
        }
        if !matches!(kind, DefKind::Ctor(..)) {
            let pr = tcx.promoted_mir(d);
            let ps: Vec<J> = pr.iter().map(|b| J::O(Cx { tcx, body: b, env }.body_j())).collect();
            if !ps.is_empty() { v.push(("promoted", J::A(ps))); }
        }
        bodies.push(J::O(v));
    }
    let mut adts = vec![];
    let mut impls = vec![];
    let mut unsafes = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(d);
                let vars = def.variants().iter().map(|var| {
                    J::O(vec![
                        ("n", J::S(var.name.to_string())),
                        ("fields", J::A(var.fields.iter().map(|f| {
                            J::O(vec![
                                ("n", J::S(f.name.to_string())),
                                ("vis", J::S(format!("{:?}", f.vis))),
                                ("t", ty_j(tcx, tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                            ])
                        }).collect())),
                    ])
                }).collect();
                adts.push(J::O(vec![
                    ("p", J::S(pstr(tcx, d))), ("d", J::S(did(tcx, d))),
                    ("enum", J::B(def.is_enum())), ("vis", J::S(format!("{:?}", tcx.visibility(d)))),
                    ("variants", J::A(vars)), ("span", J::S(span_s(tcx, tcx.def_span(d)))),
                ]));
            }
            DefKind::Impl { .. } => {
                let mut v = vec![
                    ("d", J::S(did(tcx, d))),
                    ("self", ty_j(tcx, tcx.type_of(d).instantiate_identity().skip_norm_wip())),
                    ("span", J::S(span_s(tcx, tcx.def_span(d)))),
                    ("derived", J::B(tcx.is_automatically_derived(d))),
                ];
                if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                    v.push(("trait", J::S(pstr(tcx, tr.instantiate_identity().skip_norm_wip().def_id))));
                }
                impls.push(J::O(v));
            }
            DefKind::Static { mutability, .. } => {
                if mutability.is_mut() { unsafes.push(J::S(format!("static mut {}", pstr(tcx, d)))); }
            }
            _ => {}
        }
    }
    J::O(vec![
        ("crate", J::s(name)),
        ("bin", J::B(is_bin)),
        ("bodies", J::A(bodies)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("unsafe", J::A(unsafes)),
    ])
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    args.push("-Zmir-opt-level=0".into());
    args.push("--cap-lints=allow".into());
    rustc_driver::install_ice_hook("gcfacts", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
