//! Fact extractor: a rustc driver used as RUSTC_WORKSPACE_WRAPPER.  For every
//! crate of the boostvoronoi workspace it compiles the crate exactly as rustc
//! would (`cargo check`), and then writes the type-checked program (MIR at
//! mir-opt-level 0, resolved callees, types, constants, ADTs, impls,
//! visibilities) as one JSON file per crate to $VP_FACTS_DIR.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_abi;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt};
use std::collections::HashMap;
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(out, "{}", n);
            }
            J::S(s) => esc(s, out),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.w(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    x.w(out);
                }
                out.push('}');
            }
        }
    }
}
fn s<T: ToString>(t: T) -> J {
    J::S(t.to_string())
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        // crate-qualified for every crate, the local one included
        let krate = self.tcx.crate_name(d.krate);
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.krate == LOCAL_CRATE {
            format!("{}::{}", krate, p)
        } else {
            p
        }
    }
    /// unique, crate-qualified, generics-free name of a definition
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                let i = self.ty(t);
                v.push(J::N(i as i128));
            } else if let Some(c) = x.as_const() {
                v.push(s(format!("{}", c)));
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.push(J::Null);
        self.tymap.insert(t, i);
        let txt = with_no_trimmed_paths!(format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![("s", J::S(txt))];
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                o.push(("k", s("prim")));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("def", J::S(self.key(def.did()))));
                let a = self.args(args);
                o.push(("args", a));
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                let a = self.ty(*inner);
                o.push(("args", J::A(vec![J::N(a as i128)])));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", s("ptr")));
                let a = self.ty(*inner);
                o.push(("args", J::A(vec![J::N(a as i128)])));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Array(inner, n) => {
                o.push(("k", s("array")));
                let a = self.ty(*inner);
                o.push(("args", J::A(vec![J::N(a as i128)])));
                o.push(("len", s(format!("{}", n))));
            }
            ty::Slice(inner) => {
                o.push(("k", s("slice")));
                let a = self.ty(*inner);
                o.push(("args", J::A(vec![J::N(a as i128)])));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|t| J::N(self.ty(t) as i128)).collect();
                o.push(("args", J::A(v)));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name)));
                o.push(("idx", J::N(p.index as i128)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("def", J::S(self.key(*d))));
                let a = self.args(args.skip_binder());
                o.push(("args", a));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("def", J::S(self.key(*d))));
                let a = self.args(self.tcx.mk_args(args.as_closure().parent_args()));
                o.push(("args", a));
            }
            ty::Alias(..) => {
                o.push(("k", s("alias")));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            _ => o.push(("k", s("other"))),
        }
        self.tys[i] = J::O(o);
        i
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp0 = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp0.lo());
        s(format!(
            "{}:{}:{}{}",
            lo.file.name.prefer_remapped_unconditionally().to_string_lossy(),
            lo.line,
            lo.col.0 + 1,
            if sp.from_expansion() { "!" } else { "" }
        ))
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", J::S(self.path(d))), ("key", J::S(self.key(d)))];
        let a = self.args(args);
        o.push(("args", a));
        o.push(("krate", s(tcx.crate_name(d.krate))));
        o.push(("name", match tcx.opt_item_name(d) { Some(n) => s(n), None => J::Null }));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(self.key(tr))));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let i = self.ty(t);
            o.push(("impl_self", J::N(i as i128)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder();
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
        }
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
            let rd = inst.def_id();
            let kind = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                _ => "shim",
            };
            o.push(("rkind", s(kind)));
            if rd != d {
                o.push(("rpath", J::S(self.path(rd))));
                o.push(("rkey", J::S(self.key(rd))));
                let a = self.args(inst.args);
                o.push(("rargs", a));
                o.push(("rkrate", s(tcx.crate_name(rd.krate))));
            }
        }
        J::O(o)
    }
    fn scalar(&mut self, v: mir::ConstValue, t: Ty<'tcx>) -> Vec<(&'static str, J)> {
        let mut o = vec![];
        let env = ty::TypingEnv::fully_monomorphized();
        if let Some(si) = v.try_to_scalar_int() {
            let sz = si.size();
            let bits = si.to_bits(sz);
            match t.kind() {
                ty::Int(_) => o.push(("val", J::N(si.to_int(sz)))),
                ty::Float(_) => {
                    let f = if sz.bytes() == 4 {
                        f32::from_bits(bits as u32) as f64
                    } else {
                        f64::from_bits(bits as u64)
                    };
                    o.push(("fval", s(format!("{:?}", f))));
                    o.push(("bits", s(format!("{}", bits))));
                }
                ty::Bool => o.push(("val", J::N(bits as i128))),
                _ => o.push(("val", J::N(bits as i128))),
            }
        } else if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    o.push(("str", s(String::from_utf8_lossy(b))));
                }
            }
        } else if matches!(v, mir::ConstValue::ZeroSized) {
            o.push(("zst", J::B(true)));
        }
        let _ = env;
        if o.is_empty() {
            // aggregates such as `Id(5)` or `None`: destructure when the compiler can
            if !matches!(t.kind(), ty::Ref(..) | ty::RawPtr(..)) && !has_param(t) {
                if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let mut fs = vec![];
                    for (fv, ft) in d.fields.iter() {
                        let mut x = self.scalar(*fv, *ft);
                        let ti = self.ty(*ft);
                        x.push(("ty", J::N(ti as i128)));
                        fs.push(J::O(x));
                    }
                    o.push(("variant", match d.variant { Some(v) => J::N(v.as_u32() as i128), None => J::Null }));
                    o.push(("fields", J::A(fs)));
                }
            }
        }
        o
    }
    fn cnst(&mut self, c: &mir::Const<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let t = c.ty();
        let ti = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("k", s("const")), ("ty", J::N(ti as i128))];
        if let ty::FnDef(d, args) = t.kind() {
            let c = self.callee(*d, args.skip_binder(), env);
            o.push(("fn", c));
            return J::O(o);
        }
        match c {
            mir::Const::Unevaluated(u, _) => {
                o.push(("def", J::S(self.key(u.def))));
                if let Some(p) = u.promoted {
                    o.push(("promoted", J::N(p.as_u32() as i128)));
                } else {
                    let a = self.args(u.args);
                    o.push(("dargs", a));
                    if let Ok(v) = c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                        let x = self.scalar(v, t);
                        o.extend(x);
                    }
                }
            }
            mir::Const::Val(v, _) => {
                if let mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(ptr, _)) = v {
                    if let mir::interpret::GlobalAlloc::Static(sd) = self.tcx.global_alloc(ptr.provenance.alloc_id()) {
                        let sty = self.tcx.type_of(sd).instantiate_identity().skip_norm_wip();
                        let frz = sty.is_freeze(self.tcx, ty::TypingEnv::fully_monomorphized());
                        o.push(("static", J::S(self.key(sd))));
                        o.push(("sstate", J::B(self.tcx.is_mutable_static(sd) || !frz)));
                    }
                }
                let x = self.scalar(*v, t);
                o.extend(x);
            }
            mir::Const::Ty(_, c2) => {
                o.push(("tyconst", s(format!("{}", c2))));
                if let Ok(v) = c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                    let x = self.scalar(v, t);
                    o.extend(x);
                }
            }
        }
        J::O(o)
    }
    fn place(&mut self, p: &mir::Place<'tcx>, body: &mir::Body<'tcx>) -> J {
        let mut v = vec![J::N(p.local.as_u32() as i128)];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let x = match e {
                mir::ProjectionElem::Deref => J::A(vec![s("*")]),
                mir::ProjectionElem::Field(f, fty) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_union() {
                                format!("{}", f.as_u32())
                            } else {
                                def.variant(vi).fields[f].name.to_string()
                            }
                        }
                        _ => format!("{}", f.as_u32()),
                    };
                    let t = self.ty(fty);
                    J::A(vec![s("."), J::S(name), J::N(f.as_u32() as i128), J::N(t as i128)])
                }
                mir::ProjectionElem::Index(l) => J::A(vec![s("["), J::N(l.as_u32() as i128)]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("c["),
                    J::N(offset as i128),
                    J::N(min_length as i128),
                    J::B(from_end),
                ]),
                mir::ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    s("s["),
                    J::N(from as i128),
                    J::N(to as i128),
                    J::B(from_end),
                ]),
                mir::ProjectionElem::Downcast(n, vi) => {
                    let nm = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(vi).name.to_string(),
                        _ => n.map(|x| x.to_string()).unwrap_or_default(),
                    };
                    J::A(vec![s("as"), J::S(nm), J::N(vi.as_u32() as i128)])
                }
                _ => J::A(vec![s("?")]),
            };
            v.push(x);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(v)
    }
    fn op(&mut self, o: &mir::Operand<'tcx>, body: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => {
                let x = self.place(p, body);
                J::O(vec![("k", s("copy")), ("p", x)])
            }
            mir::Operand::Move(p) => {
                let x = self.place(p, body);
                J::O(vec![("k", s("move")), ("p", x)])
            }
            mir::Operand::Constant(c) => self.cnst(&c.const_, env),
            mir::Operand::RuntimeChecks(r) => J::O(vec![("k", s("rtcheck")), ("what", s(format!("{:?}", r)))]),
        }
    }
    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, body: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, ..) => {
                let x = self.op(o, body, env);
                J::O(vec![("k", s("use")), ("a", x)])
            }
            Repeat(o, n) => {
                let x = self.op(o, body, env);
                J::O(vec![("k", s("repeat")), ("a", x), ("n", s(format!("{}", n)))])
            }
            Ref(_, bk, p) => {
                let x = self.place(p, body);
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                J::O(vec![("k", s("ref")), ("p", x), ("mut", J::B(m))])
            }
            RawPtr(_, p) => {
                let x = self.place(p, body);
                J::O(vec![("k", s("rawptr")), ("p", x)])
            }
            Cast(k, o, t) => {
                let x = self.op(o, body, env);
                let from = o.ty(&body.local_decls, self.tcx);
                let fi = self.ty(from);
                let ti = self.ty(*t);
                J::O(vec![("k", s("cast")), ("kind", s(format!("{:?}", k))), ("a", x), ("from", J::N(fi as i128)), ("to", J::N(ti as i128))])
            }
            BinaryOp(b, ab) => {
                let x = self.op(&ab.0, body, env);
                let y = self.op(&ab.1, body, env);
                let t = self.ty(ab.0.ty(&body.local_decls, self.tcx));
                J::O(vec![("k", s("bin")), ("op", s(format!("{:?}", b))), ("a", x), ("b", y), ("ty", J::N(t as i128))])
            }
            UnaryOp(u, a) => {
                let x = self.op(a, body, env);
                let t = self.ty(a.ty(&body.local_decls, self.tcx));
                J::O(vec![("k", s("un")), ("op", s(format!("{:?}", u))), ("a", x), ("ty", J::N(t as i128))])
            }
            Discriminant(p) => {
                let x = self.place(p, body);
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                J::O(vec![("k", s("discr")), ("p", x), ("ty", J::N(ti as i128))])
            }
            Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.op(o, body, env)).collect();
                let mut o = vec![("k", s("agg")), ("ops", J::A(v))];
                match &**k {
                    mir::AggregateKind::Array(_) => o.push(("agg", s("array"))),
                    mir::AggregateKind::Tuple => o.push(("agg", s("tuple"))),
                    mir::AggregateKind::Adt(d, vi, args, _, _) => {
                        o.push(("agg", s("adt")));
                        o.push(("def", J::S(self.key(*d))));
                        let def = self.tcx.adt_def(*d);
                        o.push(("variant", s(def.variant(*vi).name)));
                        o.push(("vidx", J::N(vi.as_u32() as i128)));
                        o.push(("is_enum", J::B(def.is_enum())));
                        let f: Vec<J> = def.variant(*vi).fields.iter().map(|f| s(f.name)).collect();
                        o.push(("fields", J::A(f)));
                        let a = self.args(args);
                        o.push(("args", a));
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        o.push(("agg", s("closure")));
                        o.push(("def", J::S(self.key(*d))));
                        let a = self.args(self.tcx.mk_args(args.as_closure().parent_args()));
                        o.push(("args", a));
                    }
                    _ => o.push(("agg", s("other"))),
                }
                J::O(o)
            }
            CopyForDeref(p) => {
                let x = self.place(p, body);
                J::O(vec![("k", s("use")), ("a", J::O(vec![("k", s("copy")), ("p", x)]))])
            }
            Reborrow(_, m, p) => {
                let x = self.place(p, body);
                J::O(vec![("k", s("reborrow")), ("p", x), ("mut", J::B(m.is_mut()))])
            }
            _ => J::O(vec![("k", s("other")), ("dbg", s(format!("{:?}", r)))]),
        }
    }
    fn body(&mut self, body: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let mut locals = vec![];
        let mut names: HashMap<u32, String> = HashMap::new();
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                }
            }
        }
        for (i, l) in body.local_decls.iter_enumerated() {
            let t = self.ty(l.ty);
            locals.push(J::O(vec![
                ("ty", J::N(t as i128)),
                ("name", names.get(&i.as_u32()).map(|n| s(n)).unwrap_or(J::Null)),
            ]));
        }
        let mut blocks = vec![];
        for (_bb, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in b.statements.iter() {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    mir::StatementKind::Assign(pr) => {
                        let p = self.place(&pr.0, body);
                        let r = self.rvalue(&pr.1, body, env);
                        st.push(J::O(vec![("k", s("assign")), ("p", p), ("r", r), ("sp", sp)]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, body);
                        st.push(J::O(vec![("k", s("setdiscr")), ("p", p), ("v", J::N(variant_index.as_u32() as i128)), ("sp", sp)]));
                    }
                    mir::StatementKind::Intrinsic(i) => {
                        st.push(J::O(vec![("k", s("intrinsic")), ("dbg", s(format!("{:?}", i))), ("sp", sp)]));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            use mir::TerminatorKind::*;
            let unw = |u: &mir::UnwindAction| match u {
                mir::UnwindAction::Cleanup(b) => J::N(b.as_u32() as i128),
                _ => J::Null,
            };
            let mut o: Vec<(&'static str, J)> = match &t.kind {
                Goto { target, .. } => vec![("k", s("goto")), ("t", J::N(target.as_u32() as i128))],
                SwitchInt { discr, targets } => {
                    let d = self.op(discr, body, env);
                    let ty = self.ty(discr.ty(&body.local_decls, self.tcx));
                    let v: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![s(v), J::N(b.as_u32() as i128)])).collect();
                    vec![("k", s("switch")), ("d", d), ("ty", J::N(ty as i128)), ("arms", J::A(v)), ("otherwise", J::N(targets.otherwise().as_u32() as i128))]
                }
                UnwindResume => vec![("k", s("resume"))],
                UnwindTerminate(_) => vec![("k", s("abort"))],
                Return => vec![("k", s("return"))],
                Unreachable => vec![("k", s("unreachable"))],
                Drop { place, target, unwind, .. } => {
                    let p = self.place(place, body);
                    let ty = place.ty(&body.local_decls, self.tcx).ty;
                    let ti = self.ty(ty);
                    vec![("k", s("drop")), ("p", p), ("ty", J::N(ti as i128)), ("t", J::N(target.as_u32() as i128)), ("unwind", unw(unwind))]
                }
                Call { func, args, destination, target, unwind, .. } => {
                    let f = self.op(func, body, env);
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node, body, env)).collect();
                    let d = self.place(destination, body);
                    let dt = self.ty(destination.ty(&body.local_decls, self.tcx).ty);
                    let at: Vec<J> = args.iter().map(|x| J::N(self.ty(x.node.ty(&body.local_decls, self.tcx)) as i128)).collect();
                    vec![
                        ("k", s("call")),
                        ("f", f),
                        ("args", J::A(a)),
                        ("atys", J::A(at)),
                        ("d", d),
                        ("dty", J::N(dt as i128)),
                        ("t", match target { Some(b) => J::N(b.as_u32() as i128), None => J::Null }),
                        ("unwind", unw(unwind)),
                    ]
                }
                Assert { cond, expected, msg, target, unwind } => {
                    let c = self.op(cond, body, env);
                    let kind = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        mir::AssertKind::Overflow(b, ..) => format!("overflow:{:?}", b),
                        mir::AssertKind::OverflowNeg(..) => "overflow:Neg".to_string(),
                        mir::AssertKind::DivisionByZero(..) => "divzero".to_string(),
                        mir::AssertKind::RemainderByZero(..) => "remzero".to_string(),
                        x => format!("other:{:?}", x),
                    };
                    let mut ex = vec![];
                    match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => {
                            ex.push(self.op(len, body, env));
                            ex.push(self.op(index, body, env));
                        }
                        mir::AssertKind::Overflow(_, a, b) => {
                            ex.push(self.op(a, body, env));
                            ex.push(self.op(b, body, env));
                        }
                        _ => {}
                    }
                    vec![("k", s("assert")), ("c", c), ("exp", J::B(*expected)), ("kind", s(kind)), ("ops", J::A(ex)), ("t", J::N(target.as_u32() as i128)), ("unwind", unw(unwind))]
                }
                FalseEdge { real_target, .. } => vec![("k", s("goto")), ("t", J::N(real_target.as_u32() as i128))],
                FalseUnwind { real_target, .. } => vec![("k", s("goto")), ("t", J::N(real_target.as_u32() as i128))],
                x => vec![("k", s("other")), ("dbg", s(format!("{:?}", x)))],
            };
            o.push(("sp", sp));
            blocks.push(J::O(vec![("st", J::A(st)), ("term", J::O(o)), ("cleanup", J::B(b.is_cleanup))]));
        }
        J::O(vec![
            ("argc", J::N(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ])
    }
}

fn has_param(t: Ty<'_>) -> bool {
    use rustc_middle::ty::TypeVisitableExt;
    t.has_param()
}

fn dump(tcx: TyCtxt<'_>) {
    let out = std::env::var("VP_FACTS_DIR").expect("VP_FACTS_DIR");
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut d = D { tcx, tys: vec![], tymap: HashMap::new() };
    let mut fns = vec![];
    let ev = tcx.effective_visibilities(());
    for ld in tcx.mir_keys(()).iter() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let env = ty::TypingEnv::post_analysis(tcx, did);
        let mut o: Vec<(&'static str, J)> = vec![("path", J::S(d.path(did))), ("key", J::S(d.key(did))), ("kind", s(format!("{:?}", kind)))];
        o.push(("sp", d.span(tcx.def_span(did))));
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let is_const = matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }  | DefKind::AnonConst);
        if !is_fn && !is_const {
            continue;
        }
        o.push(("exported", J::B(ev.is_reachable(*ld))));
        o.push(("public", J::B(tcx.opt_item_name(did).is_some() && tcx.visibility(did).is_public())));
        if let Some(n) = tcx.opt_item_name(did) {
            o.push(("name", s(n)));
        }
        let g = tcx.generics_of(did);
        let mut gs = vec![];
        for i in 0..g.count() {
            gs.push(s(g.param_at(i, tcx).name));
        }
        o.push(("generics", J::A(gs)));
        // enclosing impl
        let mut owner = did;
        while matches!(tcx.def_kind(owner), DefKind::Closure  | DefKind::AnonConst) {
            owner = tcx.parent(owner);
        }
        if owner != did {
            o.push(("parent", J::S(d.key(owner))));
        }
        if let Some(im) = tcx.impl_of_assoc(owner) {
            let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let i = d.ty(t);
            o.push(("impl_self", J::N(i as i128)));
            o.push(("derived", J::B(tcx.is_automatically_derived(im))));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", J::S(d.key(tr.def_id))));
                let a = d.args(tr.args);
                o.push(("trait_args", a));
            }
        } else if let Some(tr) = tcx.trait_of_assoc(owner) {
            o.push(("trait_default", J::S(d.key(tr))));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
            let ins: Vec<J> = sig.inputs().iter().map(|t| J::N(d.ty(*t) as i128)).collect();
            o.push(("inputs", J::A(ins)));
            let r = d.ty(sig.output());
            o.push(("output", J::N(r as i128)));
        }
        let body = if is_fn {
            tcx.optimized_mir(did)
        } else {
            tcx.mir_for_ctfe(did)
        };
        let b = d.body(body, env);
        o.push(("body", b));
        let mut ps = vec![];
        for p in tcx.promoted_mir(did).iter() {
            let b = d.body(p, env);
            ps.push(b);
        }
        o.push(("promoted", J::A(ps)));
        fns.push(J::O(o));
    }
    // ADTs, impls, unsafe blocks
    let mut adts = vec![];
    let mut impls = vec![];
    let mut reexports = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(did);
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let ti = d.ty(t);
                        fs.push(J::O(vec![
                            ("name", s(f.name)),
                            ("ty", J::N(ti as i128)),
                            ("public", J::B(f.vis.is_public())),
                        ]));
                    }
                    let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                    vs.push(J::O(vec![("name", s(v.name)), ("fields", J::A(fs)), ("discr", J::N(discr))]));
                }
                let g = tcx.generics_of(did);
                let gs: Vec<J> = (0..g.count()).map(|i| s(g.param_at(i, tcx).name)).collect();
                adts.push(J::O(vec![
                    ("path", J::S(d.path(did))),
                    ("key", J::S(d.key(did))),
                    ("kind", s(format!("{:?}", tcx.def_kind(did)))),
                    ("generics", J::A(gs)),
                    ("exported", J::B(ev.is_reachable(ld))),
                    ("public", J::B(tcx.visibility(did).is_public())),
                    ("variants", J::A(vs)),
                    ("sp", d.span(tcx.def_span(did))),
                ]));
            }
            DefKind::Impl { of_trait } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ti = d.ty(t);
                let mut o = vec![("key", J::S(d.key(did))), ("self", J::N(ti as i128)), ("sp", d.span(tcx.def_span(did)))];
                if of_trait {
                    if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", J::S(d.key(tr.def_id))));
                        let a = d.args(tr.args);
                        o.push(("trait_args", a));
                    }
                    o.push(("derived", J::B(tcx.is_automatically_derived(did))));
                }
                impls.push(J::O(o));
            }
            DefKind::Use => {}
            DefKind::Mod => {
                for c in tcx.module_children_local(ld).iter() {
                    if let Some(rd) = c.res.opt_def_id() {
                        if c.vis.is_public() {
                            reexports.push(J::O(vec![
                                ("from", J::S(d.key(did))),
                                ("name", s(c.ident.name)),
                                ("to", J::S(d.key(rd))),
                            ]));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let mut txt = String::new();
    let tys = std::mem::take(&mut d.tys);
    J::O(vec![
        ("crate", s(&krate)),
        ("types", J::A(tys)),
        ("fns", J::A(fns)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("children", J::A(reexports)),
    ])
    .w(&mut txt);
    let p = format!("{}/{}.json", out, krate);
    let tmp = format!("{}.tmp{}", p, std::process::id());
    std::fs::write(&tmp, txt).unwrap();
    std::fs::rename(&tmp, &p).unwrap();
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        dump(tcx);
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    // argv: vpdriver <rustc> <rustc args...>
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let mut crate_name = String::new();
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--crate-name" {
            crate_name = args[i + 1].clone();
        }
        i += 1;
    }
    let want = matches!(crate_name.as_str(), "boostvoronoi" | "boostvoronoi_core" | "boostvoronoi_ext");
    if !want {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    // The project's build.rs switches to a different circle-event queue implementation
    // on nightly compilers.  Users build with stable, so analyse the stable code.
    let mut out = vec![];
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--cfg" && i + 1 < args.len() && args[i + 1] == "feature=\"map_first_last\"" && std::env::var("VP_NIGHTLY_CFG").is_err() {
            i += 2;
            continue;
        }
        out.push(args[i].clone());
        i += 1;
    }
    out.push("-Zmir-opt-level=0".into());
    out.push("-Cdebug-assertions=on".into());
    out.push("-Coverflow-checks=on".into());
    rustc_driver::compiler_entrypoint(&out, &mut Cb);
}
