//! Compiler driver: dumps the type-checked program (MIR as built, before any
//! optimisation) of dune's own crates as JSON, one file per crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn bytes_hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    esc(&s)
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(
            ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d))
        ))
    }
    fn uid(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = match t.kind() {
            ty::Bool => "{\"k\":\"bool\"}".into(),
            ty::Char => "{\"k\":\"char\"}".into(),
            ty::Str => "{\"k\":\"str\"}".into(),
            ty::Never => "{\"k\":\"never\"}".into(),
            ty::Int(_) => format!("{{\"k\":\"int\",\"n\":{}}}", esc(&t.to_string())),
            ty::Uint(_) => format!("{{\"k\":\"int\",\"n\":{}}}", esc(&t.to_string())),
            ty::Float(_) => format!("{{\"k\":\"float\",\"n\":{}}}", esc(&t.to_string())),
            ty::Adt(def, args) => {
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                self.adt(def.did());
                format!(
                    "{{\"k\":\"adt\",\"n\":{},\"a\":{}}}",
                    esc(&self.path(def.did())),
                    arr(a)
                )
            }
            ty::Ref(_, x, m) => {
                let y = self.ty(*x);
                format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}}}", m.is_mut(), y)
            }
            ty::RawPtr(x, m) => {
                let y = self.ty(*x);
                format!("{{\"k\":\"ptr\",\"m\":{},\"t\":{}}}", m.is_mut(), y)
            }
            ty::Slice(x) => {
                let y = self.ty(*x);
                format!("{{\"k\":\"slice\",\"t\":{}}}", y)
            }
            ty::Array(x, n) => {
                let y = self.ty(*x);
                let n = n.try_to_target_usize(self.tcx);
                format!(
                    "{{\"k\":\"array\",\"t\":{},\"len\":{}}}",
                    y,
                    n.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            ty::Tuple(xs) => {
                let a: Vec<String> = xs.iter().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"a\":{}}}", arr(a))
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| self.ty(x).to_string())
                    .collect();
                format!(
                    "{{\"k\":\"closure\",\"n\":{},\"up\":{}}}",
                    esc(&self.uid(*d)),
                    arr(ups)
                )
            }
            ty::FnDef(d, args) => {
                let c = self.callee(*d, args.skip_binder(), None);
                format!("{{\"k\":\"fndef\",\"c\":{}}}", c)
            }
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"n\":{}}}", esc(&t.to_string())),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"n\":{}}}", esc(&t.to_string())),
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", esc(p.name.as_str())),
            _ => format!("{{\"k\":\"other\",\"n\":{}}}", esc(&t.to_string())),
        };
        self.ty_out[i] = s;
        i
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_some() {
            return;
        }
        let def = self.tcx.adt_def(d);
        let local = d.is_local();
        let mut vs = vec![];
        for (i, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                def.discriminant_for_variant(self.tcx, i).val.to_string()
            } else {
                "0".into()
            };
            let fs: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                    let t = if local {
                        let ft = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        self.ty(ft) as i64
                    } else {
                        -1
                    };
                    format!("[{},{}]", esc(f.name.as_str()), t)
                })
                .collect();
            vs.push(format!(
                "{{\"n\":{},\"d\":{},\"f\":{}}}",
                esc(v.name.as_str()),
                discr,
                arr(fs)
            ));
        }
        let o = format!(
            "{}:{{\"enum\":{},\"local\":{},\"v\":{}}}",
            esc(&self.path(d)),
            def.is_enum(),
            local,
            arr(vs)
        );
        self.adt_out.push(o);
    }
    fn callee(
        &mut self,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
        env: Option<TypingEnv<'tcx>>,
    ) -> String {
        let tcx = self.tcx;
        let mut s = format!("{{\"p\":{},\"u\":{}", esc(&self.path(d)), esc(&self.uid(d)));
        let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let _ = write!(s, ",\"a\":{}", arr(a));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(
                s,
                ",\"tr\":{},\"m\":{}",
                esc(&self.path(tr)),
                esc(tcx.item_name(d).as_str())
            );
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let _ = write!(s, ",\"m\":{}", esc(tcx.item_name(d).as_str()));
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            let _ = write!(s, ",\"im\":{}", st);
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let parent = tcx.parent(d);
            let (adt, var) = if matches!(tcx.def_kind(parent), DefKind::Variant) {
                (tcx.parent(parent), Some(parent))
            } else {
                (parent, None)
            };
            let ad = tcx.adt_def(adt);
            let vi = match var {
                Some(v) => ad.variant_index_with_id(v).as_usize(),
                None => 0,
            };
            self.adt(adt);
            let _ = write!(s, ",\"ctor\":[{},{}]", esc(&self.path(adt)), vi);
        }
        if let Some(env) = env {
            let has_err = false;
            if !has_err {
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                    let rd = inst.def_id();
                    if rd != d {
                        let _ = write!(
                            s,
                            ",\"rp\":{},\"ru\":{}",
                            esc(&self.path(rd)),
                            esc(&self.uid(rd))
                        );
                    }
                    if rd.is_local() {
                        s.push_str(",\"rl\":true");
                    }
                }
            }
        }
        let _ = write!(s, ",\"l\":{}", d.is_local());
        s.push('}');
        s
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        format!(
            "[{},{},{}]",
            esc(&l.file.name.prefer_remapped_unconditionally().to_string()),
            l.line,
            l.col.0 + 1
        )
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\".\",{},{}]", f.as_usize(), t)
                }
                ProjectionElem::Index(l) => format!("[\"[]\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"[c]\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"[..]\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(v))
    }
    fn konst(&mut self, c: &mir::Const<'tcx>, env: TypingEnv<'tcx>, sp: Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let cs = self.callee(*d, args.skip_binder(), Some(env));
            return format!("{{\"k\":\"fn\",\"t\":{},\"c\":{}}}", ti, cs);
        }
        let mut s = format!("{{\"k\":\"c\",\"t\":{}", ti);
        if let mir::Const::Unevaluated(u, _) = c {
            let _ = write!(s, ",\"def\":{}", esc(&self.uid(u.def)));
            let _ = write!(s, ",\"defp\":{}", esc(&self.path(u.def)));
            if u.promoted.is_some() {
                s.push_str(",\"promoted\":true");
            }
        }
        let generic = {
            use rustc_middle::ty::TypeVisitableExt;
            c.has_non_region_param()
        };
        if !generic {
            if let Ok(v) = c.eval(tcx, env, sp) {
                match v {
                    ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                        let bits = i.to_bits(i.size());
                        let signed = matches!(t.kind(), ty::Int(_));
                        if signed {
                            let _ = write!(s, ",\"v\":{}", i.to_int(i.size()));
                        } else {
                            let _ = write!(s, ",\"v\":{}", bits);
                        }
                    }
                    ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
                        // reference to static or to a byte array
                        let (prov, off) = p.into_raw_parts();
                        match tcx.global_alloc(prov.alloc_id()) {
                            mir::interpret::GlobalAlloc::Static(d) => {
                                let _ = write!(s, ",\"static\":{}", esc(&self.uid(d)));
                            }
                            mir::interpret::GlobalAlloc::Memory(m) => {
                                let a = m.inner();
                                if a.provenance().ptrs().is_empty() {
                                    let o = off.bytes() as usize;
                                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                                        o..a.len(),
                                    );
                                    let _ = write!(s, ",\"bytes\":{}", bytes_hex(b));
                                }
                            }
                            _ => {}
                        }
                    }
                    ConstValue::ZeroSized => s.push_str(",\"zst\":true"),
                    ConstValue::Slice { .. } | ConstValue::Indirect { .. } => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            match t.kind() {
                                ty::Ref(_, x, _) if x.is_str() => match std::str::from_utf8(b) {
                                    Ok(x) => {
                                        let _ = write!(s, ",\"s\":{}", esc(x));
                                    }
                                    Err(_) => {}
                                },
                                _ => {
                                    let _ = write!(s, ",\"bytes\":{}", bytes_hex(b));
                                }
                            }
                        }
                    }
                }
            }
        }
        s.push('}');
        s
    }
    fn op(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"p\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"k\":\"m\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_, env, c.span),
            o => format!("{{\"k\":\"rt\",\"d\":{}}}", esc(&format!("{:?}", o))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o, env)),
            Rvalue::Repeat(o, n) => {
                let o = self.op(o, env);
                format!(
                    "[\"repeat\",{},{}]",
                    o,
                    n.try_to_target_usize(self.tcx)
                        .map(|x| x.to_string())
                        .unwrap_or("null".into())
                )
            }
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", m.is_mut(), self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.uid(*d))),
            Rvalue::Cast(k, o, t) => {
                let o2 = self.op(o, env);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), o2, t)
            }
            Rvalue::BinaryOp(b, ab) => {
                let x = self.op(&ab.0, env);
                let y = self.op(&ab.1, env);
                format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", b)), x, y)
            }
            Rvalue::UnaryOp(u, o) => {
                let o = self.op(o, env);
                format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), o)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"k\":\"p\",\"p\":{}}}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.op(x, env)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        format!("{{\"k\":\"array\",\"t\":{}}}", t)
                    }
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".into(),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        self.adt(*d);
                        format!(
                            "{{\"k\":\"adt\",\"n\":{},\"v\":{},\"uf\":{}}}",
                            esc(&self.path(*d)),
                            v.as_usize(),
                            f.map(|x| x.as_usize().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"k\":\"closure\",\"n\":{}}}", esc(&self.uid(*d)))
                    }
                    k => format!("{{\"k\":\"other\",\"d\":{}}}", esc(&format!("{:?}", k))),
                };
                format!("[\"agg\",{},{}]", k, arr(o))
            }
            r => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn body(&mut self, did: LocalDefId, b: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::non_body_analysis(tcx, did.to_def_id());
        let d = did.to_def_id();
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut ups: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    let pl = self.place(&p);
                    ups.push(format!("[{},{}]", esc(v.name.as_str()), pl));
                }
            }
        }
        let mut ls = vec![];
        for (i, l) in b.local_decls.iter_enumerated() {
            let t = self.ty(l.ty);
            ls.push(match names.get(&i.as_usize()) {
                Some(n) => format!("[{},{}]", t, esc(n)),
                None => format!("[{}]", t),
            });
        }
        let mut bbs = vec![];
        for bb in b.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let r = self.rvalue(&x.1, env);
                        let p = self.place(&x.0);
                        ss.push(format!("[{},{},{}]", p, r, self.span(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(format!(
                            "[{},[\"setdiscr\",{}],{}]",
                            p,
                            variant_index.as_usize(),
                            self.span(s.source_info.span)
                        ));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    format!("[\"drop\",{},{}]", p, target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(discr, env);
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dt = self.ty(dt);
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize()))
                        .collect();
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        o,
                        arr(v),
                        targets.otherwise().as_usize(),
                        dt
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.op(func, env);
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node, env)).collect();
                    let dp = self.place(destination);
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        f,
                        arr(a),
                        dp,
                        target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()),
                        self.span(*fn_span)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, env);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.op(len, env);
                            let i = self.op(index, env);
                            format!("[\"bounds\",{},{}]", l, i)
                        }
                        AssertKind::Overflow(b, x, y) => {
                            let x = self.op(x, env);
                            let y = self.op(y, env);
                            format!("[\"overflow\",{},{},{}]", esc(&format!("{:?}", b)), x, y)
                        }
                        AssertKind::OverflowNeg(x) => format!("[\"overflow_neg\",{}]", self.op(x, env)),
                        AssertKind::DivisionByZero(x) => format!("[\"div_zero\",{}]", self.op(x, env)),
                        AssertKind::RemainderByZero(x) => format!("[\"rem_zero\",{}]", self.op(x, env)),
                        _ => "[\"other\"]".into(),
                    };
                    format!("[\"assert\",{},{},{},{}]", c, expected, m, target.as_usize())
                }
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                _ => "[\"stop\"]".into(),
            };
            bbs.push(format!(
                "{{\"s\":{},\"t\":{},\"sp\":{},\"cu\":{}}}",
                arr(ss),
                ts,
                sp,
                bb.is_cleanup
            ));
        }
        let kind = format!("{:?}", tcx.def_kind(d));
        let parent = tcx.opt_parent(d).map(|p| self.uid(p)).unwrap_or_default();
        let mut extra = String::new();
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            let _ = write!(extra, ",\"im\":{},\"m\":{}", st, esc(tcx.item_name(d).as_str()));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.skip_binder();
                let a: Vec<String> = tr.args.types().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(
                    extra,
                    ",\"tr\":{},\"tra\":{}",
                    esc(&self.path(tr.def_id)),
                    arr(a)
                );
            }
        }
        format!(
            "{}:{{\"p\":{},\"kind\":{},\"parent\":{},\"argc\":{},\"locals\":{},\"up\":{},\"span\":{},\"bb\":{}{}}}",
            esc(&self.uid(d)),
            esc(&self.path(d)),
            esc(&kind),
            esc(&parent),
            b.arg_count,
            arr(ls),
            arr(ups),
            self.span(b.span),
            arr(bbs),
            extra
        )
    }
}

struct Nothing;
impl Callbacks for Nothing {}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let Ok(dir) = std::env::var("DUNE_MIR_OUT") else {
            return Compilation::Continue;
        };
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if name == "build_script_build" {
            return Compilation::Continue;
        }
        // clone every body before anything can steal it
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        let mut bodies = vec![];
        for d in owners {
            let k = tcx.def_kind(d);
            if matches!(k, DefKind::AnonConst) {
                continue;
            }
            let b = tcx.mir_built(d).borrow().clone();
            bodies.push((d, b));
        }
        let mut cx = Cx {
            tcx,
            tys: HashMap::new(),
            ty_out: vec![],
            adts: HashMap::new(),
            adt_out: vec![],
        };
        let mut out = vec![];
        for (d, b) in &bodies {
            let s = cx.body(*d, b);
            out.push(s);
        }
        let s = format!(
            "{{\"crate\":{},\n\"bodies\":{{\n{}\n}},\n\"types\":[\n{}\n],\n\"adts\":{{\n{}\n}}}}\n",
            esc(&name),
            out.join(",\n"),
            cx.ty_out.join(",\n"),
            cx.adt_out.join(",\n")
        );
        let f = format!("{}/{}.json", dir, name);
        std::fs::write(&f, s).expect("cannot write MIR dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    args[0] = "rustc".into();
    // Old build scripts look at the version string and probe for unstable features;
    // present this compiler as a stable one so that they take their stable branches.
    unsafe { std::env::set_var("RUSTC_BOOTSTRAP", "-1") };
    if args.iter().any(|a| a == "-vV" || a == "--version" || a == "-V") {
        let out = std::process::Command::new(env!("DUNE_REAL_RUSTC"))
            .args(&args[1..])
            .output()
            .expect("cannot run rustc");
        print!("{}", String::from_utf8_lossy(&out.stdout).replace("-nightly", ""));
        return std::process::ExitCode::SUCCESS;
    }
    if !args.iter().any(|a| a.starts_with("--sysroot")) {
        args.push(format!("--sysroot={}", env!("DUNE_SYSROOT")));
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let dump = std::env::var("DUNE_MIR_OUT").is_ok() && (name == "dune" || name == "dunesh");
    rustc_driver::catch_with_exit_code(|| {
        if dump {
            rustc_driver::compiler_entrypoint(&args, &mut Cb)
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Nothing)
        }
    })
}
