// MIR extractor: a rustc_private driver that is installed as RUSTC_WRAPPER.
// For the crates named in MIRDUMP_CRATES it writes, after type checking, one JSON file with
// every function body reachable from the crate's own functions (as monomorphised MIR with resolved
// callees), the types they use, and the decoded value of every constant of the crate.
// It decides nothing: all rules live in the Python analyser that reads the JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_const_eval;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_const_eval::interpret::Projectable;
use rustc_driver_impl::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, Body, ConstValue, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: impl IntoIterator<Item = String>) -> String {
    let mut o = String::from("[");
    for (i, s) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&s);
    }
    o.push(']');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    insts: Vec<String>,
    inst_ids: HashMap<(Instance<'tcx>, Option<DefId>), usize>,
    queue: VecDeque<(usize, Instance<'tcx>, Option<DefId>)>,
    stop: Vec<String>,
    cut: HashSet<String>,
}

impl<'tcx> Dump<'tcx> {
    fn env(&self, root: Option<DefId>) -> TypingEnv<'tcx> {
        match root {
            None => TypingEnv::fully_monomorphized(),
            Some(d) => TypingEnv::post_analysis(self.tcx, d),
        }
    }

    fn path(&self, d: DefId) -> String {
        // Full path with crate name, independent of re-exports and imports.
        let tcx = self.tcx;
        let krate = tcx.crate_name(d.krate);
        let mut s = krate.to_string();
        let dp = tcx.def_path(d);
        let mut cur = d;
        let mut parts: Vec<String> = Vec::new();
        for data in dp.data.iter().rev() {
            let part = match data.data {
                rustc_hir::definitions::DefPathData::Impl => {
                    let self_ty = tcx.type_of(cur).instantiate_identity().skip_norm_wip();
                    let st = match self_ty.kind() {
                        ty::Adt(a, _) => tcx.item_name(a.did()).to_string(),
                        ty::Str => "str".into(),
                        ty::Slice(_) => "[T]".into(),
                        _ => format!("{self_ty}"),
                    };
                    format!("{{impl {st}}}")
                }
                _ => data.as_sym(true).to_string(),
            };
            parts.push(part);
            if let Some(p) = tcx.opt_parent(cur) {
                cur = p;
            }
        }
        for p in parts.iter().rev() {
            s.push_str("::");
            s.push_str(p);
        }
        s
    }

    fn ty(&mut self, t: Ty<'tcx>, root: Option<DefId>) -> usize {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.type_ids.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.type_ids.insert(t, i);
        let disp = format!("{t}");
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(x) => format!("\"k\":\"int\",\"signed\":true,\"name\":\"{}\",\"bits\":{}", x.name_str(), x.bit_width().unwrap_or(64)),
            ty::Uint(x) => format!("\"k\":\"int\",\"signed\":false,\"name\":\"{}\",\"bits\":{}", x.name_str(), x.bit_width().unwrap_or(64)),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(e, root)),
            ty::Array(e, n) => {
                let len = n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1);
                format!("\"k\":\"array\",\"elem\":{},\"len\":{len}", self.ty(e, root))
            }
            ty::Ref(_, e, m) => format!("\"k\":\"ref\",\"mut\":{},\"elem\":{}", m.is_mut(), self.ty(e, root)),
            ty::RawPtr(e, m) => format!("\"k\":\"ptr\",\"mut\":{},\"elem\":{}", m.is_mut(), self.ty(e, root)),
            ty::Tuple(es) => {
                let v: Vec<String> = es.iter().map(|e| self.ty(e, root).to_string()).collect();
                format!("\"k\":\"tuple\",\"elems\":{}", list(v))
            }
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let a = self.args(args, root);
                let stop = p.starts_with("std::sys") || p.starts_with("std::io") || p.starts_with("alloc::sync") || p.starts_with("std::sync");
                let mut vs = Vec::new();
                if !stop {
                    let discrs: Vec<(u32, String)> = if def.is_enum() {
                        def.discriminants(tcx).map(|(i, d)| (i.as_u32(), format!("{}", d))).collect()
                    } else {
                        vec![]
                    };
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = Vec::new();
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = tcx.try_normalize_erasing_regions(self.env(root), ft).unwrap_or(ft.skip_norm_wip());
                            fs.push(format!("{{\"name\":{},\"ty\":{}}}", esc(f.name.as_str()), self.ty(ft, root)));
                        }
                        let d = discrs.iter().find(|x| x.0 == vi.as_u32()).map(|x| x.1.clone()).unwrap_or("0".into());
                        let d: String = d.chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect();
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(v.name.as_str()), d, list(fs)));
                    }
                }
                let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                format!("\"k\":\"adt\",\"adt\":\"{k}\",\"path\":{},\"args\":{a},\"variants\":{},\"local\":{}", esc(&p), list(vs), def.did().is_local())
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let rec = self.callee(d, args, root);
                format!("\"k\":\"fndef\",\"fn\":{rec}")
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Closure(d, args) => {
                let c = args.as_closure();
                let ups: Vec<String> = c.upvar_tys().iter().map(|u| self.ty(u, root).to_string()).collect();
                let inst = Instance::new_raw(d, args);
                let id = self.inst(inst, root);
                format!("\"k\":\"closure\",\"path\":{},\"upvars\":{},\"inst\":{},\"kind\":{}", esc(&self.path(d)), list(ups), id, esc(&format!("{:?}", c.kind_ty())))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(p.name.as_str())),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[i] = format!("{{\"s\":{},{}}}", esc(&disp), body);
        i
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>, root: Option<DefId>) -> String {
        let mut v = Vec::new();
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t, root).to_string()),
                GenericArgKind::Const(c) => v.push(esc(&format!("{c}"))),
                _ => {}
            }
        }
        list(v)
    }

    fn inst(&mut self, inst: Instance<'tcx>, root: Option<DefId>) -> i64 {
        let tcx = self.tcx;
        let inst = tcx.erase_and_anonymize_regions(inst);
        let root = if inst.args.has_param() || inst.args.has_aliases() { root } else { None };
        if let Some(&i) = self.inst_ids.get(&(inst, root)) {
            return i as i64;
        }
        let def = inst.def_id();
        match inst.def {
            InstanceKind::Item(d) => {
                if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                    return -1;
                }
                if !tcx.is_mir_available(d) {
                    return -1;
                }
            }
            InstanceKind::Shim(ShimKind::Clone(..)) => {}
            _ => return -1,
        }
        let p = self.path(def);
        if !def.is_local() && self.stop.iter().any(|s| p.starts_with(s.as_str())) {
            self.cut.insert(p);
            return -1;
        }
        let i = self.insts.len();
        self.insts.push(String::new());
        self.inst_ids.insert((inst, root), i);
        self.queue.push_back((i, inst, root));
        i as i64
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, root: Option<DefId>) -> String {
        let tcx = self.tcx;
        let env = self.env(root);
        let mut o = format!("{{\"path\":{},\"args\":{}", esc(&self.path(d)), self.args(args, root));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{},\"name\":{}", esc(&self.path(tr)), esc(tcx.item_name(d).as_str()));
        } else if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(o, ",\"name\":{}", esc(tcx.item_name(d).as_str()));
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            // constructor used as a function
            let parent = tcx.parent(d);
            let (variant, adt) = match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let a = tcx.adt_def(tcx.parent(parent));
                    (a.variant_index_with_id(parent).as_u32(), a)
                }
                _ => (0, tcx.adt_def(parent)),
            };
            let t = Ty::new_adt(tcx, adt, args);
            let _ = write!(o, ",\"ctor\":{{\"ty\":{},\"variant\":{}}}", self.ty(t, root), variant);
        }
        let args_e = tcx.erase_and_anonymize_regions(args);
        let res = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) {
            Instance::try_resolve(tcx, env, d, args_e)
        } else {
            Ok(None)
        };
        match res {
            Ok(Some(inst)) => {
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::LlvmIntrinsic(_) => "llvm",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ShimKind::Clone(..)) => "clone",
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr",
                    InstanceKind::Shim(_) => "shim",
                };
                let rp = self.path(inst.def_id());
                let _ = write!(o, ",\"kind\":\"{kind}\",\"rpath\":{}", esc(&rp));
                let _ = write!(o, ",\"rargs\":{}", self.args(inst.args, root));
                if let Some(im) = tcx.impl_of_assoc(inst.def_id()) {
                    let st = tcx.type_of(im).instantiate(tcx, inst.args);
                    let st = tcx.try_normalize_erasing_regions(env, st).unwrap_or(st.skip_norm_wip());
                    let _ = write!(o, ",\"impl_self\":{}", self.ty(st, root));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let _ = write!(o, ",\"impl_trait\":{}", esc(&self.path(tr.skip_binder().def_id)));
                    }
                }
                let id = self.inst(inst, root);
                let _ = write!(o, ",\"inst\":{id}");
            }
            _ => {
                let _ = write!(o, ",\"kind\":\"unresolved\",\"inst\":-1");
            }
        }
        o.push('}');
        o
    }

    // ---- constants -------------------------------------------------------------------------
    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, root: Option<DefId>) -> String {
        let tcx = self.tcx;
        let env = self.env(root);
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            return format!("{{\"fn\":{}}}", self.callee(d, args, root));
        }
        match rustc_const_eval::const_eval::mk_eval_cx_for_const_val(tcx.at(rustc_span::DUMMY_SP), env, v, t) {
            Some((ecx, op)) => self.op_val(&ecx, &op, root, 0),
            None => "{\"opaque\":true}".into(),
        }
    }

    fn op_val(
        &mut self,
        ecx: &rustc_const_eval::const_eval::CompileTimeInterpCx<'tcx>,
        op: &rustc_const_eval::interpret::OpTy<'tcx>,
        root: Option<DefId>,
        depth: usize,
    ) -> String {
        let tcx = self.tcx;
        let t = op.layout.ty;
        let opaque = || "{\"opaque\":true}".to_string();
        if depth > 40 {
            return opaque();
        }
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let Some(s) = ecx.read_scalar(op).discard_err() else { return opaque() };
                let Ok(i) = s.try_to_scalar_int() else { return opaque() };
                if let ty::Int(_) = t.kind() {
                    format!("{}", i.to_int(i.size()))
                } else {
                    format!("{}", i.to_uint(i.size()))
                }
            }
            ty::Float(_) => opaque(),
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                format!("{{\"fn\":{}}}", self.callee(d, args, root))
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                if let ty::RawPtr(..) = t.kind() {
                    return opaque();
                }
                let Some(place) = ecx.deref_pointer(op).discard_err() else { return opaque() };
                match inner.kind() {
                    ty::Str => match ecx.read_str(&place).discard_err() {
                        Some(s) => format!("{{\"str\":{}}}", esc(s)),
                        None => opaque(),
                    },
                    ty::Dynamic(..) => opaque(),
                    _ => {
                        let op2 = place.into();
                        let v = self.op_val(ecx, &op2, root, depth + 1);
                        format!("{{\"ref\":{v}}}")
                    }
                }
            }
            ty::Array(..) | ty::Slice(_) => {
                let Some(n) = op.len(ecx).discard_err() else { return opaque() };
                if n > 5000 {
                    return opaque();
                }
                let mut v = Vec::new();
                for i in 0..n {
                    let Some(e) = ecx.project_index(op, i).discard_err() else { return opaque() };
                    v.push(self.op_val(ecx, &e, root, depth + 1));
                }
                format!("{{\"seq\":{}}}", list(v))
            }
            ty::Tuple(ts) => {
                let mut v = Vec::new();
                for i in 0..ts.len() {
                    let Some(e) = ecx.project_field(op, rustc_abi::FieldIdx::from_usize(i)).discard_err() else { return opaque() };
                    v.push(self.op_val(ecx, &e, root, depth + 1));
                }
                format!("{{\"tuple\":{}}}", list(v))
            }
            ty::Closure(_, args) => {
                let n = args.as_closure().upvar_tys().len();
                let mut v = Vec::new();
                for i in 0..n {
                    let Some(e) = ecx.project_field(op, rustc_abi::FieldIdx::from_usize(i)).discard_err() else { return opaque() };
                    v.push(self.op_val(ecx, &e, root, depth + 1));
                }
                format!("{{\"closure\":{},\"fields\":{}}}", self.ty(t, root), list(v))
            }
            ty::Adt(def, _) => {
                if def.is_union() {
                    return opaque();
                }
                let (vi, op2) = if def.is_enum() {
                    let Some(vi) = ecx.read_discriminant(op).discard_err() else { return opaque() };
                    let Some(o) = ecx.project_downcast(op, vi).discard_err() else { return opaque() };
                    (vi.as_u32(), o)
                } else {
                    (0, op.clone())
                };
                let nf = def.variant(rustc_abi::VariantIdx::from_u32(vi)).fields.len();
                let mut v = Vec::new();
                for i in 0..nf {
                    let Some(e) = ecx.project_field(&op2, rustc_abi::FieldIdx::from_usize(i)).discard_err() else { return opaque() };
                    v.push(self.op_val(ecx, &e, root, depth + 1));
                }
                let _ = tcx;
                format!("{{\"adt\":{},\"variant\":{},\"fields\":{}}}", self.ty(t, root), vi, list(v))
            }
            _ => opaque(),
        }
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>, root: Option<DefId>) -> String {
        let tcx = self.tcx;
        let env = self.env(root);
        let t = c.const_.ty();
        let tid = self.ty(t, root);
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            return format!("{{\"k\":{tid},\"fn\":{}}}", self.callee(d, args, root));
        }
        let mut name = String::new();
        let mut stat = String::new();
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                name = format!(",\"const\":{}", esc(&self.path(u.def)));
            }
        }
        // references to statics
        if let mir::Const::Val(ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), _) = c.const_ {
            if let Some(mir::interpret::GlobalAlloc::Static(sd)) = tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                stat = format!(",\"static\":{}", esc(&self.path(sd)));
            }
        }
        let v = if c.const_.has_param() {
            "{\"opaque\":true,\"generic\":true}".to_string()
        } else {
            match c.const_.eval(tcx, env, c.span) {
                Ok(v) => self.const_val(v, t, root),
                Err(_) => "{\"opaque\":true}".to_string(),
            }
        };
        format!("{{\"k\":{tid},\"v\":{v}{name}{stat}}}")
    }

    // ---- bodies ----------------------------------------------------------------------------
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        let f = f.rsplit("/repo/").next().unwrap_or(&f).to_string();
        format!("{}:{}", f, l.line)
    }

    fn place(&mut self, p: &Place<'tcx>, root: Option<DefId>) -> String {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_u32(), self.ty(t, root)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(_, vi) => format!("[\"d\",{}]", vi.as_u32()),
                _ => "\"?\"".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_u32(), list(v))
    }

    fn operand(&mut self, o: &Operand<'tcx>, root: Option<DefId>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p, root)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p, root)),
            Operand::Constant(c) => self.constant(c, root),
            _ => "{\"rt\":true}".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, root: Option<DefId>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(o, root)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{n}}}", self.operand(o, root))
            }
            Rvalue::Ref(_, bk, p) => format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", matches!(bk, mir::BorrowKind::Mut { .. }), self.place(p, root)),
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"rawptr\",\"p\":{}}}", self.place(p, root)),
            Rvalue::Cast(k, o, t) => format!(
                "{{\"r\":\"cast\",\"kind\":{},\"o\":{},\"ty\":{}}}",
                esc(&format!("{k:?}")),
                self.operand(o, root),
                self.ty(*t, root)
            ),
            Rvalue::BinaryOp(op, ab) => format!(
                "{{\"r\":\"bin\",\"op\":\"{op:?}\",\"a\":{},\"b\":{}}}",
                self.operand(&ab.0, root),
                self.operand(&ab.1, root)
            ),
            Rvalue::UnaryOp(op, o) => format!("{{\"r\":\"un\",\"op\":\"{op:?}\",\"o\":{}}}", self.operand(o, root)),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p, root)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"c\":{}}}}}", self.place(p, root)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, root)).collect();
                let kind = match **k {
                    mir::AggregateKind::Array(_) => "\"array\"".to_string(),
                    mir::AggregateKind::Tuple => "\"tuple\"".to_string(),
                    mir::AggregateKind::Adt(d, vi, args, _, _) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(d), args);
                        format!("{{\"adt\":{},\"variant\":{}}}", self.ty(t, root), vi.as_u32())
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, d, args);
                        format!("{{\"closure\":{}}}", self.ty(t, root))
                    }
                    mir::AggregateKind::RawPtr(..) => "\"rawptr\"".to_string(),
                    _ => "\"other\"".to_string(),
                };
                format!("{{\"r\":\"agg\",\"kind\":{kind},\"ops\":{}}}", list(os))
            }
            Rvalue::ThreadLocalRef(_) => "{\"r\":\"tls\"}".to_string(),
            _ => format!("{{\"r\":\"other\",\"dbg\":{}}}", esc(&format!("{r:?}"))),
        }
    }

    fn body(&mut self, id: usize, inst: Instance<'tcx>, root: Option<DefId>) {
        let tcx = self.tcx;
        let raw: &Body<'tcx> = tcx.instance_mir(inst.def);
        let env = self.env(root);
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env,
            ty::EarlyBinder::bind(tcx, raw.clone()),
        );
        let def = inst.def_id();
        let local = def.is_local();
        let mut o = format!(
            "{{\"id\":{id},\"path\":{},\"local\":{local},\"args\":{},\"argc\":{},\"span\":{}",
            esc(&self.path(def)),
            self.args(inst.args, root),
            body.arg_count,
            esc(&self.span(tcx.def_span(def)))
        );
        if let Some(im) = tcx.impl_of_assoc(def) {
            let st = tcx.type_of(im).instantiate(tcx, inst.args);
            let st = tcx.try_normalize_erasing_regions(env, st).unwrap_or(st.skip_norm_wip());
            let _ = write!(o, ",\"impl_self\":{},\"name\":{}", self.ty(st, root), esc(tcx.item_name(def).as_str()));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate(tcx, inst.args).skip_norm_wip();
                let _ = write!(o, ",\"trait\":{},\"trait_args\":{}", esc(&self.path(tr.def_id)), self.args(tr.args, root));
            }
        } else if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(o, ",\"name\":{}", esc(tcx.item_name(def).as_str()));
        }
        if let Some(sl) = body.spread_arg {
            let _ = write!(o, ",\"spread\":{}", sl.as_u32());
        }
        let locals: Vec<String> = body.local_decls.iter().map(|d| self.ty(d.ty, root).to_string()).collect();
        let _ = write!(o, ",\"locals\":{}", list(locals));
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_u32(), esc(v.name.as_str())));
                }
            }
        }
        let _ = write!(o, ",\"names\":{}", list(names));
        let mut blocks = Vec::new();
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut ss = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pl = self.place(p, root);
                        let rv = self.rvalue(r, root);
                        let sp = if local { esc(&self.span(s.source_info.span)) } else { "\"\"".into() };
                        ss.push(format!("[\"=\",{pl},{rv},{sp}]"));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[\"sd\",{},{}]", self.place(place, root), variant_index.as_u32()));
                    }
                    StatementKind::Intrinsic(i) => {
                        ss.push(format!("[\"intr\",{}]", esc(&format!("{i:?}"))));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = esc(&self.span(term.source_info.span));
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"b\":{}}}", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = Vec::new();
                    for (x, b) in targets.iter() {
                        v.push(format!("[{x},{}]", b.as_u32()));
                    }
                    let dty = discr.ty(&body.local_decls, tcx);
                    format!(
                        "{{\"t\":\"switch\",\"o\":{},\"ty\":{},\"cases\":{},\"else\":{},\"sp\":{sp}}}",
                        self.operand(discr, root),
                        self.ty(dty, root),
                        list(v),
                        targets.otherwise().as_u32()
                    )
                }
                TerminatorKind::Return => "{\"t\":\"ret\"}".to_string(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pty = place.ty(&body.local_decls, tcx).ty;
                    format!("{{\"t\":\"drop\",\"p\":{},\"ty\":{},\"b\":{}}}", self.place(place, root), self.ty(pty, root), target.as_u32())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, root);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, root)).collect();
                    let at: Vec<String> = args.iter().map(|x| {
                        let t = x.node.ty(&body.local_decls, tcx);
                        self.ty(t, root).to_string()
                    }).collect();
                    let d = self.place(destination, root);
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    format!(
                        "{{\"t\":\"call\",\"f\":{f},\"a\":{},\"at\":{},\"d\":{d},\"dt\":{},\"b\":{},\"sp\":{sp}}}",
                        list(a),
                        list(at),
                        self.ty(dt, root),
                        target.map(|t| t.as_u32() as i64).unwrap_or(-1)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let kind = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        mir::AssertKind::Overflow(op, ..) => format!("overflow {op:?}"),
                        mir::AssertKind::OverflowNeg(_) => "overflow neg".to_string(),
                        mir::AssertKind::DivisionByZero(_) => "div by zero".to_string(),
                        mir::AssertKind::RemainderByZero(_) => "rem by zero".to_string(),
                        _ => "other".to_string(),
                    };
                    format!(
                        "{{\"t\":\"assert\",\"o\":{},\"exp\":{expected},\"msg\":{},\"b\":{},\"sp\":{sp}}}",
                        self.operand(cond, root),
                        esc(&kind),
                        target.as_u32()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"t\":\"goto\",\"b\":{}}}", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"t\":\"goto\",\"b\":{}}}", real_target.as_u32()),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"t\":\"unwind\"}".to_string(),
                other => format!("{{\"t\":\"other\",\"dbg\":{}}}", esc(&format!("{other:?}"))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"cleanup\":{}}}", list(ss), t, bb.is_cleanup));
        }
        let _ = write!(o, ",\"blocks\":{}}}", list(blocks));
        self.insts[id] = o;
    }
}

struct Cb {
    out: String,
}

impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let stop: Vec<String> = std::env::var("MIRDUMP_STOP").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let mut d = Dump {
            tcx,
            types: vec![],
            type_ids: HashMap::new(),
            insts: vec![],
            inst_ids: HashMap::new(),
            queue: VecDeque::new(),
            stop,
            cut: HashSet::new(),
        };
        let iter_next: Option<DefId> = tcx
            .get_diagnostic_item(rustc_span::sym::Iterator)
            .and_then(|t| tcx.associated_items(t).in_definition_order().find(|i| i.name().as_str() == "next").map(|i| i.def_id));
        let mut items = Vec::new();
        let mut consts = Vec::new();
        let mut statics = Vec::new();
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_span(k.to_def_id()).lo());
        for ld in keys {
            let def = ld.to_def_id();
            let kind = tcx.def_kind(def);
            match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    let args = ty::GenericArgs::identity_for_item(tcx, def);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let inst = Instance::new_raw(def, args);
                    let root = Some(def);
                    let id = d.inst(inst, root);
                    let mut o = format!("{{\"path\":{},\"inst\":{id},\"vis\":{}", esc(&d.path(def)), esc(&format!("{:?}", tcx.visibility(def))));
                    let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
                    let sig = tcx.erase_and_anonymize_regions(tcx.instantiate_bound_regions_with_erased(sig));
                    let _ = write!(o, ",\"unsafe\":{}", sig.safety().is_unsafe());
                    if let ty::Alias(..) = sig.output().kind() {
                        let t = tcx.normalize_erasing_regions(d.env(root), ty::Unnormalized::new_wip(sig.output()));
                        if let Some(nx) = iter_next {
                            let a = tcx.mk_args(&[t.into()]);
                            if let Ok(Some(ni)) = Instance::try_resolve(tcx, d.env(root), nx, a) {
                                let nid = d.inst(ni, root);
                                let _ = write!(o, ",\"iter_next\":{nid},\"iter_ty\":{}", d.ty(t, root));
                            }
                        }
                    }
                    o.push('}');
                    items.push(o);
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    if t.has_param() || tcx.generics_of(def).requires_monomorphization(tcx) {
                        continue;
                    }
                    let mut parent_trait = false;
                    if let Some(p) = tcx.opt_parent(def) {
                        parent_trait = matches!(tcx.def_kind(p), DefKind::Trait);
                    }
                    if parent_trait {
                        continue;
                    }
                    let v = match tcx.const_eval_poly(def) {
                        Ok(v) => d.const_val(v, t, None),
                        Err(_) => "{\"opaque\":true}".to_string(),
                    };
                    let owner = match tcx.impl_of_assoc(def) {
                        Some(im) => {
                            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                            d.ty(st, None) as i64
                        }
                        None => -1,
                    };
                    consts.push(format!(
                        "{{\"path\":{},\"name\":{},\"ty\":{},\"owner\":{owner},\"span\":{},\"vis\":{},\"v\":{v}}}",
                        esc(&d.path(def)),
                        esc(tcx.item_name(def).as_str()),
                        d.ty(t, None),
                        esc(&d.span(tcx.def_span(def))),
                        esc(&format!("{:?}", tcx.visibility(def)))
                    ));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let fr = t.is_freeze(tcx, d.env(None));
                    statics.push(format!(
                        "{{\"path\":{},\"mut\":{},\"freeze\":{fr},\"span\":{},\"ty\":{}}}",
                        esc(&d.path(def)),
                        mutability.is_mut(),
                        esc(&d.span(tcx.def_span(def))),
                        d.ty(t, None)
                    ));
                }
                _ => {}
            }
        }
        // how foreign types that a trait of this crate is implemented for are read from text
        let from_str: Option<(DefId, DefId)> = tcx.visible_traits().find(|t| tcx.crate_name(t.krate).as_str() == "core" && tcx.item_name(*t).as_str() == "FromStr").and_then(|t| {
            tcx.associated_items(t).in_definition_order().find(|i| i.name().as_str() == "from_str").map(|i| (t, i.def_id))
        });
        let mut readers = Vec::new();
        for ld in tcx.hir_crate_items(()).definitions() {
            let def = ld.to_def_id();
            if !matches!(tcx.def_kind(def), DefKind::Impl { of_trait: true }) {
                continue;
            }
            let st = tcx.type_of(def).instantiate_identity().skip_norm_wip();
            let (Some(ad), Some((_, fs))) = (st.ty_adt_def(), from_str) else { continue };
            if ad.did().is_local() || st.has_param() || !tcx.impl_trait_ref(def).instantiate_identity().skip_norm_wip().def_id.is_local() {
                continue;
            }
            let st = tcx.erase_and_anonymize_regions(st);
            let a = tcx.mk_args(&[st.into()]);
            if let Ok(Some(ni)) = Instance::try_resolve(tcx, d.env(None), fs, a) {
                let nid = d.inst(ni, None);
                readers.push(format!("{{\"ty\":{},\"inst\":{nid}}}", d.ty(st, None)));
            }
        }
        // every type defined here, with its auto traits left to the type-level checks
        let mut n = 0;
        while let Some((id, inst, root)) = d.queue.pop_front() {
            d.body(id, inst, root);
            n += 1;
            if n > 20000 {
                break;
            }
        }
        // unsafe blocks in the crate (HIR)
        let mut unsafes = Vec::new();
        {
            use rustc_hir::intravisit::{self, Visitor};
            struct V<'tcx> {
                tcx: TyCtxt<'tcx>,
                out: Vec<Span>,
            }
            impl<'tcx> Visitor<'tcx> for V<'tcx> {
                type NestedFilter = rustc_middle::hir::nested_filter::All;
                fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                    self.tcx
                }
                fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                    if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                        self.out.push(b.span);
                    }
                    intravisit::walk_block(self, b);
                }
            }
            let mut v = V { tcx, out: vec![] };
            tcx.hir_walk_toplevel_module(&mut v);
            for ld in tcx.hir_crate_items(()).definitions() {
                let def = ld.to_def_id();
                match tcx.def_kind(def) {
                    DefKind::Impl { of_trait: true } if tcx.impl_trait_header(def).safety.is_unsafe() && !tcx.is_automatically_derived(def) => v.out.push(tcx.def_span(def)),
                    DefKind::ForeignMod => v.out.push(tcx.def_span(def)),
                    _ => {}
                }
            }
            for s in v.out {
                unsafes.push(esc(&d.span(s)));
            }
        }
        let mut cut: Vec<String> = d.cut.iter().map(|s| esc(s)).collect();
        cut.sort();
        let out = format!(
            "{{\"crate\":{},\"items\":{},\"consts\":{},\"statics\":{},\"unsafe_blocks\":{},\"types\":{},\"insts\":{},\"cut\":{},\"readers\":{}}}",
            esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            list(items),
            list(consts),
            list(statics),
            list(unsafes),
            list(d.types.clone()),
            list(d.insts.iter().map(|s| if s.is_empty() { "null".to_string() } else { s.clone() })),
            list(cut),
            list(readers)
        );
        std::fs::write(&self.out, out).expect("write dump");
        Compilation::Continue
    }
}

struct NoCb;
impl rustc_driver_impl::Callbacks for NoCb {}

fn main() {
    // RUSTC_WRAPPER protocol: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let wanted: Vec<String> = std::env::var("MIRDUMP_CRATES").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let out_dir = std::env::var("MIRDUMP_OUT").unwrap_or_else(|_| ".".into());
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let is_build = name.as_deref() == Some("build_script_build");
    let dump = !is_build && name.as_ref().map_or(false, |n| wanted.contains(n));
    if dump {
        let mut cb = Cb { out: format!("{}/{}.json", out_dir, name.unwrap()) };
        rustc_driver_impl::compiler_entrypoint(&args, &mut cb);
    } else {
        rustc_driver_impl::compiler_entrypoint(&args, &mut NoCb);
    }
}
