#![feature(rustc_private)]
// MIR exporter: a rustc driver injected through RUSTC_WORKSPACE_WRAPPER.  For every workspace
// crate it serialises the analysis-phase MIR (after promotion, before drop elaboration) of every
// body, with resolved callees, evaluated constants, and the ADTs and impls it mentions, as JSON.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_data_structures;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_crate_prefix};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap};

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(with_crate_prefix!(self.tcx.def_path_str(d)))
            .replace("crate::", &format!("{}::", self.tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE)))
    }
    // canonical path from DefPath: independent of re-exports
    fn dpath(&self, d: DefId) -> String {
        let dp = self.tcx.def_path(d);
        let mut s = self.tcx.crate_name(d.krate).to_string();
        for e in dp.data.iter() {
            s.push_str("::");
            s.push_str(&e.as_sym(true).to_string());
        }
        s
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp2 = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp2.lo());
        J::s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let idx = self.types.len();
        self.types.push(J::Null);
        self.tmap.insert(t, idx);
        let s = with_no_trimmed_paths!(with_crate_prefix!(format!("{}", t)));
        let mut o = vec![("s", J::s(s))];
        match *t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(i) => {
                o.push(("k", J::s("int")));
                o.push(("w", J::n(i.bit_width().unwrap_or(64) as usize)));
            }
            ty::Uint(i) => {
                o.push(("k", J::s("uint")));
                o.push(("w", J::n(i.bit_width().unwrap_or(64) as usize)));
            }
            ty::Float(_) => o.push(("k", J::s("float"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Adt(def, args) => {
                let p = self.dpath(def.did());
                self.adt(def);
                o.push(("k", J::s("adt")));
                o.push(("p", J::s(p)));
                let a: Vec<J> = args.types().map(|t| J::n(self.ty(t))).collect();
                o.push(("a", J::A(a)));
            }
            ty::Array(e, n) => {
                o.push(("k", J::s("array")));
                o.push(("a", J::A(vec![J::n(self.ty(e))])));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("n", J::I(n as i128)));
                } else {
                    o.push(("np", J::s(format!("{:?}", n))));
                }
            }
            ty::Slice(e) => {
                o.push(("k", J::s("slice")));
                o.push(("a", J::A(vec![J::n(self.ty(e))])));
            }
            ty::RawPtr(e, m) | ty::Ref(_, e, m) => {
                o.push(("k", J::s(if t.is_ref() { "ref" } else { "ptr" })));
                o.push(("a", J::A(vec![J::n(self.ty(e))])));
                o.push(("m", J::B(m.is_mut())));
            }
            ty::Tuple(l) => {
                o.push(("k", J::s("tuple")));
                let a: Vec<J> = l.iter().map(|t| J::n(self.ty(t))).collect();
                o.push(("a", J::A(a)));
            }
            ty::FnDef(d, _) => {
                o.push(("k", J::s("fndef")));
                o.push(("p", J::s(self.dpath(d.into()))));
            }
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                o.push(("p", J::s(self.dpath(d.into()))));
                let a: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| J::n(self.ty(t))).collect();
                o.push(("a", J::A(a)));
            }
            ty::Coroutine(d, _) => {
                o.push(("k", J::s("coroutine")));
                o.push(("p", J::s(self.dpath(d.into()))));
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("p", J::s(p.name.to_string())));
            }
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.types[idx] = J::O(o);
        idx
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let p = self.dpath(def.did());
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), J::Null);
        let mut vs = vec![];
        let tcx = self.tcx;
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val } else { 0 };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let mut o = vec![("n", J::s(f.name.to_string())), ("pub", J::B(f.vis.is_public()))];
                if def.did().is_local() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    o.push(("ty", J::n(self.ty(t))));
                }
                fs.push(J::O(o));
            }
            vs.push(J::O(vec![
                ("n", J::s(v.name.to_string())),
                ("d", J::I(discr as i128)),
                ("f", J::A(fs)),
            ]));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let o = J::O(vec![
            ("kind", J::s(kind)),
            ("local", J::B(def.did().is_local())),
            ("vis", J::B(tcx.visibility(def.did()).is_public())),
            ("span", if def.did().is_local() { self.span(tcx.def_span(def.did())) } else { J::Null }),
            ("v", J::A(vs)),
        ]);
        self.adts.insert(p, o);
    }
    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        J::A(args
            .iter()
            .filter_map(|a| {
                if let Some(t) = a.as_type() {
                    Some(J::n(self.ty(t)))
                } else if let Some(c) = a.as_const() {
                    Some(J::s(format!("{:?}", c)))
                } else {
                    None
                }
            })
            .collect())
    }
    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("def", J::s(self.dpath(d))),
            ("name", J::s(self.path(d))),
            ("args", self.args(args)),
            ("crate", J::s(tcx.crate_name(d.krate).to_string())),
        ];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(self.dpath(tr))));
            o.push(("item", J::s(tcx.item_name(d).to_string())));
            if args.len() > 0 {
                if let Some(t) = args.iter().filter_map(|a| a.as_type()).next() {
                    o.push(("self", J::n(self.ty(t))));
                }
            }
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            o.push(("self", J::n(self.ty(st))));
            o.push(("item", J::s(tcx.item_name(d).to_string())));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let args_e = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args_e) {
                let rd = inst.def_id();
                if rd != d {
                    o.push(("res", J::s(self.dpath(rd))));
                    o.push(("resname", J::s(self.path(rd))));
                    o.push(("resargs", self.args(inst.args)));
                    if let Some(im) = tcx.impl_of_assoc(rd) {
                        let st = tcx.type_of(im).instantiate(tcx, inst.args).skip_norm_wip();
                        o.push(("resself", J::n(self.ty(st))));
                    }
                }
                if let ty::InstanceKind::Item(_) = inst.def {} else {
                    o.push(("shim", J::B(true)));
                }
            }
        }
        J::O(o)
    }
    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: Option<u64>) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let off = off as usize;
                let end = match len {
                    Some(l) => off + l as usize,
                    None => a.len(),
                };
                if end > a.len() || off > end {
                    return None;
                }
                if a.provenance().ptrs().iter().next().is_some() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..end).to_vec())
            }
            _ => None,
        }
    }
    fn bytes_json(b: &[u8]) -> J {
        J::s(b.iter().map(|x| format!("{:02x}", x)).collect::<String>())
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("ty", J::n(self.ty(t)))];
        if let ty::FnDef(d, args) = *t.kind() {
            o.push(("fn", self.fnref(d.into(), args.skip_binder(), env)));
            return J::O(o);
        }
        let mut do_eval = true;
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("def", J::s(self.dpath(u.def))));
            o.push(("dargs", self.args(u.args)));
            if let Some(p) = u.promoted {
                o.push(("promoted", J::n(p.as_usize())));
                do_eval = false;
            }
        }
        if let Const::Ty(_, cc) = c.const_ {
            o.push(("tyconst", J::s(format!("{:?}", cc))));
        }
        if do_eval {
            let generic = match c.const_ {
                Const::Unevaluated(u, _) => u.args.iter().any(|a| a.as_type().map_or(false, |t| rustc_middle::ty::TypeVisitableExt::has_param(&t))),
                _ => false,
            };
            if !generic {
                if let Ok(v) = c.const_.eval(tcx, env, rustc_span::DUMMY_SP) {
                    match v {
                        ConstValue::Scalar(s) => {
                            match s {
                                rustc_middle::mir::interpret::Scalar::Int(i) => {
                                    let bits = i.to_bits(i.size());
                                    let val = match t.kind() {
                                        ty::Int(_) => {
                                            let sz = i.size().bits();
                                            let sh = 128 - sz;
                                            ((bits << sh) as i128) >> sh
                                        }
                                        _ => bits as i128,
                                    };
                                    if matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char) {
                                        o.push(("int", J::I(val)));
                                    } else {
                                        o.push(("bits", J::s(format!("{}:{}", i.size().bytes(), bits))));
                                    }
                                }
                                rustc_middle::mir::interpret::Scalar::Ptr(p, _) => {
                                    let (prov, off) = p.prov_and_relative_offset();
                                    if let Some(b) = self.alloc_bytes(prov.alloc_id(), off.bytes(), None) {
                                        o.push(("bytes", Self::bytes_json(&b)));
                                    } else if let Some(GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                                        o.push(("static", J::s(self.dpath(d))));
                                    }
                                }
                            }
                        }
                        ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                        ConstValue::Slice { alloc_id, meta } => {
                            // str / byte slices; element size 1 only
                            let elem1 = match t.kind() {
                                ty::Ref(_, e, _) => matches!(e.kind(), ty::Str) || matches!(e.kind(), ty::Slice(x) if *x == tcx.types.u8),
                                _ => false,
                            };
                            if elem1 {
                                if let Some(b) = self.alloc_bytes(alloc_id, 0, Some(meta)) {
                                    o.push(("bytes", Self::bytes_json(&b)));
                                }
                            }
                        }
                        ConstValue::Indirect { alloc_id, offset } => {
                            if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
                                if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes(), Some(l.size.bytes())) {
                                    o.push(("mem", Self::bytes_json(&b)));
                                }
                            }
                        }
                    }
                }
            }
        }
        J::O(o)
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::n(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                PlaceElem::Deref => J::s("*"),
                PlaceElem::Field(f, t) => J::A(vec![J::s("f"), J::n(f.as_usize()), J::n(self.ty(t))]),
                PlaceElem::Index(l) => J::A(vec![J::s("i"), J::n(l.as_usize())]),
                PlaceElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("ci"),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end),
                ]),
                PlaceElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                PlaceElem::Downcast(_, v) => J::A(vec![J::s("v"), J::n(v.as_usize())]),
                PlaceElem::OpaqueCast(_) => J::A(vec![J::s("oc")]),
                PlaceElem::UnwrapUnsafeBinder(_) => J::A(vec![J::s("oc")]),
                PlaceElem::PhantomDeref => J::A(vec![J::s("pd")]),
            });
        }
        J::A(v)
    }
    fn operand(&mut self, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("c", self.place(p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(p))]),
            Operand::Constant(c) => J::O(vec![("k", self.constant(c, env))]),
            _ => J::O(vec![("rc", J::B(true))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![J::s("use"), self.operand(o, env)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or_else(|| J::s(format!("{:?}", n)));
                J::A(vec![J::s("repeat"), self.operand(o, env), n])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = match bk {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shared",
                    _ => "fake",
                };
                J::A(vec![J::s("ref"), J::s(m), self.place(p)])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::s(self.dpath(*d))]),
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("ref"), J::s("raw"), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let t = self.ty(*t);
                J::A(vec![J::s("cast"), J::s(ks), self.operand(o, env), J::n(t)])
            }
            Rvalue::BinaryOp(b, bx) => {
                let l = self.operand(&bx.0, env);
                let r = self.operand(&bx.1, env);
                J::A(vec![J::s("bin"), J::s(format!("{:?}", b)), l, r])
            }
            Rvalue::UnaryOp(u, o) => J::A(vec![J::s("un"), J::s(format!("{:?}", u)), self.operand(o, env)]),
            Rvalue::Discriminant(p) => J::A(vec![J::s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o, env)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => J::A(vec![J::s("array"), J::n(self.ty(*t))]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let a = self.args(args);
                        J::A(vec![J::s("adt"), J::s(self.dpath(*d)), J::n(v.as_usize()), a])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![J::s("closure"), J::s(self.dpath(*d))]),
                    AggregateKind::Coroutine(d, _) => J::A(vec![J::s("coroutine"), J::s(self.dpath(*d))]),
                    AggregateKind::CoroutineClosure(d, _) => J::A(vec![J::s("coroutineclosure"), J::s(self.dpath(*d))]),
                    AggregateKind::RawPtr(..) => J::A(vec![J::s("rawptr")]),
                };
                J::A(vec![J::s("agg"), kk, J::A(ops)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("use"), J::O(vec![("c", self.place(p))])]),
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![J::s("ref"), J::s(if m.is_mut() { "mut" } else { "shared" }), self.place(p)])
            }
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![J::s("use"), self.operand(o, env)]),
        }
    }
    fn body(&mut self, path: String, kind: &str, did: LocalDefId, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, did.to_def_id());
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upv: Vec<J> = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    upv.push(J::A(vec![J::s(v.name.to_string()), self.place(p)]));
                }
            }
        }
        let locals: Vec<J> = b
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let mut o = vec![("ty", J::n(self.ty(d.ty)))];
                if let Some(n) = names.get(&l.as_usize()) {
                    o.push(("n", J::s(n.clone())));
                }
                J::O(o)
            })
            .collect();
        let mut blocks = vec![];
        for (_bb, data) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in data.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(bx) => {
                        let p = self.place(&bx.0);
                        let r = self.rvalue(&bx.1, env);
                        st.push(J::A(vec![J::s("="), p, r, self.span(s.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![J::s("sd"), p, J::n(variant_index.as_usize())]));
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let sp = self.span(t.source_info.span);
            let bbn = |b: BasicBlock| J::n(b.as_usize());
            let obb = |b: Option<BasicBlock>| b.map(|b| J::n(b.as_usize())).unwrap_or(J::Null);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), bbn(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr, env);
                    let dt = self.ty(discr.ty(b, tcx));
                    let tg: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), bbn(b)])).collect();
                    J::A(vec![J::s("switch"), o, J::A(tg), bbn(targets.otherwise()), J::n(dt)])
                }
                TerminatorKind::Return => J::A(vec![J::s("return")]),
                TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    J::A(vec![J::s("drop"), p, bbn(*target)])
                }
                TerminatorKind::Call { func, args, destination, target, call_source, .. } => {
                    let f = self.operand(func, env);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let at: Vec<J> = args.iter().map(|x| { let t = x.node.ty(b, tcx); J::n(self.ty(t)) }).collect();
                    let d = self.place(destination);
                    let dt = { let t = destination.ty(b, tcx).ty; self.ty(t) };
                    J::A(vec![
                        J::s("call"), f, J::A(a), d, obb(*target), sp, J::A(at), J::n(dt),
                        J::s(format!("{:?}", call_source)),
                    ])
                }
                TerminatorKind::TailCall { .. } => J::A(vec![J::s("tailcall")]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, env);
                    let (k, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(len, env), self.operand(index, env)])
                        }
                        AssertKind::Overflow(op, l, r) => {
                            (format!("overflow:{:?}", op), vec![self.operand(l, env), self.operand(r, env)])
                        }
                        AssertKind::OverflowNeg(o) => ("overflow:neg".into(), vec![self.operand(o, env)]),
                        AssertKind::DivisionByZero(o) => ("div0".into(), vec![self.operand(o, env)]),
                        AssertKind::RemainderByZero(o) => ("rem0".into(), vec![self.operand(o, env)]),
                        _ => ("other".into(), vec![]),
                    };
                    J::A(vec![J::s("assert"), c, J::B(*expected), J::s(k), J::A(ops), bbn(*target), sp])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let v = self.operand(value, env);
                    let ra = self.place(resume_arg);
                    J::A(vec![J::s("yield"), v, bbn(*resume), ra])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![J::s("goto"), bbn(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![J::s("goto"), bbn(*real_target)]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => {
                    J::A(vec![J::s("unreachable")])
                }
                TerminatorKind::InlineAsm { .. } => J::A(vec![J::s("asm")]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", term),
                ("cl", J::B(data.is_cleanup)),
                ("sp", self.span(t.source_info.span)),
            ]));
        }
        let ret = self.ty(b.return_ty());
        let ds = tcx.def_span(did.to_def_id());
        let mut o = vec![
            ("path", J::s(path)),
            ("kind", J::s(kind)),
            ("span", self.span(ds)),
            ("argc", J::n(b.arg_count)),
            ("ret", J::n(ret)),
            ("locals", J::A(locals)),
            ("upvars", J::A(upv)),
            ("blocks", J::A(blocks)),
        ];
        if let Some(sa) = b.spread_arg {
            o.push(("spread", J::n(sa.as_usize())));
        }
        let dk = tcx.def_kind(did.to_def_id());
        o.push(("dk", J::s(format!("{:?}", dk))));
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            o.push(("pub", J::B(tcx.visibility(did.to_def_id()).is_public())));
            o.push(("async", J::B(tcx.asyncness(did.to_def_id()).is_async())));
            o.push(("name", J::s(self.path(did.to_def_id()))));
            let g = tcx.generics_of(did.to_def_id());
            let mut gp = vec![];
            fn coll<'tcx>(tcx: TyCtxt<'tcx>, g: &'tcx ty::Generics, out: &mut Vec<J>) {
                if let Some(p) = g.parent {
                    coll(tcx, tcx.generics_of(p), out);
                }
                for p in g.own_params.iter() {
                    match p.kind {
                        ty::GenericParamDefKind::Lifetime => {}
                        _ => out.push(J::s(p.name.to_string())),
                    }
                }
            }
            coll(tcx, g, &mut gp);
            o.push(("generics", J::A(gp)));
            if let Some(im) = tcx.impl_of_assoc(did.to_def_id()) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("implself", J::n(self.ty(st))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("impltrait", J::s(self.dpath(tr.def_id))));
                    o.push(("implargs", self.args(tr.args)));
                }
                let derived = tcx.is_automatically_derived(im);
                o.push(("derived", J::B(derived)));
            }
        } else {
            let par = tcx.opt_parent(did.to_def_id());
            if let Some(p) = par {
                o.push(("parent", J::s(self.dpath(p))));
            }
        }
        J::O(o)
    }
}

type MirPromoted = for<'tcx> fn(
    TyCtxt<'tcx>,
    LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted, Body<'tcx>>>,
);
static DEFAULT: std::sync::OnceLock<MirPromoted> = std::sync::OnceLock::new();
thread_local! {
    static CAPTURED: std::cell::RefCell<HashMap<LocalDefId, (Body<'static>, Vec<Body<'static>>)>> =
        std::cell::RefCell::new(HashMap::new());
}
fn my_mir_promoted<'tcx>(
    tcx: TyCtxt<'tcx>,
    did: LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted, Body<'tcx>>>,
) {
    let r = (DEFAULT.get().unwrap())(tcx, did);
    let b: Body<'tcx> = r.0.borrow().clone();
    let p: Vec<Body<'tcx>> = r.1.borrow().iter().cloned().collect();
    // SAFETY: only used again under the same compilation session (see `after_expansion`).
    let st: (Body<'static>, Vec<Body<'static>>) = unsafe { std::mem::transmute((b, p)) };
    CAPTURED.with(|c| c.borrow_mut().insert(did, st));
    r
}

struct Dump {
    out: String,
}
impl Callbacks for Dump {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_sess, providers| {
            let _ = DEFAULT.set(providers.queries.mir_promoted);
            providers.queries.mir_promoted = my_mir_promoted;
        });
    }
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new(), adts: BTreeMap::new() };
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        let mut bodies: Vec<(LocalDefId, Body<'tcx>, Vec<Body<'tcx>>)> = vec![];
        for did in owners {
            let dk = tcx.def_kind(did.to_def_id());
            if !matches!(
                dk,
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }
            ) {
                continue;
            }
            let _ = tcx.mir_promoted(did);
            let got = CAPTURED.with(|c| c.borrow_mut().remove(&did));
            // SAFETY: captured while this very `tcx` was computing the query.
            let (b, p): (Body<'tcx>, Vec<Body<'tcx>>) =
                unsafe { std::mem::transmute(got.expect("mir_promoted captured")) };
            bodies.push((did, b, p));
        }
        let mut jb = vec![];
        for (did, b, p) in bodies.iter() {
            let dk = tcx.def_kind(did.to_def_id());
            let path = cx.dpath(did.to_def_id());
            let kind = match dk {
                DefKind::Closure => {
                    if tcx.is_coroutine(did.to_def_id()) {
                        "coroutine"
                    } else {
                        "closure"
                    }
                }
                DefKind::Fn | DefKind::AssocFn => "fn",
                DefKind::Static { .. } => "static",
                _ => "const",
            };
            let j = cx.body(path.clone(), kind, *did, b);
            jb.push(j);
            for (i, pb) in p.iter().enumerate() {
                let j = cx.body(format!("{}::promoted[{}]", path, i), "promoted", *did, pb);
                jb.push(j);
            }
        }
        // local ADTs, even when unused in bodies; impls
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).free_items() {
            let d = id.owner_id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    let def = tcx.adt_def(d);
                    cx.adt(def);
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut o = vec![("path", J::s(cx.dpath(d))), ("self", J::n(cx.ty(st)))];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        o.push(("trait", J::s(cx.dpath(tr.def_id))));
                        o.push(("derived", J::B(tcx.is_automatically_derived(d))));
                    }
                    let items: Vec<J> =
                        tcx.associated_item_def_ids(d).iter().map(|x| J::s(cx.dpath(*x))).collect();
                    o.push(("items", J::A(items)));
                    impls.push(J::O(o));
                }
                _ => {}
            }
        }
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let adts = J::A(cx.adts.into_iter().map(|(k, v)| J::A(vec![J::s(k), v])).collect());
        let j = J::O(vec![
            ("crate", J::s(name.clone())),
            ("bodies", J::A(jb)),
            ("adts", adts),
            ("impls", J::A(impls)),
            ("types", J::A(cx.types)),
        ]);
        let mut s = String::new();
        j.write(&mut s);
        std::fs::write(format!("{}/{}.json", self.out, name), s).expect("write mir json");
        Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").ok();
    let crate_name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone());
    let is_test = args.iter().any(|a| a == "--test");
    let build_script = crate_name.as_deref().map_or(true, |c| c.starts_with("build_script") || c == "___");
    match out {
        Some(o) if !is_test && !build_script => {
            rustc_driver::compiler_entrypoint(&args, &mut Dump { out: o });
        }
        _ => {
            struct N;
            impl Callbacks for N {}
            rustc_driver::compiler_entrypoint(&args, &mut N);
        }
    }
}
