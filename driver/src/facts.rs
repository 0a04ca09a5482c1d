use crate::json::q;
use rustc_abi::VariantIdx;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, print::with_no_trimmed_paths, Ty, TyCtxt, TyKind};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Default)]
pub struct Fx {
    coro: HashMap<LocalDefId, Body<'static>>,
}

impl Fx {
    pub fn collect<'tcx>(&mut self, tcx: TyCtxt<'tcx>) {
        for did in tcx.hir_body_owners() {
            if tcx.is_coroutine(did.to_def_id()) {
                let b = tcx.mir_promoted(did).0.borrow().clone();
                // SAFETY: only used while the same global context is alive (after_analysis).
                let b: Body<'static> = unsafe { std::mem::transmute(b) };
                self.coro.insert(did, b);
            }
        }
    }

    pub fn finish<'tcx>(&mut self, tcx: TyCtxt<'tcx>) -> String {
        let coro: HashMap<LocalDefId, Body<'tcx>> = unsafe { std::mem::transmute(std::mem::take(&mut self.coro)) };
        with_no_trimmed_paths!({
            let mut d = D { tcx, types: vec![], tymap: HashMap::new(), adts: BTreeMap::new(), adtseen: HashSet::new(), env: None };
            d.run(coro)
        })
    }
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
    adtseen: HashSet<DefId>,
    env: Option<ty::TypingEnv<'tcx>>,
}

fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

impl<'tcx> D<'tcx> {
    fn id(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn tyname(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Adt(a, args) => {
                let n = self.name(a.did());
                let ts: Vec<String> = args.types().map(|t| self.tyname(t)).collect();
                if ts.is_empty() { n } else { format!("{}<{}>", n, ts.join(", ")) }
            }
            TyKind::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.tyname(*t)),
            TyKind::RawPtr(t, m) => format!("*{}{}", if m.is_mut() { "mut " } else { "const " }, self.tyname(*t)),
            TyKind::Slice(t) => format!("[{}]", self.tyname(*t)),
            TyKind::Array(t, n) => format!("[{}; {}]", self.tyname(*t), n),
            TyKind::Tuple(ts) => format!("({})", ts.iter().map(|t| self.tyname(t)).collect::<Vec<_>>().join(", ")),
            TyKind::Closure(d, _) => format!("{{closure {}}}", self.id(*d)),
            TyKind::Coroutine(d, _) => format!("{{coroutine {}}}", self.id(*d)),
            TyKind::FnDef(d, _) => format!("{{fn {}}}", self.name(*d)),
            TyKind::Dynamic(p, ..) => {
                let v: Vec<String> = p.iter().filter_map(|p| match p.skip_binder() {
                    ty::ExistentialPredicate::Trait(t) => Some(self.id(t.def_id)),
                    ty::ExistentialPredicate::AutoTrait(d) => Some(self.id(d)),
                    _ => None,
                }).collect();
                format!("dyn {}", v.join(" + "))
            }
            _ => format!("{}", t),
        }
    }

    /// Human/matching name, built from definition paths (never from re-exports).
    fn name(&self, d: DefId) -> String {
        let tcx = self.tcx;
        if tcx.is_closure_like(d) {
            let p = tcx.parent(d);
            let last = tcx.def_path(d).data.last().map(|x| x.as_sym(true).to_string()).unwrap_or_default();
            return format!("{}::{}", self.name(p), last);
        }
        if let Some(p) = tcx.opt_parent(d) {
            if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let sn = match st.kind() {
                    TyKind::Adt(a, _) => self.id(a.did()),
                    _ => format!("{}", self.tyname(st)),
                };
                let it = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_else(|| "_".into());
                return match tcx.impl_opt_trait_ref(p) {
                    Some(tr) => format!("<{} as {}>::{}", sn, self.id(tr.skip_binder().def_id), it),
                    None => format!("{}::{}", sn, it),
                };
            }
        }
        self.id(d)
    }

    fn adt(&mut self, a: ty::AdtDef<'tcx>) {
        if !self.adtseen.insert(a.did()) {
            return;
        }
        let tcx = self.tcx;
        let mut vs = vec![];
        let discrs: HashMap<VariantIdx, u128> = if a.is_enum() { a.discriminants(tcx).map(|(i, d)| (i, d.val)).collect() } else { HashMap::new() };
        for (i, v) in a.variants().iter_enumerated() {
            let fs: Vec<String> = v.fields.iter().map(|f| {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let ti = if a.did().is_local() { self.ty(t) } else { usize::MAX };
                if ti == usize::MAX { format!("[{}]", q(f.name.as_str())) } else { format!("[{},{},{}]", q(f.name.as_str()), ti, tcx.visibility(f.did).is_public()) }
            }).collect();
            vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", q(v.name.as_str()), discrs.get(&i).map(|d| d.to_string()).unwrap_or("null".into()), arr(&fs)));
        }
        let k = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
        let dt = match tcx.adt_destructor(a.did()) { Some(x) => q(&self.id(x.did)), None => "null".into() };
        let s = format!("{{\"k\":\"{}\",\"local\":{},\"pub\":{},\"dtor\":{},\"v\":{}}}", k, a.did().is_local(), tcx.visibility(a.did()).is_public(), dt, arr(&vs));
        self.adts.insert(self.id(a.did()), s);
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, i);
        let s = self.tyname(t);
        let body = match t.kind() {
            TyKind::Adt(a, args) => {
                self.adt(*a);
                let ts: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"adt\",\"p\":{},\"a\":{}", q(&self.id(a.did())), arr(&ts))
            }
            TyKind::Ref(_, x, m) => format!("\"k\":\"ref\",\"m\":{},\"t\":{}", m.is_mut(), self.ty(*x)),
            TyKind::RawPtr(x, _) => format!("\"k\":\"ptr\",\"t\":{}", self.ty(*x)),
            TyKind::Slice(x) => format!("\"k\":\"slice\",\"t\":{}", self.ty(*x)),
            TyKind::Array(x, _) => format!("\"k\":\"array\",\"t\":{}", self.ty(*x)),
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":{}", arr(&v))
            }
            TyKind::Closure(d, a) => {
                let u: Vec<String> = a.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"closure\",\"d\":{},\"u\":{}", q(&self.id(*d)), arr(&u))
            }
            TyKind::Coroutine(d, a) => {
                let u: Vec<String> = a.as_coroutine().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"coroutine\",\"d\":{},\"u\":{}", q(&self.id(*d)), arr(&u))
            }
            TyKind::FnDef(d, a) => {
                let f = self.fndef(*d, a.skip_binder());
                format!("\"k\":\"fndef\",\"f\":{}", f)
            }
            TyKind::Param(_) => "\"k\":\"param\"".to_string(),
            TyKind::Dynamic(p, ..) => {
                let v: Vec<String> = p.iter().filter_map(|p| match p.skip_binder() {
                    ty::ExistentialPredicate::Trait(t) => Some(q(&self.id(t.def_id))),
                    _ => None,
                }).collect();
                format!("\"k\":\"dyn\",\"tr\":{}", arr(&v))
            }
            TyKind::Alias(..) => "\"k\":\"alias\"".to_string(),
            TyKind::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            _ => "\"k\":\"prim\"".to_string(),
        };
        self.types[i] = format!("{{\"s\":{},{}}}", q(&s), body);
        i
    }

    fn dropset(&mut self, t: Ty<'tcx>, seen: &mut HashSet<Ty<'tcx>>, out: &mut Vec<String>) {
        let tcx = self.tcx;
        let env = self.env.unwrap();
        let t = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)).unwrap_or(t);
        if !seen.insert(t) || !t.needs_drop(tcx, env) {
            return;
        }
        match t.kind() {
            TyKind::Adt(a, args) => {
                if a.is_manually_drop() {
                    return;
                }
                let p = self.id(a.did());
                if let Some(d) = tcx.adt_destructor(a.did()) {
                    out.push(format!("dtor:{}:{}", p, self.id(d.did)));
                }
                let krate = tcx.crate_name(a.did().krate).to_string();
                if krate.starts_with("opentelemetry") {
                    for f in a.all_fields() {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        self.dropset(ft, seen, out);
                    }
                } else {
                    out.push(format!("foreign:{}", p));
                    for x in args.types() {
                        self.dropset(x, seen, out);
                    }
                }
            }
            TyKind::Tuple(ts) => for x in ts.iter() { self.dropset(x, seen, out) },
            TyKind::Slice(x) | TyKind::Array(x, _) => self.dropset(*x, seen, out),
            TyKind::Closure(_, a) => for x in a.as_closure().upvar_tys().iter() { self.dropset(x, seen, out) },
            TyKind::Coroutine(_, a) => for x in a.as_coroutine().upvar_tys().iter() { self.dropset(x, seen, out) },
            TyKind::Dynamic(..) => out.push(format!("dyn:{}", self.tyname(t))),
            TyKind::Param(_) => out.push(format!("param:{}", t)),
            _ => out.push(format!("other:{}", self.tyname(t))),
        }
    }

    fn fndef(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let g: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let mut s = format!("{{\"d\":{},\"n\":{},\"g\":{}", q(&self.id(d)), q(&self.name(d)), arr(&g));
        let mut tr = None;
        if let Some(p) = tcx.opt_parent(d) {
            if matches!(tcx.def_kind(p), DefKind::Trait) {
                tr = Some(p);
                s.push_str(&format!(",\"tr\":{}", q(&self.id(p))));
            }
        }
        if let Some(n) = tcx.opt_item_name(d) {
            s.push_str(&format!(",\"m\":{}", q(n.as_str())));
        }
        if tr.is_some() {
            if let Some(env) = self.env {
                let na = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, na) {
                    let kind = match inst.def {
                        ty::InstanceKind::Item(_) => "item",
                        ty::InstanceKind::Virtual(..) => "dyn",
                        ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                        _ => "shim",
                    };
                    let rd = inst.def_id();
                    let rid = match inst.def {
                        ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => match na.type_at(0).kind() {
                            TyKind::Closure(c, _) => *c,
                            _ => rd,
                        },
                        _ => rd,
                    };
                    if kind != "item" || rid != d {
                        let rg: Vec<String> = inst.args.types().map(|x| self.ty(x).to_string()).collect();
                        s.push_str(&format!(",\"r\":{{\"k\":\"{}\",\"d\":{},\"n\":{},\"g\":{}}}", kind, q(&self.id(rid)), q(&self.name(rid)), arr(&rg)));
                    } else {
                        // default method body of the trait
                        s.push_str(",\"r\":{\"k\":\"default\"}");
                    }
                }
            }
        }
        s.push('}');
        s
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut out = vec![p.local.as_u32().to_string()];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, fty) => {
                    let (n, o) = match pt.ty.kind() {
                        TyKind::Adt(a, _) => {
                            let v = pt.variant_index.unwrap_or(VariantIdx::from_u32(0));
                            if a.is_enum() && pt.variant_index.is_none() {
                                (f.as_u32().to_string(), String::new())
                            } else {
                                self.adt(*a);
                                (a.variant(v).fields[f].name.to_string(), self.id(a.did()))
                            }
                        }
                        TyKind::Closure(d, _) | TyKind::Coroutine(d, _) => (format!("^{}", f.as_u32()), self.id(*d)),
                        _ => (f.as_u32().to_string(), String::new()),
                    };
                    let ti = self.ty(fty);
                    format!("[\"f\",{},{},{}]", q(&n), q(&o), ti)
                }
                ProjectionElem::Downcast(n, i) => {
                    let nm = match pt.ty.kind() {
                        TyKind::Adt(a, _) if a.is_enum() => a.variant(i).name.to_string(),
                        _ => n.map(|s| s.to_string()).unwrap_or_else(|| i.as_u32().to_string()),
                    };
                    format!("[\"v\",{}]", q(&nm))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"ci\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { .. } => "\"sub\"".to_string(),
                _ => "\"?\"".to_string(),
            };
            out.push(s);
            pt = pt.projection_ty(tcx, e);
        }
        arr(&out)
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        let ti = self.ty(ty);
        let mut s = format!("{{\"t\":{}", ti);
        if let TyKind::FnDef(..) = ty.kind() {
            s.push('}');
            return s;
        }
        if let Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                s.push_str(&format!(",\"pr\":{}", q(&format!("{}::promoted[{}]", self.id(uv.def), p.as_u32()))));
                s.push('}');
                return s;
            }
            s.push_str(&format!(",\"p\":{}", q(&self.name(uv.def))));
        }
        if let Some(sd) = c.check_static_ptr(tcx) {
            s.push_str(&format!(",\"st\":{}}}", q(&self.id(sd))));
            return s;
        }
        let v = self.const_val(&c.const_, c.span);
        if let Some(v) = v {
            s.push_str(&format!(",\"v\":{}", v));
        }
        s.push('}');
        s
    }

    fn const_val(&mut self, c: &Const<'tcx>, sp: Span) -> Option<String> {
        let tcx = self.tcx;
        let env = self.env?;
        let ty = c.ty();
        if let Const::Unevaluated(uv, _) = c {
            use rustc_middle::ty::TypeVisitableExt;
            if uv.args.has_param() || uv.args.has_aliases() {
                return None;
            }
        }
        let val = c.eval(tcx, env, sp).ok()?;
        match ty.kind() {
            TyKind::Ref(_, inner, _) => {
                if inner.is_str() {
                    let b = val.try_get_slice_bytes_for_diagnostics(tcx)?;
                    return Some(q(&String::from_utf8_lossy(b)));
                }
                let plain = match inner.kind() {
                    TyKind::Array(el, _) => *el == tcx.types.u8,
                    TyKind::Adt(a, _) => tcx.item_name(a.did()).as_str() == "AsciiSet",
                    _ => false,
                };
                if plain {
                    if let mir::interpret::Scalar::Ptr(ptr, _) = val.try_to_scalar()? {
                        let (prov, off) = ptr.into_raw_parts();
                        if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                            let a = a.inner();
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..a.len());
                            let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                            return Some(format!("{{\"by\":{}}}", q(&h)));
                        }
                    }
                }
                None
            }
            TyKind::Bool => Some(if val.try_to_bool()? { "true".into() } else { "false".into() }),
            TyKind::Char => Some(format!("{{\"ch\":{}}}", val.try_to_scalar_int()?.to_bits(rustc_abi::Size::from_bytes(4)))),
            TyKind::Int(_) | TyKind::Uint(_) => {
                let si = val.try_to_scalar_int()?;
                let size = si.size();
                let bits = si.to_bits(size);
                let v: i128 = if let TyKind::Int(_) = ty.kind() { size.sign_extend(bits) } else { bits as i128 };
                Some(format!("\"{}\"", v).trim_matches('"').to_string())
            }
            TyKind::Float(_) => {
                let si = val.try_to_scalar_int()?;
                let bits = si.to_bits(si.size());
                let f = if si.size().bytes() == 8 { f64::from_bits(bits as u64) } else if si.size().bytes() == 4 { f32::from_bits(bits as u32) as f64 } else { return None };
                Some(q(&format!("{:?}", f)))
            }
            TyKind::Adt(..) | TyKind::Tuple(..) | TyKind::Array(..) => {
                let s = format!("{}", Const::Val(val, ty));
                Some(format!("{{\"pp\":{}}}", q(&s)))
            }
            _ => None,
        }
    }

    fn operand(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(b, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(b, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(c)),
            _ => "[\"k\",{}]".to_string(),
        }
    }

    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(b, o)),
            Rvalue::Repeat(o, _) => format!("[\"rep\",{}]", self.operand(b, o)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(b, p), k.to_mutbl_lossy().is_mut()),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},false]", self.place(b, p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{}]", self.operand(b, o), ti, q(&format!("{:?}", k)))
            }
            Rvalue::BinaryOp(op, ab) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(b, &ab.0), self.operand(b, &ab.1)),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(b, a)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(b, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"disc\",{},{}]", self.place(b, p), ti)
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(b, o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let a = self.tcx.adt_def(*d);
                        self.adt(a);
                        let var = a.variant(*v);
                        let fs: Vec<String> = match active { Some(f) => vec![q(var.fields[*f].name.as_str())], None => var.fields.iter().map(|f| q(f.name.as_str())).collect() };
                        format!("{{\"k\":\"adt\",\"p\":{},\"v\":{},\"f\":{}}}", q(&self.id(*d)), q(var.name.as_str()), arr(&fs))
                    }
                    AggregateKind::Closure(d, _) => format!("{{\"k\":\"closure\",\"d\":{}}}", q(&self.id(*d))),
                    AggregateKind::Coroutine(d, _) => format!("{{\"k\":\"coroutine\",\"d\":{}}}", q(&self.id(*d))),
                    _ => "{\"k\":\"other\"}".to_string(),
                };
                format!("[\"agg\",{},{}]", kk, arr(&os))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(b, p)),
            _ => {
                format!("[\"other\",{}]", q(&format!("{:?}", r)))
            }
        }
    }

    fn meta(&self, body: &Body<'tcx>, sp: Span) -> (usize, bool) {
        let log = sp.macro_backtrace().any(|e| match e.kind {
            rustc_span::ExpnKind::Macro(_, n) => n.as_str().trim_start_matches("$crate::").trim_start_matches("opentelemetry::").starts_with("otel_"),
            _ => false,
        });
        let root = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let _ = body;
        (sm.lookup_char_pos(root.lo()).line, log)
    }

    fn body(&mut self, did: DefId, id: &str, nm: &str, kind: &str, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let root = if tcx.is_closure_like(did) { tcx.typeck_root_def_id(did) } else { did };
        let _ = root;
        self.env = Some(ty::TypingEnv::post_analysis(tcx, did));
        let sm = tcx.sess.source_map();
        let lo = sm.lookup_char_pos(tcx.def_span(did).source_callsite().lo());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        let mut s = format!("{{\"id\":{},\"n\":{},\"k\":\"{}\",\"file\":{},\"line\":{}", q(id), q(nm), kind, q(&file), lo.line);
        if tcx.is_closure_like(did) {
            s.push_str(&format!(",\"parent\":{}", q(&self.id(tcx.parent(did)))));
        } else if let Some(p) = tcx.opt_parent(did) {
            match tcx.def_kind(p) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(st);
                    s.push_str(&format!(",\"self\":{},\"item\":{},\"impl\":{}", ti, q(tcx.item_name(did).as_str()), q(&self.id(p))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                        s.push_str(&format!(",\"trait\":{}", q(&self.id(tr.skip_binder().def_id))));
                    }
                    if tcx.is_automatically_derived(p) {
                        s.push_str(",\"derived\":true");
                    }
                }
                DefKind::Trait => s.push_str(&format!(",\"item\":{},\"trait_default\":{}", q(tcx.item_name(did).as_str()), q(&self.id(p)))),
                _ => {
                    if let Some(n) = tcx.opt_item_name(did) {
                        s.push_str(&format!(",\"item\":{}", q(n.as_str())));
                    }
                }
            }
            s.push_str(&format!(",\"pub\":{}", matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && tcx.visibility(did).is_public()));
        }
        let gens: Vec<String> = {
            let g = tcx.generics_of(did);
            let mut v = vec![];
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                    v.push(q(p.name.as_str()));
                }
            }
            v
        };
        s.push_str(&format!(",\"gen\":{}", arr(&gens)));
        s.push_str(&format!(",\"argc\":{}", body.arg_count));
        let mut names: HashMap<u32, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_u32()).or_insert(v.name.to_string());
                }
            }
        }
        let ls: Vec<String> = body.local_decls.iter_enumerated().map(|(l, d)| {
            let ti = self.ty(d.ty);
            match names.get(&l.as_u32()) { Some(n) => format!("[{},{}]", ti, q(n)), None => format!("[{}]", ti) }
        }).collect();
        s.push_str(&format!(",\"locals\":{}", arr(&ls)));
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                bbs.push("null".to_string());
                continue;
            }
            let mut ss = vec![];
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(pr) => {
                        let (line, log) = self.meta(body, st.source_info.span);
                        let pl = self.place(body, &pr.0);
                        let rv = self.rvalue(body, &pr.1);
                        ss.push(format!("[\"=\",{},{},{}{}]", pl, rv, line, if log { ",1" } else { "" }));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(body, place);
                        ss.push(format!("[\"sd\",{},{}]", pl, variant_index.as_u32()));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_u32())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let (line, log) = self.meta(body, t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_u32())).collect();
                    let dt = discr.ty(body, tcx);
                    let ti = self.ty(dt);
                    format!("[\"switch\",{},{},{},{}]", self.operand(body, discr), arr(&v), targets.otherwise().as_u32(), ti)
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(body, tcx).ty;
                    let mut out = vec![];
                    self.dropset(t, &mut HashSet::new(), &mut out);
                    out.sort();
                    out.dedup();
                    let ti = self.ty(t);
                    let v: Vec<String> = out.iter().map(|x| q(x)).collect();
                    format!("[\"drop\",{},{},{},{}]", self.place(body, place), target.as_u32(), ti, arr(&v))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func.ty(body, tcx).kind() {
                        TyKind::FnDef(d, ga) => self.fndef(*d, ga.skip_binder()),
                        _ => format!("{{\"o\":{}}}", self.operand(body, func)),
                    };
                    let a: Vec<String> = args.iter().map(|x| self.operand(body, &x.node)).collect();
                    format!("[\"call\",{},{},{},{}]", f, arr(&a), self.place(body, destination), target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => format!("[\"assert\",{},{},{},{}]", self.operand(body, cond), expected, target.as_u32(), q(&format!("{:?}", msg).split('(').next().unwrap_or("").to_string())),
                TerminatorKind::Yield { value, resume, resume_arg, .. } => format!("[\"yield\",{},{},{}]", self.operand(body, value), resume.as_u32(), self.place(body, resume_arg)),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                k => format!("[\"stop\",{}]", q(&format!("{:?}", k))),
            };
            bbs.push(format!("[{},{},{}{}]", arr(&ss), ts, line, if log { ",1" } else { "" }));
        }
        s.push_str(&format!(",\"bb\":[\n{}]}}", bbs.join(",\n")));
        s
    }

    fn run(&mut self, coro: HashMap<LocalDefId, Body<'tcx>>) -> String {
        let tcx = self.tcx;
        let mut fns = vec![];
        for did in tcx.hir_body_owners() {
            let d = did.to_def_id();
            let kind = tcx.def_kind(d);
            let id = self.id(d);
            let nm = self.name(d);
            if let Some(b) = coro.get(&did) {
                let b = b.clone();
                fns.push(self.body(d, &id, &nm, "coroutine", &b));
                let pr = tcx.promoted_mir(d);
                for (i, p) in pr.iter_enumerated() {
                    let pid = format!("{}::promoted[{}]", id, i.as_u32());
                    fns.push(self.body(d, &pid, &pid, "promoted", p));
                }
                continue;
            }
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if !tcx.is_mir_available(d) {
                        continue;
                    }
                    let st = tcx.mir_drops_elaborated_and_const_checked(did);
                    let b = if st.is_stolen() { tcx.optimized_mir(d).clone() } else { st.borrow().clone() };
                    let k = if matches!(kind, DefKind::Closure) { "closure" } else { "fn" };
                    fns.push(self.body(d, &id, &nm, k, &b));
                    let pr = tcx.promoted_mir(d);
                    for (i, p) in pr.iter_enumerated() {
                        let pid = format!("{}::promoted[{}]", id, i.as_u32());
                        fns.push(self.body(d, &pid, &pid, "promoted", p));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    if tcx.generics_of(d).own_requires_monomorphization() || tcx.generics_of(d).parent_count > 0 && matches!(kind, DefKind::AssocConst { .. }) {
                        continue;
                    }
                    let b = tcx.mir_for_ctfe(d).clone();
                    fns.push(self.body(d, &id, &nm, "const", &b));
                    let pr = tcx.promoted_mir(d);
                    for (i, p) in pr.iter_enumerated() {
                        let pid = format!("{}::promoted[{}]", id, i.as_u32());
                        fns.push(self.body(d, &pid, &pid, "promoted", p));
                    }
                }
                _ => {}
            }
        }
        // impls
        let mut impls = vec![];
        let mut traits: BTreeMap<String, String> = BTreeMap::new();
        let items = tcx.hir_crate_items(());
        let mut tr_needed: Vec<DefId> = vec![];
        for it in items.definitions() {
            let d = it.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Trait => tr_needed.push(d),
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    self.env = Some(ty::TypingEnv::post_analysis(tcx, d));
                    let a = tcx.adt_def(d);
                    self.adt(a)
                }
                DefKind::Impl { .. } => {
                    self.env = Some(ty::TypingEnv::post_analysis(tcx, d));
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(st);
                    let mut its = vec![];
                    for a in tcx.associated_items(d).in_definition_order() {
                        if matches!(a.kind, ty::AssocKind::Fn { .. }) {
                            its.push(format!("{}:{}", q(a.name().as_str()), q(&self.id(a.def_id))));
                        }
                    }
                    let mut s = format!("{{\"id\":{},\"self\":{},\"items\":{{{}}}", q(&self.id(d)), ti, its.join(","));
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.skip_binder();
                        tr_needed.push(tr.def_id);
                        let a: Vec<String> = tr.args.types().skip(1).map(|x| self.ty(x).to_string()).collect();
                        s.push_str(&format!(",\"trait\":{},\"ta\":{},\"neg\":{}", q(&self.id(tr.def_id)), arr(&a), tcx.impl_polarity(d) == ty::ImplPolarity::Negative));
                    }
                    if tcx.is_automatically_derived(d) {
                        s.push_str(",\"derived\":true");
                    }
                    s.push('}');
                    impls.push(s);
                }
                _ => {}
            }
        }
        for d in tr_needed {
            let mut its = vec![];
            for a in tcx.associated_items(d).in_definition_order() {
                if matches!(a.kind, ty::AssocKind::Fn { .. }) {
                    its.push(format!("[{},{}]", q(a.name().as_str()), a.defaultness(tcx).has_value()));
                }
            }
            traits.insert(self.id(d), arr(&its));
        }
        let tr: Vec<String> = traits.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
        let ad: Vec<String> = self.adts.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
        format!(
            "{{\"crate\":{},\"types\":[\n{}],\n\"adts\":{{\n{}}},\n\"traits\":{{\n{}}},\n\"impls\":[\n{}],\n\"fns\":[\n{}]}}\n",
            q(tcx.crate_name(LOCAL_CRATE).as_str()),
            self.types.join(",\n"),
            ad.join(",\n"),
            tr.join(",\n"),
            impls.join(",\n"),
            fns.join(",\n")
        )
    }
}
