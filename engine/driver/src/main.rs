//! rustc driver used as RUSTC_WORKSPACE_WRAPPER: for the harness crate it dumps the
//! monomorphised MIR of everything reachable from the functions in a module named `roots`,
//! with resolved callees, type table, constants and vtables, as one JSON document.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_list: Vec<Ty<'tcx>>,
    ty_json: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_queue: VecDeque<Instance<'tcx>>,
    inst_json: Vec<String>,
    vtables: HashMap<(Ty<'tcx>, Ty<'tcx>), String>,
    spans: HashMap<String, usize>,
    span_list: Vec<String>,
    stop: Vec<String>,
    /// library functions replaced by functions of the harness: path -> definition
    shims: HashMap<String, DefId>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Dump<'tcx> {
    fn span(&mut self, sp: Span) -> usize {
        let sm = self.tcx.sess.source_map();
        let f = |sp: Span| {
            let l = sm.lookup_char_pos(sp.lo());
            format!("{}:{}", l.file.name.prefer_remapped_unconditionally(), l.line)
        };
        let a = f(sp);
        let s = if sp.from_expansion() { format!("{} (in macro used at {})", a, f(sp.source_callsite())) } else { a };
        if let Some(i) = self.spans.get(&s) {
            return *i;
        }
        let i = self.span_list.len();
        self.spans.insert(s.clone(), i);
        self.span_list.push(s);
        i
    }
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_list.len();
        self.tys.insert(t, i);
        self.ty_list.push(t);
        self.ty_json.push(String::new());
        let tcx = self.tcx;
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
        let mut s = format!("{{\"n\":{}", esc(&name));
        match *t.kind() {
            ty::Adt(def, args) => {
                let _ = write!(s, ",\"k\":\"adt\",\"path\":{},\"ak\":\"{}\"", esc(&self.path(def.did())),
                    if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" });
                if def.is_box() { s.push_str(",\"box\":1"); }
                s.push_str(",\"vs\":[");
                for (vi, v) in def.variants().iter_enumerated() {
                    if vi.as_usize() > 0 { s.push(','); }
                    let d = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                    let _ = write!(s, "{{\"n\":{},\"d\":{},\"f\":[", esc(v.name.as_str()), d);
                    for (fi, f) in v.fields.iter().enumerate() {
                        if fi > 0 { s.push(','); }
                        let ft = tcx.normalize_erasing_regions(self.env, f.ty(tcx, args));
                        let fi = self.ty(ft);
                        let _ = write!(s, "[{},{}]", esc(f.name.as_str()), fi);
                    }
                    s.push_str("]}");
                }
                s.push(']');
                let ga: Vec<Ty<'tcx>> = args.types().collect();
                s.push_str(",\"args\":[");
                for (k, a) in ga.iter().enumerate() { if k > 0 { s.push(','); } let x = self.ty(*a); let _ = write!(s, "{}", x); }
                s.push(']');
            }
            ty::Tuple(ts) => {
                s.push_str(",\"k\":\"tuple\",\"f\":[");
                for (k, a) in ts.iter().enumerate() { if k > 0 { s.push(','); } let x = self.ty(a); let _ = write!(s, "{}", x); }
                s.push(']');
            }
            ty::Closure(d, args) => {
                let _ = write!(s, ",\"k\":\"closure\",\"path\":{},\"f\":[", esc(&self.path(d)));
                for (k, a) in args.as_closure().upvar_tys().iter().enumerate() { if k > 0 { s.push(','); } let x = self.ty(a); let _ = write!(s, "{}", x); }
                s.push(']');
            }
            ty::Coroutine(d, args) => {
                let _ = write!(s, ",\"k\":\"coroutine\",\"path\":{},\"f\":[", esc(&self.path(d)));
                for (k, a) in args.as_coroutine().upvar_tys().iter().enumerate() { if k > 0 { s.push(','); } let x = self.ty(a); let _ = write!(s, "{}", x); }
                s.push(']');
            }
            ty::Ref(_, p, m) => { let x = self.ty(p); let _ = write!(s, ",\"k\":\"ref\",\"p\":{},\"m\":{}", x, m.is_mut() as u8); }
            ty::RawPtr(p, m) => { let x = self.ty(p); let _ = write!(s, ",\"k\":\"ptr\",\"p\":{},\"m\":{}", x, m.is_mut() as u8); }
            ty::Array(e, n) => { let x = self.ty(e); let _ = write!(s, ",\"k\":\"array\",\"e\":{},\"len\":{}", x, n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1)); }
            ty::Slice(e) => { let x = self.ty(e); let _ = write!(s, ",\"k\":\"slice\",\"e\":{}", x); }
            ty::Str => s.push_str(",\"k\":\"str\""),
            ty::Bool => s.push_str(",\"k\":\"bool\""),
            ty::Char => s.push_str(",\"k\":\"char\""),
            ty::Int(w) => { let _ = write!(s, ",\"k\":\"int\",\"w\":{}", w.bit_width().unwrap_or(64)); }
            ty::Uint(w) => { let _ = write!(s, ",\"k\":\"uint\",\"w\":{}", w.bit_width().unwrap_or(64)); }
            ty::Float(_) => s.push_str(",\"k\":\"float\""),
            ty::Never => s.push_str(",\"k\":\"never\""),
            ty::Dynamic(..) => s.push_str(",\"k\":\"dyn\""),
            ty::FnPtr(..) => s.push_str(",\"k\":\"fnptr\""),
            ty::FnDef(d, args) => {
                let (iid, _) = self.resolve(d, args.no_bound_vars().expect("bound fndef"));
                let _ = write!(s, ",\"k\":\"fndef\",\"inst\":{}", iid as i64);
            }
            _ => s.push_str(",\"k\":\"other\""),
        }
        s.push('}');
        self.ty_json[i] = s;
        i
    }
    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> (i64, String) {
        match Instance::try_resolve(self.tcx, self.env, d, args) {
            Ok(Some(i)) => (self.inst(i) as i64, String::new()),
            _ => (-1, self.path(d)),
        }
    }
    fn shim(&self, i: Instance<'tcx>) -> Instance<'tcx> {
        let tcx = self.tcx;
        if self.shims.is_empty() || !matches!(i.def, InstanceKind::Item(_)) { return i }
        let Some(d) = self.shims.get(&self.path(i.def_id())) else { return i };
        // the replacement takes the same type arguments, allocators left out
        let tys = i.args.types().filter(|t| t.ty_adt_def().map_or(true, |a| !self.path(a.did()).ends_with("alloc::Global"))).collect::<Vec<_>>();
        let n = tcx.generics_of(*d).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).count();
        if tys.len() < n { return i }
        let mut it = tys.into_iter();
        let args = ty::GenericArgs::for_item(tcx, *d, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => it.next().unwrap().into(),
        });
        match Instance::try_resolve(tcx, self.env, *d, args) {
            Ok(Some(x)) => x,
            _ => i,
        }
    }
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        let i = self.shim(i);
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let n = self.insts.len();
        self.insts.insert(i, n);
        self.inst_json.push(String::new());
        self.inst_queue.push_back(i);
        n
    }
    fn stopped(&self, path: &str) -> bool {
        self.stop.iter().any(|p| if let Some(q) = p.strip_suffix('*') { path.starts_with(q) } else { path == p })
    }

    // ---- constants
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        if depth > 8 { return "{\"x\":\"deep\"}".into(); }
        let tcx = self.tcx;
        match t.kind() {
            ty::FnDef(..) | ty::Closure(..) => { let x = self.ty(t); return format!("{{\"z\":{}}}", x); }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(si) = v.try_to_scalar_int() {
                    let size = si.size();
                    if t.is_signed() { return format!("{{\"i\":{}}}", si.to_int(size)); }
                    return format!("{{\"i\":{}}}", si.to_uint(size));
                }
                return "{\"x\":\"scalar\"}".into();
            }
            ty::Float(_) => {
                if let Some(si) = v.try_to_scalar_int() { return format!("{{\"fl\":{}}}", si.to_uint(si.size())); }
                return "{\"x\":\"float\"}".into();
            }
            ty::Ref(_, p, _) | ty::RawPtr(p, _) => {
                match v {
                    ConstValue::Slice { alloc_id, meta } => {
                        return self.slice_data(alloc_id, rustc_abi::Size::ZERO, meta, *p);
                    }
                    ConstValue::Scalar(Scalar::Ptr(ptr, _)) => {
                        let (prov, off) = ptr.prov_and_relative_offset();
                        return self.deref_const(prov.alloc_id(), off, *p, depth);
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        return self.read_ref(alloc_id, offset, *p, depth);
                    }
                    _ => {
                        if let Some(si) = v.try_to_scalar_int() { return format!("{{\"i\":{}}}", si.to_uint(si.size())); }
                        return "{\"x\":\"ptr\"}".into();
                    }
                }
            }
            ty::FnPtr(..) => {
                if let ConstValue::Scalar(Scalar::Ptr(ptr, _)) = v {
                    let (prov, _) = ptr.prov_and_relative_offset();
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                        let x = self.inst(instance);
                        return format!("{{\"fp\":{}}}", x);
                    }
                }
                return "{\"x\":\"fnptr\"}".into();
            }
            ty::Adt(def, _) if def.is_union() => return "{\"x\":\"union\"}".into(),
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                let ti = self.ty(t);
                if let ty::Array(_, n) = t.kind() {
                    if n.try_to_target_usize(tcx).unwrap_or(9999) > 64 { return format!("{{\"x\":\"bigarray\",\"t\":{}}}", ti); }
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let mut s = format!("{{\"v\":{},\"t\":{},\"f\":[", d.variant.map(|x| x.as_usize()).unwrap_or(0), ti);
                    for (k, (fv, ft)) in d.fields.iter().enumerate() {
                        if k > 0 { s.push(','); }
                        let x = self.cval(*fv, *ft, depth + 1);
                        s.push_str(&x);
                    }
                    s.push_str("]}");
                    return s;
                }
                return format!("{{\"x\":\"adt\",\"t\":{}}}", ti);
            }
            _ => {}
        }
        "{\"x\":\"other\"}".into()
    }
    fn slice_data(&mut self, id: mir::interpret::AllocId, off: rustc_abi::Size, len: u64, p: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        if let GlobalAlloc::Memory(a) = tcx.global_alloc(id) {
            let isb = matches!(p.kind(), ty::Str) || matches!(p.kind(), ty::Slice(e) if *e == tcx.types.u8);
            if isb {
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..off.bytes_usize() + len as usize);
                let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                return format!("{{\"{}\":[{}]}}", if matches!(p.kind(), ty::Str) { "str" } else { "bytes" }, v.join(","));
            }
            if let ty::Slice(e) = p.kind() {
                let es = tcx.layout_of(self.env.as_query_input(*e)).map(|l| l.size.bytes()).unwrap_or(0);
                if len <= 64 {
                    let ti = self.ty(*e);
                    let mut s = format!("{{\"slice\":[");
                    for k in 0..len {
                        if k > 0 { s.push(','); }
                        let o = off + rustc_abi::Size::from_bytes(k * es);
                        let x = self.read_at(id, o, *e, 1);
                        s.push_str(&x);
                    }
                    let _ = write!(s, "],\"t\":{}}}", ti);
                    return s;
                }
            }
        }
        "{\"x\":\"slice\"}".into()
    }
    fn read_at(&mut self, id: mir::interpret::AllocId, off: rustc_abi::Size, t: Ty<'tcx>, depth: usize) -> String {
        // scalars have to be read out of the allocation by hand
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::FnPtr(..) => {
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(id) {
                    if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                        if let Ok(sc) = a.inner().read_scalar(&tcx, AllocRange { start: off, size: l.size }, matches!(t.kind(), ty::FnPtr(..))) {
                            return self.cval(ConstValue::Scalar(sc), t, depth + 1);
                        }
                    }
                }
                "{\"x\":\"rd\"}".into()
            }
            ty::Ref(_, p, _) | ty::RawPtr(p, _) => self.read_ref(id, off, *p, depth + 1),
            _ => self.cval(ConstValue::Indirect { alloc_id: id, offset: off }, t, depth + 1),
        }
    }
    fn read_ref(&mut self, id: mir::interpret::AllocId, off: rustc_abi::Size, p: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let ps = tcx.data_layout.pointer_size();
        if let GlobalAlloc::Memory(a) = tcx.global_alloc(id) {
            if let Ok(Scalar::Ptr(ptr, _)) = a.inner().read_scalar(&tcx, AllocRange { start: off, size: ps }, true) {
                let (prov, o2) = ptr.prov_and_relative_offset();
                if matches!(p.kind(), ty::Str | ty::Slice(_)) {
                    if let Ok(l) = a.inner().read_scalar(&tcx, AllocRange { start: off + ps, size: ps }, false) {
                        if let Scalar::Int(l) = l { return self.slice_data(prov.alloc_id(), o2, l.to_uint(ps) as u64, p); }
                    }
                }
                return self.deref_const(prov.alloc_id(), o2, p, depth);
            }
        }
        "{\"x\":\"ref\"}".into()
    }
    fn deref_const(&mut self, id: mir::interpret::AllocId, off: rustc_abi::Size, p: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        match tcx.global_alloc(id) {
            GlobalAlloc::Memory(_) => {
                if matches!(p.kind(), ty::Str | ty::Slice(_) | ty::Dynamic(..)) { return "{\"x\":\"unsizedptr\"}".into(); }
                let x = self.read_at(id, off, p, depth + 1);
                format!("{{\"ref\":{}}}", x)
            }
            GlobalAlloc::Static(d) => format!("{{\"static\":{}}}", esc(&self.path(d))),
            GlobalAlloc::Function { instance } => { let x = self.inst(instance); format!("{{\"fp\":{}}}", x) }
            _ => "{\"x\":\"galloc\"}".into(),
        }
    }
    fn cst(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.no_bound_vars().expect("bound fndef");
            let (i, p) = self.resolve(d, args);
            let _ = self.ty(t);
            return format!("{{\"fn\":{},\"p\":{}}}", i, esc(&if i < 0 { p } else { String::new() }));
        }
        let ti = self.ty(t);
        match c.const_.eval(self.tcx, self.env, c.span) {
            Ok(v) => {
                if let ConstValue::ZeroSized = v {
                    return format!("{{\"z\":{}}}", ti);
                }
                let s = self.cval(v, t, 0);
                s
            }
            Err(_) => "{\"x\":\"eval\"}".into(),
        }
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut s = format!("[{}", p.local.as_usize());
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => s.push_str(",\"*\""),
                ProjectionElem::Field(f, t) => { let x = self.ty(t); let _ = write!(s, ",[\"f\",{},{}]", f.as_usize(), x); }
                ProjectionElem::Index(l) => { let _ = write!(s, ",[\"i\",{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => { let _ = write!(s, ",[\"c\",{},{}]", offset, from_end as u8); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(s, ",[\"s\",{},{},{}]", from, to, from_end as u8); }
                ProjectionElem::Downcast(_, v) => { let _ = write!(s, ",[\"d\",{}]", v.as_usize()); }
                _ => s.push_str(",[\"o\"]"),
            }
        }
        s.push(']');
        s
    }
    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.cst(c)),
            Operand::RuntimeChecks(_) => "{\"k\":{\"i\":0}}".into(),
        }
    }
    fn ops<'a>(&mut self, it: impl Iterator<Item = &'a Operand<'tcx>>) -> String where 'tcx: 'a {
        let mut s = String::from("[");
        for (k, o) in it.enumerate() { if k > 0 { s.push(','); } let x = self.op(o); s.push_str(&x); }
        s.push(']');
        s
    }
    fn rv(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => { let x = self.op(o); format!("[\"repeat\",{},{}]", x, n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1)) }
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let src = o.ty(&body.local_decls, self.tcx);
                let x = self.op(o);
                let si = self.ty(src);
                let ti = self.ty(*t);
                let kn = format!("{:?}", k);
                if kn.contains("Unsize") { self.vtable(src, *t); }
                if kn.contains("ReifyFnPointer") {
                    if let ty::FnDef(d, a) = *src.kind() {
                        let a = a.no_bound_vars().expect("bound fndef");
                        if let Some(i) = Instance::resolve_for_fn_ptr(self.tcx, self.env, d, a) {
                            let n = self.inst(i);
                            return format!("[\"reify\",{}]", n);
                        }
                    }
                }
                if kn.contains("ClosureFnPointer") {
                    if let ty::Closure(d, a) = src.kind() {
                        let i = Instance::resolve_closure(self.tcx, *d, a, ty::ClosureKind::FnOnce);
                        let n = self.inst(i);
                        return format!("[\"reify\",{}]", n);
                    }
                }
                format!("[\"cast\",{},{},{},{}]", esc(&kn), x, si, ti)
            }
            Rvalue::BinaryOp(b, ops) => { let t = ops.0.ty(&body.local_decls, self.tcx); let ti = self.ty(t); format!("[\"bin\",\"{:?}\",{},{},{}]", b, self.op(&ops.0), self.op(&ops.1), ti) }
            Rvalue::UnaryOp(u, o) => { let t = o.ty(&body.local_decls, self.tcx); let ti = self.ty(t); format!("[\"un\",\"{:?}\",{},{}]", u, self.op(o), ti) }
            Rvalue::Discriminant(p) => { let t = p.ty(&body.local_decls, self.tcx).ty; let ti = self.ty(t); format!("[\"disc\",{},{}]", self.place(p), ti) }
            Rvalue::Aggregate(k, ops) => {
                let t = r.ty(&body.local_decls, self.tcx);
                let ti = self.ty(t);
                let o = self.ops(ops.iter());
                let (v, kk, act) = match &**k {
                    AggregateKind::Adt(_, v, _, _, act) => (v.as_usize(), "adt", act.map(|x| x.as_usize() as i64).unwrap_or(-1)),
                    AggregateKind::Array(_) => (0, "array", -1),
                    AggregateKind::Tuple => (0, "tuple", -1),
                    AggregateKind::Closure(..) => (0, "closure", -1),
                    AggregateKind::Coroutine(..) => (0, "coroutine", -1),
                    AggregateKind::RawPtr(..) => (0, "rawptr", -1),
                    _ => (0, "other", -1),
                };
                format!("[\"agg\",\"{}\",{},{},{},{}]", kk, v, o, ti, act)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            _ => "[\"unk\"]".into(),
        }
    }
    fn vtable(&mut self, src: Ty<'tcx>, dst: Ty<'tcx>) {
        // find the pointee pair
        let tcx = self.tcx;
        fn strip<'tcx>(t: Ty<'tcx>) -> Option<Ty<'tcx>> {
            match t.kind() {
                ty::Ref(_, p, _) | ty::RawPtr(p, _) => Some(*p),
                ty::Adt(_, a) => a.types().next(),
                _ => None,
            }
        }
        let (Some(s), Some(d)) = (strip(src), strip(dst)) else { return };
        let ty::Dynamic(preds, _) = d.kind() else { return };
        if matches!(s.kind(), ty::Dynamic(..)) || self.vtables.contains_key(&(s, d)) { return }
        let mut out = String::from("[");
        if let Some(p) = preds.principal() {
            let tr = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new(tcx.erase_and_anonymize_regions(tcx.instantiate_bound_regions_with_erased(p.with_self_ty(tcx, s)))));
            for (k, e) in tcx.vtable_entries(tr).iter().enumerate() {
                if k > 0 { out.push(','); }
                match e {
                    ty::VtblEntry::Method(i) => { let n = self.inst(*i); let _ = write!(out, "{}", n); }
                    _ => out.push_str("-1"),
                }
            }
        }
        out.push(']');
        self.vtables.insert((s, d), out);
        self.ty(s);
        self.ty(d);
    }
    fn body(&mut self, i: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let did = i.def_id();
        let path = self.path(did);
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", i));
        let kind = match i.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".into(),
            InstanceKind::Virtual(_, n) => format!("virtual:{}", n),
            InstanceKind::LlvmIntrinsic(_) => "llvm".into(),
            InstanceKind::Shim(ref k) => format!("shim:{}", format!("{:?}", k).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")),
        };
        let mut s = format!("{{\"path\":{},\"name\":{},\"kind\":{}", esc(&path), esc(&name), esc(&kind));
        // trait method info
        if let Some(imp) = tcx.trait_impl_of_assoc(did) {
            let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
            let _ = write!(s, ",\"trait\":{},\"item\":{}", esc(&self.path(tr.def_id)), esc(tcx.item_name(did).as_str()));
        } else if let Some(tr) = tcx.trait_of_assoc(did) {
            let _ = write!(s, ",\"trait\":{},\"item\":{}", esc(&self.path(tr)), esc(tcx.item_name(did).as_str()));
        } else if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(s, ",\"item\":{}", esc(tcx.item_name(did).as_str()));
        }
        s.push_str(",\"targs\":[");
        for (k, a) in i.args.types().collect::<Vec<_>>().iter().enumerate() { if k > 0 { s.push(','); } let x = self.ty(*a); let _ = write!(s, "{}", x); }
        s.push(']');
        let _ = write!(s, ",\"crate\":{}", esc(tcx.crate_name(did.krate).as_str()));
        let sp = self.span(tcx.def_span(did));
        let _ = write!(s, ",\"sp\":{}", sp);
        // return type for opaque callees
        if !matches!(i.def, InstanceKind::Shim(_)) && matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            let sig = tcx.fn_sig(did);
            if let Ok(sig) = tcx.try_instantiate_and_normalize_erasing_regions(i.args, self.env, sig) {
                let sig = tcx.instantiate_bound_regions_with_erased(sig);
                if let Ok(o) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(tcx.erase_and_anonymize_regions(sig.output()))) { let x = self.ty(o); let _ = write!(s, ",\"ret\":{}", x); }
            }
        }
        let isdrop = name.contains("drop_in_place") || name.contains("drop_glue");
        let avail = match i.def {
            InstanceKind::Item(d) => tcx.is_mir_available(d) && !tcx.is_foreign_item(d) && !matches!(tcx.def_kind(d), DefKind::Ctor(..)),
            InstanceKind::Shim(_) => !isdrop,
            _ => false,
        };
        let ctor = matches!(tcx.def_kind(did), DefKind::Ctor(..));
        if (!avail && !ctor) || self.stopped(&path) {
            s.push_str(",\"body\":null}");
            return s;
        }
        let b = tcx.instance_mir(i.def).clone();
        let b = match i.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, b)) { Ok(b) => b, Err(_) => { s.push_str(",\"body\":null}"); return s } };
        let _ = write!(s, ",\"argc\":{},\"spread\":{}", b.arg_count, b.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1));
        s.push_str(",\"locals\":[");
        for (k, l) in b.local_decls.iter().enumerate() { if k > 0 { s.push(','); } let x = self.ty(l.ty); let _ = write!(s, "{}", x); }
        s.push_str("],\"body\":[");
        for (k, bb) in b.basic_blocks.iter().enumerate() {
            if k > 0 { s.push(','); }
            if bb.is_cleanup { s.push_str("null"); continue; }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let x = match &st.kind {
                    StatementKind::Assign(a) => { let p = self.place(&a.0); let r = self.rv(&a.1, &b); let sp = self.span(st.source_info.span); format!("[\"=\",{},{},{}]", p, r, sp) }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); format!("[\"sd\",{},{}]", p, variant_index.as_usize()) }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    StatementKind::StorageLive(l) => format!("[\"live\",{}]", l.as_usize()),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => { let o = self.op(o); format!("[\"assume\",{}]", o) }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => { let a = self.op(&c.src); let d = self.op(&c.dst); let n = self.op(&c.count); format!("[\"cpy\",{},{},{}]", a, d, n) }
                    },
                    _ => continue,
                };
                if !first { s.push(','); }
                first = false;
                s.push_str(&x);
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let x = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&b.local_decls, tcx);
                    let ti = self.ty(ty);
                    let o = self.op(discr);
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_usize())).collect();
                    format!("[\"sw\",{},[{}],{},{}]", o, v.join(","), targets.otherwise().as_usize(), ti)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => "[\"end\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&b.local_decls, tcx).ty; let ti = self.ty(t);
                    format!("[\"drop\",{},{},{}]", self.place(place), target.as_usize(), ti)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => self.cst(c),
                        o => self.op(o),
                    };
                    let a = self.ops(args.iter().map(|a| &a.node));
                    let d = self.place(destination);
                    let dt = destination.ty(&b.local_decls, tcx).ty; let dti = self.ty(dt);
                    format!("[\"call\",{},{},{},{},{}]", f, a, d, target.map(|t| t.as_usize() as i64).unwrap_or(-1), dti)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond);
                    let m = match &**msg { AssertKind::BoundsCheck { .. } => "BoundsCheck".to_string(), AssertKind::Overflow(op, ..) => format!("Overflow({:?})", op), o => format!("{:?}", o).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string() };
                    format!("[\"assert\",{},{},{},{}]", c, *expected as u8, esc(&m), target.as_usize())
                }
                TerminatorKind::Yield { .. } => "[\"yield\"]".into(),
                _ => "[\"unk\"]".into(),
            };
            let _ = write!(s, "],\"t\":{},\"sp\":{}}}", x, sp);
        }
        s.push_str("]}");
        s
    }
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let stop = std::env::var("VMIR_STOP").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        let mut d = Dump {
            tcx, tys: HashMap::new(), ty_list: vec![], ty_json: vec![], insts: HashMap::new(), inst_queue: VecDeque::new(), inst_json: vec![],
            vtables: HashMap::new(), spans: HashMap::new(), span_list: vec![],
            stop: stop.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect(),
            shims: HashMap::new(),
            env: TypingEnv::fully_monomorphized(),
        };
        let table = std::env::var("VMIR_SHIMS").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        let fns: HashMap<String, DefId> = tcx.hir_body_owners().map(|b| b.to_def_id()).filter(|b| tcx.def_kind(*b) == DefKind::Fn).map(|b| (d.path(b), b)).collect();
        for l in table.lines() {
            if let Some((a, b)) = l.split_once(" => ") {
                if let Some(x) = fns.get(b.trim()) { d.shims.insert(a.trim().to_string(), *x); }
            }
        }
        let mut roots = String::from("{");
        let mut nroots = 0;
        for id in tcx.hir_body_owners() {
            let did = id.to_def_id();
            if tcx.def_kind(did) != DefKind::Fn { continue }
            if tcx.generics_of(did).requires_monomorphization(tcx) { continue }
            let p = d.path(did);
            if !p.contains("roots::") { continue }
            let n = d.inst(Instance::mono(tcx, did));
            if nroots > 0 { roots.push(','); }
            nroots += 1;
            let _ = write!(roots, "{}:{}", esc(&p), n);
        }
        roots.push('}');
        while let Some(i) = d.inst_queue.pop_front() {
            let n = d.insts[&i];
            let s = d.body(i);
            d.inst_json[n] = s;
        }
        let mut vt = String::from("[");
        let vts: Vec<_> = d.vtables.iter().map(|(k, v)| (k.0, k.1, v.clone())).collect();
        for (k, (a, b, v)) in vts.into_iter().enumerate() {
            if k > 0 { vt.push(','); }
            let x = d.ty(a); let y = d.ty(b);
            let _ = write!(vt, "[{},{},{}]", x, y, v);
        }
        vt.push(']');
        // types pulled in late may have queued more instances
        while let Some(i) = d.inst_queue.pop_front() {
            let n = d.insts[&i];
            let s = d.body(i);
            d.inst_json[n] = s;
        }
        let spans: Vec<String> = d.span_list.iter().map(|s| esc(s)).collect();
        let doc = format!("{{\"roots\":{},\n\"types\":[{}],\n\"insts\":[{}],\n\"vtables\":{},\n\"spans\":[{}]}}", roots, d.ty_json.join(",\n"), d.inst_json.join(",\n"), vt, spans.join(","));
        std::fs::write(&self.out, doc).unwrap();
        Compilation::Continue
    }
}
struct Nop;
impl Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as `vmir rustc args..`
    args.remove(0);
    let want = std::env::var("VMIR_CRATE").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    if is {
        let out = std::env::var("VMIR_OUT").expect("VMIR_OUT");
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
