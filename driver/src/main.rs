// MIR fact dumper: behaves as rustc, and for workspace crates writes one JSON-lines file of
// facts (function bodies with resolved callees, ADTs, trait impls) into $VP_FACTS_DIR.
#![feature(rustc_private)]
#![allow(static_mut_refs)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_data_structures;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_data_structures::steal::Steal;
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;

thread_local! {
    static COROS: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}
static mut ORIG: Option<for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>> = None;

fn my_mir_drops<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    if tcx.is_coroutine(def.to_def_id()) {
        // Keep the body as it is before the coroutine state transform.
        let (b, _) = tcx.mir_promoted(def);
        if !b.is_stolen() {
            let body: Body<'tcx> = b.borrow().clone();
            let body: Body<'static> = unsafe { std::mem::transmute(body) };
            COROS.with(|c| c.borrow_mut().insert(def, body));
        }
    }
    unsafe { (ORIG.unwrap())(tcx, def) }
}

struct Cb;

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.override_queries = Some(|_s, p| {
            unsafe { ORIG = Some(p.queries.mir_drops_elaborated_and_const_checked) };
            p.queries.mir_drops_elaborated_and_const_checked = my_mir_drops;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("VP_FACTS_DIR") {
            dump(tcx, &dir);
        }
        Compilation::Continue
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: String,
    strs: HashMap<String, usize>,
    strlist: Vec<String>,
    adts: HashMap<DefId, ()>,
    adt_q: Vec<DefId>,
    names: HashMap<DefId, String>,
}

impl<'tcx> D<'tcx> {
    fn s(&mut self, x: &str) -> usize {
        if let Some(i) = self.strs.get(x) { return *i; }
        let i = self.strlist.len();
        self.strlist.push(x.to_string());
        self.strs.insert(x.to_string(), i);
        i
    }
    fn name(&mut self, d: DefId) -> String {
        if let Some(n) = self.names.get(&d) { return n.clone(); }
        let tcx = self.tcx;
        let mut n = with_no_visible_paths!(with_no_trimmed_paths!(with_crate_prefix!(tcx.def_path_str(d))));
        let cn = tcx.crate_name(d.krate).to_string();
        if n.contains("crate::") { let lc = tcx.crate_name(LOCAL_CRATE).to_string(); n = n.replace("crate::", &format!("{}::", lc)); }
        let _ = cn;
        self.names.insert(d, n.clone());
        n
    }
    fn tystr(&mut self, t: Ty<'tcx>) -> usize {
        let lc = self.tcx.crate_name(LOCAL_CRATE).to_string();
        let s = with_no_visible_paths!(with_no_trimmed_paths!(with_crate_prefix!(t.to_string())));
        let s = s.replace("crate::", &format!("{}::", lc));
        if let ty::Adt(a, _) = t.kind() { self.want_adt(a.did()); }
        self.s(&s)
    }
    fn want_adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_none() { self.adt_q.push(d); }
    }
    fn hash(&self, d: DefId) -> String {
        let h = self.tcx.def_path_hash(d);
        let (a, b) = h.0.split();
        format!("{:x}_{:x}", a.as_u64(), b.as_u64())
    }
    // interned "hash" and "name" of a definition
    fn def(&mut self, d: DefId) -> String {
        let n = self.name(d);
        let ni = self.s(&n);
        if self.is_ws(d) {
            let h = self.hash(d);
            let hi = self.s(&h);
            format!("[{},{}]", ni, hi)
        } else {
            format!("[{}]", ni)
        }
    }
    fn is_ws(&self, d: DefId) -> bool {
        let n = self.tcx.crate_name(d.krate).to_string();
        d.is_local() || n.starts_with("dsh") || n == "doge_shell"
    }
    fn span(&mut self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let mut mac = String::new();
        let mut s = sp;
        // walk to the outermost expansion
        let mut guard = 0;
        while s.from_expansion() && guard < 64 {
            let d = s.ctxt().outer_expn_data();
            if let rustc_span::hygiene::ExpnKind::Macro(_, name) = d.kind { mac = name.to_string(); }
            else if let rustc_span::hygiene::ExpnKind::Desugaring(k) = d.kind { if mac.is_empty() { mac = format!("~{:?}", k); } }
            s = d.call_site;
            guard += 1;
        }
        let loc = sm.lookup_char_pos(s.lo());
        let mi = self.s(&mac);
        format!("{},{}", loc.line, mi)
    }
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let mut nm = format!("{}", f.as_usize());
                    let mut owner = String::new();
                    match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if (v.as_usize()) < a.variants().len() {
                                if let Some(fd) = a.variant(v).fields.get(f) { nm = fd.name.to_string(); }
                            }
                            owner = self.name(a.did());
                            self.want_adt(a.did());
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            nm = format!("{}", f.as_usize());
                            owner = format!("^{}", self.hash(*d));
                        }
                        _ => {}
                    }
                    let ni = self.s(&nm);
                    let oi = self.s(&owner);
                    let _ = write!(o, ",[0,{},{},{}]", f.as_usize(), ni, oi);
                }
                ProjectionElem::Index(l) => { let _ = write!(o, ",[1,{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => { let _ = write!(o, ",[2,{},{},{}]", offset, from_end as u8, min_length); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, ",[3,{},{},{}]", from, to, from_end as u8); }
                ProjectionElem::Downcast(sym, v) => {
                    let n = sym.map(|s| s.to_string()).unwrap_or_default();
                    let ni = self.s(&n);
                    let _ = write!(o, ",[4,{},{}]", v.as_usize(), ni);
                }
                _ => o.push_str(",[5]"),
            }
            pt = pt.projection_ty(tcx, e);
        }
        o.push(']');
        o
    }
    fn substs(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for t in a.types() { v.push(self.tystr(t).to_string()); }
        format!("[{}]", v.join(","))
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.tystr(t);
        // fn item
        match t.kind() {
            ty::FnDef(d, a) => {
                return format!("{{\"k\":\"fn\",\"t\":{},\"f\":{}}}", ti, self.fnref(*d, a.no_bound_vars().unwrap(), env));
            }
            _ => {}
        }
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let d = self.def(u.def);
                let _ = write!(extra, ",\"pr\":[{},{}]", p.as_usize(), d);
                return format!("{{\"k\":\"c\",\"t\":{}{}}}", ti, extra);
            }
            let d = self.def(u.def);
            let _ = write!(extra, ",\"u\":{}", d);
        }
        let val = match c.const_ {
            Const::Val(v, _) => Some(v),
            Const::Ty(..) => c.const_.eval(tcx, env, c.span).ok(),
            Const::Unevaluated(..) => {
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ())).is_err() { None } else { c.const_.eval(tcx, env, c.span).ok() }
            }
        };
        if let Some(v) = val {
            let peeled = t.peel_refs();
            let is_strlike = matches!(t.kind(), ty::Ref(_, inner, _) if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8));
            if is_strlike {
                if !matches!(v, ConstValue::Scalar(_) | ConstValue::ZeroSized) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        if peeled.is_str() {
                            let s = String::from_utf8_lossy(b).to_string();
                            let _ = write!(extra, ",\"s\":{}", esc(&s));
                        } else {
                            let hex: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                            let _ = write!(extra, ",\"b\":\"{}\"", hex);
                        }
                    }
                }
            } else if let ty::Ref(_, inner, _) = t.kind() && let ty::Array(e, n) = inner.kind() && *e == tcx.types.u8 {
                // &[u8; N]: pointer to bytes
                if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.prov_and_relative_offset();
                    if let Some(n) = n.try_to_target_usize(tcx) {
                        if let interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                            let m = m.inner();
                            let st = off.bytes() as usize;
                            let b = m.inspect_with_uninit_and_ptr_outside_interpreter(st..st + n as usize);
                            let hex: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                            let _ = write!(extra, ",\"b\":\"{}\"", hex);
                        }
                    }
                }
            } else if let Some(i) = v.try_to_scalar_int() {
                let bits = i.to_bits_unchecked();
                match t.kind() {
                    ty::Bool => { let _ = write!(extra, ",\"v\":{}", if bits != 0 { "true" } else { "false" }); }
                    ty::Int(_) => {
                        let sz = i.size();
                        let sv = sz.sign_extend(bits) as i128;
                        let _ = write!(extra, ",\"v\":{}", sv);
                    }
                    ty::Char => {
                        let ch = char::from_u32(bits as u32).unwrap_or('?');
                        let _ = write!(extra, ",\"v\":{},\"ch\":{}", bits, esc(&ch.to_string()));
                    }
                    _ => { let _ = write!(extra, ",\"v\":{}", bits); }
                }
            } else if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
                let (prov, _off) = p.prov_and_relative_offset();
                if let interpret::GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                    let dd = self.def(d);
                    let _ = write!(extra, ",\"st\":{}", dd);
                }
            }
        }
        format!("{{\"k\":\"c\",\"t\":{}{}}}", ti, extra)
    }
    fn fnref(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let dd = self.def(d);
        let su = self.substs(a);
        let mut kind = "?";
        let mut rd = String::new();
        let a2 = tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, a2) {
            match i.def {
                InstanceKind::Item(x) => { kind = "i"; if x != d { rd = self.def(x); } }
                InstanceKind::Virtual(x, _) => { kind = "v"; if x != d { rd = self.def(x); } }
                InstanceKind::Intrinsic(_) => kind = "n",
                InstanceKind::Shim(_) => { kind = "s"; }
                _ => kind = "o",
            }
        }
        // trait item?
        let tr = tcx.trait_of_assoc(d).is_some();
        if rd.is_empty() { format!("[\"{}\",{},{},{}]", kind, dd, su, tr as u8) } else { format!("[\"{}\",{},{},{},{}]", kind, dd, su, tr as u8, rd) }
    }
    fn operand(&mut self, o: &Operand<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"p\",\"p\":{}}}", self.place(p, b)),
            Operand::Move(p) => format!("{{\"k\":\"m\",\"p\":{}}}", self.place(p, b)),
            Operand::Constant(c) => self.konst(c, env),
            Operand::RuntimeChecks(_) => "{\"k\":\"rc\"}".to_string(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, b, env)),
            Rvalue::Repeat(o, _) => format!("[\"rep\",{}]", self.operand(o, b, env)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(p, b), matches!(k, BorrowKind::Mut { .. }) as u8),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", self.place(p, b), matches!(m, rustc_middle::ty::Mutability::Mut) as u8),
            Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", self.place(p, b), matches!(k, RawPtrKind::Mut) as u8),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", self.def(*d)),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(c, _) => format!("{:?}", c),
                    k => format!("{:?}", k),
                };
                let ks = ks.split('(').next().unwrap().to_string();
                let o = self.operand(o, b, env);
                format!("[\"cast\",{},{},{}]", o, self.tystr(*t), esc(&ks))
            }
            Rvalue::BinaryOp(op, ab) => {
                let x = self.operand(&ab.0, b, env);
                let y = self.operand(&ab.1, b, env);
                format!("[\"bin\",\"{:?}\",{},{}]", op, x, y)
            }
            Rvalue::UnaryOp(op, x) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(x, b, env)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let ti = self.tystr(t);
                format!("[\"disc\",{},{}]", self.place(p, b), ti)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![];
                for o in ops.iter() { v.push(self.operand(o, b, env)); }
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"arr\"]".to_string(),
                    AggregateKind::Tuple => "[\"tup\"]".to_string(),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        self.want_adt(*d);
                        let ad = self.tcx.adt_def(*d);
                        let vn = ad.variant(*vi).name.to_string();
                        let n = self.name(*d);
                        let ni = self.s(&n);
                        let vni = self.s(&vn);
                        let fs: Vec<String> = ad.variant(*vi).fields.iter().map(|f| f.name.to_string()).collect();
                        let mut fi = vec![];
                        for f in fs { fi.push(self.s(&f).to_string()); }
                        let _ = active;
                        format!("[\"adt\",{},{},{},[{}]]", ni, vni, vi.as_usize(), fi.join(","))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"clo\",{}]", self.def(*d)),
                    AggregateKind::Coroutine(d, _) => format!("[\"cor\",{}]", self.def(*d)),
                    AggregateKind::CoroutineClosure(d, _) => format!("[\"clo\",{}]", self.def(*d)),
                    AggregateKind::RawPtr(..) => "[\"rawp\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", ks, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"k\":\"p\",\"p\":{}}}]", self.place(p, b)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o, b, env)),
        }
    }
    fn body(&mut self, def: DefId, b: &Body<'tcx>, promoted: Option<usize>, kind: &str) {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(def));
        let mut o = String::new();
        let d = self.def(def);
        let parent = if tcx.is_closure_like(def) { let p = tcx.parent(def); self.def(p) } else { "null".into() };
        let sm = tcx.sess.source_map();
        let loc = sm.lookup_char_pos(b.span.lo());
        let hi = sm.lookup_char_pos(b.span.hi());
        let file = format!("{}", loc.file.name.prefer_local_unconditionally());
        let fi = self.s(&file);
        let derived = tcx.def_kind(def) == DefKind::AssocFn && {
            let p = tcx.parent(def);
            matches!(tcx.def_kind(p), DefKind::Impl { .. }) && tcx.is_automatically_derived(p)
        };
        let mut trm = "null".to_string();
        if tcx.def_kind(def) == DefKind::AssocFn {
            let ai = tcx.associated_item(def);
            if let Some(t) = ai.trait_item_def_id() { trm = self.def(t); }
        }
        let _ = write!(o, "{{\"fn\":{},\"kind\":\"{}\",\"parent\":{},\"file\":{},\"line\":{},\"eline\":{},\"argc\":{},\"derived\":{},\"trm\":{}", d, kind, parent, fi, loc.line, hi.line, b.arg_count, derived, trm);
        if let Some(p) = promoted { let _ = write!(o, ",\"promoted\":{}", p); }
        // locals
        let mut ls = vec![];
        for l in b.local_decls.iter() { ls.push(self.tystr(l.ty).to_string()); }
        let _ = write!(o, ",\"locals\":[{}]", ls.join(","));
        let mut vs = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let n = self.s(&v.name.to_string());
                vs.push(format!("[{},{}]", n, self.place(p, b)));
            }
        }
        let _ = write!(o, ",\"vars\":[{}],\"bbs\":[", vs.join(","));
        for (bi, bb) in b.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 { o.push(','); }
            let _ = write!(o, "{{\"c\":{},\"s\":[", bb.is_cleanup as u8);
            let mut first = true;
            for st in &bb.statements {
                let s = match &st.kind {
                    StatementKind::Assign(bx) => {
                        let p = self.place(&bx.0, b);
                        let r = self.rvalue(&bx.1, b, env);
                        format!("[\"=\",{},{},{}]", p, r, self.span(st.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, b);
                        format!("[\"sd\",{},{}]", p, variant_index.as_usize())
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    _ => continue,
                };
                if !first { o.push(','); }
                first = false;
                o.push_str(&s);
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = vec![];
                    for (val, t) in targets.iter() { v.push(format!("[{},{}]", val, t.as_usize())); }
                    let dty = discr.ty(&b.local_decls, tcx);
                    let ti = self.tystr(dty);
                    format!("[\"sw\",{},[{}],{},{},{}]", self.operand(discr, b, env), v.join(","), targets.otherwise().as_usize(), ti, sp)
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unr\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"res\"]".to_string(),
                TerminatorKind::CoroutineDrop => "[\"res\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&b.local_decls, tcx).ty;
                    let ti = self.tystr(ty);
                    format!("[\"drop\",{},{},{},{}]", self.place(place, b), target.as_usize(), ti, sp)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let mut v = vec![];
                    for a in args.iter() { v.push(self.operand(&a.node, b, env)); }
                    let f = self.operand(func, b, env);
                    let tg = target.map(|t| t.as_usize() as i64).unwrap_or(-1);
                    format!("[\"call\",{},[{}],{},{},{}]", f, v.join(","), self.place(destination, b), tg, sp)
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let mut v = vec![];
                    for a in args.iter() { v.push(self.operand(&a.node, b, env)); }
                    let f = self.operand(func, b, env);
                    format!("[\"call\",{},[{}],[0],-1,{}]", f, v.join(","), sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![self.operand(len, b, env), self.operand(index, b, env)]),
                        AssertKind::Overflow(op, x, y) => (match op { BinOp::Sub => "ovsub", BinOp::Add => "ovadd", BinOp::Mul => "ovmul", _ => "ov" }, vec![self.operand(x, b, env), self.operand(y, b, env)]),
                        AssertKind::OverflowNeg(x) => ("ovneg", vec![self.operand(x, b, env)]),
                        AssertKind::DivisionByZero(x) => ("div0", vec![self.operand(x, b, env)]),
                        AssertKind::RemainderByZero(x) => ("rem0", vec![self.operand(x, b, env)]),
                        _ => ("other", vec![]),
                    };
                    format!("[\"assert\",{},{},\"{}\",[{}],{},{}]", self.operand(cond, b, env), expected, k, ops.join(","), target.as_usize(), sp)
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    format!("[\"yield\",{},{},{},{}]", self.operand(value, b, env), resume.as_usize(), self.place(resume_arg, b), sp)
                }
                TerminatorKind::InlineAsm { .. } => "[\"unr\"]".to_string(),
            };
            o.push_str(&ts);
            o.push('}');
        }
        o.push_str("]}\n");
        self.out.push_str(&o);
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, dir: &str) {
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let is_bin = tcx.crate_types().iter().any(|t| format!("{:?}", t).contains("Executable"));
    let mut d = D { tcx, out: String::new(), strs: HashMap::new(), strlist: vec![], adts: HashMap::new(), adt_q: vec![], names: HashMap::new() };
    let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    for k in keys {
        let def = k.to_def_id();
        let dk = tcx.def_kind(def);
        match dk {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_coroutine(def) {
                    let _ = tcx.mir_drops_elaborated_and_const_checked(k);
                    let b = COROS.with(|c| c.borrow_mut().remove(&k));
                    if let Some(b) = b {
                        let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
                        d.body(def, &b, None, "coroutine");
                    } else { eprintln!("vp: no coroutine body for {:?}", def); }
                } else {
                    let kind = if dk == DefKind::Closure { "closure" } else { "fn" };
                    let s = tcx.mir_drops_elaborated_and_const_checked(k);
                    if s.is_stolen() {
                        let b = tcx.optimized_mir(def).clone();
                        d.body(def, &b, None, kind);
                    } else {
                        let b = s.borrow().clone();
                        d.body(def, &b, None, kind);
                    }
                }
                let pm = tcx.promoted_mir(def);
                for (i, b) in pm.iter_enumerated() { d.body(def, b, Some(i.as_usize()), "promoted"); }
            }
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                if tcx.is_trivial_const(def) { continue; }
                if tcx.generics_of(def).requires_monomorphization(tcx) { continue; }
                let b = tcx.mir_for_ctfe(def).clone();
                d.body(def, &b, None, "const");
                let pm = tcx.promoted_mir(def);
                for (i, b) in pm.iter_enumerated() { d.body(def, b, Some(i.as_usize()), "promoted"); }
            }
            _ => {}
        }
    }
    // local ADTs
    for id in tcx.hir_crate_items(()).definitions() {
        let def = id.to_def_id();
        match tcx.def_kind(def) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => d.want_adt(def),
            DefKind::Impl { of_trait } => {
                let mut tr = "null".to_string();
                if of_trait {
                    let t = tcx.impl_trait_ref(def);
                    let tid = t.skip_binder().def_id;
                    tr = d.def(tid);
                }
                let selfty = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                let si = d.tystr(selfty);
                let der = tcx.is_automatically_derived(def);
                let mut ms = vec![];
                for ai in tcx.associated_items(def).in_definition_order() {
                    let m = d.def(ai.def_id);
                    let t = match ai.trait_item_def_id() { Some(t) => d.def(t), None => "null".into() };
                    ms.push(format!("[{},{}]", m, t));
                }
                let sp = tcx.def_span(def);
                let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
                let file = format!("{}", loc.file.name.prefer_local_unconditionally());
                let fi = d.s(&file);
                let line = format!("{{\"impl\":1,\"trait\":{},\"self\":{},\"derived\":{},\"items\":[{}],\"file\":{},\"line\":{}}}\n", tr, si, der, ms.join(","), fi, loc.line);
                d.out.push_str(&line);
            }
            _ => {}
        }
    }
    while let Some(a) = d.adt_q.pop() {
        let ad = tcx.adt_def(a);
        let n = d.def(a);
        let local = d.is_ws(a);
        let mut vs = vec![];
        let discrs: Vec<String> = if ad.is_enum() { ad.discriminants(tcx).map(|(_, x)| format!("{}", x.val)).collect() } else { vec!["0".into()] };
        for (vi, v) in ad.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = if local { let ty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip(); d.tystr(ty) } else { 0 };
                let fname = f.name.to_string();
                let fi = d.s(&fname);
                fs.push(format!("[{},{}]", fi, t));
            }
            let vn = v.name.to_string();
            let vni = d.s(&vn);
            vs.push(format!("[{},{},[{}]]", vni, discrs.get(vi.as_usize()).cloned().unwrap_or("0".into()), fs.join(",")));
        }
        let line = format!("{{\"adt\":{},\"enum\":{},\"ws\":{},\"variants\":[{}]}}\n", n, ad.is_enum(), local, vs.join(","));
        d.out.push_str(&line);
    }
    let mut head = format!("{{\"crate\":{},\"bin\":{},\"strs\":[", esc(&krate), is_bin);
    for (i, s) in d.strlist.iter().enumerate() {
        if i > 0 { head.push(','); }
        head.push_str(&esc(s));
    }
    head.push_str("]}\n");
    let fname = format!("{}/{}{}.jsonl", dir, krate, if is_bin { "-bin" } else { "" });
    let tmp = format!("{}.tmp{}", fname, std::process::id());
    let mut f = std::fs::File::create(&tmp).unwrap();
    f.write_all(head.as_bytes()).unwrap();
    f.write_all(d.out.as_bytes()).unwrap();
    drop(f);
    std::fs::rename(tmp, fname).unwrap();
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [wrapper, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let is_build_script = args.iter().any(|a| a == "build_script_build");
    let code = rustc_driver::catch_with_exit_code(|| {
        if is_build_script || args.iter().any(|a| a.starts_with("--print") || a == "-vV") {
            struct N;
            impl Callbacks for N {}
            rustc_driver::compiler_entrypoint(&args, &mut N)
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Cb)
        }
    });
    std::process::exit(if format!("{:?}", code) == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 });
}
