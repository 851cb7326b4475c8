//! mirfacts: a rustc driver that writes the type-resolved MIR of a crate as JSON.
//!
//! Run by cargo as RUSTC_WORKSPACE_WRAPPER.  Every local function is a root; from each root the
//! driver follows calls (resolved in the root's parameter environment), closures and promoted
//! constants, and writes one body per reached instance, including the bodies of small generic
//! library functions (Option, Result, iterator adapters ...) that the analyses want to look into.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(",\n");
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}

// ---------------------------------------------------------------- collector
#[derive(Clone)]
struct Item<'tcx> {
    inst: Instance<'tcx>,
    env: TypingEnv<'tcx>,
    envkey: String,
    promoted: Option<usize>,
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<Item<'tcx>>,
    seen: HashSet<String>,
    adts: BTreeMap<String, J>,
    out: Vec<(String, J)>,
}

const LIB_BODIES: &[&str] = &[
    "core::option", "core::result", "core::iter::adapters", "core::iter::traits",
    "core::iter::sources",
    "core::ops::control_flow", "core::ops::function", "core::cmp", "core::convert",
    "core::bool", "core::tuple", "core::mem::maybe_uninit::never", "core::clone", "core::borrow",
];

struct Fx<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    item: Item<'tcx>,
    body: &'tcx Body<'tcx>,
}

fn tystr(ty: Ty<'_>) -> String {
    with_no_trimmed_paths!(format!("{ty}"))
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    /// crate::module::path without visible-reexport prettifying
    fn rawpath(&self, d: DefId) -> String {
        let mut p = self.tcx.crate_name(d.krate).to_string();
        p.push_str(&self.tcx.def_path(d).to_string_no_crate_verbose());
        p
    }
    fn key(&self, it: &Item<'tcx>) -> String {
        let mut k = with_no_trimmed_paths!(format!("{:?}", it.inst.def));
        let mut a = String::new();
        for g in it.inst.args.iter() {
            if g.as_region().is_some() {
                continue;
            }
            let _ = write!(a, "{},", with_no_trimmed_paths!(format!("{g}")));
        }
        if !a.is_empty() {
            k = format!("{k}<{a}>");
        }
        if it.inst.args.has_param() {
            k = format!("{}|{}", it.envkey, k);
        }
        if let Some(p) = it.promoted {
            k = format!("{k}#p{p}");
        }
        k
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) -> String {
        let p = self.rawpath(def.did());
        if !self.adts.contains_key(&p) {
            let mut vs = vec![];
            if def.is_enum() {
                for (vi, d) in def.discriminants(self.tcx) {
                    let v = def.variant(vi);
                    vs.push(J::O(vec![
                        ("name", s(v.name.as_str())),
                        ("discr", J::I(signed(d.val, d.ty, self.tcx))),
                        ("fields", J::A(v.fields.iter().map(|f| s(f.name.as_str())).collect())),
                    ]));
                }
            } else {
                for v in def.variants() {
                    vs.push(J::O(vec![
                        ("name", s(v.name.as_str())),
                        ("discr", J::I(0)),
                        ("fields", J::A(v.fields.iter().map(|f| s(f.name.as_str())).collect())),
                        ("tys", J::A(v.fields.iter().map(|f| {
                            let t = self.tcx.type_of(f.did).instantiate_identity();
                            s(tystr(t.skip_norm_wip()))
                        }).collect())),
                    ]));
                }
            }
            let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
            let j = J::O(vec![("kind", s(kind)), ("variants", J::A(vs)), ("local", J::B(def.did().is_local()))]);
            self.adts.insert(p.clone(), j);
        }
        p
    }
    fn want_body(&self, inst: &Instance<'tcx>) -> bool {
        let InstanceKind::Item(d) = inst.def else { return false };
        if !self.tcx.is_mir_available(d) {
            return false;
        }
        if d.is_local() {
            return true;
        }
        if matches!(self.tcx.def_kind(d), DefKind::Closure) {
            return true;
        }
        let p = self.rawpath(d);
        LIB_BODIES.iter().any(|l| p.starts_with(l))
    }
    fn enqueue(&mut self, it: Item<'tcx>) -> String {
        let k = self.key(&it);
        if self.seen.insert(k.clone()) {
            self.queue.push_back(it);
        }
        k
    }
    /// Describes a callee; enqueues its body when wanted.
    fn callee(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, envkey: &str) -> J {
        let tcx = self.tcx;
        let mut f: Vec<(&'static str, J)> = vec![];
        let orig_trait = tcx.trait_of_assoc(def);
        if let Some(t) = orig_trait {
            f.push(("trait", s(self.rawpath(t))));
            if args.len() > 0 && args[0].as_type().is_some() {
                f.push(("self_ty", s(tystr(args.type_at(0)))));
            }
        }
        f.push(("name", s(tcx.opt_item_name(def).map(|x| x.to_string()).unwrap_or_else(|| "{closure}".into()))));
        let targs: Vec<J> = args.iter().filter_map(|g| g.as_type()).map(|t| s(tystr(t))).collect();
        f.push(("targs", J::A(targs)));
        let res = Instance::try_resolve(tcx, env, def, args).ok().flatten();
        match res {
            Some(inst) => {
                let d = inst.def_id();
                f.push(("path", s(self.rawpath(d))));
                f.push(("vpath", s(self.path(d))));
                f.push(("local", J::B(d.is_local())));
                if let Some(imp) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    let sname = match st.kind() {
                        ty::Adt(a, _) => self.rawpath(a.did()),
                        _ => tystr(st),
                    };
                    f.push(("impl_self", s(sname)));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        f.push(("impl_trait", s(self.rawpath(tr.skip_binder().def_id))));
                    }
                }
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                f.push(("kind", s(kind)));
                if self.want_body(&inst) {
                    let k = self.enqueue(Item { inst, env, envkey: envkey.to_string(), promoted: None });
                    f.push(("inst", s(k)));
                }
            }
            None => {
                f.push(("path", s(self.rawpath(def))));
                f.push(("vpath", s(self.path(def))));
                f.push(("local", J::B(def.is_local())));
                f.push(("kind", s("unresolved")));
            }
        }
        J::O(f)
    }
    /// For calls that drain an iterator: how to step it.
    fn iter_info(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, envkey: &str) -> Option<J> {
        let tcx = self.tcx;
        let t = tcx.trait_of_assoc(def)?;
        let iter_trait = tcx.get_diagnostic_item(rustc_span::sym::Iterator)?;
        let tp = self.rawpath(t);
        let x = if t == iter_trait {
            args.type_at(0)
        } else if tp.ends_with("::Extend") || tp.ends_with("::FromIterator") {
            args.types().last()?
        } else if tp.ends_with("::DoubleEndedIterator") {
            args.type_at(0)
        } else {
            return None;
        };
        let into = tcx.lang_items().into_iter_fn().or_else(|| {
            let tr = tcx.get_diagnostic_item(rustc_span::sym::IntoIterator)?;
            tcx.associated_items(tr).in_definition_order().find(|a| a.name().as_str() == "into_iter").map(|a| a.def_id)
        })?;
        let next = tcx
            .associated_items(iter_trait)
            .in_definition_order()
            .find(|a| a.name().as_str() == "next")
            .map(|a| a.def_id)?;
        let ia = tcx.mk_args(&[x.into()]);
        let ii = Instance::try_resolve(tcx, env, into, ia).ok().flatten()?;
        let sig = tcx.fn_sig(ii.def_id());
        let sig = ii.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, sig.skip_binder()));
        let y = sig.skip_binder().output();
        let na = tcx.mk_args(&[y.into()]);
        let a = self.callee(into, ia, env, envkey);
        let b = self.callee(next, na, env, envkey);
        let mut o = vec![("into", a), ("next", b), ("ity", s(tystr(y)))];
        // element-wise reverse stepping where available
        let _ = &mut o;
        Some(J::O(o))
    }
}

fn signed<'tcx>(v: u128, ty: Ty<'tcx>, tcx: TyCtxt<'tcx>) -> i128 {
    if let ty::Int(it) = ty.kind() {
        let bits = it.bit_width().unwrap_or(tcx.data_layout.pointer_size().bits()) as u32;
        let sh = 128 - bits;
        return ((v << sh) as i128) >> sh;
    }
    v as i128
}

impl<'a, 'tcx> Fx<'a, 'tcx> {
    fn inst<T: ty::TypeFoldable<TyCtxt<'tcx>>>(&self, v: T) -> T {
        self.item.inst.instantiate_mir_and_normalize_erasing_regions(self.cx.tcx, self.item.env, EarlyBinder::bind(self.cx.tcx, v))
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.cx.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", name, lo.line))
    }
    fn place(&mut self, p: Place<'tcx>) -> J {
        let tcx = self.cx.tcx;
        let mut pty = PlaceTy::from_ty(self.inst(self.body.local_decls[p.local].ty));
        let mut pr = vec![];
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = match pty.variant_index {
                                Some(v) => a.variant(v),
                                None => a.non_enum_variant(),
                            };
                            self.cx.adt(*a);
                            v.fields[f].name.to_string()
                        }
                        _ => format!("{}", f.index()),
                    };
                    J::A(vec![s("f"), J::I(f.index() as i128), s(name)])
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(a, _) => a.variant(v).name.to_string(),
                        _ => String::new(),
                    };
                    J::A(vec![s("v"), J::I(v.index() as i128), s(name)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.index() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                _ => J::A(vec![s("?")]),
            };
            pr.push(j);
            let e2 = self.inst(e);
            pty = pty.projection_ty(tcx, e2);
        }
        J::O(vec![("l", J::I(p.local.index() as i128)), ("p", J::A(pr))])
    }
    fn place_ty(&self, p: Place<'tcx>) -> Ty<'tcx> {
        let t = p.ty(&self.body.local_decls, self.cx.tcx).ty;
        self.inst(t)
    }
    fn op(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => {
                let j = self.place(*p);
                J::O(vec![("k", s("copy")), ("p", j)])
            }
            Operand::Move(p) => {
                let j = self.place(*p);
                J::O(vec![("k", s("move")), ("p", j)])
            }
            Operand::Constant(c) => self.konst(c),
            _ => J::O(vec![("k", s("rt")), ("ty", s("bool"))]),
        }
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.cx.tcx;
        let k = self.inst(c.const_);
        let ty = k.ty();
        let mut o = vec![("k", s("const")), ("ty", s(tystr(ty)))];
        if let ty::FnDef(d, a) = ty.kind() {
            let a = a.no_bound_vars().expect("late-bound fn args");
            let (env, ek) = (self.item.env, self.item.envkey.clone());
            let cj = self.cx.callee(*d, a, env, &ek);
            o.push(("fn", cj));
            return J::O(o);
        }
        if let mir::Const::Unevaluated(u, _) = k {
            if let Some(p) = u.promoted {
                let it = Item {
                    inst: Instance { def: InstanceKind::Item(u.def), args: u.args },
                    env: self.item.env,
                    envkey: self.item.envkey.clone(),
                    promoted: Some(p.index()),
                };
                let key = self.cx.enqueue(it);
                o.push(("promoted", s(key)));
                return J::O(o);
            }
            o.push(("item", s(self.cx.rawpath(u.def))));
        }
        match k.eval(tcx, self.item.env, c.span) {
            Ok(v) => self.constval(v, ty, &mut o, 0),
            Err(_) => o.push(("opq", s(with_no_trimmed_paths!(format!("{k}"))))),
        }
        J::O(o)
    }
    fn constval(&mut self, v: ConstValue, ty: Ty<'tcx>, o: &mut Vec<(&'static str, J)>, depth: usize) {
        let tcx = self.cx.tcx;
        if let ConstValue::Scalar(sc) = v {
            if let Ok(i) = sc.try_to_scalar_int() {
                let bits = i.to_bits(i.size());
                match ty.kind() {
                    ty::Bool => return o.push(("bool", J::B(bits != 0))),
                    ty::Char => return o.push(("char", s(char::from_u32(bits as u32).unwrap_or('?').to_string()))),
                    ty::Int(_) => return o.push(("int", J::I(signed(bits, ty, tcx)))),
                    ty::Uint(_) => {
                        return o.push(("int", if bits <= i128::MAX as u128 { J::I(bits as i128) } else { s(bits.to_string()) }));
                    }
                    _ => {}
                }
            } else if let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = sc {
                if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(p.provenance.alloc_id()) {
                    o.push(("static", s(self.cx.rawpath(d))));
                }
                // the bytes of a byte string, such as the template of a format string
                if let (ty::Ref(_, t, _), rustc_middle::mir::interpret::GlobalAlloc::Memory(m)) =
                    (ty.kind(), tcx.global_alloc(p.provenance.alloc_id()))
                {
                    if matches!(t.kind(), ty::Array(e, _) if *e == tcx.types.u8) && p.into_raw_parts().1.bytes() == 0 {
                        let n = m.inner().len();
                        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                        let hex: String = b.iter().map(|x| format!("{x:02x}")).collect();
                        o.push(("hex", s(hex)));
                    }
                }
            }
        }
        if let ConstValue::Slice { .. } = v {
            let isstr = matches!(ty.kind(), ty::Ref(_, t, _) if t.is_str());
            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                if isstr {
                    o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                } else {
                    o.push(("bytes", s(format!("{b:?}"))));
                }
            }
            return;
        }
        let plain = match ty.kind() {
            ty::Adt(a, _) => a.is_enum() || (a.is_struct() && !matches!(v, ConstValue::ZeroSized)),
            ty::Tuple(t) => !t.is_empty(),
            _ => false,
        };
        if plain && depth < 4 {
            if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, ty) {
                let mut fs = vec![];
                let mut names: Vec<String> = (0..d.fields.len()).map(|i| i.to_string()).collect();
                if let (ty::Adt(a, _), Some(vi)) = (ty.kind(), d.variant) {
                    let var = a.variant(vi);
                    names = var.fields.iter().map(|f| f.name.to_string()).collect();
                    o.push(("cadt", s(self.cx.adt(*a))));
                    o.push(("cvar", s(var.name.to_string())));
                }
                for (i, (fv, ft)) in d.fields.iter().enumerate() {
                    let mut fo = vec![("name", s(names[i].clone())), ("k", s("const")), ("ty", s(tystr(*ft)))];
                    self.constval(*fv, *ft, &mut fo, depth + 1);
                    fs.push(J::O(fo));
                }
                o.push(("cfields", J::A(fs)));
                return;
            }
        }
        if let ConstValue::ZeroSized = v {
            o.push(("zst", J::B(true)));
            if let ty::Adt(a, _) = ty.kind() {
                o.push(("adt", s(self.cx.adt(*a))));
            }
            return;
        }
        o.push(("opq", s("?")));
    }
    fn rv(&mut self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.cx.tcx;
        match r {
            Rvalue::Use(o, _) => {
                let a = self.op(o);
                J::O(vec![("k", s("use")), ("a", a)])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                let j = self.place(*p);
                J::O(vec![("k", s("ref")), ("mut", J::B(m)), ("p", j)])
            }
            Rvalue::RawPtr(_, p) => {
                let j = self.place(*p);
                J::O(vec![("k", s("rawptr")), ("p", j)])
            }
            Rvalue::CopyForDeref(p) => {
                let j = self.place(*p);
                J::O(vec![("k", s("use")), ("a", J::O(vec![("k", s("copy")), ("p", j)]))])
            }
            Rvalue::BinaryOp(b, x) => {
                let a = self.op(&x.0);
                let c = self.op(&x.1);
                let t = self.inst(x.0.ty(&self.body.local_decls, tcx));
                J::O(vec![("k", s("bin")), ("op", s(format!("{b:?}"))), ("a", a), ("b", c), ("ty", s(tystr(t)))])
            }
            Rvalue::UnaryOp(u, x) => {
                let a = self.op(x);
                J::O(vec![("k", s("un")), ("op", s(format!("{u:?}"))), ("a", a)])
            }
            Rvalue::Cast(ck, x, t) => {
                let a = self.op(x);
                let from = self.inst(x.ty(&self.body.local_decls, tcx));
                let t = self.inst(*t);
                let ckn = match ck {
                    CastKind::IntToInt => "IntToInt".to_string(),
                    o => format!("{o:?}"),
                };
                J::O(vec![("k", s("cast")), ("ck", s(ckn)), ("a", a), ("from", s(tystr(from))), ("to", s(tystr(t)))])
            }
            Rvalue::Discriminant(p) => {
                let t = self.place_ty(*p);
                let adt = match t.kind() {
                    ty::Adt(a, _) => s(self.cx.adt(*a)),
                    _ => J::Null,
                };
                let j = self.place(*p);
                J::O(vec![("k", s("discr")), ("p", j), ("adt", adt), ("ty", s(tystr(t)))])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.op(o)).collect();
                let mut o = vec![("k", s("agg"))];
                match &**k {
                    AggregateKind::Tuple => o.push(("kind", s("tuple"))),
                    AggregateKind::Array(_) => o.push(("kind", s("array"))),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let a = tcx.adt_def(*d);
                        let p = self.cx.adt(a);
                        o.push(("kind", s("adt")));
                        o.push(("adt", s(p)));
                        o.push(("variant", s(a.variant(*vi).name.as_str())));
                        o.push(("vi", J::I(vi.index() as i128)));
                        o.push(("fields", J::A(a.variant(*vi).fields.iter().map(|f| s(f.name.as_str())).collect())));
                    }
                    AggregateKind::Closure(d, args) => {
                        let args = self.inst(*args);
                        let inst = Instance { def: InstanceKind::Item(*d), args };
                        let it = Item { inst, env: self.item.env, envkey: self.item.envkey.clone(), promoted: None };
                        let key = self.cx.enqueue(it);
                        o.push(("kind", s("closure")));
                        o.push(("inst", s(key)));
                    }
                    _ => o.push(("kind", s("other"))),
                }
                o.push(("ops", J::A(v)));
                J::O(o)
            }
            Rvalue::Repeat(x, n) => {
                let a = self.op(x);
                J::O(vec![("k", s("repeat")), ("a", a), ("n", s(format!("{n}")))])
            }
            Rvalue::Reborrow(_, _, p) => {
                let j = self.place(*p);
                J::O(vec![("k", s("use")), ("a", J::O(vec![("k", s("copy")), ("p", j)]))])
            }
            o => J::O(vec![("k", s("other")), ("txt", s(format!("{o:?}")))]),
        }
    }
    fn run(&mut self) -> J {
        let tcx = self.cx.tcx;
        let body = self.body;
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv: Vec<J> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.index(), v.name.to_string());
                } else {
                    upv.push(s(v.name.as_str()));
                }
            }
        }
        let mut locals = vec![];
        for (i, d) in body.local_decls.iter_enumerated() {
            let t = self.inst(d.ty);
            let mut o = vec![("ty", s(tystr(t)))];
            let mut base = t;
            while let ty::Ref(_, x, _) = base.kind() {
                base = *x;
            }
            if let ty::Adt(a, _) = base.kind() {
                o.push(("adt", s(self.cx.adt(*a))));
            }
            if let Some(n) = names.get(&i.index()) {
                o.push(("name", s(n.clone())));
            }
            locals.push(J::O(o));
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let r = self.rv(&a.1);
                        let p = self.place(a.0);
                        let sp = self.span(x.source_info.span);
                        st.push(J::O(vec![("s", s("=")), ("p", p), ("r", r), ("sp", sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = self.place_ty(**place);
                        let name = match t.kind() {
                            ty::Adt(a, _) => a.variant(*variant_index).name.to_string(),
                            _ => String::new(),
                        };
                        let p = self.place(**place);
                        st.push(J::O(vec![("s", s("setd")), ("p", p), ("v", s(name))]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::O(vec![("s", s("dead")), ("l", J::I(l.index() as i128))]));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let bb = |x: BasicBlock| J::I(x.index() as i128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("t", bb(*target))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = self.inst(discr.ty(&body.local_decls, tcx));
                    let d = self.op(discr);
                    let mut v = vec![];
                    for (val, t) in targets.iter() {
                        let vj = match ty.kind() {
                            ty::Bool => J::B(val != 0),
                            ty::Char => s(char::from_u32(val as u32).unwrap_or('?').to_string()),
                            _ => J::I(signed(val, ty, tcx)),
                        };
                        v.push(J::A(vec![vj, bb(t)]));
                    }
                    J::O(vec![("k", s("switch")), ("d", d), ("ty", s(tystr(ty))), ("v", J::A(v)), ("o", bb(targets.otherwise()))])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = self.inst(func.ty(&body.local_decls, tcx));
                    let mut o = vec![("k", s("call"))];
                    let (env, ek) = (self.item.env, self.item.envkey.clone());
                    if let ty::FnDef(d, a) = fty.kind() {
                        let a = a.no_bound_vars().expect("late-bound fn args");
                        let c = self.cx.callee(*d, a, env, &ek);
                        o.push(("f", c));
                        if let Some(ii) = self.cx.iter_info(*d, a, env, &ek) {
                            o.push(("iter", ii));
                        }
                    } else {
                        let f = self.op(func);
                        o.push(("fop", f));
                    }
                    let av: Vec<J> = args.iter().map(|x| self.op(&x.node)).collect();
                    o.push(("args", J::A(av)));
                    let dty = self.place_ty(*destination);
                    let d = self.place(*destination);
                    o.push(("dest", d));
                    o.push(("dty", s(tystr(dty))));
                    o.push(("t", target.map(bb).unwrap_or(J::Null)));
                    J::O(o)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond);
                    let (kind, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("Bounds".into(), vec![self.op(len), self.op(index)]),
                        AssertKind::Overflow(b, x, y) => (format!("Overflow:{b:?}"), vec![self.op(x), self.op(y)]),
                        AssertKind::OverflowNeg(x) => ("Overflow:Neg".into(), vec![self.op(x)]),
                        AssertKind::DivisionByZero(x) => ("DivZero".into(), vec![self.op(x)]),
                        AssertKind::RemainderByZero(x) => ("RemZero".into(), vec![self.op(x)]),
                        _ => ("Other".into(), vec![]),
                    };
                    J::O(vec![("k", s("assert")), ("c", c), ("e", J::B(*expected)), ("m", s(kind)), ("ops", J::A(ops)), ("t", bb(*target))])
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = self.place_ty(*place);
                    let p = self.place(*place);
                    J::O(vec![("k", s("drop")), ("p", p), ("ty", s(tystr(ty))), ("t", bb(*target))])
                }
                TerminatorKind::Return => J::O(vec![("k", s("ret"))]),
                TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::O(vec![("k", s("unwind"))]),
                o => J::O(vec![("k", s("other")), ("txt", s(format!("{o:?}")))]),
            };
            let tj = match tj {
                J::O(mut v) => {
                    v.push(("sp", sp));
                    J::O(v)
                }
                x => x,
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("cu", J::B(b.is_cleanup))]));
        }
        let d = self.item.inst.def_id();
        let mut o = vec![
            ("path", s(self.cx.rawpath(d))),
            ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_else(|| "{closure}".into()))),
            ("local", J::B(d.is_local())),
            ("kind", s(format!("{:?}", tcx.def_kind(d)))),
            ("sp", self.span(tcx.def_span(d))),
            ("argc", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ];
        if let Some(l) = body.spread_arg {
            o.push(("spread", J::I(l.index() as i128)));
        }
        if d.is_local() && !matches!(tcx.def_kind(d), DefKind::Closure) {
            let pubv = tcx.effective_visibilities(()).is_reachable(d.expect_local());
            o.push(("pub", J::B(pubv)));
            let anyp = tcx.visibility(d);
            o.push(("vis", J::B(anyp.is_public())));
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let sname = match st.kind() {
                ty::Adt(a, _) => self.cx.rawpath(a.did()),
                _ => tystr(st),
            };
            o.push(("impl_self", s(sname)));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                o.push(("impl_trait", s(self.cx.rawpath(tr.skip_binder().def_id))));
            }
        }
        if !upv.is_empty() {
            o.push(("upv", J::A(upv)));
        }
        J::O(o)
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let Ok(dir) = std::env::var("MIRFACTS_OUT") else { return rustc_driver::Compilation::Continue };
        let mut cx = Cx { tcx, queue: VecDeque::new(), seen: HashSet::new(), adts: BTreeMap::new(), out: vec![] };
        let mut roots = vec![];
        for &ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let env = TypingEnv::post_analysis(tcx, d);
            let mut preds: Vec<String> = tcx
                .clauses_of(d)
                .instantiate_identity(tcx)
                .clauses
                .iter()
                .map(|p| with_no_trimmed_paths!(format!("{:?}", p)))
                .filter(|p| !p.contains("RegionOutlives") && !p.contains("TypeOutlives"))
                .collect();
            preds.sort();
            let g: Vec<String> = args.iter().filter(|a| a.as_region().is_none()).map(|a| format!("{a:?}")).collect();
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (preds, g).hash(&mut h);
            let envkey = format!("{:x}", h.finish() & 0xffffff);
            let inst = Instance { def: InstanceKind::Item(d), args };
            let k = cx.enqueue(Item { inst, env, envkey, promoted: None });
            roots.push(s(k));
        }
        while let Some(it) = cx.queue.pop_front() {
            let k = cx.key(&it);
            let d = it.inst.def_id();
            let body: &'tcx Body<'tcx> = match it.promoted {
                Some(p) => &tcx.promoted_mir(d)[Promoted::from_usize(p)],
                None => tcx.instance_mir(it.inst.def),
            };
            let j = {
                let mut fx = Fx { cx: &mut cx, item: it, body };
                fx.run()
            };
            cx.out.push((k, j));
        }
        let adts: Vec<(String, J)> = cx.adts.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        let statics: Vec<J> = tcx
            .hir_crate_items(())
            .definitions()
            .filter(|d| matches!(tcx.def_kind(*d), DefKind::Static { .. }))
            .map(|d| {
                let ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::fully_monomorphized();
                J::O(vec![
                    ("path", s(cx.rawpath(d.to_def_id()))),
                    ("ty", s(tystr(ty))),
                    ("mut", J::B(tcx.is_mutable_static(d.to_def_id()))),
                    ("freeze", J::B(ty.is_freeze(tcx, env))),
                ])
            })
            .collect();
        let crate_name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let j = J::O(vec![
            ("crate", s(crate_name.clone())),
            ("roots", J::A(roots)),
            ("statics", J::A(statics)),
            ("adts", J::M(adts)),
            ("fns", J::M(std::mem::take(&mut cx.out))),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        let kinds: Vec<String> = tcx.crate_types().iter().map(|c| format!("{c:?}")).collect();
        let f = format!("{dir}/{}-{}.json", crate_name, kinds.join("_").to_lowercase());
        std::fs::write(&f, o).expect("write facts");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    if std::env::var("MIRFACTS_OUT").is_ok() && args.iter().any(|a| a == "--crate-name") {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=on".into());
        args.push("-Awarnings".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
