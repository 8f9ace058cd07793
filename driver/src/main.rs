//! rustc driver that dumps the type-checked, resolved MIR of a crate as JSON.
//!
//! It is injected with RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real
//! rustc.  The MIR that is dumped is `mir_promoted` (what the borrow checker
//! sees): it has all panic edges, overflow checks and bounds checks, no
//! optimisation and no drop flags.  Nothing of the analysed crate is executed
//! except const-evaluation of constants by the compiler itself.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    adts: HashMap<DefId, String>,
    adt_order: Vec<DefId>,
}

fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{:?}", tcx.def_path_hash(d)).replace("DefPathHash(Fingerprint(", "").replace("))", "").replace(", ", "-")
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(
        tcx.def_path_str(d)
    ))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}:{}", name, lo.line, lo.col.0 + 1)
    }

    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                ty::GenericArgKind::Type(t) => v.push(format!("{}", self.ty(t))),
                ty::GenericArgKind::Const(c) => v.push(format!("{{\"c\":{}}}", self.tconst(c))),
                ty::GenericArgKind::Lifetime(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        format!("[{}]", v.join(","))
    }

    fn tconst(&mut self, c: ty::Const<'tcx>) -> String {
        match c.try_to_target_usize(self.tcx) {
            Some(n) => format!("{}", n),
            None => {
                let env = ty::TypingEnv::fully_monomorphized();
                if let Ok(c2) = self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(c)) {
                    if let Some(n) = c2.try_to_target_usize(self.tcx) {
                        return format!("{}", n);
                    }
                }
                esc(&format!("{:?}", c))
            }
        }
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if self.adts.contains_key(&def.did()) {
            return;
        }
        let tcx = self.tcx;
        self.adts.insert(def.did(), String::new());
        self.adt_order.push(def.did());
        let mut vs = vec![];
        let discrs: Vec<_> = if def.is_enum() {
            def.discriminants(tcx).map(|(_, d)| d.val.to_string()).collect()
        } else {
            vec![]
        };
        for (i, v) in def.variants().iter().enumerate() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                // Types of fields are only spelled out for workspace ADTs and a few std enums.
                let full = def.did().is_local() || def.is_enum();
                let t = if full { self.ty(ft).to_string() } else { esc(&ft.to_string()) };
                fs.push(format!("{{\"n\":{},\"t\":{},\"pub\":{}}}", esc(f.name.as_str()), t, f.vis.is_public()));
            }
            let d = discrs.get(i).cloned().unwrap_or("0".into());
            vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(v.name.as_str()), d, fs.join(",")));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let mut gen = vec![];
        let generics = tcx.generics_of(def.did());
        for p in &generics.own_params {
            match p.kind {
                ty::GenericParamDefKind::Lifetime => {}
                _ => gen.push(esc(p.name.as_str())),
            }
        }
        let j = format!(
            "{{\"path\":{},\"key\":{},\"kind\":\"{}\",\"local\":{},\"gen\":[{}],\"span\":{},\"variants\":[{}]}}",
            esc(&path(tcx, def.did())),
            esc(&key(tcx, def.did())),
            kind,
            def.did().is_local(),
            gen.join(","),
            esc(&self.span(tcx.def_span(def.did()))),
            vs.join(",")
        );
        self.adts.insert(def.did(), j);
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(String::new());
        let tcx = self.tcx;
        let j = match *t.kind() {
            ty::Bool => "{\"k\":\"bool\"}".into(),
            ty::Char => "{\"k\":\"char\"}".into(),
            ty::Str => "{\"k\":\"str\"}".into(),
            ty::Never => "{\"k\":\"never\"}".into(),
            ty::Int(it) => {
                let b = it.bit_width().unwrap_or(64);
                format!("{{\"k\":\"int\",\"s\":true,\"b\":{},\"n\":{}}}", b, esc(it.name_str()))
            }
            ty::Uint(it) => {
                let b = it.bit_width().unwrap_or(64);
                format!("{{\"k\":\"int\",\"s\":false,\"b\":{},\"n\":{}}}", b, esc(it.name_str()))
            }
            ty::Float(f) => format!("{{\"k\":\"float\",\"n\":{}}}", esc(f.name_str())),
            ty::Adt(def, args) => {
                self.adt(def);
                let a = self.args(args);
                format!("{{\"k\":\"adt\",\"p\":{},\"key\":{},\"a\":{}}}", esc(&path(tcx, def.did())), esc(&key(tcx, def.did())), a)
            }
            ty::Ref(_, inner, m) => {
                let x = self.ty(inner);
                format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}}}", m.is_mut(), x)
            }
            ty::RawPtr(inner, m) => {
                let x = self.ty(inner);
                format!("{{\"k\":\"ptr\",\"m\":{},\"t\":{}}}", m.is_mut(), x)
            }
            ty::Slice(inner) => {
                let x = self.ty(inner);
                format!("{{\"k\":\"slice\",\"t\":{}}}", x)
            }
            ty::Array(inner, n) => {
                let x = self.ty(inner);
                let n = self.tconst(n);
                format!("{{\"k\":\"array\",\"t\":{},\"len\":{}}}", x, n)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"a\":[{}]}}", v.join(","))
            }
            ty::FnDef(d, args) => {
                let a = self.args(args.no_bound_vars().unwrap_or(ty::List::empty()));
                let d: DefId = d.into();
                format!(
                    "{{\"k\":\"fndef\",\"p\":{},\"key\":{},\"a\":{},\"crate\":{},\"unsafe\":{}}}",
                    esc(&path(tcx, d)),
                    esc(&key(tcx, d)),
                    a,
                    esc(tcx.crate_name(d.krate).as_str()),
                    !tcx.fn_sig(d).skip_binder().safety().is_safe()
                )
            }
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"n\":{}}}", esc(&t.to_string())),
            ty::Closure(d, args) => {
                let d: DefId = d.into();
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"closure\",\"p\":{},\"key\":{},\"up\":[{}]}}", esc(&path(tcx, d)), esc(&key(tcx, d)), ups.join(","))
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", esc(p.name.as_str())),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"n\":{}}}", esc(&t.to_string())),
            _ => format!("{{\"k\":\"other\",\"n\":{}}}", esc(&t.to_string())),
        };
        self.type_json[i] = j;
        i
    }

    fn bytes(b: &[u8]) -> String {
        let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
        format!("[{}]", v.join(","))
    }

    fn read_alloc(&mut self, alloc: &interpret::Allocation, off: u64, t: Ty<'tcx>, depth: usize) -> Option<String> {
        if depth > 8 {
            return None;
        }
        let tcx = self.tcx;
        let env = ty::TypingEnv::fully_monomorphized();
        let lay = tcx.layout_of(env.as_query_input(t)).ok()?;
        let size = lay.size.bytes();
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + size) as usize);
                let mut v: u128 = 0;
                for (i, x) in b.iter().enumerate() {
                    v |= (*x as u128) << (8 * i);
                }
                if let ty::Int(_) = t.kind() {
                    let sh = 128 - 8 * size as u32;
                    let s = ((v << sh) as i128) >> sh;
                    return Some(format!("{{\"k\":\"int\",\"v\":{}}}", s));
                }
                Some(format!("{{\"k\":\"int\",\"v\":{}}}", v))
            }
            ty::Array(el, n) => {
                let n = n.try_to_target_usize(tcx)?;
                let el_size = tcx.layout_of(env.as_query_input(el)).ok()?.size.bytes();
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.read_alloc(alloc, off + i * el_size, el, depth + 1)?);
                }
                Some(format!("{{\"k\":\"array\",\"v\":[{}]}}", v.join(",")))
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    let o = lay.fields.offset(i).bytes();
                    v.push(self.read_alloc(alloc, off + o, ft, depth + 1)?);
                }
                Some(format!("{{\"k\":\"tuple\",\"v\":[{}]}}", v.join(",")))
            }
            ty::Adt(def, args) if def.is_struct() => {
                let mut v = vec![];
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let ft = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft)).ok()?;
                    let o = lay.fields.offset(i).bytes();
                    v.push(self.read_alloc(alloc, off + o, ft, depth + 1)?);
                }
                Some(format!("{{\"k\":\"adt\",\"var\":0,\"v\":[{}]}}", v.join(",")))
            }
            ty::Adt(def, _) if def.is_enum() => {
                // field-less enums with a direct tag
                let variants = def.variants();
                if variants.iter().any(|v| !v.fields.is_empty()) {
                    return None;
                }
                let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + size) as usize);
                let mut v: u128 = 0;
                for (i, x) in b.iter().enumerate() {
                    v |= (*x as u128) << (8 * i);
                }
                for (i, d) in def.discriminants(tcx) {
                    if d.val == v {
                        return Some(format!("{{\"k\":\"adt\",\"var\":{},\"v\":[]}}", i.as_usize()));
                    }
                }
                None
            }
            ty::Ref(_, inner, _) => {
                let prov = alloc.provenance().ptrs().iter().find(|(o, _)| o.bytes() == off)?;
                let aid = prov.1.alloc_id();
                let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..off as usize + 8);
                let po = u64::from_le_bytes(b.try_into().ok()?);
                let target = match tcx.global_alloc(aid) {
                    interpret::GlobalAlloc::Memory(m) => m,
                    _ => return None,
                };
                let target = target.inner();
                match *inner.kind() {
                    ty::Str => {
                        let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(off as usize + 8..off as usize + 16);
                        let n = u64::from_le_bytes(b.try_into().ok()?);
                        let data = target.inspect_with_uninit_and_ptr_outside_interpreter(po as usize..(po + n) as usize);
                        Some(format!("{{\"k\":\"str\",\"v\":{}}}", Self::bytes(data)))
                    }
                    ty::Slice(el) => {
                        let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(off as usize + 8..off as usize + 16);
                        let n = u64::from_le_bytes(b.try_into().ok()?);
                        let el_size = tcx.layout_of(env.as_query_input(el)).ok()?.size.bytes();
                        let mut v = vec![];
                        for i in 0..n {
                            v.push(self.read_alloc(target, po + i * el_size, el, depth + 1)?);
                        }
                        Some(format!("{{\"k\":\"slice\",\"v\":[{}]}}", v.join(",")))
                    }
                    _ => {
                        let x = self.read_alloc(target, po, inner, depth + 1)?;
                        Some(format!("{{\"k\":\"refto\",\"v\":{}}}", x))
                    }
                }
            }
            _ => None,
        }
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => {
                if let ty::FnDef(..) | ty::Closure(..) = t.kind() {
                    return Some("{\"k\":\"fn\"}".into());
                }
                Some("{\"k\":\"zst\"}".into())
            }
            ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                if let ty::Int(_) = t.kind() {
                    Some(format!("{{\"k\":\"int\",\"v\":{}}}", i.to_int(i.size())))
                } else if let ty::Adt(def, args) = t.kind() {
                    if def.is_struct() {
                        // newtype around a scalar
                        let mut nz = None;
                        for f in def.non_enum_variant().fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            if nz.is_none() {
                                nz = Some(ft);
                            }
                        }
                        let ft = nz?;
                        let x = self.const_val(v, ft)?;
                        return Some(format!("{{\"k\":\"adt\",\"var\":0,\"v\":[{}]}}", x));
                    }
                    if def.is_enum() && def.variants().iter().all(|v| v.fields.is_empty()) {
                        let bits = i.to_bits(i.size());
                        for (vi, d) in def.discriminants(tcx) {
                            if d.val == bits {
                                return Some(format!("{{\"k\":\"adt\",\"var\":{},\"v\":[]}}", vi.as_usize()));
                            }
                        }
                    }
                    None
                } else {
                    Some(format!("{{\"k\":\"int\",\"v\":{}}}", i.to_bits(i.size())))
                }
            }
            ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                let inner = match *t.kind() {
                    ty::Ref(_, i, _) | ty::RawPtr(i, _) => i,
                    _ => return None,
                };
                let (prov, off) = p.into_raw_parts();
                match tcx.global_alloc(prov.alloc_id()) {
                    interpret::GlobalAlloc::Memory(m) => {
                        let x = self.read_alloc(m.inner(), off.bytes(), inner, 0)?;
                        Some(format!("{{\"k\":\"refto\",\"v\":{}}}", x))
                    }
                    _ => None,
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                let inner = t.builtin_deref(true)?;
                let a = match tcx.global_alloc(alloc_id) {
                    interpret::GlobalAlloc::Memory(m) => m,
                    _ => return None,
                };
                match *inner.kind() {
                    ty::Str => {
                        let d = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                        Some(format!("{{\"k\":\"str\",\"v\":{}}}", Self::bytes(d)))
                    }
                    ty::Slice(el) => {
                        let env = ty::TypingEnv::fully_monomorphized();
                        let el_size = tcx.layout_of(env.as_query_input(el)).ok()?.size.bytes();
                        let mut v = vec![];
                        for i in 0..meta {
                            v.push(self.read_alloc(a.inner(), i * el_size, el, 0)?);
                        }
                        Some(format!("{{\"k\":\"slice\",\"v\":[{}]}}", v.join(",")))
                    }
                    _ => None,
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let a = match tcx.global_alloc(alloc_id) {
                    interpret::GlobalAlloc::Memory(m) => m,
                    _ => return None,
                };
                self.read_alloc(a.inner(), offset.bytes(), t, 0)
            }
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut name = String::new();
        let val = match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    return format!("{{\"k\":\"promoted\",\"t\":{},\"i\":{}}}", ti, p.as_usize());
                }
                name = path(tcx, u.def);
                if u.args.has_param() {
                    None
                } else {
                    c.const_.eval(tcx, env, c.span).ok()
                }
            }
            Const::Val(v, _) => Some(v),
            Const::Ty(_, ct) => {
                if ct.has_param() {
                    name = format!("{:?}", ct);
                    None
                } else {
                    c.const_.eval(tcx, env, c.span).ok()
                }
            }
        };
        let v = match val {
            Some(v) => self.const_val(v, t).unwrap_or_else(|| "{\"k\":\"opaque\"}".into()),
            None => "{\"k\":\"opaque\"}".into(),
        };
        format!("{{\"k\":\"const\",\"t\":{},\"v\":{},\"n\":{}}}", ti, v, esc(&name))
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"idx\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"cidx\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, vi) => format!("[\"dc\",{}]", vi.as_usize()),
                _ => "[\"opaque\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_usize(), v.join(","))
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.constant(c, env),
            _ => "{\"k\":\"rtcheck\"}".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(o, env)),
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o, env);
                format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", o, self.tconst(*n))
            }
            Rvalue::Ref(_, bk, p) => {
                let fake = matches!(bk, BorrowKind::Fake(_));
                format!("{{\"k\":\"ref\",\"m\":{},\"fake\":{},\"p\":{}}}", matches!(bk, BorrowKind::Mut { .. }), fake, self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"rawptr\",\"p\":{}}}", self.place(p)),
            Rvalue::Cast(ck, o, t) => {
                let src = o.ty(body, tcx);
                let (s, o, d) = (self.ty(src), self.operand(o, env), self.ty(*t));
                format!("{{\"k\":\"cast\",\"c\":{},\"o\":{},\"s\":{},\"t\":{}}}", esc(&format!("{:?}", ck)), o, s, d)
            }
            Rvalue::BinaryOp(op, b) => {
                let (x, y) = &**b;
                let t = self.ty(x.ty(body, tcx));
                let (x, y) = (self.operand(x, env), self.operand(y, env));
                format!("{{\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{},\"t\":{}}}", esc(&format!("{:?}", op)), x, y, t)
            }
            Rvalue::UnaryOp(op, o) => {
                let t = self.ty(o.ty(body, tcx));
                format!("{{\"k\":\"un\",\"op\":{},\"o\":{},\"t\":{}}}", esc(&format!("{:?}", op)), self.operand(o, env), t)
            }
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::Aggregate(ak, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                let kind = match &**ak {
                    AggregateKind::Array(t) => format!("\"a\":\"array\",\"t\":{}", self.ty(*t)),
                    AggregateKind::Tuple => "\"a\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let d: DefId = (*d).into();
                        self.adt(tcx.adt_def(d));
                        let a = self.args(args);
                        format!("\"a\":\"adt\",\"key\":{},\"path\":{},\"var\":{},\"args\":{}", esc(&key(tcx, d)), esc(&path(tcx, d)), vi.as_usize(), a)
                    }
                    AggregateKind::Closure(d, _) => {
                        let d: DefId = (*d).into();
                        format!("\"a\":\"closure\",\"key\":{}", esc(&key(tcx, d)))
                    }
                    _ => "\"a\":\"other\"".to_string(),
                };
                format!("{{\"k\":\"agg\",{},\"ops\":[{}]}}", kind, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(p)),
            Rvalue::Reborrow(_, m, p) => {
                format!("{{\"k\":\"reborrow\",\"m\":{},\"p\":{}}}", m.is_mut(), self.place(p))
            }
            _ => format!("{{\"k\":\"other\",\"n\":{}}}", esc(&format!("{:?}", r))),
        }
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut res = String::from("null");
        let mut imp = String::from("null");
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
            let rd = inst.def_id();
            let kind = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Intrinsic(_) => "intrinsic",
                _ => "shim",
            };
            let ra = self.args(inst.args);
            res = format!(
                "{{\"p\":{},\"key\":{},\"kind\":\"{}\",\"a\":{},\"crate\":{}}}",
                esc(&path(tcx, rd)),
                esc(&key(tcx, rd)),
                kind,
                ra,
                esc(tcx.crate_name(rd.krate).as_str())
            );
        }
        let mut self_ty = String::from("null");
        if let Some(tr) = tcx.trait_of_assoc(d) {
            imp = esc(&path(tcx, tr));
            if args.len() > 0 {
                if let Some(t) = args[0].as_type() {
                    self_ty = self.ty(t).to_string();
                }
            }
        } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let t = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            self_ty = self.ty(t).to_string();
        }
        let unsafety = !tcx.fn_sig(d).skip_binder().safety().is_safe();
        let a = self.args(args);
        format!(
            "{{\"p\":{},\"key\":{},\"a\":{},\"trait\":{},\"self\":{},\"res\":{},\"name\":{},\"unsafe\":{},\"crate\":{}}}",
            esc(&path(tcx, d)),
            esc(&key(tcx, d)),
            a,
            imp,
            self_ty,
            res,
            esc(tcx.item_name(d).as_str()),
            unsafety,
            esc(tcx.crate_name(d.krate).as_str())
        )
    }

    fn body(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut names: HashMap<usize, String> = HashMap::new();
        for vi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = vi.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), vi.name.to_string());
                }
            }
        }
        let mut ls = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            match names.get(&l.as_usize()) {
                Some(n) => ls.push(format!("{{\"t\":{},\"n\":{}}}", t, esc(n))),
                None => ls.push(format!("{{\"t\":{}}}", t)),
            }
        }
        let mut bs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(p);
                        let rj = self.rvalue(r, env, body);
                        ss.push(format!("{{\"k\":\"assign\",\"p\":{},\"r\":{},\"sp\":{}}}", pj, rj, esc(&sp)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("{{\"k\":\"setdiscr\",\"p\":{},\"v\":{}}}", self.place(place), variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => {
                        ss.push(format!("{{\"k\":\"intrinsic\",\"n\":{},\"sp\":{}}}", esc(&format!("{:?}", i)), esc(&sp)));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let exp = t.source_info.span.from_expansion();
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("\"k\":\"goto\",\"to\":{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = self.ty(discr.ty(body, tcx));
                    let d = self.operand(discr, env);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!("\"k\":\"switch\",\"d\":{},\"t\":{},\"v\":[{}],\"else\":{}", d, dt, v.join(","), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "\"k\":\"return\"".into(),
                TerminatorKind::Unreachable => "\"k\":\"unreachable\"".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("\"k\":\"drop\",\"p\":{},\"to\":{}", self.place(place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|o| self.operand(&o.node, env)).collect();
                    let f = match func.ty(body, tcx).kind() {
                        ty::FnDef(d, ga) => {
                            let d: DefId = (*d).into();
                            let ga = tcx.erase_and_anonymize_regions(ga.skip_binder());
                            self.callee(d, ga, env)
                        }
                        _ => format!("{{\"dyn\":{}}}", self.operand(func, env)),
                    };
                    let dst = self.place(destination);
                    format!(
                        "\"k\":\"call\",\"f\":{},\"args\":[{}],\"dst\":{},\"to\":{}",
                        f,
                        a.join(","),
                        dst,
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, env);
                    let (kind, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow-{:?}", op), vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflow-neg".into(), vec![a]),
                        AssertKind::DivisionByZero(a) => ("div-zero".into(), vec![a]),
                        AssertKind::RemainderByZero(a) => ("rem-zero".into(), vec![a]),
                        _ => ("other".into(), vec![]),
                    };
                    let o: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                    format!("\"k\":\"assert\",\"c\":{},\"e\":{},\"msg\":{},\"ops\":[{}],\"to\":{}", c, expected, esc(&kind), o.join(","), target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("\"k\":\"goto\",\"to\":{}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("\"k\":\"goto\",\"to\":{}", real_target.as_usize()),
                TerminatorKind::UnwindResume => "\"k\":\"resume\"".into(),
                _ => "\"k\":\"other\"".into(),
            };
            bs.push(format!("{{\"s\":[{}],\"t\":{{{},\"sp\":{},\"exp\":{},\"mac\":{}}},\"cl\":{}}}", ss.join(","), tj, esc(&sp), exp, esc(&mac(tcx, t.source_info.span)), bb.is_cleanup));
        }
        format!("\"argc\":{},\"locals\":[{}],\"blocks\":[\n{}]", body.arg_count, ls.join(","), bs.join(",\n"))
    }
}

/// The crate of the macro that wrote the code at this place, or nothing.
fn mac(tcx: TyCtxt<'_>, sp: Span) -> String {
    if !sp.from_expansion() {
        return String::new();
    }
    match sp.ctxt().outer_expn_data().macro_def_id {
        Some(d) => tcx.crate_name(d.krate).to_string(),
        None => "core".to_string(),
    }
}

/// Operations of a body that can leave the safe language, and the statics it refers to.
struct Ops<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    ops: Vec<(String, Span, usize)>,
}

impl<'a, 'tcx> rustc_middle::mir::visit::Visitor<'tcx> for Ops<'a, 'tcx> {
    fn visit_place(&mut self, place: &Place<'tcx>, ctx: rustc_middle::mir::visit::PlaceContext, loc: Location) {
        for (base, elem) in place.as_ref().iter_projections() {
            let t = base.ty(self.body, self.tcx).ty;
            let sp = self.body.source_info(loc).span;
            match elem {
                ProjectionElem::Deref if t.is_raw_ptr() => {
                    // a static is reached through a pointer constant, listed as such
                    let st = base.projection.is_empty() && matches!(self.body.local_decls[base.local].local_info(), LocalInfo::StaticRef { .. });
                    if !st && ctx.is_use() && !matches!(ctx, rustc_middle::mir::visit::PlaceContext::NonMutatingUse(rustc_middle::mir::visit::NonMutatingUseContext::RawBorrow) | rustc_middle::mir::visit::PlaceContext::MutatingUse(rustc_middle::mir::visit::MutatingUseContext::RawBorrow)) {
                        self.ops.push(("raw pointer dereference".into(), sp, loc.block.as_usize()));
                    }
                }
                ProjectionElem::Field(..) if t.is_union() => self.ops.push(("union field".into(), sp, loc.block.as_usize())),
                _ => {}
            }
        }
        self.super_place(place, ctx, loc);
    }
    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, loc: Location) {
        if let Some(d) = c.check_static_ptr(self.tcx) {
            let m = if self.tcx.is_mutable_static(d) { "mutable static" } else { "static" };
            self.ops.push((format!("{} {}", m, path(self.tcx, d)), c.span, loc.block.as_usize()));
        }
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, loc: Location) {
        let sp = self.body.source_info(loc).span;
        match r {
            Rvalue::ThreadLocalRef(d) => self.ops.push((format!("thread local {}", path(self.tcx, *d)), sp, loc.block.as_usize())),
            Rvalue::Cast(CastKind::Transmute, ..) => self.ops.push(("transmute".into(), sp, loc.block.as_usize())),
            Rvalue::Cast(CastKind::PointerExposeProvenance, ..) => self.ops.push(("address of a pointer".into(), sp, loc.block.as_usize())),
            Rvalue::Cast(CastKind::PointerWithExposedProvenance, ..) => self.ops.push(("pointer from an integer".into(), sp, loc.block.as_usize())),
            _ => {}
        }
        self.super_rvalue(r, loc);
    }
    fn visit_terminator(&mut self, t: &Terminator<'tcx>, loc: Location) {
        if let TerminatorKind::InlineAsm { .. } = t.kind {
            self.ops.push(("inline assembly".into(), t.source_info.span, loc.block.as_usize()));
        }
        self.super_terminator(t, loc);
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out_dir: &str) {
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let is_bin = tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable");
    let mut cx = Cx { tcx, types: HashMap::new(), type_json: vec![], adts: HashMap::new(), adt_order: vec![] };
    // Collect clones of all bodies before anything can steal them.
    let mut all: Vec<(LocalDefId, Body<'tcx>, Vec<Body<'tcx>>)> = vec![];
    for d in tcx.hir_body_owners() {
        let (b, p) = tcx.mir_promoted(d);
        all.push((d, b.borrow().clone(), p.borrow().iter().cloned().collect()));
    }
    let mut fns = vec![];
    for (d, b, proms) in &all {
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        let env = ty::TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(did));
        let bj = cx.body(b, env);
        let mut ops = vec![];
        for q in std::iter::once(b).chain(proms.iter()) {
            let mut v = Ops { tcx, body: q, ops: vec![] };
            rustc_middle::mir::visit::Visitor::visit_body(&mut v, q);
            for (o, sp, n) in v.ops {
                ops.push(format!("[{},{},{},{}]", esc(&o), esc(&cx.span(sp)), esc(&mac(tcx, sp)), n));
            }
        }
        let mut pj = vec![];
        for p in proms {
            pj.push(format!("{{{}}}", cx.body(p, env)));
        }
        let ks = match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Closure => "closure",
            DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
            DefKind::Static { .. } => "static",
            _ => "other",
        };
        let root = tcx.typeck_root_def_id(did);
        let mut imp = "null".to_string();
        let mut tr = "null".to_string();
        let mut selfty = "null".to_string();
        if let Some(im) = tcx.impl_of_assoc(did) {
            imp = esc(&path(tcx, im));
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            selfty = cx.ty(st).to_string();
            if let Some(t) = tcx.impl_opt_trait_ref(im) {
                let t = t.instantiate_identity().skip_norm_wip();
                let a = cx.args(t.args);
                tr = format!("{{\"p\":{},\"a\":{}}}", esc(&path(tcx, t.def_id)), a);
            }
        }
        let vis = if !matches!(kind, DefKind::Fn | DefKind::AssocFn) { "none".to_string() } else if tcx.visibility(did).is_public() { "pub".into() } else { "restricted".into() };
        let is_unsafe = if matches!(kind, DefKind::Fn | DefKind::AssocFn) { !tcx.fn_sig(did).skip_binder().safety().is_safe() } else { false };
        let mut gen = vec![];
        {
            let mut g = Some(tcx.generics_of(tcx.typeck_root_def_id(did)));
            let mut chain = vec![];
            while let Some(x) = g {
                chain.push(x);
                g = x.parent.map(|p| tcx.generics_of(p));
            }
            for x in chain.iter().rev() {
                for p in &x.own_params {
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        gen.push(esc(p.name.as_str()));
                    }
                }
            }
        }
        let derived = tcx.impl_of_assoc(did).map(|im| tcx.is_automatically_derived(im)).unwrap_or(false);
        fns.push(format!(
            "{{\"key\":{},\"path\":{},\"root\":{},\"kind\":\"{}\",\"vis\":\"{}\",\"unsafe\":{},\"derived\":{},\"impl\":{},\"trait\":{},\"selfty\":{},\"gen\":[{}],\"span\":{},\"ops\":[{}],{},\"promoted\":[{}]}}",
            esc(&key(tcx, did)),
            esc(&path(tcx, did)),
            esc(&key(tcx, root)),
            ks,
            vis,
            is_unsafe,
            derived,
            imp,
            tr,
            selfty,
            gen.join(","),
            esc(&cx.span(tcx.def_span(did))),
            ops.join(","),
            bj,
            pj.join(",")
        ));
    }
    // Unsafe blocks, from the HIR.
    let mut adts = vec![];
    for d in cx.adt_order.clone() {
        adts.push(cx.adts[&d].clone());
    }
    // all local ADTs
    let mut local_adts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
            let def = tcx.adt_def(id.to_def_id());
            cx.adt(def);
            let t = tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip();
            let ti = cx.ty(t);
            let env = tcx.param_env(id.to_def_id());
            let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
            let has = |tr: Option<DefId>| match tr {
                Some(tr) => infcx.type_implements_trait(tr, [t], env).must_apply_modulo_regions(),
                None => false,
            };
            let send = has(tcx.get_diagnostic_item(rustc_span::sym::Send));
            let sync = has(tcx.lang_items().sync_trait());
            let vis = tcx.visibility(id.to_def_id()).is_public();
            let params = tcx.generics_of(id.to_def_id()).requires_monomorphization(tcx);
            local_adts.push(format!(
                "{{\"t\":{},\"path\":{},\"send\":{},\"sync\":{},\"pub\":{},\"params\":{},\"span\":{}}}",
                ti,
                esc(&path(tcx, id.to_def_id())),
                send,
                sync,
                vis,
                params,
                esc(&cx.span(tcx.def_span(id.to_def_id())))
            ));
        }
    }
    let mut impls = vec![];
    let mut foreign = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        match tcx.def_kind(id) {
            DefKind::Impl { of_trait: true } => {
                let h = tcx.impl_trait_header(id.to_def_id());
                let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                let un = !h.safety.is_safe();
                let st = cx.ty(tr.self_ty());
                impls.push(format!(
                    "{{\"trait\":{},\"self\":{},\"unsafe\":{},\"derived\":{},\"positive\":{}}}",
                    esc(&path(tcx, tr.def_id)),
                    st,
                    un,
                    tcx.is_automatically_derived(id.to_def_id()),
                    h.polarity == ty::ImplPolarity::Positive
                ));
            }
            DefKind::ForeignMod | DefKind::GlobalAsm => foreign.push(esc(&cx.span(tcx.def_span(id.to_def_id())))),
            _ => {}
        }
    }
    let mut statics = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        if let DefKind::Static { mutability, .. } = tcx.def_kind(id) {
            let d = id.to_def_id();
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let freeze = t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
            statics.push(format!(
                "{{\"path\":{},\"t\":{},\"mut\":{},\"freeze\":{},\"span\":{}}}",
                esc(&path(tcx, d)),
                cx.ty(t),
                mutability.is_mut(),
                freeze,
                esc(&cx.span(tcx.def_span(d)))
            ));
        }
    }
    adts.clear();
    for d in cx.adt_order.clone() {
        adts.push(cx.adts[&d].clone());
    }
    let s = format!(
        "{{\"crate\":{},\"bin\":{},\"types\":[\n{}],\n\"adts\":[\n{}],\n\"local_adts\":[{}],\n\"statics\":[{}],\n\"impls\":[{}],\n\"foreign\":[{}],\n\"fns\":[\n{}]}}\n",
        esc(&krate),
        is_bin,
        cx.type_json.join(",\n"),
        adts.join(",\n"),
        local_adts.join(","),
        statics.join(","),
        impls.join(","),
        foreign.join(","),
        fns.join(",\n")
    );
    let name = format!("{}/{}{}.json", out_dir, krate, if is_bin { ".bin" } else { "" });
    let tmp = format!("{}.tmp{}", name, std::process::id());
    std::fs::write(&tmp, s).unwrap();
    std::fs::rename(&tmp, &name).unwrap();
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        dump(tcx, &self.out);
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // argv: driver rustc-path args...
    if args.len() > 1 && !args[1].starts_with('-') && !args[1].ends_with(".rs") {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").ok();
    let probe = args.iter().any(|a| a == "-vV" || a == "-V" || a.starts_with("--print"))
        || !args.iter().any(|a| a == "--crate-name")
        || args.windows(2).any(|w| w[0] == "--crate-name" && (w[1] == "___" || w[1] == "build_script_build"));
    match out {
        Some(out) if !probe => {
            rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
        }
        _ => {
            struct N;
            impl rustc_driver::Callbacks for N {}
            rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut N))
        }
    }
}
