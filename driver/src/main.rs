//! arfacts: a rustc driver that dumps the resolved program (MIR before drop
//! elaboration and before the coroutine transform) of every workspace crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER; $ARFACTS_OUT names the directory for the facts.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

struct Dump;

fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

fn js(s: &str) -> String {
    let mut o = String::new();
    esc(s, &mut o);
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    adts: HashMap<DefId, String>,
}

fn defid_str(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!(
        "{}{}",
        tcx.crate_name(d.krate),
        tcx.def_path(d).to_string_no_crate_verbose()
    )
}

fn strip_generics(s: &str) -> String {
    // remove every <...> group that is a generic argument list of a path, keep leading `<T as X>`
    let mut out = String::new();
    let mut depth = 0i32;
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '<' {
            depth += 1;
        } else if c == '>' && i > 0 && b[i - 1] == '-' {
            if depth == 0 {
                out.push(c);
            }
        } else if c == '>' {
            depth -= 1;
        } else if depth == 0 {
            out.push(c);
        }
        i += 1;
    }
    while out.contains("::::") {
        out = out.replace("::::", "::");
    }
    out
}

fn plain(tcx: TyCtxt<'_>, d: DefId) -> String {
    defid_str(tcx, d)
}

/// Canonical, generic-free name: `Trait::method`, `Adt::method` or a plain path.
fn cname(tcx: TyCtxt<'_>, d: DefId) -> String {
    if let Some(parent) = tcx.opt_parent(d) {
        if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
            let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
            if of_trait {
                let tr = tcx.impl_trait_ref(parent).skip_binder();
                return format!("{}::{}", plain(tcx, tr.def_id), name);
            }
            let st = tcx.type_of(parent).skip_binder();
            let base = match st.kind() {
                ty::Adt(a, _) => plain(tcx, a.did()),
                ty::Slice(_) => "slice".to_string(),
                ty::Array(..) => "array".to_string(),
                ty::Dynamic(preds, _) => preds
                    .principal_def_id()
                    .map(|d| plain(tcx, d))
                    .unwrap_or_default(),
                _ => strip_generics(&with_no_trimmed_paths!(st.to_string())),
            };
            return format!("{}::{}", base, name);
        }
        if tcx.is_closure_like(d) {
            let dp = tcx.def_path(d).data;
            let last = dp.last().map(|x| x.disambiguator).unwrap_or(0);
            return format!("{}::{{closure#{}}}", cname(tcx, parent), last);
        }
    }
    plain(tcx, d)
}

impl<'tcx> Cx<'tcx> {
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(with_no_visible_paths!(t.to_string()))
    }

    fn adt(&mut self, a: ty::AdtDef<'tcx>) {
        if self.adts.contains_key(&a.did()) {
            return;
        }
        self.adts.insert(a.did(), String::new());
        let tcx = self.tcx;
        let local = self.is_ws(a.did());
        let mut o = String::new();
        let kind = if a.is_enum() {
            "enum"
        } else if a.is_union() {
            "union"
        } else {
            "struct"
        };
        let _ = write!(
            o,
            "{{\"name\":{},\"kind\":\"{}\",\"ws\":{},\"variants\":[",
            js(&cname(tcx, a.did())),
            kind,
            local
        );
        for (i, v) in a.variants().iter_enumerated() {
            if i.index() > 0 {
                o.push(',');
            }
            let discr = if a.is_enum() {
                a.discriminant_for_variant(tcx, i).val.to_string()
            } else {
                "0".into()
            };
            let _ = write!(o, "{{\"name\":{},\"discr\":\"{}\",\"fields\":[", js(v.name.as_str()), discr);
            for (j, f) in v.fields.iter().enumerate() {
                if j > 0 {
                    o.push(',');
                }
                let fty = tcx.type_of(f.did).skip_binder();
                let tystr = self.ty_str(fty);
                let tyid = if local { self.ty(fty) as i64 } else { -1 };
                let _ = write!(
                    o,
                    "[{},{},{}]",
                    js(f.name.as_str()),
                    js(&tystr),
                    tyid
                );
            }
            o.push_str("]}");
        }
        let _ = write!(o, "],\"span\":{}}}", js(&self.span(tcx.def_span(a.did()))));
        self.adts.insert(a.did(), o);
    }

    fn is_ws(&self, d: DefId) -> bool {
        is_ws_crate(self.tcx.crate_name(d.krate).as_str())
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let idx = self.ty_out.len();
        self.tys.insert(t, idx);
        self.ty_out.push(String::new());
        let s = js(&self.ty_str(t));
        let tcx = self.tcx;
        let body = match t.kind() {
            ty::Adt(a, args) => {
                self.adt(*a);
                let mut v = Vec::new();
                for g in args.types() {
                    v.push(self.ty(g).to_string());
                }
                format!("\"k\":\"adt\",\"n\":{},\"a\":[{}]", js(&cname(tcx, a.did())), v.join(","))
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                format!("\"k\":\"ref\",\"mut\":{},\"a\":[{}]", m.is_mut(), i)
            }
            ty::RawPtr(inner, _) => {
                let i = self.ty(*inner);
                format!("\"k\":\"ptr\",\"a\":[{}]", i)
            }
            ty::Tuple(l) => {
                let v: Vec<String> = l.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":[{}]", v.join(","))
            }
            ty::Slice(i) | ty::Array(i, _) => {
                let i = self.ty(*i);
                format!("\"k\":\"slice\",\"a\":[{}]", i)
            }
            ty::Closure(d, _) => format!("\"k\":\"closure\",\"d\":{}", js(&defid_str(tcx, *d))),
            ty::Coroutine(d, _) => format!("\"k\":\"coroutine\",\"d\":{}", js(&defid_str(tcx, *d))),
            ty::FnDef(d, _) => format!("\"k\":\"fndef\",\"d\":{}", js(&defid_str(tcx, *d))),
            ty::Dynamic(preds, _) => {
                let n = preds
                    .principal_def_id()
                    .map(|d| cname(tcx, d))
                    .unwrap_or_default();
                format!("\"k\":\"dyn\",\"n\":{}", js(&n))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", js(p.name.as_str())),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Int(_) | ty::Uint(_) | ty::Char => "\"k\":\"int\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_out[idx] = format!("{{\"s\":{},{}}}", s, body);
        idx
    }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo
            .file
            .name
            .prefer_local_unconditionally()
            .to_string();
        format!("{}:{}", f, lo.line)
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{},[", p.local.as_usize());
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => o.push_str("[\"*\"]"),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(a, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            a.variant(vi).fields[f].name.to_string()
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            if let Some(ld) = d.as_local() {
                                tcx.closure_captures(ld)
                                    .get(f.as_usize())
                                    .map(|c| c.to_symbol().to_string())
                                    .unwrap_or_else(|| f.as_usize().to_string())
                            } else {
                                f.as_usize().to_string()
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let _ = write!(o, "[\"f\",{},{}]", f.as_usize(), js(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, "[\"ci\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(a, _) if a.is_enum() => a.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    let _ = write!(o, "[\"v\",{},{}]", v.as_usize(), js(&name));
                }
                _ => o.push_str("[\"x\"]"),
            }
            pty = pty.projection_ty(tcx, e);
        }
        o.push_str("]]");
        o
    }

    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::from("{");
        let _ = write!(o, "\"n\":{}", js(&cname(tcx, d)));
        let _ = write!(o, ",\"id\":{}", js(&defid_str(tcx, d)));
        let mut v = Vec::new();
        for g in args.types() {
            v.push(self.ty(g).to_string());
        }
        let _ = write!(o, ",\"g\":[{}]", v.join(","));
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", js(&cname(tcx, t)));
        }
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                let mut cur = (d, args);
                let mut hops = 0;
                loop {
                    let eargs = tcx.erase_and_anonymize_regions(cur.1);
                    if eargs.has_escaping() {
                        break;
                    }
                    match ty::Instance::try_resolve(tcx, env, cur.0, eargs) {
                        Ok(Some(inst)) => match inst.def {
                            ty::InstanceKind::Item(rd) => {
                                let n = cname(tcx, rd);
                                // look through the blanket conversions
                                let next = self.blanket(rd, inst.args);
                                if let Some(nx) = next {
                                    hops += 1;
                                    if hops < 4 {
                                        cur = nx;
                                        continue;
                                    }
                                }
                                let _ = write!(
                                    o,
                                    ",\"r\":{},\"rn\":{},\"hops\":{}",
                                    js(&defid_str(tcx, rd)),
                                    js(&n),
                                    hops
                                );
                                if let Some(ip) = tcx.opt_parent(rd) {
                                    if let DefKind::Impl { .. } = tcx.def_kind(ip) {
                                        let st = tcx.type_of(ip).skip_binder();
                                        let _ = write!(o, ",\"self\":{}", js(&self.ty_str(st)));
                                    }
                                }
                                break;
                            }
                            ty::InstanceKind::Virtual(..) => {
                                o.push_str(",\"dyn\":true");
                                break;
                            }
                            _ => {
                                o.push_str(",\"shim\":true");
                                break;
                            }
                        },
                        _ => {
                            if hops > 0 {
                                let _ = write!(o, ",\"rn\":{},\"hops\":{}", js(&cname(tcx, cur.0)), hops);
                            }
                            break;
                        }
                    }
                }
            }
            _ => {}
        }
        o.push('}');
        o
    }

    /// Into::into -> From::from, TryInto::try_into -> TryFrom::try_from, ToString::to_string -> Display::fmt,
    /// str::parse is left alone.
    fn blanket(
        &self,
        rd: DefId,
        args: ty::GenericArgsRef<'tcx>,
    ) -> Option<(DefId, ty::GenericArgsRef<'tcx>)> {
        let tcx = self.tcx;
        if is_ws_crate(tcx.crate_name(rd.krate).as_str()) {
            return None;
        }
        let n = cname(tcx, rd);
        let find = |path: &str, m: &str| -> Option<DefId> {
            for t in tcx.all_traits_including_private() {
                if cname(tcx, t) == path {
                    return tcx
                        .associated_items(t)
                        .in_definition_order()
                        .find(|i| i.name().as_str() == m)
                        .map(|i| i.def_id);
                }
            }
            None
        };
        let tys: Vec<Ty<'tcx>> = args.types().collect();
        match n.as_str() {
            "core::convert::Into::into" if tys.len() == 2 => {
                let f = find("core::convert::From", "from")?;
                Some((f, tcx.mk_args(&[tys[1].into(), tys[0].into()])))
            }
            "core::convert::TryInto::try_into" if tys.len() == 2 => {
                let f = find("core::convert::TryFrom", "try_from")?;
                Some((f, tcx.mk_args(&[tys[1].into(), tys[0].into()])))
            }
            "alloc::string::ToString::to_string" | "alloc::string::SpecToString::spec_to_string"
                if tys.len() == 1 =>
            {
                match tys[0].kind() {
                    ty::Adt(a, _) if self.is_ws(a.did()) => {
                        let f = find("core::fmt::Display", "fmt")?;
                        Some((f, tcx.mk_args(&[tys[0].into()])))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let args: ty::GenericArgsRef<'tcx> = args.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(tcx, *d));
            let f = self.fnref(*d, args, env);
            return format!("{{\"t\":{},\"fn\":{}}}", tid, f);
        }
        let mut o = format!("{{\"t\":{}", tid);
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"prom\":{}}}", p.as_usize());
                return o;
            }
            let _ = write!(o, ",\"def\":{}", js(&cname(tcx, u.def)));
        }
        if let Const::Ty(_, ct) = c.const_ {
            let _ = write!(o, ",\"cty\":{}", js(&ct.to_string()));
        }
        if let Some(d) = c.check_static_ptr(tcx) {
            let _ = write!(o, ",\"static\":{}", js(&cname(tcx, d)));
        }
        match t.kind() {
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char => {
                if let Some(b) = c.const_.try_eval_bits(tcx, env) {
                    let signed = matches!(t.kind(), ty::Int(_));
                    if signed {
                        let size = c
                            .const_
                            .try_eval_scalar_int(tcx, env)
                            .map(|s| s.size())
                            .unwrap();
                        let v = size.sign_extend(b) as i128;
                        let _ = write!(o, ",\"v\":\"{}\"", v);
                    } else {
                        let _ = write!(o, ",\"v\":\"{}\"", b);
                    }
                }
            }
            ty::Ref(_, inner, _) => {
                if let Ok(val) = c.const_.eval(tcx, env, c.span) {
                    if inner.is_str() {
                        if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                            let _ = write!(o, ",\"str\":{}", js(&String::from_utf8_lossy(b)));
                        }
                    } else if let ty::Array(e, n) = inner.kind() {
                        if *e == tcx.types.u8 {
                            if let (Some(n), ConstValue::Scalar(s)) =
                                (n.try_to_target_usize(tcx), val)
                            {
                                if let interpret::Scalar::Ptr(p, _) = s {
                                    let (prov, off) = p.into_raw_parts();
                                    if let interpret::GlobalAlloc::Memory(m) =
                                        tcx.global_alloc(prov.alloc_id())
                                    {
                                        let st = off.bytes() as usize;
                                        let by = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                            st..st + n as usize,
                                        );
                                        let v: Vec<String> =
                                            by.iter().map(|x| x.to_string()).collect();
                                        let _ = write!(o, ",\"bytes\":[{}]", v.join(","));
                                    }
                                }
                            }
                        }
                    } else if let ty::Slice(e) = inner.kind() {
                        if *e == tcx.types.u8 {
                            if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                                let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                let _ = write!(o, ",\"bytes\":[{}]", v.join(","));
                            }
                        }
                    }
                }
            }
            ty::Adt(a, _) if a.is_enum() => {
                // fieldless enum constants
                if let Some(s) = c.const_.try_eval_scalar_int(tcx, env) {
                    let b = s.to_bits(s.size());
                    for (i, v) in a.variants().iter_enumerated() {
                        if v.fields.is_empty() && a.discriminant_for_variant(tcx, i).val == b {
                            let _ = write!(o, ",\"var\":{}", i.as_usize());
                        }
                    }
                }
            }
            _ => {}
        }
        o.push('}');
        o
    }

    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p, body)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, body)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c, env)),
            _ => "[\"k\",{\"t\":-1,\"v\":\"0\"}]".into(),
        }
    }

    fn rvalue(&mut self, rv: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(op, _) => format!("[\"use\",{}]", self.operand(op, body, env)),
            Rvalue::Repeat(op, _) => format!("[\"repeat\",{}]", self.operand(op, body, env)),
            Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    BorrowKind::Mut { .. } => "m",
                    BorrowKind::Fake(_) => "f",
                    _ => "s",
                };
                format!("[\"ref\",\"{}\",{}]", k, self.place(p, body))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"p\",{}]", self.place(p, body)),
            Rvalue::Cast(_, op, t) => {
                let s = op.ty(body, tcx);
                let s = self.ty(s);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", self.operand(op, body, env), t, s)
            }
            Rvalue::BinaryOp(b, ops) => {
                let l = self.operand(&ops.0, body, env);
                let r = self.operand(&ops.1, body, env);
                format!("[\"bin\",\"{:?}\",{},{}]", b, l, r)
            }
            Rvalue::UnaryOp(u, op) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(op, body, env)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                let t = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(p, body), t)
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|x| self.operand(x, body, env)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => "[\"arr\"]".to_string(),
                    AggregateKind::Tuple => "[\"tup\"]".to_string(),
                    AggregateKind::Adt(d, vi, _, _, uf) => {
                        let a = tcx.adt_def(*d);
                        self.adt(a);
                        format!(
                            "[\"adt\",{},{},{},{}]",
                            js(&cname(tcx, *d)),
                            vi.as_usize(),
                            js(a.variant(*vi).name.as_str()),
                            uf.map(|f| f.as_usize() as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"clo\",{}]", js(&defid_str(tcx, *d)))
                    }
                    AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        format!("[\"cor\",{}]", js(&defid_str(tcx, *d)))
                    }
                    AggregateKind::RawPtr(..) => "[\"tup\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kind, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p, body)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p, body)),
            _ => "[\"other\"]".into(),
        }
    }

    fn body(&mut self, id: &str, body: &Body<'tcx>, env: TypingEnv<'tcx>, promoted: &[Body<'tcx>]) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let did = body.source.def_id();
        let _ = write!(o, "{{\"id\":{},\"n\":{},\"argc\":{}", js(id), js(&cname(tcx, did)), body.arg_count);
        let _ = write!(o, ",\"span\":{}", js(&self.span(tcx.def_span(did))));
        // names
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut caps: Vec<String> = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if let Some(l) = p.as_local() {
                    names.insert(l.as_usize(), v.name.to_string());
                }
            }
        }
        if let Some(ld) = did.as_local() {
            if tcx.is_closure_like(did) {
                for c in tcx.closure_captures(ld) {
                    caps.push(js(c.to_symbol().as_str()));
                }
                let par = tcx.parent(did);
                let _ = write!(o, ",\"parent\":{}", js(&defid_str(tcx, par)));
            }
            if let Some(ip) = tcx.opt_parent(did) {
                if let DefKind::Impl { of_trait } = tcx.def_kind(ip) {
                    let st = tcx.type_of(ip).skip_binder();
                    let _ = write!(o, ",\"self\":{}", js(&self.ty_str(st)));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(ip).skip_binder();
                        let _ = write!(o, ",\"trait\":{}", js(&cname(tcx, tr.def_id)));
                        let _ = write!(o, ",\"traitref\":{}", js(&with_no_trimmed_paths!(with_no_visible_paths!(tr.to_string()))));
                    }
                } else if let DefKind::Trait = tcx.def_kind(ip) {
                    let _ = write!(o, ",\"intrait\":{}", js(&cname(tcx, ip)));
                }
            }
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                let vis = tcx.visibility(did);
                let _ = write!(o, ",\"pub\":{}", vis.is_public());
                let _ = write!(o, ",\"async\":{}", tcx.asyncness(did).is_async());
                let eff = tcx.effective_visibilities(()).is_reachable(ld);
                let _ = write!(o, ",\"reach\":{}", eff);
            }
        }
        if !caps.is_empty() {
            let _ = write!(o, ",\"caps\":[{}]", caps.join(","));
        }
        if body.coroutine.is_some() {
            o.push_str(",\"coroutine\":true");
        }
        if let Some(ld) = did.as_local() {
            let attrs = tcx.def_span(ld).from_expansion();
            if attrs {
                o.push_str(",\"exp\":true");
            }
        }
        if let Some(s) = body.spread_arg {
            let _ = write!(o, ",\"spread\":{}", s.as_usize());
        }
        o.push_str(",\"locals\":[");
        for (l, d) in body.local_decls.iter_enumerated() {
            if l.as_usize() > 0 {
                o.push(',');
            }
            let t = self.ty(d.ty);
            match names.get(&l.as_usize()) {
                Some(n) => {
                    let _ = write!(o, "[{},{}]", t, js(n));
                }
                None => {
                    let _ = write!(o, "[{}]", t);
                }
            }
        }
        o.push_str("],\"blocks\":[");
        for (bi, b) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            if b.is_cleanup {
                o.push_str("null");
                continue;
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &b.statements {
                let line = self.line(s.source_info.span);
                let x = match &s.kind {
                    StatementKind::Assign(a) => {
                        let (p, rv) = &**a;
                        if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = rv {
                            continue;
                        }
                        let pp = self.place(p, body);
                        let r = self.rvalue(rv, body, env);
                        format!("[\"=\",{},{},{}]", pp, r, line)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"setd\",{},{}]", self.place(place, body), variant_index.as_usize())
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&x);
            }
            o.push_str("],\"t\":");
            let t = b.terminator();
            let line = self.line(t.source_info.span);
            let mac = t.source_info.span.from_expansion();
            let x = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, body, env);
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize()))
                        .collect();
                    let dty = discr.ty(body, tcx);
                    let dty = self.ty(dty);
                    format!(
                        "[\"switch\",{},[{}],{},{},{}]",
                        d,
                        v.join(","),
                        targets.otherwise().as_usize(),
                        line,
                        dty
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(body, tcx).ty;
                    let t = self.ty(t);
                    format!("[\"drop\",{},{},{}]", self.place(place, body), target.as_usize(), t)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, body, env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, body, env)).collect();
                    let dt = destination.ty(body, tcx).ty;
                    let dt = self.ty(dt);
                    let argt: Vec<String> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(body, tcx);
                            self.ty(t).to_string()
                        })
                        .collect();
                    format!(
                        "[\"call\",{},[{}],{},{},{},{},[{}],{}]",
                        f,
                        a.join(","),
                        self.place(destination, body),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        line,
                        dt,
                        argt.join(","),
                        mac
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, body, env);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(_) => "overflow",
                        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "divzero",
                        AssertKind::ResumedAfterReturn(_)
                        | AssertKind::ResumedAfterPanic(_)
                        | AssertKind::ResumedAfterDrop(_) => "resumed",
                        _ => "other",
                    };
                    format!(
                        "[\"assert\",{},{},\"{}\",{},{}]",
                        c,
                        expected,
                        m,
                        target.as_usize(),
                        line
                    )
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => {
                    format!("[\"yield\",{},{},{}]", resume.as_usize(), self.place(resume_arg, body), line)
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                _ => "[\"unreach\"]".into(),
            };
            o.push_str(&x);
            o.push('}');
        }
        o.push(']');
        if !promoted.is_empty() {
            o.push_str(",\"prom\":[");
            for (i, p) in promoted.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                let pid = format!("{}::{{promoted#{}}}", id, i);
                let s = self.body(&pid, p, env, &[]);
                o.push_str(&s);
            }
            o.push(']');
        }
        o.push('}');
        o
    }

    fn line(&self, sp: Span) -> usize {
        let sm = self.tcx.sess.source_map();
        sm.lookup_char_pos(sp.source_callsite().lo()).line
    }
}

trait Esc {
    fn has_escaping(&self) -> bool;
}
impl<'tcx> Esc for ty::GenericArgsRef<'tcx> {
    fn has_escaping(&self) -> bool {
        use rustc_middle::ty::TypeVisitableExt;
        self.has_escaping_bound_vars()
    }
}

fn is_ws_crate(n: &str) -> bool {
    n == "astro_run"
        || n == "astro_runner"
        || n.starts_with("astro_run_")
        || n.starts_with("arfx_")
}

impl Callbacks for Dump {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let Ok(out) = std::env::var("ARFACTS_OUT") else {
            return Compilation::Continue;
        };
        if !is_ws_crate(&krate) {
            return Compilation::Continue;
        }
        let mut bodies: Vec<(LocalDefId, Body<'tcx>, Vec<Body<'tcx>>)> = Vec::new();
        let mut skipped = Vec::new();
        for d in tcx.hir_body_owners() {
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                DefKind::SyntheticCoroutineBody => {}
                _ => continue,
            }
            let (b, p) = tcx.mir_promoted(d);
            if b.is_stolen() || p.is_stolen() {
                skipped.push(defid_str(tcx, d.to_def_id()));
                continue;
            }
            bodies.push((d, b.borrow().clone(), p.borrow().iter().cloned().collect()));
        }
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let _ = tcx.ensure_ok().analysis(());
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], adts: HashMap::new() };
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},\"bodies\":[", js(&krate));
        let mut first = true;
        for (d, b, p) in &bodies {
            if !first {
                o.push(',');
            }
            first = false;
            let id = defid_str(tcx, d.to_def_id());
            let env = TypingEnv::post_analysis(tcx, d.to_def_id());
            let s = cx.body(&id, b, env, p);
            o.push_str(&s);
            o.push('\n');
        }
        o.push_str("],\"impls\":[");
        // trait impls: trait, self type, provided methods (for dyn dispatch and for default-method facts)
        let mut first = true;
        for (tr, impls) in tcx.all_local_trait_impls(()).iter() {
            for im in impls {
                let st = tcx.type_of(im.to_def_id()).skip_binder();
                if !first {
                    o.push(',');
                }
                first = false;
                let mut ms = Vec::new();
                for it in tcx.associated_items(im.to_def_id()).in_definition_order() {
                    if let ty::AssocKind::Fn { .. } = it.kind {
                        ms.push(format!("[{},{}]", js(it.name().as_str()), js(&defid_str(tcx, it.def_id))));
                    }
                }
                let stid = cx.ty(st);
                let _ = write!(
                    o,
                    "{{\"trait\":{},\"self\":{},\"ty\":{},\"m\":[{}]}}",
                    js(&cname(tcx, *tr)),
                    js(&cx.ty_str(st)),
                    stid,
                    ms.join(",")
                );
            }
        }
        o.push_str("],\"traits\":[");
        let mut first = true;
        for t in tcx.traits(rustc_hir::def_id::LOCAL_CRATE) {
            if !first {
                o.push(',');
            }
            first = false;
            let mut ms = Vec::new();
            for it in tcx.associated_items(*t).in_definition_order() {
                if let ty::AssocKind::Fn { .. } = it.kind {
                    ms.push(format!(
                        "[{},{},{}]",
                        js(it.name().as_str()),
                        js(&defid_str(tcx, it.def_id)),
                        it.defaultness(tcx).has_value()
                    ));
                }
            }
            let _ = write!(o, "{{\"n\":{},\"m\":[{}]}}", js(&cname(tcx, *t)), ms.join(","));
        }
        o.push(']');
        // local ADTs even when no body mentions them
        for d in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                let a = tcx.adt_def(d.to_def_id());
                cx.adt(a);
            }
        }
        let mut ad: Vec<(String, String)> = cx
            .adts
            .iter()
            .map(|(d, s)| (cname(tcx, *d), s.clone()))
            .collect();
        ad.sort();
        o.push_str(",\"adts\":[");
        o.push_str(&ad.into_iter().map(|x| x.1).collect::<Vec<_>>().join(","));
        o.push_str("],\"tys\":[");
        o.push_str(&cx.ty_out.join(","));
        o.push_str("],\"skipped\":[");
        o.push_str(&skipped.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        o.push_str("]}");
        let f = format!("{}/{}.json", out, krate);
        let tmp = format!("{}.tmp{}", f, std::process::id());
        std::fs::write(&tmp, o).expect("write facts");
        std::fs::rename(&tmp, &f).expect("rename facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::install_ice_hook("none", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Dump);
    });
    code
}
