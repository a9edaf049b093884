#![feature(rustc_private)]
//! Fact extractor: compiled program (MIR before drop elaboration / coroutine lowering, with resolved
//! callees, field names and constants) -> one JSON line per body / ADT / impl / type.
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    esc(s, &mut o);
    o
}
fn trunc(mut s: String, n: usize) -> String {
    if s.len() > n {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push('…');
    }
    s
}

const WORKSPACE: [&str; 3] = ["graphql_tools", "hive_console_sdk", "hive_router"];

fn std_names(s: &str) -> String {
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let at_word = i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_' || b[i - 1] == ':');
        let rest: String = b[i..b.len().min(i + 7)].iter().collect();
        if at_word && rest.starts_with("core::") {
            out.push_str("std::");
            i += 6;
        } else if at_word && rest.starts_with("alloc::") {
            out.push_str("std::");
            i += 7;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    krate: String,
    types: HashMap<Ty<'tcx>, usize>,
    out: std::io::BufWriter<std::fs::File>,
    paths: HashMap<DefId, String>,
}

impl<'tcx> Cx<'tcx> {
    fn localize(&self, s: &str) -> String {
        // def_path_str of a local item has no crate name; `crate::` is inserted by the printer hook
        s.replace("crate::", &format!("{}::", self.krate))
    }
    fn pretty<T: std::fmt::Display>(&self, t: T) -> String {
        let s = with_no_trimmed_paths!(ty::print::with_crate_prefix!(format!("{}", t)));
        self.localize(&s)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.insert(t, i);
        let mut refs = 0;
        let mut inner = t;
        loop {
            match inner.kind() {
                ty::Ref(_, x, _) => {
                    refs += 1;
                    inner = *x;
                }
                ty::RawPtr(x, _) => {
                    refs += 1;
                    inner = *x;
                }
                _ => break,
            }
        }
        let mut args: Vec<usize> = vec![];
        let head: String = match inner.kind() {
            ty::Adt(def, a) => {
                let h = self.dpath(def.did());
                for x in a.types() {
                    args.push(self.ty(x));
                }
                h
            }
            ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                let p = self.dpath(*d);
                format!("closure {}", p)
            }
            ty::FnDef(d, _) => {
                let p = self.dpath(*d);
                format!("fndef {}", p)
            }
            ty::Tuple(xs) => {
                for x in xs.iter() {
                    args.push(self.ty(x));
                }
                "tuple".into()
            }
            ty::Slice(x) => {
                args.push(self.ty(*x));
                "slice".into()
            }
            ty::Array(x, _) => {
                args.push(self.ty(*x));
                "array".into()
            }
            ty::Dynamic(preds, ..) => match preds.principal_def_id() {
                Some(d) => format!("dyn {}", self.dpath(d)),
                None => "dyn".into(),
            },
            ty::Alias(_, a) => {
                let s = trunc(self.pretty(inner), 300);
                let mut h = format!("alias {}", s);
                if let ty::AliasTyKind::Opaque { def_id } = a.kind {
                    let hidden = self.tcx.type_of(def_id).instantiate_identity().skip_norm_wip();
                    if let ty::Closure(d, _) | ty::Coroutine(d, _) = hidden.kind() {
                        h = format!("closure {}", self.dpath(*d));
                    }
                }
                h
            }
            _ => trunc(self.pretty(inner), 200),
        };
        let s = trunc(self.pretty(t), 400);
        let a = args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let line = format!(
            "{{\"t\":\"ty\",\"i\":{},\"s\":{},\"h\":{},\"r\":{},\"a\":[{}]}}\n",
            i,
            q(&s),
            q(&head),
            refs,
            a
        );
        self.out.write_all(line.as_bytes()).unwrap();
        i
    }
    fn dpath(&mut self, d: DefId) -> String {
        if let Some(p) = self.paths.get(&d) {
            return p.clone();
        }
        let tcx = self.tcx;
        let p = match tcx.def_kind(d) {
            DefKind::Closure | DefKind::SyntheticCoroutineBody => {
                let parent = self.dpath(tcx.parent(d));
                let key = tcx.def_key(d);
                format!("{}::{{closure#{}}}", parent, key.disambiguated_data.disambiguator)
            }
            _ => {
                if !d.is_local() && WORKSPACE.contains(&tcx.crate_name(d.krate).as_str()) {
                    // the defining path, not a re-export, so that all crates use one name
                    let s = ty::print::with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)));
                    std_names(&s)
                } else {
                    let s = with_no_trimmed_paths!(ty::print::with_crate_prefix!(tcx.def_path_str(d)));
                    self.localize(&s)
                }
            }
        };
        self.paths.insert(d, p.clone());
        p
    }
    fn line(&self, sp: rustc_span::Span) -> u32 {
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return 0;
        }
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line as u32
    }
    fn file(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let f = self.tcx.sess.source_map().lookup_char_pos(sp.lo()).file.name.clone();
        match f {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.to_string_lossy().to_string())
                .unwrap_or_else(|| "?".into()),
            _ => "?".into(),
        }
    }
}

struct B<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
    owner: DefId,
}

impl<'a, 'tcx> B<'a, 'tcx> {
    fn place(&mut self, p: &Place<'tcx>, o: &mut String) {
        let _ = write!(o, "[{}", p.local.as_u32());
        let tcx = self.cx.tcx;
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let (name, owner): (String, String) = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let v = def.variant(vi);
                            let n = v.fields[f].name.to_string();
                            let mut h = self.cx.dpath(def.did());
                            if def.is_enum() {
                                h = format!("{}::{}", h, v.name);
                            }
                            (n, h)
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                            let n = d
                                .as_local()
                                .and_then(|_| {
                                    tcx.closure_saved_names_of_captured_variables(*d)
                                        .get(f)
                                        .map(|s| s.to_string())
                                })
                                .unwrap_or_else(|| f.as_u32().to_string());
                            (n, "^".into())
                        }
                        _ => (f.as_u32().to_string(), "".into()),
                    };
                    esc(&format!("f|{}|{}|{}", f.as_u32(), name, owner), o);
                }
                ProjectionElem::Downcast(n, v) => {
                    let nm = n.map(|x| x.to_string()).unwrap_or_default();
                    esc(&format!("v|{}|{}", v.as_u32(), nm), o);
                }
                ProjectionElem::Index(l) => {
                    esc(&format!("i|{}", l.as_u32()), o);
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    esc(&format!("c|{}|{}", offset, from_end), o);
                }
                ProjectionElem::Subslice { .. } => o.push_str("\"s\""),
                _ => o.push_str("\"o\""),
            }
            pt = pt.projection_ty(tcx, e);
        }
        o.push(']');
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, o: &mut String) {
        let tcx = self.cx.tcx;
        let t = c.const_.ty();
        match t.kind() {
            ty::FnDef(d, args) => {
                o.push_str("{\"k\":\"fn\",");
                self.callee(*d, args.skip_binder(), o);
                o.push('}');
                return;
            }
            _ => {}
        }
        let ti = self.cx.ty(t);
        match c.const_ {
            Const::Unevaluated(u, _) => {
                let p = self.cx.dpath(u.def);
                let a = trunc(self.cx.pretty(t), 120);
                let _ = a;
                o.push_str("{\"k\":\"item\",\"d\":");
                match u.promoted {
                    Some(pr) => esc(&format!("{}::promoted[{}]", p, pr.as_u32()), o),
                    None => esc(&p, o),
                }
                let _ = write!(o, ",\"t\":{}}}", ti);
            }
            Const::Val(v, _) => {
                let s = match v {
                    ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                        let signed = matches!(t.kind(), ty::Int(_));
                        let val = if signed {
                            i.to_int(i.size()).to_string()
                        } else {
                            i.to_uint(i.size()).to_string()
                        };
                        let _ = write!(o, "{{\"k\":\"int\",\"v\":{},\"t\":{}}}", q(&val), ti);
                        return;
                    }
                    ConstValue::Slice { .. } => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            String::from_utf8_lossy(b).to_string()
                        } else {
                            "?".into()
                        }
                    }
                    ConstValue::ZeroSized => {
                        let _ = write!(o, "{{\"k\":\"zst\",\"t\":{}}}", ti);
                        return;
                    }
                    _ => {
                        // &static, byte arrays, ...
                        if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(ptr, _)) = v {
                            let (prov, _) = ptr.prov_and_relative_offset();
                            match tcx.try_get_global_alloc(prov.alloc_id()) {
                                Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) => {
                                    let p = self.cx.dpath(d);
                                    let _ = write!(
                                        o,
                                        "{{\"k\":\"item\",\"d\":{},\"t\":{}}}",
                                        q(&p),
                                        ti
                                    );
                                    return;
                                }
                                Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(m)) => {
                                    let m = m.inner();
                                    let bytes = m.inspect_with_uninit_and_ptr_outside_interpreter(0..m.len().min(4096));
                                    let txt = String::from_utf8_lossy(bytes).to_string();
                                    let _ = write!(
                                        o,
                                        "{{\"k\":\"mem\",\"v\":{},\"t\":{}}}",
                                        q(&trunc(txt, 4000)),
                                        ti
                                    );
                                    return;
                                }
                                _ => {}
                            }
                        }
                        let _ = write!(o, "{{\"k\":\"c\",\"t\":{}}}", ti);
                        return;
                    }
                };
                let _ = write!(o, "{{\"k\":\"str\",\"v\":{},\"t\":{}}}", q(&trunc(s, 4000)), ti);
            }
            Const::Ty(_, ct) => {
                let s = trunc(self.cx.pretty(ct), 200);
                let _ = write!(o, "{{\"k\":\"tyc\",\"v\":{},\"t\":{}}}", q(&s), ti);
            }
        }
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, o: &mut String) {
        let tcx = self.cx.tcx;
        let p = self.cx.dpath(d);
        o.push_str("\"d\":");
        esc(&p, o);
        // resolved instance
        let eargs = tcx.erase_and_anonymize_regions(args);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if tcx.trait_of_assoc(d).is_some() || true {
                Instance::try_resolve(tcx, self.env, d, eargs).ok().flatten()
            } else {
                None
            }
        }))
        .ok()
        .flatten();
        if let Some(i) = res {
            let rd = i.def_id();
            if rd != d {
                let rp = self.cx.dpath(rd);
                o.push_str(",\"r\":");
                esc(&rp, o);
            }
            if let ty::InstanceKind::Virtual(..) = i.def {
                o.push_str(",\"dyn\":1");
            }
        } else {
            o.push_str(",\"u\":1");
        }
        let tys: Vec<usize> = args.types().map(|t| self.cx.ty(t)).collect();
        o.push_str(",\"g\":[");
        for (i, t) in tys.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{}", t);
        }
        o.push(']');
    }
    fn operand(&mut self, op: &Operand<'tcx>, o: &mut String) {
        match op {
            Operand::Copy(p) => {
                o.push_str("{\"c\":");
                self.place(p, o);
                o.push('}');
            }
            Operand::Move(p) => {
                o.push_str("{\"m\":");
                self.place(p, o);
                o.push('}');
            }
            Operand::Constant(c) => self.konst(c, o),
            _ => o.push_str("{\"k\":\"rt\"}"),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, o: &mut String) {
        match r {
            Rvalue::Use(op, ..) => {
                o.push_str("[\"use\",");
                self.operand(op, o);
            }
            Rvalue::Repeat(op, _) => {
                o.push_str("[\"use\",");
                self.operand(op, o);
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                o.push_str(if m { "[\"refm\"," } else { "[\"ref\"," });
                self.place(p, o);
            }
            Rvalue::RawPtr(k, p) => {
                let m = matches!(k, RawPtrKind::Mut);
                o.push_str(if m { "[\"refm\"," } else { "[\"ref\"," });
                self.place(p, o);
            }
            Rvalue::CopyForDeref(p) => {
                o.push_str("[\"use\",{\"c\":");
                self.place(p, o);
                o.push('}');
            }
            Rvalue::Reborrow(_, m, p) => {
                o.push_str(if m.is_mut() { "[\"refm\"," } else { "[\"ref\"," });
                self.place(p, o);
            }
            Rvalue::Cast(_, op, t) => {
                let ti = self.cx.ty(*t);
                o.push_str("[\"cast\",");
                self.operand(op, o);
                let _ = write!(o, ",{}", ti);
            }
            Rvalue::BinaryOp(b, ops) => {
                let _ = write!(o, "[\"bin\",\"{:?}\",", b);
                self.operand(&ops.0, o);
                o.push(',');
                self.operand(&ops.1, o);
            }
            Rvalue::UnaryOp(u, op) => {
                let _ = write!(o, "[\"un\",\"{:?}\",", u);
                self.operand(op, o);
            }
            Rvalue::Discriminant(p) => {
                o.push_str("[\"discr\",");
                self.place(p, o);
                let t = p.ty(self.body, self.cx.tcx).ty;
                let ti = self.cx.ty(t);
                let _ = write!(o, ",{}", ti);
            }
            Rvalue::Aggregate(k, ops) => {
                o.push_str("[\"agg\",");
                match &**k {
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let def = self.cx.tcx.adt_def(*d);
                        let p = self.cx.dpath(*d);
                        let vd = def.variant(*v);
                        let vn = vd.name.to_string();
                        let _ = write!(o, "[\"adt\",{},{},{}", q(&p), v.as_u32(), q(&vn));
                        o.push_str(",[");
                        if let Some(a) = active {
                            esc(vd.fields[*a].name.as_str(), o);
                        } else {
                            for (i, f) in vd.fields.iter().enumerate() {
                                if i > 0 {
                                    o.push(',');
                                }
                                esc(f.name.as_str(), o);
                            }
                        }
                        o.push_str("]]");
                    }
                    AggregateKind::Closure(d, _) => {
                        let p = self.cx.dpath(*d);
                        let _ = write!(o, "[\"closure\",{}]", q(&p));
                    }
                    AggregateKind::Coroutine(d, _) => {
                        let p = self.cx.dpath(*d);
                        let _ = write!(o, "[\"coroutine\",{}]", q(&p));
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        let p = self.cx.dpath(*d);
                        let _ = write!(o, "[\"closure\",{}]", q(&p));
                    }
                    AggregateKind::Array(_) => o.push_str("[\"array\"]"),
                    AggregateKind::Tuple => o.push_str("[\"tuple\"]"),
                    AggregateKind::RawPtr(..) => o.push_str("[\"raw\"]"),
                }
                o.push_str(",[");
                for (i, op) in ops.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    self.operand(op, o);
                }
                o.push(']');
            }
            Rvalue::ThreadLocalRef(d) => {
                let p = self.cx.dpath(*d);
                let _ = write!(o, "[\"tls\",{}", q(&p));
            }
            Rvalue::WrapUnsafeBinder(op, _) => {
                o.push_str("[\"use\",");
                self.operand(op, o);
            }
        }
        o.push(']');
    }
    fn dump(&mut self, id: &str, kind: &str, parent: Option<String>, extra: &str) {
        let mut o = String::new();
        let tcx = self.cx.tcx;
        o.push_str("{\"t\":\"body\",\"id\":");
        esc(id, &mut o);
        let _ = write!(o, ",\"kind\":\"{}\"", kind);
        if let Some(p) = parent {
            let _ = write!(o, ",\"parent\":{}", q(&p));
        }
        let sp = tcx.def_span(self.owner);
        let f = self.cx.file(sp);
        let l = self.cx.line(sp);
        let _ = write!(o, ",\"file\":{},\"line\":{},\"argc\":{}{}", q(&f), l, self.body.arg_count, extra);
        // locals
        o.push_str(",\"locals\":[");
        let mut names: HashMap<Local, String> = HashMap::new();
        for v in &self.body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local).or_insert(v.name.to_string());
                }
            }
        }
        for (i, (l, d)) in self.body.local_decls.iter_enumerated().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let t = self.cx.ty(d.ty);
            match names.get(&l) {
                Some(n) => {
                    let _ = write!(o, "[{},{}]", t, q(n));
                }
                None => {
                    let _ = write!(o, "[{}]", t);
                }
            }
        }
        o.push_str("],\"bbs\":[");
        let body = self.body;
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let mut x = String::new();
                match &st.kind {
                    StatementKind::Assign(b) => {
                        x.push_str("[\"=\",");
                        self.place(&b.0, &mut x);
                        x.push(',');
                        self.rvalue(&b.1, &mut x);
                        let _ = write!(x, ",{}]", self.cx.line(st.source_info.span));
                    }
                    StatementKind::StorageDead(l) => {
                        let _ = write!(x, "[\"dead\",{}]", l.as_u32());
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        x.push_str("[\"setd\",");
                        self.place(place, &mut x);
                        let _ = write!(x, ",{}]", variant_index.as_u32());
                    }
                    _ => continue,
                }
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&x);
            }
            o.push_str("],\"x\":");
            let term = bb.terminator();
            let line = self.cx.line(term.source_info.span);
            match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", target.as_u32());
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push_str("[\"switch\",");
                    self.operand(discr, &mut o);
                    o.push_str(",[");
                    for (i, (v, t)) in targets.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        let _ = write!(o, "[\"{}\",{}]", v, t.as_u32());
                    }
                    let _ = write!(o, "],{},{}]", targets.otherwise().as_u32(), line);
                }
                TerminatorKind::Return => o.push_str("[\"return\"]"),
                TerminatorKind::Unreachable => o.push_str("[\"unreachable\"]"),
                TerminatorKind::UnwindResume
                | TerminatorKind::UnwindTerminate(_)
                | TerminatorKind::CoroutineDrop => o.push_str("[\"resume\"]"),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    o.push_str("[\"drop\",");
                    self.place(place, &mut o);
                    let u = match unwind {
                        UnwindAction::Cleanup(b) => b.as_u32() as i64,
                        _ => -1,
                    };
                    let _ = write!(o, ",{},{}]", target.as_u32(), u);
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    o.push_str("[\"call\",");
                    self.operand(func, &mut o);
                    o.push_str(",[");
                    for (i, a) in args.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        self.operand(&a.node, &mut o);
                    }
                    o.push_str("],");
                    self.place(destination, &mut o);
                    let u = match unwind {
                        UnwindAction::Cleanup(b) => b.as_u32() as i64,
                        _ => -1,
                    };
                    let tg = target.map(|t| t.as_u32() as i64).unwrap_or(-1);
                    let _ = write!(o, ",{},{},{}]", tg, u, line);
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    o.push_str("[\"call\",");
                    self.operand(func, &mut o);
                    o.push_str(",[");
                    for (i, a) in args.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        self.operand(&a.node, &mut o);
                    }
                    let _ = write!(o, "],[0],-1,-1,{}]", line);
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    o.push_str("[\"assert\",");
                    self.operand(cond, &mut o);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "div",
                        AssertKind::RemainderByZero(..) => "rem",
                        _ => "other",
                    };
                    let _ = write!(o, ",{},{},\"{}\",{}]", expected, target.as_u32(), m, line);
                }
                TerminatorKind::Yield { value, resume, resume_arg, drop } => {
                    o.push_str("[\"yield\",");
                    self.operand(value, &mut o);
                    o.push(',');
                    self.place(resume_arg, &mut o);
                    let d = drop.map(|t| t.as_u32() as i64).unwrap_or(-1);
                    let _ = write!(o, ",{},{},{}]", resume.as_u32(), d, line);
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", real_target.as_u32());
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", real_target.as_u32());
                }
                TerminatorKind::InlineAsm { .. } => o.push_str("[\"unreachable\"]"),
            }
            if bb.is_cleanup {
                o.push_str(",\"cl\":1");
            }
            o.push('}');
        }
        o.push_str("]}\n");
        self.cx.out.write_all(o.as_bytes()).unwrap();
    }
}

fn extra<'tcx>(cx: &mut Cx<'tcx>, d: LocalDefId) -> String {
    let tcx = cx.tcx;
    let did = d.to_def_id();
    let mut e = String::new();
    if let Some(imp) = tcx.impl_of_assoc(did) {
        let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
        let ti = cx.ty(st);
        let _ = write!(e, ",\"self\":{}", ti);
        if tcx.impl_opt_trait_ref(imp).is_some() {
            let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
            let p = cx.dpath(tr.def_id);
            let _ = write!(e, ",\"trait\":{}", q(&p));
        }
    }
    if tcx.asyncness(did).is_async() {
        e.push_str(",\"async\":1");
    }
    e
}

type Early<'tcx> = HashMap<LocalDefId, (Body<'tcx>, Vec<Body<'tcx>>)>;

/// Copy every function / closure / coroutine body before any later query consumes ("steals") it.
fn capture<'tcx>(tcx: TyCtxt<'tcx>) -> Early<'tcx> {
    let mut m = HashMap::new();
    for d in tcx.hir_body_owners() {
        match tcx.def_kind(d.to_def_id()) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody => {
                let (st, pr) = tcx.mir_promoted(d);
                if !st.is_stolen() && !pr.is_stolen() {
                    let b = st.borrow().clone();
                    let p: Vec<Body<'tcx>> = pr.borrow().iter().cloned().collect();
                    m.insert(d, (b, p));
                }
            }
            _ => {}
        }
    }
    m
}

fn extract<'tcx>(tcx: TyCtxt<'tcx>, out_dir: &str) {
    let early = capture(tcx);
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let path = format!("{}/{}.jsonl", out_dir, krate);
    let tmp = format!("{}.tmp{}", path, std::process::id());
    let f = std::fs::File::create(&tmp).unwrap();
    let mut cx = Cx {
        tcx,
        krate: krate.clone(),
        types: HashMap::new(),
        out: std::io::BufWriter::with_capacity(1 << 20, f),
        paths: HashMap::new(),
    };
    let mut seen: HashMap<String, usize> = HashMap::new();
    let mut skipped = vec![];
    for d in tcx.hir_body_owners() {
        let did = d.to_def_id();
        let dk = tcx.def_kind(did);
        let mut id = cx.dpath(did);
        let n = seen.entry(id.clone()).or_insert(0);
        *n += 1;
        if *n > 1 {
            id = format!("{}#{}", id, n);
            cx.paths.insert(did, id.clone());
        }
        let env = TypingEnv::post_analysis(tcx, did);
        match dk {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody => {
                let parent = if matches!(dk, DefKind::Closure | DefKind::SyntheticCoroutineBody) {
                    Some(cx.dpath(tcx.parent(did)))
                } else {
                    None
                };
                let kind = match dk {
                    DefKind::Fn => "fn",
                    DefKind::AssocFn => "fn",
                    _ => {
                        if tcx.is_coroutine(did) {
                            "coroutine"
                        } else {
                            "closure"
                        }
                    }
                };
                let ex = if parent.is_none() { extra(&mut cx, d) } else { String::new() };
                if let Some((body, prs)) = early.get(&d) {
                    B { cx: &mut cx, body, env, owner: did }.dump(&id, kind, parent, &ex);
                    for (i, pb) in prs.iter().enumerate() {
                        let pid = format!("{}::promoted[{}]", id, i);
                        B { cx: &mut cx, body: pb, env, owner: did }.dump(&pid, "promoted", None, "");
                    }
                } else {
                    let body = if tcx.is_const_fn(did) { tcx.mir_for_ctfe(did) } else { tcx.instance_mir(ty::InstanceKind::Item(did)) };
                    B { cx: &mut cx, body, env, owner: did }.dump(&id, kind, parent, &format!("{},\"late\":1", ex));
                    for (i, pb) in tcx.promoted_mir(did).iter_enumerated() {
                        let pid = format!("{}::promoted[{}]", id, i.as_u32());
                        B { cx: &mut cx, body: pb, env, owner: did }.dump(&pid, "promoted", None, "");
                    }
                }
            }
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                let body = tcx.mir_for_ctfe(did);
                B { cx: &mut cx, body, env, owner: did }.dump(&id, "const", None, "");
                for (i, pb) in tcx.promoted_mir(did).iter_enumerated() {
                    let pid = format!("{}::promoted[{}]", id, i.as_u32());
                    B { cx: &mut cx, body: pb, env, owner: did }.dump(&pid, "promoted", None, "");
                }
            }
            _ => skipped.push(id),
        }
    }
    // ADTs, impls
    for d in tcx.hir_crate_items(()).definitions() {
        let did = d.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(did);
                let p = cx.dpath(did);
                let sp = tcx.def_span(did);
                let mut o = format!(
                    "{{\"t\":\"adt\",\"id\":{},\"file\":{},\"line\":{},\"enum\":{},\"attrs\":[",
                    q(&p),
                    q(&cx.file(sp)),
                    cx.line(sp),
                    def.is_enum()
                );
                let mut first = true;
                for a in tcx.hir_attrs(tcx.local_def_id_to_hir_id(d)) {
                    if let rustc_attr_ir::Attribute::DeriveHelper(_) = a {
                        let s = tcx.sess.source_map().span_to_snippet(rustc_hir_attr_span(a)).unwrap_or_default();
                        if !first {
                            o.push(',');
                        }
                        first = false;
                        esc(&trunc(s, 500), &mut o);
                    }
                }
                o.push_str("],\"variants\":[");
                for (vi, v) in def.variants().iter().enumerate() {
                    if vi > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "[{},[", q(v.name.as_str()));
                    for (fi, f) in v.fields.iter().enumerate() {
                        if fi > 0 {
                            o.push(',');
                        }
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let ti = cx.ty(t);
                        let _ = write!(o, "[{},{}]", q(f.name.as_str()), ti);
                    }
                    o.push_str("]]");
                }
                o.push_str("]}\n");
                cx.out.write_all(o.as_bytes()).unwrap();
            }
            DefKind::Impl { .. } => {
                let tr = if tcx.impl_opt_trait_ref(did).is_some() {
                    let t = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    cx.dpath(t.def_id)
                } else {
                    String::new()
                };
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(st);
                let derived = tcx.is_automatically_derived(did);
                let mut o = format!(
                    "{{\"t\":\"impl\",\"trait\":{},\"self\":{},\"derived\":{},\"items\":[",
                    q(&tr),
                    ti,
                    derived
                );
                for (i, it) in tcx.associated_item_def_ids(did).iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let p = cx.dpath(*it);
                    esc(&p, &mut o);
                }
                o.push_str("]}\n");
                cx.out.write_all(o.as_bytes()).unwrap();
            }
            _ => {}
        }
    }
    let _ = write!(cx.out, "{{\"t\":\"end\",\"skipped\":{}}}\n", skipped.len());
    cx.out.flush().unwrap();
    drop(cx);
    std::fs::rename(&tmp, &path).unwrap();
}

fn rustc_hir_attr_span(a: &rustc_attr_ir::Attribute) -> rustc_span::Span {
    match a {
        rustc_attr_ir::Attribute::DeriveHelper(i) => i.span,
        _ => rustc_span::DUMMY_SP,
    }
}

struct Cb {
    out: Option<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(o) = &self.out {
            extract(tcx, o);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned());
    let wanted = std::env::var("VP_CRATES").unwrap_or_default();
    let out = match (&crate_name, std::env::var("VP_FACTS")) {
        (Some(c), Ok(o)) if wanted.split(',').any(|w| w == c) => Some(o),
        _ => None,
    };
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
