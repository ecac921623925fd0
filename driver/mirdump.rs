//! rustc wrapper that dumps the monomorphic MIR reachable from one crate's functions as JSON lines.
//! Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc, the rest are its arguments.
//! Environment: MIRDUMP_CRATES (comma list of crate names to dump), MIRDUMP_DIR (output directory),
//! MIRDUMP_STOP (file: one prefix of a definition path per line; bodies of those are not dumped),
//! MIRDUMP_SKIP (file: prefixes of root definition paths that are not roots).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;

extern crate rustc_public;

use rustc_public::abi::*;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use rustc_public::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::ControlFlow;

#[derive(Default)]
struct Dump {
    tys: HashMap<Ty, usize>,
    ty_list: Vec<Ty>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    allocs: HashMap<AllocId, usize>,
    alloc_list: Vec<AllocId>,
    vtables: Vec<String>,
    vt_seen: HashMap<(usize, usize), ()>,
    stop: Vec<String>,
    cut: Vec<String>,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_list.len();
        self.tys.insert(t, i);
        self.ty_list.push(t);
        i
    }
    fn inst(&mut self, t: Instance) -> usize {
        if let Some(i) = self.insts.get(&t) {
            return *i;
        }
        let i = self.inst_list.len();
        self.insts.insert(t, i);
        self.inst_list.push(t);
        i
    }
    fn alloc(&mut self, t: AllocId) -> usize {
        if let Some(i) = self.allocs.get(&t) {
            return *i;
        }
        let i = self.alloc_list.len();
        self.allocs.insert(t, i);
        self.alloc_list.push(t);
        i
    }
    fn allocation(&mut self, a: &Allocation) -> String {
        let mut s = String::from("{\"b\":\"");
        for b in &a.bytes {
            match b {
                Some(b) => {
                    let _ = write!(s, "{:02x}", b);
                }
                None => s.push_str("xx"),
            }
        }
        s.push_str("\",\"p\":[");
        for (i, (off, p)) in a.provenance.ptrs.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let id = self.alloc(p.0);
            let _ = write!(s, "[{},{}]", off, id);
        }
        s.push_str("]}");
        s
    }
    fn generic_args(&mut self, args: &GenericArgs) -> String {
        list(args.0.iter().filter_map(|a| match a {
            GenericArgKind::Type(t) => Some(format!("{}", self.ty(*t))),
            GenericArgKind::Const(c) => {
                Some(match c.eval_target_usize() {
                    Ok(v) => format!("{{\"c\":{}}}", v),
                    Err(_) => format!("{{\"cs\":{}}}", esc(&format!("{:?}", c.kind()))),
                })
            }
            GenericArgKind::Lifetime(_) => None,
        }))
    }
    fn place(&mut self, p: &Place) -> String {
        let proj = list(p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "[\"d\"]".to_string(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                format!("[\"c\",{},{},{}]", offset, min_length, from_end)
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                format!("[\"s\",{},{},{}]", from, to, from_end)
            }
            ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
        }));
        format!("[{},{}]", p.local, proj)
    }
    fn fn_ref(&mut self, t: Ty) -> Option<String> {
        if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = t.kind() {
            if let Ok(i) = Instance::resolve(def, &args) {
                return Some(format!("{}", self.inst(i)));
            }
            return Some("null".to_string());
        }
        None
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::ZeroSized => {
                if let Some(f) = self.fn_ref(c.ty()) {
                    format!("{{\"ty\":{},\"fn\":{}}}", t, f)
                } else {
                    format!("{{\"ty\":{},\"z\":1}}", t)
                }
            }
            ConstantKind::Allocated(a) => format!("{{\"ty\":{},\"a\":{}}}", t, self.allocation(a)),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(v) => format!("{{\"ty\":{},\"v\":{}}}", t, v),
                Err(_) => match tc.kind() {
                    TyConstKind::Value(_, a) => {
                        format!("{{\"ty\":{},\"a\":{}}}", t, self.allocation(a))
                    }
                    TyConstKind::ZSTValue(_) => format!("{{\"ty\":{},\"z\":1}}", t),
                    k => format!("{{\"ty\":{},\"u\":{}}}", t, esc(&format!("{:?}", k))),
                },
            },
            k => format!("{{\"ty\":{},\"u\":{}}}", t, esc(&format!("{:?}", k))),
        }
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn pointee(t: Ty) -> Option<Ty> {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
            TyKind::RigidTy(RigidTy::Adt(_, args)) => args.0.iter().find_map(|a| a.ty().copied()),
            _ => None,
        }
    }
    fn note_unsize(&mut self, src: Ty, dst: Ty) {
        let (Some(s), Some(d)) = (Self::pointee(src), Self::pointee(dst)) else { return };
        // peel matching wrappers such as RefCell<T>
        let (mut s, mut d) = (s, d);
        for _ in 0..4 {
            if let TyKind::RigidTy(RigidTy::Dynamic(preds, _)) = d.kind() {
                let (si, di) = (self.ty(s), self.ty(d));
                if self.vt_seen.insert((si, di), ()).is_some() {
                    return;
                }
                for p in preds.iter() {
                    if let ExistentialPredicate::Trait(tr) = p.clone().skip_binder() {
                        let tn = tr.def_id.name();
                        if tn.contains("::Fn") {
                            // a closure behind dyn Fn*: every call entry is its body
                            if let TyKind::RigidTy(RigidTy::Closure(def, args)) = s.kind() {
                                if let Ok(i) = Instance::resolve_closure(def, &args, ClosureKind::Fn) {
                                    let k = self.inst(i);
                                    self.vtables.push(format!(
                                        "{{\"t\":\"vt\",\"ty\":{},\"dyn\":{},\"m\":[null,null,null,{k},{k},{k}]}}",
                                        si, di
                                    ));
                                }
                            }
                            continue;
                        }
                        let tref = tr.with_self_ty(s);
                        let entries = tref.vtable_entries();
                        let v = list(entries.iter().map(|e| match e {
                            VtblEntry::Method(i) => format!("{}", self.inst(*i)),
                            _ => "null".to_string(),
                        }));
                        self.vtables.push(format!(
                            "{{\"t\":\"vt\",\"ty\":{},\"dyn\":{},\"m\":{}}}",
                            si, di, v
                        ));
                    }
                }
                return;
            }
            match (Self::pointee(s), Self::pointee(d)) {
                (Some(a), Some(b)) => {
                    s = a;
                    d = b;
                }
                _ => return,
            }
        }
    }
    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Discriminant(p) => {
                let t = r.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"discr\",{},{}]", self.place(p), t)
            }
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                format!("[\"rep\",{},{}]", self.operand(o), n.eval_target_usize().unwrap_or(0))
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                let t2 = b.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"bin\",\"{:?}\",{},{},{},{}]", op, self.operand(a), self.operand(b), t, t2)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                let t2 = b.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"chk\",\"{:?}\",{},{},{},{}]", op, self.operand(a), self.operand(b), t, t2)
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(a), t)
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".to_string(),
            Rvalue::Cast(k, o, t) => {
                let src = o.ty(locals);
                let st = src.as_ref().map(|t| self.ty(*t) as i64).unwrap_or(-1);
                let mut extra = "null".to_string();
                if let (CastKind::PointerCoercion(pc), Ok(src)) = (k, &src) {
                    match pc {
                        PointerCoercion::Unsize => self.note_unsize(*src, *t),
                        PointerCoercion::ReifyFnPointer(_) => {
                            if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = src.kind() {
                                if let Ok(i) = Instance::resolve_for_fn_ptr(def, &args) {
                                    extra = format!("{}", self.inst(i));
                                }
                            }
                        }
                        PointerCoercion::ClosureFnPointer(_) => {
                            if let TyKind::RigidTy(RigidTy::Closure(def, args)) = src.kind() {
                                if let Ok(i) = Instance::resolve_closure(def, &args, ClosureKind::FnOnce) {
                                    extra = format!("{}", self.inst(i));
                                }
                            }
                        }
                        _ => {}
                    }
                }
                format!("[\"cast\",{},{},{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), st, self.ty(*t), extra)
            }
            Rvalue::Aggregate(k, ops) => {
                let t = r.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                let v = match k {
                    AggregateKind::Adt(_, v, _, _, f) => {
                        format!("[\"adt\",{},{}]", v.to_index(), f.map(|x| x as i64).unwrap_or(-1))
                    }
                    AggregateKind::Array(_) => "[\"arr\"]".to_string(),
                    AggregateKind::Tuple => "[\"tup\"]".to_string(),
                    AggregateKind::Closure(..) => "[\"clo\"]".to_string(),
                    AggregateKind::RawPtr(..) => "[\"ptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                let o = list(ops.iter().map(|o| self.operand(o)));
                format!("[\"agg\",{},{},{}]", v, t, o)
            }
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals();
        let lt = list(locals.iter().map(|l| format!("{}", self.ty(l.ty))));
        let mut blocks = Vec::new();
        for bb in &b.blocks {
            let mut st = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let ps = self.place(p);
                        let rs = self.rvalue(r, locals);
                        st.push(format!("[\"=\",{},{}]", ps, rs));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index()));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        st.push(format!(
                            "[\"cpy\",{},{},{}]",
                            self.operand(&c.src),
                            self.operand(&c.dst),
                            self.operand(&c.count)
                        ));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => {}
                    _ => {}
                }
            }
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let br = list(targets.branches().map(|(v, b)| format!("[{},{}]", v, b)));
                    format!("[\"sw\",{},{},{},{}]", self.operand(discr), t, br, targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".to_string(),
                TerminatorKind::Abort => "[\"abort\"]".to_string(),
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unr\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a = list(args.iter().map(|o| self.operand(o)));
                    let d = self.place(destination);
                    let tg = target.map(|t| format!("{}", t)).unwrap_or("null".to_string());
                    let line = bb.terminator.source_info.span.get_lines().start_line;
                    format!("[\"call\",{},{},{},{},{}]", f, a, d, tg, line)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds",
                        AssertMessage::Overflow(..) => "overflow",
                        AssertMessage::OverflowNeg(..) => "overflow",
                        AssertMessage::DivisionByZero(..) => "div0",
                        AssertMessage::RemainderByZero(..) => "rem0",
                        _ => "other",
                    };
                    let line = bb.terminator.source_info.span.get_lines().start_line;
                    format!("[\"assert\",{},{},\"{}\",{},{}]", self.operand(cond), expected, m, target, line)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".to_string(),
            };
            blocks.push(format!("[{},{}]", list(st), t));
        }
        let names = list(b.var_debug_info.iter().filter_map(|v| match &v.value {
            VarDebugInfoContents::Place(p) if p.projection.is_empty() => {
                Some(format!("[{},{}]", esc(&v.name), p.local))
            }
            _ => None,
        }));
        format!(
            "\"argc\":{},\"locals\":{},\"spread\":{},\"names\":{},\"blocks\":{}",
            b.arg_locals().len(),
            lt,
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            names,
            list(blocks)
        )
    }
    fn ty_line(&mut self, id: usize) -> String {
        let t = self.ty_list[id];
        let mut extra = String::new();
        let layout = t.layout().ok().map(|l| l.shape());
        if let Some(l) = &layout {
            let _ = write!(extra, ",\"size\":{}", if l.is_sized() { l.size.bytes() as i64 } else { -1 });
            match &l.fields {
                FieldsShape::Arbitrary { offsets } => {
                    let _ = write!(extra, ",\"off\":{}", list(offsets.iter().map(|o| o.bytes().to_string())));
                }
                FieldsShape::Array { stride, count } => {
                    let _ = write!(extra, ",\"stride\":{},\"count\":{}", stride.bytes(), count);
                }
                _ => {}
            }
            match &l.variants {
                VariantsShape::Single { index } => {
                    let _ = write!(extra, ",\"single\":{}", index.to_index());
                }
                VariantsShape::Empty => {}
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                    let prim = match tag {
                        Scalar::Initialized { value, .. } | Scalar::Union { value } => value.clone(),
                    };
                    let tsz = match prim {
                        Primitive::Int { length, .. } => length.bits() / 8,
                        _ => 8,
                    };
                    let enc = match tag_encoding {
                        TagEncoding::Direct => "\"direct\"".to_string(),
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                            "[{},{},{},{}]",
                            untagged_variant.to_index(),
                            niche_variants.start().to_index(),
                            niche_variants.end().to_index(),
                            niche_start
                        ),
                    };
                    let vs = list(variants.iter().map(|v| list(v.offsets.iter().map(|o| o.bytes().to_string()))));
                    let _ = write!(extra, ",\"tag\":{{\"field\":{},\"size\":{},\"enc\":{},\"voff\":{}}}", tag_field, tsz, enc, vs);
                }
            }
        }
        let head = format!("{{\"t\":\"ty\",\"id\":{}", id);
        let k = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".to_string(),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(e)),
                RigidTy::Array(e, n) => format!(
                    "\"k\":\"array\",\"elem\":{},\"len\":{}",
                    self.ty(e),
                    n.eval_target_usize().unwrap_or(0)
                ),
                RigidTy::RawPtr(e, _) => format!("\"k\":\"ptr\",\"to\":{}", self.ty(e)),
                RigidTy::Ref(_, e, m) => {
                    format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::Tuple(v) => {
                    format!("\"k\":\"tuple\",\"fields\":{}", list(v.iter().map(|t| self.ty(*t).to_string())))
                }
                RigidTy::FnDef(_, _) => {
                    format!("\"k\":\"fndef\",\"fn\":{}", self.fn_ref(t).unwrap_or("null".into()))
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Dynamic(p, _) => format!("\"k\":\"dyn\",\"s\":{}", esc(&format!("{:?}", p.len()))),
                RigidTy::Pat(t, _) => format!("\"k\":\"pat\",\"of\":{}", self.ty(t)),
                RigidTy::Closure(def, args) => {
                    // the upvar tuple is the last generic argument
                    let up = args.0.last().and_then(|a| a.ty().copied());
                    let f = match up.map(|u| u.kind()) {
                        Some(TyKind::RigidTy(RigidTy::Tuple(v))) => {
                            list(v.iter().map(|t| self.ty(*t).to_string()))
                        }
                        _ => "[]".to_string(),
                    };
                    format!("\"k\":\"closure\",\"name\":{},\"fields\":{}", esc(&def.name()), f)
                }
                RigidTy::Adt(def, args) => {
                    let a = self.generic_args(&args);
                    let kind = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let mut vs = Vec::new();
                    for (i, v) in def.variants().iter().enumerate() {
                        let d = if def.kind() == AdtKind::Enum {
                            def.discriminant_for_variant(<VariantIdx as IndexedVal>::to_val(i)).val.to_string()
                        } else {
                            "0".to_string()
                        };
                        let fs = list(
                            v.fields()
                                .iter()
                                .map(|f| format!("[{},{}]", esc(&f.name), self.ty(f.ty_with_args(&args)))),
                        );
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(&v.name()), d, fs));
                    }
                    format!(
                        "\"k\":\"adt\",\"kind\":\"{}\",\"name\":{},\"args\":{},\"vars\":{}",
                        kind,
                        esc(&def.name()),
                        a,
                        list(vs)
                    )
                }
                other => format!("\"k\":\"other\",\"s\":{}", esc(&format!("{:?}", other).chars().take(80).collect::<String>())),
            },
            other => format!("\"k\":\"other\",\"s\":{}", esc(&format!("{:?}", other).chars().take(80).collect::<String>())),
        };
        format!("{},{}{},\"str\":{}}}", head, k, extra, esc(&format!("{}", t)))
    }
    fn fn_line(&mut self, id: usize) -> String {
        let i = self.inst_list[id];
        let name = i.name();
        let args = self.generic_args(&i.args());
        let (kind, vidx) = match i.kind {
            InstanceKind::Item => ("item", -1),
            InstanceKind::Intrinsic => ("intrinsic", -1),
            InstanceKind::LlvmIntrinsic => ("llvm", -1),
            InstanceKind::Virtual { idx } => ("virtual", idx as i64),
            InstanceKind::Shim => ("shim", -1),
        };
        let defname = i.def.name();
        let mut s = format!(
            "{{\"t\":\"fn\",\"id\":{},\"name\":{},\"def\":{},\"krate\":{},\"kind\":\"{}\",\"vidx\":{},\"args\":{},\"ty\":{}",
            id,
            esc(&name),
            esc(&defname),
            esc(&i.def.krate().name),
            kind,
            vidx,
            args,
            self.ty(i.ty())
        );
        if let Some(n) = i.intrinsic_name() {
            let _ = write!(s, ",\"intr\":{}", esc(&n));
        }
        let stop = self.stop.iter().any(|p| defname.starts_with(p.as_str()) || name.starts_with(p.as_str()));
        if stop {
            s.push_str(",\"stop\":1");
        } else if kind != "virtual" && kind != "intrinsic" && kind != "llvm" && (kind == "shim" || i.has_body()) && !i.is_foreign_item() {
            if let Some(b) = i.body() {
                let bs = self.body(&b);
                let _ = write!(s, ",{}", bs);
                let sp = i.def.span();
                let _ = write!(s, ",\"file\":{},\"line\":{}", esc(&sp.get_filename()), sp.get_lines().start_line);
            }
        } else if kind == "intrinsic" && i.has_body() {
            s.push_str(",\"fallback\":1");
        }
        s.push('}');
        s
    }
    fn alloc_line(&mut self, id: usize) -> String {
        let a = self.alloc_list[id];
        let g = GlobalAlloc::from(a);
        match g {
            GlobalAlloc::Function(i) => format!("{{\"t\":\"al\",\"id\":{},\"fn\":{}}}", id, self.inst(i)),
            GlobalAlloc::VTable(t, _) => format!("{{\"t\":\"al\",\"id\":{},\"vt\":{}}}", id, self.ty(t)),
            GlobalAlloc::Static(s) => {
                let t = self.ty(s.ty());
                let body = match s.eval_initializer() {
                    Ok(a) => self.allocation(&a),
                    Err(_) => "null".to_string(),
                };
                format!("{{\"t\":\"al\",\"id\":{},\"static\":{},\"ty\":{},\"mem\":{}}}", id, esc(&s.name()), t, body)
            }
            GlobalAlloc::Memory(m) => {
                let b = self.allocation(&m);
                format!("{{\"t\":\"al\",\"id\":{},\"mem\":{}}}", id, b)
            }
            GlobalAlloc::TypeId { ty } => format!("{{\"t\":\"al\",\"id\":{},\"typeid\":{}}}", id, self.ty(ty)),
        }
    }
}

fn read_list(var: &str) -> Vec<String> {
    std::env::var(var)
        .ok()
        .and_then(|f| std::fs::read_to_string(f).ok())
        .map(|s| s.lines().filter(|l| !l.trim().is_empty()).map(|l| l.trim_end().to_string()).collect())
        .unwrap_or_default()
}

fn dump() -> ControlFlow<()> {
    let krate = local_crate().name;
    let dir = std::env::var("MIRDUMP_DIR").unwrap();
    let mut d = Dump::default();
    d.stop = read_list("MIRDUMP_STOP");
    d.cut = read_list("MIRDUMP_SKIP");
    for item in all_local_items() {
        if !matches!(item.kind(), ItemKind::Fn) {
            continue;
        }
        let name = item.name();
        if d.cut.iter().any(|p| name.contains(p.as_str())) {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            d.inst(i);
        }
    }
    let nroots = d.inst_list.len();
    let path = format!("{}/{}.jsonl", dir, krate);
    let tmp = format!("{}.tmp", path);
    let mut out = std::io::BufWriter::new(std::fs::File::create(&tmp).unwrap());
    let (mut fi, mut ti, mut ai, mut vi) = (0, 0, 0, 0);
    loop {
        if fi < d.inst_list.len() {
            let l = d.fn_line(fi);
            writeln!(out, "{}", l).unwrap();
            fi += 1;
        } else if ai < d.alloc_list.len() {
            let l = d.alloc_line(ai);
            writeln!(out, "{}", l).unwrap();
            ai += 1;
        } else if ti < d.ty_list.len() {
            let l = d.ty_line(ti);
            writeln!(out, "{}", l).unwrap();
            ti += 1;
        } else if vi < d.vtables.len() {
            let l = d.vtables[vi].clone();
            writeln!(out, "{}", l).unwrap();
            vi += 1;
        } else {
            break;
        }
    }
    writeln!(out, "{{\"t\":\"end\",\"fns\":{},\"tys\":{},\"allocs\":{},\"roots\":{}}}", fi, ti, ai, nroots).unwrap();
    out.flush().unwrap();
    std::fs::rename(&tmp, &path).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper, argv[1] is the real compiler
    args.remove(0);
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let wanted = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    if wanted.split(',').any(|c| c == name) && !name.is_empty() {
        match run!(&args, dump) {
            Ok(_) => {}
            Err(e) => {
                eprintln!("mirdump: {:?}", e);
                std::process::exit(1);
            }
        }
    } else {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
}
