//! Compiler driver: type checks a crate exactly as rustc does and writes the monomorphic MIR of
//! the functions reachable from the crate's own non-generic items as JSON.  Used as
//! RUSTC_WORKSPACE_WRAPPER, so every other crate is compiled by the ordinary compiler.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) == 127 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    insts: HashMap<Instance, usize>,
    inst_q: Vec<Instance>,
    inst_out: Vec<String>,
    stop: Vec<String>,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(String::new());
        let s = self.ty_json(t);
        self.ty_out[id] = s;
        id
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a.0.iter().filter_map(|g| match g {
            GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
            _ => None,
        }).collect();
        format!("[{}]", v.join(","))
    }

    fn ty_json(&mut self, t: Ty) -> String {
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => r#"{"k":"bool"}"#.into(),
                RigidTy::Char => r#"{"k":"char"}"#.into(),
                RigidTy::Str => r#"{"k":"str"}"#.into(),
                RigidTy::Never => r#"{"k":"never"}"#.into(),
                RigidTy::Int(i) => format!(r#"{{"k":"int","w":{}}}"#, i.num_bytes() * 8),
                RigidTy::Uint(i) => format!(r#"{{"k":"uint","w":{}}}"#, i.num_bytes() * 8),
                RigidTy::Float(f) => format!(r#"{{"k":"float","w":{}}}"#, match f { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 }),
                RigidTy::Adt(d, args) => {
                    let name = q(&d.name());
                    let a = self.args(&args);
                    let mut vs = vec![];
                    let is_enum = matches!(d.kind(), AdtKind::Enum);
                    // Library containers are opaque: only their name and arguments matter.
                    let opaque = matches!(d.kind(), AdtKind::Union) || self.opaque_adt(&d.name());
                    if !opaque {
                        for v in d.variants() {
                            let discr = if is_enum { d.discriminant_for_variant(v.idx()).val } else { 0 };
                            let mut fs = vec![];
                            for f in v.fields() {
                                let ft = f.ty_with_args(&args);
                                let fid = self.ty(ft);
                                fs.push(format!("[{},{}]", q(&f.name), fid));
                            }
                            vs.push(format!(r#"{{"name":{},"discr":"{}","fields":[{}]}}"#, q(&v.name()), discr, fs.join(",")));
                        }
                    }
                    format!(r#"{{"k":"adt","name":{},"enum":{},"opaque":{},"args":{},"variants":[{}]}}"#, name, is_enum, opaque, a, vs.join(","))
                }
                RigidTy::Array(e, n) => { let i = self.ty(e); format!(r#"{{"k":"array","of":{},"n":{}}}"#, i, n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())) }
                RigidTy::Slice(e) => { let i = self.ty(e); format!(r#"{{"k":"slice","of":{}}}"#, i) }
                RigidTy::Ref(_, e, m) => { let i = self.ty(e); format!(r#"{{"k":"ref","of":{},"mut":{}}}"#, i, m == Mutability::Mut) }
                RigidTy::RawPtr(e, m) => { let i = self.ty(e); format!(r#"{{"k":"ptr","of":{},"mut":{}}}"#, i, m == Mutability::Mut) }
                RigidTy::Tuple(v) => { let v: Vec<String> = v.iter().map(|t| self.ty(*t).to_string()).collect(); format!(r#"{{"k":"tuple","of":[{}]}}"#, v.join(",")) }
                RigidTy::FnDef(d, a) => {
                    let i = Instance::resolve(d, &a).ok().map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                    let ar = self.args(&a);
                    format!(r#"{{"k":"fndef","name":{},"inst":{},"args":{}}}"#, q(&d.name()), i, ar)
                }
                RigidTy::Closure(d, _) => format!(r#"{{"k":"closure","name":{}}}"#, q(&d.name())),
                RigidTy::Pat(e, _) => { let i = self.ty(e); format!(r#"{{"k":"pat","of":{}}}"#, i) }
                other => format!(r#"{{"k":"other","text":{}}}"#, q(&format!("{:?}", other).chars().take(80).collect::<String>())),
            },
            other => format!(r#"{{"k":"other","text":{}}}"#, q(&format!("{:?}", other).chars().take(80).collect::<String>())),
        }
    }

    fn opaque_adt(&self, n: &str) -> bool {
        let open = ["option::Option", "result::Result", "ops::ControlFlow", "convert::Infallible", "borrow::Cow",
            "iter::Enumerate", "iter::Map", "iter::Take", "iter::Skip", "iter::Zip", "iter::Rev", "iter::Filter", "ops::Range",
            "ops::RangeFrom", "ops::RangeTo", "ops::RangeInclusive", "cmp::Ordering", "iter::Peekable", "iter::Copied", "iter::Cloned", "iter::FilterMap", "iter::TakeWhile", "path::Component", "fmt::Error"];
        (n.starts_with("std::") || n.starts_with("core::") || n.starts_with("alloc::"))
            && !open.iter().any(|o| n.ends_with(o))
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let id = self.inst_q.len();
        self.insts.insert(i, id);
        self.inst_q.push(i);
        self.inst_out.push(String::new());
        id
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => r#"["deref"]"#.to_string(),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); format!(r#"["field",{},{}]"#, i, t) }
                ProjectionElem::Index(l) => format!(r#"["index",{}]"#, l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!(r#"["cindex",{},{},{}]"#, offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!(r#"["subslice",{},{},{}]"#, from, to, from_end),
                ProjectionElem::Downcast(v) => format!(r#"["downcast",{}]"#, v.to_index_()),
                ProjectionElem::OpaqueCast(_) => r#"["cast"]"#.to_string(),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }

    /// A constant's value from its bytes, by type.
    fn konst(&mut self, a: &rustc_public::ty::Allocation, off: usize, t: Ty) -> Option<String> {
        let size = t.layout().ok()?.shape().size.bytes();
        let rd = |o: usize, n: usize| a.read_partial_uint(o..o + n).ok();
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => Some(format!(r#"{{"bool":{}}}"#, rd(off, 1)? == 1)),
                RigidTy::Char => Some(format!(r#"{{"char":{}}}"#, rd(off, 4)?)),
                RigidTy::Int(_) | RigidTy::Uint(_) => Some(format!(r#"{{"bits":"{}","w":{}}}"#, rd(off, size)?, size * 8)),
                RigidTy::Float(_) => Some(format!(r#"{{"fbits":"{}","w":{}}}"#, rd(off, size)?, size * 8)),
                RigidTy::Pat(e, _) => self.konst(a, off, e),
                RigidTy::Tuple(v) if v.is_empty() => Some(r#"{"unit":1}"#.into()),
                RigidTy::FnDef(..) => { let i = self.ty(t); Some(format!(r#"{{"fndef":{}}}"#, i)) }
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().ok()? as usize;
                    let es = e.layout().ok()?.shape().size.bytes();
                    let mut v = vec![];
                    for i in 0..n {
                        v.push(self.konst(a, off + i * es, e)?);
                    }
                    Some(format!(r#"{{"array":[{}]}}"#, v.join(",")))
                }
                RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                    let (_, prov) = a.provenance.ptrs.iter().find(|(o, _)| *o == off)?;
                    let tgt = GlobalAlloc::from(prov.0);
                    let toff = rd(off, 8)? as usize;
                    let GlobalAlloc::Memory(m) = tgt else { return None };
                    match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let len = rd(off + 8, 8)? as usize;
                            let bytes: Vec<u8> = m.bytes[toff..toff + len].iter().map(|b| b.unwrap_or(0)).collect();
                            Some(format!(r#"{{"str":{}}}"#, q(&String::from_utf8(bytes).ok()?)))
                        }
                        TyKind::RigidTy(RigidTy::Slice(s)) => {
                            let len = rd(off + 8, 8)? as usize;
                            let es = s.layout().ok()?.shape().size.bytes();
                            let mut v = vec![];
                            for i in 0..len {
                                v.push(self.konst(&m, toff + i * es, s)?);
                            }
                            Some(format!(r#"{{"ref":{{"array":[{}]}}}}"#, v.join(",")))
                        }
                        _ => { let i = self.konst(&m, toff, e)?; Some(format!(r#"{{"ref":{}}}"#, i)) }
                    }
                }
                RigidTy::Adt(d, args) if matches!(d.kind(), AdtKind::Struct) => {
                    let sh = t.layout().ok()?.shape();
                    let offs: Vec<usize> = match &sh.fields {
                        rustc_public::abi::FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                        _ => return None,
                    };
                    let v0 = d.variants().into_iter().next()?;
                    let mut v = vec![];
                    for (i, f) in v0.fields().iter().enumerate() {
                        let ft = f.ty_with_args(&args);
                        v.push(self.konst(a, off + offs[i], ft)?);
                    }
                    Some(format!(r#"{{"struct":[{}]}}"#, v.join(",")))
                }
                RigidTy::Adt(d, _) if matches!(d.kind(), AdtKind::Enum) => {
                    // field-less enums only
                    if d.variants().iter().any(|v| !v.fields().is_empty()) || size == 0 {
                        return None;
                    }
                    let bits = rd(off, size)?;
                    let mask = if size >= 16 { u128::MAX } else { (1u128 << (8 * size)) - 1 };
                    for v in d.variants() {
                        if d.discriminant_for_variant(v.idx()).val & mask == bits {
                            return Some(format!(r#"{{"variant":{}}}"#, v.idx().to_index_()));
                        }
                    }
                    None
                }
                _ => None,
            },
            _ => None,
        }
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!(r#"["copy",{}]"#, self.place(p)),
            Operand::Move(p) => format!(r#"["move",{}]"#, self.place(p)),
            Operand::RuntimeChecks(r) => format!(r#"["rtcheck",{}]"#, q(&format!("{:?}", r))),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                let v = match c.const_.kind() {
                    ConstantKind::Allocated(a) => { let a = a.clone(); self.konst(&a, 0, t) }
                    ConstantKind::ZeroSized => Some(r#"{"zst":1}"#.into()),
                    ConstantKind::Ty(tc) => match tc.kind() {
                        TyConstKind::Value(t2, a) => { let (t2, a) = (*t2, a.clone()); self.konst(&a, 0, t2) }
                        _ => None,
                    },
                    _ => None,
                };
                format!(r#"["const",{},{}]"#, ti, v.unwrap_or("null".into()))
            }
        }
    }

    fn ops(&mut self, v: &[Operand]) -> String {
        let v: Vec<String> = v.iter().map(|o| self.operand(o)).collect();
        format!("[{}]", v.join(","))
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!(r#"["use",{}]"#, self.operand(o)),
            Rvalue::Repeat(o, n) => { let n = n.eval_target_usize().unwrap_or(0); format!(r#"["repeat",{},{}]"#, self.operand(o), n) }
            Rvalue::Ref(_, k, p) => format!(r#"["ref",{},{}]"#, self.place(p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::AddressOf(_, p) => format!(r#"["ref",{},true]"#, self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!(r#"["use",["copy",{}]]"#, self.place(p)),
            Rvalue::Len(p) => format!(r#"["len",{}]"#, self.place(p)),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); format!(r#"["cast",{},{},{}]"#, q(&format!("{:?}", k)), self.operand(o), t) }
            Rvalue::BinaryOp(b, x, y) => format!(r#"["bin",{},{},{}]"#, q(&format!("{:?}", b)), self.operand(x), self.operand(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!(r#"["cbin",{},{},{}]"#, q(&format!("{:?}", b)), self.operand(x), self.operand(y)),
            Rvalue::UnaryOp(u, x) => format!(r#"["un",{},{}]"#, q(&format!("{:?}", u)), self.operand(x)),
            Rvalue::Discriminant(p) => format!(r#"["discr",{}]"#, self.place(p)),
            Rvalue::CopyForDeref(p) => format!(r#"["use",["copy",{}]]"#, self.place(p)),
            Rvalue::Aggregate(k, v) => {
                let ops = self.ops(v);
                match k {
                    AggregateKind::Array(_) => format!(r#"["array",{}]"#, ops),
                    AggregateKind::Tuple => format!(r#"["tuple",{}]"#, ops),
                    AggregateKind::Adt(d, v, a, _, _) => { let t = self.ty(d.ty_with_args(a)); format!(r#"["adt",{},{},{}]"#, t, v.to_index_(), ops) }
                    AggregateKind::Closure(d, _) => format!(r#"["closure",{},{}]"#, q(&d.name()), ops),
                    other => format!(r#"["other",{}]"#, q(&format!("{:?}", other).chars().take(80).collect::<String>())),
                }
            }
            other => format!(r#"["other",{}]"#, q(&format!("{:?}", other).chars().take(80).collect::<String>())),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let mut locals = vec![];
        for l in b.locals() {
            locals.push(self.ty(l.ty).to_string());
        }
        let spread = b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into());
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => ss.push(format!(r#"["assign",{},{}]"#, self.place(p), self.rvalue(r))),
                    StatementKind::SetDiscriminant { place, variant_index } => ss.push(format!(r#"["setdiscr",{},{}]"#, self.place(place), variant_index.to_index_())),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => ss.push(format!(r#"["assume",{}]"#, self.operand(o))),
                    StatementKind::Intrinsic(_) => ss.push(r#"["unsupported","copy_nonoverlapping"]"#.into()),
                    _ => {}
                }
            }
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!(r#"["goto",{}]"#, target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!(r#"["{}",{}]"#, v, t)).collect();
                    format!(r#"["switch",{},[{}],{}]"#, self.operand(discr), br.join(","), targets.otherwise())
                }
                TerminatorKind::Return => r#"["return"]"#.into(),
                TerminatorKind::Unreachable => r#"["unreachable"]"#.into(),
                TerminatorKind::Resume | TerminatorKind::Abort => r#"["resume"]"#.into(),
                TerminatorKind::Drop { target, .. } => format!(r#"["goto",{}]"#, target),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => format!(r#"["assert",{},{},{},{}]"#, self.operand(cond), expected, q(&format!("{:?}", msg).chars().take(120).collect::<String>()), target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                                Ok(i) => self.inst(i).to_string(),
                                Err(_) => "null".into(),
                            },
                            _ => "null".into(),
                        },
                        _ => "null".into(),
                    };
                    let fo = self.operand(func);
                    let tg = target.map(|t| t.to_string()).unwrap_or("null".into());
                    format!(r#"["call",{},{},{},{},{}]"#, f, self.ops(args), self.place(destination), tg, fo)
                }
                TerminatorKind::InlineAsm { .. } => r#"["unsupported","asm"]"#.into(),
            };
            blocks.push(format!(r#"{{"s":[{}],"t":{}}}"#, ss.join(","), t));
        }
        format!(r#"{{"args":{},"spread":{},"locals":[{}],"blocks":[{}]}}"#, b.arg_locals().len(), spread, locals.join(","), blocks.join(","))
    }
}

trait Idx_ {
    fn to_index_(&self) -> usize;
}
impl Idx_ for VariantIdx {
    fn to_index_(&self) -> usize {
        rustc_public_bridge::IndexedVal::to_index(self)
    }
}

fn dump() -> ControlFlow<()> {
    let stop = std::env::var("MIRDUMP_STOP").unwrap_or_default();
    let entry = std::env::var("MIRDUMP_ENTRY").unwrap_or_default();
    let entries: Vec<&str> = entry.split('\n').filter(|s| !s.is_empty()).collect();
    let mut cx = Cx {
        tys: HashMap::new(),
        ty_out: vec![],
        insts: HashMap::new(),
        inst_q: vec![],
        inst_out: vec![],
        stop: stop.split('\n').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
    };
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) || item.requires_monomorphization() {
            continue;
        }
        let name = item.name();
        if !entries.iter().any(|e| name.contains(e)) {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            cx.inst(i);
        }
    }
    let roots = cx.inst_q.len();
    let mut done = 0;
    while done < cx.inst_q.len() && done < 6000 {
        let i = cx.inst_q[done];
        let name = i.name();
        let local = i.def.krate().is_local;
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let stopped = !local && cx.stop.iter().any(|s| i.def.name().starts_with(s.as_str()) || name.starts_with(s.as_str()));
        let fnty = cx.ty(i.ty());
        let at = cx.args(&i.args());
        let (mut ins, mut out) = (String::from("null"), String::from("null"));
        if let TyKind::RigidTy(RigidTy::FnDef(..)) = i.ty().kind() {
            if let Some(sig) = i.ty().kind().fn_sig() {
                let sig = sig.skip_binder();
                let v: Vec<String> = sig.inputs().iter().map(|t| cx.ty(*t).to_string()).collect();
                ins = format!("[{}]", v.join(","));
                out = cx.ty(sig.output()).to_string();
            }
        }
        let body = if stopped || kind == "virtual" || kind == "intrinsic" { None } else { i.body() };
        let b = match body {
            Some(b) => cx.body(&b),
            None => "null".into(),
        };
        cx.inst_out[done] = format!(r#"{{"name":{},"def":{},"kind":"{}","local":{},"root":{},"ty":{},"targs":{},"sig_in":{},"sig_out":{},"body":{}}}"#,
            q(&name), q(&i.def.name()), kind, local, done < roots, fnty, at, ins, out, b);
        done += 1;
    }
    for s in cx.inst_out.iter_mut() {
        if s.is_empty() {
            s.push_str("null");
        }
    }
    let out = format!("{{\"types\":[{}],\n\"insts\":[{}]}}\n", cx.ty_out.join(",\n"), cx.inst_out.join(",\n"));
    std::fs::write(std::env::var("MIRDUMP_OUT").unwrap(), out).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone());
    let mut rest: Vec<String> = args[1..].to_vec();
    if name.as_deref() == Some(want.as_str()) && !want.is_empty() {
        if let Ok(x) = std::env::var("MIRDUMP_EXTRA") {
            rest.extend(x.split_whitespace().map(|s| s.to_string()));
        }
        let r = run!(&rest, dump);
        std::process::exit(if r.is_ok() { 0 } else { 1 });
    }
    let st = std::process::Command::new(&rest[0]).args(&rest[1..]).status().unwrap();
    std::process::exit(st.code().unwrap_or(1));
}
