//! MIR extraction driver.
//!
//! Compiles the crate it is pointed at with the nightly compiler's own front end, and
//! dumps the monomorphised MIR of every function reachable from the `h_*` contract
//! functions of that crate as JSON.  Nothing is rewritten: blocks, statements, places,
//! operands and constants are written out one for one.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_json: Vec<String>,
    insts: HashMap<Instance, usize>,
    inst_json: Vec<String>,
    queue: VecDeque<(Instance, usize, usize)>,
    fndefs: HashMap<Ty, usize>,
    depth: usize,
}

fn is_local_crate(name: &str) -> bool { name == "skillratings" || name == "harness" }

impl Cx {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&n) = self.insts.get(&i) { return n; }
        let n = self.inst_json.len();
        self.insts.insert(i, n);
        self.inst_json.push(String::new());
        self.queue.push_back((i, n, self.depth));
        n
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&n) = self.tys.get(&t) { return n; }
        let n = self.ty_json.len();
        self.tys.insert(t, n);
        self.ty_json.push(String::new());
        let s = self.ty_str(t);
        self.ty_json[n] = s;
        n
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for x in &a.0 {
            match x {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() { Ok(k) => format!("{{\"c\":{}}}", k), _ => "null".into() }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }

    fn fn_entry(&mut self, def: FnDef, args: &GenericArgs) -> String {
        let name = def.name();
        let a = self.args(args);
        let (inst, iname, kind, icrate) = match Instance::resolve(def, args) {
            Ok(i) => {
                let k = match i.kind {
                    InstanceKind::Item => "item",
                    InstanceKind::Intrinsic => "intrinsic",
                    InstanceKind::LlvmIntrinsic => "llvm",
                    InstanceKind::Virtual { .. } => "virtual",
                    InstanceKind::Shim => "shim",
                };
                let kr = i.def.krate().name.to_string();
                let nm = i.def.name();
                let n = if k == "virtual" { "null".to_string() } else { self.inst(i).to_string() };
                (n, nm.to_string(), k, kr)
            }
            Err(_) => ("null".into(), "?".into(), "unresolved", "?".to_string()),
        };
        format!("\"def\":{},\"crate\":{},\"args\":{},\"inst\":{},\"iname\":{},\"ikind\":{},\"icrate\":{}",
            js(&name), js(&def.krate().name), a, inst, js(&iname), js(kind), js(&icrate))
    }

    fn ty_str(&mut self, t: Ty) -> String {
        let disp = js(&format!("{}", t));
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "{\"k\":\"bool\"}".into(),
                RigidTy::Char => "{\"k\":\"char\"}".into(),
                RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bits\":{}}}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"bits\":{}}}", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("{{\"k\":\"float\",\"w\":{}}}", js(&format!("{:?}", f))),
                RigidTy::Str => "{\"k\":\"str\"}".into(),
                RigidTy::Never => "{\"k\":\"never\"}".into(),
                RigidTy::Array(e, n) => format!("{{\"k\":\"array\",\"e\":{},\"n\":{}}}", self.ty(e), n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)),
                RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", self.ty(e)),
                RigidTy::RawPtr(e, m) => format!("{{\"k\":\"ptr\",\"e\":{},\"m\":{}}}", self.ty(e), m == Mutability::Mut),
                RigidTy::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"e\":{},\"m\":{}}}", self.ty(e), m == Mutability::Mut),
                RigidTy::Tuple(ts) => {
                    let v: Vec<_> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("{{\"k\":\"tuple\",\"ts\":[{}]}}", v.join(","))
                }
                RigidTy::Adt(def, args) => {
                    let a = self.args(&args);
                    let mut vs = vec![];
                    let kind = match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                    for v in def.variants_iter() {
                        let fs: Vec<_> = v.fields().iter().map(|f| {
                            let ft = f.ty_with_args(&args);
                            format!("[{},{}]", js(&f.name), self.ty(ft))
                        }).collect();
                        let d = if kind == "enum" { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"fs\":[{}]}}", js(&v.name()), d, fs.join(",")));
                    }
                    format!("{{\"k\":\"adt\",\"kind\":\"{}\",\"n\":{},\"crate\":{},\"args\":{},\"vs\":[{}],\"s\":{}}}", kind, js(&def.name()), js(&def.krate().name), a, vs.join(","), disp)
                }
                RigidTy::FnDef(def, args) => {
                    let e = self.fn_entry(def, &args);
                    format!("{{\"k\":\"fndef\",{}}}", e)
                }
                RigidTy::Closure(def, args) => {
                    let body = match Instance::resolve_closure(def, &args, ClosureKind::Fn) {
                        Ok(i) => self.inst(i).to_string(),
                        Err(_) => "null".into(),
                    };
                    format!("{{\"k\":\"closure\",\"inst\":{},\"s\":{}}}", body, js(&def.name()))
                }
                RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", disp),
                RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", disp),
                _ => format!("{{\"k\":\"other\",\"s\":{}}}", disp),
            },
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", disp),
        }
    }

    // ---- constants -------------------------------------------------------
    fn uint(bytes: &[Option<u8>], off: usize, n: usize) -> Option<u128> {
        let mut r: u128 = 0;
        for i in (0..n).rev() { r = (r << 8) | (*bytes.get(off + i)?).as_ref().copied()? as u128; }
        Some(r)
    }

    fn alloc_val(&mut self, t: Ty, a: &Allocation, off: usize) -> String {
        let un = "{\"k\":\"unknown\"}".to_string();
        let TyKind::RigidTy(r) = t.kind() else { return un };
        let b = &a.bytes;
        match r {
            RigidTy::Bool => Self::uint(b, off, 1).map(|x| format!("{{\"k\":\"int\",\"v\":\"{}\"}}", x)).unwrap_or(un),
            RigidTy::Char => Self::uint(b, off, 4).map(|x| format!("{{\"k\":\"int\",\"v\":\"{}\"}}", x)).unwrap_or(un),
            RigidTy::Uint(u) => Self::uint(b, off, u.num_bytes()).map(|x| format!("{{\"k\":\"int\",\"v\":\"{}\"}}", x)).unwrap_or(un),
            RigidTy::Int(u) => {
                let n = u.num_bytes();
                Self::uint(b, off, n).map(|x| { let s = 128 - 8 * n; let v = ((x << s) as i128) >> s; format!("{{\"k\":\"int\",\"v\":\"{}\"}}", v) }).unwrap_or(un)
            }
            RigidTy::Float(FloatTy::F64) => Self::uint(b, off, 8).map(|x| format!("{{\"k\":\"f64\",\"v\":\"{}\"}}", x)).unwrap_or(un),
            RigidTy::Float(FloatTy::F32) => Self::uint(b, off, 4).map(|x| format!("{{\"k\":\"f64\",\"v\":\"{}\"}}", (f32::from_bits(x as u32) as f64).to_bits())).unwrap_or(un),
            RigidTy::Tuple(ts) => {
                let Ok(l) = t.layout() else { return un };
                let FieldsShape::Arbitrary { offsets } = l.shape().fields else {
                    return if ts.is_empty() { "{\"k\":\"agg\",\"v\":0,\"fs\":[]}".into() } else { un };
                };
                let fs: Vec<_> = ts.iter().enumerate().map(|(i, ft)| self.alloc_val(*ft, a, off + offsets[i].bytes())).collect();
                format!("{{\"k\":\"agg\",\"v\":0,\"fs\":[{}]}}", fs.join(","))
            }
            RigidTy::Array(e, n) => {
                let Ok(n) = n.eval_target_usize() else { return un };
                let Ok(l) = e.layout() else { return un };
                let sz = l.shape().size.bytes();
                let fs: Vec<_> = (0..n as usize).map(|i| self.alloc_val(e, a, off + i * sz)).collect();
                format!("{{\"k\":\"arr\",\"fs\":[{}]}}", fs.join(","))
            }
            RigidTy::Adt(def, args) => {
                let Ok(l) = t.layout() else { return un };
                let sh = l.shape();
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Single { index } => {
                        let o = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|s| s.bytes()).collect(), _ => vec![] };
                        (index.to_index(), o)
                    }
                    VariantsShape::Multiple { tag_encoding, tag_field, variants, tag } => {
                        let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                        let sz = match tag { rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => match value {
                            rustc_public::abi::Primitive::Int { length, .. } => length.bits() / 8,
                            _ => 8,
                        } };
                        let has_prov = a.provenance.ptrs.iter().any(|p| p.0 == off + toff);
                        let Some(tv) = Self::uint(b, off + toff, sz) else { return un };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => def.variants_iter().position(|v| { let d = def.discriminant_for_variant(v.idx()).val; (d & (if sz >= 16 { u128::MAX } else { (1u128 << (8*sz)) - 1 })) == tv }).unwrap_or(0),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let lo = niche_variants.start().to_index() as u128;
                                let hi = niche_variants.end().to_index() as u128;
                                let rel = tv.wrapping_sub(*niche_start);
                                if !has_prov && rel <= hi - lo { (lo + rel) as usize } else { untagged_variant.to_index() }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|s| s.bytes()).collect())
                    }
                    _ => return un,
                };
                let vs = def.variants();
                let Some(v) = vs.get(vi) else { return un };
                let fields = v.fields();
                if fields.len() != offs.len() { return un; }
                let fs: Vec<_> = fields.iter().enumerate().map(|(i, f)| { let ft = f.ty_with_args(&args); self.alloc_val(ft, a, off + offs[i]) }).collect();
                format!("{{\"k\":\"agg\",\"v\":{},\"fs\":[{}]}}", vi, fs.join(","))
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some(p) = a.provenance.ptrs.iter().find(|p| p.0 == off) else { return un };
                let inner_off = Self::uint(b, off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(p.1.0) {
                    GlobalAlloc::Memory(m) => {
                        match e.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let n = Self::uint(b, off + 8, 8).unwrap_or(0) as usize;
                                let by: Vec<u8> = m.bytes[inner_off..inner_off + n].iter().map(|x| x.unwrap_or(b'?')).collect();
                                format!("{{\"k\":\"str\",\"v\":{}}}", js(&String::from_utf8_lossy(&by)))
                            }
                            TyKind::RigidTy(RigidTy::Slice(el)) => {
                                let n = Self::uint(b, off + 8, 8).unwrap_or(0) as usize;
                                let Ok(l) = el.layout() else { return un };
                                let sz = l.shape().size.bytes();
                                let fs: Vec<_> = (0..n).map(|i| self.alloc_val(el, &m, inner_off + i * sz)).collect();
                                format!("{{\"k\":\"ref\",\"v\":{{\"k\":\"arr\",\"fs\":[{}]}}}}", fs.join(","))
                            }
                            TyKind::RigidTy(RigidTy::Dynamic(..)) => un,
                            _ => { let v = self.alloc_val(e, &m, inner_off); format!("{{\"k\":\"ref\",\"v\":{}}}", v) }
                        }
                    }
                    GlobalAlloc::Static(s) => match s.eval_initializer() {
                        Ok(m) => match e.kind() {
                            TyKind::RigidTy(RigidTy::Str | RigidTy::Slice(_) | RigidTy::Dynamic(..)) => un,
                            _ => { let v = self.alloc_val(e, &m, inner_off); format!("{{\"k\":\"ref\",\"v\":{}}}", v) }
                        },
                        Err(_) => un,
                    },
                    GlobalAlloc::Function(i) => { let n = self.inst(i); format!("{{\"k\":\"fnp\",\"v\":{}}}", n) }
                    _ => un,
                }
            }
            RigidTy::FnPtr(_) => {
                let Some(p) = a.provenance.ptrs.iter().find(|p| p.0 == off) else { return un };
                match GlobalAlloc::from(p.1.0) {
                    GlobalAlloc::Function(i) => { let n = self.inst(i); format!("{{\"k\":\"fnp\",\"v\":{}}}", n) }
                    _ => un,
                }
            }
            _ => un,
        }
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.alloc_val(c.ty(), a, 0),
            ConstantKind::ZeroSized => "{\"k\":\"zst\"}".into(),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() { Ok(n) => format!("{{\"k\":\"int\",\"v\":\"{}\"}}", n), _ => "{\"k\":\"unknown\"}".into() },
            _ => "{\"k\":\"unknown\"}".into(),
        };
        format!("[\"k\",{},{}]", t, v)
    }

    // ---- bodies ----------------------------------------------------------
    fn place(&mut self, p: &Place) -> String {
        let v: Vec<String> = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "[\"d\"]".into(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(_) => "[\"o\"]".into(),
        }).collect();
        format!("[{},[{}]]", p.local, v.join(","))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rt\",{}]", js(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<_> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => { let t = d.ty_with_args(a); format!("[\"adt\",{},{},{}]", self.ty(t), v.to_index(), f.map(|x| x.to_string()).unwrap_or("null".into())) }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(*d, a.clone()); format!("[\"closure\",{}]", self.ty(t)) }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},[{}]]", k, o.join(","))
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"cbin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"cast\",{},{},{},{}]", js(&format!("{:?}", k)), self.operand(o), st, self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"discr\",{},{}]", self.place(p), t)
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)),
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(a), t)
            }
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", *m == Mutability::Mut, self.place(p)),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let lt: Vec<_> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() { names.push(format!("[{},{}]", l, js(&v.name))); }
        }
        let mut blocks = vec![];
        for bl in &b.blocks {
            let mut st = vec![];
            for s in &bl.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let ps = self.place(p);
                        let rs = self.rvalue(r, &locals);
                        let ln = s.source_info.span.get_lines().start_line;
                        st.push(format!("[\"=\",{},{},{}]", ps, rs, ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index())),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => st.push("[\"cno\"]".into()),
                    _ => {}
                }
            }
            let ln = bl.terminator.source_info.span.get_lines().start_line;
            let t = match &bl.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let bs: Vec<_> = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                    format!("[\"switch\",{},[{}],{},{}]", self.operand(discr), bs.join(","), targets.otherwise(), ty)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<_> = args.iter().map(|o| self.operand(o)).collect();
                    let at: Vec<_> = args.iter().map(|o| o.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1).to_string()).collect();
                    let ft = func.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let fo = self.operand(func);
                    let d = self.place(destination);
                    let dt = destination.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!("[\"call\",{},{},[{}],[{}],{},{},{},{}]", fo, ft, a.join(","), at.join(","), d, dt, target.map(|x| x.to_string()).unwrap_or("null".into()), ln)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(op, ..) => format!("overflow {:?}", op),
                        AssertMessage::OverflowNeg(_) => "overflow neg".into(),
                        AssertMessage::DivisionByZero(_) => "div by zero".into(),
                        AssertMessage::RemainderByZero(_) => "rem by zero".into(),
                        _ => "other".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, js(&m), target, ln)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{}}}", st.join(","), t));
        }
        format!("{{\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[{}],\"file\":{}}}",
            b.arg_locals().len(), b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            lt.join(","), names.join(","), blocks.join(","), js(&b.span.get_filename()))
    }

    fn run(&mut self) {
        while let Some((i, n, depth)) = self.queue.pop_front() {
            let kr = i.def.krate().name.to_string();
            let local = is_local_crate(&kr);
            let d = if local { 0 } else { depth + 1 };
            let mut bs = "null".to_string();
            if d <= 3 {
                let is_drop = i.name().contains("drop_glue") || i.name().contains("drop_in_place");
                if (local || i.has_body()) && !is_drop && i.kind != InstanceKind::Intrinsic {
                    if let Some(b) = i.body() {
                        if local || b.blocks.len() <= 12 {
                            self.depth = d;
                            bs = self.body(&b);
                        }
                    }
                }
            }
            let name = js(&i.def.name());
            let full = js(&i.name());
            let s = format!("{{\"n\":{},\"full\":{},\"crate\":{},\"body\":{}}}", name, full, js(&kr), bs);
            self.inst_json[n] = s;
        }
    }
}

fn analyze() -> ControlFlow<(), ()> {
    let out = std::env::var("MIR_OUT").expect("MIR_OUT");
    let mut cx = Cx { tys: HashMap::new(), ty_json: vec![], insts: HashMap::new(), inst_json: vec![], queue: VecDeque::new(), fndefs: HashMap::new(), depth: 0 };
    let _ = &cx.fndefs;
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        let nm = item.name();
        let last = nm.rsplit("::").next().unwrap_or("").to_string();
        if last.starts_with("h_") {
            if let Ok(i) = Instance::try_from(item) {
                let n = cx.inst(i);
                roots.push(format!("[{},{}]", js(&nm), n));
            }
        }
    }
    cx.run();
    let s = format!("{{\"roots\":[{}],\n\"types\":[{}],\n\"insts\":[{}]}}\n", roots.join(","), cx.ty_json.join(",\n"), cx.inst_json.join(",\n"));
    std::fs::write(out, s).expect("write");
    ControlFlow::Break(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = rustc_public::run!(&args, analyze);
    match r {
        Ok(_) | Err(rustc_public::CompilerError::Interrupted(_)) | Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
