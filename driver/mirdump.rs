//! A rustc driver that writes the monomorphised MIR of everything reachable from the `pub fn`s of
//! the crate's module `roots` (and from every exported symbol) to a JSON file.
//! Only functions of the crates named in VP_CRATES get bodies; all others stay opaque callees.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;

use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use std::convert::{TryFrom, TryInto};

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump {
    crates: HashSet<String>,
    types: Vec<String>,
    type_ids: HashMap<Ty, usize>,
    insts: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    bodies: BTreeMap<usize, String>,
}

impl Dump {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(n) = self.insts.get(&i) {
            return *n;
        }
        let n = self.insts.len();
        self.insts.insert(i, n);
        self.queue.push_back((n, i));
        n
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a.0.iter().filter_map(|g| match g {
            GenericArgKind::Lifetime(_) => None,
            GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
            GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                Ok(n) => format!("{{\"c\":{}}}", n),
                Err(_) => format!("{{\"c\":{}}}", esc(&format!("{:?}", c.kind()))),
            }),
        }).collect();
        format!("[{}]", v.join(","))
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(n) = self.type_ids.get(&t) {
            return *n;
        }
        let n = self.types.len();
        self.type_ids.insert(t, n);
        self.types.push(String::new());
        let s = esc(&format!("{}", t));
        let kind = t.kind();
        let j = match &kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"w\":{}", esc(&format!("{:?}", i).to_lowercase())),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"w\":{}", esc(&format!("{:?}", i).to_lowercase())),
                RigidTy::Float(i) => format!("\"k\":\"float\",\"w\":{}", esc(&format!("{:?}", i).to_lowercase())),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Array(e, c) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"array\",\"e\":{},\"n\":{}", e, c.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into()))
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(*e)),
                RigidTy::RawPtr(e, m) => format!("\"k\":\"ptr\",\"e\":{},\"m\":{}", self.ty(*e), (*m == Mutability::Mut) as u8),
                RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"e\":{},\"m\":{}", self.ty(*e), (*m == Mutability::Mut) as u8),
                RigidTy::Tuple(v) => {
                    let v: Vec<String> = v.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"f\":[{}]", v.join(","))
                }
                RigidTy::Adt(def, args) => {
                    let a = self.args(args);
                    let mut vs = vec![];
                    if !def.is_box() {
                        for v in def.variants() {
                            let d = if def.kind() == AdtKind::Enum { def.discriminant_for_variant(v.idx()).val } else { 0 };
                            let fs: Vec<String> = v.fields().iter()
                                .map(|f| format!("[{},{}]", esc(&f.name.to_string()), self.ty(f.ty_with_args(args))))
                                .collect();
                            vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(&v.name().to_string()), d, fs.join(",")));
                        }
                    }
                    format!("\"k\":\"adt\",\"n\":{},\"ak\":{},\"c\":{},\"a\":{},\"v\":[{}]",
                        esc(&def.name().to_string()), esc(&format!("{:?}", def.kind())),
                        esc(&def.krate().name.to_string()), a, vs.join(","))
                }
                RigidTy::FnDef(def, args) => {
                    let a = self.args(args);
                    let c = self.callee(*def, args);
                    format!("\"k\":\"fndef\",\"n\":{},\"a\":{},\"callee\":{}", esc(&def.name().to_string()), a, c)
                }
                RigidTy::Closure(def, args) => {
                    let mut out = String::from("null");
                    if self.crates.contains(&def.krate().name.to_string()) {
                        for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                            if let Ok(i) = Instance::resolve_closure(*def, args, k) {
                                // The first kind that gives the closure's own body (not a shim).
                                if i.kind == InstanceKind::Item && i.has_body() {
                                    out = self.inst(i).to_string();
                                    break;
                                }
                            }
                        }
                    }
                    format!("\"k\":\"closure\",\"n\":{},\"inst\":{}", esc(&def.name().to_string()), out)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                RigidTy::Foreign(d) => format!("\"k\":\"foreign\",\"n\":{}", esc(&d.name().to_string())),
                other => format!("\"k\":\"other\",\"o\":{}", esc(&format!("{:?}", std::mem::discriminant(other)))),
            },
            TyKind::Alias(..) => "\"k\":\"alias\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        self.types[n] = format!("{{{},\"s\":{}}}", j, s);
        n
    }

    fn callee(&mut self, def: FnDef, args: &GenericArgs) -> String {
        let a = self.args(args);
        let path = def.name().to_string();
        match Instance::resolve(def, args) {
            Ok(i) => {
                let kind = format!("{:?}", i.kind);
                let rname = i.name().to_string();
                let foreign = i.is_foreign_item();
                let want = self.want(&i);
                let id = if want { self.inst(i).to_string() } else { "null".into() };
                let k = if foreign { "foreign".to_string() } else { kind.split(' ').next().unwrap().to_string() };
                let rdef = i_def_name(&i);
                format!("{{\"p\":{},\"a\":{},\"r\":{},\"rd\":{},\"i\":{},\"k\":{}}}", esc(&path), a, esc(&rname), esc(&rdef), id, esc(&k))
            }
            Err(_) => format!("{{\"p\":{},\"a\":{},\"r\":null,\"rd\":null,\"i\":null,\"k\":\"unresolved\"}}", esc(&path), a),
        }
    }

    fn want(&self, i: &Instance) -> bool {
        if i.is_foreign_item() || !i.has_body() {
            return false;
        }
        match i.kind {
            InstanceKind::Item => {
                let it: Result<CrateItem, _> = (*i).try_into();
                match it {
                    Ok(it) => self.crates.contains(&it.krate().name.to_string()),
                    Err(_) => false,
                }
            }
            _ => false,
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let v: Vec<String> = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "\"*\"".to_string(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(v) => format!("[\"dc\",{}]", vidx(v)),
            ProjectionElem::OpaqueCast(t) => format!("[\"cast\",{}]", self.ty(*t)),
        }).collect();
        format!("[{},[{}]]", p.local, v.join(","))
    }

    fn alloc_value(&mut self, a: &Allocation, ty: Ty, depth: usize) -> String {
        let kind = ty.kind();
        let bytes = || -> Option<String> {
            let v: Option<Vec<String>> = a.bytes.iter().map(|b| b.map(|b| b.to_string())).collect();
            v.map(|v| format!("{{\"bytes\":[{}]}}", v.join(",")))
        };
        if let TyKind::RigidTy(r) = &kind {
            match r {
                RigidTy::Bool => if let Ok(b) = a.read_bool() { return format!("{{\"v\":{}}}", b as u8) },
                RigidTy::Int(_) => if let Ok(b) = a.read_int() { return format!("{{\"v\":{}}}", b) },
                RigidTy::Uint(_) | RigidTy::Char => if let Ok(b) = a.read_uint() { return format!("{{\"v\":{}}}", b) },
                RigidTy::Float(f) => if let Ok(b) = a.read_uint() {
                    let v = if matches!(f, FloatTy::F32) { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b as u64) };
                    return format!("{{\"fl\":{}}}", esc(&format!("{:?}", v)));
                },
                RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) if depth < 4 => {
                    if let Some((_, prov)) = a.provenance.ptrs.first() {
                        let id = prov.0;
                        match GlobalAlloc::from(id) {
                            GlobalAlloc::Memory(m) => {
                                if let TyKind::RigidTy(RigidTy::Str) = e.kind() {
                                    if let Ok(b) = m.raw_bytes() {
                                        return format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(&b)));
                                    }
                                }
                                return format!("{{\"ref\":{}}}", self.alloc_value(&m, *e, depth + 1));
                            }
                            GlobalAlloc::Static(d) => return format!("{{\"static\":{}}}", esc(&d.name().to_string())),
                            GlobalAlloc::Function(i) => return format!("{{\"fnref\":{}}}", esc(&i.name().to_string())),
                            _ => {}
                        }
                    } else if let Ok(v) = a.read_uint() {
                        return format!("{{\"v\":{}}}", v);
                    }
                }
                _ => {}
            }
        }
        bytes().unwrap_or("{\"opaque\":1}".into())
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let ty = c.const_.ty();
                let t = self.ty(ty);
                let v = match c.const_.kind() {
                    ConstantKind::Allocated(a) => self.alloc_value(a, ty, 0),
                    ConstantKind::ZeroSized => "{\"zst\":1}".into(),
                    ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                        Ok(n) => format!("{{\"v\":{}}}", n),
                        Err(_) => "{\"opaque\":1}".into(),
                    },
                    ConstantKind::Unevaluated(u) => format!("{{\"uneval\":{}}}", esc(&u.def.name().to_string())),
                    ConstantKind::Param(_) => "{\"opaque\":1}".into(),
                };
                format!("[\"k\",{},{}]", t, v)
            }
            Operand::RuntimeChecks(_) => "[\"rt\"]".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(m, p) => format!("[\"addr\",{},{}]", (format!("{:?}", m) == "Mut") as u8, self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let h = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(def, v, args, _, f) => {
                        let t = def.ty_with_args(args);
                        format!("[\"adt\",{},{},{}]", self.ty(t), vidx(v), f.map(|f| f.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = Ty::new_closure(*def, args.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},[{}]]", h, v.join(","))
            }
            Rvalue::BinaryOp(op, a, b) => format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(a), self.operand(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("[\"cbin\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(a), self.operand(b)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), self.ty(*t)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }) as u8, self.place(p)),
            Rvalue::Repeat(o, c) => format!("[\"rep\",{},{}]", self.operand(o), c.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into())),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(o)),
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", (*m == Mutability::Mut) as u8, self.place(p)),
        }
    }

    fn line(&self, s: &Span) -> usize {
        s.get_lines().start_line
    }

    fn body(&mut self, id: usize, i: Instance) {
        let Some(b) = i.body() else { return };
        let mut o = String::new();
        let args = self.args(&i.args());
        let fname = b.span.get_filename();
        let abi = match i.ty().kind().fn_sig() {
            Some(s) => format!("{:?}", s.skip_binder().abi),
            None => "closure".to_string(),
        };
        let _ = write!(o, "{{\"id\":{},\"name\":{},\"def\":{},\"sym\":{},\"abi\":{},\"args\":{},\"file\":{},\"line\":{},\"argc\":{},",
            id, esc(&i.name().to_string()), esc(&i_def_name(&i)), esc(&i.mangled_name().to_string()), esc(&abi), args,
            esc(&fname.to_string()), self.line(&b.span), b.arg_locals().len());
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, "\"locals\":[{}],", locals.join(","));
        let dbg: Vec<String> = b.var_debug_info.iter().filter_map(|d| match &d.value {
            VarDebugInfoContents::Place(p) => Some(format!("[{},{}]", esc(&d.name.to_string()), self.place(p))),
            _ => None,
        }).collect();
        let _ = write!(o, "\"dbg\":[{}],\"blocks\":[", dbg.join(","));
        for (n, bb) in b.blocks.iter().enumerate() {
            if n > 0 { o.push(','); }
            o.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let j = match &st.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r);
                        Some(format!("[\"=\",{},{},{}]", p, r, self.line(&st.source_info.span)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } =>
                        Some(format!("[\"sd\",{},{}]", self.place(place), vidx(variant_index))),
                    StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) =>
                        Some(format!("[\"cno\",{},{},{}]", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count))),
                    _ => None,
                };
                if let Some(j) = j {
                    if !first { o.push(','); }
                    first = false;
                    o.push_str(&j);
                }
            }
            let ln = self.line(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let bs: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    let t = discr.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"sw\",{},[{}],{},{}]", self.operand(discr), bs.join(","), targets.otherwise(), t)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let t = place.ty(b.locals()).ok();
                    let mut drops = String::from("null");
                    let mut glue = String::from("null");
                    let ts = t.map(|t| {
                        let i = Instance::resolve_drop_in_place(t);
                        if !i.is_empty_shim() {
                            drops = "1".into();
                            if let TyKind::RigidTy(RigidTy::Adt(def, _)) = t.kind() {
                                if self.crates.contains(&def.krate().name.to_string()) && i.has_body() {
                                    glue = self.inst(i).to_string();
                                }
                            }
                        }
                        self.ty(t).to_string()
                    }).unwrap_or("null".into());
                    format!("[\"drop\",{},{},{},{},{},{}]", self.place(place), target, ts, drops, unwind_target(unwind), glue)
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(def, a)) => self.callee(def, &a),
                            _ => format!("{{\"op\":{}}}", self.operand(func)),
                        },
                        _ => format!("{{\"op\":{}}}", self.operand(func)),
                    };
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let d = self.place(destination);
                    let tys: Vec<String> = args.iter().map(|o| o.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into())).collect();
                    let rt = destination.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},[{}],{},{},[{}],{},{}]", f, a.join(","), d,
                        target.map(|t| t.to_string()).unwrap_or("null".into()), tys.join(","), rt, unwind_target(unwind))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index)),
                        other => format!("[{}]", esc(format!("{:?}", other).split('(').next().unwrap())),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond), *expected as u8, m, target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            let _ = write!(o, "],\"t\":{},\"l\":{}}}", t, ln);
        }
        o.push_str("]}");
        self.bodies.insert(id, o);
    }
}

fn unwind_target(u: &UnwindAction) -> String {
    match u {
        UnwindAction::Cleanup(b) => b.to_string(),
        _ => "null".into(),
    }
}

fn i_def_name(i: &Instance) -> String {
    let it: Result<CrateItem, _> = (*i).try_into();
    match it {
        Ok(it) => it.name().to_string(),
        Err(_) => i.name().to_string(),
    }
}

// VariantIdx doesn't show its number other than by Debug: `VariantIdx(1, ..)`.
fn vidx(i: &VariantIdx) -> usize {
    let s = format!("{:?}", i);
    let d: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    d.parse().unwrap()
}

fn externs(d: &mut Dump, krates: &[rustc_public::Crate]) -> (Vec<String>, Vec<String>, Vec<String>) {
    let (mut ex, mut ad, mut fns) = (vec![], vec![], vec![]);
    for k in krates {
        for m in k.foreign_modules() {
            for f in m.module().items() {
                if let ForeignItemKind::Fn(def) = f.kind() {
                    let sig = def.fn_sig().skip_binder();
                    let ins: Vec<String> = sig.inputs().iter().map(|t| d.ty(*t).to_string()).collect();
                    let out = d.ty(sig.output());
                    let sym = Instance::resolve(def, &GenericArgs(vec![])).map(|i| i.mangled_name().to_string()).unwrap_or_default();
                    ex.push(format!("{{\"name\":{},\"sym\":{},\"in\":[{}],\"out\":{},\"var\":{},\"crate\":{}}}",
                        esc(&def.name().to_string()), esc(&sym), ins.join(","), out, sig.c_variadic, esc(&k.name.to_string())));
                }
            }
        }
        for a in k.adts() {
            let g = a.generics_of();
            if g.params.iter().any(|p| !matches!(p.kind, GenericParamDefKind::Lifetime)) || g.parent_count > 0 {
                continue;
            }
            let t = a.ty();
            if let Ok(l) = t.layout() {
                let sh = l.shape();
                let offs: Vec<String> = match &sh.fields {
                    rustc_public::abi::FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bits().to_string()).collect(),
                    rustc_public::abi::FieldsShape::Union(n) => (0..n.get()).map(|_| "0".to_string()).collect(),
                    _ => vec![],
                };
                let ti = d.ty(t);
                ad.push(format!("{{\"name\":{},\"ty\":{},\"size\":{},\"align\":{},\"offs\":[{}],\"repr_c\":{},\"crate\":{}}}",
                    esc(&a.name().to_string()), ti, sh.size.bits(), sh.abi_align, offs.join(","), a.repr().flags.is_c, esc(&k.name.to_string())));
            }
        }
        if !k.is_local {
            for f in k.fn_defs() {
                if let Ok(i) = Instance::resolve(f, &GenericArgs(vec![])) {
                    if d.want(&i) && f.generics_of().params.is_empty() && f.generics_of().parent_count == 0 {
                        fns.push(d.inst(i).to_string());
                    }
                }
            }
        }
    }
    (ex, ad, fns)
}

fn dump() -> ControlFlow<()> {
    let crates: HashSet<String> = std::env::var("VP_CRATES").unwrap().split(',').map(|s| s.to_string()).collect();
    let mut d = Dump { crates, types: vec![], type_ids: HashMap::new(), insts: HashMap::new(), queue: VecDeque::new(), bodies: BTreeMap::new() };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if item.kind() != ItemKind::Fn || item.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            if i.kind == InstanceKind::Item && i.has_body() {
                let n = d.inst(i);
                roots.push(n.to_string());
            }
        }
    }
    let mut krates = vec![rustc_public::local_crate()];
    for c in std::env::var("VP_FN_CRATES").unwrap_or_default().split(',') {
        krates.extend(rustc_public::find_crates(c));
    }
    let (ex, ad, fns) = externs(&mut d, &krates);
    while let Some((n, i)) = d.queue.pop_front() {
        d.body(n, i);
    }
    let out = std::env::var("VP_OUT").unwrap();
    let bodies: Vec<String> = d.bodies.values().cloned().collect();
    let s = format!("{{\"roots\":[{}],\"xroots\":[{}],\n\"externs\":[{}],\n\"adts\":[{}],\n\"types\":[\n{}\n],\n\"bodies\":[\n{}\n]}}\n", roots.join(","), fns.join(","), ex.join(",\n"), ad.join(",\n"), d.types.join(",\n"), bodies.join(",\n"));
    std::fs::write(out, s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // Called as RUSTC_WRAPPER: argv[1] is the real rustc. The environment has RUSTC_BOOTSTRAP=-1, so
    // that the pinned dependencies don't try to use unstable features that have changed since; the
    // crates under analysis are compiled without it.
    // proc-macro2 only looks at the version, and at `-Zallow-features=` in the flags: that is passed
    // for it to see and dropped here.
    let mut args: Vec<String> = std::env::args().skip(1).filter(|a| a != "-Zallow-features=").collect();
    let target = std::env::var("VP_TARGET_CRATE").unwrap_or_default();
    let name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone()).unwrap_or_default();
    let ours = std::env::var("VP_CRATES").unwrap().split(',').any(|c| c == name);
    if ours {
        std::env::remove_var("RUSTC_BOOTSTRAP");
        for a in ["-Zalways-encode-mir", "-Zmir-opt-level=0", "-Coverflow-checks=off"] {
            args.push(a.to_string());
        }
        if name == target {
            if let Ok(extra) = std::env::var("VP_EXTRA_FLAGS") {
                args.extend(extra.split_whitespace().map(|s| s.to_string()));
            }
            match rustc_public::run!(&args, dump) {
                Ok(_) => return,
                Err(_) => std::process::exit(1),
            }
        }
    }
    let mut cmd = std::process::Command::new(&args[0]);
    cmd.args(&args[1..]);
    if ours {
        cmd.env_remove("RUSTC_BOOTSTRAP");
    }
    let st = cmd.status().unwrap();
    std::process::exit(st.code().unwrap_or(1));
}
