//! Dumps the resolved, monomorphic MIR reachable from every non-generic function of the crates named in
//! MIRDUMP_CRATES (comma separated) as JSON into $MIRDUMP_OUT/<crate>.json. Used as RUSTC_WORKSPACE_WRAPPER.
//! Bodies are followed into other crates unless the callee's path contains an entry of $MIRDUMP_STOP (one per line).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
#[macro_use]
extern crate rustc_public;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::abi::*;
use rustc_public::crate_def::CrateDefType;
use rustc_public::{CrateDef, ItemKind};
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Ctx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<Option<String>>,
    queue: VecDeque<Instance>,
    seen: HashSet<Instance>,
    stop: Vec<String>,
    keys: HashMap<Instance, usize>,
}

impl Ctx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(None);
        let s = self.ty_json(t);
        self.ty_out[id] = Some(s);
        id
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for x in &a.0 {
            match x {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(esc(&format!("{c:?}"))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(v)
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let disp = esc(&format!("{t}"));
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => format!("{{\"k\":\"bool\",\"s\":{disp}}}"),
                RigidTy::Char => format!("{{\"k\":\"char\",\"s\":{disp}}}"),
                RigidTy::Int(_) => format!("{{\"k\":\"int\",\"s\":{disp}}}"),
                RigidTy::Uint(_) => format!("{{\"k\":\"uint\",\"s\":{disp}}}"),
                RigidTy::Str => format!("{{\"k\":\"str\",\"s\":{disp}}}"),
                RigidTy::Never => format!("{{\"k\":\"never\",\"s\":{disp}}}"),
                RigidTy::Ref(_, p, m) => { let p = self.ty(p); format!("{{\"k\":\"ref\",\"s\":{disp},\"t\":{p},\"m\":{}}}", m == Mutability::Mut) }
                RigidTy::RawPtr(p, _) => { let p = self.ty(p); format!("{{\"k\":\"ptr\",\"s\":{disp},\"t\":{p}}}") }
                RigidTy::Slice(p) => { let p = self.ty(p); format!("{{\"k\":\"slice\",\"s\":{disp},\"t\":{p}}}") }
                RigidTy::Array(p, n) => { let p = self.ty(p); let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()); format!("{{\"k\":\"array\",\"s\":{disp},\"t\":{p},\"n\":{n}}}") }
                RigidTy::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|x| self.ty(*x).to_string()).collect(); format!("{{\"k\":\"tuple\",\"s\":{disp},\"ts\":{}}}", arr(v)) }
                RigidTy::FnDef(d, a) => { let g = self.args(&a); format!("{{\"k\":\"fndef\",\"s\":{disp},\"name\":{},\"a\":{g}}}", esc(&d.name())) }
                RigidTy::Closure(d, a) => {
                    // its body may be reached from modelled code only
                    if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::Fn) { self.inst(i); }
                    let ups = a.0.last().and_then(|x| match x { GenericArgKind::Type(t) => Some(*t), _ => None });
                    let ups = match ups.map(|t| t.kind()) { Some(TyKind::RigidTy(RigidTy::Tuple(ts))) => { let v: Vec<String> = ts.iter().map(|x| self.ty(*x).to_string()).collect(); arr(v) } _ => "[]".into() };
                    format!("{{\"k\":\"closure\",\"s\":{disp},\"name\":{},\"ts\":{ups}}}", esc(&d.name()))
                }
                RigidTy::Adt(d, a) => {
                    let g = self.args(&a);
                    let mut vs = vec![];
                    if d.kind() != AdtKind::Union {
                        for (i, v) in d.variants().iter().enumerate() {
                            let mut fs = vec![];
                            for f in v.fields() {
                                let ft = f.ty_with_args(&a);
                                let ft = self.ty(ft);
                                fs.push(format!("[{},{ft}]", esc(&f.name)));
                            }
                            let discr = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(VariantIdx::to_val(i)).val.to_string() } else { "0".into() };
                            vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(&v.name()), esc(&discr), arr(fs)));
                        }
                    }
                    let kind = match d.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                    format!("{{\"k\":\"adt\",\"ak\":\"{kind}\",\"s\":{disp},\"name\":{},\"crate\":{},\"a\":{g},\"v\":{}}}", esc(&d.name()), esc(&d.krate().name), arr(vs))
                }
                RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{disp}}}"),
                _ => format!("{{\"k\":\"other\",\"s\":{disp}}}"),
            },
            _ => format!("{{\"k\":\"other\",\"s\":{disp}}}"),
        }
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(k) = self.keys.get(&i) { return *k; }
        let k = self.keys.len();
        self.keys.insert(i, k);
        self.queue.push_back(i);
        k
    }
    fn int(&self, b: &[Option<u8>]) -> Option<u128> {
        let mut v = 0u128;
        for (i, x) in b.iter().enumerate() { v |= ((*x)? as u128) << (8 * i); }
        Some(v)
    }
    fn target(&mut self, al: &Allocation, off: usize) -> Option<(GlobalAlloc, usize)> {
        let p = al.provenance.ptrs.iter().find(|(o, _)| *o == off)?.1;
        let delta = self.int(al.bytes.get(off..off + 8)?)? as usize;
        Some((GlobalAlloc::from(p.0), delta))
    }
    fn val(&mut self, al: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        self.val_(al, off, t, depth).unwrap_or_else(|| format!("{{\"k\":\"opaque\",\"t\":{}}}", self.ty(t)))
    }
    fn val_(&mut self, al: &Allocation, off: usize, t: Ty, depth: usize) -> Option<String> {
        if depth > 12 { return None; }
        let tid = self.ty(t);
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) => {
                    let n = t.layout().ok()?.shape().size.bytes();
                    let v = self.int(al.bytes.get(off..off + n)?)?;
                    Some(format!("{{\"k\":\"int\",\"v\":{},\"t\":{tid}}}", esc(&v.to_string())))
                }
                RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => {
                    let (g, delta) = match self.target(al, off) {
                        Some(x) => x,
                        None => return match p.kind() {
                            TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Slice(_)) if self.int(al.bytes.get(off + 8..off + 16)?)? == 0 =>
                                Some(match p.kind() { TyKind::RigidTy(RigidTy::Str) => format!("{{\"k\":\"str\",\"v\":\"\",\"t\":{tid}}}"), _ => format!("{{\"k\":\"ref\",\"t\":{tid},\"v\":{{\"k\":\"seq\",\"v\":[]}}}}") }),
                            _ => { let z = p.layout().ok()?.shape().size.bytes(); if z == 0 { let e = Allocation { bytes: vec![], provenance: al.provenance.clone(), align: 1, mutability: Mutability::Not }; let v = self.val(&e, 0, p, depth + 1); Some(format!("{{\"k\":\"ref\",\"t\":{tid},\"v\":{v}}}")) } else { None } }
                        },
                    };
                    match g {
                        GlobalAlloc::Memory(m) => match p.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let n = self.int(al.bytes.get(off + 8..off + 16)?)? as usize;
                                let b: Option<Vec<u8>> = m.bytes.get(delta..delta + n)?.iter().cloned().collect();
                                Some(format!("{{\"k\":\"str\",\"v\":{},\"t\":{tid}}}", esc(&String::from_utf8_lossy(&b?))))
                            }
                            TyKind::RigidTy(RigidTy::Slice(e)) => {
                                let n = self.int(al.bytes.get(off + 8..off + 16)?)? as usize;
                                let sz = e.layout().ok()?.shape().size.bytes();
                                let v: Vec<String> = (0..n).map(|i| self.val(&m, delta + i * sz, e, depth + 1)).collect();
                                Some(format!("{{\"k\":\"ref\",\"t\":{tid},\"v\":{{\"k\":\"seq\",\"v\":{}}}}}", arr(v)))
                            }
                            TyKind::RigidTy(RigidTy::Dynamic(..)) => None,
                            _ => { let v = self.val(&m, delta, p, depth + 1); Some(format!("{{\"k\":\"ref\",\"t\":{tid},\"v\":{v}}}")) }
                        },
                        GlobalAlloc::Function(i) => { let k = self.inst(i); Some(format!("{{\"k\":\"fnptr\",\"i\":{k},\"t\":{tid}}}")) }
                        GlobalAlloc::Static(s) => Some(format!("{{\"k\":\"static\",\"n\":{},\"t\":{tid}}}", esc(&s.name()))),
                        _ => None,
                    }
                }
                RigidTy::FnPtr(_) => match self.target(al, off)?.0 {
                    GlobalAlloc::Function(i) => { let k = self.inst(i); Some(format!("{{\"k\":\"fnptr\",\"i\":{k},\"t\":{tid}}}")) }
                    _ => None,
                },
                RigidTy::FnDef(d, a) => { let s = self.fndef(d, &a); Some(format!("{{\"k\":\"zst\",\"t\":{tid},\"fn\":{s}}}")) }
                RigidTy::Tuple(ts) if ts.is_empty() => Some(format!("{{\"k\":\"zst\",\"t\":{tid}}}")),
                RigidTy::Tuple(ts) => {
                    let offs = match t.layout().ok()?.shape().fields { FieldsShape::Arbitrary { offsets } => offsets, _ => return None };
                    let v: Vec<String> = ts.iter().enumerate().map(|(i, x)| self.val(al, off + offs[i].bytes(), *x, depth + 1)).collect();
                    Some(format!("{{\"k\":\"tup\",\"v\":{},\"t\":{tid}}}", arr(v)))
                }
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().ok()? as usize;
                    let sz = e.layout().ok()?.shape().size.bytes();
                    let v: Vec<String> = (0..n).map(|i| self.val(al, off + i * sz, e, depth + 1)).collect();
                    Some(format!("{{\"k\":\"seq\",\"v\":{},\"t\":{tid}}}", arr(v)))
                }
                RigidTy::Adt(d, a) => {
                    if d.kind() == AdtKind::Union { return None; }
                    let sh = t.layout().ok()?.shape();
                    let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                        VariantsShape::Empty => return None,
                        VariantsShape::Single { index } => {
                            let i = index.to_index();
                            let o = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(), _ => vec![] };
                            (i, o)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => return None };
                            let n = match tag { Scalar::Initialized { value, .. } | Scalar::Union { value } => match value { Primitive::Int { length, .. } => length.bits() / 8, Primitive::Pointer(_) => 8, _ => return None } };
                            let has_ptr = al.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let raw = self.int(al.bytes.get(off + toff..off + toff + n)?)?;
                            let i = match tag_encoding {
                                TagEncoding::Direct => (0..variants.len()).find(|i| d.discriminant_for_variant(VariantIdx::to_val(*i)).val == raw)?,
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let lo = niche_variants.start().to_index(); let hi = niche_variants.end().to_index();
                                    if has_ptr { untagged_variant.to_index() } else {
                                        let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                        let rel = raw.wrapping_sub(*niche_start) & mask;
                                        if rel <= (hi - lo) as u128 { lo + rel as usize } else { untagged_variant.to_index() }
                                    }
                                }
                            };
                            (i, variants[i].offsets.iter().map(|x| x.bytes()).collect())
                        }
                    };
                    let fs = d.variants()[vi].fields();
                    let mut v = vec![];
                    for (i, f) in fs.iter().enumerate() { v.push(self.val(al, off + offs.get(i).copied()?, f.ty_with_args(&a), depth + 1)); }
                    Some(format!("{{\"k\":\"adt\",\"vi\":{vi},\"v\":{},\"t\":{tid}}}", arr(v)))
                }
                _ => None,
            },
            _ => None,
        }
    }
    fn fndef(&mut self, d: FnDef, a: &GenericArgs) -> String {
        let g = self.args(a);
        let i = match Instance::resolve(d, a) { Ok(i) => self.inst(i).to_string(), Err(_) => "null".into() };
        format!("{{\"name\":{},\"a\":{g},\"i\":{i}}}", esc(&d.name()))
    }
    fn cst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        match c.kind() {
            ConstantKind::ZeroSized => {
                if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() { let s = self.fndef(d, &a); return format!("{{\"k\":\"zst\",\"t\":{tid},\"fn\":{s}}}"); }
                format!("{{\"k\":\"zst\",\"t\":{tid}}}")
            }
            ConstantKind::Allocated(al) => { let al = al.clone(); self.val(&al, 0, t, 0) }
            _ => format!("{{\"k\":\"opaque\",\"t\":{tid}}}"),
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![p.local.to_string()];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); format!("[\"f\",{i},{t}]") }
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"c\",{offset},{from_end}]"),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                #[allow(unreachable_patterns)]
                o => format!("[\"?\",{}]", esc(&format!("{o:?}"))),
            });
        }
        arr(v)
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"cp\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"mv\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => { let s = self.cst(&c.const_); format!("{{\"o\":\"c\",\"c\":{s}}}") }
            #[allow(unreachable_patterns)]
            o => format!("{{\"o\":\"?\",\"s\":{}}}", esc(&format!("{o:?}"))),
        }
    }
    fn rv(&mut self, r: &Rvalue, body: &Body) -> String {
        match r {
            Rvalue::Use(o, ..) => { let s = self.op(o); format!("{{\"r\":\"use\",\"o\":{s}}}") }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => { let s = self.place(p); format!("{{\"r\":\"ref\",\"p\":{s}}}") }
            Rvalue::CopyForDeref(p) => { let s = self.place(p); format!("{{\"r\":\"use\",\"o\":{{\"o\":\"cp\",\"p\":{s}}}}}") }
            Rvalue::Discriminant(p) => { let s = self.place(p); let t = p.ty(body.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into()); format!("{{\"r\":\"discr\",\"p\":{s},\"t\":{t}}}") }
            Rvalue::Len(p) => { let s = self.place(p); format!("{{\"r\":\"len\",\"p\":{s}}}") }
            Rvalue::Cast(k, o, t) => {
                let s = self.op(o); let tid = self.ty(*t);
                let ot = o.ty(body.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                // reified functions and closures must be reachable
                let mut f = "null".to_string();
                if let Ok(t) = o.ty(body.locals()) {
                    match t.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => f = self.fndef(d, &a),
                        TyKind::RigidTy(RigidTy::Closure(d, a)) => if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { f = format!("{{\"name\":\"closure\",\"a\":[],\"i\":{}}}", self.inst(i)); },
                        _ => {}
                    }
                }
                format!("{{\"r\":\"cast\",\"k\":{},\"o\":{s},\"t\":{tid},\"ft\":{ot},\"fn\":{f}}}", esc(&format!("{k:?}")))
            }
            Rvalue::BinaryOp(b, x, y) | Rvalue::CheckedBinaryOp(b, x, y) => {
                let c = matches!(r, Rvalue::CheckedBinaryOp(..));
                let (x, y) = (self.op(x), self.op(y)); format!("{{\"r\":\"bin\",\"k\":\"{b:?}\",\"x\":{x},\"y\":{y},\"c\":{c}}}")
            }
            Rvalue::UnaryOp(b, x) => { let x = self.op(x); format!("{{\"r\":\"un\",\"k\":\"{b:?}\",\"x\":{x}}}") }
            Rvalue::Repeat(o, n) => { let s = self.op(o); let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()); format!("{{\"r\":\"rep\",\"o\":{s},\"n\":{n}}}") }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let (kk, t, vi) = match k {
                    AggregateKind::Array(t) => ("array", self.ty(*t).to_string(), 0),
                    AggregateKind::Tuple => ("tuple", "null".into(), 0),
                    AggregateKind::Adt(d, vi, a, _, _) => { let t = d.ty_with_args(a); ("adt", self.ty(t).to_string(), vi.to_index()) }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(*d, a.clone()); ("closure", self.ty(t).to_string(), 0) }
                    AggregateKind::RawPtr(t, _) => ("rawptr", self.ty(*t).to_string(), 0),
                    _ => ("other", "null".into(), 0),
                };
                format!("{{\"r\":\"agg\",\"k\":\"{kk}\",\"t\":{t},\"vi\":{vi},\"v\":{}}}", arr(v))
            }
            #[allow(unreachable_patterns)]
            o => format!("{{\"r\":\"?\",\"s\":{}}}", esc(&format!("{o:?}"))),
        }
    }
    fn span(&self, s: Span) -> String {
        // of a macro expansion: the place of its outermost invocation
        esc(&rustc_middle::ty::tls::with(|tcx| {
            let sp: rustc_span::Span = rustc_public::rustc_internal::internal(tcx, s);
            let loc = tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo());
            format!("{}:{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line, loc.col.0 + 1)
        }))
    }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bl in &b.blocks {
            let mut st = vec![];
            for s in &bl.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => { let (p, r) = (self.place(p), self.rv(r, b)); let sp = self.span(s.source_info.span); st.push(format!("{{\"s\":\"=\",\"p\":{p},\"v\":{r},\"l\":{sp}}}")); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(format!("{{\"s\":\"sd\",\"p\":{p},\"vi\":{}}}", variant_index.to_index())); }
                    _ => {}
                }
            }
            let tm = &bl.terminator;
            let sp = self.span(tm.source_info.span);
            let t = match &tm.kind {
                TerminatorKind::Goto { target } => format!("{{\"t\":\"goto\",\"b\":{target},\"l\":{sp}}}"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, b)| format!("[{},{b}]", esc(&v.to_string()))).collect();
                    let dt = discr.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("{{\"t\":\"sw\",\"o\":{},\"dt\":{dt},\"br\":{},\"else\":{},\"l\":{sp}}}", self.op(discr), arr(br), targets.otherwise())
                }
                TerminatorKind::Return => "{\"t\":\"ret\"}".into(),
                TerminatorKind::Unreachable => format!("{{\"t\":\"unreach\",\"l\":{sp}}}"),
                TerminatorKind::Resume => "{\"t\":\"resume\"}".into(),
                TerminatorKind::Abort => "{\"t\":\"abort\"}".into(),
                TerminatorKind::Drop { place, target, .. } => { let ty = place.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into()); format!("{{\"t\":\"drop\",\"p\":{},\"ty\":{ty},\"b\":{target},\"l\":{sp}}}", self.place(place)) }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => format!("{{\"t\":\"assert\",\"o\":{},\"e\":{expected},\"b\":{target},\"m\":{},\"l\":{sp}}}", self.op(cond), esc(&format!("{msg:?}").chars().take(40).collect::<String>())),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(b.locals()).ok();
                    let f = match ft.map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::FnDef(d, a))) => format!("{{\"fn\":{}}}", self.fndef(d, &a)),
                        _ => format!("{{\"ptr\":{}}}", self.op(func)),
                    };
                    let a: Vec<String> = args.iter().map(|o| self.op(o)).collect();
                    let at: Vec<String> = args.iter().map(|o| o.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into())).collect();
                    let tg = target.map(|x| x.to_string()).unwrap_or("null".into());
                    let dt = destination.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("{{\"t\":\"call\",\"f\":{f},\"a\":{},\"at\":{},\"d\":{},\"dt\":{dt},\"b\":{tg},\"l\":{sp}}}", arr(a), arr(at), self.place(destination))
                }
                o => format!("{{\"t\":\"?\",\"s\":{}}}", esc(&format!("{o:?}").chars().take(80).collect::<String>())),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{t}}}", arr(st)));
        }
        format!("\"locals\":{},\"argc\":{},\"span\":{},\"blocks\":{}", arr(locals), b.arg_locals().len(), self.span(b.span), arr(blocks))
    }
}

fn dump() -> ControlFlow<()> {
    let krate = rustc_public::local_crate();
    let stop = std::env::var("MIRDUMP_STOP").unwrap_or_default().lines().filter(|l| !l.is_empty()).map(|s| s.to_string()).collect();
    let mut cx = Ctx { tys: HashMap::new(), ty_out: vec![], queue: VecDeque::new(), seen: HashSet::new(), stop, keys: HashMap::new() };
    let mut roots = vec![];
    let mut generic = vec![];
    let mut statics = vec![];
    for it in rustc_public::all_local_items() {
        match it.kind() {
            ItemKind::Fn => {
                if it.requires_monomorphization() { generic.push(esc(&it.name())); continue; }
                if let Ok(i) = Instance::try_from(it) { let k = cx.inst(i); roots.push(k.to_string()); }
            }
            ItemKind::Static => {
                let (m, f, t) = rustc_middle::ty::tls::with(|tcx| {
                    let did = rustc_public::rustc_internal::internal(tcx, it.def_id());
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    (tcx.is_mutable_static(did), t.is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized()), format!("{t:?}"))
                });
                statics.push(format!("{{\"name\":{},\"mut\":{m},\"freeze\":{f},\"ty\":{}}}", esc(&it.name()), esc(&t)));
            }
            _ => {}
        }
    }
    let impls: Vec<String> = krate.trait_impls().iter().map(|i| { let t = i.trait_impl().value; esc(&format!("{:?} for {}", t.def_id.name(), t.self_ty())) }).collect();
    let mut fns: Vec<(usize, String)> = vec![];
    while let Some(i) = cx.queue.pop_front() {
        if !cx.seen.insert(i) { continue; }
        let k = cx.keys[&i];
        let name = i.name();
        let dname = i.def.name();
        let kr = i.def.krate().name;
        let local = i.def.krate().is_local;
        let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
        let stopped = !local && cx.stop.iter().any(|s| dname.starts_with(s.as_str()) || kr == *s);
        let ga = i.args(); let ga = cx.args(&ga);
        let mut s = format!("{{\"name\":{},\"def\":{},\"crate\":{},\"local\":{local},\"kind\":\"{kind}\",\"a\":{ga}", esc(&name), esc(&dname), esc(&kr));
        if !stopped && !matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) {
            if let Some(b) = i.body() { let bj = cx.body(&b); s.push(','); s.push_str(&bj); }
        } else if stopped && kind == "item" && small(&dname) {
            // plain accessors of the cut crates
            if let Some(b) = i.body() { if b.blocks.len() <= 12 { let bj = cx.body(&b); s.push(','); s.push_str(&bj); } }
        }
        s.push('}');
        fns.push((k, s));
    }
    fns.sort_by_key(|x| x.0);
    let out = format!("{{\"crate\":{},\"externs\":{},\"roots\":{},\"generic\":{},\"statics\":{},\"impls\":{},\"types\":{},\"fns\":{}}}", esc(&krate.name), arr(rustc_public::external_crates().iter().map(|c| esc(&c.name)).collect::<Vec<_>>()), arr(roots), arr(generic), arr(statics), arr(impls),
        arr(cx.ty_out.iter().map(|x| x.clone().unwrap_or("null".into()))), arr(fns.into_iter().map(|x| x.1)));
    let dir = std::env::var("MIRDUMP_OUT").unwrap();
    std::fs::write(format!("{dir}/{}.json", krate.name), out).unwrap();
    ControlFlow::Continue(())
}

fn small(name: &str) -> bool {
    !name.contains("proc_macro2") && !["unctuated", "span", "generics", "Generics", "parse", "printing", "buffer", "token", "lookahead", "::gen::", "clone", "Debug", "Drop", "drop", "error", "Error", "lit::", "Hash", "fold", "visit", "imp::"].iter().any(|x| name.contains(x))
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    if want.split(',').any(|w| w == name) {
        let r = run!(&args, dump);
        match r {
            Ok(_) | Err(rustc_public::CompilerError::Skipped) => {}
            _ => std::process::exit(101),
        }
    } else {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&args[0]).args(&args[1..]).exec();
        eprintln!("mirdump: cannot run {}: {e}", args[0]);
        std::process::exit(102);
    }
}
