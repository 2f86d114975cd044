//! rustc driver (RUSTC_WORKSPACE_WRAPPER) that dumps the monomorphised MIR
//! reachable from the crate's entry point as JSON.  Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate serde_json;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::abi::{FieldsShape, IntegerLength, Primitive, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem};
use rustc_public_bridge::IndexedVal;
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::ops::ControlFlow;

#[derive(Default)]
struct Cx {
    ty_ids: HashMap<Ty, usize>,
    ty_vals: Vec<Value>,
    ty_queue: VecDeque<(Ty, usize)>,
    inst_ids: HashMap<Instance, usize>,
    inst_vals: Vec<Value>,
    inst_queue: VecDeque<(Instance, usize)>,
    allocs: Vec<Value>,
    alloc_ids: HashMap<String, usize>,
    next_for: HashMap<Ty, usize>,
    models: HashMap<String, FnDef>,
}

/// Provided methods whose std implementations are specialised and unsafe are
/// replaced by the plain loop over `next()` written in the overlay module.
fn model_key(name: &str) -> Option<&'static str> {
    let last = name.rsplit("::").next().unwrap_or("");
    if name.contains("iter::Iterator::") || name.contains("iter::traits::iterator::Iterator::") {
        return Some(match last {
            "collect" => "collect", "fold" => "fold", "for_each" => "for_each", "count" => "count",
            "sum" => "sum", "min_by_key" => "min_by_key", "max_by_key" => "max_by_key", "all" => "all", "any" => "any",
            "find" => "find", "position" => "position", "last" => "last", "find_map" => "find_map",
            "max" => "max", "min" => "min", "eq" => "eq", "nth" => "nth", "try_for_each" => "try_for_each", "try_fold" => "try_fold",
            _ => return None,
        });
    }
    if name.ends_with("iter::Extend::extend") || name.ends_with("collect::Extend::extend") { return Some("extend"); }
    if name.ends_with("iter::FromIterator::from_iter") || name.ends_with("collect::FromIterator::from_iter") { return Some("from_iter"); }
    None
}

const STOP_PREFIX: &[&str] = &[
    "std::io::_print", "std::io::_eprint", "std::io::stdio", "core::fmt", "std::fmt", "alloc::fmt",
    "core::panicking", "std::panicking", "std::rt", "std::thread", "std::sys", "std::backtrace",
    "std::env", "std::fs", "alloc::alloc", "std::alloc", "core::str::pattern", "std::time",
    "alloc::raw_vec", "alloc::collections::btree", "std::collections::hash", "hashbrown",
    "core::slice::sort", "alloc::slice::hack", "core::num::flt2dec", "core::num::dec2flt", "core::num::imp",
    "core::hash", "std::hash", "core::unicode", "std::sync::mpmc", "std::sync::poison::rwlock::RwLock", "alloc::sync", "std::error",
];

fn krate_of(inst: &Instance) -> String {
    inst.def.krate().name.to_string()
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let i = self.ty_vals.len();
        self.ty_ids.insert(t, i);
        self.ty_vals.push(Value::Null);
        self.ty_queue.push_back((t, i));
        i
    }
    fn layout(&mut self, t: Ty) -> Value {
        let Ok(l) = t.layout() else { return Value::Null };
        let sh = l.shape();
        let offs = |f: &FieldsShape| -> Value { match f { FieldsShape::Arbitrary{offsets} => json!(offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>()), _ => Value::Null } };
        let f = offs(&sh.fields);
        let v = match &sh.variants {
            VariantsShape::Empty => Value::Null,
            VariantsShape::Single{index} => json!({"one": index.to_index()}),
            VariantsShape::Multiple{tag, tag_encoding, tag_field, variants} => {
                let prim = match tag { Scalar::Initialized{value,..} => *value, Scalar::Union{value} => *value };
                let tsz = match prim { Primitive::Int{length,..} => match length { IntegerLength::I8=>1, IntegerLength::I16=>2, IntegerLength::I32=>4, IntegerLength::I64=>8, IntegerLength::I128=>16 }, _ => 8 };
                let enc = match tag_encoding {
                    TagEncoding::Direct => json!("direct"),
                    TagEncoding::Niche{untagged_variant, niche_variants, niche_start} => json!({"u": untagged_variant.to_index(), "s": niche_variants.start().to_index(), "e": niche_variants.end().to_index(), "n": niche_start.to_string()}),
                };
                let vo: Vec<Value> = variants.iter().map(|x| json!(x.offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>())).collect();
                json!({"tf": tag_field, "tsz": tsz, "enc": enc, "vo": vo})
            }
        };
        json!({"sz": sh.size.bytes(), "off": f, "var": v})
    }
    /// The overlay model standing in for a call to `d::<a>`, if there is one.
    fn model(&mut self, d: &FnDef, a: &GenericArgs) -> Option<Instance> {
        let key = model_key(&d.name().to_string())?;
        let m = *self.models.get(key)?;
        let tys: Vec<Ty> = a.0.iter().filter_map(|g| match g { GenericArgKind::Type(t) => Some(*t), _ => None }).collect();
        let adt_name = |t: Ty| match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, a)) => Some((d.name().to_string(), a)), _ => None };
        let ends = |n: &str, s: &str| n.rsplit("::").next() == Some(s);
        // containers the overlay knows how to fill
        let known = |t: Ty| -> bool {
            match adt_name(t) {
                Some((n, a)) => {
                    if ends(&n, "Vec") || ends(&n, "VecDeque") || ends(&n, "HashMap") || ends(&n, "BinaryHeap") { return true; }
                    if ends(&n, "Option") || ends(&n, "Result") {
                        if let Some(GenericArgKind::Type(x)) = a.0.first() { if let Some((n2, _)) = adt_name(*x) { return ends(&n2, "Vec"); } }
                    }
                    false
                }
                None => false,
            }
        };
        let prim = |t: Ty| matches!(t.kind(), TyKind::RigidTy(RigidTy::Uint(_)) | TyKind::RigidTy(RigidTy::Int(_)) | TyKind::RigidTy(RigidTy::Float(_)));
        match key {
            "collect" => { if !known(tys[1]) { return None; } }
            "from_iter" => { if !known(tys[0]) { return None; } }
            "extend" => { match adt_name(tys[0]) { Some((n, _)) if ends(&n, "Vec") || ends(&n, "VecDeque") => {}, _ => return None } }
            "sum" => { if !prim(tys[1]) { return None; } }
            "try_fold" | "try_for_each" => return None,
            _ => {}
        }
        Instance::resolve(m, a).ok()
    }
    fn args(&mut self, a: &GenericArgs) -> Value {
        let mut v = vec![];
        for g in a.0.iter() {
            match g {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(json!(self.ty(*t))),
                GenericArgKind::Const(c) => match c.eval_target_usize() {
                    Ok(n) => v.push(json!({"const": n})),
                    Err(_) => v.push(json!({"const": Value::Null})),
                },
            }
        }
        Value::Array(v)
    }
    fn ty_val(&mut self, t: Ty) -> Value {
        let k = t.kind();
        let TyKind::RigidTy(r) = k else { return json!({"k": "other", "s": format!("{:?}", t)}) };
        match r {
            RigidTy::Bool => json!({"k":"bool"}),
            RigidTy::Char => json!({"k":"char"}),
            RigidTy::Int(i) => json!({"k":"int","w":i.num_bytes()*8,"n":format!("{:?}",i).to_lowercase()}),
            RigidTy::Uint(i) => json!({"k":"uint","w":i.num_bytes()*8,"n":format!("{:?}",i).to_lowercase()}),
            RigidTy::Float(f) => json!({"k":"float","n":format!("{:?}",f).to_lowercase()}),
            RigidTy::Str => json!({"k":"str"}),
            RigidTy::Never => json!({"k":"never"}),
            RigidTy::Array(e, n) => json!({"k":"array","e":self.ty(e),"n":n.eval_target_usize().ok()}),
            RigidTy::Slice(e) => json!({"k":"slice","e":self.ty(e)}),
            RigidTy::RawPtr(e, m) => json!({"k":"ptr","e":self.ty(e),"mut": m==Mutability::Mut}),
            RigidTy::Ref(_, e, m) => json!({"k":"ref","e":self.ty(e),"mut": m==Mutability::Mut}),
            RigidTy::Tuple(v) => { let v: Vec<usize> = v.iter().map(|t| self.ty(*t)).collect(); json!({"k":"tuple","a":v}) }
            RigidTy::FnDef(d, a) => {
                let i = match self.model(&d, &a) { Some(i) => Some(i), None => Instance::resolve(d, &a).ok() };
                let id = i.map(|i| self.inst(i));
                json!({"k":"fndef","name":d.name().to_string(),"args":self.args(&a),"fn":id,"inst":{"Fn":id}})
            }
            RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
            RigidTy::Closure(d, a) => {
                // captured upvar types are the last generic arg (tuple)
                let n = a.0.len();
                let up = match &a.0[n-1] { GenericArgKind::Type(t) => Some(self.ty(*t)), _ => None };
                let kind = match &a.0[n-3] { GenericArgKind::Type(t) => format!("{:?}", t.kind()), _ => String::new() };
                let kind = if kind.contains("I8") {"Fn"} else if kind.contains("I16") {"FnMut"} else {"FnOnce"};
                // body instances for every call kind
                let mut insts = serde_json::Map::new();
                for (nm, ck) in [("Fn", ClosureKind::Fn), ("FnMut", ClosureKind::FnMut), ("FnOnce", ClosureKind::FnOnce)] {
                    let ok = match (kind, nm) { ("Fn", _) => true, ("FnMut", "Fn") => false, ("FnMut", _) => true, (_, "FnOnce") => true, _ => false };
                    if ok { if let Ok(i) = Instance::resolve_closure(d, &a, ck) { let id = self.inst(i); insts.insert(nm.into(), json!(id)); } }
                }
                json!({"k":"closure","name":d.name().to_string(),"args":self.args(&a),"up":up,"kind":kind,"inst":insts})
            }
            RigidTy::Adt(d, a) => {
                let kind = match d.kind() { AdtKind::Enum=>"enum", AdtKind::Struct=>"struct", AdtKind::Union=>"union" };
                let mut vs = vec![];
                for v in d.variants_iter() {
                    let discr = if d.kind()==AdtKind::Enum { d.discriminant_for_variant(v.idx()).val } else { 0 };
                    let fs: Vec<Value> = v.fields().iter().map(|f| { let t = f.ty_with_args(&a); json!([f.name.to_string(), self.ty(t)]) }).collect();
                    vs.push(json!({"n":v.name().to_string(),"d":discr.to_string(),"f":fs}));
                }
                json!({"k":"adt","ak":kind,"name":d.name().to_string(),"crate":d.krate().name.to_string(),"args":self.args(&a),"v":vs,"box":d.is_box()})
            }
            RigidTy::Dynamic(p, _) => json!({"k":"dyn","s":format!("{:?}",p).chars().take(200).collect::<String>()}),
            other => json!({"k":"other","s":format!("{:?}",other).chars().take(200).collect::<String>()}),
        }
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.inst_ids.get(&i) { return *x; }
        let id = self.inst_vals.len();
        self.inst_ids.insert(i, id);
        self.inst_vals.push(Value::Null);
        self.inst_queue.push_back((i, id));
        id
    }
    fn alloc(&mut self, a: &Allocation) -> Value {
        let mut hex = String::new();
        for b in a.bytes.iter() { match b { Some(b) => hex.push_str(&format!("{:02x}", b)), None => hex.push_str("__") } }
        let mut ps = vec![];
        for (off, prov) in a.provenance.ptrs.iter() {
            let key = format!("{:?}", prov.0);
            let id = if let Some(i) = self.alloc_ids.get(&key) { *i } else {
                let id = self.allocs.len();
                self.alloc_ids.insert(key, id);
                self.allocs.push(Value::Null);
                let v = match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Function(i) => json!({"fn": self.inst(i)}),
                    GlobalAlloc::Static(s) => json!({"static": s.name().to_string()}),
                    GlobalAlloc::Memory(m) => { if m.bytes.len() > 4096 { json!({"big": m.bytes.len()}) } else { self.alloc(&m) } },
                    GlobalAlloc::VTable(t, _) => json!({"vtable": self.ty(t)}),
                    GlobalAlloc::TypeId{..} => json!({"typeid":1}),
                };
                self.allocs[id] = v;
                id
            };
            ps.push(json!([off, id]));
        }
        json!({"b": hex, "p": ps})
    }
    fn konst(&mut self, c: &MirConst) -> Value {
        let ty = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => { let mut v = self.alloc(a); v["ty"] = json!(ty); v }
            ConstantKind::ZeroSized => {
                let mut v = json!({"ty": ty, "z": 1});
                if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = c.ty().kind() {
                    if let Some(i) = self.model(&d, &a) { v["fn"] = json!(self.inst(i)); v["model"] = json!(1); }
                    else if let Ok(i) = Instance::resolve(d, &a) { v["fn"] = json!(self.inst(i)); }
                }
                v
            }
            ConstantKind::Ty(t) => match t.kind() {
                TyConstKind::Value(_, a) => { let mut v = self.alloc(a); v["ty"] = json!(ty); v }
                _ => json!({"ty": ty, "u": format!("{:?}", t.kind())}),
            },
            k => json!({"ty": ty, "u": format!("{:?}", k).chars().take(120).collect::<String>()}),
        }
    }
    fn place(&mut self, p: &Place) -> Value {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(i, t) => json!(["f", i, self.ty(*t)]),
                ProjectionElem::Index(l) => json!(["i", l]),
                ProjectionElem::ConstantIndex{offset,min_length,from_end} => json!(["c", offset, min_length, from_end]),
                ProjectionElem::Subslice{from,to,from_end} => json!(["s", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["d", v.to_index()]),
                ProjectionElem::OpaqueCast(t) => json!(["o", self.ty(*t)]),
            });
        }
        json!([p.local, pr])
    }
    fn op(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!(["c", self.place(p)]),
            Operand::Move(p) => json!(["m", self.place(p)]),
            Operand::Constant(c) => json!(["k", self.konst(&c.const_)]),
            Operand::RuntimeChecks(r) => json!(["rt", format!("{:?}", r)]),
        }
    }
    fn rv(&mut self, r: &Rvalue) -> Value {
        match r {
            Rvalue::AddressOf(_, p) => json!(["addr", self.place(p)]),
            Rvalue::Ref(_, k, p) => json!(["ref", self.place(p), matches!(k, BorrowKind::Mut{..})]),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<Value> = ops.iter().map(|x| self.op(x)).collect();
                let kv = match k {
                    AggregateKind::Array(t) => json!(["array", self.ty(*t)]),
                    AggregateKind::Tuple => json!(["tuple"]),
                    AggregateKind::Adt(d, v, a, _, f) => json!(["adt", self.ty(d.ty_with_args(a)), v.to_index(), f]),
                    AggregateKind::Closure(d, a) => json!(["closure", self.ty(Ty::new_closure(*d, a.clone()))]),
                    AggregateKind::RawPtr(t, _) => json!(["rawptr", self.ty(*t)]),
                    _ => json!(["other"]),
                };
                json!(["agg", kv, o])
            }
            Rvalue::BinaryOp(b, x, y) => json!(["bin", format!("{:?}", b), self.op(x), self.op(y)]),
            Rvalue::CheckedBinaryOp(b, x, y) => json!(["cbin", format!("{:?}", b), self.op(x), self.op(y)]),
            Rvalue::UnaryOp(u, x) => json!(["un", format!("{:?}", u), self.op(x)]),
            Rvalue::Cast(k, x, t) => json!(["cast", format!("{:?}", k), self.op(x), self.ty(*t)]),
            Rvalue::CopyForDeref(p) => json!(["use", ["c", self.place(p)]]),
            Rvalue::Discriminant(p) => json!(["discr", self.place(p)]),
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Repeat(o, n) => json!(["rep", self.op(o), n.eval_target_usize().ok()]),
            Rvalue::ThreadLocalRef(i) => json!(["tls", i.name().to_string()]),
            Rvalue::Use(o, _) => json!(["use", self.op(o)]),
            Rvalue::Reborrow(_, _, p) => json!(["use", ["c", self.place(p)]]),
        }
    }
    fn unw(u: &UnwindAction) -> Value { match u { UnwindAction::Cleanup(b) => json!(b), _ => Value::Null } }

    fn iter_next(&mut self, t: Ty, next_def: &Option<FnDef>) {
        if self.next_for.contains_key(&t) { return; }
        let Some(d) = next_def else { return };
        if let Ok(i) = Instance::resolve(*d, &GenericArgs(vec![GenericArgKind::Type(t)])) {
            let id = self.inst(i);
            self.next_for.insert(t, id);
        }
    }

    fn body(&mut self, b: &Body, file: &str) -> (Value, Value) {
        let locals: Vec<usize> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in b.blocks.iter() {
            let mut ss = vec![];
            for s in bb.statements.iter() {
                let line = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => { let pv = self.place(p); let rv = self.rv(r); ss.push(json!(["=", pv, rv, line])); }
                    StatementKind::SetDiscriminant{place, variant_index} => ss.push(json!(["sd", self.place(place), variant_index.to_index(), line])),
                    StatementKind::StorageDead(l) => ss.push(json!(["dead", l])),
                    StatementKind::StorageLive(l) => ss.push(json!(["live", l])),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => ss.push(json!(["assume", self.op(o), line])),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => ss.push(json!(["cpy", self.op(&c.src), self.op(&c.dst), self.op(&c.count), line])),
                    _ => {}
                }
            }
            let sp = bb.terminator.source_info.span;
            let line = sp.get_lines().start_line;
            let tfile = sp.get_filename().to_string();
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto{target} => json!({"k":"goto","t":target}),
                TerminatorKind::SwitchInt{discr, targets} => {
                    let br: Vec<Value> = targets.branches().map(|(v,b)| json!([v.to_string(), b])).collect();
                    json!({"k":"switch","d":self.op(discr),"b":br,"o":targets.otherwise()})
                }
                TerminatorKind::Return => json!({"k":"ret"}),
                TerminatorKind::Resume => json!({"k":"resume"}),
                TerminatorKind::Abort => json!({"k":"abort"}),
                TerminatorKind::Unreachable => json!({"k":"unreachable"}),
                TerminatorKind::Drop{place,target,unwind} => {
                    let pv = self.place(place);
                    let pt = place.ty(b.locals()).unwrap();
                    let di = Instance::resolve_drop_in_place(pt);
                    let d = if di.is_empty_shim() { Value::Null } else { json!(self.inst(di)) };
                    json!({"k":"drop","p":pv,"t":target,"u":Self::unw(unwind),"d":d,"ty":self.ty(pt)})
                }
                TerminatorKind::Call{func,args,destination,target,unwind,..} => {
                    let a: Vec<Value> = args.iter().map(|x| self.op(x)).collect();
                    let fv = self.op(func);
                    json!({"k":"call","f":fv,"a":a,"d":self.place(destination),"t":target,"u":Self::unw(unwind)})
                }
                TerminatorKind::Assert{cond,expected,msg,target,unwind} => {
                    let m = match msg {
                        AssertMessage::BoundsCheck{len,index} => json!(["bounds", self.op(len), self.op(index)]),
                        AssertMessage::Overflow(o,x,y) => json!(["overflow", format!("{:?}",o), self.op(x), self.op(y)]),
                        AssertMessage::OverflowNeg(x) => json!(["overflowneg", self.op(x)]),
                        AssertMessage::DivisionByZero(x) => json!(["div0", self.op(x)]),
                        AssertMessage::RemainderByZero(x) => json!(["rem0", self.op(x)]),
                        o => json!(["other", format!("{:?}", o)]),
                    };
                    json!({"k":"assert","c":self.op(cond),"e":expected,"m":m,"t":target,"u":Self::unw(unwind)})
                }
                TerminatorKind::InlineAsm{..} => json!({"k":"asm"}),
            };
            let mut t = t;
            t["l"] = json!(line);
            if tfile != file { t["file"] = json!(tfile); }
            blocks.push(json!({"s": ss, "t": t}));
        }
        let vars: Vec<Value> = b.var_debug_info.iter().map(|v| {
            let pl = match &v.value { VarDebugInfoContents::Place(p) => self.place(p), _ => Value::Null };
            json!([v.name.to_string(), pl])
        }).collect();
        (json!({"locals": locals, "nargs": b.arg_locals().len(), "spread": b.spread_arg(), "blocks": blocks, "vars": vars}), Value::Null)
    }
}

fn dump() -> ControlFlow<()> {
    let out = std::env::var("MIR_DUMP_OUT").expect("MIR_DUMP_OUT");
    let mut cx = Cx::default();
    let krate = rustc_public::local_crate();
    // Iterator::next
    let mut next_def: Option<FnDef> = None;
    'o: for c in rustc_public::external_crates() {
        if c.name == "core" {
            for f in c.fn_defs() {
                if f.name() == "core::iter::Iterator::next" || f.name() == "std::iter::Iterator::next" || f.name() == "core::iter::traits::iterator::Iterator::next" {
                    next_def = Some(f); break 'o;
                }
            }
        }
    }
    for f in krate.fn_defs() {
        let n = f.name().to_string();
        if let Some(i) = n.find("__vp::m::") { let k = n[i + 9..].to_string(); if !k.contains("::") { cx.models.insert(k, f); } }
    }
    let mut roots = vec![];
    let items = rustc_public::all_local_items();
    let mut fn_list = vec![];
    for it in items.iter() {
        fn_list.push(json!([it.name().to_string(), format!("{:?}", it.kind()), it.span().get_filename().to_string(), it.span().get_lines().start_line]));
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) { continue; }
        if it.requires_monomorphization() { continue; }
        if let Ok(i) = Instance::try_from(*it) {
            roots.push(cx.inst(i));
        }
    }
    let statics: Vec<Value> = krate.statics().iter().map(|s| { let t = cx.ty(s.ty()); json!([s.name().to_string(), t]) }).collect();
    loop {
        if let Some((i, id)) = cx.inst_queue.pop_front() {
            let name = i.name().to_string();
            let path = i.def.name().to_string();
            let k = krate_of(&i);
            let kind = match i.kind { InstanceKind::Item=>"item", InstanceKind::Intrinsic=>"intrinsic", InstanceKind::LlvmIntrinsic=>"intrinsic", InstanceKind::Virtual{..}=>"virtual", InstanceKind::Shim=>"shim" };
            let intr = i.intrinsic_name().map(|s| s.to_string());
            let a = i.args();
            let args = cx.args(&a);
            let ity = match i.ty().kind() { TyKind::RigidTy(RigidTy::FnDef(..)) | TyKind::RigidTy(RigidTy::Closure(..)) => Value::Null, _ => Value::Null };
            let _ = ity;
            let span = i.def.span();
            let file = span.get_filename().to_string();
            let line = span.get_lines().start_line;
            let stdlike = matches!(k.as_str(), "core" | "alloc" | "std");
            let local = k == krate.name.to_string();
            let qual = path.clone();
            let stop = STOP_PREFIX.iter().any(|p| qual.starts_with(p));
            // Iterator::next resolution for every Self type of an Iterator method
            if path.contains("Iterator::") || path.contains("::iter::") {
                if let Some(GenericArgKind::Type(t)) = a.0.first() { cx.iter_next(*t, &next_def); }
            }
            for g in a.0.iter() { if let GenericArgKind::Type(t) = g { cx.ty(*t); } }
            let want = (local || (stdlike && !stop) || k == "zhang_hilbert" || kind == "shim") && kind != "virtual" && kind != "intrinsic";
            let body = if want && (kind == "shim" || i.has_body()) {
                match i.body() { Some(b) => cx.body(&b, &file).0, None => Value::Null }
            } else { Value::Null };
            cx.inst_vals[id] = json!({"name":name,"path":path,"crate":k,"kind":kind,"intr":intr,"args":args,"file":file,"line":line,"body":body,"local":local});
            continue;
        }
        if let Some((t, id)) = cx.ty_queue.pop_front() {
            let mut v = cx.ty_val(t);
            if v.is_object() { let l = cx.layout(t); v["lay"] = l; }
            cx.ty_vals[id] = v;
            continue;
        }
        break;
    }
    let entry = rustc_public::entry_fn().and_then(|e: CrateItem| Instance::try_from(e).ok()).and_then(|i| cx.inst_ids.get(&i).copied());
    let next_for: Vec<Value> = cx.next_for.iter().map(|(t, i)| json!([cx.ty_ids[t], i])).collect();
    let v = json!({"crate": krate.name.to_string(), "types": cx.ty_vals, "fns": cx.inst_vals, "allocs": cx.allocs, "roots": roots, "entry": entry, "items": fn_list, "statics": statics, "next_for": next_for});
    std::fs::write(&out, serde_json::to_string(&v).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    args.remove(1);
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == std::env::var("MIR_DUMP_CRATE").unwrap_or_default());
    if !is_target {
        let st = std::process::Command::new(std::env::args().nth(1).unwrap()).args(std::env::args().skip(2)).status().unwrap();
        std::process::exit(st.code().unwrap_or(101));
    }
    let r = run!(&args, dump);
    if r.is_err() { std::process::exit(1); }
}
