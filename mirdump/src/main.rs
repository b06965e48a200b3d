//! rustc driver that dumps the monomorphised MIR of the crate under
//! verification (and of the library functions it reaches) as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER.  Nothing in the code is rewritten: the JSON
//! is rustc's own MIR, as serialised by rustc_public.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate serde_json;

use rustc_public::crate_def::CrateDef;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::Instance;
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDefType;
use rustc_public_bridge::IndexedVal;
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet, VecDeque};

struct Collect {
    tys: HashSet<Ty>,
    allocs: HashSet<AllocId>,
}
impl MirVisitor for Collect {
    fn visit_ty(&mut self, ty: &Ty, _l: Location) {
        self.tys.insert(*ty);
    }
    fn visit_rvalue(&mut self, rv: &Rvalue, l: Location) {
        match rv {
            Rvalue::Cast(_, _, t) => {
                self.tys.insert(*t);
            }
            Rvalue::Aggregate(k, _) => match k {
                AggregateKind::Array(t) | AggregateKind::RawPtr(t, _) => {
                    self.tys.insert(*t);
                }
                AggregateKind::Adt(d, _, a, _, _) => {
                    self.tys.insert(d.ty_with_args(a));
                }
                _ => {}
            },
            _ => {}
        }
        self.super_rvalue(rv, l)
    }
    fn visit_mir_const(&mut self, c: &MirConst, l: Location) {
        self.tys.insert(c.ty());
        if let ConstantKind::Allocated(a) = c.kind() {
            for (_, p) in &a.provenance.ptrs {
                self.allocs.insert(p.0);
            }
        }
        self.super_mir_const(c, l)
    }
}

fn num_bits(n: usize) -> usize {
    n * 8
}

fn arg_tys(a: &GenericArgs) -> Vec<Ty> {
    a.0.iter().filter_map(|g| g.ty().copied()).collect()
}

fn args_json(a: &GenericArgs) -> Value {
    Value::Array(
        a.0.iter()
            .map(|g| match g {
                GenericArgKind::Type(t) => json!({"ty": t.to_index()}),
                GenericArgKind::Const(c) => json!({"const": c.eval_target_usize().ok()}),
                GenericArgKind::Lifetime(_) => json!({"lt": 0}),
            })
            .collect(),
    )
}

fn ty_json(t: Ty, more: &mut Vec<Ty>) -> Value {
    let size = t.layout().ok().map(|l| l.shape().size.bytes());
    let mut v = match t.kind() {
        TyKind::RigidTy(r) => match r {
            RigidTy::Bool => json!({"k":"bool"}),
            RigidTy::Char => json!({"k":"char"}),
            RigidTy::Int(i) => json!({"k":"int","bits":num_bits(i.num_bytes())}),
            RigidTy::Uint(i) => json!({"k":"uint","bits":num_bits(i.num_bytes())}),
            RigidTy::Float(_) => json!({"k":"float"}),
            RigidTy::Str => json!({"k":"str"}),
            RigidTy::Never => json!({"k":"never"}),
            RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
            RigidTy::Array(e, n) => {
                more.push(e);
                json!({"k":"array","elem":e.to_index(),"len":n.eval_target_usize().ok()})
            }
            RigidTy::Slice(e) => {
                more.push(e);
                json!({"k":"slice","elem":e.to_index()})
            }
            RigidTy::RawPtr(e, m) => {
                more.push(e);
                json!({"k":"ptr","to":e.to_index(),"mut":m==Mutability::Mut})
            }
            RigidTy::Ref(_, e, m) => {
                more.push(e);
                json!({"k":"ref","to":e.to_index(),"mut":m==Mutability::Mut})
            }
            RigidTy::Tuple(ts) => {
                more.extend(ts.iter().copied());
                json!({"k":"tuple","tys":ts.iter().map(|t|t.to_index()).collect::<Vec<_>>()})
            }
            RigidTy::Adt(d, a) => {
                more.extend(arg_tys(&a));
                let mut vs = vec![];
                for v in d.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&a);
                        more.push(ft);
                        fs.push(json!([f.name, ft.to_index()]));
                    }
                    let discr = if d.kind() == AdtKind::Enum {
                        json!(d.discriminant_for_variant(v.idx()).val.to_string())
                    } else {
                        Value::Null
                    };
                    vs.push(json!({"name":v.name(),"fields":fs,"discr":discr}));
                }
                json!({"k":"adt","name":d.name(),"adt":format!("{}", d.kind()),"args":args_json(&a),"variants":vs})
            }
            RigidTy::FnDef(d, a) => {
                more.extend(arg_tys(&a));
                json!({"k":"fndef","name":d.name(),"args":args_json(&a)})
            }
            RigidTy::Closure(d, a) => {
                more.extend(arg_tys(&a));
                json!({"k":"closure","name":d.name(),"args":args_json(&a)})
            }
            o => json!({"k":"other","dbg":format!("{:?}",o)}),
        },
        o => json!({"k":"other","dbg":format!("{:?}",o)}),
    };
    v["size"] = json!(size);
    if matches!(v["k"].as_str(), Some("tuple") | Some("adt")) {
        if let Ok(l) = t.layout() {
            let sh = l.shape();
            v["fields"] = serde_json::to_value(&sh.fields).unwrap_or(Value::Null);
            v["vshape"] = serde_json::to_value(&sh.variants).unwrap_or(Value::Null);
        }
    }
    v
}

fn line(s: &rustc_public::ty::Span) -> Value {
    let f = s.get_filename();
    json!([f.to_string(), s.get_lines().start_line])
}

fn go(out: String, stop: Vec<String>, maxn: usize) {
    let mut q: VecDeque<Instance> = VecDeque::new();
    let mut ids: HashMap<Instance, usize> = HashMap::new();
    let mut order: Vec<Instance> = vec![];
    let mut roots: Vec<usize> = vec![];
    let mut statics = vec![];
    for it in rustc_public::all_local_items() {
        match it.kind() {
            rustc_public::ItemKind::Fn => {
                if it.requires_monomorphization() {
                    continue;
                }
                if let Ok(i) = Instance::try_from(it) {
                    if !ids.contains_key(&i) {
                        ids.insert(i, order.len());
                        roots.push(order.len());
                        order.push(i);
                        q.push_back(i);
                    }
                }
            }
            rustc_public::ItemKind::Static => statics.push(json!({"name": it.name(), "dbg": format!("{:?}", it.ty().kind())})),
            _ => {}
        }
    }
    let local = rustc_public::local_crate().name;
    let mut col = Collect { tys: HashSet::new(), allocs: HashSet::new() };
    let mut fns: Vec<Value> = vec![];
    let mut fndefs = Map::new();
    let mut truncated = false;
    while let Some(inst) = q.pop_front() {
        let name = inst.name().to_string();
        let dname = inst.def.name().to_string();
        let krate = inst.def.krate().name;
        for t in arg_tys(&inst.args()) {
            col.tys.insert(t);
            // a fn item passed as a value
            if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
                if let Ok(ci) = Instance::resolve(d, &a) {
                    let id = *ids.entry(ci).or_insert_with(|| {
                        order.push(ci);
                        q.push_back(ci);
                        order.len() - 1
                    });
                    fndefs.insert(t.to_index().to_string(), json!(id));
                }
            }
        }
        let mut f = Map::new();
        f.insert("id".into(), json!(ids[&inst]));
        f.insert("name".into(), json!(name));
        f.insert("def".into(), json!(dname));
        f.insert("krate".into(), json!(krate));
        f.insert("args".into(), args_json(&inst.args()));
        f.insert("kind".into(), json!(format!("{:?}", inst.kind)));
        if let Some(n) = inst.intrinsic_name() {
            f.insert("intrinsic".into(), json!(n));
        }
        col.tys.insert(inst.ty());
        f.insert("ty".into(), json!(inst.ty().to_index()));
        let stopped = krate != local && stop.iter().any(|s| dname.starts_with(s) || name.starts_with(s));
        f.insert("stopped".into(), json!(stopped));
        if !stopped && order.len() > maxn {
            truncated = true;
        }
        if !stopped && order.len() <= maxn && inst.kind != rustc_public::mir::mono::InstanceKind::Intrinsic {
            if let Some(body) = inst.body() {
                col.visit_body(&body);
                for l in body.locals() {
                    col.tys.insert(l.ty);
                }
                let mut calls = Map::new();
                let mut lines = vec![];
                let locals = body.locals().to_vec();
                for (bi, b) in body.blocks.iter().enumerate() {
                    // functions and closures turned into pointers
                    for st in &b.statements {
                        if let StatementKind::Assign(_, Rvalue::Cast(CastKind::PointerCoercion(_), op, _)) = &st.kind {
                            if let Ok(t) = op.ty(&locals) {
                                let ci = match t.kind() {
                                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => Instance::resolve(d, &a).ok(),
                                    TyKind::RigidTy(RigidTy::Closure(d, a)) => Instance::resolve_closure(d, &a, ClosureKind::Fn).ok(),
                                    _ => None,
                                };
                                if let Some(ci) = ci {
                                    let id = *ids.entry(ci).or_insert_with(|| {
                                        order.push(ci);
                                        q.push_back(ci);
                                        order.len() - 1
                                    });
                                    fndefs.insert(t.to_index().to_string(), json!(id));
                                    col.tys.insert(t);
                                }
                            }
                        }
                    }
                    lines.push(line(&b.terminator.source_info.span));
                    // closures / fn items used as values are reached when called
                    if let TerminatorKind::Call { func, .. } = &b.terminator.kind {
                        if let Ok(t) = func.ty(&locals) {
                            if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
                                if let Ok(ci) = Instance::resolve(d, &a) {
                                    let id = *ids.entry(ci).or_insert_with(|| {
                                        order.push(ci);
                                        q.push_back(ci);
                                        order.len() - 1
                                    });
                                    calls.insert(bi.to_string(), json!({"fn": id, "via": d.name()}));
                                }
                            }
                        }
                    }
                }
                f.insert("calls".into(), Value::Object(calls));
                f.insert("lines".into(), Value::Array(lines));
                f.insert("body".into(), serde_json::to_value(&body).unwrap());
                f.insert("arg_count".into(), json!(body.arg_locals().len()));
                f.insert("span".into(), line(&body.span));
            }
        }
        fns.push(Value::Object(f));
    }
    // allocations
    let mut allocs = Map::new();
    let mut aq: Vec<AllocId> = col.allocs.iter().copied().collect();
    let mut seen: HashSet<AllocId> = HashSet::new();
    while let Some(a) = aq.pop() {
        if !seen.insert(a) {
            continue;
        }
        let v = match GlobalAlloc::from(a) {
            GlobalAlloc::Memory(m) => {
                for (_, p) in &m.provenance.ptrs {
                    aq.push(p.0);
                }
                json!({"k":"mem","alloc":serde_json::to_value(&m).unwrap()})
            }
            GlobalAlloc::Static(s) => {
                let init = s.eval_initializer().ok();
                if let Some(m) = &init {
                    for (_, p) in &m.provenance.ptrs {
                        aq.push(p.0);
                    }
                }
                col.tys.insert(s.ty());
                json!({"k":"static","name":s.name(),"ty":s.ty().to_index(),"init":init.map(|m|serde_json::to_value(&m).unwrap())})
            }
            GlobalAlloc::Function(i) => json!({"k":"fn","name":i.name()}),
            o => json!({"k":"other","dbg":format!("{:?}",o)}),
        };
        allocs.insert(a.to_index().to_string(), v);
    }
    // types
    let mut tys = Map::new();
    let mut tq: Vec<Ty> = col.tys.into_iter().collect();
    let mut tseen: HashSet<Ty> = HashSet::new();
    while let Some(t) = tq.pop() {
        if !tseen.insert(t) {
            continue;
        }
        let mut more = vec![];
        let v = ty_json(t, &mut more);
        tys.insert(t.to_index().to_string(), v);
        tq.extend(more);
    }
    let v = json!({"crate": local, "roots": roots, "fns": fns, "types": tys, "allocs": allocs, "statics": statics, "truncated": truncated, "fndefs": fndefs});
    let tmp = format!("{}.tmp", out);
    std::fs::write(&tmp, serde_json::to_vec(&v).unwrap()).unwrap();
    std::fs::rename(&tmp, &out).unwrap();
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper mode: argv[1] is the real rustc
    let mut real = "rustc".to_string();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1] == "rustc") {
        real = args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    if is_target && !out.is_empty() {
        let stop: Vec<String> = std::env::var("MIRDUMP_STOP")
            .ok()
            .and_then(|p| std::fs::read_to_string(p).ok())
            .map(|s| s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect())
            .unwrap_or_default();
        let maxn: usize = std::env::var("MIRDUMP_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(3000);
        let da = std::env::var("MIRDUMP_DA").unwrap_or_else(|_| "off".to_string());
        for a in ["-Zmir-opt-level=0", "-Coverflow-checks=on"] {
            args.push(a.to_string());
        }
        args.push(format!("-Cdebug-assertions={}", da));
        let r = run!(&args, || {
            go(out, stop, maxn);
            ControlFlow::<(), ()>::Continue(())
        });
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        use std::os::unix::process::CommandExt;
        let err = std::process::Command::new(real).args(&args[1..]).exec();
        eprintln!("mirdump: {}", err);
        std::process::exit(1);
    }
}
