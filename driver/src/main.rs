//! rustc driver that writes the type-checked program (MIR with resolved callees) of a workspace crate as JSON lines.
//! It is used as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, rustc-args...].
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::HashMap;
use std::io::Write;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, print::with_no_trimmed_paths, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;
use serde_json::{json, Map, Value};

struct Cb { out: String }

struct Cx<'tcx> {
  tcx: TyCtxt<'tcx>,
  tys: HashMap<Ty<'tcx>, usize>,
  ty_out: Vec<Value>,
  adts: HashMap<DefId, Value>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String { with_no_trimmed_paths!(tcx.def_path_str(d)) }

/// Path with the crate name in front for local items too.
fn cpath(tcx: TyCtxt<'_>, d: DefId) -> String {
  let p = path(tcx, d);
  if d.is_local() {
    // every local path gets the same shape: no crate prefix
    p
  } else { p }
}

impl<'tcx> Cx<'tcx> {
  fn ty(&mut self, t: Ty<'tcx>) -> usize {
    let t = self.tcx.erase_and_anonymize_regions(t);
    if let Some(i) = self.tys.get(&t) { return *i; }
    let id = self.ty_out.len();
    self.tys.insert(t, id);
    self.ty_out.push(Value::Null);
    let s = with_no_trimmed_paths!(format!("{}", t));
    let mut m = Map::new();
    m.insert("s".into(), json!(s));
    match t.kind() {
      TyKind::Adt(def, args) => {
        m.insert("k".into(), json!("adt"));
        m.insert("adt".into(), json!(path(self.tcx, def.did())));
        let a: Vec<usize> = args.types().map(|t| self.ty(t)).collect();
        m.insert("args".into(), json!(a));
        self.adt(*def);
      }
      TyKind::Ref(_, inner, mt) => { m.insert("k".into(), json!("ref")); m.insert("mut".into(), json!(mt.is_mut())); let i = self.ty(*inner); m.insert("to".into(), json!(i)); }
      TyKind::RawPtr(inner, mt) => { m.insert("k".into(), json!("ptr")); m.insert("mut".into(), json!(mt.is_mut())); let i = self.ty(*inner); m.insert("to".into(), json!(i)); }
      TyKind::Slice(inner) => { m.insert("k".into(), json!("slice")); let i = self.ty(*inner); m.insert("to".into(), json!(i)); }
      TyKind::Array(inner, n) => { m.insert("k".into(), json!("array")); let i = self.ty(*inner); m.insert("to".into(), json!(i)); if let Some(n) = n.try_to_target_usize(self.tcx) { m.insert("len".into(), json!(n)); } }
      TyKind::Tuple(ts) => { m.insert("k".into(), json!("tuple")); let a: Vec<usize> = ts.iter().map(|t| self.ty(t)).collect(); m.insert("args".into(), json!(a)); }
      TyKind::Closure(d, args) => {
        m.insert("k".into(), json!("closure")); m.insert("def".into(), json!(path(self.tcx, *d)));
        let ups: Vec<usize> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
        m.insert("upvars".into(), json!(ups));
      }
      TyKind::Coroutine(d, _) => { m.insert("k".into(), json!("coroutine")); m.insert("def".into(), json!(path(self.tcx, *d))); }
      TyKind::FnDef(d, args) => {
        m.insert("k".into(), json!("fndef"));
        let c = self.callee(*d, args.skip_binder(), None);
        m.insert("fn".into(), c);
      }
      TyKind::Dynamic(preds, ..) => {
        m.insert("k".into(), json!("dyn"));
        if let Some(p) = preds.principal_def_id() { m.insert("trait".into(), json!(path(self.tcx, p))); }
      }
      TyKind::Param(p) => { m.insert("k".into(), json!("param")); m.insert("name".into(), json!(p.name.as_str())); }
      TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char | TyKind::Str | TyKind::Float(_) | TyKind::Never => { m.insert("k".into(), json!("prim")); }
      _ => { m.insert("k".into(), json!("other")); }
    }
    self.ty_out[id] = Value::Object(m);
    id
  }

  fn adt(&mut self, def: ty::AdtDef<'tcx>) {
    if self.adts.contains_key(&def.did()) { return; }
    self.adts.insert(def.did(), Value::Null);
    let tcx = self.tcx;
    let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
    let local = def.did().is_local();
    let mut vs = vec![];
    let discrs: Vec<u128> = if def.is_enum() { def.discriminants(tcx).map(|(_, d)| d.val).collect() } else { vec![0] };
    for (i, v) in def.variants().iter().enumerate() {
      let mut fs = vec![];
      for f in v.fields.iter() {
        let t = if local { let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip(); json!(self.ty(t)) } else { Value::Null };
        fs.push(json!([f.name.as_str(), t]));
      }
      vs.push(json!({"name": v.name.as_str(), "fields": fs, "discr": discrs.get(i).map(|d| d.to_string())}));
    }
    let span = if local { self.span(tcx.def_span(def.did())) } else { Value::Null };
    self.adts.insert(def.did(), json!({"path": path(tcx, def.did()), "kind": kind, "local": local, "variants": vs, "span": span}));
  }

  fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, owner: Option<LocalDefId>) -> Value {
    let tcx = self.tcx;
    let mut m = Map::new();
    m.insert("p".into(), json!(cpath(tcx, d)));
    let targs: Vec<usize> = args.types().map(|t| self.ty(t)).collect();
    if !targs.is_empty() { m.insert("a".into(), json!(targs)); }
    if let Some(tr) = tcx.trait_of_assoc(d) {
      m.insert("trait".into(), json!(path(tcx, tr)));
      if let Some(owner) = owner {
        let env = TypingEnv::post_analysis(tcx, owner.to_def_id());
        let args = tcx.erase_and_anonymize_regions(args);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ty::Instance::try_resolve(tcx, env, d, args)));
        if let Ok(Ok(Some(inst))) = r {
          let rd = inst.def_id();
          match inst.def {
            ty::InstanceKind::Virtual(..) => { m.insert("virt".into(), json!(true)); }
            ty::InstanceKind::Item(_) => { m.insert("r".into(), json!(cpath(tcx, rd))); if rd.is_local() { m.insert("l".into(), json!(1)); }
              let ra: Vec<usize> = inst.args.types().map(|t| self.ty(t)).collect(); if !ra.is_empty() { m.insert("ra".into(), json!(ra)); } }
            _ => { m.insert("r".into(), json!(cpath(tcx, rd))); m.insert("shim".into(), json!(true)); }
          }
        }
        // Blanket conversions: what they forward to.
        let via = match path(tcx, d).as_str() {
          "std::convert::Into::into" => self.find_method("From", "from", &[args.type_at(1), args.type_at(0)], owner),
          "std::convert::TryInto::try_into" => self.find_method("TryFrom", "try_from", &[args.type_at(1), args.type_at(0)], owner),
          "std::string::ToString::to_string" => self.find_method("Display", "fmt", &[args.type_at(0)], owner),
          _ => None };
        if let Some(v) = via { m.insert("via".into(), json!(v)); }
      }
    } else {
      if d.is_local() { m.insert("l".into(), json!(1)); }
      if let Some(owner) = owner {
        let p = path(tcx, d);
        let via = if p == "core::str::<impl str>::parse" { self.find_method("FromStr", "from_str", &[args.type_at(0)], owner) } else { None };
        if let Some(v) = via { m.insert("via".into(), json!(v)); }
      }
    }
    Value::Object(m)
  }

  /// The method of `trait_` that the given self type (and trait arguments) resolves to.
  fn find_method(&mut self, trait_: &str, method: &str, tys: &[Ty<'tcx>], owner: LocalDefId) -> Option<String> {
    let tcx = self.tcx;
    let sym = rustc_span::Symbol::intern(trait_);
    let tr = match trait_ { "Display" => tcx.get_diagnostic_item(rustc_span::sym::Display), _ => tcx.get_diagnostic_item(sym) }?;
    let m = tcx.associated_items(tr).in_definition_order().find(|i| i.name().as_str() == method)?.def_id;
    let args = tcx.mk_args_from_iter(tys.iter().map(|t| ty::GenericArg::from(*t)));
    let args = tcx.erase_and_anonymize_regions(args);
    let env = TypingEnv::post_analysis(tcx, owner.to_def_id());
    let n_own = tcx.generics_of(m).count();
    let args = if n_own > args.len() {
      ty::GenericArgs::for_item(tcx, m, |p, _| if (p.index as usize) < args.len() { args[p.index as usize] } else { tcx.lifetimes.re_erased.into() })
    } else { args };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ty::Instance::try_resolve(tcx, env, m, args)));
    match r { Ok(Ok(Some(i))) => Some(cpath(tcx, i.def_id())), _ => None }
  }

  fn span(&self, s: Span) -> Value {
    let sm = self.tcx.sess.source_map();
    let mut macros = vec![];
    let mut root = s;
    for e in s.macro_backtrace() {
      macros.push(match e.kind { rustc_span::ExpnKind::Macro(_, n) => n.as_str().to_string(), k => format!("{:?}", k).chars().take(30).collect() });
      root = e.call_site;
    }
    let root = root.source_callsite();
    let lo = sm.lookup_char_pos(root.lo());
    let f = format!("{}", lo.file.name.prefer_local_unconditionally());
    if macros.is_empty() { json!([f, lo.line, lo.col.0]) } else { json!([f, lo.line, lo.col.0, macros]) }
  }

  fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> Value {
    let mut v = vec![json!(p.local.as_usize())];
    let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
    for e in p.projection.iter() {
      let cur = pty;
      pty = pty.projection_ty(self.tcx, e);
      v.push(match e {
        ProjectionElem::Deref => json!("*"),
        ProjectionElem::Field(f, t) => {
          let t = self.ty(t);
          match cur.ty.kind() {
            TyKind::Adt(d, _) => {
              self.adt(*d);
              let vi = cur.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
              json!(["f", f.as_usize(), t, d.variant(vi).fields[f].name.as_str(), path(self.tcx, d.did())])
            }
            TyKind::Closure(d, _) => json!(["f", f.as_usize(), t, format!("{}", f.as_usize()), path(self.tcx, *d)]),
            _ => json!(["f", f.as_usize(), t, format!("{}", f.as_usize()), Value::Null]),
          }
        }
        ProjectionElem::Index(l) => json!(["i", l.as_usize()]),
        ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["c", offset, min_length, from_end]),
        ProjectionElem::Subslice { from, to, from_end } => json!(["s", from, to, from_end]),
        ProjectionElem::Downcast(n, i) => json!(["v", i.as_usize(), n.map(|n| n.to_string())]),
        _ => json!(["o"]),
      });
    }
    json!(v)
  }

  fn constant(&mut self, c: &ConstOperand<'tcx>, owner: LocalDefId) -> Value {
    let tcx = self.tcx;
    let t = c.const_.ty();
    let mut m = Map::new();
    match t.kind() {
      TyKind::FnDef(d, args) => { let f = self.callee(*d, args.skip_binder(), Some(owner)); m.insert("fn".into(), f); return json!({"k": m}); }
      _ => {}
    }
    let tid = self.ty(t);
    m.insert("ty".into(), json!(tid));
    if let mir::Const::Unevaluated(u, _) = c.const_ {
      if let Some(pi) = u.promoted {
        m.insert("promoted".into(), json!([path(tcx, u.def), pi.as_usize()]));
        return json!({"k": m});
      }
      m.insert("named".into(), json!(path(tcx, u.def)));
    }
    if let Some(d) = c.check_static_ptr(tcx) { m.insert("static".into(), json!(path(tcx, d))); return json!({"k": m}); }
    let env = TypingEnv::post_analysis(tcx, owner.to_def_id());
    let val = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.const_.eval(tcx, env, c.span)));
    if let Ok(Ok(val)) = val {
      match val {
        ConstValue::Scalar(s) => if let Ok(i) = s.try_to_scalar_int() {
            let size = i.size();
            let bits = i.to_bits(size);
            if t.is_signed() { m.insert("int".into(), json!(size.sign_extend(bits).to_string())); }
            else if t.is_bool() { m.insert("bool".into(), json!(bits != 0)); }
            else if t.is_char() { m.insert("char".into(), json!(char::from_u32(bits as u32).map(|c| c.to_string()))); }
            else if t.is_floating_point() {
              let f = if size.bytes() == 8 { f64::from_bits(bits as u64) } else { f32::from_bits(bits as u32) as f64 };
              m.insert("float".into(), json!(format!("{:?}", f))); }
            else { m.insert("int".into(), json!(bits.to_string())); }
          },
        ConstValue::ZeroSized => { m.insert("zst".into(), json!(true)); }
        ConstValue::Slice { .. } => {
          if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
            match std::str::from_utf8(b) { Ok(s) if t.peel_refs().is_str() => { m.insert("str".into(), json!(s)); }
              _ => { m.insert("bytes".into(), json!(b)); } }
          }
        }
        ConstValue::Indirect { .. } => { m.insert("indirect".into(), json!(true)); }
      }
      if !m.contains_key("int") && !m.contains_key("str") && !m.contains_key("bool") && !m.contains_key("zst") && !m.contains_key("char") {
        let d = with_no_trimmed_paths!(format!("{}", c.const_));
        m.insert("dbg".into(), json!(d.chars().take(400).collect::<String>()));
      }
    }
    json!({"k": m})
  }

  fn op(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, owner: LocalDefId) -> Value {
    match o {
      Operand::Copy(p) => json!({"c": self.place(p, body)}),
      Operand::Move(p) => json!({"m": self.place(p, body)}),
      Operand::Constant(c) => self.constant(c, owner),
      #[allow(unreachable_patterns)]
      _ => json!({"k": {"rt": true}}),
    }
  }

  fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, owner: LocalDefId) -> Value {
    match r {
      Rvalue::Use(o, ..) => json!(["use", self.op(o, body, owner)]),
      Rvalue::Repeat(o, n) => { let n = n.try_to_target_usize(self.tcx); json!(["repeat", self.op(o, body, owner), n]) }
      Rvalue::Ref(_, bk, p) => json!(["ref", matches!(bk, BorrowKind::Mut { .. }), self.place(p, body)]),
      Rvalue::RawPtr(_, p) => json!(["rawptr", self.place(p, body)]),
      Rvalue::Cast(k, o, t) => { let t = self.ty(*t); json!(["cast", format!("{:?}", k), self.op(o, body, owner), t]) }
      Rvalue::BinaryOp(b, ops) => json!(["bin", format!("{:?}", b), self.op(&ops.0, body, owner), self.op(&ops.1, body, owner)]),
      Rvalue::UnaryOp(u, o) => json!(["un", format!("{:?}", u), self.op(o, body, owner)]),
      Rvalue::Discriminant(p) => {
        let t = p.ty(body, self.tcx).ty; let t = self.ty(t);
        json!(["discr", self.place(p, body), t]) }
      Rvalue::CopyForDeref(p) => json!(["use", {"c": self.place(p, body)}]),
      Rvalue::Aggregate(k, ops) => {
        let ops: Vec<Value> = ops.iter().map(|o| self.op(o, body, owner)).collect();
        let kind = match &**k {
          AggregateKind::Array(t) => { let t = self.ty(*t); json!(["array", t]) }
          AggregateKind::Tuple => json!(["tuple"]),
          AggregateKind::Adt(d, v, _, _, active) => {
            let ad = self.tcx.adt_def(*d); self.adt(ad);
            json!(["adt", path(self.tcx, *d), v.as_usize(), ad.variant(*v).name.as_str(), active.map(|a| a.as_usize())])
          }
          AggregateKind::Closure(d, _) => json!(["closure", path(self.tcx, *d)]),
          AggregateKind::Coroutine(d, _) => json!(["coroutine", path(self.tcx, *d)]),
          AggregateKind::CoroutineClosure(d, _) => json!(["closure", path(self.tcx, *d)]),
          _ => json!(["other"]),
        };
        json!(["agg", kind, ops])
      }
      o => json!(["other", format!("{:?}", o).chars().take(80).collect::<String>()]),
    }
  }

  fn body(&mut self, body: &Body<'tcx>, owner: LocalDefId) -> Value {
    let tcx = self.tcx;
    let locals: Vec<usize> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
    let mut names = Map::new();
    for vi in &body.var_debug_info {
      if let VarDebugInfoContents::Place(p) = vi.value {
        if p.projection.is_empty() { names.insert(p.local.as_usize().to_string(), json!(vi.name.as_str())); }
        else { let pl = self.place(&p, body); names.insert(format!("{}", pl), json!(vi.name.as_str())); }
      }
    }
    let mut blocks = vec![];
    for (_bb, data) in body.basic_blocks.iter_enumerated() {
      if data.is_cleanup { blocks.push(Value::Null); continue; }
      let mut st = vec![];
      for s in &data.statements {
        match &s.kind {
          StatementKind::Assign(b) => {
            let (p, r) = &**b;
            st.push(json!([self.place(p, body), self.rvalue(r, body, owner), self.span(s.source_info.span)]));
          }
          StatementKind::SetDiscriminant { place, variant_index } => {
            st.push(json!([self.place(place, body), ["setdiscr", variant_index.as_usize()], self.span(s.source_info.span)]));
          }
          _ => {}
        }
      }
      let term = data.terminator();
      let sp = self.span(term.source_info.span);
      let t = match &term.kind {
        TerminatorKind::Goto { target, .. } => json!({"t": "goto", "to": target.as_usize()}),
        TerminatorKind::SwitchInt { discr, targets } => {
          let ts: Vec<Value> = targets.iter().map(|(v, b)| json!([v.to_string(), b.as_usize()])).collect();
          let dty = discr.ty(body, tcx); let dty = self.ty(dty);
          json!({"t": "switch", "d": self.op(discr, body, owner), "ty": dty, "ts": ts, "else": targets.otherwise().as_usize()})
        }
        TerminatorKind::Return => json!({"t": "return"}),
        TerminatorKind::Unreachable => json!({"t": "unreachable"}),
        TerminatorKind::Drop { place, target, .. } => { let ty = place.ty(body, tcx).ty; let ty = self.ty(ty); json!({"t": "drop", "p": self.place(place, body), "ty": ty, "to": target.as_usize()}) }
        TerminatorKind::Call { func, args, destination, target, .. } => {
          let f = self.op(func, body, owner);
          let a: Vec<Value> = args.iter().map(|a| self.op(&a.node, body, owner)).collect();
          json!({"t": "call", "f": f, "args": a, "dst": self.place(destination, body), "to": target.map(|t| t.as_usize())})
        }
        TerminatorKind::Assert { cond, expected, msg, target, .. } => {
          let k = match &**msg {
            AssertKind::BoundsCheck { len, index } => json!(["bounds", self.op(len, body, owner), self.op(index, body, owner)]),
            AssertKind::Overflow(b, l, r) => json!(["overflow", format!("{:?}", b), self.op(l, body, owner), self.op(r, body, owner)]),
            AssertKind::OverflowNeg(o) => json!(["overflowneg", self.op(o, body, owner)]),
            AssertKind::DivisionByZero(o) => json!(["divzero", self.op(o, body, owner)]),
            AssertKind::RemainderByZero(o) => json!(["remzero", self.op(o, body, owner)]),
            o => json!(["other", format!("{:?}", o).chars().take(60).collect::<String>()]),
          };
          json!({"t": "assert", "cond": self.op(cond, body, owner), "exp": expected, "msg": k, "to": target.as_usize()})
        }
        TerminatorKind::FalseEdge { real_target, .. } => json!({"t": "goto", "to": real_target.as_usize()}),
        TerminatorKind::FalseUnwind { real_target, .. } => json!({"t": "goto", "to": real_target.as_usize()}),
        TerminatorKind::Yield { value, resume, resume_arg, .. } => json!({"t": "yield", "v": self.op(value, body, owner), "to": resume.as_usize(), "dst": self.place(resume_arg, body)}),
        TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => json!({"t": "unwind"}),
        o => json!({"t": "other", "dbg": format!("{:?}", o).chars().take(80).collect::<String>()}),
      };
      let mut t = t; t["sp"] = sp;
      blocks.push(json!({"s": st, "t": t}));
    }
    json!({"argc": body.arg_count, "locals": locals, "names": names, "blocks": blocks,
      "spread": body.spread_arg.map(|l| l.as_usize())})
  }
}

impl Callbacks for Cb {
  fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
    let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
    let want = std::env::var("FACT_CRATES").unwrap_or_default();
    if !want.split(',').any(|c| c == krate) { return Compilation::Continue; }
    let tag = std::env::var("FACT_TAG").unwrap_or_default();
    let fname = format!("{}/{}{}.jsonl", self.out, krate, tag);
    let tmp = format!("{}.tmp{}", fname, std::process::id());
    let mut f = std::io::BufWriter::new(std::fs::File::create(&tmp).expect("facts file"));
    let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], adts: HashMap::new() };
    let mut n = 0usize;
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|d| tcx.def_path_hash(d.to_def_id()));
    // Bodies are cloned before the analysis phase can steal them (coroutines first: their layout steals their body).
    let mut pre: HashMap<LocalDefId, Body<'tcx>> = HashMap::new();
    let mut order = keys.clone();
    order.sort_by_key(|d| std::cmp::Reverse(path(tcx, d.to_def_id()).matches("{closure").count()));
    for d in &order {
      if matches!(tcx.def_kind(d.to_def_id()), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
        let st = tcx.mir_drops_elaborated_and_const_checked(*d);
        if st.is_stolen() { eprintln!("factdriver: stolen {}", path(tcx, d.to_def_id())); } else { pre.insert(*d, st.borrow().clone()); }
      }
    }
    for d in keys {
      let did = d.to_def_id();
      let kind = tcx.def_kind(did);
      let k = match kind {
        DefKind::Fn => "fn", DefKind::AssocFn => "method", DefKind::Closure => "closure",
        DefKind::Const { .. } | DefKind::AssocConst { .. } => "const", DefKind::Static { .. } => "static",
        _ => continue,
      };
      let b = if k == "const" || k == "static" { tcx.mir_for_ctfe(did).clone() }
        else { match pre.remove(&d) { Some(b) => b, None => tcx.optimized_mir(did).clone() } };
      let mut v = cx.body(&b, d);
      let mut proms = vec![];
      for p in tcx.promoted_mir(did).iter() { proms.push(cx.body(p, d)); }
      v["promoted"] = json!(proms);
      v["id"] = json!(path(tcx, did));
      v["kind"] = json!(k);
      v["span"] = cx.span(tcx.def_span(did));
      v["vis"] = json!(if k == "closure" { "closure".to_string() } else if tcx.visibility(did).is_public() { "pub".into() } else { "priv".into() });
      if tcx.opt_parent(did).is_some_and(|i| tcx.is_automatically_derived(i)) { v["derived"] = json!(true); }
      v["name"] = json!(tcx.opt_item_name(did).map(|n| n.to_string()));
      let mut is_test = false;
      let mut p = Some(did);
      while let Some(q) = p {
        if let Some(nm) = tcx.opt_item_name(q) { if nm.as_str() == "tests" || nm.as_str() == "test" { is_test = true; } }
        p = tcx.opt_parent(q);
      }
      v["test"] = json!(is_test);
      if k != "closure" {
        if let Some(imp) = tcx.impl_of_assoc(did) {
          let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip(); let st = cx.ty(st);
          let tr = tcx.impl_opt_trait_ref(imp).map(|t| path(tcx, t.instantiate_identity().skip_norm_wip().def_id));
          v["impl"] = json!({"self": st, "trait": tr});
        } else if let Some(tr) = tcx.trait_of_assoc(did) { v["trait"] = json!(path(tcx, tr)); }
      } else { v["parent"] = json!(path(tcx, tcx.parent(did))); }
      v["rec"] = json!("fn");
      writeln!(f, "{}", v).unwrap();
      n += 1;
    }
    for (i, t) in cx.ty_out.iter().enumerate() { writeln!(f, "{}", json!({"rec": "ty", "id": i, "v": t})).unwrap(); }
    let mut adts: Vec<&Value> = cx.adts.values().collect();
    adts.sort_by_key(|v| v["path"].as_str().unwrap_or("").to_string());
    for a in adts { writeln!(f, "{}", json!({"rec": "adt", "v": a})).unwrap(); }
    writeln!(f, "{}", json!({"rec": "end", "fns": n, "crate": krate})).unwrap();
    f.flush().unwrap();
    drop(f);
    std::fs::rename(&tmp, &fname).unwrap();
    Compilation::Continue
  }
}

fn main() {
  let mut args: Vec<String> = std::env::args().collect();
  // RUSTC_WORKSPACE_WRAPPER: argv[1] is rustc itself
  if args.len() > 1 && args[1].ends_with("rustc") { args.remove(0); }
  let out = std::env::var("FACT_DIR").unwrap_or_else(|_| "/tmp".into());
  if let Ok(extra) = std::env::var("FACT_RUSTFLAGS") { for e in extra.split_whitespace() { args.push(e.to_string()); } }
  rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
