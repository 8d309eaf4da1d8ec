//! Everything `specs/perm/MirPerms.tla` needs to know about a body, as rustc tells it, next to what Aquascope's
//! permission analysis records about the body. Only the part under "recorded" comes from the code under test.
use aquascope::analysis::{compute_permissions, permissions::PermissionsCtxt};
use polonius_engine::{Algorithm, Output as PEOutput};
use rustc_borrowck::consumers::{BodyWithBorrowckFacts, BorrowSet, TwoPhaseActivation};
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_hir::{BodyId, Mutability};
use rustc_middle::{
  mir::{visit::Visitor, BorrowKind, Location, Place, ProjectionElem},
  ty::{self, TyCtxt, TypingEnv},
};
use rustc_mir_dataflow::move_paths::{InitKind, InitLocation, MoveData};
use rustc_utils::{mir::place::PlaceCollector, PlaceExt, TyExt};
use serde_json::{json, Value};

fn proj<'tcx>(tcx: TyCtxt<'tcx>, bwf: &BodyWithBorrowckFacts<'tcx>, place: Place<'tcx>) -> Vec<Value> {
  let body = &bwf.body;
  place
    .iter_projections()
    .map(|(base, elem)| {
      let bty = base.ty(&body.local_decls, tcx).ty;
      let (k, n) = match elem {
        ProjectionElem::Deref => (
          match bty.kind() {
            ty::Ref(_, _, Mutability::Not) => "s",
            ty::Ref(_, _, Mutability::Mut) => "m",
            ty::RawPtr(_, Mutability::Not) => "c",
            ty::RawPtr(_, Mutability::Mut) => "r",
            _ => "b",
          },
          0,
        ),
        ProjectionElem::Field(f, _) => ("f", f.as_usize()),
        ProjectionElem::Downcast(_, v) => ("v", v.as_usize()),
        ProjectionElem::Index(_) => ("i", 0),
        ProjectionElem::ConstantIndex { .. } => ("ci", 0),
        ProjectionElem::Subslice { .. } => ("sl", 0),
        _ => ("o", 0),
      };
      let (union, dtor) = match bty.kind() {
        ty::Adt(adt, _) => (adt.is_union(), adt.has_dtor(tcx) && !adt.is_box()),
        _ => (false, false),
      };
      json!({"k": k, "n": n, "u": union, "dt": dtor})
    })
    .collect()
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, body_id: BodyId, bwf: &'tcx BodyWithBorrowckFacts<'tcx>) -> Value {
  let body = &bwf.body;
  let def_id = tcx.hir().body_owner_def_id(body_id);
  let facts = bwf.input_facts.as_ref().unwrap();
  let lt = bwf.location_table.as_ref().unwrap();
  let typing_env = TypingEnv::post_analysis(tcx, def_id);
  let ctxt: PermissionsCtxt<'tcx> = compute_permissions(tcx, body_id, bwf);

  let pol = PEOutput::compute(facts, Algorithm::Naive, true);
  let md = MoveData::gather_moves(body, tcx, |_| true);
  let invalidated = tcx.hir().body_owner_kind(def_id).is_fn_or_closure();
  let bs = BorrowSet::build(tcx, body, invalidated, &md);
  let norm = |p: Place<'tcx>| p.normalize(tcx, def_id.to_def_id());

  let np = lt.all_points().count();
  let mut succ = vec![vec![]; np];
  for &(a, b) in &facts.cfg_edge {
    succ[a.as_usize()].push(b.as_usize() + 1);
  }

  // The places: those of the locals, those rustc can move, those that the body mentions, those that are borrowed.
  let mut idx: FxHashMap<Place<'tcx>, usize> = FxHashMap::default();
  let mut places: Vec<Place<'tcx>> = vec![];
  let mut add = |p: Place<'tcx>| -> usize {
    let p = norm(p);
    *idx.entry(p).or_insert_with(|| {
      places.push(p);
      places.len()
    })
  };
  let mps: Vec<usize> = md.move_paths.iter().map(|m| add(m.place)).collect();
  let mut mentioned = PlaceCollector::default();
  mentioned.visit_body(body);
  for p in mentioned.0 {
    add(p);
  }
  for p in ctxt.domain_places() {
    add(p);
  }
  let _ = add;
  let parents: Vec<usize> = md.move_paths.iter().map(|m| m.parent.map_or(0, |p| p.as_usize() + 1)).collect();
  let start = |l: Location| lt.start_index(l).as_usize() + 1;
  let mid = |l: Location| lt.mid_index(l).as_usize() + 1;

  // The end of a local's scope is a move too, to rustc.
  let is_end = |l: Location| body.stmt_at(l).left().is_some_and(|s| matches!(s.kind, rustc_middle::mir::StatementKind::StorageDead(..)));
  let moves: Vec<Value> = md.moves.iter().map(|m| json!({"mp": m.path.as_usize() + 1, "at": mid(m.source), "dead": is_end(m.source)})).collect();
  let mut assigned = vec![];
  for init in md.inits.iter() {
    let mp = init.path.as_usize() + 1;
    match init.location {
      InitLocation::Statement(l) => {
        let bb = &body.basic_blocks[l.block];
        if l.statement_index == bb.statements.len() && init.kind == InitKind::NonPanicPathOnly {
          for s in bb.terminator().successors() {
            if !body.basic_blocks[s].is_cleanup {
              assigned.push(json!({"mp": mp, "at": start(s.start_location())}));
            }
          }
        } else {
          assigned.push(json!({"mp": mp, "at": mid(l)}));
        }
      }
      InitLocation::Argument(_) => assigned.push(json!({"mp": mp, "at": 1})),
    }
  }
  let args: FxHashSet<usize> = body.args_iter().map(|l| l.as_usize()).collect();
  let locals: Vec<Value> = body
    .local_decls
    .iter_enumerated()
    .map(|(l, d)| json!({"mt": d.mutability == Mutability::Mut, "arg": args.contains(&l.as_usize())}))
    .collect();

  let loans: Vec<Value> = bs
    .location_map()
    .values()
    .map(|b| {
      let res = b.reserve_location();
      let (two, act) = match b.activation_location() {
        TwoPhaseActivation::NotTwoPhase => (false, 0),
        TwoPhaseActivation::NotActivated => (true, 0),
        TwoPhaseActivation::ActivatedAt(l) => (true, start(l)),
      };
      json!({
        "l": b.borrowed_place().local.as_usize() + 1,
        "pr": proj(tcx, bwf, b.borrowed_place()),
        "mt": matches!(b.kind(), BorrowKind::Mut { .. }),
        "two": two, "at": mid(res), "act": act,
      })
    })
    .collect();
  let mut llive = vec![vec![]; np];
  for (p, ls) in &pol.loan_live_at {
    let mut v: Vec<usize> = ls.iter().map(|l| l.as_usize() + 1).collect();
    v.sort_unstable();
    llive[p.as_usize()] = v;
  }

  // recorded
  let mut recs: Vec<Value> = vec![];
  let mut rec_idx: FxHashMap<String, usize> = FxHashMap::default();
  let mut rec = vec![];
  let key = |k: Option<u32>| k.map_or(0, |x| x as usize + 1);
  let paths: Vec<_> = places.iter().map(|p| ctxt.try_place_to_path(p)).collect();
  for pt in lt.all_points() {
    let domain = ctxt.permissions_domain_at_point(pt);
    let row: Vec<usize> = paths
      .iter()
      .zip(&places)
      .map(|(path, place)| {
        let Some(path) = path else { return 0 };
        let d = domain.get(place).copied().unwrap_or_else(|| ctxt.permissions_data_at_point(*path, pt));
        let set = |p: aquascope::analysis::permissions::Permissions| {
          let mut v = vec![];
          if p.read { v.push("R") }
          if p.write { v.push("W") }
          if p.drop { v.push("O") }
          v
        };
        let v = json!({
          "live": d.is_live, "un": d.path_uninitialized, "mv": key(d.path_moved.map(|k| k.0)),
          "lr": key(d.loan_read_refined.map(|k| k.0)), "lw": key(d.loan_write_refined.map(|k| k.0)),
          "ld": key(d.loan_drop_refined.map(|k| k.0)),
          "tw": d.type_writeable, "td": d.type_droppable, "tc": d.type_copyable,
          "p": set(d.permissions()), "q": set(d.permissions_ignore_liveness()),
        });
        let s = v.to_string();
        *rec_idx.entry(s).or_insert_with(|| { recs.push(v); recs.len() })
      })
      .collect();
    rec.push(row);
  }

  json!({
    "np": np, "succ": succ, "locals": locals,
    "places": places.iter().map(|p| json!({
      "l": p.local.as_usize() + 1, "pr": proj(tcx, bwf, *p), "s": format!("{p:?}"),
      "cp": p.ty(&body.local_decls, tcx).ty.is_copyable(tcx, typing_env),
    })).collect::<Vec<_>>(),
    "mps": mps, "parents": parents, "moves": moves, "assigned": assigned,
    "used": facts.var_used_at.iter().map(|&(v, p)| json!([v.as_usize() + 1, p.as_usize() + 1])).collect::<Vec<_>>(),
    "defd": facts.var_defined_at.iter().map(|&(v, p)| json!([v.as_usize() + 1, p.as_usize() + 1])).collect::<Vec<_>>(),
    "loans": loans, "llive": llive,
    "recs": recs, "rec": rec,
  })
}
