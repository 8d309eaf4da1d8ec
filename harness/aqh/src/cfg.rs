//! What `specs/cfg/Dom.tla` needs: a body's control flow as rustc tells it, next to what Aquascope's IRMapper answers about it.
//! Only the part under "answers" comes from the code under test.
use aquascope::analysis::ir_mapper::{GatherDepth, GatherMode, IRMapper};
use rustc_hir::{BodyId, HirId};
use rustc_middle::{
  mir::{BasicBlock, Body, Location, TerminatorKind},
  ty::TyCtxt,
};
use rustc_utils::BodyExt;
use serde_json::{json, Value};

/// Where control goes after a block, unwinding and (unless `pretended`) pretended edges aside.
fn next(body: &Body<'_>, bb: BasicBlock, pretended: bool) -> Vec<usize> {
  let t = body.basic_blocks[bb].terminator();
  let all = match t.kind {
    _ if pretended => t.successors().collect(),
    TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => vec![real_target],
    _ => t.successors().collect(),
  };
  let mut out: Vec<usize> = all.into_iter().filter(|b| !body.basic_blocks[*b].is_cleanup).map(|b| b.as_usize() + 1).collect();
  out.sort_unstable();
  out.dedup();
  out
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, _id: BodyId, body: &'tcx Body<'tcx>) -> Value {
  let loc = |l: Location| json!([l.block.as_usize() + 1, l.statement_index]);
  let mut blocks = vec![];
  let mut points: Vec<Location> = vec![];
  for (bb, data) in body.basic_blocks.iter_enumerated() {
    let n = data.statements.len();
    let k = &data.terminator().kind;
    blocks.push(json!({
      "next": next(body, bb, false), "pretended": next(body, bb, true), "cleanup": data.is_cleanup, "dead": matches!(k, TerminatorKind::Unreachable), "exit": matches!(k, TerminatorKind::Return),
      "passing": n == 0 && matches!(k, TerminatorKind::FalseEdge { .. } | TerminatorKind::FalseUnwind { .. }),
    }));
    if !data.is_cleanup {
      let mut is = vec![0, n / 2, n];
      is.dedup();
      points.extend(is.into_iter().map(|statement_index| Location { block: bb, statement_index }));
    }
  }

  // Constructs: what points belong to, and what contains it.
  let mut ids: Vec<HirId> = vec![];
  let mut own: Vec<Vec<Value>> = vec![];
  let mut up: Vec<usize> = vec![];
  fn add<'tcx>(tcx: TyCtxt<'tcx>, id: HirId, ids: &mut Vec<HirId>, own: &mut Vec<Vec<Value>>, up: &mut Vec<usize>) -> usize {
    if let Some(i) = ids.iter().position(|x| *x == id) {
      return i;
    }
    let i = ids.len();
    ids.push(id);
    own.push(vec![]);
    up.push(0);
    let parent = tcx.parent_hir_id(id);
    if parent != id && parent.owner == id.owner {
      up[i] = add(tcx, parent, ids, own, up) + 1;
    }
    i
  }
  for (bb, data) in body.basic_blocks.iter_enumerated().filter(|x| !x.1.is_cleanup) {
    for statement_index in 0 ..= data.statements.len() {
      let l = Location { block: bb, statement_index };
      let i = add(tcx, body.location_to_hir_id(l), &mut ids, &mut own, &mut up);
      own[i].push(loc(l));
    }
  }

  let m = IRMapper::new(tcx, body, GatherMode::IgnoreCleanup);
  let about = |f: &dyn Fn(Location, Location) -> bool| -> Vec<Vec<usize>> {
    points.iter().map(|p| points.iter().enumerate().filter(|(_, q)| f(*p, **q)).map(|(i, _)| i + 1).collect()).collect()
  };
  let bbs: Vec<BasicBlock> = body.basic_blocks.indices().filter(|b| !body.basic_blocks[*b].is_cleanup).collect();
  let blocks_about = |f: &dyn Fn(BasicBlock, BasicBlock) -> bool| -> Vec<Vec<usize>> {
    body.basic_blocks.indices().map(|a| if body.basic_blocks[a].is_cleanup { vec![] } else { bbs.iter().filter(|b| f(a, **b)).map(|b| b.as_usize() + 1).collect() }).collect()
  };
  let gathered = |id: HirId, depth: GatherDepth| match m.get_mir_locations(id, depth) {
    None => json!({"some": false, "at": [], "entry": [], "exit": []}),
    Some(x) => {
      let mut at: Vec<Location> = x.values().collect();
      at.sort();
      json!({"some": true, "at": at.into_iter().map(loc).collect::<Vec<_>>(), "entry": x.entry_location().map(|l| vec![loc(l)]).unwrap_or_default(),
        "exit": x.exit_location().map(|l| vec![loc(l)]).unwrap_or_default()})
    }
  };
  json!({
    "blocks": blocks, "points": points.iter().map(|l| loc(*l)).collect::<Vec<_>>(), "own": own, "up": up,
    "answers": {
      "dom": about(&|p, q| m.ldominates(p, q)), "pdom": about(&|p, q| m.lpost_dominates(p, q)), 
      "bdom": blocks_about(&|a, b| m.dominates(a, b)), "bpdom": blocks_about(&|a, b| m.post_dominates(a, b)),
      "outer": ids.iter().map(|i| gathered(*i, GatherDepth::Outer)).collect::<Vec<_>>(),
      "nested": ids.iter().map(|i| gathered(*i, GatherDepth::Nested)).collect::<Vec<_>>(),
    },
  })
}
