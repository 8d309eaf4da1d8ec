//! Runs the real library on one Rust file and prints one JSON line per body.
#![feature(rustc_private)]
extern crate polonius_engine;
extern crate rustc_borrowck;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_mir_dataflow;
extern crate rustc_session;
extern crate rustc_span;

mod cfg;
mod facts;

use std::panic::{catch_unwind, AssertUnwindSafe};

use aquascope::{
  analysis::{permissions::ENABLE_FLOW_PERMISSIONS, stepper::{PermIncludeMode, INCLUDE_MODE}, AquascopeAnalysis},
  errors::{initialize_error_tracking, silent::silent_session, track_body_diagnostics},
};
use fluid_let::fluid_set;
use rustc_middle::ty::TyCtxt;
use rustc_utils::{mir::borrowck_facts, source_map::find_bodies::find_bodies};
use serde_json::{json, Value};

struct Cb {
  mode: String,
  flows: bool,
  all: bool,
  out: Vec<Value>,
}

impl rustc_driver::Callbacks for Cb {
  fn config(&mut self, config: &mut rustc_interface::Config) {
    config.psess_created = Some(silent_session());
    config.override_queries = Some(borrowck_facts::override_queries);
  }

  fn after_expansion(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'_>) -> rustc_driver::Compilation {
    initialize_error_tracking();
    fluid_set!(INCLUDE_MODE, if self.all { PermIncludeMode::All } else { PermIncludeMode::Changes });
    fluid_set!(ENABLE_FLOW_PERMISSIONS, self.flows);
    for (_, body_id) in find_bodies(tcx) {
      let def_id = tcx.hir().body_owner_def_id(body_id);
      track_body_diagnostics(def_id);
      let name = tcx.def_path_str(def_id.to_def_id());
      // What the code under test does is data, a panic included.
      let r = catch_unwind(AssertUnwindSafe(|| match self.mode.as_str() {
        "facts" => {
          let bwf = borrowck_facts::get_body_with_borrowck_facts(tcx, def_id);
          if bwf.body.tainted_by_errors.is_some() {
            return json!({"name": name, "tainted": true});
          }
          let mut v = facts::dump(tcx, body_id, bwf);
          v["name"] = json!(name);
          v
        }
        "cfg" => {
          let bwf = borrowck_facts::get_body_with_borrowck_facts(tcx, def_id);
          if bwf.body.tainted_by_errors.is_some() {
            return json!({"name": name, "tainted": true});
          }
          let mut v = cfg::dump(tcx, body_id, &bwf.body);
          v["name"] = json!(name);
          v
        }
        _ => {
          let r = AquascopeAnalysis::run(tcx, body_id);
          json!({"name": name, "r": serde_json::to_value(&r).unwrap()})
        }
      }));
      self.out.push(r.unwrap_or_else(|e| {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
        json!({"name": name, "panic": m.unwrap_or_default().chars().take(300).collect::<String>()})
      }));
    }
    rustc_driver::Compilation::Stop
  }
}

/// `aqh MODE FILE.. [--flows] [--all]`; each file is one crate, its bodies are followed by a line `{"file", "done"}`.
fn main() {
  let a: Vec<String> = std::env::args().skip(1).collect();
  let flag = |f: &str| a.iter().any(|x| x == f);
  std::panic::set_hook(Box::new(|_| {}));
  for file in a[1..].iter().filter(|x| !x.starts_with("--")) {
    let mut cb = Cb { mode: a[0].clone(), flows: flag("--flows"), all: flag("--all"), out: vec![] };
    let mut args: Vec<String> = vec!["rustc".into(), file.clone(), "--crate-type".into(), "lib".into(), "--edition=2021".into()];
    args.extend(
      "-Z identify-regions -Z mir-opt-level=0 -Z track-diagnostics=yes -Z maximal-hir-to-mir-coverage -A warnings"
        .split(' ')
        .map(String::from),
    );
    let ok = rustc_driver::catch_fatal_errors(|| rustc_driver::RunCompiler::new(&args, &mut cb).run()).is_ok();
    for mut o in cb.out {
      o["file"] = json!(file);
      println!("{o}");
    }
    println!("{}", json!({"file": file, "done": ok}));
  }
}
