//! Drives the real mdBook preprocessor through its public API, in the current directory.
//!
//! `mdh pages`: reads `{"id", "page"}` lines from stdin, processes each page with one preprocessor and prints what becomes of it.
//! `mdh build`: one build: reads all pages, processes each, saves the cache if all of them succeeded (as mdBook does).
use std::{
  io::{BufRead, Write},
  panic::{catch_unwind, AssertUnwindSafe},
};

use mdbook_aquascope::AquascopePreprocessor;
use serde_json::{json, Value};

fn message(e: Box<dyn std::any::Any + Send>) -> String {
  let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
  m.unwrap_or_default().chars().take(300).collect()
}

fn main() {
  let mode = std::env::args().nth(1).unwrap();
  std::panic::set_hook(Box::new(|_| {}));
  let stdout = std::io::stdout();
  let emit = |v: Value| writeln!(stdout.lock(), "{v}").unwrap();
  let mut pre = match catch_unwind(|| AquascopePreprocessor::new()) {
    Ok(Ok(p)) => p,
    Ok(Err(e)) => return emit(json!({"new": format!("{e:#}")})),
    Err(e) => return emit(json!({"new": message(e), "panic": true})),
  };
  let mut good = true;
  for line in std::io::stdin().lock().lines() {
    let c: Value = serde_json::from_str(&line.unwrap()).unwrap();
    let page = c["page"].as_str().unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| pre.replacements(page)));
    emit(match r {
      Ok(Ok(mut rs)) => {
        rs.sort_by_key(|(r, _)| r.start);
        json!({"id": c["id"], "rs": rs.iter().map(|(r, h)| json!([r.start, r.end, h])).collect::<Vec<_>>()})
      }
      Ok(Err(e)) => {
        good = false;
        json!({"id": c["id"], "err": format!("{e:#}")})
      }
      Err(e) => {
        good = false;
        json!({"id": c["id"], "panic": message(e)})
      }
    });
  }
  if mode == "build" && good {
    match catch_unwind(AssertUnwindSafe(|| pre.save_cache())) {
      Ok(()) => emit(json!({"saved": true})),
      Err(e) => emit(json!({"saved": false, "panic": message(e)})),
    }
  }
}
