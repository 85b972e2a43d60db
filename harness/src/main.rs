//! Conformance executor: runs the operations named in an NDJSON stream against the real
//! pact_models code and writes what was observed (protocol: proto.rs).
//!   conform exec IN.ndjson OUT.ndjson
//!   conform writer FILE OPS [threads]
use serde_json::Value;

mod proto;
mod merge;
mod files;
mod abs;
mod paths;
mod query;
mod expr;
mod datetime;
mod rules;
mod gens;
mod matchdef;
mod ctypes;
mod pactjson;
mod equal;
mod verify;

pub type R = Result<Value, String>;

fn exec(op: &str, a: &Value) -> R {
  match op.split('.').next().unwrap_or_default() {
    "merge" => merge::exec(op, a),
    "files" => files::exec(op, a),
    "path" => paths::exec(op, a),
    "query" => query::exec(op, a),
    "expr" => expr::exec(op, a),
    "dt" => datetime::exec(op, a),
    "rules" => rules::exec(op, a),
    "gen" => gens::exec(op, a),
    "def" => matchdef::exec(op, a),
    "ct" => ctypes::exec(op, a),
    "pact" => pactjson::exec(op, a),
    "equal" => equal::exec(op, a),
    "verify" => verify::exec(op, a),
    _ => Err(format!("HARNESS unknown op {}", op))
  }
}

fn main() {
  proto::main(exec, |args| {
    if args.first().map(|s| s == "writer").unwrap_or(false) {
      files::writer(&args[1..]);
      true
    } else { false }
  });
}
