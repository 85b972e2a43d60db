//! Conformance executor for pact_matching (same protocol as ../harness).
use serde_json::{json, Value};
#[path = "../../harness/src/proto.rs"]
mod proto;
#[path = "../../harness/src/abs.rs"]
#[allow(dead_code)]
mod abs;
#[path = "../../harness/src/ctypes.rs"]
#[allow(dead_code)]
mod ctypes;
mod matching;
pub type R = Result<Value, String>;

fn exec(op: &str, a: &Value) -> R {
  match op.split('.').next().unwrap_or_default() {
    "match" => matching::exec(op, a),
    "ping" => Ok(json!("pong")),
    _ => Err(format!("HARNESS unknown op {}", op))
  }
}

fn main() { proto::main(exec, |_| false); }
