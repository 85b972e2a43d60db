//! Conformance executor for pact_verifier (same protocol as ../harness).
use serde_json::{json, Value};
#[path = "../../harness/src/proto.rs"]
mod proto;
mod verify;
pub type R = Result<Value, String>;

fn exec(op: &str, a: &Value) -> R {
  match op.split('.').next().unwrap_or_default() {
    "verify" => verify::exec(op, a),
    "ping" => Ok(json!("pong")),
    _ => Err(format!("HARNESS unknown op {}", op))
  }
}

fn main() {
  std::env::set_var("PACT_DO_NOT_TRACK", "true");
  proto::main(exec, |_| false);
}
