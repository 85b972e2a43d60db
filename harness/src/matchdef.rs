//! matching rule definitions (def.parse {s}, def.merge {a, b}, def.type {a, b})
use pact_models::matchingrules::expressions::{is_matcher_def, parse_matcher_def};
use serde_json::{json, Value};

use crate::{abs, R};

pub fn exec(op: &str, a: &Value) -> R {
  match op {
    "def.parse" => {
      let s = abs::s(&a["s"]);
      Ok(json!({
        "starts": is_matcher_def(&s),
        "def": parse_matcher_def(&s).ok().map(|d| abs::dump_def(&d))
      }))
    }
    "def.merge" => Ok(abs::dump_def(&abs::def(&a["a"]).merge(&abs::def(&a["b"])))),
    _ => Err(format!("HARNESS unknown op {}", op))
  }
}
