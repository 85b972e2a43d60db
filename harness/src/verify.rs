//! verification of pact files, the schema for these, and names of versions
use pact_models::message_pact::MessagePact;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::pact::V4Pact;
use pact_models::verify_json::PactJsonVerifier;
use pact_models::PactSpecification;
use serde_json::{json, Value};

use crate::R;

fn spec(v: &Value) -> PactSpecification { PactSpecification::from(v.as_str().unwrap()) }

pub fn exec(op: &str, a: &Value) -> R {
  match op {
    "verify.file" => {
      let (strict, spec) = (a["strict"] == true, spec(&a["spec"]));
      let path = a["path"].as_str().unwrap();
      let results = match a["kind"].as_str().unwrap() {
        "http" => RequestResponsePact::verify_json(path, &a["json"], strict, spec),
        "message" => MessagePact::verify_json(path, &a["json"], strict, spec),
        _ => V4Pact::verify_json(path, &a["json"], strict, spec)
      };
      let of = |m: &str| m.rsplit_once(", got ").map(|(_, t)| t.to_string()).unwrap_or_default();
      Ok(json!({
        "results": results.iter().map(|r| json!([r.path, r.level.to_string(), of(&r.message)])).collect::<Vec<_>>(),
        "schema": RequestResponsePact::schema(spec)
      }))
    }
    "verify.version" => {
      let t = a["text"].as_str().unwrap();
      let v = PactSpecification::parse_version(t);
      Ok(json!({"parsed": v.map(|v| v.to_string()).unwrap_or_else(|_| "error".to_string()),
        "named": [PactSpecification::from(t).to_string(), PactSpecification::from(t.to_string()).to_string(), PactSpecification::from(&t.to_string()).to_string()],
        "text": PactSpecification::from(t).version_str()}))
    }
    _ => Err(format!("HARNESS unknown op {}", op))
  }
}
