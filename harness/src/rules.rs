//! matching rules as JSON
use pact_models::matchingrules::{matchers_from_json, matchers_to_json, MatchingRule};
use pact_models::PactSpecification;
use serde_json::{json, Value};

use crate::abs::{self, s};
use crate::R;

fn version(v: &Value) -> PactSpecification {
  match s(v).as_str() {
    "V1" => PactSpecification::V1,
    "V1.1" => PactSpecification::V1_1,
    "V2" => PactSpecification::V2,
    "V3" => PactSpecification::V3,
    _ => PactSpecification::V4
  }
}

fn through_text(v: &Value) -> Value { serde_json::from_str(&v.to_string()).unwrap() }

pub fn exec(op: &str, a: &Value) -> R {
  match op {
    "rules.read-one" => MatchingRule::from_json(&a["json"]).map(|r| abs::dump_rule(&r)).map_err(|e| e.to_string()),
    "rules.write-one" => {
      let r = abs::rule(&a["rule"]);
      let json = r.to_json();
      let back = MatchingRule::from_json(&through_text(&json)).ok().map(|r| abs::dump_rule(&r));
      let values: Value = Value::Object(r.values().into_iter().map(|(k, v)| (k.to_string(), v)).collect());
      let again = MatchingRule::create(&r.name(), &values).ok().map(|r| abs::dump_rule(&r));
      let _ = r.generate_description(true) + &r.generate_description(false);
      Ok(json!({"json": json, "back": back, "again": again, "facts": [r.is_values_matcher(), r.is_type_matcher(), r.is_length_type_matcher(),
        r.can_cascade(), r.has_generators()], "single": abs::dump_rule(&r.for_single_item())}))
    }
    "rules.read" => {
      let name = a["name"].as_str().unwrap_or("matchingRules");
      matchers_from_json(&json!({ name: a["json"] }), &Some("requestMatchingRules".to_string()))
        .map(|r| abs::dump_rules(&r)).map_err(|e| e.to_string())
    }
    "rules.write" => {
      let json = matchers_to_json(&abs::rules(&a["rules"]), &version(&a["version"]));
      let back = matchers_from_json(&json!({"matchingRules": through_text(&json)}), &None).ok().map(|r| abs::dump_rules(&r));
      Ok(json!({"json": json, "back": back}))
    }
    "rules.add" => {
      let mut r = abs::rules(&a["rules"]);
      let other = abs::rules(&a["other"]);
      if a["how"] == "merge" { r.merge(&other); }
      else { for (k, c) in &other.rules { r.add_rules(k.clone(), c.clone()); } }
      Ok(abs::dump_rules(&r))
    }
    _ => Err(format!("HARNESS unknown op {}", op))
  }
}
