//! query strings
use std::collections::{BTreeSet, HashMap};

use pact_models::PactSpecification;
use pact_models::query_strings::*;
use serde_json::{json, Value};

use crate::abs::{arr, s};
use crate::R;

pub type Q = HashMap<String, Vec<Option<String>>>;

/// [[name, [value|null..]]..]
pub fn map(v: &Value, order: &[usize]) -> Q {
  let a = arr(v);
  let mut m = HashMap::new();
  for i in order {
    m.insert(s(&a[*i][0]), arr(&a[*i][1]).iter().map(|x| x.as_str().map(|s| s.to_string())).collect());
  }
  m
}

pub fn dump(q: &Option<Q>) -> Value {
  match q {
    None => Value::Null,
    Some(q) => {
      let mut e: Vec<_> = q.iter().collect();
      e.sort();
      json!(e)
    }
  }
}

pub fn exec(op: &str, a: &Value) -> R {
  match op {
    "query.encode" => Ok(json!(encode_query(&s(&a["s"])))),
    "query.decode" => decode_query(&s(&a["s"])).map(|r| json!(r)),
    "query.parse" => Ok(dump(&parse_query_string(&s(&a["s"])))),
    "query.build" => {
      let n = arr(&a["m"]).len();
      let up: Vec<usize> = (0..n).collect();
      let down: Vec<usize> = (0..n).rev().collect();
      let answers: BTreeSet<String> = [&up, &down, &up].iter().map(|o| build_query_string(map(&a["m"], o))).collect();
      let m = map(&a["m"], &up);
      let j = |v: PactSpecification| query_to_json(m.clone(), &v);
      let back = parse_query_string(answers.iter().next().unwrap());
      let (v1, v2, v3, v4) = (PactSpecification::V1_1, PactSpecification::V2, PactSpecification::V3, PactSpecification::V4);
      Ok(json!({
        "answers": answers, "back": dump(&back),
        "json3": j(v3), "json4": j(v4),
        "v1": dump(&query_from_json(&j(v1), &v1)), "v2": dump(&query_from_json(&j(v2), &v2)),
        "v3": dump(&v3_query_from_json(&j(v3), &v3)), "v4": dump(&v3_query_from_json(&j(v4), &v4))
      }))
    }
    _ => Err(format!("HARNESS unknown op {}", op))
  }
}
