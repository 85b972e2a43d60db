use pact_models::interaction::Interaction;
use pact_models::pact::{load_pact_from_json, Pact};
use serde_json::{json, Value};

use crate::R;

pub fn load(v: &Value) -> Result<Box<dyn Pact + Send + Sync + std::panic::RefUnwindSafe>, String> {
  load_pact_from_json("conform", v).map_err(|e| e.to_string())
}

/// Projection of an interaction to what the specification talks about
pub fn interaction(i: &dyn Interaction) -> Value {
  let (kind, mark) = if let Some(http) = i.as_v4_http() {
    ("http", json!([http.request.method, http.request.path, http.response.status,
      http.response.body.value_as_string().unwrap_or_default()]))
  } else if let Some(h) = i.as_request_response() {
    ("http", json!([h.request.method, h.request.path, h.response.status,
      h.response.body.value_as_string().unwrap_or_default()]))
  } else if let Some(m) = i.as_v4_async_message() {
    ("async", json!(["", "", 0, m.contents.contents.value_as_string().unwrap_or_default()]))
  } else if let Some(m) = i.as_v4_sync_message() {
    ("sync", json!(["", "", 0, m.request.contents.value_as_string().unwrap_or_default()]))
  } else if let Some(m) = i.as_message() {
    ("async", json!(["", "", 0, m.contents.value_as_string().unwrap_or_default()]))
  } else {
    ("?", json!(["", "", 0, ""]))
  };
  json!({
    "kind": kind,
    "desc": i.description(),
    "states": i.provider_states().iter().map(|s| json!({
      "name": s.name, "params": serde_json::to_string(&s.params.iter().collect::<std::collections::BTreeMap<_, _>>()).unwrap() }))
      .collect::<Vec<_>>(),
    "key": i.as_v4().and_then(|v| v.key()),
    "mark": mark
  })
}

pub fn summary(p: &dyn Pact) -> Value {
  json!({
    "cons": p.consumer().name,
    "prov": p.provider().name,
    "model": if p.is_v4() { "v4" } else if p.as_message_pact().map(|m| !m.messages.is_empty()).unwrap_or(false) { "v3m" } else { "v3h" },
    "ints": p.interactions().iter().map(|i| interaction(i.as_ref())).collect::<Vec<_>>(),
    "plugins": p.plugin_data().iter().map(|d| json!([d.name, d.version])).collect::<Vec<_>>()
  })
}

pub fn exec(op: &str, a: &Value) -> R {
  match op {
    // fold of merges: acc = p[i].merge(acc); the result of every step is observed
    "merge.history" => {
      let mut acc: Option<Box<dyn Pact + Send + Sync + std::panic::RefUnwindSafe>> = None;
      let mut steps = vec![];
      for p in a["pacts"].as_array().unwrap() {
        let p = load(p)?;
        let before = summary(p.as_ref());
        match acc.take() {
          None => {
            steps.push(json!({"in": before, "ok": true, "out": summary(p.as_ref())}));
            acc = Some(p);
          }
          Some(prev) => match p.merge(prev.as_ref()) {
            Ok(m) => {
              steps.push(json!({"in": before, "ok": true, "out": summary(m.as_ref())}));
              acc = Some(m);
            }
            Err(_) => {
              steps.push(json!({"in": before, "ok": false, "out": summary(prev.as_ref())}));
              acc = Some(prev);
            }
          }
        }
      }
      Ok(json!(steps))
    }
    _ => Err(format!("HARNESS unknown op {}", op))
  }
}
