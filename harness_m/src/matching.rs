//! What matching of bodies reports.
use std::collections::{BTreeSet, HashMap};
use std::panic::RefUnwindSafe;

use pact_matching::{match_message, match_request, match_response, match_sync_message, match_sync_message_request, match_sync_message_response, CoreMatchingContext, DiffConfig, Mismatch};
use pact_matching::json::compare_json;
use pact_models::interaction::Interaction;
use pact_models::message::Message;
use pact_models::pact::Pact;
use pact_models::path_exp::DocPath;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::pact::V4Pact;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use serde_json::{json, Value};

use crate::{abs, ctypes};
use crate::R;

fn config(strict: &Value) -> DiffConfig {
  if strict == true { DiffConfig::NoUnexpectedKeys } else { DiffConfig::AllowUnexpectedKeys }
}

/// {expected, actual, rules, strict}: the distinct answers over several builds of the rules
fn json_body(a: &Value) -> R {
  let mut answers = BTreeSet::new();
  for _ in 0..3 {
    let context = CoreMatchingContext::new(config(&a["strict"]), &abs::category(&a["rules"]), &HashMap::new());
    let paths: BTreeSet<String> = match compare_json(&DocPath::root(), &a["expected"], &a["actual"], &context) {
      Ok(_) => BTreeSet::new(),
      Err(ms) => {
        if ms.is_empty() { return Err("an error without mismatches".to_string()) }
        ms.iter().map(|m| m.path.clone()).collect()
      }
    };
    answers.insert(paths);
  }
  Ok(json!(answers))
}

type BoxedPact = Box<dyn Pact + Send + Sync + RefUnwindSafe>;
type BoxedInteraction = Box<dyn Interaction + Send + Sync + RefUnwindSafe>;

fn wait<F: std::future::Future>(f: F) -> F::Output {
  tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}

fn no_pact() -> BoxedPact { V4Pact::default().boxed() }

fn no_interaction() -> BoxedInteraction { SynchronousHttp::default().boxed() }

/// the kind and name of the part that does not match
fn part(m: &Mismatch) -> Value {
  match m {
    Mismatch::MethodMismatch { .. } => json!(["method", ""]),
    Mismatch::PathMismatch { .. } => json!(["path", ""]),
    Mismatch::StatusMismatch { .. } => json!(["status", ""]),
    Mismatch::QueryMismatch { parameter, .. } => json!(["query", parameter]),
    Mismatch::HeaderMismatch { key, .. } => json!(["header", key]),
    Mismatch::BodyTypeMismatch { .. } => json!(["type", ""]),
    Mismatch::BodyMismatch { path, .. } => json!(["body", path]),
    Mismatch::MetadataMismatch { key, .. } => json!(["meta", key])
  }
}

fn parts(ms: &[Mismatch]) -> Value {
  let mut out: Vec<Value> = ms.iter().map(part).collect();
  out.sort_by_key(|v| v.to_string());
  out.dedup();
  json!(out)
}

fn query(v: &Value) -> Option<HashMap<String, Vec<Option<String>>>> {
  v.as_array().map(|ps| ps.iter().map(|p| (abs::s(&p[0]), abs::arr(&p[1]).iter().map(|v| v.as_str().map(|s| s.to_string())).collect())).collect())
}

fn request_part(v: &Value) -> HttpRequest {
  HttpRequest {
    method: abs::s(&v["method"]),
    path: abs::s(&v["path"]),
    query: query(&v["query"]),
    headers: ctypes::headers(&v["headers"]),
    body: ctypes::body(&v["body"]),
    matching_rules: abs::rules(&v["rules"]),
    .. HttpRequest::default()
  }
}

fn response_part(v: &Value) -> HttpResponse {
  HttpResponse {
    status: v["status"].as_u64().unwrap() as u16,
    headers: ctypes::headers(&v["headers"]),
    body: ctypes::body(&v["body"]),
    matching_rules: abs::rules(&v["rules"]),
    .. HttpResponse::default()
  }
}

fn message_part(v: &Value) -> MessageContents {
  MessageContents {
    contents: ctypes::body(&v["body"]),
    metadata: abs::arr(&v["meta"]).iter().map(|m| (abs::s(&m[0]), m[1].clone())).collect(),
    matching_rules: abs::rules(&v["rules"]),
    .. MessageContents::default()
  }
}

fn message(v: &Value, version: &Value) -> BoxedInteraction {
  let contents = message_part(v);
  if version == 3 {
    Message { contents: contents.contents, metadata: contents.metadata, matching_rules: contents.matching_rules, .. Message::default() }.boxed()
  } else {
    AsynchronousMessage { contents, .. AsynchronousMessage::default() }.boxed()
  }
}

fn sync_message(v: &Value) -> SynchronousMessage {
  SynchronousMessage {
    request: message_part(&v["request"]),
    response: abs::arr(&v["responses"]).iter().map(message_part).collect(),
    .. SynchronousMessage::default()
  }
}

fn whole_request(a: &Value) -> R {
  let (e, t) = (request_part(&a["expected"]), request_part(&a["actual"]));
  let r = wait(match_request(e, t, &no_pact(), &no_interaction())).map_err(|e| e.to_string())?;
  // parameters and headers by the name the answers are given under, the rest as listed
  let listed = r.mismatches();
  let mut wrong: Vec<Value> = abs::arr(&parts(&listed)).iter().filter(|p| p[0] != "query" && p[0] != "header").cloned().collect();
  let mut named = 0;
  for (kind, answers) in [("query", &r.query), ("header", &r.headers)] {
    for (name, ms) in answers.iter().filter(|(_, ms)| !ms.is_empty()) {
      wrong.push(json!([kind, name]));
      named += ms.len();
      if !ms.iter().all(|m| part(m)[0] == kind) { return Err(format!("{} {}: {:?}", kind, name, ms)) }
    }
  }
  if named != listed.iter().filter(|m| part(m)[0] == "query" || part(m)[0] == "header").count() { return Err("not all that is wrong is listed".to_string()) }
  Ok(json!({ "wrong": wrong, "all": r.all_matched(), "mp": r.method_or_path_mismatch(), "score": r.score() }))
}

fn whole_response(a: &Value) -> R {
  let (e, t) = (response_part(&a["expected"]), response_part(&a["actual"]));
  Ok(json!({ "wrong": parts(&wait(match_response(e, t, &no_pact(), &no_interaction()))) }))
}

fn whole_message(a: &Value) -> R {
  let (e, t) = (message(&a["expected"], &a["version"]), message(&a["actual"], &a["version"]));
  let other = no_interaction();
  let kinds = parts(&wait(match_message(&e, &other, &no_pact())));
  if kinds != parts(&wait(match_message(&other, &t, &no_pact()))) || kinds != json!([["type", ""]]) {
    return Err(format!("a message and a request: {}", kinds));
  }
  Ok(json!({ "wrong": parts(&wait(match_message(&e, &t, &no_pact()))) }))
}

fn whole_sync(a: &Value) -> R {
  let (e, t) = (sync_message(&a["expected"]), sync_message(&a["actual"]));
  let request = parts(&wait(match_sync_message_request(&e, &t, &no_pact())));
  let responses = parts(&wait(match_sync_message_response(&e, &e.response, &t.response, &no_pact())));
  Ok(json!({ "request": request, "responses": responses, "wrong": parts(&wait(match_sync_message(e, t, &no_pact()))) }))
}

pub fn exec(op: &str, a: &Value) -> R {
  match op {
    "match.json" => json_body(a),
    "match.request" => whole_request(a),
    "match.response" => whole_response(a),
    "match.message" => whole_message(a),
    "match.sync" => whole_sync(a),
    _ => Err(format!("HARNESS unknown op {}", op))
  }
}
