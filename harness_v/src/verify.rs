//! Verifying a provider that is a script: everything the verifier does to it is recorded.
use std::collections::HashMap;
use std::future::Future;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

use itertools::Either;
use maplit::hashmap;
use pact_matching::Mismatch;
use pact_models::bodies::OptionalBody;
use pact_models::http_utils::HttpAuth;
use pact_models::provider_states::ProviderState;
use pact_models::v4::http_parts::HttpRequest;
use pact_verifier::callback_executors::{HttpRequestProviderStateExecutor, ProviderStateExecutor, RequestFilterExecutor};
use pact_verifier::verification_result::{VerificationExecutionResult, VerificationMismatchResult};
use pact_verifier::{verify_provider_async, ConsumerVersionSelector, FilterInfo, MismatchResult, PactSource, ProviderInfo, ProviderTransport, PublishOptions, VerificationOptions};
use reqwest::{handle_with, Reply, Sent};
use serde_json::{json, Value};

use crate::R;

static TRACE: Mutex<Vec<Value>> = Mutex::new(vec![]);
fn note(v: Value) { TRACE.lock().unwrap_or_else(|e| e.into_inner()).push(v); }
fn arr(v: &Value) -> Vec<Value> { v.as_array().cloned().unwrap_or_default() }
fn s(v: &Value) -> String { v.as_str().unwrap_or_default().to_string() }
fn opt_s(v: &Value) -> Option<String> { v.as_str().map(|t| t.to_string()) }
fn bytes(v: &Value) -> Vec<u8> { arr(v).iter().map(|b| b.as_u64().unwrap_or_default() as u8).collect() }

/// answers to the requests, in order
fn script(replies: &Value) {
  let replies = arr(replies);
  let mut next = 0;
  handle_with(Box::new(move |r: Sent| {
    let mut headers: Vec<(String, Vec<Value>)> = vec![];
    for (k, v) in &r.headers {
      let v = json!(String::from_utf8_lossy(v));
      match headers.iter_mut().find(|h| &h.0 == k) { Some(h) => h.1.push(v), None => headers.push((k.clone(), vec![v])) }
    }
    headers.sort_by(|a, b| a.0.cmp(&b.0));
    note(json!(["request", r.method, r.url, headers, r.body]));
    let reply = replies.get(next).cloned().unwrap_or(json!("no more answers"));
    next += 1;
    if let Some(err) = reply.as_str() { return Err(err.to_string()) }
    Ok(Reply {
      status: reply["status"].as_u64().unwrap_or(200) as u16,
      headers: arr(&reply["headers"]).iter().flat_map(|h| { let k = s(&h[0]); arr(&h[1]).iter().map(move |v| (k.clone(), s(v).into_bytes())).collect::<Vec<_>>() }).collect(),
      body: bytes(&reply["body"])
    })
  }));
}

/// what the provider states are set up with
#[derive(Debug)]
struct Recorder { answers: Vec<Value>, next: AtomicUsize, teardown: bool }
impl ProviderStateExecutor for Recorder {
  async fn call(self: Arc<Self>, id: Option<String>, state: &ProviderState, setup: bool, _: Option<&reqwest::Client>) -> anyhow::Result<HashMap<String, Value>> {
    note(json!(["state", id, state.name, state.params, setup]));
    match self.answers.get(self.next.fetch_add(1, Ordering::SeqCst)) {
      Some(Value::Object(m)) => Ok(m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()),
      Some(_) => Err(anyhow::anyhow!("state failed")),
      None => Ok(hashmap! {})
    }
  }
  fn teardown(&self) -> bool { self.teardown }
}

/// puts the method it sees into a header
#[derive(Debug, Clone)]
struct Filter;
impl RequestFilterExecutor for Filter {
  fn call(self: Arc<Self>, request: &HttpRequest) -> HttpRequest {
    let mut r = request.clone();
    let mut headers = r.headers.clone().unwrap_or_default();
    headers.insert("X-Seen".to_string(), vec![request.method.clone()]);
    r.headers = Some(headers);
    r
  }
  fn call_non_http(&self, body: &OptionalBody, metadata: &HashMap<String, Either<Value, bytes::Bytes>>) -> (OptionalBody, HashMap<String, Either<Value, bytes::Bytes>>) {
    (body.clone(), metadata.clone())
  }
}

/// files of a scratch directory, removed at the end
struct Scratch(PathBuf);
impl Scratch {
  fn new() -> Scratch {
    static N: AtomicUsize = AtomicUsize::new(0);
    let d = std::env::temp_dir().join(format!("verif-v-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&d).expect("HARNESS scratch");
    Scratch(d)
  }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
fn tree(dir: &Path, v: &Value) {
  std::fs::create_dir_all(dir).expect("HARNESS dir");
  for e in arr(v) {
    let p = dir.join(s(&e[0]));
    if e[1].is_array() { tree(&p, &e[1]) } else { std::fs::write(p, s(&e[1])).expect("HARNESS file") }
  }
}

fn auth(v: &Value) -> Option<HttpAuth> {
  match v[0].as_str() {
    Some("user") => Some(HttpAuth::User(s(&v[1]), opt_s(&v[2]))),
    Some("token") => Some(HttpAuth::Token(s(&v[1]))),
    Some(_) => Some(HttpAuth::None),
    None => None
  }
}

fn source(v: &Value, dir: &Path, n: usize) -> PactSource {
  match v[0].as_str().unwrap_or_default() {
    "text" => PactSource::String(s(&v[1])),
    "file" => {
      let p = dir.join(format!("f{}.json", n));
      if v[1].is_string() { std::fs::write(&p, s(&v[1])).expect("HARNESS file"); }
      PactSource::File(p.to_string_lossy().to_string())
    },
    "dir" => {
      let p = dir.join(format!("d{}", n));
      if v[1].is_array() { tree(&p, &v[1]); }
      PactSource::Dir(p.to_string_lossy().to_string())
    },
    "url" => PactSource::URL(s(&v[1]), auth(&v[2])),
    "webhook" => PactSource::WebhookCallbackUrl { pact_url: s(&v[1]), broker_url: s(&v[2]), auth: auth(&v[3]) },
    "broker" => PactSource::BrokerUrl(s(&v[1]), s(&v[2]), auth(&v[3]), vec![]),
    "dynamic" => {
      let o = &v[4];
      PactSource::BrokerWithDynamicConfiguration {
        provider_name: s(&v[1]), broker_url: s(&v[2]), auth: auth(&v[3]),
        enable_pending: o["pending"] == true, include_wip_pacts_since: opt_s(&o["wip"]),
        provider_tags: arr(&o["tags"]).iter().map(s).collect(), provider_branch: opt_s(&o["branch"]),
        selectors: serde_json::from_value::<Vec<ConsumerVersionSelector>>(o["selectors"].clone()).unwrap_or_default(),
        links: vec![]
      }
    },
    _ => PactSource::Unknown
  }
}

#[allow(deprecated)]
fn provider(v: &Value) -> ProviderInfo {
  let port = |v: &Value| v.as_u64().map(|p| p as u16);
  ProviderInfo {
    name: s(&v["name"]), protocol: s(&v["protocol"]), host: s(&v["host"]), port: port(&v["port"]), path: s(&v["path"]),
    transports: arr(&v["transports"]).iter().map(|t| ProviderTransport {
      transport: s(&t["transport"]), port: port(&t["port"]), path: opt_s(&t["path"]), scheme: opt_s(&t["scheme"])
    }).collect()
  }
}

fn filter(v: &Value) -> FilterInfo {
  match (opt_s(&v[0]), opt_s(&v[1])) {
    (Some(d), Some(s)) => FilterInfo::DescriptionAndState(d, s),
    (Some(d), None) => FilterInfo::Description(d),
    (None, Some(s)) => FilterInfo::State(s),
    (None, None) => FilterInfo::None
  }
}

fn part(m: &Mismatch) -> Value {
  match m {
    Mismatch::MethodMismatch { .. } => json!(["method", ""]),
    Mismatch::PathMismatch { .. } => json!(["path", ""]),
    Mismatch::StatusMismatch { .. } => json!(["status", ""]),
    Mismatch::QueryMismatch { parameter, .. } => json!(["query", parameter]),
    Mismatch::HeaderMismatch { key, .. } => json!(["header", key]),
    Mismatch::BodyTypeMismatch { .. } => json!(["type", ""]),
    Mismatch::BodyMismatch { path, .. } => json!(["body", path]),
    Mismatch::MetadataMismatch { key, .. } => json!(["meta", key])
  }
}
fn parts(ms: &[Mismatch]) -> Value { json!(["bad", ms.iter().map(part).collect::<Vec<_>>()]) }

fn failures(es: &[(String, VerificationMismatchResult)]) -> Vec<Value> {
  es.iter().map(|(d, r)| match r {
    VerificationMismatchResult::Mismatches { mismatches, interaction_id } => json!([d, parts(mismatches), interaction_id]),
    VerificationMismatchResult::Error { error, interaction_id } => json!([d, ["error", error], interaction_id])
  }).collect()
}

fn run<F: Future>(f: F) -> F::Output {
  tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("HARNESS runtime").block_on(f)
}

fn report(r: VerificationExecutionResult) -> Value {
  json!({
    "result": r.result, "notices": r.notices, "output": r.output,
    "errors": failures(&r.errors), "pending": failures(&r.pending_errors),
    "results": r.interaction_results.iter().map(|i| json!([
      i.interaction_id, i.interaction_key, i.description, i.interaction_description,
      match &i.result {
        Ok(_) => json!(["ok"]),
        Err(MismatchResult::Mismatches { mismatches, .. }) => parts(mismatches),
        Err(MismatchResult::Error(e, _)) => json!(["error", e])
      },
      i.pending
    ])).collect::<Vec<_>>(),
    "json": Value::from(Into::<Value>::into(r))
  })
}

pub fn exec(op: &str, a: &Value) -> R {
  if op != "verify.run" { return Err(format!("HARNESS unknown op {}", op)) }
  let scratch = Scratch::new();
  TRACE.lock().unwrap_or_else(|e| e.into_inner()).clear();
  script(&a["replies"]);
  let sources = arr(&a["sources"]).iter().enumerate().map(|(n, v)| source(v, &scratch.0, n)).collect();
  let options = VerificationOptions {
    request_filter: if a["reqfilter"] == true { Some(Arc::new(Filter)) } else { None },
    custom_headers: arr(&a["custom"]).iter().map(|h| (s(&h[0]), s(&h[1]))).collect(),
    coloured_output: false, no_pacts_is_error: a["no_pacts_is_error"] != false,
    .. VerificationOptions::default()
  };
  let publish = if a["publish"].is_object() {
    let p = &a["publish"];
    Some(PublishOptions { provider_version: opt_s(&p["version"]), build_url: opt_s(&p["build"]), provider_tags: arr(&p["tags"]).iter().map(s).collect(), provider_branch: opt_s(&p["branch"]) })
  } else { None };
  let consumers = arr(&a["consumers"]).iter().map(s).collect();
  let st = &a["states"];
  let (info, filter) = (provider(&a["provider"]), filter(&a["filter"]));
  let r = if st["http"] == true {
    let x = Arc::new(HttpRequestProviderStateExecutor {
      state_change_url: opt_s(&st["url"]), state_change_teardown: st["teardown"] == true,
      state_change_body: st["body"] == true, reties: st["retries"].as_u64().unwrap_or(3) as u8
    });
    run(verify_provider_async(info, sources, filter, consumers, &options, publish.as_ref(), &x, None))
  } else {
    let x = Arc::new(Recorder { answers: arr(&st["answers"]), next: AtomicUsize::new(0), teardown: st["teardown"] == true });
    run(verify_provider_async(info, sources, filter, consumers, &options, publish.as_ref(), &x, None))
  };
  let mut v = report(r.map_err(|e| e.to_string())?);
  v["trace"] = Value::Array(TRACE.lock().unwrap_or_else(|e| e.into_inner()).clone());
  Ok(v)
}
