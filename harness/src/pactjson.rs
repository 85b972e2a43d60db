//! whole pacts: abstract form -> struct -> JSON -> struct -> JSON (pact.round, pact.load), conversions (pact.convert)
use std::collections::{BTreeMap, HashMap};
use std::panic::RefUnwindSafe;

use pact_models::bodies::OptionalBody;
use pact_models::interaction::Interaction;
use pact_models::matchingrules::{matchers_to_json, MatchingRules};
use pact_models::generators::{generators_to_json, Generators};
use pact_models::message::Message;
use pact_models::message_pact::MessagePact;
use pact_models::pact::{load_pact_from_json, Pact};
use pact_models::plugins::PluginData;
use pact_models::provider_states::ProviderState;
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::interaction::{InteractionMarkup, V4Interaction};
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::pact::V4Pact;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use pact_models::{Consumer, PactSpecification, Provider};
use serde_json::{json, Value};

use crate::{abs, ctypes, R};

pub fn version(v: &Value) -> PactSpecification {
  match v.as_str().unwrap_or_default() {
    "V1" => PactSpecification::V1,
    "V1.1" => PactSpecification::V1_1,
    "V2" => PactSpecification::V2,
    "V3" => PactSpecification::V3,
    "V4" => PactSpecification::V4,
    _ => PactSpecification::Unknown
  }
}

fn dump_version(v: PactSpecification) -> &'static str {
  match v {
    PactSpecification::V1 => "V1",
    PactSpecification::V1_1 => "V1.1",
    PactSpecification::V2 => "V2",
    PactSpecification::V3 => "V3",
    PactSpecification::V4 => "V4",
    PactSpecification::Unknown => "Unknown"
  }
}

fn opt(v: &Value) -> Option<String> { v.as_str().map(|s| s.to_string()) }

/// members in the order given: HashMaps see this order of insertion
fn members(v: &Value) -> HashMap<String, Value> {
  abs::arr(v).iter().map(|m| (abs::s(&m[0]), m[1].clone())).collect()
}

fn dump_members(m: &HashMap<String, Value>) -> Value {
  let mut ms: Vec<_> = m.iter().collect();
  ms.sort_by(|a, b| a.0.cmp(b.0));
  ms.into_iter().map(|(k, v)| json!([k, v])).collect()
}

pub fn states(v: &Value) -> Vec<ProviderState> {
  abs::arr(v).iter().map(|s| ProviderState { name: abs::s(&s[0]), params: members(&s[1]) }).collect()
}

fn dump_states(s: &[ProviderState]) -> Value {
  s.iter().map(|s| json!([s.name, dump_members(&s.params)])).collect()
}

fn query(v: &Value) -> Option<HashMap<String, Vec<Option<String>>>> {
  v.as_array().map(|q| q.iter().map(|kv| (abs::s(&kv[0]), abs::arr(&kv[1]).iter().map(opt).collect())).collect())
}

fn dump_query(q: &Option<HashMap<String, Vec<Option<String>>>>) -> Value {
  q.as_ref().map(|q| {
    let mut qs: Vec<_> = q.iter().collect();
    qs.sort();
    qs.into_iter().map(|(k, v)| json!([k, v])).collect::<Value>()
  }).unwrap_or(Value::Null)
}

fn dump_rules(m: &MatchingRules, spec: &PactSpecification) -> Value {
  let d = abs::dump_rules(m);
  if d.as_array().unwrap().is_empty() { Value::Null } else { json!([d.to_string(), matchers_to_json(m, spec)]) }
}

fn dump_gens(g: &Generators, spec: &PactSpecification) -> Value {
  let d = abs::dump_generators(g);
  if d.as_array().unwrap().is_empty() { Value::Null } else { json!([d.to_string(), generators_to_json(g, spec)]) }
}

pub fn request(v: &Value) -> Request {
  Request { method: abs::s(&v["method"]), path: abs::s(&v["path"]), query: query(&v["query"]), headers: ctypes::headers(&v["headers"]),
    body: ctypes::body(&v["body"]), matching_rules: abs::rules(&v["rules"]), generators: abs::generators(&v["gens"]) }
}

pub fn response(v: &Value) -> Response {
  Response { status: abs::n(&v["status"]) as u16, headers: ctypes::headers(&v["headers"]),
    body: ctypes::body(&v["body"]), matching_rules: abs::rules(&v["rules"]), generators: abs::generators(&v["gens"]) }
}

pub fn request4(v: &Value) -> HttpRequest {
  HttpRequest { method: abs::s(&v["method"]), path: abs::s(&v["path"]), query: query(&v["query"]), headers: ctypes::headers(&v["headers"]),
    body: ctypes::body(&v["body"]), matching_rules: abs::rules(&v["rules"]), generators: abs::generators(&v["gens"]) }
}

pub fn response4(v: &Value) -> HttpResponse {
  HttpResponse { status: abs::n(&v["status"]) as u16, headers: ctypes::headers(&v["headers"]),
    body: ctypes::body(&v["body"]), matching_rules: abs::rules(&v["rules"]), generators: abs::generators(&v["gens"]) }
}

pub fn contents(v: &Value) -> MessageContents {
  MessageContents { contents: ctypes::body(&v["body"]), metadata: members(&v["metadata"]),
    matching_rules: abs::rules(&v["rules"]), generators: abs::generators(&v["gens"]) }
}

fn dump_part(headers: &Option<HashMap<String, Vec<String>>>, body: &OptionalBody, rules: &MatchingRules, gens: &Generators, spec: &PactSpecification) -> Value {
  json!({"headers": ctypes::dump_headers(headers), "body": ctypes::dump_body(body), "rules": dump_rules(rules, spec), "gens": dump_gens(gens, spec)})
}

fn with(mut v: Value, more: Value) -> Value {
  for (k, x) in more.as_object().unwrap() { v[k] = x.clone(); }
  v
}

fn dump_contents(c: &MessageContents, spec: &PactSpecification) -> Value {
  json!({"body": ctypes::dump_body(&c.contents), "metadata": dump_members(&c.metadata),
    "rules": dump_rules(&c.matching_rules, spec), "gens": dump_gens(&c.generators, spec)})
}

fn dump_request(r: &Request, spec: &PactSpecification) -> Value {
  with(dump_part(&r.headers, &r.body, &r.matching_rules, &r.generators, spec), json!({"method": r.method, "path": r.path, "query": dump_query(&r.query)}))
}

fn dump_response(r: &Response, spec: &PactSpecification) -> Value {
  with(dump_part(&r.headers, &r.body, &r.matching_rules, &r.generators, spec), json!({"status": r.status}))
}

fn plugins(v: &Value) -> HashMap<String, HashMap<String, Value>> {
  abs::arr(v).iter().map(|p| (abs::s(&p[0]), members(&p[1]))).collect()
}

fn dump_plugins(p: &HashMap<String, HashMap<String, Value>>) -> Value {
  let mut ps: Vec<_> = p.iter().collect();
  ps.sort_by(|a, b| a.0.cmp(b.0));
  ps.into_iter().map(|(k, v)| json!([k, dump_members(v)])).collect()
}

pub fn http3(v: &Value) -> RequestResponseInteraction {
  RequestResponseInteraction { id: opt(&v["id"]), description: abs::s(&v["description"]), provider_states: states(&v["states"]),
    request: request(&v["request"]), response: response(&v["response"]) }
}

pub fn msg3(v: &Value) -> Message {
  let c = contents(&v["contents"]);
  Message { id: opt(&v["id"]), description: abs::s(&v["description"]), provider_states: states(&v["states"]),
    contents: c.contents, metadata: c.metadata, matching_rules: c.matching_rules, generators: c.generators }
}

fn markup(v: &Value) -> InteractionMarkup { InteractionMarkup { markup: abs::s(&v[0]), markup_type: abs::s(&v[1]) } }

pub fn v4(v: &Value) -> Box<dyn V4Interaction + Send + Sync + RefUnwindSafe> {
  let (id, key, description, provider_states, comments, pending, plugin_config, interaction_markup, transport) =
    (opt(&v["id"]), opt(&v["key"]), abs::s(&v["description"]), states(&v["states"]), members(&v["comments"]), v["pending"].as_bool().unwrap(),
     plugins(&v["plugins"]), markup(&v["markup"]), opt(&v["transport"]));
  match v["kind"].as_str().unwrap() {
    "http4" => Box::new(SynchronousHttp { id, key, description, provider_states, comments, pending, plugin_config, interaction_markup, transport,
      request: request4(&v["request"]), response: response4(&v["response"]) }),
    "async4" => Box::new(AsynchronousMessage { id, key, description, provider_states, comments, pending, plugin_config, interaction_markup, transport,
      contents: contents(&v["contents"]) }),
    "sync4" => Box::new(SynchronousMessage { id, key, description, provider_states, comments, pending, plugin_config, interaction_markup, transport,
      request: contents(&v["request"]), response: abs::arr(&v["response"]).iter().map(contents).collect() }),
    x => panic!("HARNESS kind {}", x)
  }
}

/// any interaction: the kind says which
pub fn interaction(v: &Value) -> Box<dyn Interaction + Send + Sync + RefUnwindSafe> {
  match v["kind"].as_str().unwrap() {
    "http3" => Box::new(http3(v)),
    "msg3" => Box::new(msg3(v)),
    _ => v4(v).boxed()
  }
}

pub fn dump_http3(i: &RequestResponseInteraction, spec: &PactSpecification) -> Value {
  json!({"kind": "http3", "id": i.id, "description": i.description, "states": dump_states(&i.provider_states),
    "request": dump_request(&i.request, spec), "response": dump_response(&i.response, spec)})
}

pub fn dump_msg3(m: &Message, spec: &PactSpecification) -> Value {
  json!({"kind": "msg3", "id": m.id, "description": m.description, "states": dump_states(&m.provider_states),
    "contents": {"body": ctypes::dump_body(&m.contents), "metadata": dump_members(&m.metadata),
      "rules": dump_rules(&m.matching_rules, spec), "gens": dump_gens(&m.generators, spec)}})
}

pub fn dump_v4(i: &dyn V4Interaction, spec: &PactSpecification) -> Value {
  let m = i.interaction_markup();
  let common = json!({"id": i.id(), "key": i.key(), "description": i.description(), "states": dump_states(&i.provider_states()),
    "comments": dump_members(&i.comments()), "pending": i.pending(), "plugins": dump_plugins(&i.plugin_config()),
    "markup": [m.markup, m.markup_type], "transport": i.transport()});
  if let Some(h) = i.as_v4_http() {
    with(common, json!({"kind": "http4",
      "request": with(dump_part(&h.request.headers, &h.request.body, &h.request.matching_rules, &h.request.generators, spec),
        json!({"method": h.request.method, "path": h.request.path, "query": dump_query(&h.request.query)})),
      "response": with(dump_part(&h.response.headers, &h.response.body, &h.response.matching_rules, &h.response.generators, spec),
        json!({"status": h.response.status}))}))
  } else if let Some(m) = i.as_v4_async_message() {
    with(common, json!({"kind": "async4", "contents": dump_contents(&m.contents, spec)}))
  } else {
    let m = i.as_v4_sync_message().expect("a V4 interaction");
    with(common, json!({"kind": "sync4", "request": dump_contents(&m.request, spec),
      "response": m.response.iter().map(|c| dump_contents(c, spec)).collect::<Vec<_>>()}))
  }
}

fn string_maps(v: &Value) -> BTreeMap<String, BTreeMap<String, String>> {
  abs::arr(v).iter().map(|m| (abs::s(&m[0]), m[1].as_object().unwrap().iter().map(|(k, v)| (k.clone(), abs::s(v))).collect())).collect()
}

pub fn pact(v: &Value) -> Box<dyn Pact + Send + Sync + RefUnwindSafe> {
  let consumer = Consumer { name: abs::s(&v["consumer"]) };
  let provider = Provider { name: abs::s(&v["provider"]) };
  let is = abs::arr(&v["interactions"]);
  match v["kind"].as_str().unwrap() {
    "http" => Box::new(RequestResponsePact { consumer, provider, interactions: is.iter().map(http3).collect(),
      metadata: string_maps(&v["metadata"]), specification_version: version(&v["version"]) }),
    "message" => Box::new(MessagePact { consumer, provider, messages: is.iter().map(msg3).collect(),
      metadata: string_maps(&v["metadata"]), specification_version: version(&v["version"]) }),
    _ => Box::new(V4Pact { consumer, provider, interactions: is.iter().map(v4).collect(),
      metadata: abs::arr(&v["metadata"]).iter().map(|m| (abs::s(&m[0]), m[1].clone())).collect(),
      plugin_data: abs::arr(&v["plugins"]).iter().map(|p| PluginData { name: abs::s(&p[0]), version: abs::s(&p[1]), configuration: members(&p[2]) }).collect() })
  }
}

fn dump_string_maps(m: &BTreeMap<String, BTreeMap<String, String>>) -> Value {
  m.iter().map(|(k, v)| json!([k, v])).collect()
}

pub fn dump_http_pact(p: &RequestResponsePact, spec: &PactSpecification) -> Value {
  json!({"kind": "http", "consumer": p.consumer.name, "provider": p.provider.name, "version": dump_version(p.specification_version),
    "metadata": dump_string_maps(&p.metadata), "plugins": [], "interactions": p.interactions.iter().map(|i| dump_http3(i, spec)).collect::<Vec<_>>()})
}

pub fn dump_message_pact(p: &MessagePact, spec: &PactSpecification) -> Value {
  json!({"kind": "message", "consumer": p.consumer.name, "provider": p.provider.name, "version": dump_version(p.specification_version),
    "metadata": dump_string_maps(&p.metadata), "plugins": [], "interactions": p.messages.iter().map(|i| dump_msg3(i, spec)).collect::<Vec<_>>()})
}

pub fn dump_v4_pact(p: &V4Pact, spec: &PactSpecification) -> Value {
  json!({"kind": "v4", "consumer": p.consumer.name, "provider": p.provider.name, "version": "V4",
    "metadata": p.metadata.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
    "plugins": p.plugin_data.iter().map(|d| json!([d.name, d.version, dump_members(&d.configuration)])).collect::<Vec<_>>(),
    "interactions": p.interactions.iter().map(|i| dump_v4(i.as_ref(), spec)).collect::<Vec<_>>()})
}

/// spec: the version rules and generators are shown in
pub fn dump_pact(p: &dyn Pact, spec: &PactSpecification) -> Value {
  if p.is_v4() {
    dump_v4_pact(&p.as_v4_pact().expect("a V4 pact"), spec)
  } else if let Ok(m) = p.as_message_pact() {
    dump_message_pact(&m, spec)
  } else {
    dump_http_pact(&p.as_request_response_pact().expect("a HTTP pact"), spec)
  }
}

/// what a file holds
fn through_text(v: &Value) -> Value { serde_json::from_str(&serde_json::to_string_pretty(v).unwrap()).expect("JSON") }

/// any interaction, by its own kind
pub fn dump_interaction(i: &dyn Interaction, spec: &PactSpecification) -> Value {
  if i.is_v4() {
    dump_v4(i.as_v4().expect("a V4 interaction").as_ref(), spec)
  } else if i.is_request_response() {
    dump_http3(&i.as_request_response().expect("a V3 interaction"), spec)
  } else {
    dump_msg3(&i.as_message().expect("a V3 message"), spec)
  }
}

/// all the calls that tell its kind
fn kinds(i: &dyn Interaction) -> Value {
  json!([i.is_request_response(), i.is_message(), i.is_v4(), i.is_v4_http(), i.is_v4_async_message(), i.is_v4_sync_message()])
}

#[allow(deprecated)]
fn convert(v: &Value) -> Value {
  let spec = &PactSpecification::V4;
  let mut i = interaction(v);
  let d = dump_interaction(i.as_ref(), spec);
  let v4 = i.as_v4();
  let plain: Box<dyn Interaction> = i.boxed();
  let thread_safe = i.thread_safe();
  let copies = json!([dump_interaction(i.boxed().as_ref(), spec), dump_interaction(i.arced().as_ref(), spec),
    dump_interaction(&*thread_safe.lock().unwrap(), spec), dump_interaction(plain.clone().as_ref(), spec),
    v4.as_ref().filter(|_| i.is_v4()).map(|x| dump_interaction(x.boxed_v4().to_super(), spec)).unwrap_or(d.clone()),
    v4.as_ref().filter(|_| i.is_v4()).map(|x| dump_interaction(x.boxed().as_ref(), spec)).unwrap_or(d.clone())]);
  let contents_v3 = v4.as_ref().map(|x| {
    let mut parts = vec![];
    if let Some(m) = x.as_v4_async_message() { parts.push(m.contents); }
    if let Some(m) = x.as_v4_sync_message() { parts.push(m.request); parts.extend(m.response); }
    parts.iter().map(|p| json!([dump_contents(p, spec), dump_msg3(&p.as_v3_message(), spec), dump_contents(&p.as_v3_message().as_message_content(), spec)])).collect::<Vec<_>>()
  });
  let shown = format!("{}", plain.as_ref()).len() > 0;
  let mut out = json!({"d": d, "kinds": kinds(i.as_ref()), "type": i.type_of(), "type4": v4.as_ref().map(|x| x.v4_type().to_string()),
    "v4": v4.as_ref().map(|x| dump_v4(x.as_ref(), spec)),
    "v4s": [i.as_v4_http().map(|x| dump_v4(&x, spec)), i.as_v4_async_message().map(|x| dump_v4(&x, spec)), i.as_v4_sync_message().map(|x| dump_v4(&x, spec))],
    "http": i.as_request_response().map(|x| dump_http3(&x, spec)), "msg": i.as_message().map(|x| dump_msg3(&x, spec)),
    "http4": v4.as_ref().and_then(|x| x.as_request_response()).map(|x| dump_http3(&x, spec)), "msg4": v4.as_ref().and_then(|x| x.as_message()).map(|x| dump_msg3(&x, spec)),
    "copies": copies, "parts": contents_v3, "shown": shown,
    "get": {"id": i.id(), "description": i.description(), "states": dump_states(&i.provider_states()), "contents": ctypes::dump_body(&i.contents()),
      "verify": ctypes::dump_body(&i.contents_for_verification()), "ct": i.content_type().as_ref().map(ctypes::dump_ct),
      "rules": i.matching_rules().map(|m| dump_rules(&m, spec)).map(|x| vec![x]), "pending": i.pending()}
  });
  out["muts"] = json!([i.as_v4_mut().is_some(), i.as_v4_http_mut().is_some(), i.as_v4_async_message_mut().is_some(), i.as_v4_sync_message_mut().is_some()]);
  i.set_id(Some("new id".into()));
  i.set_description("new description");
  i.provider_states_mut().push(ProviderState::default("new state"));
  if let Some(x) = i.as_v4_mut() {
    x.set_transport(Some("new transport".into()));
    x.comments_mut().insert("new comment".into(), json!(1));
    x.plugin_config_mut().insert("new plugin".into(), Default::default());
    x.interaction_markup_mut().markup = "new markup".into();
  }
  out["set"] = dump_interaction(i.as_ref(), spec);
  out
}

fn md(m: &BTreeMap<String, BTreeMap<String, String>>) -> Value { dump_string_maps(m) }

/// a pact in its other forms, and changed
fn forms(a: &Value) -> Value {
  let spec = version(&a["spec"]);
  let s = &spec;
  let mut p = pact(&a["pact"]);
  let d = dump_pact(p.as_ref(), s);
  let v4 = p.as_v4_pact().ok();
  let thread_safe = p.thread_safe();
  let plain: Box<dyn Pact> = p.boxed();
  let j = p.to_json(spec).ok();
  let mut out = json!({"d": d, "v4": v4.as_ref().map(|x| dump_v4_pact(x, s)), "http": p.as_request_response_pact().ok().map(|x| dump_http_pact(&x, s)),
    "msg": p.as_message_pact().ok().map(|x| dump_message_pact(&x, s)),
    "copies": [dump_pact(p.boxed().as_ref(), s), dump_pact(p.arced().as_ref(), s), dump_pact(&*thread_safe.lock().unwrap(), s), dump_pact(plain.clone().as_ref(), s)],
    "json": j, "equal": plain == plain.clone(),
    "get": {"metadata": md(&p.metadata()), "version": dump_version(p.specification_version()), "v4": p.is_v4(), "requires": p.requires_plugins(),
      "plugins": p.plugin_data().iter().map(|d| json!([d.name, d.version, dump_members(&d.configuration)])).collect::<Vec<_>>(),
      "consumer": p.consumer().name, "provider": p.provider().name,
      "interactions": p.interactions().iter().map(|i| dump_interaction(i.as_ref(), s)).collect::<Vec<_>>()}
  });
  out["muts"] = p.interactions_mut().iter().map(|i| dump_interaction(*i, s)).collect();
  if let Some(x) = &v4 {
    use pact_models::v4::V4InteractionType as T;
    let types = [T::Synchronous_HTTP, T::Asynchronous_Messages, T::Synchronous_Messages];
    out["mixed"] = json!(x.has_mixed_interactions());
    out["has"] = json!(types.iter().map(|t| x.has_interactions(t.clone())).collect::<Vec<_>>());
    out["filter"] = json!(types.iter().map(|t| x.filter_interactions(t.clone()).iter().map(|i| dump_interaction(i.as_ref(), s)).collect::<Vec<_>>()).collect::<Vec<_>>());
    out["found"] = json!(abs::arr(&a["ids"]).iter().map(|id| x.find_interaction_with_id(&abs::s(id)).map(|i| dump_v4(i.as_ref(), s))).collect::<Vec<_>>());
  }
  let mut steps = vec![];
  for step in abs::arr(&a["steps"]) {
    let x = &step[1];
    let ok = match step[0].as_str().unwrap() {
      "add" => p.add_interaction(interaction(x).as_ref()).is_ok(),
      "plugin" => p.add_plugin(&abs::s(&x[0]), &abs::s(&x[1]), x[2].as_array().map(|_| members(&x[2]))).is_ok(),
      _ => { p.add_md_version(&abs::s(&x[0]), &abs::s(&x[1])); true }
    };
    let what = if step[0] == "add" { dump_interaction(interaction(x).as_ref(), s) } else { Value::Null };
    steps.push(json!({"ok": ok, "what": what, "d": dump_pact(p.as_ref(), s)}));
  }
  out["steps"] = Value::Array(steps);
  out
}

/// written for both V3 and V4 and read from both
fn upgrade(a: &Value) -> R {
  let spec = PactSpecification::V4;
  let p = pact(&a["pact"]);
  let load = |v: PactSpecification| -> Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>, String> {
    let j = through_text(&p.to_json(v).map_err(|e| format!("{}", e))?);
    load_pact_from_json("conform", &j).map_err(|e| format!("load: {}", e))
  };
  let (p3, p4) = (load(PactSpecification::V3)?, load(PactSpecification::V4)?);
  let q4 = if a["pact"]["kind"] == "message" { dump_message_pact(&p4.as_message_pact().map_err(|e| format!("{}", e))?, &spec) }
    else { dump_http_pact(&p4.as_request_response_pact().map_err(|e| format!("{}", e))?, &spec) };
  Ok(json!({"d": dump_pact(p.as_ref(), &spec), "from3": dump_pact(p3.as_ref(), &spec), "from4": q4}))
}

fn equal(a: Box<dyn Pact>, b: Box<dyn Pact>) -> bool { a == b }

pub fn exec(op: &str, a: &Value) -> R {
  let e = |e: anyhow::Error| format!("{}", e);
  match op {
    "pact.round" => {
      let spec = version(&a["spec"]);
      let p = pact(&a["pact"]);
      let d1 = dump_pact(p.as_ref(), &spec);
      let j1 = through_text(&p.to_json(spec).map_err(e)?);
      let q = load_pact_from_json("conform", &j1).map_err(|x| format!("load: {}", x))?;
      let j2 = q.to_json(spec).map_err(|x| format!("again: {}", x))?;
      Ok(json!({"d1": d1, "j1": j1, "d2": dump_pact(q.as_ref(), &spec), "j2": j2, "eq": equal(p, q)}))
    }
    "pact.load" => {
      let p = load_pact_from_json("conform", &a["json"]).map_err(e)?;
      let spec = p.specification_version();
      let spec = if spec == PactSpecification::Unknown { PactSpecification::V3 } else { spec };
      let d = dump_pact(p.as_ref(), &spec);
      let j = p.to_json(spec).map_err(|x| format!("write: {}", x));
      Ok(json!({"d": d, "j": j.unwrap_or_else(Value::String), "kinds": p.interactions().iter().map(|i| kinds(i.as_ref())).collect::<Vec<_>>()}))
    }
    "pact.convert" => Ok(convert(&a["i"])),
    "pact.forms" => Ok(forms(a)),
    "pact.upgrade" => upgrade(a),
    _ => Err(format!("HARNESS unknown op {}", op))
  }
}
