//! equality of models, their hashes and the keys made from these
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::RefUnwindSafe;

use pact_models::pact::Pact;
use pact_models::path_exp::DocPath;
use pact_models::v4::interaction::V4Interaction;
use serde_json::{json, Value};

use crate::{abs, ctypes, pactjson as pj, R};

const TIMES: usize = 6;

fn hash<T: Hash>(v: &T) -> String {
  let mut h = DefaultHasher::new();
  v.hash(&mut h);
  format!("{:x}", h.finish())
}

/// every way two values are compared; values are built anew, so that hash maps differ in their order
fn same<T: PartialEq, F: Fn(&Value) -> T>(make: F, copy: fn(&T) -> T, a: &Value, b: &Value) -> Value {
  let (x, y) = (make(a), make(b));
  let all = (0..TIMES).all(|_| make(a) == x && x == make(a) && !(make(a) != x));
  json!({"eq": x == y, "ne": x != y, "rev": y == x, "self": all && copy(&x) == x})
}

fn with(mut v: Value, more: Value) -> Value {
  for (k, x) in more.as_object().unwrap() { v[k] = x.clone(); }
  v
}

fn hashed<T: PartialEq + Hash, F: Fn(&Value) -> T>(make: F, copy: fn(&T) -> T, a: &Value, b: &Value) -> Value {
  let many = |v: &Value| (0..TIMES).map(|_| hash(&make(v))).chain([hash(&copy(&make(v)))]).collect::<Vec<_>>();
  with(same(&make, copy, a, b), json!({"ha": many(a), "hb": many(b)}))
}

fn v4(v: &Value) -> Box<dyn V4Interaction + Send + Sync + RefUnwindSafe> { pj::v4(v) }

/// the keys of an interaction, and whether getting one changes anything else
fn keys(v: &Value, b: &Value) -> Value {
  let one = |v: &Value| {
    let i = v4(v);
    let k = i.with_unique_key();
    let (mut x, y) = (i.boxed_v4(), k.boxed_v4());
    if let Some(x) = x.as_v4_http_mut() { x.key = y.key(); }
    if let Some(x) = x.as_v4_async_message_mut() { x.key = y.key(); }
    if let Some(x) = x.as_v4_sync_message_mut() { x.key = y.key(); }
    let same = &x == &y && x.id() == y.id() && x.comments() == y.comments() && x.plugin_config() == y.plugin_config() &&
      x.interaction_markup() == y.interaction_markup() && x.transport() == y.transport() && x.v4_type() == y.v4_type();
    let own = match (i.as_v4_http(), i.as_v4_async_message(), i.as_v4_sync_message()) {
      (Some(i), _, _) => i.with_key().key,
      (_, Some(i), _) => i.with_key().key,
      (_, _, Some(i)) => i.with_key().key,
      _ => None
    };
    json!([i.key(), i.unique_key(), k.key(), k.unique_key(), own, k.with_unique_key().key(), same])
  };
  json!({"ka": (0..TIMES).map(|_| one(v)).collect::<Vec<_>>(), "kb": (0..TIMES).map(|_| one(b)).collect::<Vec<_>>()})
}

fn boxed(v: &Value) -> Box<dyn Pact> {
  // the type that is compared has no auto traits
  struct Both;
  impl Both { fn plain(p: Box<dyn Pact + Send + Sync + RefUnwindSafe>) -> Box<dyn Pact> { p } }
  Both::plain(pj::pact(v))
}

fn pair(a: &Value) -> R {
  let (x, y) = (&a["a"], &a["b"]);
  fn cl<T: Clone>(v: &T) -> T { v.clone() }
  Ok(match a["kind"].as_str().unwrap() {
    "path" => hashed(|v: &Value| DocPath::new(abs::s(v)).unwrap(), cl, x, y),
    "state" => hashed(|v: &Value| pj::states(&json!([v])).remove(0), cl, x, y),
    "rule" => hashed(abs::rule, cl, x, y),
    "rulelist" => hashed(|v: &Value| abs::rule_list(&v[0], &v[1]), cl, x, y),
    "category" => hashed(abs::category, cl, x, y),
    "rules" => hashed(abs::rules, cl, x, y),
    "generator" => hashed(abs::generator, cl, x, y),
    "generators" => hashed(abs::generators, cl, x, y),
    "ct" => hashed(ctypes::ct, cl, x, y),
    "body" => hashed(ctypes::body, cl, x, y),
    "contents" => hashed(pj::contents, cl, x, y),
    "request3" => hashed(pj::request, cl, x, y),
    "response3" => hashed(pj::response, cl, x, y),
    "request4" => hashed(pj::request4, cl, x, y),
    "response4" => hashed(pj::response4, cl, x, y),
    "http3" => hashed(pj::http3, cl, x, y),
    "msg3" => same(pj::msg3, cl, x, y),
    "http4" => with(hashed(|v: &Value| v4(v).as_v4_http().unwrap(), cl, x, y), keys(x, y)),
    "async4" => with(hashed(|v: &Value| v4(v).as_v4_async_message().unwrap(), cl, x, y), keys(x, y)),
    "sync4" => with(hashed(|v: &Value| v4(v).as_v4_sync_message().unwrap(), cl, x, y), keys(x, y)),
    "v4" => same(v4, |i| i.boxed_v4(), x, y),
    "pact4" => same(|v: &Value| pj::pact(v).as_v4_pact().unwrap(), cl, x, y),
    "pacthttp" => same(|v: &Value| pj::pact(v).as_request_response_pact().unwrap(), cl, x, y),
    "pactmessage" => same(|v: &Value| pj::pact(v).as_message_pact().unwrap(), cl, x, y),
    "boxed" => same(boxed, |p| { let p: Box<dyn Pact> = p.boxed(); p }, x, y),
    k => return Err(format!("HARNESS kind {}", k))
  })
}

pub fn exec(op: &str, a: &Value) -> R {
  match op {
    "equal.pair" => pair(a),
    _ => Err(format!("HARNESS unknown op {}", op))
  }
}
