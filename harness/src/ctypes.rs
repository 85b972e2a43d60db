//! content types, headers and bodies (ct.parse, ct.equiv, ct.detect, ct.header, ct.body, ct.part, ct.headers)
use std::collections::{BTreeMap, HashMap};
use std::convert::TryFrom;

use bytes::Bytes;
use pact_models::bodies::OptionalBody;
use pact_models::content_types::{detect_content_type_from_bytes, detect_content_type_from_string, ContentType, ContentTypeHint};
use pact_models::headers::parse_header;
use pact_models::http_parts::HttpPart;
use pact_models::message::Message;
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::message_parts::MessageContents;
use serde_json::{json, Value};

use crate::{abs, R};

/// [main, sub, suffix or null, [[name, value]..]]
pub fn ct(v: &Value) -> ContentType {
  ContentType {
    main_type: abs::s(&v[0]),
    sub_type: abs::s(&v[1]),
    suffix: v[2].as_str().map(|s| s.to_string()),
    attributes: abs::arr(&v[3]).iter().map(|a| (abs::s(&a[0]), abs::s(&a[1]))).collect::<BTreeMap<_, _>>()
  }
}

pub fn dump_ct(c: &ContentType) -> Value {
  json!([c.main_type, c.sub_type, c.suffix, c.attributes.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()])
}

pub fn dump_oct(c: Option<ContentType>) -> Value {
  c.map(|c| dump_ct(&c)).unwrap_or(Value::Null)
}

pub fn bytes(v: &Value) -> Vec<u8> {
  abs::arr(v).iter().map(|b| b.as_u64().unwrap() as u8).collect()
}

/// ["missing"] | ["empty"] | ["null"] | ["present", [byte..], ct or null, hint or ""]
pub fn body(v: &Value) -> OptionalBody {
  match v[0].as_str().unwrap() {
    "missing" => OptionalBody::Missing,
    "empty" => OptionalBody::Empty,
    "null" => OptionalBody::Null,
    _ => OptionalBody::Present(Bytes::from(bytes(&v[1])),
      if v[2].is_null() { None } else { Some(ct(&v[2])) },
      match v[3].as_str().unwrap() {
        "" => None,
        h => Some(ContentTypeHint::try_from(h).unwrap())
      })
  }
}

pub fn dump_body(b: &OptionalBody) -> Value {
  match b {
    OptionalBody::Missing => json!(["missing"]),
    OptionalBody::Empty => json!(["empty"]),
    OptionalBody::Null => json!(["null"]),
    OptionalBody::Present(b, c, h) => json!(["present", b.to_vec(), c.as_ref().map(dump_ct),
      h.map(|h| h.to_string()).unwrap_or_default()])
  }
}

/// null | [[name, [value..]]..]
pub fn headers(v: &Value) -> Option<HashMap<String, Vec<String>>> {
  v.as_array().map(|hs| hs.iter().map(|h| (abs::s(&h[0]), abs::arr(&h[1]).iter().map(abs::s).collect())).collect())
}

pub fn dump_headers(h: &Option<HashMap<String, Vec<String>>>) -> Value {
  h.as_ref().map(|h| {
    let mut hs: Vec<_> = h.iter().collect();
    hs.sort();
    hs.into_iter().map(|(k, v)| json!([k, v])).collect::<Value>()
  }).unwrap_or(Value::Null)
}

fn dump_part(p: &dyn HttpPart, own: Option<ContentType>, a: &Value) -> Value {
  let name = a["name"].as_str().unwrap_or("content-type");
  json!({
    "ct": dump_oct(p.content_type()),
    "own": dump_oct(own),
    "detected": dump_oct(p.detect_content_type()),
    "lookup": p.lookup_content_type(),
    "has": if a["kind"].as_str().unwrap().starts_with("msg") { Value::Null } else { json!([p.has_header(name), p.lookup_header_value(name)]) },
    "text": p.has_text_body()
  })
}

pub fn exec(op: &str, a: &Value) -> R {
  match op {
    "ct.parse" => {
      let s = abs::s(&a["s"]);
      Ok(match ContentType::parse(s.as_str()) {
        Err(_) => json!({ "ct": null, "from": dump_ct(&ContentType::from(s.as_str())) }),
        Ok(c) => json!({
          "ct": dump_ct(&c),
          "from": dump_ct(&ContentType::from(&s)),
          "text": c.to_string(),
          "again": dump_oct(c.to_string().parse::<ContentType>().ok()),
          "classes": [c.is_json(), c.is_xml(), c.is_strict_xml(), c.is_text(), c.is_binary(), c.is_unknown(), c.is_form_urlencoded()],
          "base": dump_ct(&c.base_type()),
          "self": c == s.as_str()
        })
      })
    }
    "ct.equiv" => {
      let (x, y) = (ct(&a["a"]), ct(&a["b"]));
      Ok(json!([x.is_equivalent_to(&y), x == y]))
    }
    "ct.detect" => {
      let b = bytes(&a["b"]);
      Ok(json!([dump_oct(detect_content_type_from_bytes(&b)),
        String::from_utf8(b).ok().map(|s| dump_oct(detect_content_type_from_string(s.as_str()))).unwrap_or(Value::Null)]))
    }
    "ct.header" => Ok(json!(parse_header(a["name"].as_str().unwrap(), a["value"].as_str().unwrap()))),
    "ct.body" => {
      let b = body(&a["body"]);
      let c = if a["ct"].is_null() { None } else { Some(ct(&a["ct"])) };
      let mut set = b.clone();
      if let Some(c) = &c { set.set_content_type(c); }
      Ok(json!({
        "text": b.value_as_string(), "display": b.display_string(), "show": b.to_string(), "ct": dump_oct(b.content_type()),
        "with": dump_body(&b.with_content_type(c.clone())), "ifnot": dump_body(&b.with_content_type_if_not_set(c.clone())),
        "set": dump_body(&set), "has": [b.is_present(), b.has_content_type()],
        "value": b.value().map(|b| b.to_vec())
      }))
    }
    "ct.from" => {
      let t = a["s"].as_str().unwrap();
      let j = serde_json::from_str::<Value>(t).ok().map(|j| json!([dump_body(&OptionalBody::from(&j)), dump_body(&OptionalBody::from(j.clone())), j.to_string()]));
      Ok(json!([dump_body(&OptionalBody::from(t)), dump_body(&OptionalBody::from(t.to_string())), j]))
    }
    "ct.part" => {
      let b = body(&a["body"]);
      let h = headers(&a["headers"]);
      let meta = || abs::arr(&a["meta"]).iter().map(|m| (abs::s(&m[0]), m[1].clone())).collect();
      Ok(match a["kind"].as_str().unwrap() {
        "req3" => dump_part(&Request { headers: h, body: b, .. Request::default() }, None, a),
        "resp3" => dump_part(&Response { headers: h, body: b, .. Response::default() }, None, a),
        "req4" => { let r = HttpRequest { headers: h, body: b, .. HttpRequest::default() }; dump_part(&r, r.content_type(), a) }
        "resp4" => { let r = HttpResponse { headers: h, body: b, .. HttpResponse::default() }; dump_part(&r, r.content_type(), a) }
        "msg3" => { let m = Message { metadata: meta(), contents: b, .. Message::default() }; dump_part(&m, m.message_content_type(), a) }
        _ => { let m = MessageContents { metadata: meta(), contents: b, .. MessageContents::default() }; dump_part(&m, m.message_content_type(), a) }
      })
    }
    "ct.headers" => {
      let ops: Vec<(String, Vec<String>)> = abs::arr(&a["ops"]).iter()
        .map(|o| (abs::s(&o[0]), abs::arr(&o[1]).iter().map(abs::s).collect())).collect();
      Ok(if a["kind"] == "req" {
        let mut r = HttpRequest { headers: headers(&a["start"]), .. HttpRequest::default() };
        for (n, v) in ops { r.set_header(n, &v); }
        json!([dump_headers(&r.headers), abs::arr(&a["ask"]).iter().map(|n| json!([r.has_header(n.as_str().unwrap()), r.lookup_header_value(n.as_str().unwrap())])).collect::<Vec<_>>()])
      } else {
        let mut r = HttpResponse { headers: headers(&a["start"]), .. HttpResponse::default() };
        for (n, v) in ops { r.set_header(n, &v); }
        json!([dump_headers(&r.headers), abs::arr(&a["ask"]).iter().map(|n| json!([r.has_header(n.as_str().unwrap()), r.lookup_header_value(n.as_str().unwrap())])).collect::<Vec<_>>()])
      })
    }
    _ => Err(format!("HARNESS unknown op {}", op))
  }
}
