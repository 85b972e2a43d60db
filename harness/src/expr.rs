//! provider state expressions
use std::collections::HashMap;
use std::convert::TryFrom;
use std::fmt::Write;

use pact_models::expression_parser::*;
use pact_models::generators::{generate_value_from_context, GenerateValue, Generator, NoopVariantMatcher, VariantMatcher};
use serde_json::{json, Value};

use crate::abs::{arr, data_type, s};
use crate::R;

fn res<T, E>(r: Result<T, E>, f: impl Fn(T) -> Value) -> Value {
  match r {
    Ok(v) => json!([1, f(v)]),
    Err(_) => json!([0])
  }
}

pub fn exec(op: &str, a: &Value) -> R {
  match op {
    "expr.type" => {
      let dt = DataType::from(a["s"].clone());
      let out: Value = dt.into();
      let back: Value = DataType::from(out.clone()).into();
      Ok(json!([out, back]))
    }
    "expr.eval" => {
      let text = s(&a["s"]);
      let dt = data_type(&a["dt"]);
      let values: HashMap<String, Value> = arr(&a["ctx"]).iter().map(|e| (s(&e[0]), e[1].clone())).collect();
      let ctx: HashMap<&str, Value> = values.iter().map(|(k, v)| (k.as_str(), v.clone())).collect();
      let parsed = parse_expression(&text, &MapValueResolver { context: ctx.clone() });
      let value = generate_value_from_context(&text, &ctx, &dt);
      let gctx: HashMap<&str, Value> = if a["nested"] == true {
        HashMap::from([("providerState", json!(values)), ("mockServer", json!({"url": "http://x"}))])
      } else { ctx.clone() };
      let gen = Generator::ProviderStateGenerator(text.clone(), dt);
      let m: Box<dyn VariantMatcher + Send + Sync> = NoopVariantMatcher {}.boxed();
      let gjson: anyhow::Result<Value> = gen.generate_value(&json!("x"), &gctx, &m);
      let gtext: anyhow::Result<String> = gen.generate_value(&"x".to_string(), &gctx, &m);
      let gu16: anyhow::Result<u16> = gen.generate_value(&200u16, &gctx, &m);
      let conv = |f: &dyn Fn(DataValue) -> Value| match &value {
        Ok(v) => f(v.clone()),
        Err(_) => json!([0])
      };
      Ok(json!({
        "contains": contains_expressions(&text),
        "parsed": res(parsed, |v| v),
        "wrapped": conv(&|v| json!([1, v.wrapped])),
        "json": conv(&|v| res(v.as_json(), |j| j)),
        "text": conv(&|v| { let mut t = String::new(); res(write!(t, "{}", v).map(|_| t), |t| json!(t)) }),
        "u16": conv(&|v| res(u16::try_from(v), |n| json!(n.to_string()))),
        "u64": conv(&|v| res(u64::try_from(v), |n| json!(n.to_string()))),
        "i64": conv(&|v| res(i64::try_from(v), |n| json!(n.to_string()))),
        "f64": conv(&|v| res(f64::try_from(v), |n| json!(n.to_string()))),
        "bool": conv(&|v| res(bool::try_from(v), |n| json!(n as u8))),
        "gjson": res(gjson, |v| v), "gtext": res(gtext, |v| json!(v)), "gu16": res(gu16, |n| json!(n.to_string()))
      }))
    }
    _ => Err(format!("HARNESS unknown op {}", op))
  }
}
