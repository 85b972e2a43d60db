//! Generators: values, documents, forms and their JSON.
use std::collections::HashMap;

use pact_models::generators::{ContentTypeHandler, GenerateValue, Generator, GeneratorTestMode, JsonHandler,
  VariantMatcher, generators_from_json, generators_to_json};
use pact_models::generators::form_urlencoded::FormUrlEncodedHandler;
use pact_models::matchingrules::MatchingRuleCategory;
use pact_models::path_exp::DocPath;
use pact_models::PactSpecification;
use serde_json::{json, Value};

use crate::abs;
use crate::R;

/// an element is the variant that its member "v" names
#[derive(Debug, Clone)]
struct ByMember;
impl VariantMatcher for ByMember {
  fn find_matching_variant(
    &self,
    value: &Value,
    variants: &Vec<(usize, MatchingRuleCategory, HashMap<DocPath, Generator>)>
  ) -> Option<(usize, HashMap<DocPath, Generator>)> {
    let v = value.as_object()?.get("v")?.as_u64()?;
    variants.iter().find(|(i, _, _)| *i as u64 == v).map(|(i, _, g)| (*i, g.clone()))
  }
  fn boxed(&self) -> Box<dyn VariantMatcher + Send + Sync> { Box::new(self.clone()) }
}

fn context(v: &Value) -> HashMap<&str, Value> {
  v.as_object().unwrap().iter().map(|(k, v)| (k.as_str(), v.clone())).collect()
}

fn mode(v: &Value) -> GeneratorTestMode {
  if v == "Provider" { GeneratorTestMode::Provider } else { GeneratorTestMode::Consumer }
}

fn res<T, F: Fn(T) -> Value>(r: anyhow::Result<T>, f: F) -> Value {
  match r { Ok(v) => json!([1, f(v)]), Err(_) => json!([0]) }
}

fn version(v: &Value) -> PactSpecification {
  match v.as_str().unwrap() {
    "V1" => PactSpecification::V1,
    "V1.1" => PactSpecification::V1_1,
    "V2" => PactSpecification::V2,
    "V3" => PactSpecification::V3,
    "V4" => PactSpecification::V4,
    _ => PactSpecification::Unknown
  }
}

pub fn exec(op: &str, a: &Value) -> R {
  match op {
    "gen.value" => {
      let g = abs::generator(&a["gen"]);
      let ctx = context(&a["ctx"]);
      let m = ByMember.boxed();
      let src = &a["src"];
      let text = src.to_string();
      let many = vec![text.clone(), "more".to_string()];
      let n = abs::n(&a["n"]);
      Ok(json!({
        "texts": (0..n).map(|_| res(GenerateValue::<String>::generate_value(&g, &text, &ctx, &m), |s| json!(s))).collect::<Vec<_>>(),
        "lists": (0..1).map(|_| res(GenerateValue::<Vec<String>>::generate_value(&g, &many, &ctx, &m), |s| json!(s))).collect::<Vec<_>>(),
        "jsons": (0..n).map(|_| res(GenerateValue::<Value>::generate_value(&g, src, &ctx, &m), |s| s)).collect::<Vec<_>>(),
        "nums": (0..n).map(|_| res(GenerateValue::<u16>::generate_value(&g, &200, &ctx, &m), |s| json!(s))).collect::<Vec<_>>(),
        "modes": [g.corresponds_to_mode(&GeneratorTestMode::Consumer), g.corresponds_to_mode(&GeneratorTestMode::Provider)]
      }))
    }
    "gen.json" => {
      let mut h = JsonHandler { value: a["doc"].clone() };
      let body = h.process_body(&abs::generator_map(&a["gens"]), &mode(&a["mode"]), &context(&a["ctx"]), &ByMember.boxed())?;
      serde_json::from_str::<Value>(body.value_as_string().unwrap_or_default().as_str()).map_err(|e| e.to_string())
    }
    "gen.form" => {
      let params = abs::arr(&a["params"]).iter().map(|p| (abs::s(&p[0]), abs::s(&p[1]))).collect();
      let mut h = FormUrlEncodedHandler { params };
      let body = h.process_body(&abs::generator_map(&a["gens"]), &mode(&a["mode"]), &context(&a["ctx"]), &ByMember.boxed())?;
      Ok(json!(body.value_as_string().unwrap_or_default()))
    }
    "gen.write" => {
      let g = abs::generators(&a["gens"]);
      let out = generators_to_json(&g, &version(&a["version"]));
      let back = generators_from_json(&json!({ "generators": out })).map_err(|e| e.to_string())?;
      let mut each = vec![];
      let mut again = vec![];
      for gens in g.categories.values() {
        for gen in gens.values().filter(|gen| gen.to_json().is_some()) {
          each.push(abs::dump_generator(gen));
          let vals: serde_json::Map<String, Value> = gen.values().iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
          again.push(Generator::create(&gen.name(), &Value::Object(vals)).map(|g| abs::dump_generator(&g)).unwrap_or_default());
        }
      }
      Ok(json!({ "json": out, "back": abs::dump_generators(&back), "each": each, "again": again }))
    }
    "gen.read" => Ok(abs::dump_generators(&generators_from_json(&a["json"]).map_err(|e| e.to_string())?)),
    _ => Err(format!("HARNESS unknown op {}", op))
  }
}
