//! Abstract form (plain JSON) of matching rules and generators: built from and dumped to the public
//! types of pact_models without going through its own JSON code.
use std::collections::HashMap;
use std::str::FromStr;

use pact_models::expression_parser::DataType;
use pact_models::generators::{Generator, GeneratorCategory, Generators, UuidFormat};
use pact_models::HttpStatus;
use pact_models::matchingrules::{Category, MatchingRule, MatchingRuleCategory, MatchingRules, RuleList, RuleLogic};
use pact_models::matchingrules::expressions::{MatchingReference, MatchingRuleDefinition, ValueType};
use pact_models::path_exp::{DocPath, PathToken};
use itertools::Either;
use serde_json::{json, Value};

pub fn s(v: &Value) -> String { v.as_str().unwrap_or_else(|| panic!("HARNESS string expected: {}", v)).to_string() }
pub fn n(v: &Value) -> usize { v.as_u64().unwrap_or_else(|| panic!("HARNESS number expected: {}", v)) as usize }
pub fn arr(v: &Value) -> &Vec<Value> { v.as_array().unwrap_or_else(|| panic!("HARNESS array expected: {}", v)) }
fn os(v: &Value) -> Option<String> { v.as_str().map(|s| s.to_string()) }

/// "" is the empty path; anything else is parsed; an array is a list of tokens
pub fn path(v: &Value) -> DocPath {
  match v {
    Value::String(e) => DocPath::new(e.as_str()).unwrap(),
    _ => {
      let mut p = DocPath::empty();
      for t in arr(v) { p.push(token(t)); }
      p
    }
  }
}

pub fn token(t: &Value) -> PathToken {
  match t[0].as_str().unwrap() {
    "root" => PathToken::Root,
    "field" => PathToken::Field(s(&t[1])),
    "index" => PathToken::Index(s(&t[1]).parse().unwrap()),
    "star" => PathToken::Star,
    _ => PathToken::StarIndex
  }
}

pub fn dump_token(t: &PathToken) -> Value {
  match t {
    PathToken::Root => json!(["root"]),
    PathToken::Field(f) => json!(["field", f]),
    PathToken::Index(i) => json!(["index", i.to_string()]),
    PathToken::Star => json!(["star"]),
    PathToken::StarIndex => json!(["staridx"])
  }
}

pub fn dump_tokens(p: &DocPath) -> Value { p.tokens().iter().map(dump_token).collect() }

pub fn data_type(v: &Value) -> Option<DataType> {
  match v.as_str()? {
    "STRING" => Some(DataType::STRING),
    "INTEGER" => Some(DataType::INTEGER),
    "DECIMAL" => Some(DataType::DECIMAL),
    "FLOAT" => Some(DataType::FLOAT),
    "RAW" => Some(DataType::RAW),
    "BOOLEAN" => Some(DataType::BOOLEAN),
    x => panic!("HARNESS data type {}", x)
  }
}

pub fn dump_data_type(d: &DataType) -> &'static str {
  match d {
    DataType::STRING => "STRING",
    DataType::INTEGER => "INTEGER",
    DataType::DECIMAL => "DECIMAL",
    DataType::FLOAT => "FLOAT",
    DataType::RAW => "RAW",
    DataType::BOOLEAN => "BOOLEAN"
  }
}

fn value_type(v: &Value) -> ValueType {
  match v.as_str().unwrap_or("Unknown") {
    "String" => ValueType::String,
    "Number" => ValueType::Number,
    "Integer" => ValueType::Integer,
    "Decimal" => ValueType::Decimal,
    "Boolean" => ValueType::Boolean,
    _ => ValueType::Unknown
  }
}

pub fn dump_value_type(v: &ValueType) -> &'static str {
  match v {
    ValueType::Unknown => "Unknown",
    ValueType::String => "String",
    ValueType::Number => "Number",
    ValueType::Integer => "Integer",
    ValueType::Decimal => "Decimal",
    ValueType::Boolean => "Boolean"
  }
}

pub fn status(v: &Value) -> HttpStatus {
  match v {
    Value::Array(a) => HttpStatus::StatusCodes(a.iter().map(|n| n.as_u64().unwrap() as u16).collect()),
    _ => match v.as_str().unwrap() {
      "info" => HttpStatus::Information,
      "success" => HttpStatus::Success,
      "redirect" => HttpStatus::Redirect,
      "clientError" => HttpStatus::ClientError,
      "serverError" => HttpStatus::ServerError,
      "nonError" => HttpStatus::NonError,
      _ => HttpStatus::Error
    }
  }
}

pub fn dump_status(v: &HttpStatus) -> Value {
  match v {
    HttpStatus::Information => json!("info"),
    HttpStatus::Success => json!("success"),
    HttpStatus::Redirect => json!("redirect"),
    HttpStatus::ClientError => json!("clientError"),
    HttpStatus::ServerError => json!("serverError"),
    HttpStatus::StatusCodes(c) => json!(c),
    HttpStatus::NonError => json!("nonError"),
    HttpStatus::Error => json!("error")
  }
}

pub fn def(v: &Value) -> MatchingRuleDefinition {
  MatchingRuleDefinition {
    value: s(&v[0]),
    value_type: value_type(&v[1]),
    rules: arr(&v[2]).iter().map(|r| if r[0] == "ref" {
      Either::Right(MatchingReference { name: s(&r[1]) })
    } else { Either::Left(rule(r)) }).collect(),
    generator: if v[3].is_null() { None } else { Some(generator(&v[3])) },
    expression: s(&v[4])
  }
}

pub fn dump_def(d: &MatchingRuleDefinition) -> Value {
  json!([d.value, dump_value_type(&d.value_type),
    d.rules.iter().map(|r| match r {
      Either::Left(r) => dump_rule(r),
      Either::Right(r) => json!(["ref", r.name])
    }).collect::<Vec<_>>(),
    d.generator.as_ref().map(dump_generator),
    d.expression])
}

type Variants = Vec<(usize, MatchingRuleCategory, HashMap<DocPath, Generator>)>;

fn variants(v: &Value) -> Variants {
  arr(v).iter().map(|x| (n(&x[0]), category(&x[1]), generator_map(&x[2]))).collect()
}

fn dump_variants(v: &Variants) -> Value {
  v.iter().map(|(i, c, g)| json!([i, dump_category(c), dump_generator_map(g)])).collect()
}

pub fn rule(v: &Value) -> MatchingRule {
  match v[0].as_str().unwrap() {
    "equality" => MatchingRule::Equality,
    "regex" => MatchingRule::Regex(s(&v[1])),
    "type" => MatchingRule::Type,
    "min" => MatchingRule::MinType(n(&v[1])),
    "max" => MatchingRule::MaxType(n(&v[1])),
    "minmax" => MatchingRule::MinMaxType(n(&v[1]), n(&v[2])),
    "datetime" => MatchingRule::Timestamp(s(&v[1])),
    "time" => MatchingRule::Time(s(&v[1])),
    "date" => MatchingRule::Date(s(&v[1])),
    "include" => MatchingRule::Include(s(&v[1])),
    "number" => MatchingRule::Number,
    "integer" => MatchingRule::Integer,
    "decimal" => MatchingRule::Decimal,
    "null" => MatchingRule::Null,
    "contentType" => MatchingRule::ContentType(s(&v[1])),
    "arrayContains" => MatchingRule::ArrayContains(variants(&v[1])),
    "values" => MatchingRule::Values,
    "boolean" => MatchingRule::Boolean,
    "statusCode" => MatchingRule::StatusCode(status(&v[1])),
    "notEmpty" => MatchingRule::NotEmpty,
    "semver" => MatchingRule::Semver,
    "eachKey" => MatchingRule::EachKey(def(&v[1])),
    "eachValue" => MatchingRule::EachValue(def(&v[1])),
    x => panic!("HARNESS rule {}", x)
  }
}

pub fn dump_rule(r: &MatchingRule) -> Value {
  match r {
    MatchingRule::Equality => json!(["equality"]),
    MatchingRule::Regex(s) => json!(["regex", s]),
    MatchingRule::Type => json!(["type"]),
    MatchingRule::MinType(n) => json!(["min", n]),
    MatchingRule::MaxType(n) => json!(["max", n]),
    MatchingRule::MinMaxType(n, m) => json!(["minmax", n, m]),
    MatchingRule::Timestamp(s) => json!(["datetime", s]),
    MatchingRule::Time(s) => json!(["time", s]),
    MatchingRule::Date(s) => json!(["date", s]),
    MatchingRule::Include(s) => json!(["include", s]),
    MatchingRule::Number => json!(["number"]),
    MatchingRule::Integer => json!(["integer"]),
    MatchingRule::Decimal => json!(["decimal"]),
    MatchingRule::Null => json!(["null"]),
    MatchingRule::ContentType(s) => json!(["contentType", s]),
    MatchingRule::ArrayContains(v) => json!(["arrayContains", dump_variants(v)]),
    MatchingRule::Values => json!(["values"]),
    MatchingRule::Boolean => json!(["boolean"]),
    MatchingRule::StatusCode(s) => json!(["statusCode", dump_status(s)]),
    MatchingRule::NotEmpty => json!(["notEmpty"]),
    MatchingRule::Semver => json!(["semver"]),
    MatchingRule::EachKey(d) => json!(["eachKey", dump_def(d)]),
    MatchingRule::EachValue(d) => json!(["eachValue", dump_def(d)])
  }
}

pub fn logic(v: &Value) -> RuleLogic { if v == "OR" { RuleLogic::Or } else { RuleLogic::And } }

pub fn rule_list(l: &Value, rs: &Value) -> RuleList {
  let mut list = RuleList::empty(logic(l));
  list.rules = arr(rs).iter().map(rule).collect();
  list
}

pub fn dump_rule_list(l: &RuleList) -> Value {
  json!([match l.rule_logic { RuleLogic::And => "AND", RuleLogic::Or => "OR" },
    l.rules.iter().map(dump_rule).collect::<Vec<_>>()])
}

/// [name, [[path, combine, [rule..]]..]], inserted in the order given
pub fn category(v: &Value) -> MatchingRuleCategory {
  let mut c = MatchingRuleCategory::empty(Category::from_str(v[0].as_str().unwrap()).unwrap());
  for e in arr(&v[1]) { c.rules.insert(path(&e[0]), rule_list(&e[1], &e[2])); }
  c
}

pub fn dump_category(c: &MatchingRuleCategory) -> Value {
  let mut es: Vec<_> = c.rules.iter().map(|(k, l)| {
    let l = dump_rule_list(l);
    (k.to_string(), json!([k.to_string(), l[0], l[1], dump_tokens(k)]))
  }).collect();
  es.sort_by(|a, b| a.0.cmp(&b.0));
  json!([c.name.to_string(), es.into_iter().map(|e| e.1).collect::<Vec<_>>()])
}

pub fn rules(v: &Value) -> MatchingRules {
  let mut m = MatchingRules::default();
  for c in arr(v) {
    let c = category(c);
    m.rules.insert(c.name.clone(), c);
  }
  m
}

/// empty categories mean the same as absent ones
pub fn dump_rules(m: &MatchingRules) -> Value {
  let mut cs: Vec<_> = m.rules.iter().filter(|(_, c)| !c.rules.is_empty())
    .map(|(k, c)| (k.to_string(), dump_category(c))).collect();
  cs.sort_by(|a, b| a.0.cmp(&b.0));
  cs.into_iter().map(|e| e.1).collect()
}

pub fn generator(v: &Value) -> Generator {
  let i = |k: usize| v[k].as_i64().unwrap();
  match v[0].as_str().unwrap() {
    "RandomInt" => Generator::RandomInt(i(1) as i32, i(2) as i32),
    "Uuid" => Generator::Uuid(v[1].as_str().map(|f| match f {
      "simple" => UuidFormat::Simple,
      "lower-case-hyphenated" => UuidFormat::LowerCaseHyphenated,
      "upper-case-hyphenated" => UuidFormat::UpperCaseHyphenated,
      "URN" => UuidFormat::Urn,
      x => panic!("HARNESS uuid {}", x)
    })),
    "RandomDecimal" => Generator::RandomDecimal(i(1) as u16),
    "RandomHexadecimal" => Generator::RandomHexadecimal(i(1) as u16),
    "RandomString" => Generator::RandomString(i(1) as u16),
    "Regex" => Generator::Regex(s(&v[1])),
    "Date" => Generator::Date(os(&v[1]), os(&v[2])),
    "Time" => Generator::Time(os(&v[1]), os(&v[2])),
    "DateTime" => Generator::DateTime(os(&v[1]), os(&v[2])),
    "RandomBoolean" => Generator::RandomBoolean,
    "ProviderState" => Generator::ProviderStateGenerator(s(&v[1]), data_type(&v[2])),
    "MockServerURL" => Generator::MockServerURL(s(&v[1]), s(&v[2])),
    "ArrayContains" => Generator::ArrayContains(variants(&v[1])),
    x => panic!("HARNESS generator {}", x)
  }
}

pub fn dump_generator(g: &Generator) -> Value {
  match g {
    Generator::RandomInt(a, b) => json!(["RandomInt", a, b]),
    Generator::Uuid(f) => json!(["Uuid", f.as_ref().map(|f| match f {
      UuidFormat::Simple => "simple",
      UuidFormat::LowerCaseHyphenated => "lower-case-hyphenated",
      UuidFormat::UpperCaseHyphenated => "upper-case-hyphenated",
      UuidFormat::Urn => "URN"
    })]),
    Generator::RandomDecimal(n) => json!(["RandomDecimal", n]),
    Generator::RandomHexadecimal(n) => json!(["RandomHexadecimal", n]),
    Generator::RandomString(n) => json!(["RandomString", n]),
    Generator::Regex(r) => json!(["Regex", r]),
    Generator::Date(f, e) => json!(["Date", f, e]),
    Generator::Time(f, e) => json!(["Time", f, e]),
    Generator::DateTime(f, e) => json!(["DateTime", f, e]),
    Generator::RandomBoolean => json!(["RandomBoolean"]),
    Generator::ProviderStateGenerator(e, d) => json!(["ProviderState", e, d.as_ref().map(dump_data_type)]),
    Generator::MockServerURL(e, r) => json!(["MockServerURL", e, r]),
    Generator::ArrayContains(v) => json!(["ArrayContains", dump_variants(v)])
  }
}

pub fn generator_map(v: &Value) -> HashMap<DocPath, Generator> {
  arr(v).iter().map(|e| (path(&e[0]), generator(&e[1]))).collect()
}

pub fn dump_generator_map(m: &HashMap<DocPath, Generator>) -> Value {
  let mut es: Vec<_> = m.iter().map(|(k, g)| (k.to_string(), json!([k.to_string(), dump_generator(g), dump_tokens(k)]))).collect();
  es.sort_by(|a, b| a.0.cmp(&b.0));
  es.into_iter().map(|e| e.1).collect()
}

/// [[category, [[path, generator]..]]..]
pub fn generators(v: &Value) -> Generators {
  let mut g = Generators::default();
  for c in arr(v) {
    g.categories.insert(GeneratorCategory::from_str(c[0].as_str().unwrap()).unwrap(), generator_map(&c[1]));
  }
  g
}

pub fn dump_generators(g: &Generators) -> Value {
  let mut cs: Vec<_> = g.categories.iter().filter(|(_, m)| !m.is_empty()).map(|(k, m)| {
    let name: String = k.clone().into();
    (name.clone(), json!([name, dump_generator_map(m)]))
  }).collect();
  cs.sort_by(|a, b| a.0.cmp(&b.0));
  cs.into_iter().map(|e| e.1).collect()
}
