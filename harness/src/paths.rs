use pact_models::matchingrules::MatchingRules;
use pact_models::path_exp::DocPath;
use serde_json::{json, Value};

use crate::abs::{self, arr, s};
use crate::R;

fn state(p: &DocPath) -> Value {
  json!({
    "tokens": abs::dump_tokens(p),
    "expr": p.to_string(),
    "pointer": p.as_json_pointer().ok(),
    "vec": p.to_vec(),
    "parent": p.parent().map(|p| json!([abs::dump_tokens(&p), p.to_string()])),
    "first": p.first_field(),
    "last": p.last_field(),
    "flags": [p.is_root(), p.is_wildcard()],
    "len": p.len(),
    "reparse": DocPath::new(p.to_string()).ok().map(|p| abs::dump_tokens(&p))
  })
}

pub fn exec(op: &str, a: &Value) -> R {
  match op {
    "path.parse" => {
      let p = DocPath::new(s(&a["s"])).map_err(|e| e.to_string())?;
      Ok(state(&p))
    }
    "path.build" => {
      let mut p = match &a["start"] {
        Value::String(x) if x == "root" => DocPath::root(),
        Value::String(x) if x == "empty" => DocPath::empty(),
        Value::Array(x) if x[0] == "tokens" => DocPath::from_tokens(arr(&x[1]).iter().map(abs::token).collect::<Vec<_>>()),
        x => DocPath::new(s(&x[1])).map_err(|e| e.to_string())?
      };
      let mut out = vec![state(&p)];
      for st in arr(&a["steps"]) {
        match st[0].as_str().unwrap() {
          "field" => { p.push_field(s(&st[1])); }
          "index" => { p.push_index(s(&st[1]).parse().unwrap()); }
          "star" => { p.push_star(); }
          "staridx" => { p.push_star_index(); }
          "push" => { p.push(abs::token(&st[1])); }
          "join" => { p = p.join(s(&st[1])); }
          "join_index" => { p = p.join_index(s(&st[1]).parse().unwrap()); }
          "join_field" => { p = p.join_field(s(&st[1])); }
          "push_path" => { p.push_path(&DocPath::new(s(&st[1])).map_err(|e| e.to_string())?); }
          "lower" => { p = p.to_lower_case(); }
          "drop" => { p = p.drop(st[1].as_u64().unwrap() as usize); }
          "parent" => { p = p.parent().unwrap_or(p); }
          x => return Err(format!("HARNESS step {}", x))
        }
        out.push(state(&p));
      }
      Ok(json!(out))
    }
    // which rules apply to each path, for each order of insertion
    "path.select" => {
      let name = &a["name"];
      let entries = arr(&a["entries"]);
      let mut out: Vec<Vec<String>> = vec![vec![]; arr(&a["paths"]).len()];
      for order in arr(&a["orders"]) {
        let es: Vec<Value> = arr(order).iter().map(|i| entries[i.as_u64().unwrap() as usize].clone()).collect();
        let cat = abs::category(&json!([name, es]));
        let mut all = MatchingRules::default();
        all.rules.insert(cat.name.clone(), cat.clone());
        for (k, p) in arr(&a["paths"]).iter().enumerate() {
          let frags: Vec<&str> = arr(p).iter().map(|x| x.as_str().unwrap()).collect();
          let best = cat.select_best_matcher(&frags);
          let mut res: Vec<String> = cat.resolve_matchers_for_path(&frags).rules.keys().map(|k| k.to_string()).collect();
          res.sort();
          let r = json!({
            "best": abs::dump_rule_list(&best),
            "cascaded": best.cascaded,
            "resolved": res,
            "defined": [cat.matcher_is_defined(&frags), all.matcher_is_defined(cat.name.clone(), &frags)],
            "wildcard": all.wildcard_matcher_is_defined(cat.name.clone(), &frags),
            "type": all.type_matcher_defined(cat.name.clone(), &frags),
            "body": abs::dump_rule_list(&all.resolve_body_matchers_by_path(&frags))
          }).to_string();
          if !out[k].contains(&r) { out[k].push(r); }
        }
      }
      Ok(out.into_iter().map(|v| v.into_iter().map(|s| serde_json::from_str::<Value>(&s).unwrap()).collect::<Vec<_>>()).collect())
    }
    "path.weight" => {
      let p = abs::path(&a["path"]);
      let frags: Vec<&str> = arr(&a["frags"]).iter().map(|x| x.as_str().unwrap()).collect();
      let (w, t) = p.path_weight(&frags);
      Ok(json!({"w": w.to_string(), "t": t, "m": p.matches_path(&frags), "x": p.matches_path_exactly(&frags)}))
    }
    _ => Err(format!("HARNESS unknown op {}", op))
  }
}
