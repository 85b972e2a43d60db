//! date and time expressions and patterns
use chrono::{DateTime, Datelike, FixedOffset, NaiveDate, Offset, TimeZone, Timelike, Utc};
use pact_models::generators::datetime_expressions::*;
use pact_models::generators::{GenerateValue, Generator, NoopVariantMatcher, VariantMatcher};
use pact_models::time_utils::{generate_string, validate_datetime};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::ffi::{c_int, c_long};
use std::sync::atomic::{AtomicI64, Ordering};

use crate::abs::s;
use crate::R;

fn out<T: TimeZone>(d: anyhow::Result<DateTime<T>>, secs: i32) -> R {
  let d = d.map_err(|e| e.to_string())?;
  let n = d.naive_local();
  let ms = n.time().num_seconds_from_midnight() as i64 * 1000 + n.time().nanosecond() as i64 / 1_000_000;
  Ok(json!({"v": [n.year(), n.month(), n.day(), ms], "off": d.offset().fix().local_minus_utc() == secs}))
}

fn eval<T: TimeZone>(kind: &str, d: &DateTime<T>, e: &str, secs: i32) -> R {
  out(match kind {
    "date" => execute_date_expression(d, e),
    "time" => execute_time_expression(d, e),
    _ => execute_datetime_expression(d, e)
  }, secs)
}

pub fn exec(op: &str, a: &Value) -> R {
  match op {
    "dt.expr" => {
      let n = |i: usize| a["base"][i].as_i64().unwrap_or_default();
      let ms = n(3) as u32;
      let naive = NaiveDate::from_ymd_opt(n(0) as i32, n(1) as u32, n(2) as u32)
        .and_then(|d| d.and_hms_milli_opt(ms / 3600000, ms / 60000 % 60, ms / 1000 % 60, ms % 1000))
        .ok_or("HARNESS base")?;
      let secs = a["off"].as_i64().unwrap_or_default() as i32;
      let kind = s(&a["kind"]);
      let e = s(&a["s"]);
      if secs == 0 && a["utc"] == true {
        eval(&kind, &naive.and_utc(), &e, 0)
      } else {
        let tz = FixedOffset::east_opt(secs).ok_or("HARNESS offset")?;
        eval(&kind, &tz.from_local_datetime(&naive).single().ok_or("HARNESS local")?, &e, secs)
      }
    }
    "dt.validate" => validate_datetime(&s(&a["v"]), &s(&a["p"])).map(|_| json!(null)),
    "dt.format" => {
      let p = a["p"].as_str().map(|p| p.to_string());
      let exp = a["exp"].as_str().map(|p| p.to_string());
      let (generator, key) = match s(&a["kind"]).as_str() {
        "date" => (Generator::Date(p.clone(), exp), "baseDate"),
        "time" => (Generator::Time(p.clone(), exp), "baseTime"),
        _ => (Generator::DateTime(p.clone(), exp), "baseDateTime")
      };
      let base = s(&a["base"]);
      let instant = base.parse::<DateTime<Utc>>().map_err(|e| format!("HARNESS {}", e))?;
      let via = s(&a["via"]);
      let mut context = HashMap::new();
      if via.starts_with("clock") {
        FAKE.store(instant.timestamp_nanos_opt().ok_or("HARNESS nanos")?, Ordering::SeqCst);
      } else {
        context.insert(key, json!(base));
      }
      let matcher: Box<dyn VariantMatcher + Send + Sync> = NoopVariantMatcher.boxed();
      let out = match via.as_str() {
        "value" | "clock-value" => generator.generate_value(&json!("x"), &context, &matcher).map_err(|e| e.to_string())
          .and_then(|v| v.as_str().map(|s| s.to_string()).ok_or("HARNESS not a string".to_string())),
        "clock-string" => generate_string(p.as_deref().unwrap_or_default()),
        _ => generator.generate_value(&"x".to_string(), &context, &matcher).map_err(|e| e.to_string())
      };
      FAKE.store(i64::MIN, Ordering::SeqCst);
      let out = out?;
      let valid = p.map(|p| validate_datetime(&out, &p).is_ok());
      Ok(json!({"out": out, "valid": valid}))
    }
    _ => Err(format!("HARNESS unknown op {}", op))
  }
}

/// the time the system clock shows (nanoseconds), if it is set
static FAKE: AtomicI64 = AtomicI64::new(i64::MIN);

#[repr(C)]
pub struct Timespec { sec: i64, nsec: c_long }

extern "C" { fn syscall(num: c_long, ...) -> c_long; }

/// stands in for the system clock
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut Timespec) -> c_int {
  let fake = FAKE.load(Ordering::SeqCst);
  if id == 0 && fake != i64::MIN {
    (*ts).sec = fake.div_euclid(1_000_000_000);
    (*ts).nsec = fake.rem_euclid(1_000_000_000) as c_long;
    0
  } else {
    syscall(228, id as c_long, ts) as c_int
  }
}
