//! Writers and readers of one pact file (each process runs its operations under schedule control)
use std::path::Path;

use pact_models::pact::{load_pact_from_json, read_pact, write_pact, Pact};
use serde_json::{json, Value};

use crate::R;

pub fn exec(op: &str, _a: &Value) -> R { Err(format!("HARNESS unknown op {}", op)) }

type Hook = extern "C" fn(*const std::os::raw::c_char);

extern "C" { fn dlsym(h: *mut std::ffi::c_void, s: *const std::os::raw::c_char) -> *mut std::ffi::c_void; }

fn stop(msg: String) {
  unsafe {
    let p = dlsym(std::ptr::null_mut(), b"sched_stop\0".as_ptr() as *const _);
    if !p.is_null() {
      let f: Hook = std::mem::transmute(p);
      let c = std::ffi::CString::new(msg).unwrap();
      f(c.as_ptr());
    }
  }
}

fn contents(p: &dyn Pact) -> Value {
  json!([p.consumer().name, p.interactions().iter().map(|i| i.description()).collect::<Vec<_>>()])
}

fn run_op(file: &Path, op: &Value) -> Value {
  match op["kind"].as_str().unwrap() {
    "write" => {
      let pact = match load_pact_from_json("conform", &op["pact"]) { Ok(p) => p, Err(e) => return json!(["bad", e.to_string()]) };
      let spec = pact.specification_version();
      match write_pact(pact.boxed(), file, spec, op["overwrite"].as_bool().unwrap()) {
        Ok(_) => json!(["ok"]),
        Err(e) => json!(["err", e.to_string()])
      }
    }
    "read" => match read_pact(file) {
      Ok(p) => json!(["ok", contents(p.as_ref())]),
      Err(e) => json!(["err", e.to_string()])
    },
    _ => json!(["bad", "?"])
  }
}

/// conform writer FILE OPS.json            one operation after the other, under schedule control
/// conform writer FILE OPS.json threads    all operations at once, one thread each; results on stdout
pub fn writer(args: &[String]) {
  let file = Path::new(&args[0]).to_path_buf();
  let ops: Vec<Value> = serde_json::from_reader(std::fs::File::open(&args[1]).unwrap()).unwrap();
  if args.len() > 2 {
    let hs: Vec<_> = ops.into_iter().map(|op| { let f = file.clone(); std::thread::spawn(move || run_op(&f, &op)) }).collect();
    let rs: Vec<Value> = hs.into_iter().map(|h| h.join().unwrap_or(json!(["panic"]))).collect();
    println!("{}", json!(rs));
    return;
  }
  for (i, op) in ops.iter().enumerate() {
    stop(format!("begin {}", i));
    let r = std::panic::catch_unwind(|| run_op(&file, op)).unwrap_or(json!(["panic"]));
    let s = if r[0] == "ok" { r.to_string() } else { json!([r[0]]).to_string() };
    stop(format!("end {} {}", i, s));
  }
}
