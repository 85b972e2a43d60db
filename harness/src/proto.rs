//! NDJSON protocol: every input line is {"op":..., "args":{...}}, every output line is
//! {"k":"ok","v":...} | {"k":"err","v":msg} | {"k":"panic","v":msg}.
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};

type Exec = fn(&str, &Value) -> Result<Value, String>;

fn run_line(exec: Exec, v: &Value) -> Value {
  let op = v["op"].as_str().unwrap_or_default().to_string();
  match catch_unwind(AssertUnwindSafe(|| exec(&op, &v["args"]))) {
    Ok(Ok(v)) => json!({"k": "ok", "v": v}),
    Ok(Err(e)) => json!({"k": "err", "v": e}),
    Err(p) => {
      let msg = p.downcast_ref::<String>().cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".to_string());
      json!({"k": "panic", "v": msg})
    }
  }
}

/// `extra` gets the command lines this protocol does not know
pub fn main(exec: Exec, extra: fn(&[String]) -> bool) {
  let args: Vec<String> = std::env::args().collect();
  std::panic::set_hook(Box::new(|_| {}));
  match args.get(1).map(|s| s.as_str()) {
    Some("exec") => {
      let input = BufReader::new(File::open(&args[2]).expect("input"));
      let mut out = BufWriter::new(File::create(&args[3]).expect("output"));
      let flush_each = std::env::var("CONFORM_FLUSH").is_ok();
      // a big stack, so that only unbounded recursion ends the process
      let th = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        for line in input.lines() {
          let line = line.expect("line");
          if line.is_empty() { continue; }
          let v: Value = serde_json::from_str(&line).expect("json");
          let r = run_line(exec, &v);
          serde_json::to_writer(&mut out, &r).expect("write");
          out.write_all(b"\n").expect("write");
          if flush_each { out.flush().expect("flush"); }
        }
        out.flush().expect("flush");
      }).expect("thread");
      if th.join().is_err() { std::process::exit(3); }
    }
    _ => if !extra(&args[1..]) {
      eprintln!("usage: exec IN OUT");
      std::process::exit(2);
    }
  }
}
