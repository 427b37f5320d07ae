//! harness gen PROP SEED N OUT              write N seeded random cases
//! harness exec IN OUT PROGRESS START       run cases START.. on the real library, append observations
//! harness collect TLCOUT CASES             extract the cases the specification printed
mod cases; mod gen; mod make; mod obs; mod values;
use serde_json::Value;
use std::fs::{File, OpenOptions};
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

/// Is every part that the specification expects (field "x") what was observed? A key that is not
/// expected is not compared, and "pos" is a lower bound. What differs is left to the specification.
fn matches(got: &Value, want: &Value, len: i64) -> bool {
  match (got, want) {
    (Value::Object(g), Value::Object(w)) => w.iter().all(|(k, x)| match (k.as_str(), g.get(k)) {
      (_, None) => false,
      ("pos", Some(y)) => match (x.as_i64(), y.as_i64()) { (Some(-1), Some(p)) => p == -1, (Some(lo), Some(p)) => lo <= p && p <= len, _ => false },
      ("used", Some(y)) => { let set = |v: &Value| v.as_array().map(|a| a.iter().map(|e| e.to_string()).collect::<std::collections::BTreeSet<_>>()); set(x) == set(y) }
      (_, Some(y)) => matches(y, x, len),
    }),
    (Value::Array(g), Value::Array(w)) => g.len() == w.len() && g.iter().zip(w).all(|(y, x)| matches(y, x, len)),
    _ => got == want,
  }
}

fn exec(input: &str, output: &str, progress: &str, start: usize) {
  let cases: Vec<String> = BufReader::new(File::open(input).unwrap()).lines().map(|l| l.unwrap()).collect();
  let mut out = BufWriter::new(OpenOptions::new().create(true).append(true).open(output).unwrap());
  let prog = OpenOptions::new().create(true).write(true).open(progress).unwrap();
  let now = Arc::new(AtomicU64::new(start as u64));
  let (watch, total) = (now.clone(), cases.len() as u64);
  let limit: u64 = std::env::var("CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(30);
  std::thread::spawn(move || {
    let mut last = (u64::MAX, Instant::now());
    loop {
      std::thread::sleep(Duration::from_millis(250));
      let n = watch.load(SeqCst);
      if n >= total { return }
      if n != last.0 { last = (n, Instant::now()) } else if last.1.elapsed() > Duration::from_secs(limit) { std::process::exit(3) }
    }
  });
  for (n, line) in cases.iter().enumerate().skip(start) {
    out.flush().unwrap();
    prog.write_at(&(n as u64).to_le_bytes(), 0).unwrap();
    now.store(n as u64, SeqCst);
    let case: Value = serde_json::from_str(line).unwrap();
    let mut rec = cases::run(&case);
    if case.get("x").is_some() {
      // only what is not as expected is kept
      if matches(&rec, &case["x"], obs::text_of(&case["d"]).len() as i64) { continue }
    }
    if let Some(m) = rec.as_object_mut() { m.remove("x"); m.remove("bad"); m.remove("others"); }
    serde_json::to_writer(&mut out, &rec).unwrap();
    out.write_all(b"\n").unwrap();
  }
  out.flush().unwrap();
  now.store(total, SeqCst);
}

fn main() {
  let a: Vec<String> = std::env::args().collect();
  match a.get(1).map(|s| s.as_str()) {
    Some("gen") => {
      let mut out = BufWriter::new(File::create(&a[5]).unwrap());
      for c in make::make(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()) { serde_json::to_writer(&mut out, &c).unwrap(); out.write_all(b"\n").unwrap(); }
    }
    Some("exec") => {
      std::panic::set_hook(Box::new(|_| ()));
      let (i, o, p, s) = (a[2].clone(), a[3].clone(), a[4].clone(), a[5].parse().unwrap());
      // the stack a main thread has
      std::thread::Builder::new().stack_size(8 << 20).spawn(move || exec(&i, &o, &p, s)).unwrap().join().unwrap();
    }
    Some("collect") => {
      let mut out = BufWriter::new(File::create(&a[3]).unwrap());
      let mut n = 0u64;
      for l in BufReader::new(File::open(&a[2]).unwrap()).lines() {
        let l = l.unwrap();
        if !l.starts_with("\"{") { continue }
        let s: String = serde_json::from_str(&l).unwrap();
        out.write_all(s.as_bytes()).unwrap(); out.write_all(b"\n").unwrap();
        n += 1;
      }
      println!("{}", n);
    }
    Some("died") => { // a case that ended the process
      let mut rec: Value = serde_json::from_str(&a[2]).unwrap();
      let got = cases::died(&rec, &a[3]);
      cases::merge(&mut rec, got, a.get(4).map(|s| s == "other").unwrap_or(true));
      if let Some(m) = rec.as_object_mut() { m.remove("x"); m.remove("bad"); m.remove("others"); }
      println!("{}", rec);
    }
    _ => { eprintln!("usage: harness gen|exec|collect|died"); std::process::exit(2) }
  }
}
