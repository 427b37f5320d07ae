//! Runs one recorded or generated case on the real library and returns what was observed.
use crate::obs::{self, *};
use dockerfile_parser::*;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::convert::TryFrom;
use std::io::{self, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn field<'a>(v: &'a Value, k: &str) -> &'a Value { v.get(k).unwrap_or(&Value::Null) }
pub fn list(v: &Value) -> &[Value] { v.as_array().map(|a| a.as_slice()).unwrap_or(&[]) }
pub fn int(v: &Value) -> usize { v.as_u64().unwrap_or(0) as usize }
pub fn texts(v: &Value) -> Vec<String> { list(v).iter().map(text_of).collect() }
fn span(v: &Value) -> Span { Span::new(int(&v[0]), int(&v[1])) }
fn raw_doc(s: &str) -> Dockerfile { Dockerfile { content: s.to_string(), global_args: vec![], instructions: vec![] } }

/// A reader that follows a schedule and logs what it did.
/// n > 0: deliver at most n bytes; 0: end of input; -1: interrupted; -2 - k: failure of kind k
struct Scheduled<'a> { bytes: &'a [u8], at: usize, sched: Vec<i64>, step: usize, log: &'a mut Vec<Value> }
pub const FAILS: &[io::ErrorKind] = &[io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::InvalidData,
  io::ErrorKind::TimedOut, io::ErrorKind::BrokenPipe, io::ErrorKind::ConnectionReset, io::ErrorKind::NotFound, io::ErrorKind::PermissionDenied, io::ErrorKind::InvalidInput];
impl<'a> Read for Scheduled<'a> {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    let what = if self.step < self.sched.len() { self.sched[self.step] } else { i64::MAX };
    self.step += 1;
    let left = self.bytes.len() - self.at;
    if what == -1 { self.log.push(json!(-1)); return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")) }
    if what < -1 { self.log.push(json!(what)); return Err(io::Error::new(FAILS[((-2 - what) as usize) % FAILS.len()], "failure")) }
    if buf.is_empty() { self.step -= 1; return Ok(0) }
    if what == 0 && left > 0 { self.step -= 1; self.sched.remove(self.step); return self.read(buf) }
    let n = (what as u64).min(left as u64).min(buf.len() as u64) as usize;
    buf[..n].copy_from_slice(&self.bytes[self.at..self.at + n]);
    self.at += n;
    self.log.push(json!(n));
    Ok(n)
  }
}

/// A reader that goes through its schedule again and again.
struct Cyclic<'a> { bytes: &'a [u8], sched: &'a [i64], fail: i64, st: &'a mut (usize, usize, bool) }
impl<'a> Read for Cyclic<'a> {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    let what = if self.sched.is_empty() { i64::MAX } else { self.sched[self.st.1 % self.sched.len()] };
    self.st.1 += 1;
    if what < 0 { return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")) }
    let stop = if self.fail >= 0 { self.fail as usize } else { self.bytes.len() };
    let left = stop.min(self.bytes.len()) - self.st.0;
    if left == 0 && self.fail >= 0 { return Err(io::Error::new(io::ErrorKind::Other, "failure")) }
    let n = (what.max(1) as u64).min(left as u64).min(buf.len() as u64) as usize;
    if n == 0 && !buf.is_empty() { self.st.2 = true }
    buf[..n].copy_from_slice(&self.bytes[self.st.0..self.st.0 + n]);
    self.st.0 += n;
    Ok(n)
  }
}

/// A parse that panics is an observation of its own: what else the case does is then not looked at.
pub struct Parsed(pub Option<Result<Dockerfile>>);
impl Parsed {
  pub fn of(d: &str) -> Parsed { Parsed(catch_unwind(AssertUnwindSafe(|| Dockerfile::parse(d))).ok()) }
  pub fn doc(&self) -> Option<&Dockerfile> { match &self.0 { Some(Ok(d)) => Some(d), _ => None } }
  pub fn outcome(&self, d: &str) -> Value { match &self.0 { Some(r) => outcome(d, r), None => panicked() } }
}

fn same_outcome(a: &Result<Dockerfile>, b: &Result<Dockerfile>) -> bool {
  match (a, b) { (Ok(x), Ok(y)) => x == y && x.content == y.content, (Err(x), Err(y)) => format!("{:?}", x) == format!("{:?}", y), _ => false }
}

fn stage_parent(p: &StageParent) -> Value {
  match p {
    StageParent::Image(i) => json!({"t": "image", "im": cp(&i.to_string()), "ref": [image(i)], "ix": -1, "sh": cp(&p.to_string())}),
    StageParent::Stage(n) => json!({"t": "stage", "im": [], "ref": [], "ix": n, "sh": cp(&p.to_string())}),
    StageParent::Scratch => json!({"t": "scratch", "im": [], "ref": [], "ix": -1, "sh": cp(&p.to_string())}),
  }
}
fn stage(d: &Dockerfile, s: &Stage) -> Value {
  let ins: Vec<Value> = s.instructions.iter().map(|i| json!(d.instructions.iter().position(|x| std::ptr::eq(x, *i)).or_else(|| d.instructions.iter().position(|x| x == *i)).map(|p| p as i64 + 1).unwrap_or(0))).collect();
  json!({"ix": s.index, "nm": opt(s.name.as_deref().map(cp)), "ins": ins, "pa": stage_parent(&s.parent), "ro": stage_parent(&s.root)})
}

/// Spans of the replaceable leaf items of a document.
pub fn items(d: &Dockerfile) -> Vec<(usize, &'static str, usize, Span)> {
  let mut v = Vec::new();
  let text = |v: &mut Vec<(usize, &'static str, usize, Span)>, i, name: &'static str, b: &BreakableString| {
    for (j, c) in b.components.iter().enumerate() { if let BreakableStringComponent::String(s) = c { v.push((i, name, j + 1, s.span)) } }
  };
  for (n, ins) in d.instructions.iter().enumerate() {
    let i = n + 1;
    match ins {
      Instruction::From(f) => { for (j, x) in f.flags.iter().enumerate() { v.push((i, "flag", j + 1, x.value.span)) } v.push((i, "image", 1, f.image.span)); if let Some(a) = &f.alias { v.push((i, "alias", 1, a.span)) } },
      Instruction::Arg(a) => { v.push((i, "name", 1, a.name.span)); if let Some(x) = &a.value { v.push((i, "value", 1, x.span)) } },
      Instruction::Label(l) => for (j, x) in l.labels.iter().enumerate() { v.push((i, "name", j + 1, x.name.span)); v.push((i, "value", j + 1, x.value.span)) },
      Instruction::Env(e) => for (j, x) in e.vars.iter().enumerate() { v.push((i, "name", j + 1, x.key.span)); if x.value.components.len() == 1 { v.push((i, "value", j + 1, x.value.span)) } else { text(&mut v, i, "piece", &x.value) } },
      Instruction::Copy(c) => { for (j, x) in c.flags.iter().enumerate() { v.push((i, "flag", j + 1, x.value.span)) } for (j, x) in c.sources.iter().enumerate() { v.push((i, "path", j + 1, x.span)) } v.push((i, "path", c.sources.len() + 1, c.destination.span)) },
      Instruction::Run(RunInstruction { expr, .. }) | Instruction::Cmd(CmdInstruction { expr, .. }) | Instruction::Entrypoint(EntrypointInstruction { expr, .. }) => match expr {
        ShellOrExecExpr::Shell(b) => text(&mut v, i, "piece", b),
        ShellOrExecExpr::Exec(a) => for (j, x) in a.elements.iter().enumerate() { v.push((i, "elem", j + 1, x.span)) },
      },
      Instruction::Misc(m) => { v.push((i, "misc", 1, m.instruction.span)); text(&mut v, i, "piece", &m.arguments) },
    }
  }
  v
}

/// Which accessors and conversions succeed, and whether they give the payload back.
fn typed(ins: &Instruction) -> Value {
  let mut by_ref: Vec<&str> = vec![];
  let mut owned: Vec<&str> = vec![];
  let mut conv: Vec<&str> = vec![];
  let mut errs = true;
  let mut back = true;       // what was returned makes an equal instruction again
  let mut spans = true;
  macro_rules! acc { ($k:expr, $as:ident, $into:ident, $variant:ident) => {
    if let Some(p) = ins.$as() { by_ref.push($k); back &= Instruction::from(p.clone()) == *ins; spans &= p.span == ins.span();
      if let Instruction::$variant(q) = ins { back &= p == q } else { back = false } }
    if let Some(p) = ins.clone().$into() { owned.push($k); spans &= p.span == ins.span(); back &= Instruction::from(p) == *ins; }
  } }
  acc!("FROM", as_from, into_from, From); acc!("ARG", as_arg, into_arg, Arg); acc!("LABEL", as_label, into_label, Label);
  acc!("RUN", as_run, into_run, Run); acc!("ENTRYPOINT", as_entrypoint, into_entrypoint, Entrypoint); acc!("CMD", as_cmd, into_cmd, Cmd);
  acc!("COPY", as_copy, into_copy, Copy); acc!("ENV", as_env, into_env, Env); acc!("MISC", as_misc, into_misc, Misc);
  macro_rules! conv { ($k:expr, $t:ty, $e:expr) => { match <&$t>::try_from(ins) {
      Ok(p) => { conv.push($k); back &= Instruction::from(p.clone()) == *ins }
      Err(e) => errs &= matches!(e, Error::ConversionError { to, .. } if to == stringify!($t)) } } }
  conv!("FROM", FromInstruction, 0); conv!("ARG", ArgInstruction, 0); conv!("LABEL", LabelInstruction, 0); conv!("RUN", RunInstruction, 0);
  conv!("CMD", CmdInstruction, 0); conv!("COPY", CopyInstruction, 0); conv!("ENV", EnvInstruction, 0); conv!("MISC", MiscInstruction, 0);
  match EntrypointInstruction::try_from(ins.clone()) {
    Ok(p) => { conv.push("ENTRYPOINT"); back &= Instruction::from(p) == *ins }
    Err(e) => errs &= matches!(e, Error::ConversionError { to, .. } if to == "EntrypointInstruction") }
  // shell and exec accessors
  let mut forms: Vec<Value> = vec![];
  macro_rules! forms { ($c:expr) => {{
    let c = $c;
    let e = &c.expr;
    let eq = c.as_shell() == e.as_shell() && c.as_exec() == e.as_exec()
      && c.clone().into_shell().as_ref() == e.as_shell() && c.clone().into_exec().as_ref() == e.as_exec()
      && e.clone().into_shell().as_ref() == e.as_shell() && e.clone().into_exec().as_ref() == e.as_exec()
      && match e { ShellOrExecExpr::Shell(b) => e.as_shell() == Some(b), ShellOrExecExpr::Exec(a) => e.as_exec() == Some(a) && a.as_str_vec() == a.elements.iter().map(|x| x.content.as_str()).collect::<Vec<_>>() };
    forms.push(json!({"ish": c.as_shell().is_some(), "iex": c.as_exec().is_some(), "osh": c.clone().into_shell().is_some(), "oex": c.clone().into_exec().is_some(),
      "esh": e.as_shell().is_some(), "eex": e.as_exec().is_some(), "eq": eq}));
  }} }
  match ins { Instruction::Run(c) => forms!(c), Instruction::Cmd(c) => forms!(c), Instruction::Entrypoint(c) => forms!(c), _ => () }
  let k = instruction(ins);
  let form = k.get("form").cloned().unwrap_or(json!(""));
  json!({"k": k["k"], "form": form, "by_ref": by_ref, "owned": owned, "conv": conv, "errs": errs, "back": back, "spans": spans,
         "sp": sp(&ins.span()), "psp": k["sp"], "forms": forms})
}

fn run_inner(case: &Value) -> Value {
  let t = case["t"].as_str().unwrap_or("p");
  // lines in front of the text, which change nothing but positions
  let pad = field(case, "pad");
  let front = text_of(field(pad, "u")).repeat(int(field(pad, "n"))) + &text_of(field(pad, "z"));
  set_front(front.len());
  let d = front.clone() + &text_of(field(case, "d"));
  let tail = |s: &str| cp(s.strip_prefix(front.as_str()).unwrap_or(s));
  match t {
    "p" => json!({"o": outcome(&d, &Dockerfile::parse(&d))}),
    // all entry points, other documents parsed in between, another thread
    "e" => {
      let first = Dockerfile::parse(&d);
      let o = outcome(&d, &first);
      let from_str = d.parse::<Dockerfile>();
      let reader = Dockerfile::from_reader(d.as_bytes());
      let chunk = int(field(case, "n")).max(1) as i64;
      let mut log = vec![];
      let chunked = Dockerfile::from_reader(Scheduled { bytes: d.as_bytes(), at: 0, sched: vec![chunk; d.len().min(2000) + 1], step: 0, log: &mut log });
      for other in texts(field(case, "others")) { let _ = Dockerfile::parse(&other); }
      let again = Dockerfile::parse(&d);
      let d2 = d.clone();
      let thread = std::thread::spawn(move || Dockerfile::parse(&d2)).join();
      let thread_ok = match &thread { Ok(r) => same_outcome(&first, r), Err(_) => false };
      let mut eq = vec![same_outcome(&first, &from_str), same_outcome(&first, &reader), same_outcome(&first, &chunked), same_outcome(&first, &again), thread_ok];
      let others = texts(field(case, "others"));
      if !others.is_empty() {
        // a read of the same text that failed half-way, then another read
        let half = d.as_bytes()[..d.len() / 2].to_vec();
        let _ = Dockerfile::from_reader(Scheduled { bytes: &half, at: 0, sched: vec![chunk, -2], step: 0, log: &mut vec![] });
        let _ = Dockerfile::from_reader(&[0x46u8, 0xff][..]);
        eq.push(same_outcome(&first, &Dockerfile::from_reader(d.as_bytes())));
        // each of the others through a reader, and the text right after it
        for o in &others { let _ = Dockerfile::from_reader(o.as_bytes()); eq.push(same_outcome(&first, &Dockerfile::from_reader(d.as_bytes()))); let _ = o.parse::<Dockerfile>(); eq.push(same_outcome(&first, &d.parse())) }
        // at the same time as the others
        let runs: Vec<_> = (0..6).map(|k| { let t = if k % 2 == 0 { d.clone() } else { others[k / 2 % others.len()].clone() };
          std::thread::spawn(move || { let mut rs = vec![]; for _ in 0..3 { rs.push(Dockerfile::parse(&t)) } rs }) }).collect();
        for (k, h) in runs.into_iter().enumerate() {
          let got = h.join();
          if k % 2 == 0 { eq.push(match got { Ok(rs) => rs.iter().all(|r| same_outcome(&first, r)), Err(_) => false }) }
        }
      }
      json!({"o": o, "eq": eq})
    }
    // large documents: a unit repeated between a head and a tail
    "big" => {
      let s = format!("{}{}{}", text_of(field(case, "h")), text_of(field(case, "u")).repeat(int(field(case, "n"))), text_of(field(case, "z")));
      let summary = |s: &str| match Parsed::of(s).0 {
        Some(Ok(x)) => json!({"r": "ok", "same": x.content == s, "pos": -1, "facts": facts(&x)}),
        Some(Err(e)) => json!({"r": error_kind(&e), "same": true, "pos": error_pos(&e), "facts": []}),
        None => json!({"r": "panic", "same": true, "pos": -1, "facts": []}),
      };
      let mut a = summary(&s);
      let first = Parsed::of(&s).0;
      let whole = |r: std::thread::Result<Result<Dockerfile>>| match (&first, r) { (Some(x), Ok(y)) => same_outcome(x, &y), _ => false };
      let mut eq = vec![];
      if int(field(case, "n")) < 40000 {
        eq.push(whole(catch_unwind(AssertUnwindSafe(|| s.parse::<Dockerfile>()))));
        eq.push(whole(catch_unwind(AssertUnwindSafe(|| Dockerfile::from_reader(s.as_bytes())))));
      }
      // the same on a thread with the usual, smaller stack
      let b = std::thread::Builder::new().stack_size(2 << 20).spawn(move || summary(&s)).unwrap().join().unwrap();
      eq.push(a == b);
      a["eq"] = json!(eq);
      a
    }
    // large inputs through a reader: pieces of the sizes in sc, over and over, with a failure at byte "fail" (or none)
    "bigr" => {
      let part = |k| -> Vec<u8> { list(field(case, k)).iter().map(|x| int(x) as u8).collect() };
      let mut bytes = part("h");
      let u = part("u");
      for _ in 0..int(field(case, "n")) { bytes.extend_from_slice(&u) }
      bytes.extend_from_slice(&part("z"));
      let sched: Vec<i64> = list(field(case, "sc")).iter().map(|x| x.as_i64().unwrap_or(1)).collect();
      let fail = field(case, "fail").as_i64().unwrap_or(-1);
      let mut st = (0usize, 0usize, false);
      let r = Parsed(catch_unwind(AssertUnwindSafe(|| Dockerfile::from_reader(Cyclic { bytes: &bytes, sched: &sched, fail, st: &mut st }))).ok());
      let eq = match std::str::from_utf8(&bytes) { Ok(s) => match (&r.0, &Parsed::of(s).0) { (Some(a), Some(b)) => same_outcome(a, b), (None, None) => true, _ => false }, Err(_) => false };
      let kind = match &r.0 { Some(Ok(_)) => "ok", Some(Err(e)) => error_kind(e), None => "panic" };
      json!({"r": kind, "eq": eq, "got": st.0, "ended": st.2, "utf8": std::str::from_utf8(&bytes).is_ok()})
    }
    "r" => {
      let bytes: Vec<u8> = list(field(case, "b")).iter().map(|x| int(x) as u8).collect();
      let sched: Vec<i64> = list(field(case, "sc")).iter().map(|x| x.as_i64().unwrap_or(0)).collect();
      let mut log = vec![];
      let r = Parsed(catch_unwind(AssertUnwindSafe(|| Dockerfile::from_reader(Scheduled { bytes: &bytes, at: 0, sched, step: 0, log: &mut log }))).ok());
      let (o, eq) = match std::str::from_utf8(&bytes) {
        Ok(s) => (r.outcome(s), match (&r.0, &Parsed::of(s).0) { (Some(a), Some(b)) => same_outcome(a, b), (None, None) => true, _ => false }),
        Err(_) => (r.outcome(""), false),
      };
      let content = r.doc().map(|x| cp(&x.content)).unwrap_or(json!([]));
      json!({"log": log, "o": o, "eq": eq, "content": content})
    }
    "rel" => {
      let doc = raw_doc(&d);
      let mut spans: Vec<Span> = list(field(case, "sp")).iter().map(span).collect();
      if field(case, "only").as_bool() != Some(true) { if let Some(p) = Parsed::of(&d).doc() { for (_, _, _, s) in items(p) { spans.push(s) } for i in &p.instructions { spans.push(i.span()) } } }
      spans.truncate(40);
      json!({"rel": spans.iter().map(|s| { let (l, r) = s.relative_span(&doc); json!({"sp": sp(s), "line": l, "rs": sp(&r)}) }).collect::<Vec<_>>()})
    }
    // a span of a long text: sp counts from where the tail z begins
    "bigrel" => {
      let front = text_of(field(case, "h")) + &text_of(field(case, "u")).repeat(int(field(case, "n")));
      let base = front.len();
      let doc = raw_doc(&(front + &text_of(field(case, "z"))));
      let s = span(field(case, "sp"));
      let (l, r) = Span::new(base + s.start, base + s.end).relative_span(&doc);
      json!({"line": l, "rs": sp(&r)})
    }
    "pair" => {
      let d2 = text_of(field(case, "d2"));
      json!({"o": Parsed::of(&d).outcome(&d), "o2": Parsed::of(&d2).outcome(&d2)})
    }
    // a text cut in two at each of some places, and its instructions alone
    "cat" => {
      let whole = Parsed::of(&d);
      let chars: Vec<usize> = d.char_indices().map(|(i, _)| i).chain(std::iter::once(d.len())).collect();
      let one = |s: &str| { let n = obs::front(); set_front(0); let v = Parsed::of(s).outcome(s); set_front(n as usize); v };
      let lines = front.chars().count();
      let parts: Vec<Value> = list(field(case, "cuts")).iter().map(|c| { let at = chars[(lines + int(c)).min(chars.len() - 1)]; json!([Parsed::of(&d[..at]).outcome(&d[..at]), one(&d[at..])]) }).collect();
      let alone: Vec<Value> = whole.doc().map(|x| x.instructions.iter().map(|i| d.get(i.span().start..i.span().end).map(|s| one(s)).unwrap_or(json!({"r": "none", "ins": [], "ga": [], "pos": -1, "same": true}))).collect()).unwrap_or_default();
      json!({"o": whole.outcome(&d), "parts": parts, "alone": alone})
    }
    "val" => crate::values::val(case),
    "eqs" => crate::values::eqs(&d, &text_of(field(case, "d2"))),
    "img" => {
      let r = ImageRef::parse(&d);
      let shown = r.to_string();
      json!({"ref": image(&r), "shown": cp(&shown), "again": image(&ImageRef::parse(&shown)), "shown2": cp(&ImageRef::parse(&shown).to_string())})
    }
    "sub" => {
      let vars: Vec<(String, String)> = list(field(case, "vars")).iter().map(|p| (text_of(&p[0]), text_of(&p[1]))).collect();
      let map: HashMap<&str, &str> = vars.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
      let mut used: HashSet<String> = texts(field(case, "used0")).into_iter().collect();
      let res = substitute(&d, &map, &mut used, int(field(case, "depth")).min(255) as u8);
      let mut u: Vec<String> = used.into_iter().collect();
      u.sort();
      json!({"res": opt(res.as_deref().map(cp)), "used": u.iter().map(|s| cp(s)).collect::<Vec<_>>()})
    }
    // resolution against a document, and lookup of global arguments
    "res" => {
      let r = Parsed::of(&d);
      let o = r.outcome(&d);
      let (mut res, mut gets) = (vec![], vec![]);
      if let Some(doc) = r.doc() {
        let mut refs: Vec<ImageRef> = doc.instructions.iter().filter_map(|i| i.as_from()).map(|f| f.image_parsed.clone()).collect();
        for s in texts(field(case, "refs")) { refs.push(ImageRef::parse(&s)) }
        for x in refs {
          let with = x.resolve_vars_with_context(doc);
          let plain = x.resolve_vars(doc);
          let mut u: Vec<String> = with.as_ref().map(|w| w.1.iter().cloned().collect()).unwrap_or_default();
          u.sort();
          res.push(json!({"from": cp(&x.to_string()), "got": opt(with.as_ref().map(|w| image(&w.0))), "used": u.iter().map(|s| cp(s)).collect::<Vec<_>>(), "plain": opt(plain.as_ref().map(image))}));
        }
        for n in texts(field(case, "names")) { gets.push(json!({"n": cp(&n), "got": opt(doc.get_global_arg(&n).map(arg))})) }
      }
      json!({"o": o, "res": res, "gets": gets})
    }
    "stg" => {
      let r = Parsed::of(&d);
      let o = r.outcome(&d);
      let (mut st, mut ways, mut by_name, mut by_str, mut args) = (vec![], vec![], vec![], vec![], vec![]);
      if let Some(doc) = r.doc() {
        let stages = doc.stages();
        st = stages.stages.iter().map(|s| stage(doc, s)).collect::<Vec<_>>();
        ways.push(doc.iter_stages().map(|s| stage(doc, &s)).collect::<Vec<_>>() == st);
        ways.push(Stages::new(doc).into_iter().map(|s| stage(doc, &s)).collect::<Vec<_>>() == st);
        ways.push(stages.iter().map(|s| stage(doc, s)).collect::<Vec<_>>() == st);
        ways.push((0..stages.stages.len()).map(|i| stage(doc, &stages[i])).collect::<Vec<_>>() == st);
        ways.push(stages.stages.windows(2).all(|w| w[0] < w[1] && w[0] != w[1]));
        let place = |s: Option<&Stage>| opt(s.map(|s| json!(stages.stages.iter().position(|x| std::ptr::eq(x, s)).map(|p| p as i64).unwrap_or(-1))));
        for q in texts(field(case, "q")) {
          by_name.push(json!({"q": cp(&q), "got": place(stages.get_by_name(&q))}));
          by_str.push(json!({"q": cp(&q), "got": place(stages.get(&q))}));
          for s in &stages.stages { args.push(json!({"q": cp(&q), "s": s.index, "got": opt(s.arg_index(&q).map(|x| json!(x)))})) }
        }
      }
      json!({"o": o, "st": st, "ways": ways, "byname": by_name, "bystr": by_str, "args": args})
    }
    "spl" => {
      let mut s = raw_doc(&d).splicer();
      let mut res = vec![];
      for op in list(field(case, "ops")) {
        let at = span(field(op, "sp"));
        s.splice(&Span::new(at.start + front.len(), at.end + front.len()), &text_of(field(op, "r")));
        res.push(tail(&s.content));
      }
      json!({"res": res})
    }
    // splice items of a parsed document and parse the result
    "re" => {
      let r = Parsed::of(&d);
      let o = r.outcome(&d);
      let doc = match r.doc() { Some(x) => x, None => return json!({"o": o, "ops": [], "text": [], "o2": o}) };
      let all = items(doc);
      let mut ops = vec![];
      let mut taken: HashSet<(usize, usize)> = HashSet::new();
      let mut s = doc.splicer();
      // either items given by name with their replacement, or ones picked at random
      let mut todo: Vec<(usize, &'static str, usize, Span, String)> = vec![];
      for p in list(field(case, "put")) {
        let want = (int(field(p, "i")), field(p, "f").as_str().unwrap_or(""), int(field(p, "j")));
        if let Some(x) = all.iter().find(|x| (x.0, x.1, x.2) == want) { todo.push((x.0, x.1, x.2, x.3, text_of(field(p, "r")))) }
      }
      for p in list(field(case, "picks")) {
        if all.is_empty() { break }
        let (i, f, j, sp_) = &all[int(&p[0]) % all.len()];
        if let Some(rep) = replacement(&doc.instructions[*i - 1], f, *j, int(&p[1])) { todo.push((*i, f, *j, *sp_, rep)) }
      }
      for (i, f, j, sp_, rep) in todo {
        if !taken.insert((sp_.start, sp_.end)) { continue }
        s.splice(&sp_, &rep);
        ops.push(json!({"i": i, "f": f, "j": j, "sp": sp(&sp_), "r": cp(&rep)}));
      }
      let o2 = Parsed::of(&s.content).outcome(&s.content);
      json!({"o": o, "ops": ops, "text": tail(&s.content), "o2": o2})
    }
    "typ" => {
      let r = Parsed::of(&d);
      json!({"o": r.outcome(&d), "ty": r.doc().map(|x| x.instructions.iter().map(typed).collect::<Vec<_>>()).unwrap_or_default()})
    }
    _ => json!({"unknown": t}),
  }
}

/// A syntactically suitable replacement for an item (checked again by the specification).
fn replacement(ins: &Instruction, f: &str, j: usize, n: usize) -> Option<String> {
  let pick = |xs: &[&str]| Some(xs[n % xs.len()].to_string());
  let misc_first = matches!(ins, Instruction::Misc(_)) && f == "piece" && j == 1;
  match f {
    "image" => pick(&["new", "reg.io/a/b:2", "$v", "localhost/x", "n", "a:b", "h:1/long-name_of.an-image:v1.2.3"]),
    "alias" => pick(&["n", "new-alias_1", "B", "0", "a-rather-long-alias-name"]),
    "flag" => pick(&["v", "linux/amd64", "\"q\"", "1:2", "'x'", "longer-than-it-was-before"]),
    "name" => match ins {
      Instruction::Arg(_) => pick(&["n", "New_1", "zz", "aVeryLongArgumentName"]),
      Instruction::Env(_) => pick(&["n", "_N1", "9", "A_VERY_LONG_NAME"]),
      _ => pick(&["n", "com.x/y-z", "\"quoted name\"", "'k'", "a\u{e9}"]),
    },
    "value" => match ins {
      Instruction::Env(_) => pick(&["v", "\"q r\"", "'x'", "a-much-longer-value", "1", "\"\\n\"", "\u{e9}"]),
      _ => pick(&["v", "\"q r\"", "'x y'", "a-much-longer-value", "1", "\"\\n\"", "\u{e9}"]),
    },
    "path" => pick(&["p", "/a/b/c", "./x", "\"q\"", "dir/with/a/long/name/", "\u{65e5}"]),
    "elem" => pick(&["\"\"", "\"new element\"", "'x'", "\"a\\\"b\"", "\"\u{1f600}\""]),
    "misc" => pick(&["Z", "ZONK", "zz", "ZzzzzzzzzzZ"]),
    "piece" if misc_first => pick(&[" n", " new text", "\tx 1", " a-b c  d"]),
    "piece" => pick(&["n", "new text", "x 1 && y", "a-longer piece of text", "\u{e9} b"]),
    _ => None,
  }
}

pub fn run(case: &Value) -> Value {
  let mut out = case.clone();
  match catch_unwind(AssertUnwindSafe(|| run_inner(case))) {
    Ok(got) => merge(&mut out, got, false),
    Err(_) => merge(&mut out, died(case, "panic"), true),
  }
  out
}
/// The observation of a case that did not come back.
pub fn died(case: &Value, how: &str) -> Value {
  let o = json!({"r": how, "pos": -1, "same": true, "ins": [], "ga": []});
  match case["t"].as_str().unwrap_or("p") {
    "e" => json!({"o": o, "eq": []}),
    "big" => json!({"r": how, "same": true, "pos": -1, "facts": [], "eq": []}),
    "bigr" => json!({"r": how, "eq": false, "got": 0, "ended": false, "utf8": true}),
    "bigrel" => json!({"line": -1, "rs": [-1, -1]}),
    "r" => json!({"log": [], "o": o, "eq": false, "content": []}),
    "pair" => json!({"o": o, "o2": o}),
    "re" => json!({"o": o, "ops": [], "text": [], "o2": o}),
    "typ" => json!({"o": o, "ty": []}),
    "stg" => json!({"o": o, "st": [], "ways": [], "byname": [], "bystr": [], "args": []}),
    "res" => json!({"o": o, "res": [], "gets": []}),
    "rel" => json!({"rel": []}),
    "cat" => json!({"o": o, "parts": [], "alone": []}),
    "spl" => json!({"res": []}),
    "val" => json!({"vs": [], "rel": [], "shown": []}),
    "eqs" => json!({"vals": [], "eq": [], "docs": [], "built": []}),
    _ => json!({"o": o}),
  }
}
/// died: the library did not come back from something else than a parse
pub fn merge(out: &mut Value, got: Value, died: bool) {
  if let (Some(m), Value::Object(g)) = (out.as_object_mut(), got) { for (k, v) in g { m.insert(k, v); } m.insert("died".into(), json!(died)); }
}
