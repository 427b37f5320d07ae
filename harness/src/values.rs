//! Values made by hand: texts built piece by piece, variants of instructions, comparisons.
use crate::cases::*;
use crate::obs::*;
use dockerfile_parser::*;
use serde_json::{json, Value};

fn span(v: &Value) -> Span { Span::new(int(&v[0]), int(&v[1])) }

/// Adds a piece in one of the ways there are.
fn with(b: BreakableString, p: &Value) -> BreakableString {
  let (s, c) = (span(field(p, "sp")), text_of(field(p, "c")));
  let via = int(field(p, "via"));
  if field(p, "t").as_str() == Some("s") { match via {
    0 => b.add_string(s, c),
    1 => b.add_string((s.start, s.end), c.as_str()),
    2 => b.add(SpannedString { span: s, content: c }),
    3 => b.add(((s.start, s.end), c.as_str())),
    _ => b.add(BreakableStringComponent::String(SpannedString { span: s, content: c })),
  } } else { match via {
    0 => b.add_comment(s, c),
    1 => b.add_comment((s.start, s.end), c.as_str()),
    2 | 3 => b.add(SpannedComment { span: s, content: c }),
    _ => b.add(BreakableStringComponent::Comment(SpannedComment { span: s, content: c })),
  } }
}
fn build(x: &Value) -> BreakableString {
  let s = span(field(x, "sp"));
  let ps = list(field(x, "ps"));
  let first = if s.start % 2 == 0 { BreakableString::new(s) } else { BreakableString::new((s.start, s.end)) };
  ps.iter().fold(first, with)
}
fn array_of(b: &BreakableString) -> StringArray {
  StringArray { span: b.span, elements: b.iter_components().map(|c| match c {
    BreakableStringComponent::String(s) => s.clone(), BreakableStringComponent::Comment(s) => SpannedString { span: s.span, content: s.content.clone() } }).collect() }
}
fn sign(o: std::cmp::Ordering) -> i64 { o as i64 }

fn holds(b: &BreakableString) -> Value {
  let a = array_of(b);
  let key = SpannedString { span: Span::new(3, 4), content: "k".into() };
  let v = EnvVar::new(b.span, key.clone(), b.clone());
  let first = a.elements.first().cloned().unwrap_or(key.clone());
  let label = Label::new(b.span, key.clone(), first.clone());
  let whole: BreakableString = ((b.span.start, b.span.end), first.content.as_str()).into();
  let v2 = EnvVar::new(b.span, key.clone(), ((b.span.start, b.span.end), first.content.as_str()));
  let parts = v.key == key && label.span == b.span && label.name == key && label.value == first
    && a.elements.iter().all(|e| e.to_string() == e.content && AsRef::<str>::as_ref(e) == e.content)
    && whole == BreakableString::new(b.span).add_string(b.span, first.content.clone()) && v2.value == whole && whole.to_string() == first.content
    && Span::from((b.span.start, b.span.end)) == b.span
    && b.iter_components().eq(b.components.iter());
  json!({"text": text(b), "arr": array(&a), "strs": a.as_str_vec().iter().map(|s| cp(s)).collect::<Vec<_>>(), "span": cp(&format!("{:?}", b.span)),
    "env": {"sp": sp(&v.span), "v": text(&v.value)}, "copy": b.clone() == *b && a.clone() == a && v.clone() == v && label.clone() == label, "parts": parts})
}
fn compared(x: &BreakableString, y: &BreakableString) -> Value {
  let (a, b) = (array_of(x), array_of(y));
  let cmp = sign(x.cmp(y));
  let cmp = if x.partial_cmp(y).map(sign) == Some(cmp) && (x < y) == (cmp < 0) && (x >= y) == (cmp >= 0) { cmp } else { 9 };
  let eq = x == y;
  if (x != y) == eq { return json!({"eq": 9}) }
  json!({"eq": eq, "cmp": cmp, "aeq": a == b, "acmp": sign(a.cmp(&b)), "scmp": sign(x.span.cmp(&y.span)), "seq": x.span == y.span})
}

pub fn val(case: &Value) -> Value {
  let xs: Vec<BreakableString> = list(field(case, "xs")).iter().map(build).collect();
  let mut rel = vec![];
  for x in &xs { for y in &xs { rel.push(compared(x, y)) } }
  let one = |v: &Value| list(v).first().map(text_of);
  let shown: Vec<Value> = list(field(case, "refs")).iter().map(|r| {
    cp(&ImageRef { registry: one(field(r, "reg")), image: text_of(field(r, "im")), tag: one(field(r, "tag")), hash: one(field(r, "hash")) }.to_string()) }).collect();
  json!({"vs": xs.iter().map(holds).collect::<Vec<_>>(), "rel": rel, "shown": shown})
}

/// The spans and strings of an instruction.
fn parts(i: &mut Instruction) -> (Vec<&mut Span>, Vec<&mut String>) {
  let (mut sps, mut strs) = (vec![], vec![]);
  macro_rules! raw { ($x:expr) => {{ let x = $x; sps.push(&mut x.span); strs.push(&mut x.content) }} }
  macro_rules! txt { ($x:expr) => {{ let x = $x; sps.push(&mut x.span); for c in x.components.iter_mut() { match c { BreakableStringComponent::String(s) => raw!(s), BreakableStringComponent::Comment(s) => raw!(s) } } }} }
  macro_rules! cmd { ($x:expr) => {{ let x = $x; sps.push(&mut x.span); match &mut x.expr { ShellOrExecExpr::Shell(b) => txt!(b), ShellOrExecExpr::Exec(a) => { sps.push(&mut a.span); for e in a.elements.iter_mut() { raw!(e) } } } }} }
  match i {
    Instruction::From(f) => { sps.push(&mut f.span); for x in f.flags.iter_mut() { sps.push(&mut x.span); raw!(&mut x.name); raw!(&mut x.value) } raw!(&mut f.image); strs.push(&mut f.image_parsed.image); if let Some(t) = &mut f.image_parsed.tag { strs.push(t) } if let Some(t) = &mut f.image_parsed.hash { strs.push(t) } if let Some(t) = &mut f.image_parsed.registry { strs.push(t) } if let Some(a) = &mut f.alias { raw!(a) } }
    Instruction::Arg(a) => { sps.push(&mut a.span); raw!(&mut a.name); if let Some(v) = &mut a.value { raw!(v) } }
    Instruction::Label(l) => { sps.push(&mut l.span); for x in l.labels.iter_mut() { sps.push(&mut x.span); raw!(&mut x.name); raw!(&mut x.value) } }
    Instruction::Run(c) => cmd!(c), Instruction::Cmd(c) => cmd!(c), Instruction::Entrypoint(c) => cmd!(c),
    Instruction::Copy(c) => { sps.push(&mut c.span); for x in c.flags.iter_mut() { sps.push(&mut x.span); raw!(&mut x.name); raw!(&mut x.value) } for x in c.sources.iter_mut() { raw!(x) } raw!(&mut c.destination) }
    Instruction::Env(e) => { sps.push(&mut e.span); for x in e.vars.iter_mut() { sps.push(&mut x.span); raw!(&mut x.key); txt!(&mut x.value) } }
    Instruction::Misc(m) => { sps.push(&mut m.span); raw!(&mut m.instruction); txt!(&mut m.arguments) }
  }
  (sps, strs)
}
/// Changes to the shape of an instruction; false: there is no such change
fn reshape(i: &mut Instruction, n: usize) -> bool {
  fn text(b: &mut BreakableString, n: usize) -> bool { match n {
    0 => b.components.pop().is_some(),
    1 => { let c = b.components.last().cloned(); if let Some(c) = c { b.components.push(c); true } else { false } }
    2 => match b.components.first().cloned() { Some(BreakableStringComponent::String(s)) => { b.components[0] = BreakableStringComponent::Comment(SpannedComment { span: s.span, content: s.content }); true }, Some(BreakableStringComponent::Comment(s)) => { b.components[0] = BreakableStringComponent::String(SpannedString { span: s.span, content: s.content }); true }, None => false },
    _ => { b.components.reverse(); b.components.len() > 1 }
  } }
  fn expr(k: &mut ShellOrExecExpr, n: usize) -> bool {
    if n == 4 { let other = match k { ShellOrExecExpr::Shell(b) => ShellOrExecExpr::Exec(array_of(b)), ShellOrExecExpr::Exec(a) => { let mut b = BreakableString::new(a.span); for e in &a.elements { b = b.add(e.clone()) } ShellOrExecExpr::Shell(b) } }; *k = other; return true }
    match k { ShellOrExecExpr::Shell(b) => text(b, n), ShellOrExecExpr::Exec(a) => match n { 0 => a.elements.pop().is_some(), 1 => { a.elements.reverse(); a.elements.len() > 1 }, _ => false } } }
  match i {
    Instruction::From(f) => match n { 0 => f.alias.take().is_some(), 1 => { f.index += 1; true }, 2 => f.flags.pop().is_some(), 3 => f.image_parsed.tag.take().is_some(), 4 => f.image_parsed.hash.take().is_some(), 5 => { f.image_parsed.registry = match &f.image_parsed.registry { Some(_) => None, None => Some(String::new()) }; true },
      6 => { f.alias = Some(f.image.clone()); true }, 7 => { f.flags.reverse(); f.flags.len() > 1 }, _ => false },
    Instruction::Arg(a) => match n { 0 => a.value.take().is_some(), 1 if a.value.is_none() => { a.value = Some(a.name.clone()); true }, 2 => { if let Some(v) = a.value.take() { let old = std::mem::replace(&mut a.name, v); a.value = Some(old); true } else { false } }, _ => false },
    Instruction::Label(l) => match n { 0 => l.labels.pop().is_some(), 1 => { l.labels.reverse(); l.labels.len() > 1 }, _ => false },
    Instruction::Run(c) => if n == 5 { let c = c.clone(); *i = CmdInstruction { span: c.span, expr: c.expr }.into(); true } else { expr(&mut c.expr, n) },
    Instruction::Cmd(c) => if n == 5 { let c = c.clone(); *i = EntrypointInstruction { span: c.span, expr: c.expr }.into(); true } else { expr(&mut c.expr, n) },
    Instruction::Entrypoint(c) => if n == 5 { let c = c.clone(); *i = RunInstruction { span: c.span, expr: c.expr }.into(); true } else { expr(&mut c.expr, n) },
    Instruction::Copy(c) => match n { 0 => c.flags.pop().is_some(), 1 => c.sources.pop().is_some(), 2 => { c.sources.reverse(); c.sources.len() > 1 }, 3 => { c.flags.reverse(); c.flags.len() > 1 }, _ => false },
    Instruction::Env(e) => match n { 0 => e.vars.pop().is_some(), 1 => { e.vars.reverse(); e.vars.len() > 1 }, 2..=5 => e.vars.last_mut().map(|v| text(&mut v.value, n - 2)).unwrap_or(false), _ => false },
    Instruction::Misc(m) => if n < 4 { text(&mut m.arguments, n) } else { false },
  }
}
fn variants(i: &Instruction) -> Vec<Instruction> {
  let mut v = vec![];
  let mut c = i.clone();
  let (n, m) = { let (a, b) = parts(&mut c); (a.len(), b.len()) };
  for k in 0..n.min(14) { for how in 0..2 { let mut x = i.clone(); { let (mut sps, _) = parts(&mut x); if how == 0 { sps[k].start += 1 } else { sps[k].end += 1 } } v.push(x) } }
  for k in 0..m.min(8) { for how in 0..3 { let mut x = i.clone(); { let (_, mut strs) = parts(&mut x); match how { 0 => strs[k].push('x'), 1 => { let s = strs[k].to_lowercase(); let u = strs[k].to_uppercase(); *strs[k] = if s == *strs[k] { u } else { s } }, _ => { *strs[k] = strs[k].trim().to_string() } } } v.push(x) } }
  for k in 0..8 { let mut x = i.clone(); if reshape(&mut x, k) { v.push(x) } }
  v
}

fn rebuilt(i: &Instruction) -> Option<bool> {
  let b = match i {
    Instruction::Run(RunInstruction { expr: ShellOrExecExpr::Shell(b), .. }) | Instruction::Cmd(CmdInstruction { expr: ShellOrExecExpr::Shell(b), .. }) | Instruction::Entrypoint(EntrypointInstruction { expr: ShellOrExecExpr::Shell(b), .. }) => b,
    Instruction::Misc(m) => &m.arguments,
    Instruction::Env(e) => &e.vars.last()?.value,
    _ => return None,
  };
  let mut same = true;
  for way in 0..3 {
    let mut n = BreakableString::new((b.span.start, b.span.end));
    for c in b.iter_components() { n = match (way, c) {
      (0, BreakableStringComponent::String(s)) => n.add_string((s.span.start, s.span.end), &s.content[..]),
      (0, BreakableStringComponent::Comment(s)) => n.add_comment((s.span.start, s.span.end), &s.content[..]),
      (1, BreakableStringComponent::String(s)) => n.add(((s.span.start, s.span.end), &s.content[..])),
      (1, BreakableStringComponent::Comment(s)) => n.add(s.clone()),
      (_, c) => n.add(c.clone()) } }
    same &= n == *b && !(n != *b) && n.cmp(b) == std::cmp::Ordering::Equal && n.to_string() == b.to_string();
  }
  Some(same)
}

pub fn eqs(d: &str, d2: &str) -> Value {
  let (a, b) = (Dockerfile::parse(d), Dockerfile::parse(d2));
  let docs: Vec<&Dockerfile> = a.iter().chain(b.iter()).collect();
  let mut vals: Vec<Instruction> = docs.iter().flat_map(|x| x.instructions.iter().cloned()).take(6).collect();
  let n = vals.len();
  let mut pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).collect();
  for i in 0..n.min(3) { for x in variants(&vals[i].clone()) { vals.push(x); pairs.push((i, vals.len() - 1)); pairs.push((vals.len() - 1, i)) } }
  let eq: Vec<Value> = pairs.iter().map(|&(i, j)| json!([i, j, (vals[i] == vals[j]) as i64, (vals[i] != vals[j]) as i64])).collect();
  // documents and what differs from them in one part
  let mut ds: Vec<Dockerfile> = docs.iter().map(|x| (*x).clone()).collect();
  if let Some(x) = docs.first() {
    let mut y = (*x).clone(); y.content.push(' '); ds.push(y);
    let mut y = (*x).clone(); y.global_args.pop(); ds.push(y);
    let mut y = (*x).clone(); y.instructions.pop(); ds.push(y);
    let mut y = (*x).clone(); y.instructions.reverse(); ds.push(y);
    let mut y = (*x).clone(); if let Some(g) = y.global_args.last_mut() { g.span.end += 1 } ds.push(y);
  }
  let view = |x: &Dockerfile| json!({"c": cp(&x.content), "ga": x.global_args.iter().map(arg).collect::<Vec<_>>(), "ins": x.instructions.iter().map(instruction).collect::<Vec<_>>()});
  let mut dd = vec![];
  if let Some(x) = ds.first() { for y in &ds { dd.push(json!({"a": view(x), "b": view(y), "eq": x == y})); } }
  let built: Vec<bool> = docs.iter().flat_map(|x| x.instructions.iter()).filter_map(rebuilt).collect();
  json!({"vals": vals.iter().map(instruction).collect::<Vec<_>>(), "eq": eq, "docs": dd, "built": built})
}
