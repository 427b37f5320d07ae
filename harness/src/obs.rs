//! What the library reports for one input, as JSON in the vocabulary of the specification.
use dockerfile_parser::*;
use serde_json::{json, Value};

pub fn cp(s: &str) -> Value { Value::Array(s.chars().map(|c| json!(c as u32)).collect()) }
thread_local! { static FRONT: std::cell::Cell<i64> = std::cell::Cell::new(0); }
/// What stands in front of a text is left out of what is reported: positions count from its end.
pub fn set_front(n: usize) { FRONT.with(|f| f.set(n as i64)) }
pub fn front() -> i64 { FRONT.with(|f| f.get()) }
pub fn sp(s: &Span) -> Value { json!([s.start as i64 - front(), s.end as i64 - front()]) }
pub fn opt(v: Option<Value>) -> Value { match v { Some(x) => json!([x]), None => json!([]) } }
pub fn text_of(v: &Value) -> String {
  v.as_array().map(|a| a.iter().map(|n| char::from_u32(n.as_u64().unwrap_or(0xfffd) as u32).unwrap_or('\u{fffd}')).collect()).unwrap_or_default()
}

fn raw(s: &SpannedString) -> Value { json!({"sp": sp(&s.span), "c": cp(&s.content)}) }

pub fn text(b: &BreakableString) -> Value {
  let ps: Vec<Value> = b.iter_components().map(|c| match c {
    BreakableStringComponent::String(s) => json!({"t": "s", "sp": sp(&s.span), "c": cp(&s.content)}),
    BreakableStringComponent::Comment(s) => json!({"t": "c", "sp": sp(&s.span), "c": cp(&s.content)}),
  }).collect();
  json!({"sp": sp(&b.span), "ps": ps, "tx": cp(&b.to_string())})
}

pub fn array(a: &StringArray) -> Value {
  json!({"sp": sp(&a.span), "es": a.elements.iter().map(raw).collect::<Vec<_>>()})
}

pub fn image(r: &ImageRef) -> Value {
  json!({"reg": opt(r.registry.as_deref().map(cp)), "im": cp(&r.image),
         "tag": opt(r.tag.as_deref().map(cp)), "hash": opt(r.hash.as_deref().map(cp))})
}

fn command(k: &str, s: &Span, e: &ShellOrExecExpr) -> Value {
  match e {
    ShellOrExecExpr::Shell(b) => json!({"k": k, "sp": sp(s), "form": "shell", "x": text(b)}),
    ShellOrExecExpr::Exec(a) => json!({"k": k, "sp": sp(s), "form": "exec", "x": array(a)}),
  }
}

pub fn arg(a: &ArgInstruction) -> Value {
  json!({"k": "ARG", "sp": sp(&a.span), "n": raw(&a.name), "v": opt(a.value.as_ref().map(raw))})
}

pub fn instruction(i: &Instruction) -> Value {
  match i {
    Instruction::From(f) => json!({"k": "FROM", "sp": sp(&f.span),
      "fl": f.flags.iter().map(|x| json!({"sp": sp(&x.span), "n": raw(&x.name), "v": raw(&x.value)})).collect::<Vec<_>>(),
      "im": raw(&f.image), "ref": image(&f.image_parsed), "ix": f.index, "al": opt(f.alias.as_ref().map(raw))}),
    Instruction::Arg(a) => arg(a),
    Instruction::Label(l) => json!({"k": "LABEL", "sp": sp(&l.span),
      "ls": l.labels.iter().map(|x| json!({"sp": sp(&x.span), "n": raw(&x.name), "v": raw(&x.value)})).collect::<Vec<_>>()}),
    Instruction::Run(r) => command("RUN", &r.span, &r.expr),
    Instruction::Cmd(r) => command("CMD", &r.span, &r.expr),
    Instruction::Entrypoint(r) => command("ENTRYPOINT", &r.span, &r.expr),
    Instruction::Copy(c) => json!({"k": "COPY", "sp": sp(&c.span),
      "fl": c.flags.iter().map(|x| json!({"sp": sp(&x.span), "n": raw(&x.name), "v": raw(&x.value)})).collect::<Vec<_>>(),
      "src": c.sources.iter().map(raw).collect::<Vec<_>>(), "dst": raw(&c.destination)}),
    Instruction::Env(e) => json!({"k": "ENV", "sp": sp(&e.span),
      "vs": e.vars.iter().map(|x| json!({"sp": sp(&x.span), "n": raw(&x.key), "v": text(&x.value)})).collect::<Vec<_>>()}),
    Instruction::Misc(m) => json!({"k": "MISC", "sp": sp(&m.span), "n": raw(&m.instruction), "a": text(&m.arguments)}),
  }
}

/// Totals over a document, one number each, in the order of Facts in the specification.
pub fn facts(d: &Dockerfile) -> Value {
  let mut kinds = [0i64; 9];
  let (mut fromix, mut flags, mut pairs, mut elems, mut srcs, mut aliases, mut values) = (-1i64, 0i64, 0i64, 0i64, 0i64, 0i64, 0i64);
  let (mut chars, mut width, mut pieces, mut comments, mut ptext, mut shown) = (0i64, 0i64, 0i64, 0i64, 0i64, 0i64);
  let mut raw = |s: &SpannedString| { chars += s.content.chars().count() as i64; width += s.span.end as i64 - s.span.start as i64; };
  let mut text = |b: &BreakableString| {
    for c in b.iter_components() { let (content, s) = match c { BreakableStringComponent::String(s) => { pieces += 1; (&s.content, s.span) }, BreakableStringComponent::Comment(s) => { comments += 1; (&s.content, s.span) } }; ptext += content.chars().count() as i64 + s.end as i64 - s.start as i64 }
    shown += b.to_string().chars().count() as i64;
  };
  for i in &d.instructions {
    let mut expr = |e: &ShellOrExecExpr, raw: &mut dyn FnMut(&SpannedString), text: &mut dyn FnMut(&BreakableString)| match e {
      ShellOrExecExpr::Shell(b) => text(b), ShellOrExecExpr::Exec(a) => { elems += a.elements.len() as i64; for x in &a.elements { raw(x) } } };
    match i {
      Instruction::From(f) => { kinds[0] += 1; fromix = f.index as i64; flags += f.flags.len() as i64; for x in &f.flags { raw(&x.name); raw(&x.value) } raw(&f.image); if let Some(a) = &f.alias { aliases += 1; raw(a) } }
      Instruction::Arg(a) => { kinds[1] += 1; raw(&a.name); if let Some(v) = &a.value { values += 1; raw(v) } }
      Instruction::Label(l) => { kinds[2] += 1; pairs += l.labels.len() as i64; for x in &l.labels { raw(&x.name); raw(&x.value) } }
      Instruction::Run(c) => { kinds[3] += 1; expr(&c.expr, &mut raw, &mut text) }
      Instruction::Cmd(c) => { kinds[4] += 1; expr(&c.expr, &mut raw, &mut text) }
      Instruction::Entrypoint(c) => { kinds[5] += 1; expr(&c.expr, &mut raw, &mut text) }
      Instruction::Copy(c) => { kinds[6] += 1; flags += c.flags.len() as i64; srcs += c.sources.len() as i64; for x in &c.flags { raw(&x.name); raw(&x.value) } for x in &c.sources { raw(x) } raw(&c.destination) }
      Instruction::Env(e) => { kinds[7] += 1; pairs += e.vars.len() as i64; for x in &e.vars { raw(&x.key); text(&x.value) } }
      Instruction::Misc(m) => { kinds[8] += 1; raw(&m.instruction); text(&m.arguments) }
    }
  }
  let sp_of = |i: Option<&Instruction>| i.map(|i| (i.span().start as i64, i.span().end as i64)).unwrap_or((-1, -1));
  let (first, last) = (sp_of(d.instructions.first()), sp_of(d.instructions.last()));
  let mut v = kinds.to_vec();
  v.extend_from_slice(&[d.global_args.len() as i64, fromix, flags, pairs, elems, srcs, aliases, values, chars, width, pieces, comments, ptext, shown, first.0, first.1, last.0, last.1]);
  if kinds[0] > 2000 { v.extend_from_slice(&[-9; 5]); return json!(v) }
  // stages: how many, and of the last one index, number of instructions, parent and root
  let stages = d.stages();
  let whose = |p: &StageParent| match p { StageParent::Stage(n) => *n as i64, StageParent::Scratch => -2, StageParent::Image(_) => -1 };
  match stages.stages.last() { Some(s) => v.extend_from_slice(&[stages.stages.len() as i64, s.index as i64, s.instructions.len() as i64, whose(&s.parent), whose(&s.root)]), None => v.extend_from_slice(&[0, -1, 0, -1, -1]) }
  json!(v)
}

/// Position reported by a syntax error, read from its public Debug form.
pub fn error_pos(e: &dockerfile_parser::Error) -> i64 {
  if let Error::ParseError { source } = e {
    let s = format!("{:?}", source.location);
    let digits: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    return match digits.parse::<i64>() { Ok(n) if n >= front() => n - front(), _ => -1 };
  }
  -1
}

pub fn error_kind(e: &dockerfile_parser::Error) -> &'static str {
  match e {
    Error::ParseError { .. } => "syntax",
    Error::GenericParseError { message } => if message.to_lowercase().contains("digest") { "digest" } else { "generic" },
    Error::UnescapeError { .. } => "escape",
    Error::ReadError { .. } => "read",
    Error::UnknownParseError => "unknown",
    Error::ConversionError { .. } => "conversion",
  }
}

/// r: outcome; same: the document's content is the input; ins, ga: what it holds
pub fn outcome(input: &str, r: &Result<Dockerfile>) -> Value {
  match r {
    Ok(d) => json!({"r": "ok", "pos": -1, "same": d.content == input,
      "ins": d.instructions.iter().map(instruction).collect::<Vec<_>>(),
      "ga": d.global_args.iter().map(arg).collect::<Vec<_>>()}),
    Err(e) => json!({"r": error_kind(e), "pos": error_pos(e), "same": true, "ins": [], "ga": []}),
  }
}

pub fn panicked() -> Value { json!({"r": "panic", "pos": -1, "same": true, "ins": [], "ga": []}) }
