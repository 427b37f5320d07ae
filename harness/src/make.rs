//! Seeded random cases for a property.
use crate::cases::FAILS;
use crate::gen::*;
use crate::obs::cp;
use serde_json::{json, Value};

fn focus(kinds: &[&str]) -> Focus { let mut f = Focus::all(); f.kinds = kinds.iter().map(|s| s.to_string()).collect(); f }
const ALL: &[&str] = &["FROM", "ARG", "LABEL", "RUN", "CMD", "ENTRYPOINT", "COPY", "ENV", "MISC"];

fn doc(r: &mut Rng, f: &Focus) -> String { Gen::new(r, f.clone()).document() }
fn word(r: &mut Rng) -> String { let mut g = Gen::new(r, Focus::all()); let s = g.piece(); if g.r.pct(40) { s + &g.piece() } else { s } }

/// Documents of one property's kind. Profiles vary so that some are all well-formed and some are all odd.
fn parse_doc(r: &mut Rng, kinds: &[&str]) -> String {
  let mut f = if r.pct(20) { Focus::all() } else { focus(kinds) };
  match r.below(5) {
    0 => { f.broken = 1; f.mutate = 0; f.wide = 4 },
    1 => { f.broken = 3; f.mutate = 5; f.layout = 60 },
    2 => { f.broken = 15; f.lines = (1, 2) },
    3 => { f.mutate = 60; f.lines = (1, 2); f.broken = 0 },
    _ => (),
  }
  if r.pct(if kinds.len() > 5 { 10 } else { 4 }) { return Gen::new(r, f).related() }
  if r.pct(8) { f.lines = (4, 9); f.broken = 0; f.mutate = 3 }
  doc(r, &f)
}

/// Documents with many stages, referring to each other in all ways.
fn stage_doc(r: &mut Rng) -> String {
  let names = ["a", "A", "b", "B", "base", "Base", "BASE", "0", "1", "2", "x-1", "X-1", "scratch", "alpine", "Scratch", "as", "b_"];
  let images = ["a", "A", "b", "B", "base", "BASE", "scratch", "SCRATCH", "Scratch", "alpine", "alpine:3", "0", "1", "x-1", "a:1", "h/a", "$a", "${b}", "Base", "scratch:1", "as", "a@sha256:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"];
  let mut s = String::new();
  for _ in 0..r.below(3) { s.push_str(r.pick(&["ARG a=1\n", "ARG b\n", "# c\n", "ENV x=1\n", "\n", "RUN early\n", "ARG x\n"])) }
  for _ in 0..r.range(0, 7) {
    let special = r.dict(12).map(|w| w.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_' || *c == '-').collect::<String>()).filter(|w| !w.is_empty());
    s.push_str(r.pick(&["FROM ", "from ", "From ", "FROM --platform=x "])); match &special { Some(w) if r.pct(60) => s.push_str(w), _ => s.push_str(r.pick(&images)) }
    if r.pct(65) { s.push_str(r.pick(&[" AS ", " as ", " As "])); match &special { Some(w) if r.pct(60) => s.push_str(w), _ => s.push_str(r.pick(&names)) } }
    s.push('\n');
    if let Some(w) = r.dict_word(4) { s.push_str(r.pick(&["ARG ", "RUN ", "COPY --from=", "ENV ", "", "# "])); s.push_str(&w); s.push_str(r.pick(&["\n", "=1\n", " a\n", " a b\n"])) }
    for _ in 0..r.below(4) { s.push_str(r.pick(&["RUN x\n", "ARG a\n", "ARG A=2\n", "ARG a=1\n", "ARG a=\"\"\n", "ARG A\n", "ARG x\n", "arg x=1\n", "COPY --from=a x y\n", "# c\n", "ENV a=1\n", "USER u\n", "CMD [\"a\"]\n", "ARG ab\n", "LABEL a=b\n", "ENTRYPOINT x\n", "\n"])) }
  }
  s
}
fn queries(r: &mut Rng) -> Vec<Value> {
  let fixed = ["a", "A", "b", "base", "BASE", "0", "1", "2", "7", "x-1", "X-1", "scratch", "alpine", "00", "01", "+1", "-1", "+", "", " 1", "1 ", "1a", "0x1", "as",
    "18446744073709551615", "18446744073709551616", "99999999999999999999999", "+0", "-0", "\u{ff11}", "x", "ab", "ba\u{17f}e", "\u{212a}", "b_", "nosuch", "1.0", "1_0"];
  let mut v: Vec<String> = (0..8).map(|_| r.pick(&fixed).to_string()).collect();
  if r.pct(20) { v.push(word(r)) }
  if let Some(w) = r.dict(40) { v.push(w) }
  v.into_iter().map(|s| cp(&s)).collect()
}
fn globals_doc(r: &mut Rng) -> String {
  let names = ["a", "b", "c", "tag", "img", "A", "ab"];
  let vals = ["1", "$a", "${b}", "$c", "x$a", "${a}${b}", "alpine", "h.io/x", "a:1", "$tag", "${img}y", "$", "${", "$$a", "\"q r\"", "''", "\"$b\"", "é", "$nope", "${tag}-$a", "localhost/i", "$ab", "$a_b", "\\$a"];
  let mut s = String::new();
  if r.pct(12) {  // chains around the nesting limit
    let n = r.range(13, 19);
    for i in 0..n { s.push_str(&format!("ARG v{}={}\n", i, if i + 1 < n { format!("${}v{}{}", if r.pct(50) { "{" } else { "" }, i + 1, "") } else { "end".into() })); }
    let s2: String = s.lines().map(|l| if l.contains("${") { format!("{}}}\n", l) } else { format!("{}\n", l) }).collect();
    return format!("{}FROM {}\nFROM x$v1:$v3\n", s2, r.pick(&["$v0", "$v1", "$v2", "${v0}:$v1", "a/$v3"]));
  }
  for _ in 0..r.range(1, 6) {
    if let Some(w) = r.dict(8) { let w: String = w.chars().filter(|c| *c != '\n' && *c != '\r').collect(); match r.below(3) {
      0 => { let n: String = w.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_').collect(); s.push_str(&format!("ARG {}={}\nARG b=${}\n", n, r.pick(&vals), n)) },
      1 => { s.push_str("ARG "); s.push_str(r.pick(&names)); s.push('='); s.push_str(&w); s.push('\n') },
      _ => { s.push_str(&w); s.push_str(" a=1\n") } } }
    match r.below(8) { 0 => s.push_str(r.pick(&["# ARG a=9\n", "ENV a=7\n", "USER x\n", "RUN y\n", "\n"])), 1 => { s.push_str("ARG "); s.push_str(r.pick(&names)); s.push('\n') },
      _ => { s.push_str("ARG "); s.push_str(r.pick(&names)); s.push('='); s.push_str(r.pick(&vals)); s.push('\n') } }
  }
  for _ in 0..r.below(4) {
    s.push_str("FROM ");
    if let Some(w) = r.dict(10) { let w: String = w.chars().filter(|c| c.is_ascii_alphanumeric() || "_-.:/${}@".contains(*c)).collect(); if r.pct(50) { s.push('$') } s.push_str(&w) }
    s.push_str(r.pick(&["$a", "${b}", "$img:$tag", "h.io/${a}", "x", "${img}@sha256:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef", "$a$b", "a:$tag", "localhost/$c:1", "$nope", "${a}_$b", "a-$A", "$a/$b", "${ab}c"]));
    s.push('\n');
    for _ in 0..r.below(2) { s.push_str("ARG "); s.push_str(r.pick(&names)); s.push_str("=late\n") }
  }
  s
}
fn ref_text(r: &mut Rng) -> String {
  let parts = ["a", "lib", "h.io", "localhost", "LOCALHOST", ":", "/", "@", ".", "1.2", "sha256:ab", "$v", "${v}", "-", "_", "é", " ", "//", "host:80", "x", "", "latest"];
  (0..r.range(0, 7)).map(|_| match r.dict(12) { Some(w) => w, None => r.pick(&parts).to_string() }).collect()
}
fn var_text(r: &mut Rng) -> String {
  let parts = ["$a", "${a}", "$b", "${b}", "$c", "$ab", "${a", "$", "{", "}", "$$", "${}", "${a-b}", "x", "é", " ", "a", "$A", "$_", "$1", "${1}", "${a}b", "\\$a", "$a$b", "😀", "-", "${a:-x}", "$é"];
  (0..r.range(0, 5)).map(|_| match r.dict(8) { Some(w) => match r.below(3) { 0 => format!("${}", w), 1 => format!("${{{}}}", w), _ => w }, None => r.pick(&parts).to_string() }).collect()
}

/// fragments and separators of a document, so that two layouts of it can be compared
fn layouts(r: &mut Rng) -> Value {
  // each entry: [class, text1, text2]; classes: "frag" (same text), "kw" (same word, any case),
  // "sep" (blanks and continuations), "gap" (sep or nothing), "ind" (blanks or nothing), "nl" (line break, comment and blank lines)
  let mut v: Vec<(&str, String, String)> = vec![];
  let mut f = Focus::all(); f.layout = 55; f.broken = 0; f.mutate = 0; f.wide = 8;
  let broken = r.pct(15);
  let n = r.range(1, 3);
  fn safe(s: String) -> String { s.chars().filter(|c| !c.is_whitespace() && *c != '\\' && *c != '\u{0}' && *c != '\u{1f}').collect::<String>() }
  for i in 0..n {
    let mut g = Gen::new(r, f.clone());
    macro_rules! w { () => {{ let mut t = safe(g.piece()); if t.is_empty() { t = "w".into() } if g.r.pct(30) { t = format!("{}{}", t, safe(g.piece())) } t }} }
    macro_rules! q { () => {{ let q = if g.r.pct(70) { '"' } else { '\'' }; g.quoted(q).replace(['\n', '\r'], " ") }} }
    macro_rules! push { ($c:expr, $a:expr) => {{ let a = $a; v.push(($c, a.clone(), a)) }} }
    macro_rules! sep { () => {{ let a = g.sep(); let b = g.sep(); v.push(("sep", a, b)) }} }
    macro_rules! gap { () => {{ let a = if g.r.pct(50) { String::new() } else { g.sep() }; let b = if g.r.pct(50) { String::new() } else { g.sep() }; v.push(("gap", a, b)) }} }
    macro_rules! kw { ($k:expr) => {{ let a = g.kw($k); let b = g.kw($k); v.push(("kw", a, b)) }} }
    macro_rules! ind { () => {{ let a = if g.r.pct(40) { g.blanks() } else { String::new() }; let b = if g.r.pct(40) { g.blanks() } else { String::new() }; v.push(("ind", a, b)) }} }
    ind!();
    match g.r.below(11) {
      0 => { kw!("from"); if g.r.pct(25) { sep!(); let x = w!(); push!("frag", format!("--p={}", x)) } sep!(); let im = g.image(); push!("frag", im); if g.r.pct(50) { sep!(); kw!("as"); sep!(); let a = g.alias(); push!("frag", a) } },
      1 => { kw!("arg"); sep!(); push!("frag", "a1".to_string()); if g.r.pct(60) { let x = if g.r.pct(50) { q!() } else { w!() }; push!("frag", format!("={}", x)) } },
      2 => { kw!("label"); for _ in 0..g.r.range(1, 3) { sep!(); let a = if g.r.pct(30) { q!() } else { "k.x".into() }; let b = if g.r.pct(50) { q!() } else { w!() }; push!("frag", format!("{}={}", a, b)) } },
      3 => { kw!("label"); sep!(); push!("frag", "k".to_string()); sep!(); let b = if g.r.pct(60) { q!() } else { w!() }; push!("frag", b) },
      4 => { kw!("env"); for _ in 0..g.r.range(1, 3) { sep!(); let b = if g.r.pct(50) { q!() } else { w!() }; push!("frag", format!("k_1={}", b)) } },
      5 => { kw!("env"); sep!(); push!("frag", "k".to_string()); sep!(); let b = if g.r.pct(40) { q!() } else { let x = w!(); let y = w!(); format!("{}  {}", x, y) }; push!("frag", b) },
      6 => { kw!("copy"); for _ in 0..g.r.below(3) { sep!(); let x = w!(); push!("frag", format!("--f={}", x)) } for _ in 0..g.r.range(2, 3) { sep!(); let x = w!(); push!("frag", x) } },
      7 | 8 => { let k = g.r.pick(&["run", "cmd", "entrypoint"]).to_string(); kw!(&k); sep!(); push!("frag", "[".to_string()); gap!();
             for j in 0..g.r.below(4) { if j > 0 { gap!(); push!("frag", ",".to_string()); gap!() } let x = q!(); push!("frag", x) } if v.last().map(|x| x.0) != Some("gap") { gap!() } push!("frag", "]".to_string()) },
      9 => { let k = g.r.pick(&["run", "cmd", "entrypoint"]).to_string(); kw!(&k); sep!(); let mut x = w!(); if x.starts_with('#') { x = format!("a{}", x) } let y = w!(); push!("frag", format!("{}  {}", x, y)) },
      _ => { push!("frag", "USER x  y".to_string()) },
    }
    if broken && g.r.pct(50) { let x = w!(); push!("frag", x) }
    let _ = &mut g;
    if i + 1 < n || r.pct(50) {
      let nl = |r: &mut Rng| { let mut g = Gen::new(r, f.clone()); let mut s = if g.r.pct(20) { g.blanks() } else { String::new() }; s.push_str(g.nl());
        while g.r.pct(35) { if g.r.pct(30) { s.push_str(&g.blanks()) } if g.r.pct(60) { let c = g.comment(); s.push_str(&c) } s.push_str(g.nl()) } s };
      let a = nl(r); let b = nl(r);
      v.push(("nl", a, b));
    }
  }
  // shell text and misc arguments keep their trailing blanks, so none may follow them
  for k in 0..v.len() { if v[k].0 == "nl" && k > 0 && v[k - 1].0 == "frag" { for t in [true, false] { let s = if t { &mut v[k].1 } else { &mut v[k].2 }; *s = s.trim_start_matches([' ', '\t']).to_string() } } }
  let d1: String = v.iter().map(|x| x.1.as_str()).collect();
  let d2: String = v.iter().map(|x| x.2.as_str()).collect();
  json!({"t": "pair", "d": cp(&d1), "d2": cp(&d2), "parts": v.iter().map(|x| json!({"c": x.0, "a": cp(&x.1), "b": cp(&x.2)})).collect::<Vec<_>>()})
}

fn splice_case(r: &mut Rng) -> Value {
  let pieces = ["a", "b", "FROM ", "\n", "é", "日", "😀", " ", "xyz", "#", "\\"];
  let n = r.range(1, 14);
  let mut s = String::new();
  for _ in 0..n { match r.dict(8) { Some(w) => s.push_str(&w), None => s.push_str(r.pick(&pieces)) } }
  let mut cuts: Vec<usize> = s.char_indices().map(|(i, _)| i).collect(); cuts.push(s.len());
  let reps = ["", "x", "yy", "é", "long replacement", "😀😀", "\n", "z"];
  let mut ops: Vec<(usize, usize, String)> = vec![];
  for _ in 0..r.range(1, 8) {
    for _try in 0..10 {
      let (i, j) = if !ops.is_empty() && r.pct(40) {
        // identical to, around, or right next to an earlier span
        let k = r.below(ops.len());
        let (a, b) = (ops[k].0, ops[k].1);
        let ia = cuts.iter().position(|c| *c == a).unwrap(); let ib = cuts.iter().position(|c| *c == b).unwrap();
        match r.below(4) { 0 => (ia, ib), 1 => (ia - r.below(ia.min(2) + 1), ib + r.below((cuts.len() - 1 - ib).min(2) + 1)), 2 => (ib, (ib + r.range(1, 2)).min(cuts.len() - 1)), _ => (ia - ia.min(r.range(1, 2)), ia) }
      } else { let i = r.below(cuts.len()); (i, (i + r.range(1, 4)).min(cuts.len() - 1)) };
      if i >= j { continue }
      let (a, b) = (cuts[i], cuts[j]);
      // earlier spans are disjoint, identical, or inside the new one
      if ops.iter().all(|(x, y, _)| *y <= a || b <= *x || (a <= *x && *y <= b)) { let t = match r.dict(10) { Some(w) => w, None => if r.pct(2) { "r".repeat(r.size(5000).unwrap_or(7)) } else { r.pick(&reps).to_string() } }; ops.push((a, b, t)); break }
    }
  }
  json!({"t": "spl", "d": cp(&s), "ops": ops.iter().map(|(a, b, t)| json!({"sp": [a, b], "r": cp(t)})).collect::<Vec<_>>()})
}

pub fn make(prop: &str, seed: u64, n: usize) -> Vec<Value> {
  let salt: u64 = prop.bytes().fold(7, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
  let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(salt));
  let r = &mut r;
  let mut v = Vec::with_capacity(n);
  let (prop, scaled) = match prop.strip_prefix("R:") { Some(p) => (p, true), None => (prop, false) };
  let kinds: &[&str] = match prop {
    "C08" => &["RUN", "CMD", "ENTRYPOINT", "ENV", "MISC"], "C09" => &["RUN", "CMD", "ENTRYPOINT"], "C10" => &["ARG", "ENV", "LABEL"],
    "C11" => &["ARG", "ENV", "LABEL", "RUN", "CMD"], "C12" => &["FROM"], "C13" => &["COPY"], "C14" => &["MISC"], "C17" => &["ARG", "FROM"], _ => ALL,
  };
  for k in 0..n {
    if scaled && prop != "C02" && prop != "C06" { v.push(scaled_case(r, prop, kinds)); continue }
    v.push(match prop {
      "C02" if scaled => big_reader(r),
      "C06" if scaled => big_rel(r),
      "C01" => if k % 40 == 7 { big(r) } else { let d = parse_doc(r, kinds); let others: Vec<Value> = (0..r.below(4)).map(|_| cp(&near(r, &d, kinds))).collect(); json!({"t": "e", "d": cp(&d), "n": r.range(1, 5), "others": others}) },
      "PUMP" => { let m = PUMPS.len(); pump(&PUMPS[k % m], match k / m { 0 => 260 + k % 50, 1 => 30000 + k % 3, _ => r.range(5, 20000) }) },
      // sizes that the source mentions
      "NUM" => { let m = PUMPS.len(); let at = &dict().2; pump(&PUMPS[k % m], if at.is_empty() { 50 } else { at[(k / m) % at.len()] }) },
      // layout, and a lot of it
      "LAY" => { let m = LAYS.len(); pump(&LAYS[k % m], [9, 40, 130, 260, 1100, 30_000, 66_000][(k / m) % 7] + k % 3) },
      "LAYNUM" => { let m = LAYS.len(); let at = &dict().2; pump(&LAYS[k % m], if at.is_empty() { 50 } else { at[(k / m) % at.len()] }) },
      // lengths beyond 2^16 units and beyond 2^20 bytes
      "HUGE" => { let p = &PUMPS[k % PUMPS.len()]; pump(p, (1_100_000 / p.1.len()).max(66_000).min(140_000) + k % 3) },
      "C02" => reader(r),
      "C06" => { let d = if r.pct(50) { parse_doc(r, ALL) } else { (0..r.below(14)).map(|_| r.pick(&["a", "\n", "\r\n", "\r", "é", "日本", "bc", "\\", "#", "\u{2028}", "\u{b}"]).to_string()).collect() };
                 let cuts: Vec<usize> = d.char_indices().map(|(i, _)| i).chain(std::iter::once(d.len())).collect();
                 let spans: Vec<Value> = (0..r.range(1, 8)).map(|_| { let a = r.below(cuts.len()); let b = r.range(a, cuts.len() - 1); json!([cuts[a], cuts[b]]) }).collect();
                 json!({"t": "rel", "d": cp(&d), "sp": spans}) },
      "C07" => layouts(r),
      "C25" => {
        let mut f = if r.pct(40) { focus(&["FROM", "ARG", "ENV", "RUN"]) } else { focus(ALL) };
        f.lines = (1, 4); f.broken = [0, 0, 2, 6][r.below(4)]; f.mutate = [0, 0, 10, 40][r.below(4)]; f.layout = [10, 40, 60][r.below(3)];
        let mut d = if r.pct(10) { Gen::new(r, f.clone()).related() } else { doc(r, &f) };
        if r.pct(60) { f.broken = [0, 0, 5, 20][r.below(4)]; d = format!("{}{}{}", d, r.pick(&["\n", "\n", "\r\n", ""]), doc(r, &f)) }
        let cs: Vec<char> = d.chars().collect();
        let mut cuts: Vec<usize> = (0..=cs.len()).filter(|&i| i == 0 || cs[i - 1] == '\n' || (cs[i - 1] == '\r' && cs.get(i) != Some(&'\n'))).collect();
        while cuts.len() > 5 { let i = r.below(cuts.len()); cuts.remove(i); }
        json!({"t": "cat", "d": cp(&d), "cuts": cuts})
      },
      "C26" if k % 2 == 0 => {
        let span = |r: &mut Rng| { let a = r.below(4); let b = if r.pct(80) { a + r.below(4) } else { r.below(12) }; json!([a, b]) };
        let first = json!({"sp": span(r), "ps": []});
        let mut xs = vec![first];
        for _ in 0..r.range(1, 3) {
          // another text, often the first with one thing changed
          let from = xs[r.below(xs.len())].clone();
          let mut x = if r.pct(60) { from } else { json!({"sp": span(r), "ps": []}) };
          for _ in 0..r.below(3) {
            let c = match r.dict(10) { Some(w) => w, None => r.pick(&["", "a", "b", "ab", "A", "\u{e9}", "\n", "#a", " ", "\u{1f600}", "\u{ffff}", "aa"]).to_string() };
            let p = json!({"t": r.pick(&["s", "s", "c"]), "sp": span(r), "c": cp(&c), "via": r.below(5)});
            let ps = x["ps"].as_array_mut().unwrap();
            match r.below(4) { 0 if !ps.is_empty() => { let i = r.below(ps.len()); ps[i] = p }, 1 => { let i = r.below(ps.len() + 1); ps.insert(i, p) }, _ => ps.push(p) }
          }
          if r.pct(15) { x["sp"] = span(r) }
          xs.push(x);
        }
        let parts = ["a", "", "a/b", "A", "x.y:5", "sha256:0", "\u{e9}", ":", "@", "latest"];
        let refs: Vec<Value> = (0..r.below(4)).map(|_| {
          let o = |r: &mut Rng| if r.pct(50) { json!([]) } else { json!([cp(r.pick(&parts))]) };
          let (reg, mut tag, mut hash) = (o(r), o(r), o(r));
          if tag != json!([]) && hash != json!([]) && r.pct(70) { if r.pct(50) { tag = json!([]) } else { hash = json!([]) } }
          json!({"reg": reg, "im": cp(r.pick(&parts)), "tag": tag, "hash": hash}) }).collect();
        json!({"t": "val", "d": [], "xs": xs, "refs": refs})
      },
      "C26" => { let d = parse_doc(r, ALL); let d2 = if r.pct(60) { near(r, &d, ALL) } else { d.clone() }; json!({"t": "eqs", "d": cp(&d), "d2": cp(&d2)}) },
      "C15" => json!({"t": "img", "d": cp(&ref_text(r))}),
      "C16" if k % 100 == 50 => chain(r),
      "C16" if k % 100 == 51 => { let (vars, text) = wide(r); json!({"t": "sub", "d": cp(&text), "vars": vars.iter().map(|(a, b)| json!([cp(a), cp(b)])).collect::<Vec<_>>(), "depth": r.range(1, 5), "used0": []}) },
      "C16" => { let names = ["a", "b", "c", "ab", "A", "_", "1", "x"]; let vars: Vec<Value> = (0..r.below(6)).map(|_| { let n = match r.dict(10) { Some(w) => w, None => r.pick(&names).to_string() }; json!([cp(&n), cp(&var_text(r))]) }).collect();
                 let depth = if r.pct(80) { r.below(6) } else { *[16usize, 17, 255, 40].iter().nth(r.below(4)).unwrap() };
                 let used0: Vec<Value> = (0..r.below(3)).map(|_| cp(r.pick(&["z", "a", "q"]))).collect();
                 json!({"t": "sub", "d": cp(&var_text(r)), "vars": vars, "depth": depth, "used0": used0}) },
      "C17" if k % 200 == 51 => {
        let (vars, text) = wide(r);
        let mut d = String::new();
        for (a, b) in &vars { d += &format!("ARG {}={}{}\n", a, b, if r.pct(3) { "\n# c" } else { "" }); if b.is_empty() { d += &format!("ARG {}=\"\"\n", a) } }
        d += &format!("FROM {}\n", text);
        let names: Vec<Value> = (0..4).map(|_| cp(&vars[r.below(vars.len())].0)).collect();
        json!({"t": "res", "d": cp(&d), "refs": [], "names": names})
      },
      "C17" => { let refs: Vec<Value> = (0..r.below(3)).map(|_| cp(&(ref_text(r) + &var_text(r)))).collect(); let names: Vec<Value> = (0..4).map(|_| cp(r.pick(&["a", "b", "c", "tag", "img", "A", "ab", "nope", "", "v0", "v1"]))).collect();
                 let d = if r.pct(10) { Gen::new(r, Focus::all()).related() } else if r.pct(80) { globals_doc(r) } else { parse_doc(r, &["ARG", "FROM", "ENV", "MISC"]) }; json!({"t": "res", "d": cp(&d), "refs": refs, "names": names}) },
      "C18" | "C19" | "C20" if k % 250 == 100 => many_stages(r),
      "C18" | "C19" | "C20" => { let d = if r.pct(10) { Gen::new(r, Focus::all()).related() } else if r.pct(85) { stage_doc(r) } else { parse_doc(r, &["FROM", "ARG", "RUN", "COPY"]) }; json!({"t": "stg", "d": cp(&d), "q": queries(r)}) },
      "C21" if k % 250 == 100 => long_splices(r),
      "C21" => splice_case(r),
      "C22" => { let mut f = Focus::all(); f.broken = 0; f.mutate = 0; f.lines = (1, 4); let picks: Vec<Value> = (0..if r.pct(50) { r.range(1, 5) } else { r.range(20, 60) }).map(|_| json!([r.below(64), r.below(1000)])).collect(); let d = if r.pct(10) { Gen::new(r, f).related() } else { if r.pct(5) { f.lines = (4, 9) } doc(r, &f) }; json!({"t": "re", "d": cp(&d), "picks": picks}) },
      "C23" => json!({"t": "typ", "d": cp(&parse_doc(r, ALL))}),
      _ => json!({"t": "p", "d": cp(&parse_doc(r, kinds))}),
    });
    if !scaled && r.pct(5) { let p = padding(r); let c = v.last_mut().unwrap(); if ["p", "re", "typ", "stg", "res", "spl", "cat"].contains(&c["t"].as_str().unwrap_or("")) { c["pad"] = p } }
  }
  v
}

/// Comment and empty lines in front of a text, so that all of it lies at some larger position.
fn padding(r: &mut Rng) -> Value {
  let total = match r.below(6) { 0 => r.range(1, 130), 1 => r.range(200, 260), 2 => r.range(250, 5000), 3 => r.range(65_400, 65_540), 4 => r.range(65_536, 140_000), _ => { let n = r.range(60, 300); r.size(70_000).unwrap_or(n) } };
  let (u, z) = [("#", "\n"), ("# \u{e9}", "\r\n"), ("\n", ""), ("# comment\n", "  # a\n"), (" \t", "\n"), ("#\u{1f600}\r\n", "\n"), ("\r\n", "")][r.below(7)];
  json!({"u": cp(u), "z": cp(z), "n": (total / u.len()).max(1)})
}

fn reader(r: &mut Rng) -> Value {
  let mut bytes = if r.pct(70) { parse_doc(r, ALL).into_bytes() } else { let mut b = vec![]; for _ in 0..r.below(8) { b.extend_from_slice(r.pick(&["FROM a\n", "é", "😀", "# 日本\n", "RUN x", "\u{feff}", "\r\n", "\u{0}"]).as_bytes()) } b };
  bytes.truncate(120);
  if let Err(e) = std::str::from_utf8(&bytes) { if r.pct(80) { let n = e.valid_up_to(); bytes.truncate(n) } }
  if r.pct(25) && !bytes.is_empty() {
    let i = r.below(bytes.len());
    match r.below(4) { 0 => bytes[i] = [0x80, 0xff, 0xc0, 0xed, 0xf5, 0xe0, 0xf0, 0xc3][r.below(8)], 1 => { bytes.remove(i); }, 2 => bytes.truncate(i), _ => bytes.insert(i, [0xbf, 0xe2, 0xf4, 0xc1][r.below(4)]) }
  }
  if r.pct(5) { bytes.extend_from_slice(&[0xed, 0xa0, 0x80]) }
  let mut sc: Vec<i64> = vec![];
  for _ in 0..r.below(12) { sc.push(match r.below(8) { 0 | 1 => -1, 2 => r.range(8, 60) as i64, _ => r.range(1, 7) as i64 }) }
  if r.pct(8) {  // one interruption after another
    let n = match r.size(300) { Some(n) if r.pct(40) => n, _ => *[5usize, 9, 11, 17, 33, 65, 101, 129, 257, 300].get(r.below(10)).unwrap() };
    let i = r.below(sc.len() + 1);
    let tail = sc.split_off(i); sc.extend(std::iter::repeat(-1).take(n)); sc.extend(tail);
  }
  if r.pct(35) { sc.push(-2 - r.below(FAILS.len()) as i64) }
  json!({"t": "r", "b": bytes, "sc": sc})
}
const PUMPS: &[(&str, &str, &str)] = &[("", "RUN a b c\n", ""), ("", "# c\n", "FROM a"), ("FROM a\n", "\n", ""), ("RUN a", " \\\n b", "\n"), ("RUN a \\\n", "# c\n", "b\n"), ("ENV", " a=b", ""), ("LABEL", " \"a\"='b'", ""), ("COPY a", " b", ""), ("RUN [\"a\"", ",\"a\"", "]"),
    ("ARG a=\"", "\\n", "\""), ("ARG a=\"", "x", "\""), ("ARG a='", "\\\\", ""), ("x ", "[", ""), ("RUN ", "[", ""), ("RUN [", "\"", ""), ("RUN ", "\\", ""), ("FROM ", "a", ""), ("FROM a as ", "b", ""), ("", "x", " y"), ("ENV a", " ", "b"), ("ENV a ", "\"", ""), ("LABEL a", "=", "b"),
    ("USER x", " \\\n", "y"), ("COPY", " --a=b", " x y"), ("FROM", " --a=b", " x"), ("RUN a \\\n", "\n", "b"), ("ENV a=b \\\n", "\n", "c=d"), ("ENV a=b \\\n", "# x\n", "c=d"), ("", "\r", ""), ("", " ", ""), ("RUN ", "\u{1f600}", ""), ("LABEL a=\"", "\\\n", "\""), ("", "ENV a b\\\n", ""), ("ARG a=\"", "\\u0041", "\""),
    ("ARG a=", "'", ""), ("CMD [", " ", "]"), ("CMD [", "\\\n", "]"), ("ENTRYPOINT a", " #", ""), ("LABEL a=b", " ", ""), ("RUN a\n", " \t\r\n", "RUN b"), ("RUN a \\\n", "  # c\n", "b"), ("RUN a \\\n", "#\r\n", " # b"),
    ("FROM ", "a/", "b:c"), ("COPY a", "\t\\\n# c\n", " b"), ("", "ARG a=\"b\"\n", "FROM x"), ("", "FROM a AS b\n", ""), ("", "!", ""), ("x", "\\\n", "y"), ("ARG a=b", "\\", ""), ("LABEL ", "k", "=v"), ("LABEL \"a\"=\"", "\\\r\n", "b\""), ("RUN [\"a\",\\\n", "# c\n", "\"b\"]"),
    ("CMD [\"", "\\\"", "\"]"), ("ENV a=\"", "\u{e9}\\t", "\" b=c")];
const LAYS: &[(&str, &str, &str)] = &[("FROM", " ", "a"), ("FROM a", "\t", " AS b"), ("FROM a AS", " ", " b\nRUN x"), ("FROM --a=b", " \t", " x"), ("", " ", "FROM a"), ("\t", " \t", "RUN a b"), ("", "\n", "FROM a\nRUN x"), ("FROM a\n", "\r\n", "RUN x\n"), ("FROM a\n", "# c\n", "RUN x"), ("FROM a\n", "   # \r\n", "RUN x"), ("FROM", " \\\n", " a"), ("FROM a", " \\\r\n", " AS b"), ("ARG", " ", "a=b"), ("ARG", " \\\n", " a"), ("LABEL a=b", " \\\n# c\n", " c=d"), ("LABEL a=b", "\t", "c=d"), ("ENV a=b", " \\\n\n", " c=d"), ("ENV a=b", " \\ \t\n", " c=d"), ("ENV", " ", " a b"), ("ENV a", " ", " b"), ("COPY a", " \\\n", " b"), ("COPY", " \t", " --a=b x y"), ("COPY --a=b", " \\\n # c\n", " x y"), ("RUN", " ", " a b"), ("RUN", " \\\n", " a b"), ("RUN [", " ", "\"a\", 'b']"), ("RUN [\"a\"", " \\\n", ", \"b\"]"), ("CMD [\"a\",", "\\\n# c\n", "\"b\"]"), ("ENTRYPOINT [\"a\"", "\t", "]"), ("ENTRYPOINT", " \\\n# c\n", " a"), ("CMD [\"a\"]", " ", "\nRUN x"), ("FROM a", " ", "\nRUN x"), ("ARG a=b", "\t", "\nRUN x"), ("ENV a=b", " ", "\nRUN x"), ("LABEL a=b", " ", "\n"), ("COPY a b", " \t", "\nRUN x"), ("RUN a \\\n", "# c\n", "b"), ("RUN a \\\n", "\n", "b\nRUN c"), ("FROM a\nRUN b", " \\\n", " c\nFROM d"), ("CMD [\"a\"]\n", " \t\n", "FROM a AS b"), ("FROM a \\", " ", "\nAS b"), ("RUN a \\", "\t", "\nb"), ("LABEL a=b \\", " ", "\n c=d"), ("COPY a \\", "\t", "\n b"), ("ENV \\", "\t \t", "\n a=b c=d"), ("RUN a \\\n", " ", "# c\n b"), ("FROM a", "\n", "# c"), ("RUN [", " \\\n", " ]")];
/// A unit repeated between a head and a tail.
fn pump(p: &(&str, &str, &str), n: usize) -> Value { json!({"t": "big", "h": cp(p.0), "u": cp(p.1), "z": cp(p.2), "n": n, "d": []}) }
fn big(r: &mut Rng) -> Value {
  let n = match r.below(8) { 0 | 1 => r.range(2, 40), 2 | 3 | 4 => r.range(40, 400), 5 | 6 => r.range(400, 3000), _ => r.range(3000, 12000) };
  pump(&PUMPS[r.below(PUMPS.len())], n)
}

/// A random document in which some middle part is repeated many times.
fn scaled_case(r: &mut Rng, prop: &str, kinds: &[&str]) -> Value {
  let n = match r.below(6) { 0 => r.range(150, 200), 1 => r.range(1000, 1400), _ => r.range(255, 300) };
  let many_stages = prop == "C18" || prop == "C19";
  if r.pct(35) {
    // whole lines
    let mut f = if many_stages { focus(&["FROM", "RUN", "ARG"]) } else { focus(kinds) };
    f.broken = 0; f.mutate = 0; f.lines = (1, 2);
    let part = |r: &mut Rng| { let mut s = if many_stages && r.pct(70) { stage_doc(r) } else { doc(r, &f) }; if !s.ends_with('\n') { s.push('\n') } s };
    let (h, u, z) = (part(r), part(r), part(r));
    return json!({"t": "big", "h": cp(&h), "u": cp(&u), "z": cp(&z), "n": n, "d": []})
  }
  let d: Vec<char> = if many_stages && r.pct(70) { stage_doc(r) } else { parse_doc(r, kinds) }.chars().take(160).collect();
  if d.is_empty() { return pump(&PUMPS[r.below(PUMPS.len())], n) }
  let a = r.below(d.len());
  let b = (a + match r.below(3) { 0 => 1, 1 => r.range(1, 4), _ => r.range(2, 25) }).min(d.len());
  let s = |x: &[char]| cp(&x.iter().collect::<String>());
  json!({"t": "big", "h": s(&d[..a]), "u": s(&d[a..b]), "z": s(&d[b..]), "n": n, "d": []})
}
fn big_reader(r: &mut Rng) -> Value {
  let h = r.pick(&["", "FROM a\n", "#", "# \u{e9}\n", "RUN x", "ARG a=1\nFROM $a\n", "\u{feff}", "!"]).as_bytes().to_vec();
  let u = r.pick(&["# \u{65e5}\u{672c}\n", "RUN \u{1f600}\n", "# abcdefghijklmnopqrstuvwxyz\n", "ENV a=\u{e9}\n", "\n", " \u{e9}\u{65e5}\u{1f600}\u{1f600}", "FROM a AS b\nCOPY a b\n", "x y \\\n"]).as_bytes().to_vec();
  let mut z = r.pick(&["", "FROM z", "\nCMD [\"a\"]\n", "\u{e9}", "# end"]).as_bytes().to_vec();
  if r.pct(15) { z.extend_from_slice(&[[0xffu8].as_ref(), &[0xe6, 0x97], &[0xc3], &[0x80], &[0xf0, 0x9f, 0x98]][r.below(5)]) }
  let total = match r.below(5) { 0 => r.range(100, 4000), 1 | 2 => r.range(8000, 20000), 3 => r.range(60000, 140000), _ => r.range(1_000_000, 1_200_000) };
  let n = total / u.len();
  let len = h.len() + n * u.len() + z.len();
  let sizes: &[&[i64]] = &[&[], &[1], &[8192], &[8191], &[8193], &[4096, -1], &[65536], &[7, -1, -1, 100], &[3], &[32, 64, 32], &[-1], &[1, -1, 2000], &[10_000_000]];
  let mut sc = sizes[r.below(sizes.len())].to_vec();
  if sc == [-1] { sc.push(500) }
  let fail: i64 = if r.pct(60) { -1 } else { match r.below(5) { 0 => len as i64, 1 => 0, 2 => (8192 * r.range(1, 4)) as i64, 3 => (1 << 16) + r.below(3) as i64 - 1, _ => r.below(len) as i64 } };
  json!({"t": "bigr", "h": h, "u": u, "z": z, "n": n, "sc": sc, "fail": fail})
}
fn big_rel(r: &mut Rng) -> Value {
  let text = |r: &mut Rng, k: usize| -> String { (0..r.below(k)).map(|_| r.pick(&["a", "\n", "\r\n", "\r", "\u{e9}", "xyz", "\u{1f600}", "#", "\\\n", "\u{2028}"]).to_string()).collect() };
  let (h, mut u, z) = (text(r, 5), text(r, 5), text(r, 8));
  if u.is_empty() { u = "\n".into() }
  let n = match r.below(4) { 0 => r.range(10, 100), 1 => r.range(255, 300), 2 => r.range(32000, 34000), _ => r.range(65000, 70000) };
  let cuts: Vec<usize> = z.char_indices().map(|(i, _)| i).chain(std::iter::once(z.len())).collect();
  let a = r.below(cuts.len()); let b = r.range(a, cuts.len() - 1);
  json!({"t": "bigrel", "h": cp(&h), "u": cp(&u), "z": cp(&z), "n": n, "sp": [cuts[a], cuts[b]], "d": []})
}

/// Another document, often one that differs little from this one.
fn near(r: &mut Rng, d: &str, kinds: &[&str]) -> String {
  let mut cs: Vec<char> = d.chars().collect();
  let swap = |c: char| match c { 'a'..='y' | 'A'..='Y' | '0'..='8' => (c as u8 + 1) as char, 'z' => 'y', '\u{e9}' => '\u{e8}', _ => c };
  match r.below(7) {
    0 | 1 => { let at: Vec<usize> = (0..cs.len()).filter(|i| swap(cs[*i]) != cs[*i]).collect(); if !at.is_empty() { let i = at[r.below(at.len())]; cs[i] = swap(cs[i]) } cs.into_iter().collect() },   // same length
    2 => { let i = r.below(cs.len() + 1); cs.truncate(i); cs.into_iter().collect() },
    3 => d.to_string() + r.pick(&["\n", "x", "\nRUN y", " ", "\\"]),
    4 => cs.iter().map(|c| if r.pct(20) { if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() } } else { *c }).collect(),
    5 => { let mut f = Gen::new(r, focus(kinds)); f.mutate(d) },
    _ => parse_doc(r, kinds),
  }
}

/// A chain of variables about as long as the nesting that is allowed.
fn chain(r: &mut Rng) -> Value {
  let d = match r.size(255) { Some(n) if r.pct(40) => n, _ => *[15usize, 16, 17, 63, 64, 127, 128, 129, 200, 253, 254, 255].get(r.below(12)).unwrap() };
  let m = (d + r.below(4)).max(2) - 1;
  let mut vars: Vec<(String, String)> = (0..m).map(|i| (format!("v{}", i), if i + 1 == m { r.pick(&["end", "", "$", "\u{e9}", "$v0", "$nope"]).to_string() } else if r.pct(50) { format!("${{v{}}}", i + 1) } else { format!("{}$v{}", r.pick(&["", "x", "-"]), i + 1) })).collect();
  if r.pct(50) { vars.reverse() }
  json!({"t": "sub", "d": cp(r.pick(&["$v0", "a${v0}b", "$v1$v0", "$v3", "x"])), "vars": vars.iter().map(|(a, b)| json!([cp(a), cp(b)])).collect::<Vec<_>>(), "depth": d, "used0": []})
}
/// Many variables, and a text that has many of them.
fn wide(r: &mut Rng) -> (Vec<(String, String)>, String) {
  let many = |r: &mut Rng| match r.size(1500) { Some(n) if r.pct(40) => n, _ => [1usize, 20, 33, 65, 101, 129, 257, 300, 520][r.below(9)] + r.below(3) };
  let n = if r.pct(50) { r.range(1, 5) } else { many(r).min(320) };
  let long = if n <= 5 && r.pct(30) { "n".repeat(many(r).min(260)) } else { "v".into() };
  let vars: Vec<(String, String)> = (0..n).map(|i| (format!("{}{}", if i % 7 == 0 { long.as_str() } else { "v" }, i), if i > 0 && r.pct(30) { format!("${{v{}}}", r.below(i).max(1)) } else { r.pick(&["", "x", "a/b", "1.2", "-", "\u{e9}"]).to_string() })).collect();
  let m = if n > 5 { r.range(1, 20) } else { many(r) };
  let mut text = String::new();
  for _ in 0..m { let v = &vars[r.below(n)].0; text += &(if r.pct(50) { format!("${}", v) } else { format!("${{{}}}", v) }); text += r.pick(&["-", "-", "/", ".", "$", "\u{e9}-"]); }
  if r.pct(3) { text += "$nope" }
  (vars, text)
}
fn many_stages(r: &mut Rng) -> Value {
  let n = match (r.below(4), r.size(600)) { (0, _) => r.range(20, 60), (1, Some(n)) => n, _ => r.range(250, 300) };
  let mut s = String::new();
  for i in 0..n {
    let image = match r.below(6) { 0 => format!("s{}", r.below(i + 2)), 1 => format!("S{}", i.max(1) - 1), 2 => "scratch".into(), 3 => format!("img:{}", i), _ => format!("s{}", i.max(1) - 1) };
    s += &format!("FROM {}", image);
    if r.pct(85) { s += &format!(" AS {}{}", r.pick(&["s", "S"]), if r.pct(5) { r.below(i + 1) } else { i }) }
    s.push('\n');
    if r.pct(20) { s += r.pick(&["RUN x\n", "ARG a\n", "ARG b\n"]) }
  }
  let mut q: Vec<Value> = ["s0", "S1", "s254", "s255", "s256", "S257", "s299", "0", "254", "255", "256", "257", "+256", "0256", "299", "300", "65536", "512", "a"].iter().map(|x| cp(x)).collect();
  for _ in 0..4 { q.push(cp(&format!("s{}", r.below(n)))) }
  json!({"t": "stg", "d": cp(&s), "q": q})
}
fn long_splices(r: &mut Rng) -> Value {
  if r.pct(30) {
    // a long replacement, then others on both sides of it
    let t = r.pick(&["x", "\u{e9}"]).repeat(r.range(33000, 40000));
    let mut ops = vec![json!({"sp": [2, 3], "r": cp(&t)})];
    for sp in [[0, 1], [4, 5], [1, 2], [3, 4]] { if r.pct(70) { ops.push(json!({"sp": sp, "r": cp(r.pick(&["", "long", "y"]))})) } }
    return json!({"t": "spl", "d": cp("abcdef"), "ops": ops})
  }
  let pieces = ["a", "\u{e9}", "bc", "\u{1f600}", "\n", "FROM"];
  let n = match r.size(500) { Some(n) if r.pct(30) => n.max(8), _ => r.range(60, 300) };
  let parts: Vec<&str> = (0..n).map(|_| r.pick(&pieces)).collect();
  let mut at = vec![0usize];
  for p in &parts { at.push(at[at.len() - 1] + p.len()) }
  let mut order: Vec<usize> = (0..n).collect();
  match r.below(3) { 0 => (), 1 => order.reverse(), _ => for i in (1..n).rev() { let j = r.below(i + 1); order.swap(i, j) } }
  order.truncate(r.range(n.min(40), n));
  let mut ops: Vec<Value> = order.iter().map(|i| {
    let t = r.pick(&["", "z", "yy", "\u{65e5}", "longer", "\n"]).to_string();
    json!({"sp": [at[*i], at[*i + 1]], "r": cp(&t)}) }).collect();
  if r.pct(30) { ops.push(json!({"sp": [at[n / 4], at[n]], "r": cp("all")})) }
  json!({"t": "spl", "d": cp(&parts.concat()), "ops": ops})
}
