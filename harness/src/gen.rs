//! Seeded random documents: grammar-aware, with malformed pieces and mutations mixed in.

pub struct Rng(u64);
impl Rng {
  pub fn new(seed: u64) -> Rng { let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0xd1b54a32d192ed03); r.next(); r.next(); r }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: usize) -> usize { (self.next() % (n.max(1) as u64)) as usize }
  /// mostly a few, now and then more
  pub fn some(&mut self, a: usize, b: usize) -> usize { if self.below(10) == 0 { self.range(b + 1, b + 6) } else { self.range(a, b) } }
  pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
  pub fn pct(&mut self, p: usize) -> bool { self.below(100) < p }
  pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T { xs[self.below(xs.len())] }
}

/// Words and sizes that the library's source mentions, and words of the domain (check.py writes them to the file DICT).
pub fn dict() -> &'static (Vec<String>, usize, Vec<usize>) {
  static D: std::sync::OnceLock<(Vec<String>, usize, Vec<usize>)> = std::sync::OnceLock::new();
  D.get_or_init(|| {
    let v: serde_json::Value = std::env::var("DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
    let words: Vec<String> = v["words"].as_array().map(|a| a.iter().map(crate::obs::text_of).collect()).unwrap_or_default();
    let sizes = v["sizes"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).map(|x| x as usize).collect()).unwrap_or_default();
    (words, v["own"].as_u64().unwrap_or(0) as usize, sizes)
  })
}
impl Rng {
  /// a word of the dictionary, in p of 100 cases
  pub fn dict(&mut self, p: usize) -> Option<String> {
    let (words, own, _) = dict();
    if words.is_empty() || !self.pct(p) { return None }
    let w = if *own > 0 && self.pct(50) { &words[self.below(*own)] } else { &words[self.below(words.len())] };
    Some(match self.below(8) { 0 => w.to_uppercase(), 1 => w.to_lowercase(), _ => w.clone() })
  }
  /// one without blanks or breaks
  pub fn dict_word(&mut self, p: usize) -> Option<String> { self.dict(p).map(|w| w.chars().filter(|c| !c.is_ascii_whitespace()).collect()) }
  pub fn size(&mut self, most: usize) -> Option<usize> {
    let at: Vec<usize> = dict().2.iter().copied().filter(|n| *n <= most).collect();
    if at.is_empty() { None } else { Some(at[self.below(at.len())]) }
  }
}

/// What a generated document concentrates on.
#[derive(Clone)]
pub struct Focus {
  pub kinds: Vec<String>,   // instruction kinds, drawn uniformly
  pub broken: usize,        // percentage of malformed operands
  pub mutate: usize,        // percentage of documents with character mutations
  pub layout: usize,        // percentage of separators that are not a single blank
  pub wide: usize,          // percentage of words with non-ASCII characters
  pub lines: (usize, usize),
}
impl Focus {
  pub fn all() -> Focus {
    Focus { kinds: ["FROM", "ARG", "LABEL", "RUN", "CMD", "ENTRYPOINT", "COPY", "ENV", "MISC"].iter().map(|s| s.to_string()).collect(),
            broken: 8, mutate: 15, layout: 35, wide: 12, lines: (1, 4) }
  }
}

pub struct Gen<'a> { pub r: &'a mut Rng, pub f: Focus, nl: usize, depth: usize }

const WIDE: &[&str] = &["é", "ß", "日本", "😀", "\u{a0}", "\u{2028}", "K", "ı", "\u{85}", "\u{feff}", "e\u{301}", "\u{b}", "\u{c}"];
const ODD: &[&str] = &["#", "\\", "=", "\"", "'", "`", "$", "{", "}", "[", "]", ",", ":", "/", "@", "&", "|", ";", "-", "--", "!", "\\\\", "\\n", "\\x", "%", "*", "(", "<", "~", "\u{0}", "\u{1f}", "\u{7f}"];
const PLAIN: &[&str] = &["a", "b", "foo", "bar", "x1", "alpine", "echo", "_v", "A", "AS", "as", "from", "9", "hello", "z-z", "run", "copy", "Arg", "env"];

const REAL: &[&str] = &["/usr/bin/x", "a/", "/", "./b", "../c", "/a/b/c/", "http://x/y.tgz", "*.txt", "file-1.2.tar.gz", "a.b.c", "1.2.3", "com.example.key", "KEY", "$X", "${X}", "${X:-y}", "$X$Y", "a:b", "a,b", "x=y", "--x", "-y", "--x=y", "a//b", "C:\\a", "0", "true", "a-b_c", "%d", "&&", "||", ";", ">x", "user:group", "8080/tcp", "~/a", ".", "..", "a.b/c", "'", "\"\"", "''"];

impl<'a> Gen<'a> {
  pub fn new(r: &'a mut Rng, f: Focus) -> Gen<'a> {
    let nl = match r.below(10) { 0..=5 => 0, 6..=7 => 1, 8 => 2, _ => 3 };
    Gen { r, f, nl, depth: 0 }
  }
  pub fn nl(&mut self) -> &'static str {
    match self.nl { 0 => "\n", 1 => "\r\n", 2 => self.r.pick(&["\n", "\r\n"]), _ => self.r.pick(&["\n", "\n", "\r\n", "\r"]) }
  }
  pub fn blanks(&mut self) -> String {
    if !self.r.pct(self.f.layout) { return " ".into() }
    self.r.pick(&[" ", "  ", "\t", " \t", "   ", "\t\t"]).to_string()
  }
  fn blanks0(&mut self) -> String { if self.r.pct(self.f.layout) { self.blanks() } else { String::new() } }
  pub fn comment(&mut self) -> String {
    if let Some(w) = self.r.dict_word(8) { return if w.starts_with('#') { w } else { format!("#{}{}", self.r.pick(&["", " "]), w) } }
    let mut s = String::from("#");
    for _ in 0..self.r.below(4) { s.push_str(&self.piece()); if self.r.pct(40) { s.push(' ') } }
    if self.r.pct(12) { s.push('\\') }
    s
  }
  /// a continuation: backslash, blanks, break, then possibly comment and blank lines
  pub fn cont(&mut self, filler: bool) -> String {
    let mut s = String::from("\\");
    if self.r.pct(25) { s.push_str(&self.blanks()) }
    s.push_str(self.nl());
    if filler && self.r.pct(35) {
      for _ in 0..self.r.some(1, 2) {
        if self.r.pct(60) { s.push_str(&self.blanks0()); let c = self.comment(); s.push_str(&c); s.push_str(self.nl()) }
        else { s.push_str(&self.blanks0()); s.push_str(self.nl()) }
      }
    }
    s
  }
  pub fn sep(&mut self) -> String {
    if !self.r.pct(self.f.layout) { return " ".into() }
    let mut s = String::new();
    match self.r.below(4) {
      0 | 1 => s.push_str(&self.blanks()),
      2 => { s.push_str(&self.blanks()); s.push_str(&self.cont(true)); s.push_str(&self.blanks0()) },
      _ => for _ in 0..self.r.some(1, 2) { s.push_str(&self.blanks0()); s.push_str(&self.cont(true)); s.push_str(&self.blanks0()) },
    }
    s
  }
  fn gap(&mut self) -> String { if self.r.pct(50) { String::new() } else { self.sep() } }
  pub fn kw(&mut self, k: &str) -> String {
    match self.r.below(5) {
      0 | 1 => k.to_uppercase(), 2 => k.to_lowercase(),
      _ => k.chars().map(|c| if self.r.pct(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
  }
  fn letters(&mut self, n: usize) -> String { (0..self.r.range(1, n)).map(|_| char::from(b'a' + self.r.below(26) as u8)).collect() }
  pub fn ident(&mut self) -> String {
    if let Some(w) = self.r.dict_word(8) { let t: String = w.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_' || *c == '-').collect(); if !t.is_empty() { return t } }
    if self.r.pct(1) { if let Some(n) = self.r.size(300) { return "abcXYZ019_".chars().cycle().take(n).collect() } }
    if self.r.pct(3) { return (0..self.r.range(20, 70)).map(|_| *b"abcXYZ019_".get(self.r.below(10)).unwrap() as char).collect() }
    let mut s = self.letters(3);
    if self.r.pct(30) { s.push_str(self.r.pick(&["_", "1", "_2", "-", "-x", "A"])) }
    if self.r.pct(10) { s = s.to_uppercase() }
    s
  }
  pub fn piece(&mut self) -> String {
    if let Some(w) = self.r.dict_word(4) { if !w.is_empty() { return w } }
    if self.r.pct(self.f.wide) { return self.r.pick(WIDE).to_string() }
    if self.r.pct(25) { return self.r.pick(ODD).to_string() }
    self.r.pick(PLAIN).to_string()
  }
  /// a word without blanks or breaks
  pub fn word(&mut self) -> String {
    if let Some(w) = self.r.dict_word(5) { if !w.is_empty() { return w } }
    if self.r.pct(12) { return self.quoted_or_tick() }
    if self.r.pct(12) { return self.r.pick(REAL).to_string() }
    let mut s = String::new();
    for _ in 0..self.r.range(1, 3) { s.push_str(&self.piece()) }
    s
  }
  pub fn escape(&mut self) -> String {
    match self.r.below(12) {
      0..=5 => self.r.pick(&["\\n", "\\t", "\\\\", "\\\"", "\\'", "\\r", "\\b", "\\f", "\\a", "\\v", "\\`"]).to_string(),
      6 => format!("\\x{:02x}", self.r.below(256)),
      7 => { let n = if self.r.pct(90) { 256 } else { 512 }; format!("\\{:03o}", self.r.below(n)) },
      8 => format!("\\u{:04X}", match self.r.below(4) { 0 => 0xd7ff + self.r.below(0x803), 1 => self.r.below(128), _ => self.r.below(0x10000) }),
      9 => format!("\\U{:08x}", match self.r.below(4) { 0 => 0x10fff0 + self.r.below(32), 1 => 0xd7f0 + self.r.below(32), _ => 0x1f600 + self.r.below(64) }),
      10 => if self.r.pct(self.f.broken * 4) { self.r.pick(&["\\q", "\\ ", "\\x4", "\\u12", "\\U0001", "\\8", "\\12", "\\xzz", "\\400", "\\+12", "\\x+1", "\\u+041", "\\é"]).to_string() } else { "\\n".into() },
      _ => if self.r.pct(30) { format!("\\{}", self.nl()) } else { "\\\\".into() },
    }
  }
  pub fn quoted(&mut self, q: char) -> String {
    let mut s = String::from(q);
    for _ in 0..self.r.below(5) {
      if let Some(w) = self.r.dict(3) { s.push_str(&w); continue }
      match self.r.below(6) {
        0 => { let e = self.escape(); s.push_str(&e) },
        1 => s.push_str(self.r.pick(&[" ", "  ", "#", ", ", "]", "[", "=", "\t", " #x", "'", "\""])),
        2 => if self.r.pct(20) { s.push_str(self.nl()) } else { s.push(' ') },
        _ => { let p = self.piece(); if p != "\\" && p != "\\x" || self.r.pct(20) { s.push_str(&p) } },
      }
    }
    let mut t: String = String::new();
    // keep inner quotes of the same kind only now and then
    let inner = s[1..].to_string();
    let mut prev = ' ';
    for c in inner.chars() { if c == q && prev != '\\' && !self.r.pct(self.f.broken) { continue } t.push(c); prev = if prev == '\\' && c == '\\' { ' ' } else { c } }
    if self.r.pct(self.f.broken / 3) { format!("{}{}", q, t) } else { format!("{}{}{}", q, t, q) }
  }
  fn quoted_any(&mut self) -> String { let q = if self.r.pct(70) { '"' } else { '\'' }; self.quoted(q) }
  fn quoted_or_tick(&mut self) -> String {
    if self.r.pct(85) { self.quoted_any() } else { let w: String = self.quoted('`').chars().filter(|c| !c.is_whitespace()).collect(); w }
  }
  /// what a breakage puts behind a complete instruction
  fn glue(&mut self) -> String {
    if !self.r.pct(self.f.broken) { return String::new() }
    let w = self.word();
    match self.r.below(5) { 0 => w, 1 => format!(" {}", w), 2 => " \\".into(), 3 => " # c".into(), _ => format!("{}{}", self.sep(), w) }
  }
  fn skip(&mut self) -> bool { let b = self.f.broken; self.r.pct(b) }

  fn flag(&mut self) -> String {
    if self.skip() { return self.r.pick(&["--", "--x", "--x=", "-x=y", "--a-b=c", "--=v", "--A_b=1"]).to_string() }
    let v = if self.r.pct(20) { self.quoted_any().replace([' ', '\t', '\n', '\r'], "") } else { self.word() };
    let n = match self.r.dict(12) { Some(w) => { let t: String = w.chars().filter(|c| c.is_ascii_alphabetic()).collect(); if t.is_empty() { "x".into() } else { t } }, None => self.r.pick(&["platform", "from", "chown", "x", "A"]).to_string() };
    format!("--{}={}", n, v)
  }
  pub fn image(&mut self) -> String {
    let fits = |w: String| -> String { w.chars().filter(|c| c.is_ascii_alphanumeric() || "_-.:/${}@".contains(*c)).collect() };
    if let Some(w) = self.r.dict(12) {
      let w = fits(w);
      if !w.is_empty() { return match self.r.below(7) { 0 => w, 1 => format!("{}/a", w), 2 => format!("a/{}", w), 3 => format!("{}:1", w), 4 => format!("a:{}", w), 5 => format!("{}/{}", w, fits(self.r.dict(100).unwrap_or_default())), _ => format!("{}{}", w, fits(self.r.dict(100).unwrap_or_default())) } }
    }
    let name = |g: &mut Self| -> String { match g.r.below(8) {
      0 => "scratch".into(), 1 => "$img".into(), 2 => "${a}".into(), 3 => "Scratch".into(), 4 => format!("{}/{}", g.letters(2), g.letters(2)), 5 => format!("{}.{}", g.letters(2), g.letters(2)),
      _ => g.r.pick(&["alpine", "a", "b", "foo", "x_y", "A", "base", "Base"]).into() } };
    let mut s = String::new();
    match self.r.below(9) { 0 => s.push_str("localhost/"), 1 => s.push_str("h.io/"), 2 => s.push_str("h:80/"), 3 => s.push_str("lib/"), 4 => s.push_str("a.b/c/"), _ => () }
    s.push_str(&name(self));
    match self.r.below(10) {
      0 | 1 => { let t = self.ident(); s.push(':'); s.push_str(&t) }, 2 => s.push_str(":$tag"), 3 => { s.push_str(":1"); if self.r.pct(30) { s.push_str(":2") } },
      4 => { if self.r.pct(30) { s.push_str(":t") } s.push_str(&self.digest()) }, _ => () }
    s
  }
  pub fn digest(&mut self) -> String {
    let hex = b"0123456789abcdefABCDEF";
    let n = if self.skip() { self.r.pick(&[&63usize, &65, &0, &1, &128, &32]).to_owned() } else { 64 };
    let mut h: Vec<char> = (0..n).map(|_| hex[self.r.below(hex.len())] as char).collect();
    if self.skip() && !h.is_empty() { let i = self.r.below(h.len()); h[i] = *b"gGzxZ_-:./@".get(self.r.below(11)).unwrap() as char }
    let alg = if let Some(w) = self.r.dict_word(4) { Box::leak(w.into_boxed_str()) } else if self.skip() { self.r.pick(&["sha512:", "SHA256:", "sha256", "", "sha256::", "sha256:a:", "xsha256:"]) } else { "sha256:" };
    format!("@{}{}", alg, h.into_iter().collect::<String>())
  }
  fn from(&mut self) -> String {
    let mut s = self.kw("from");
    for _ in 0..(if self.r.pct(20) { self.r.some(1, 2) } else { 0 }) { s += &self.sep(); s += &self.flag() }
    if !self.skip() { s += &self.sep(); s += &self.image() }
    if self.r.pct(45) {
      s += &self.sep();
      if self.skip() { s += "a" } else { s += &self.kw("as") }
      if !self.skip() { s += &self.sep() }
      if !self.skip() { s += &self.alias() }
    }
    s + &self.glue()
  }
  pub fn alias(&mut self) -> String { if self.r.pct(6) { return self.ident() } if self.r.pct(60) { self.r.pick(&["a", "A", "base", "Base", "foo", "0", "1", "b-1", "B_2", "-x", "scratch", "alpine", "as"]).to_string() } else { self.ident() } }
  fn arg(&mut self) -> String {
    let mut s = self.kw("arg");
    if self.skip() { return s + &self.word() }
    s += &self.sep();
    if let Some(w) = self.r.dict_word(8) { s += &w }
    else { s += &(if self.skip() { self.r.pick(&["_x", "1a", "é", "", "a-b", "\"q\""]).to_string() } else { self.r.pick(&["a", "img", "tag", "x_1", "A", "Foo", "b2_", "tAg"]).to_string() }); }
    if self.r.pct(65) { s += "="; if !self.skip() { s += &(match self.r.below(10) { 0..=3 => self.quoted_any(), 4 => self.quoted_or_tick(), 5 => self.image(), _ => self.word() }) } }
    s + &self.glue()
  }
  fn label(&mut self) -> String {
    let mut s = self.kw("label");
    let part = |g: &mut Self| if g.r.pct(45) { g.quoted_any() } else { g.word() };
    if self.r.pct(25) { s += &self.sep(); s += &part(self); s += &self.sep(); s += &part(self) }
    else {
      for _ in 0..self.r.some(1, 3) {
        s += &self.sep(); s += &part(self);
        if !self.skip() { s += "=" } if self.r.pct(3) { s += "=" }
        if !self.skip() { s += &part(self) }
      }
    }
    if self.r.pct(10) { s += &self.blanks() }
    s + &self.glue()
  }
  fn env(&mut self) -> String {
    let mut s = self.kw("env");
    let name = |g: &mut Self| if let Some(w) = g.r.dict_word(8) { w } else if g.skip() { g.word() } else { g.r.pick(&["a", "B", "x_1", "_y", "9", "PATH", "foo"]).to_string() };
    if self.r.pct(40) { s += &self.sep(); s += &name(self); s += &self.sep(); if self.r.pct(25) { s += &self.quoted_any() } else { s += &self.shell() } }
    else {
      for _ in 0..self.r.some(1, 3) {
        s += &self.sep(); s += &name(self);
        if !self.skip() { s += "=" }
        if !self.skip() { s += &(if self.r.pct(45) { self.quoted_any() } else { self.word() }) }
      }
    }
    if self.r.pct(10) { s += &self.sep() }
    s + &self.glue()
  }
  /// shell text: words and blanks, with continuations and comment lines in between
  pub fn shell(&mut self) -> String {
    let mut s = String::new();
    if self.r.pct(6) { s += "[" }
    for i in 0..self.r.some(1, 4) {
      if i > 0 { s += &self.blanks() }
      s += &self.word();
      if self.r.pct(self.f.layout) {
        if self.r.pct(70) { s += " " }
        s += "\\"; if self.r.pct(20) { s += &self.blanks() }
        s += self.nl();
        while self.r.pct(30) { s += &self.blanks0(); let c = self.comment(); s += &c; s += self.nl() }
        if self.r.pct(5) { s += self.nl() }
        s += &self.blanks0();
        if self.r.pct(8) { s += "a # no comment" }
      }
    }
    if self.r.pct(15) { s += &self.blanks() }
    if self.r.pct(self.f.broken / 2) { s += "\\" }
    s
  }
  pub fn exec(&mut self) -> String {
    let mut s = String::from("["); s += &self.gap();
    let n = self.r.below(4);
    for i in 0..n {
      if i > 0 { s += &self.gap(); if !self.skip() { s += "," } s += &self.gap() }
      s += &(if self.skip() { self.word() } else if self.r.pct(80) { self.quoted('"') } else { self.quoted('\'') });
    }
    if self.r.pct(7) { s += &self.gap(); s += "," }
    s += &self.gap();
    if !self.skip() { s += "]" }
    s
  }
  fn command(&mut self, k: &str) -> String {
    let mut s = self.kw(k);
    if self.skip() { s += &self.piece() } else { s += &self.sep() }
    if self.r.pct(45) { s += &self.exec(); if self.r.pct(15) { s += &self.blanks() } s + &self.glue() } else { s + &self.shell() }
  }
  fn copy(&mut self) -> String {
    let mut s = self.kw("copy");
    for _ in 0..(if self.r.pct(35) { self.r.some(1, 3) } else { 0 }) { s += &self.sep(); s += &self.flag() }
    let n = if self.skip() { self.r.below(2) } else { self.r.some(2, 4) };
    for _ in 0..n { s += &self.sep(); s += &(match self.r.below(8) { 0 => self.quoted_any().replace([' ', '\t', '\n', '\r'], ""), 1 => self.flag(), 2 => ".".into(), _ => self.word() }) }
    s + &self.glue()
  }
  fn misc(&mut self) -> String {
    let w = match self.r.below(6) { 0 => self.letters(4), 1 => self.r.pick(&["FROMX", "RUNNER", "args", "ENVI", "labels", "copying", "cmds", "fro", "ru", "entry"]).to_string(),
      _ => self.r.pick(&["WORKDIR", "USER", "EXPOSE", "add", "Volume", "ONBUILD", "shell", "HEALTHCHECK", "MAINTAINER"]).to_string() };
    let w = match self.r.dict(12) { Some(x) => { let t: String = x.chars().take_while(|c| c.is_ascii_alphabetic() || *c == ' ').collect(); if t.is_empty() { w } else { t } }, None => w };
    let mut s = self.kw(&w);
    if self.r.pct(50) && self.f.layout > 0 { s = w }
    if self.r.pct(10) { s += &self.r.pick(&["=", "-x", ".", "1", "\"a\"", "#x", "é"]).to_string() }
    if self.r.pct(90) { s += &self.blanks(); if self.r.pct(15) { s += &self.cont(false) } s += &self.shell() }
    s
  }
  pub fn instruction(&mut self, k: &str) -> String {
    match k {
      "FROM" => self.from(), "ARG" => self.arg(), "LABEL" => self.label(), "RUN" => self.command("run"), "CMD" => self.command("cmd"),
      "ENTRYPOINT" => self.command("entrypoint"), "COPY" => self.copy(), "ENV" => self.env(), _ => self.misc(),
    }
  }
  pub fn document(&mut self) -> String {
    let mut s = String::new();
    if self.r.pct(4) { return self.noise() }
    let n = self.r.range(self.f.lines.0, self.f.lines.1);
    for i in 0..n {
      if self.r.pct(self.f.layout / 3) { s += &self.blanks0(); if self.r.pct(60) { let c = self.comment(); s += &c } s += self.nl() }
      s += &self.blanks0();
      let k = self.f.kinds[self.r.below(self.f.kinds.len())].clone();
      s += &self.instruction(&k);
      if self.r.pct(self.f.layout / 3) { s += &self.blanks() }
      if i + 1 < n || self.r.pct(60) { s += self.nl() }
    }
    if self.r.pct(self.f.mutate) { for _ in 0..self.r.range(1, 2) { s = self.mutate(&s) } }
    self.depth += 1;
    s
  }
  /// A well-formed document of several stages, whose lines have to do with each other.
  pub fn related(&mut self) -> String {
    let names = ["a", "b", "c", "base", "v"];
    let name = |g: &mut Self| g.r.pick(&names).to_string();
    let nl = ["\n", "\n", "\n", "\r\n"][self.r.below(4)];
    let mut s = String::new();
    for _ in 0..self.r.below(3) { s += &match self.r.below(3) { 0 => format!("ARG {}{}", name(self), nl), 1 => format!("ARG {}={}{}", name(self), name(self), nl), _ => format!("ARG {}=${}{}", name(self), name(self), nl) } }
    let stages = self.r.range(1, 3);
    for _ in 0..stages {
      let im = match self.r.below(8) { 0 => format!("${}", name(self)), 1 => format!("{}:{}", name(self), name(self)), 2 => format!("${{{}}}:$v", name(self)), 3 => "scratch".into(), 4 => self.image(), _ => name(self) };
      s += &format!("FROM {}{}{}", im, if self.r.pct(60) { format!(" AS {}", name(self)) } else { String::new() }, nl);
      for _ in 0..self.r.below(5) {
        let from = match self.r.below(4) { 0 => self.r.below(4).to_string(), 1 => name(self), 2 => format!("{}:1", name(self)), _ => format!("${}", name(self)) };
        let l = match self.r.below(20) {
          0 | 1 => format!("COPY --from={} {} {}", from, name(self), name(self)),
          2 => format!("COPY --chown={} --from={} {} {} ./", name(self), from, name(self), name(self)),
          3 => format!("COPY {} {}", name(self), name(self)),
          4 => format!("CMD {}", name(self)), 5 => format!("CMD [\"{}\"]", name(self)),
          6 => format!("ENTRYPOINT {}", name(self)), 7 => format!("ENTRYPOINT [\"{}\", '{}']", name(self), name(self)),
          8 => format!("ENV {}={}", name(self), name(self)), 9 => format!("ENV {}=1 {}=${}", name(self), name(self), name(self)), 10 => format!("ENV {} ${} x", name(self), name(self)),
          11 => format!("LABEL {}={}", name(self), name(self)), 12 => format!("LABEL {}=1 {}=\"2\"", name(self), name(self)),
          13 => format!("ARG {}", name(self)), 14 => format!("ARG {}=${{{}}}", name(self), name(self)),
          15 => format!("RUN {} ${} \\{}  && {}", name(self), name(self), nl, name(self)), 16 => format!("RUN [\"{}\"]", name(self)),
          17 => format!("USER ${}", name(self)), 18 => format!("{} {}", self.r.pick(&["WORKDIR", "SHELL", "EXPOSE", "VOLUME", "STOPSIGNAL", "MAINTAINER", "ADD a"]), name(self)),
          _ => format!("{} {} {}", self.r.pick(&["ONBUILD", "HEALTHCHECK"]), self.r.pick(&["CMD", "RUN", "COPY --from=a b", "NONE", "FROM", "ENTRYPOINT"]), name(self)),
        };
        s += &l; s += nl;
        if self.r.pct(8) { let k = s.len() - l.len() - nl.len(); let again = s[k..].to_string(); s += &again }
        if self.r.pct(8) { s += &format!("# {}{}", name(self), nl) }
      }
    }
    if self.r.pct(30) { s.truncate(s.len() - nl.len()) }
    s
  }
  fn noise(&mut self) -> String {
    let mut s = String::new();
    for _ in 0..self.r.below(12) {
      match self.r.below(6) { 0 => { let k = self.r.pick(&["from", "run", "arg", "label", "copy", "env", "cmd", "entrypoint", "x"]); s += &self.kw(k) },
        1 => s += self.nl(), 2 => s += &self.sep(), 3 => s += &self.piece(), 4 => s += &self.quoted_or_tick(), _ => s += &self.word() }
    }
    s
  }
  pub fn mutate(&mut self, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    let i = self.r.below(cs.len() + 1);
    if let Some(w) = self.r.dict(25) { let t: String = cs[..i].iter().collect::<String>() + &w + &cs[i..].iter().collect::<String>(); return t }
    let special: Vec<char> = " \t\n\r\\\\##\"'`=[],-$@:.\u{0}aR9éA\u{a0}".chars().collect();
    let c = special[self.r.below(special.len())];
    match self.r.below(6) {
      0 if !cs.is_empty() => { cs.remove(i.min(cs.len() - 1)); },
      1 if !cs.is_empty() => { let j = i.min(cs.len() - 1); cs[j] = c },
      2 if cs.len() > 2 => { let j = self.r.below(cs.len() - 1); cs.swap(j, j + 1) },
      3 if cs.len() > 2 => { let j = self.r.below(cs.len()); cs.truncate(j) },
      4 if cs.len() > 2 => { let j = self.r.below(cs.len()); let n = self.r.range(1, 6).min(cs.len() - j); let seg: Vec<char> = cs[j..j + n].to_vec(); let at = i.min(cs.len()); for (k, x) in seg.into_iter().enumerate() { cs.insert(at + k, x) } },
      _ => cs.insert(i.min(cs.len()), c),
    }
    cs.into_iter().collect()
  }
}
