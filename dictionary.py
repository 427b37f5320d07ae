"""Words and numbers that the library's own source mentions, and some of the domain.

They only steer which inputs are explored (as the dictionary of a fuzzer does): a word or a size
that the code treats specially is likely to be written in it.  What an input should give is still
the specification's business alone."""
import glob, json, os, re

TOKEN = re.compile(r'''
   (?P<lc>//[^\n]*) | (?P<bc>/\*.*?\*/)
 | b?r(?P<h>\#*)"(?P<raw>.*?)"(?P=h)
 | b?"(?P<str>(?:\\.|[^"\\])*)"
 | b?'(?P<chr>\\u\{[0-9A-Fa-f_]+\}|\\x[0-9A-Fa-f]{2}|\\.|[^'\\\n])'
 | \b1(?:_?[iu](?:8|16|32|64|size))?\s*<<\s*(?P<shift>\d+)
 | \b(?P<num>0x[0-9A-Fa-f_]+|\d[\d_]*)
''', re.X | re.S)

DOMAIN = ["docker.io", "index.docker.io", "docker.io/", "library/", "latest", ":latest", "scratch", "ghcr.io/", "quay.io", "127.0.0.1:5000/", "[::1]:5000/", "localhost:5000/", "sha256:", "sha512:", "host/",
          "--platform=linux/amd64", "--mount=type=cache", "--network=none", "--link", "--chmod=755", "--from=0", "--from=scratch", "ONBUILD", "ONBUILD RUN", "HEALTHCHECK", "HEALTHCHECK NONE", "HEALTHCHECK CMD", "MAINTAINER", "SHELL",
          "STOPSIGNAL", "WORKDIR", "EXPOSE", "VOLUME", "USER", "ADD", "<<EOF", "<<-EOF", "EOF", "# syntax=docker/dockerfile:1", "# escape=`", "# escape=\\", "#!", "// x", "$BUILDPLATFORM", "TARGETARCH", "HTTP_PROXY", "PATH", "$PATH", "${x:-y}",
          "${x:+y}", "/bin/sh", "-c", "&&", "||", "|", ";", "..", "./", "/", "*", "?", "~", "null", "true", "none", "0", "00", "1e3", "0x1", "-1", "%", "%s", "{}", "\\/", "\\$", "\\ ", "\\x41", "\\u{41}", "''", "\"\"", "as", "AS", "from", "arg"]

def unescape(t):
  def one(m):
    c = m.group(1)
    if c[0] == "u": return chr(min(int(c[2:-1].replace("_", ""), 16), 0x10ffff))
    if c[0] == "x" and len(c) > 1: return chr(int(c[1:], 16))
    if c[0] == "\n": return ""
    return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(c, c)
  return re.sub(r"\\(u\{[0-9A-Fa-f_]+\}|x[0-9A-Fa-f]{2}|\n\s*|.)", one, t, flags=re.S)

def scan(repo):
  words, numbers = [], set()
  files = sorted(glob.glob(repo + "/src/**/*.rs", recursive=True) + glob.glob(repo + "/src/**/*.pest", recursive=True))
  for f in files:
    with open(f, encoding="utf-8", errors="replace") as h: s = h.read()
    s = re.split(r"#\[cfg\(test\)\]\s*mod\s+\w+\s*\{", s)[0]
    for m in TOKEN.finditer(s):
      t = None
      if m.group("raw") is not None: t = m.group("raw")
      elif m.group("str") is not None: t = unescape(m.group("str"))
      elif m.group("chr") is not None: t = unescape(m.group("chr"))
      elif m.group("shift"): numbers.add(1 << min(int(m.group("shift")), 40))
      elif m.group("num"):
        try: numbers.add(int(m.group("num").replace("_", ""), 0))
        except ValueError: pass
      if not t: continue
      if len(t) <= 40 and t.count(" ") <= 2 and not re.search(r"Instruction$|\.pest$", t): words.append(t)
      if len(t) <= 200 and t.count(" ") <= 2 and not re.fullmatch(r"[\w.-]+", t):
        words += [x for x in re.findall(r"[A-Za-z0-9_.\-]{2,}", t) if len(x) <= 40]
  return words, numbers

ENCLOSING = [("[", "]"), ("{", "}"), ("(", ")"), ("<", ">"), ("'", "'"), ('"', '"'), ("`", "`"), ("${", "}"), ("$(", ")"), ('["', '"]'), ("['", "']"), ("<<EOF", "EOF"), ("<<-EOF", "EOF"), ("<<'EOF'", "EOF"), ("/*", "*/"), ("<", "/>"), ("%", "%"), ("--", "--"),
             ("if", "fi"), ("begin", "end"), ("-----BEGIN", "-----END"), ("\\", "\\"), ("http://", "/"), ("a:", ":b"), ("//", "//"), ("..", ".."), ("#", "#"), ("=", "="), (",", ","), (";", ";"), ("$", "$"), ("$$", "$$"), ("@", "@"), (":", ":"), ("~", "~"), ("!", "!"), ("?", "*"), ("|", "|"), ("&", "&"), ("&&", "||")]
# the words that the source had when the specification was written: later ones are tried first, and in pairs
KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "words.json")
MOST_PAIRS = 2400

def pairs_of(new, old):
  ps = list(ENCLOSING)
  for a, b in ((new, new), (new, old), (old, new)): ps += [(x, y) for x in a for y in b]
  if len(ps) > MOST_PAIRS:
    keep, rest = ps[:len(ENCLOSING) + 900], ps[len(ENCLOSING) + 900:]
    step = len(rest) / (MOST_PAIRS - len(keep))
    ps = keep + [rest[int(k * step)] for k in range(MOST_PAIRS - len(keep))]
  if len(ps) < MOST_PAIRS and old:
    # some pairs of the others, spread evenly
    total = len(old) * len(old); k = min(total, MOST_PAIRS - len(ps))
    for j in range(k): n = (j * total // k + j * 7) % total; ps.append((old[n // len(old)], old[n % len(old)]))
  return ps

def dictionary(repo):
  own, numbers = scan(repo)
  usable = lambda w: not any(0xd800 <= ord(c) < 0xe000 for c in w)
  try: known = set(json.load(open(KNOWN)))
  except (OSError, ValueError): known = set()
  own = sorted({w for w in own if usable(w)}, key=lambda w: (w in known, w))[:150]
  new = [w for w in own if w not in known][:60]
  words = own + [w for w in DOMAIN if w not in own]
  sizes = sorted({n + d for n in numbers if 3 <= n <= 70000 for d in (-1, 0, 1)})
  if len(sizes) > 30: sizes = sizes[:10] + sizes[-20:]
  return {"words": [[ord(c) for c in w] for w in words], "own": len(own), "sizes": sizes,
          "pairs": [[[ord(c) for c in a], [ord(c) for c in b]] for a, b in pairs_of(new, [w for w in words if w not in new])]}

if __name__ == "__main__":      # writes words.json from the tree as it is
  json.dump(sorted(set(scan("/repo")[0])), open(KNOWN, "w"), indent=0)
