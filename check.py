#!/usr/bin/env python3
"""check.py PROPERTY            decide one property (VERIF_TIER, VERIF_SEED from the environment)
   check.py PROPERTY --replay F  run one recorded case again and judge it

The specification (spec/*.tla) is model checked with TLC, which also writes the cases; the harness
runs them on the library in /repo; what differs from the specification's outcome, and seeded
executions, are validated as traces against the specification.  Exit 0: holds, 1: VIOLATION, 2: error."""
import json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF); sys.dont_write_bytecode = True
from dictionary import dictionary
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness", "target", "debug", "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
DEEP = TIER == "thorough"
CORES = min(8, os.cpu_count() or 4)

# property -> models that enumerate cases, specification that validates traces, seeded executions
#   gen: (module, families or None); random: [(kind of case, quick, thorough)]
P, E = "TraceParse", "TraceEntry"
def scaled(prop, quick=600, deep=12000): return (E, "R:" + prop, quick, deep)
PUMP, HUGE, NUM = (E, "PUMP", 108, 540), (E, "HUGE", 54, 108), (E, "NUM", 0, 0)
LAY, LAYNUM = (E, "LAY", 336, 1008), (E, "LAYNUM", 0, 0)      # as many texts as the table has, and longer ones
PLAN = {
  "C01": dict(gen=[("Gen", ["unicode", "seq.lines", "escape", "edge.front", "edge.back", "dict.line", "dict.run", "pairs.line"])], trace=E, random=[("C01", 4000, 60000)], extra=[PUMP, HUGE, NUM]),
  "C02": dict(gen=[("GenReader", None)], trace="TraceReader", random=[("C02", 5000, 80000), ("R:C02", 400, 3000)]),
  "C03": dict(gen=[("Gen", ["keyword", "inter", "lines", "seq.lines", "chars.misc", "dict.line", "pairs.line"])], trace=P, random=[("C03", 5000, 80000)], extra=[scaled("C03"), PUMP, HUGE, NUM]),
  "C04": dict(gen=[("Gen", ["residue", "inter", "seq.lines", "lines", "from", "copy", "edge.front", "edge.back", "chars.from", "chars.copy", "chars.arg", "dict.line", "dict.from", "dict.copy", "pairs.line", "pairs.from", "pairs.copy"])], trace=P, random=[("C04", 5000, 80000)], extra=[scaled("C04"), PUMP, HUGE, NUM]),
  "C05": dict(gen=[("Gen", ["unicode", "from", "label", "seq.envshell", "exec", "dict.label", "dict.run", "dict.env", "pairs.env", "pairs.label"])], trace=P, random=[("C05", 5000, 80000)], extra=[scaled("C05"), PUMP, HUGE, NUM]),
  "C06": dict(gen=[("GenRelSpan", None)], trace="TraceRelSpan", random=[("C06", 5000, 60000), ("R:C06", 1000, 10000)]),
  "C07": dict(gen=[("GenLayout", None)], trace="TraceLayout", random=[("C07", 4000, 60000)], extra=[LAY, LAYNUM]),
  "C08": dict(gen=[("Gen", ["shell", "seq.shell", "seq.envshell", "chars.run", "chars.misc", "dict.run", "dict.line", "pairs.run"])], trace=P, random=[("C08", 5000, 80000)], extra=[scaled("C08"), PUMP, HUGE, NUM]),
  "C09": dict(gen=[("Gen", ["exec", "seq.exec", "chars.run", "dict.run", "pairs.run"])], trace=P, random=[("C09", 5000, 80000)], extra=[scaled("C09"), PUMP, HUGE, NUM]),
  "C10": dict(gen=[("Gen", ["env", "arg", "label", "seq.env", "seq.label", "chars.arg", "chars.env", "chars.label", "dict.arg", "dict.env", "dict.label", "pairs.arg", "pairs.env", "pairs.label"])], trace=P, random=[("C10", 5000, 80000)], extra=[scaled("C10"), PUMP, HUGE, NUM]),
  "C11": dict(gen=[("Gen", ["escape", "seq.quoted", "chars.arg", "chars.label", "dict.arg", "dict.label", "dict.run", "pairs.run", "pairs.arg"])], trace=P, random=[("C11", 5000, 80000)], extra=[scaled("C11"), PUMP, HUGE, NUM]),
  "C12": dict(gen=[("Gen", ["from", "digest", "digest2", "chars.from", "dict.from", "pairs.from"])], trace=P, random=[("C12", 5000, 80000)], extra=[scaled("C12"), PUMP, HUGE, NUM]),
  "C13": dict(gen=[("Gen", ["copy", "seq.copy", "chars.copy", "dict.copy", "pairs.copy"])], trace=P, random=[("C13", 5000, 80000)], extra=[scaled("C13"), PUMP, HUGE, NUM]),
  "C14": dict(gen=[("Gen", ["misc", "keyword", "chars.misc", "dict.line", "pairs.line"])], trace=P, random=[("C14", 5000, 80000)], extra=[scaled("C14"), PUMP, HUGE, NUM]),
  "C15": dict(gen=[("GenRefScan", None)], trace="TraceRefScan", random=[("C15", 8000, 200000)]),
  "C16": dict(gen=[("GenSubst", None)], trace="TraceSubst", random=[("C16", 8000, 100000)]),
  "C17": dict(gen=[("GenResolve", None)], trace="TraceResolve", random=[("C17", 4000, 60000)], extra=[scaled("C17")]),
  "C18": dict(gen=[("GenStages", None)], trace="TraceStages", random=[("C18", 4000, 60000)], extra=[scaled("C18", 400)]),
  "C19": dict(gen=[("GenStages", None)], trace="TraceStages", random=[("C19", 4000, 60000)], extra=[scaled("C19", 400)]),
  "C20": dict(gen=[("GenStages", None)], trace="TraceStages", random=[("C20", 4000, 60000)]),
  "C21": dict(gen=[("GenSplice", None)], trace="TraceSplice", random=[("C21", 6000, 80000)]),
  "C22": dict(gen=[("GenEdit", None)], trace="TraceEdit", random=[("C22", 4000, 50000)]),
  "C23": dict(gen=[("Gen", ["inter", "keyword", "lines", "dict.line", "pairs.line"])], trace="TraceTyped", random=[("C23", 5000, 80000)]),
  "C26": dict(gen=[("GenValues", None)], trace="TraceValues", random=[("C26", 3000, 40000)]),
  "C25": dict(gen=[("GenConcat", None)], trace="TraceConcat", random=[("C25", 2500, 40000)]),
  "C24": dict(gen=[("Gen", ["inter", "lines", "residue", "digest", "escape", "edge.back", "chars.run", "dict.line", "dict.arg", "pairs.line", "pairs.arg"])], trace=P, random=[("C24", 5000, 80000)], extra=[scaled("C24"), PUMP, HUGE, NUM]),
}
MOST = 3000            # differing cases that are judged
CASE_LIMIT = "30"      # seconds for one case

class ToolError(Exception): pass

def say(*a): print(*a, flush=True)

def build():
  r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
  if r.returncode != 0: raise ToolError("the harness does not build against /repo:\n" + r.stdout[-4000:])

def tlc(module, out, work, env, limit):
  """Run TLC; returns (states generated, distinct states)."""
  e = dict(os.environ); e.update(env); e["VERIF_TIER"] = TIER
  meta = tempfile.mkdtemp(dir=work)
  cmd = ["java", "-XX:+UseParallelGC", "-Xss512m", "-Xmx10g", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", str(CORES), "-metadir", meta, "-noGenerateSpecTE", "-config", module + ".cfg", module + ".tla"]
  with open(out, "w") as f:
    try: r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=limit)
    except subprocess.TimeoutExpired: raise ToolError("TLC on %s did not end within %d s" % (module, limit))
  shutil.rmtree(meta, ignore_errors=True)
  tail = ""
  with open(out) as f:
    stats, done = None, False
    for line in f:
      if line.startswith('"{'): continue
      if "No error has been found" in line: done = True
      m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
      if m: stats = tuple(int(x.replace(",", "")) for x in m.groups())
      if not line.startswith("Progress") and len(tail) < 6000: tail += line
  if r.returncode != 0 or not done or stats is None: raise ToolError("TLC on %s:\n%s" % (module, tail))
  return stats

def died_record(case, how):
  """What is recorded for a case that ended the process: was it the parse itself?"""
  where = "other"
  if isinstance(case.get("d"), list) and case.get("t") not in ("spl", "img", "sub"):
    with tempfile.TemporaryDirectory() as t:
      with open(t + "/c", "w") as f: f.write(json.dumps({"t": "p", "d": case["d"]}) + "\n")
      try:
        if subprocess.run([HARNESS, "exec", t + "/c", t + "/o", t + "/p", "0"], env=dict(os.environ, CASE_LIMIT=CASE_LIMIT), stderr=subprocess.DEVNULL, timeout=120).returncode != 0: where = "parse"
      except subprocess.TimeoutExpired: where = "parse"
  if case.get("t") in ("p", "e", "big", "bigr", "r"): where = "other"
  r = subprocess.run([HARNESS, "died", json.dumps(case), how, where], stdout=subprocess.PIPE, text=True)
  rec = json.loads(r.stdout)
  return rec

def execute(cases, out, work):
  """Run the cases on the library, in parallel; records (only differing ones for cases with an expectation) go to out."""
  with open(cases) as f: lines = f.readlines()
  shards = max(1, min(CORES, len(lines) // (4 if lines and '"n"' in lines[0] and '"big' in lines[0] else 200)))
  size = (len(lines) + shards - 1) // shards if lines else 0
  results, errors = [[] for _ in range(shards)], []
  def one(k):
    part = lines[k * size:(k + 1) * size]
    base = os.path.join(work, "x%d" % k)
    for ext in (".c", ".o", ".p"):
      if os.path.exists(base + ext): os.unlink(base + ext)
    with open(base + ".c", "w") as f: f.writelines(part)
    start, crashes, extra = 0, 0, []
    while start < len(part):
      try:
        r = subprocess.run([HARNESS, "exec", base + ".c", base + ".o", base + ".p", str(start)], env=dict(os.environ, CASE_LIMIT=CASE_LIMIT), stderr=subprocess.DEVNULL, timeout=700)
      except subprocess.TimeoutExpired:
        errors.append("running the cases took too long"); return
      if r.returncode == 0: break
      with open(base + ".p", "rb") as f: at = struct.unpack("<Q", f.read(8))[0]
      case = json.loads(part[at])
      extra.append(died_record(case, "hang" if r.returncode == 3 else "abort"))
      crashes += 1
      if crashes >= 20: break
      start = at + 1
    recs = []
    if os.path.exists(base + ".o"):
      with open(base + ".o") as f: recs = [json.loads(l) for l in f if l.endswith("\n")]
    results[k] = recs + extra
    for ext in (".c", ".o", ".p"):
      if os.path.exists(base + ext): os.unlink(base + ext)
  ts = [threading.Thread(target=one, args=(k,)) for k in range(shards)]
  for t in ts: t.start()
  for t in ts: t.join()
  if errors: raise ToolError(errors[0])
  recs = [r for part in results for r in part]
  with open(out, "w") as f:
    for r in recs: f.write(json.dumps(r) + "\n")
  return recs, len(lines)

def judge(module, prop, recs, work, limit):
  """Validate recorded executions with the trace specification; returns (indices that break the property, skipped, stats)."""
  if not recs: return {}, 0, (0, 0)
  traces = os.path.join(work, "traces.ndjson")
  with open(traces, "w") as f:
    for r in recs: f.write(json.dumps({k: v for k, v in r.items() if k not in ("x", "bad", "others")}) + "\n")
  out = os.path.join(work, "trace.out")
  stats = tlc(module, out, work, {"TRACES": traces, "PROP": prop}, limit)
  with open(out) as f: text = f.read()
  bad = {}
  for m in re.finditer(r'<<\s*"BAD",\s*(\d+),(.*?)>>\s*>>', text, re.S): bad.setdefault(int(m.group(1)) - 1, " ".join(m.group(2).replace("<<", "").split()))
  for m in re.finditer(r'<<\s*"BAD",\s*(\d+),', text): bad.setdefault(int(m.group(1)) - 1, "")
  skipped = len(set(re.findall(r'<<\s*"SKIP",\s*(\d+)', text)))
  return bad, skipped, stats

def readable(case):
  txt = lambda v: "".join(map(chr, v)) if isinstance(v, list) and v and all(isinstance(c, int) and 0 <= c < 0x110000 for c in v) else v
  keep = {k: v for k, v in case.items() if k in ("t", "d", "d2", "h", "u", "z", "n", "b", "sc", "q", "ops", "put", "picks", "vars", "depth", "refs", "names", "sp", "fail", "cuts", "xs", "pad")}
  for k in ("d", "d2", "h", "u", "z"): 
    if k in keep: keep[k] = txt(keep[k])
  return keep

def key_of(prop, case):
  c = {k: v for k, v in case.items() if k in ("t", "d", "d2", "h", "u", "z", "n", "b", "sc", "q", "ops", "put", "picks", "vars", "depth", "used0", "refs", "names", "sp", "fail", "cuts", "xs", "pad")}
  if not str(case.get("t")).startswith("big") and case.get("t") != "e": c.pop("n", None)
  return hashlib.sha256((prop + json.dumps(c, sort_keys=True)).encode()).hexdigest()[:16]

def known_findings(prop):
  known = {}
  path = os.path.join(VERIF, "KNOWN_FINDINGS")
  if os.path.exists(path):
    for l in open(path):
      m = re.match(r"known: property=(\S+) case=(\S+) (.*)", l)
      if m and m.group(1) == prop: known[m.group(2)] = m.group(3)
  return known

def main(prop, replay=None):
  t0 = time.time()
  plan = PLAN[prop]
  os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
  work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
  cov = {"model": [], "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "behaviours_replayed_on_impl": 0,
         "recorded_executions_validated": 0, "differing_replays_judged": 0, "traces_outside_the_property": 0, "samples": []}
  found = []      # (case record, clauses)
  words = dictionary("/repo")
  os.environ["DICT"] = os.path.join(work, "dictionary.json")
  with open(os.environ["DICT"], "w") as f: json.dump(words, f)
  try:
    err = []
    def b():
      try: build()
      except ToolError as e: err.append(e)
    bt = threading.Thread(target=b); bt.start()
    if replay:
      bt.join()
      if err: raise err[0]
      rec = json.load(open(replay)); case = rec["case"]; case.pop("x", None)
      cf = os.path.join(work, "c"); open(cf, "w").write(json.dumps(case) + "\n")
      recs, _ = execute(cf, cf + ".o", work)
      bad, _, _ = judge(rec.get("spec", plan["trace"]), prop, recs, work, 300)
      say(json.dumps(recs[0]))
      if bad: say("VIOLATION property=%s replay=%s %s" % (prop, replay, bad[0])); return 1
      say("holds for this case"); return 0
    limit = 3000 if DEEP else 600
    # 1. model checking of the specification; the behaviours become cases for the library
    cases = os.path.join(work, "cases")
    models = []
    for n, (module, fams) in enumerate(plan["gen"]):
      t1 = time.time()
      env = {"PROP": prop}
      if fams:
        cfg = os.path.join(work, "config.json")
        json.dump({"prop": prop, "families": fams}, open(cfg, "w")); env["CONFIG"] = cfg
      out = os.path.join(work, "gen%d.out" % n)
      models.append((module, fams, tlc(module, out, work, env, limit), out, time.time() - t1))
    bt.join()
    if err: raise err[0]
    for module, fams, (gen, distinct), out, secs in models:
      total = int(subprocess.run([HARNESS, "collect", out, cases], stdout=subprocess.PIPE, text=True, check=True).stdout)
      os.unlink(out)
      if total == 0: raise ToolError("%s produced no cases" % module)
      recs, ran = execute(cases, cases + ".o", work)
      cov["states"] += distinct; cov["transitions"] += gen
      cov["behaviours_replayed_on_impl"] += ran
      cov["model"].append({"module": module, "families": fams, "distinct_states": distinct, "behaviours": total, "differing_on_impl": len(recs), "tlc_s": round(secs, 1)})
      with open(cases) as f:
        for k, l in enumerate(f):
          if k in (total // 3, 2 * total // 3) and len(cov["samples"]) < 4: cov["samples"].append(readable(json.loads(l)))
      if len(recs) > MOST:
        step = len(recs) / MOST
        recs = [recs[int(k * step)] for k in range(MOST)]
      cov["differing_replays_judged"] += len(recs)
      bad, _, _ = judge(plan["trace"], prop, recs, work, limit)
      found += [(recs[k], c, plan["trace"]) for k, c in sorted(bad.items())]
    # 2. seeded executions, validated as traces
    jobs = [(plan["trace"],) + r for r in plan["random"]] + plan.get("extra", [])
    for module, kind, quick, deep in jobs:
      if kind == "NUM": quick = deep = 54 * len(words["sizes"])
      if kind == "LAYNUM": quick = deep = 48 * len(words["sizes"])      # every text at every size
      left, part = (deep if DEEP else quick), 0
      while left > 0:
        n = min(left, 10000); left -= n
        subprocess.run([HARNESS, "gen", kind, str(SEED * 1000 + part), str(n), cases], check=True)
        part += 1
        recs, ran = execute(cases, cases + ".o", work)
        bad, skipped, (gen, distinct) = judge(module, prop, recs, work, limit)
        cov["states"] += distinct; cov["transitions"] += gen
        cov["recorded_executions_validated"] += len(recs) - skipped; cov["traces_outside_the_property"] += skipped
        if recs and part == 1: cov["samples"].append(readable(recs[len(recs) // 2]))
        found += [(recs[k], c, module) for k, c in sorted(bad.items())]
        if len(found) > 200: left = 0
    cov["traces_validated_against_impl"] = cov["behaviours_replayed_on_impl"] + cov["recorded_executions_validated"]
    # 3. findings
    known = known_findings(prop)
    hit, violations = set(), []
    for rec, clauses, module in found:
      k = key_of(prop, rec)
      if k in known: hit.add(k)
      else: violations.append((rec, clauses, module))
    for k in sorted(hit): say("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    violations.sort(key=lambda v: len(json.dumps(v[0].get("d", ""))))
    for n, (rec, clauses, module) in enumerate(violations[:3]):
      path = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (prop, n))
      json.dump({"property": prop, "fails": clauses, "input": readable(rec), "spec": module, "case": rec}, open(path, "w"))
      say("VIOLATION property=%s replay=%s" % (prop, path))
      say("  fails: %s" % clauses); say("  input: %s" % json.dumps(readable(rec))[:600])
    ev = {"property": prop, "tier": "thorough" if DEEP else "quick", "seed": SEED, "level": "model_checking", "coverage": cov,
          "assumptions": ["TLC and its Java runtime", "the Rust toolchain", "the harness reports faithfully what the public API returns"],
          "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    say("%s: %d behaviours replayed, %d executions validated, %d violations, %.0f s" % (prop, cov["behaviours_replayed_on_impl"], cov["recorded_executions_validated"], len(violations), time.time() - t0))
    return 1 if violations else 0
  finally:
    shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
  try:
    a = sys.argv[1:]
    sys.exit(main(a[0], a[2] if len(a) > 2 and a[1] == "--replay" else None))
  except ToolError as e:
    say("ERROR: %s" % e); sys.exit(2)
