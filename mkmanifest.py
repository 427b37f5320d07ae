"""Writes MANIFEST.json from the plan in check.py."""
import json, check
notes = {
 "C01": "All texts of three families through every entry point, seeded texts with other parses in between, and repeated-unit texts up to 30000 units on both stack sizes; beyond those lengths termination is not shown.",
 "C02": "Every schedule of deliveries, interruptions and failures on all byte strings of the model's alphabet up to its bound, plus seeded schedules with all error kinds.",
 "C07": "Pairs of documents that the layout model derives from the same fragments with a bounded number of deviating layout parts, plus seeded pairs.",
 "C15": "Every string over the reference alphabet up to the bound, plus seeded strings.",
 "C16": "Every text and variable table of the model's tables, checked against a declarative account (needed variables, depth), plus seeded ones.",
 "C17": "All line sequences over a table up to the bound and chains around the nesting limit, plus seeded documents.",
 "C21": "All allowed series of splices on small documents up to the bound, mechanism against patched text, plus seeded series.",
 "C22": "Every item, and every ordered pair of items, of the documents of eight families with two replacements each, plus seeded edits.",
 "C25": "All documents of the composition families cut at every line start, and their instructions alone, against the relation between the parses; seeded documents and cuts likewise.",
 "C26": "All pairs of texts of up to two pieces in every way to add them, with builder, order and equality laws checked on the model; seeded values, and seeded documents with every one-part variant of their instructions.",
}
default = "Exhaustive over the document families of the specification, each behaviour replayed on the library and compared exactly; seeded documents validated as traces. Bounded: inputs outside the families and seeds are not covered."
checks = []
for p, plan in sorted(check.PLAN.items()):
  checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p, "evidence_file": "evidence/%s.json" % p,
    "technique": "TLA+ specification (%s, %s) model checked with TLC; behaviours replayed on the library and recorded executions validated as traces" % ("/".join(sorted({g[0] for g in plan["gen"]})), plan["trace"]),
    "level": "model_checking", "level_note": notes.get(p, default)})
json.dump({"version": 1, "setup_cmd": "cd harness && cargo build --offline --quiet", "checks": checks, "not_applicable": [],
  "notes": "No hooks in /repo are needed: everything is observed through the public API. KNOWN_FINDINGS lists the defects that were repaired."}, open("MANIFEST.json", "w"), indent=1)
