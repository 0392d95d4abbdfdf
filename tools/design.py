#!/usr/bin/env python3
"""Writes DESIGN.md from its fixed text, properties.jsonl, checks.py, known_findings.txt and seeded/."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
import checks
head = open(V + "/tools/design_head.md").read()
how = dict(re.findall(r"^## (C\d\d)\n(.*?)(?=^## |\Z)", open(V + "/tools/design_how.md").read(), re.S | re.M))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = [head.rstrip(), "", "## Properties, one by one", ""]
seeds = {}
for d in sorted(os.listdir(V + "/seeded")):
    f = V + "/seeded/%s/meta.json" % d
    if os.path.exists(f):
        m = json.load(open(f)); seeds.setdefault(m["property"], []).append((d, m))
results = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
for p in props:
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), ""]
    if i in checks.NOT_APPLICABLE:
        out += ["Not applicable: " + checks.NOT_APPLICABLE[i] + ".", ""]; continue
    c = checks.CHECKS[i]
    out += [how.get(i, "").strip(), "", "*Scenarios:* " + ", ".join(r["harness"] + (" (%d configurations)" % len(r["cases"]) if len(r["cases"]) > 1 else "") for r in c["runs"]) + ".",
            "", "*Bounds:* " + c["bounds"] + ".", "", "*Outside:* " + (c.get("outside") or "nothing") + "."]
    if c.get("assumptions"): out += ["", "*Assumed in addition:* " + "; ".join(c["assumptions"]) + "."]
    out.append("")
out += ["## Seeded bugs", "", "Each lies in seeded/ID with its demonstration; all compile and pass the 25 stable tests.", "", "| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for i in sorted(seeds):
    for d, m in seeds[i]: out.append("| %s | %s | %s | %s |" % (d, i, m["what_it_breaks"].replace("|", "\\|"), results.get(d, "")))
out += ["", open(V + "/tools/design_tail.md").read().strip(), "", "## Defects found and repaired", "", "Every line is a commit in /repo (known_findings.txt has the same list).", ""]
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: out.append("* %s (%s): %s" % (m.group(1), m.group(2), m.group(3)))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
