#!/usr/bin/env python3
"""development: rewrite the generated parts of DESIGN.md (between the BEGIN/END markers) from properties.jsonl, the harness headers,
the evidence of the last quick runs and seeded/"""
import json, os, re, runpy, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
sys.argv = ["run.py"]
R = runpy.run_path("run.py", run_name="x")
ORACLE = json.load(open("tools/oracles.json"))
props = [json.loads(l) for l in open("properties.jsonl")]
out = []
for p in props:
    i = p["id"]
    h = R["parse_harness"]("harness/%s.cc" % i)
    out.append("### %s %s" % (i, p["title"]))
    out.append("*Code:* " + ", ".join(h["src"]))
    out.append("*Oracle:* " + ORACLE.get(i, "the statement, restated in the harness."))
    for c in h["cases"]:
        out.append("- case %d, %s: %s%s" % (c["n"], c["name"], c["bounds"], " (thorough tier only)" if "thorough-only" in c["flags"] else ""))
    for a in h["assume"]:
        out.append("- assumed: " + a)
    e = "evidence/%s.json" % i
    if os.path.exists(e):
        e = json.load(open(e)); c = e["coverage"]
        if e["tier"] == "quick":
            out.append("- quick run: %d paths, %d symbolic decisions, %d solver queries, assertions %d constant on their path / %d on finite domains / %d by Z3; %d paths (%d verdicts) confirmed by Z3; %d paths replayed natively; about %d s" % (c["states"], c["transitions"], c["queries"], c["assertions"]["constant_on_path"], c["assertions"]["decided_on_finite_domain"], c["assertions"]["discharged_by_solver"], c["decided_on_domains_and_confirmed_by_z3"]["paths"], c["decided_on_domains_and_confirmed_by_z3"]["decisions_and_assertions"], c["traces_validated_against_impl"], round(e["wall_s"])))
    out.append("")
def put(s, name, lines):
    return re.sub(r"(<!-- BEGIN %s -->\n).*?(<!-- END %s -->)" % (name, name), lambda m: m.group(1) + "\n".join(lines) + "\n" + m.group(2), s, flags=re.S)
s = open("DESIGN.md").read()
s = put(s, "properties", out)
res = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
t = ["| change | property | needs | verdict |", "|---|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    t.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|"), res.get(d, "?")))
s = put(s, "seeded", t)
fx = [l.strip() for l in open("known_findings.txt") if l.startswith("fixed:")]
s = put(s, "fixes", ["- " + re.sub(r"^fixed: property=(\S+) (\S+) ", r"`\2` (\1) ", l) for l in fx])
kn = [l.strip() for l in open("known_findings.txt") if l.startswith("known:")]
s = put(s, "known", ["- " + l for l in kn] or ["None at present: every defect found could be repaired by a small change."])
open("DESIGN.md", "w").write(s)
