#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + one section per property + tools/design_tail.md"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
O = {}
with open(V + "/tools/design_props.txt") as f:
    for l in f:
        if ": " in l:
            k, t = l.rstrip("\n").split(": ", 1)
            O.setdefault(k, []).append(t)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = open(V + "/tools/design_head.md").read()
for p in props:
    i = p["id"]
    for m in ("p_gc", "p_priv", "p_scd", "p_ot", "p_util", "p_cli"):
        M = importlib.import_module(m)
        if hasattr(M, i):
            q = getattr(M, i)()
    out += "\n### %s — %s\n\n" % (i, p["title"])
    out += "*Generated:* " + q.rule + "\n\n"
    for t in O.get(i, []):
        out += t + "\n\n"
    out += "*Suites (quick / thorough cases):* " + ", ".join(
        "%s %s / %s" % (s.name, s.n["quick"] or "exhaustive", s.n["thorough"] or "exhaustive") for s in q.suites) + ".\n"
tail = open(V + "/tools/design_tail.md").read()
fixed = json.load(open(V + "/known_findings.json"))["fixed"]
tail = tail.replace("@FIXED@", "\n".join("* " + x for x in fixed))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
C = json.load(open(V + "/tools/catches.json"))
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + i + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], str(m["needs"]).replace("|", "/").replace("\n", " "), C.get(i, "?")))
tail = tail.replace("@SEEDED@", "\n".join(rows))
tail = tail.replace("@MUT@", open(V + "/tools/design_mut.md").read())
out += "\n" + tail
open(V + "/DESIGN.md", "w").write(out)
