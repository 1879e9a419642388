#!/usr/bin/env python3
"""Writes MANIFEST.json from the property checks."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "lib"))
sys.path.insert(0, H)
import run

TECH = {
    "model": "property-based testing of the real two-party run (forked parties joined by a relay) against an independent circuit simulator, with shrinking",
    "diff": "property-based differential/metamorphic testing of two runs of the real code, with shrinking",
    "transcript": "property-based testing over recorded protocol transcripts (twin runs with seeded randomness, metamorphic relations and leak searches)",
    "netlist": "generated netlists through the real translator, checked against an independent netlist simulator, with shrinking",
    "robust": "generated invalid inputs and injected faults (cuts, fragmentation, malformed files) against a status oracle, with shrinking",
    "values": "property-based testing of value functions against exact integer arithmetic / independent reference implementations",
    "heap": "property-based testing of call histories with exact heap and descriptor accounting (interposed allocator), with shrinking",
    "verilog": "property-based testing of the Verilog sources (own elaborator and simulator) against reference functions, drawn parameters and inputs, with shrinking",
    "flow": "property-based differential testing across library, translator and evaluators against reference functions, with shrinking",
    "cpu": "generated programs (property-based testing) on the elaborated processor circuits / an ARM interpreter against reference interpreters and reference functions, with shrinking",
    "enum": "exhaustive enumeration plus random generation against truth tables",
}
KIND = dict(C01="model", C02="model", C03="diff", C04="diff", C05="model", C06="diff", C07="model", C08="diff", C09="model", C10="transcript",
            C11="transcript", C12="transcript", C13="transcript", C14="robust", C15="robust", C16="diff", C17="netlist", C18="netlist", C19="netlist",
            C20="robust", C21="model", C22="model", C23="netlist", C24="model", C25="model", C26="transcript", C27="robust", C28="values", C29="values",
            C30="enum", C31="values", C32="model", C33="values", C34="diff", C35="heap", C36="heap", C37="flow", C38="verilog",
            C39="verilog", C40="flow", C41="cpu", C42="cpu", C43="cpu", C44="flow", C45="verilog")
NOTE = ("Generated-input search: a pass means no counterexample among the cases counted in the evidence file, not a proof. Trusted: the reference models in "
        "lib/ (written independently of the code under test), the worker in harness/worker.cpp, the compiler and OpenSSL. ")
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    try:
        p = run.props(i)
    except SystemExit:
        na.append(dict(property=i, reason="not built yet"))
        continue
    checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=TECH[KIND[i]], level="exploration",
                       level_note=NOTE + p.rule + (" Assumes: " + " ".join(p.assumptions) if p.assumptions else "")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks link the repository's sources unchanged. run.py PROP --replay FILE re-runs a recorded failure.")
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
