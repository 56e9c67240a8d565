#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the list of claimed properties"""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = json.load(open(os.path.join(H, "tools", "not_applicable.json")))
notes = json.load(open(os.path.join(H, "tools", "level_notes.json")))
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
         if "verification hook" in l]
default = ("Symbolic execution of the LLVM IR compiled from /repo's current tree; every path of the driver is explored, all digit and width "
           "inputs symbolic; z3 decides every obligation for all values within the bounds (word counts in evidence.coverage.bounds, every width of "
           "that many words). Counterexamples are replayed on a native build before they are reported.")
checks = []
for p in props:
    if p["id"] in NA:
        continue
    checks.append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique="symbolic execution of the compiled LLVM IR + SMT (z3), counterexamples replayed natively",
                       level="model_checking", level_note=notes.get(p["id"], default)))
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="cfg(apint_verif)", enable="RUSTFLAGS='--cfg apint_verif' (set by irsym/build.py for every build of the driver crate)",
                    source_commits=hooks),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="./check <property> [quick|thorough]; ./check all [ids] [tier]; ./check replay <file>. Known and fixed findings: known_findings.txt.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
