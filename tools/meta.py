#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # properties
N = []      # not applicable

def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)), note))

def na(id, reason):
    N.append(dict(property=id, reason=reason))

exec(open(os.path.join(here, "tools", "props.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p, _ in P:
        f.write(json.dumps(p) + "\n")
claimed = {n["property"] for n in N}
m = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="none", enable="no hooks: the checks drive the exported API of /repo from a scratch overlay", source_commits=[]),
  checks=[dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
    evidence_file="evidence/%s.json" % p["id"],
    technique="bounded symbolic execution of the Go SSA of /repo, assertions decided by Z3 (QF_BV), counterexamples replayed on the compiled code",
    level="other", level_note=note) for p, note in P if p["id"] not in claimed],
  not_applicable=N,
  notes="See DESIGN.md. Known findings: known_findings.json. Engine: engine/, harnesses: harness/.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
