#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import P
try:
    from props import NA
except ImportError:
    NA = {}

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for k in sorted(P):
        d = P[k]
        assert len(d["title"]) <= 80, (k, len(d["title"]))
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks = []
for k in sorted(P):
    if k in NA:
        continue
    assert os.path.exists(os.path.join(ROOT, "harness", k.lower() + ".py")), k
    checks.append(dict(property=k, quick_cmd="./check %s quick" % k, thorough_cmd="./check %s thorough" % k,
                       technique="symbolic execution of the real Python code with z3 deciding every branch and assertion",
                       level="other",
                       level_note="bounded: every value within the stated bounds for each query/call shape of the catalogue; every path explored exhaustively, every assertion an SMT query over its path condition, counterexamples replayed on the uninstrumented code"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())])
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties", len(checks), "claimed")
