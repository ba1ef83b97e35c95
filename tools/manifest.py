#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "bounded exhaustive exploration of query construction programs; every text is read back by a reference SnQL parser and compared with the model",
 "C02": "exhaustive enumeration of literal values over an adversarial alphabet and their positions; reference decoding of the real output",
 "C03": "exhaustive enumeration of condition trees and of all rows; three-valued evaluation of the built tree vs the parsed output of the real serializer",
 "C04": "exhaustive exploration of operation histories on the real objects with deep state snapshots after every step",
 "C05": "explicit-state exploration of all partially built objects and all setter transitions, each compared with direct construction",
 "C06": "controlled-scheduler exploration of thread interleavings (preemption bounded) of the real code plus exhaustive enumeration of prior histories with failures",
 "C07": "exhaustive enumeration of match kind x clause x nesting x column kind against a reference resolution rule",
 "C08": "exhaustive enumeration of names over character classes, numbers around limits and part types against hand-written acceptance automata",
 "C09": "exhaustive enumeration of defect combinations x exits on the real code",
 "C10": "bounded exhaustive exploration of metrics query programs; printed and parsed back on the real code, compared with the model",
 "C11": "bounded exhaustive exploration of MQL derivations with whitespace variants; meaning computed by construction, compared with the real parser",
 "C12": "exhaustive enumeration of token sequences and single edits; verdict and meaning compared with a reference PEG model",
 "C13": "exhaustive enumeration of context field combinations through every exit, compared with the expected dictionary",
 "C14": "exhaustive enumeration of value matrices and formula trees against reference acceptance rules",
 "C15": "exhaustive enumeration of request field combinations through every exit, compared with a reference envelope",
 "C16": "exhaustive enumeration of column-condition maps through every exit, compared with a reference",
 "C17": "bounded exhaustive exploration of legacy bodies against an independent reference translator",
 "C18": "exhaustive enumeration of condition trees and match kinds against a reference required-column rule",
 "C19": "exhaustive enumeration of expression trees and query positions against a reference search",
 "C20": "exhaustive comparison of all pairs of a bounded expression universe against structural equality of their specs",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "mc", "checks", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd=f"./check {p} --tier quick", thorough_cmd=f"./check {p} --tier thorough",
                           technique="model checking: " + TECH[p], level="model_checking",
                           level_note="every case within the bounds stated in DESIGN.md and in the evidence is executed on the real code and compared with an independent reference model; nothing is sampled; beyond the bounds nothing is claimed"))
    else:
        na.append(dict(property=p, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./check --selftest", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
