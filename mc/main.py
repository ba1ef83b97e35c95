from __future__ import annotations

import argparse
import importlib
import json
import os
import re
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.setrecursionlimit(3000)

from mc import core  # noqa: E402


def violation(prop, path, text):
    print(text)
    print(f"VIOLATION property={prop} replay={path}", flush=True)


def load_known(prop):
    """known_findings.json: [{property, status, key, what, ...}]"""
    path = os.path.join(VERIF, "known_findings.json")
    out = {}
    with open(path) as f:
        for e in json.load(f)["findings"]:
            if e["property"] == prop and e["status"] == "known":
                out[e["key"]] = e["what"]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--section")
    ap.add_argument("--nproc", type=int, default=min(8, len(os.sched_getaffinity(0))))
    ap.add_argument("--all", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    core.T0 = t0
    core.TIMED = a.tier == "quick"
    evdir = os.path.join(VERIF, "evidence")
    rdir = os.path.join(evdir, "replay")
    os.makedirs(rdir, exist_ok=True)
    core.KNOWN = load_known(prop)

    def write_evidence(stats, sections, violations, mod=None):
        tot = core.Stats()
        per = []
        for s in sections:
            st = stats.get(s.name)
            if st is None:
                continue
            per.append(dict(section=s.name, executions=st.execs, distinct_states=len(st.states),
                            impl_operations=st.ops, comparisons=st.checks, outside_domain=st.skipped,
                            deviation_bound=("none: complete tree" if s.bound is None else s.bound),
                            max_deviations_reached=st.maxdev, note=s.note))
            tot.merge(st)
        samples = []
        for s in sections:
            if s.name in stats:
                samples += stats[s.name].samples[:1]
        ev = dict(property=prop, tier=a.tier, seed=seed, level="model_checking",
                  coverage=dict(states=len(tot.states), transitions=tot.ops,
                                traces_validated_against_impl=tot.checks, executions=tot.execs,
                                samples=samples[:8] or tot.samples[:4], exhaustive=True, sections=per,
                                rule="states: distinct abstract cases; transitions: public operations of the implementation executed; "
                                     "traces_validated_against_impl: results compared with the reference model"),
                  assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2),
                  violations=violations)
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return ev

    def bail(msg, detail=""):
        path = os.path.join(rdir, f"{prop}-setup.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, message=msg, detail=detail), f, indent=1)
        write_evidence({}, [], 1)
        violation(prop, path, msg + "\n" + detail)
        return 1

    try:
        import snuba_sdk
        where = os.path.realpath(snuba_sdk.__file__)
        assert where.startswith(os.path.realpath(REPO) + os.sep), where
        mod = importlib.import_module(f"mc.checks.{prop.lower()}")
        sections = mod.sections(a.tier)
    except Exception:
        import traceback
        return bail("the library cannot be loaded or lacks a public operation", traceback.format_exc())

    if a.replay:
        r = json.load(open(a.replay))
        sec = [s for s in sections if s.name == r["section"]][0]
        st = core.Stats()
        core.run_one(sec, r["choices"], st)
        for v in st.violations:
            print(json.dumps(v, indent=1))
        for k, w in st.known.items():
            print(f"KNOWN-FINDING: property={prop} {w}")
        print("violated" if st.violations else "holds")
        return 1 if st.violations else 0

    if a.section:
        sections = [s for s in sections if re.search(a.section, s.name)]
    stats, hung = core.explore_all(sections, a.nproc)
    viols = [v for s in sections for v in stats[s.name].violations]
    viols.sort(key=lambda v: (sum(1 for c in v["choices"] if c), len(v["choices"]), v["choices"]))
    if hung and not viols:
        viols.append(dict(section=sections[0].name, choices=[], message="exploration did not terminate: an operation hangs", detail={}, case=""))
    ev = write_evidence(stats, sections, len(viols), mod)
    for s in sections:
        st = stats[s.name]
        print(f"{prop} {s.name}: executions={st.execs} states={len(st.states)} ops={st.ops} compared={st.checks} "
              f"skipped={st.skipped} bound={s.bound} maxdev={st.maxdev}")
    known = {}
    for st in stats.values():
        known.update(st.known)
    for k, w in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {w}")
    print(f"{prop} {a.tier}: {ev['coverage']['executions']} executions, {ev['wall_s']} s")
    if viols:
        for i, v in enumerate(viols[:5]):
            v["property"] = prop
            v["tier"] = a.tier
            path = os.path.join(rdir, f"{prop}-{i}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            if i == 0 and not a.all:
                print(json.dumps(v, indent=1)[:6000])
        if a.all:
            for v in {v["message"][:80]: v for v in reversed(viols)}.values():
                print(v["section"], "|", v["message"][:200], "|", v["case"][:300], "|", str(v["detail"])[-300:])
        print(f"{len(viols)} violating executions; replay with: ./check {prop} --tier {a.tier} --replay {os.path.join(rdir, prop + '-0.json')}")
        print(f"VIOLATION property={prop} replay={os.path.join(rdir, prop + '-0.json')}", flush=True)
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
