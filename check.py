#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] | --replay <file>

Decides one property on /repo's working tree.  Exit 0: held on everything explored.
Exit 1 with a line "VIOLATION property=<id> replay=<path>": broken.  Exit 2: machinery."""
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import vlib  # noqa: E402
from registry import PROPS  # noqa: E402


def decide(prop, tier, seed):
    t0 = time.time()
    designs, bads, ops = [], [], {}
    traces = events = tstates = 0
    samples, assumptions, error = [], [], None
    for name in PROPS[prop]["domains"]:
        dom = importlib.import_module("domains." + name)
        ds, out = dom.explore(prop, tier, seed)
        designs += ds
        traces += out.traces
        events += out.events
        tstates += out.trace_states
        error = error or out.error
        for k, v in out.ops.items():
            ops[k] = ops.get(k, 0) + v
        samples += out.samples
        assumptions += getattr(dom, "ASSUMPTIONS", [])
        for b in out.bad:
            if b["clause"] in ("driver", "illtyped") or prop in dom.CLAUSES.get(b["clause"], []):
                bads.append(dict(b, domain=name))
            elif b["clause"] not in dom.CLAUSES:
                raise vlib.MachineryError("clause %s is mapped to no property" % b["clause"])
    known = vlib.known_findings()
    fresh_bad, printed = [], set()
    for b in bads:
        hit = [f for f in known if vlib.matches(f, prop, b)]
        if hit:
            if hit[0]["id"] not in printed:
                printed.add(hit[0]["id"])
                print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"]))
        else:
            fresh_bad.append(b)
    if error and not fresh_bad:
        raise error
    replay = None
    if fresh_bad:
        replay = os.path.join(VERIF, "evidence", "replays", "%s-%s-%d.json" % (prop, tier, seed))
        vlib.write_json(replay, {"property": prop, "tree": vlib.tree_digest(), "seed": seed, "tier": tier,
                                 "violations": fresh_bad[:40]})
    states = sum(d["distinct"] for d in designs)
    trans = sum(d["generated"] for d in designs)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": trans,
            "traces_validated_against_impl": traces,
            "events_validated_against_impl": events,
            "trace_spec_states": tstates,
            "calls_by_operation": dict(sorted(ops.items())),
            "samples": samples[:4],
            "known_findings_seen": sorted(printed),
        },
        "assumptions": sorted(set(assumptions)),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh_bad),
    }
    vlib.write_json(os.path.join(VERIF, "evidence", prop + ".json"), ev)
    print("%s %s seed=%d: design %d states / %d transitions; %d traces, %d events validated; %d violations; %.1fs"
          % (prop, tier, seed, states, trans, traces, events, len(fresh_bad), ev["wall_s"]))
    if fresh_bad:
        for b in fresh_bad[:6]:
            e = json.dumps(b["event"])
            print("  clause %s: %s" % (b["clause"], e if len(e) < 700 else e[:700] + "..."))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0


def replay(path):
    """Run the recorded scenarios again on the current tree."""
    rec = json.load(open(path))
    prop, again = rec["property"], 0
    for b in rec["violations"][:10]:
        dom = importlib.import_module("domains." + b["domain"])
        out = vlib.validate(dom.DRIVER, dom.TRACE, [b["scenario"]])
        for x in out.bad:
            if x["clause"] in ("driver", "illtyped") or prop in dom.CLAUSES.get(x["clause"], []):
                again += 1
                print("  clause %s at step %s: %s" % (x["clause"], x.get("step"), json.dumps(x["event"])[:700]))
    if again:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s: the recorded scenarios pass on this tree" % prop)
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = a[a.index("--seed") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(seed)
    except ValueError:
        seed = 1
    vlib.TIER = tier
    return decide(prop, tier, seed)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
