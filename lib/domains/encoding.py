"""Instruction encoding: C06 C07 C08."""
import json
import random

import vlib

DRIVER, TRACE = "encoding", "EncodingTrace"
CLAUSES = {
    "enc.code": ["C06"], "enc.stable": ["C06"], "enc.accept": ["C06", "C07"], "enc.refuse": ["C07"],
    "enc.table": ["C08"], "enc.ambiguous": ["C08"], "enc.builder": ["C06", "C08"], "enc.row": ["C08"], "enc.listing": ["C08"],
    "enc.vocabulary": ["C08"],
}
GROUPS = ["OPCODES", "CONTROL_INSTRUCTIONS", "DATA_CONSTANTS", "CONTROL_CONSTANTS", "EXTENDED_INSTRUCTIONS",
          "MISC_INSTRUCTIONS", "ARGUS_INSTRUCTIONS", "INSTRUCTIONS"]


def legalish(t, x):      # aims the builders and the table lookup at well-formed operands only
    n = {k: x[k] for k in ("seq", "a", "b", "c", "mask", "paddr")}
    if any(v and v[0] not in (0, 1) for k, v in n.items() if k in "seqabc"):
        return False
    if n["mask"] and (not 0 <= n["mask"][0] <= 31 or n["a"] or n["b"] or n["c"]):
        return False
    if n["paddr"] and not 0 <= n["paddr"][0] <= 63:
        return False
    if t["kind"] == "peripheral":
        return bool(n["paddr"])
    if t["kind"] == "maskable" and n["mask"]:
        return bool(n["seq"])
    return bool(n["seq"] and n["a"] and n["b"] and n["c"])


def explore(prop, tier, seed):
    g = vlib.fresh("gen.json")
    d = vlib.design("MCEncoding", None, {"VERIF_GEN": g})
    gen = json.load(open(g))
    rnd = random.Random("encoding %s" % seed)
    scens = []
    for t in gen["table"]:
        ident = {"m": t["m"], "cls": t["cls"], "kind": t["kind"]}
        s = []
        ops = gen["class"][t["kind"]]
        for x in ops:
            s.append(dict(op="enc", via="class", **ident, **x, pos=rnd.random() < .4, boolish=rnd.random() < .3))
            if legalish(t, x) and t["kind"] != "simulator":
                s.append(dict(op="make", **ident, **x))
                if rnd.random() < .5:
                    s.append(dict(op="enc", via="table", **ident, **x))
            elif t["kind"] in ("simulator", "proceed"):
                s.append(dict(op="enc", via="table", **ident, **x))
        for x in gen["base"]:
            s.append(dict(op="enc", via="base", **ident, **x))
        if t["kind"] == "proceed":
            for k in range(16):
                x = {"seq": [k >> 3], "a": [k >> 2 & 1], "b": [k >> 1 & 1], "c": [k & 1], "mask": [], "paddr": []}
                s.append(dict(op="make", **ident, **x))
        rnd.shuffle(s)
        for k in range(0, len(s), 150):
            scens.append({"name": "all %s %d" % (t["m"], k), "calls": s[k:k + 150] + [{"op": "again"}]})
    scens.append({"name": "listing", "calls": [{"op": "listing"}, {"op": "listing"}, {"op": "shipped"}] +
                  [{"op": "row", "m": t["m"]} for t in gen["table"]] +
                  [{"op": "vocab", "g": x} for x in GROUPS]})
    # mixed histories over all instructions
    for k in range(600 if tier == "quick" else 4000):
        s = []
        for _ in range(80):
            t = rnd.choice(gen["table"])
            x = rnd.choice(gen["class"][t["kind"]])
            s.append(dict(op="enc", via="class", m=t["m"], cls=t["cls"], kind=t["kind"], **x,
                          boolish=rnd.random() < .2))
        s.append({"op": "again"})
        if k % 10 == 0:
            s.append({"op": "listing"})
        scens.append({"name": "mixed %d" % k, "calls": s})
    return [d], vlib.validate(DRIVER, TRACE, scens)
