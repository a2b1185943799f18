"""Words, instruction words, constants: C04 C05."""
import random

import vlib
from domains.bitfield import DICT, num, rvalue, bad_value

DRIVER, TRACE = "words", "WordTrace"
CLAUSES = {
    "w.store": ["C04"], "w.frame": ["C04", "C05"], "w.groups": ["C04"], "w.read": ["C04"], "w.pure": ["C04"],
    "w.accept": ["C04"], "w.refuse": ["C04"], "w.refused-change": ["C04"],
    "k.store": ["C05"], "k.read": ["C05"], "k.pure": ["C05"], "k.accept": ["C05"], "k.refuse": ["C05"],
    "k.refused-change": ["C05"],
}
CONSTS = ["AlphanumericConstant", "DecimalConstant", "ExtendedBinaryConstant", "FloatingBinaryConstant",
          "FloatingDecimalConstant", "FixedBinaryConstant", "OctalConstant", "SpecialAddressConstant",
          "CompleteAddressConstant", "MaskBaseAddressConstant", "ProgramControlConstant", "MixedConstant",
          "TapeAddressConstant", "LinkageConstant", "SegmentNameConstant", "SubroutineCallConstant"]
GROUPS = ["command", "a", "b", "c"]


def edge(w):
    return [0, 1, 2, 2 ** w - 1, 2 ** w - 2, 2 ** (w - 1), 2 ** (w - 1) - 1, 2 ** w, 2 ** w + 1, 2 ** (w + 1), -1, -2,
            -2 ** w, -2 ** w + 1, 2 ** 64, 1 << 70]


def newiw(i, *g):
    return dict(op="newiw", id=i, **{n: num(x) for n, x in zip(GROUPS, g)})


def explore(prop, tier, seed):
    d = vlib.design("MCWord", "MCWord" if tier == "quick" else "MCWord3")
    rnd = random.Random("words %s" % seed)
    scens = []
    n = 1 if tier == "quick" else 6
    # every group value in every group, with the others at pseudo-random contents
    for g in GROUPS:
        for base in range(0, 4096, 128):
            s = [newiw(1, *[rnd.getrandbits(12) for _ in GROUPS])]
            for v in range(base, base + 128):
                s.append({"op": "setgroup", "id": 1, "g": g, "v": num(v)})
            s += [{"op": "group", "id": 1, "g": h} for h in GROUPS]
            scens.append({"name": "group %s %d" % (g, base), "calls": s})
    s = []
    for m in range(16):
        s.append(newiw(1, *[rnd.getrandbits(12) * (m >> k & 1) for k in range(4)]))
    scens.append({"name": "omitted groups", "calls": [dict(x) for x in s * 3]})
    # refusals, for every group, in constructor and setter
    s = []
    for g in range(4):
        for v in edge(12):
            x = [rnd.getrandbits(12) for _ in GROUPS]
            s.append(newiw(1, *x))
            s.append({"op": "setgroup", "id": 1, "g": GROUPS[g], "v": num(v)})
            x[g] = v
            s.append(newiw(2, *x))
            s += [{"op": "group", "id": 2, "g": h} for h in GROUPS]
    scens.append({"name": "group edges", "calls": s})
    for cls in [None] + CONSTS:
        s = []
        for v in edge(48) + [1 << k for k in range(48)] + [(2 ** 48 - 1) ^ (1 << k) for k in range(0, 48, 1)] + \
                [x for x in DICT.near if 0 <= x < 2 ** 48] + [rnd.getrandbits(48) for _ in range(30 * n)]:
            s.append({"op": "newconst", "cls": cls, "id": 1, "v": num(v)} if cls else
                     {"op": "newword", "id": 1, "v": num(v)})
            s.append({"op": "value", "id": 1})
            s.append({"op": "setvalue", "id": 1, "v": num(rnd.choice(edge(48) + [v, rnd.getrandbits(48)]))})
            s.append({"op": "value", "id": 1})
        scens.append({"name": "values %s" % cls, "calls": s})
    for k in range(3500 if tier == "quick" else 12000):
        s = []
        ids = range(1, rnd.randint(3, 5))

        def mk(i):
            t = rnd.randrange(5)
            if t < 2:
                s.append(newiw(i, *[rvalue(rnd, 12) if rnd.random() < .97 else bad_value(rnd, 12) for _ in GROUPS]))
            else:
                v = num(rvalue(rnd, 48) if rnd.random() < .95 else bad_value(rnd, 48))
                s.append({"op": "newword", "id": i, "v": v} if t == 2 else
                         {"op": "newconst", "cls": rnd.choice(CONSTS), "id": i, "v": v})
        for i in ids:
            mk(i)
        for _ in range(45):
            i = rnd.choice(list(ids))
            op = rnd.choice(["setgroup", "setgroup", "setgroup", "group", "group", "value", "setvalue", "getbit",
                             "setbit", "getrange", "setrange", "emit", "new"])
            x = {"op": op, "id": i}
            if op == "new":
                if rnd.random() < .3:
                    mk(i)
                continue
            if op == "setvalue":
                x["v"] = num(rvalue(rnd, 48) if rnd.random() < .85 else bad_value(rnd, 48))
            if op in ("group", "setgroup"):
                x["g"] = rnd.choice(GROUPS)
            if op == "setgroup":
                x["v"] = num(rvalue(rnd, 12) if rnd.random() < .8 else bad_value(rnd, 12))
            if op in ("getbit", "setbit"):
                x["i"] = (rnd.randint(1, 48) if rnd.random() < .8 else DICT.pick(rnd, 1, 48)) if rnd.random() < .95 else rnd.choice([0, 49, -1])
                x["v"] = num(rnd.choice([0, 1]))
            if op in ("getrange", "setrange"):
                a, b = sorted(rnd.randint(1, 48) if rnd.random() < .7 else DICT.pick(rnd, 1, 48) for _ in "ab")
                x["s"], x["e"] = a, b
                x["v"] = num(rvalue(rnd, b - a + 1) if rnd.random() < .85 else bad_value(rnd, b - a + 1))
            s.append(x)
        scens.append({"name": "history %d" % k, "calls": vlib.sandwich(rnd, vlib.again(rnd, s, {"setgroup", "setvalue", "setbit", "setrange"}), {"group", "value", "getbit", "getrange"})})
    for sc in scens:
        for x in sc["calls"]:
            if x["op"].startswith("new"):
                x["form"] = rnd.choice(["kw", "pos", "omit"])
    return [d], vlib.validate(DRIVER, TRACE, scens)
