"""BitField: C01 C02 C03."""
import json
import os
import random

import vlib

DRIVER, TRACE = "bitfield", "BitFieldTrace"
NUMS = ["LSB0", "LSB1", "MSB0", "MSB1"]
ORDS = ["MSBLEFT", "LSBLEFT"]
QUERIES0 = ["value", "int", "index", "width", "len", "maxval", "indices", "lsb", "msb", "repr",
            "numbering", "order"]
RANGEQ = ["getrange", "israngeset", "israngeclr"]
BITQ = ["getbit", "isbitset", "isbitclr"]
CHANGES = {"setbit", "setrange", "setvalue", "setall", "clearall", "set", "clear"}
QUERIES = set(QUERIES0 + RANGEQ + BITQ + ["isbit", "isrange"])

CLAUSES = {
    "bf.store": ["C01", "C02"], "bf.frame": ["C01"], "bf.read": ["C01", "C03"], "bf.pure": ["C01", "C03"],
    "bf.accept.write": ["C01", "C02"], "bf.accept.read": ["C01", "C02"],
    "bf.accept.query": ["C02", "C03"], "bf.refuse": ["C02"], "bf.refused-change": ["C02"],
    "bf.range": ["C02", "C01"], "bf.query": ["C03"],
}


def num(n):
    return {"neg": n < 0, "bits": [int(c) for c in reversed(bin(abs(n))[2:])] if n else []}


def configs(ws):
    return [{"w": w, "num": n, "ord": o} for w in ws for n in NUMS for o in ORDS]


def weight(c, i):          # geometry of the *input generator* only (to aim at legal calls)
    return {"LSB0": i, "LSB1": i - 1, "MSB0": c["w"] - 1 - i, "MSB1": c["w"] - i}[c["num"]]


def span(c):
    lo = 0 if c["num"].endswith("0") else 1
    return lo, lo + c["w"] - 1


def legal_range(c, rnd):
    a, b = span(c)
    i, j = (rnd.randint(a, b) if rnd.random() < .85 else DICT.pick(rnd, a, b) for _ in "ij")
    wi, wj = weight(c, i), weight(c, j)
    if (wi < wj) == (c["ord"] == "MSBLEFT"):
        i, j = j, i
    return i, j


DICT = vlib.Dictionary("h800/bitfield.py", "h800/word.py", "h800/instruction.py")


def rvalue(rnd, w):
    k = rnd.randrange(9)
    if k == 8:
        return DICT.pick(rnd, 0, 2 ** w - 1)
    if k == 0:
        return 0
    if k == 1:
        return 2 ** w - 1
    if k == 2:
        return 1 << rnd.randrange(w)
    if k == 3:
        return (2 ** w - 1) ^ (1 << rnd.randrange(w))
    return rnd.getrandbits(w)


def bad_value(rnd, w):
    return rnd.choice([2 ** w, 2 ** w + 1, -1, -2 ** w, 2 ** (w + 1), 2 ** 64, -(2 ** (w - 1) if w > 1 else 3),
                       2 ** w + rnd.getrandbits(w), 1 << 70])


def new(i, c, v):
    return {"op": "new", "id": i, "c": c, "v": num(v)}


def small(gen, maxw):
    """Every state of the design model times every exported call."""
    for c in configs(range(1, maxw + 1)):
        calls = gen[c["w"] - 1]
        for v in range(2 ** c["w"]):
            s = [new(1, c, v)]
            for x in calls:
                x = dict(x, id=1)
                s.append(x)
                if x["op"] in ("setbit", "setrange", "setvalue", "setall", "clearall", "set", "clear"):
                    s.append({"op": "setvalue", "id": 1, "v": num(v)})
            yield {"name": "small %s %d" % (json.dumps(c), v), "calls": s}


def sweep(c, rnd, nranges, allidx):
    w = c["w"]
    lo, hi = span(c)
    v = rnd.getrandbits(w)
    s = [new(1, c, v)] + [{"op": q, "id": 1} for q in QUERIES0]
    idx = list(range(lo - 2, hi + 3)) if allidx else \
        sorted({lo - 1, lo, lo + 1, hi - 1, hi, hi + 1} | {rnd.randint(lo, hi) for _ in range(4)})
    for i in idx:
        for q in BITQ:
            s.append({"op": q, "id": 1, "i": i})
        s.append({"op": "isbit", "id": 1, "i": i, "v": num(rnd.choice([0, 1]))})
        b = rnd.choice([0, 1])
        s.append({"op": "setbit", "id": 1, "i": i, "v": num(b)})
        s.append({"op": rnd.choice(["set", "clear"]), "id": 1, "i": i})
        s.append({"op": "setbit", "id": 1, "i": i, "v": num(1 - b)})
        s.append({"op": ["clear", "set"][b], "id": 1, "i": i})
        s.append({"op": "getbit", "id": 1, "i": i})
        if rnd.random() < .3:
            s.append({"op": "setbit", "id": 1, "i": i, "v": num(rnd.choice([2, -1, 3]))})
    if nranges is None:
        rs = [(i, j) for i in range(lo, hi + 1) for j in range(lo, hi + 1)
              if (weight(c, i) >= weight(c, j)) == (c["ord"] == "MSBLEFT") or i == j]
    else:
        rs = [(lo, hi), (hi, lo), (lo, lo), (hi, hi)] + [legal_range(c, rnd) for _ in range(nranges)]
    for i, j in rs:
        rw = abs(i - j) + 1
        s += range_calls(rnd, i, j, rw, c)
    s += [{"op": "setvalue", "id": 1, "v": num(x)} for x in
          (0, 2 ** w - 1, 2 ** w, 2 ** w + 1, -1, rnd.getrandbits(w), 2 ** w - 2 if w > 1 else 1)]
    s += [{"op": "setall", "id": 1}, {"op": "repr", "id": 1}, {"op": "value", "id": 1},
          {"op": "clearall", "id": 1}, {"op": "repr", "id": 1}, {"op": "int", "id": 1}]
    return s


def range_calls(rnd, i, j, rw, c):
    out = []

    def add(op, **k):
        out.append(dict(op=op, id=1, s=i, e=j, **k))
    add("setrange", v=num(rvalue(rnd, rw)))
    add("getrange")
    k = rnd.randrange(4)
    if k == 0:
        add("setrange", v=num(2 ** rw - 1))
        add("israngeset")
        add("israngeclr")
        add("isrange", v=num(1))
    elif k == 1:
        add("setrange", v=num(0))
        add("israngeset")
        add("israngeclr")
        add("isrange", v=num(0))
    elif k == 2:
        add("israngeset")
        add("israngeclr")
        add("isrange", v=num(rnd.choice([0, 1])))
    else:
        add("setrange", v=num(rnd.choice([2 ** rw, -1, 2 ** rw + 1])))
        add("isrange", v=num(rnd.choice([2, -1])))
    if rnd.random() < .15:
        lo, hi = span(c)
        out.append({"op": rnd.choice(["getrange", "israngeset", "israngeclr"]), "id": 1,
                    "s": rnd.choice([lo - 1, hi + 1, i]), "e": rnd.choice([lo - 1, hi + 1, j])})
        out.append({"op": "setrange", "id": 1, "s": j, "e": i, "v": num(rvalue(rnd, rw))})
    return out


def history(rnd, n, widths):
    """Three or four objects, interleaved."""
    k = rnd.randint(2, 4)
    base = rnd.choice(configs([rnd.choice(widths)]))
    cs, s = {}, []

    def mk(i):
        c = base if rnd.random() < .4 else rnd.choice(configs([rnd.choice(widths)]))
        v = rvalue(rnd, c["w"])
        r = rnd.random()
        if r < .05:
            v = bad_value(rnd, c["w"])
        elif r < .08:
            c = dict(c, num=rnd.choice(["BAD4", "BADM1"]))
        elif r < .11:
            c = dict(c, ord=rnd.choice(["BAD2", "BADM1"]))
        elif r < .13:
            c = dict(c, w=rnd.choice([65, 66, 100, 128]))
        x = new(i, c, v)
        if r > .97:
            c = {"w": 8, "num": "LSB0", "ord": "LSBLEFT"}
            x = dict(new(i, c, rvalue(rnd, 8)), dflt=True)
        s.append(x)
        if c["num"] in NUMS and c["ord"] in ORDS and c["w"] <= 64 and 0 <= v < 2 ** c["w"] or "dflt" in x:
            cs[i] = c
        else:
            cs.pop(i, None)
    for i in range(1, k + 1):
        mk(i)
    for _ in range(n):
        if rnd.random() < .03 or not cs:
            mk(rnd.randint(1, k))
            continue
        i = rnd.choice(sorted(cs))
        c = cs[i]
        lo, hi = span(c)
        a, b = legal_range(c, rnd)
        rw = abs(a - b) + 1
        ix = (rnd.randint(lo, hi) if rnd.random() < .85 else DICT.pick(rnd, lo, hi)) if rnd.random() < .93 else rnd.choice([lo - 1, hi + 1, -hi, 99, lo - 2])
        if rnd.random() < .05:
            a, b = b, a
        if rnd.random() < .03:
            a = rnd.choice([lo - 1, hi + 1])
        op = rnd.choice(["setbit", "setrange", "setrange", "setrange", "set", "clear", "setvalue", "getbit",
                         "getrange", "getrange", "isrange", "israngeset", "israngeclr", "isbit", "isbitset",
                         "isbitclr", "q", "setall", "clearall"])
        x = {"op": op, "id": i}
        if op == "q":
            x["op"] = rnd.choice(QUERIES0)
        elif op in ("setall", "clearall"):
            if rnd.random() < .5:
                continue
        elif op == "setvalue":
            x["v"] = num(rvalue(rnd, c["w"]) if rnd.random() < .85 else bad_value(rnd, c["w"]))
        elif op in ("setrange", "isrange"):
            x.update(s=a, e=b)
            if op == "isrange":
                x["v"] = num(rnd.choice([0, 1, 0, 1, 0, 1, 2, -1]))
            else:
                x["v"] = num(rvalue(rnd, rw) if rnd.random() < .85 else bad_value(rnd, rw))
        elif op in ("getrange", "israngeset", "israngeclr"):
            x.update(s=a, e=b)
        else:
            x["i"] = ix
            if op in ("setbit", "isbit"):
                x["v"] = num(rnd.choice([0, 1, 0, 1, 0, 1, 0, 1, 2, -1]))
        s.append(x)
    return s


def explore(prop, tier, seed):
    maxw = 3 if tier == "quick" else 4
    g = vlib.fresh("gen.json")
    d = vlib.design("MCBitField", "MCBitField" if tier == "quick" else "MCBitField4", {"VERIF_GEN": g})
    gen = json.load(open(g))
    rnd = random.Random("bitfield %s" % seed)
    scens = list(small(gen, 2 if tier == "quick" else 3))
    # every width and scheme; the widths the machine uses get every range
    full = [8, 12] if tier == "quick" else [5, 6, 7, 8, 12, 16, 24, 48, 63, 64]
    for c in configs(range(1, 65)):
        nr = None if c["w"] in full or c["w"] < 4 else (24 if tier == "quick" else 60)
        big = tier != "quick" or c["w"] in (16, 24, 32, 33, 48, 64) or c["w"] < 14
        scens.append({"name": "sweep %s" % json.dumps(c), "calls": sweep(c, rnd, nr, big)})
        scens.append({"name": "limits", "calls":
                      [new(1, c, x) for x in (0, 2 ** c["w"] - 1, 2 ** c["w"], -1, rnd.getrandbits(c["w"]))]})
    for k in range(4500 if tier == "quick" else 25000):
        ws = rnd.choice([range(1, 65), [48], [12], [16], [24], [64], [1, 2, 3], range(30, 65),
                         [DICT.pick(rnd, 1, 64) for _ in range(3)]])
        scens.append({"name": "history %d" % k, "calls": vlib.sandwich(rnd, vlib.again(rnd, history(rnd, 60, list(ws)), CHANGES), QUERIES)})
    out = vlib.validate(DRIVER, TRACE, scens)
    return [d], out
