"""Registers: C11 C12 C13."""
import random

import vlib

DRIVER, TRACE = "registers", "RegistersTrace"
CLAUSES = {
    "reg.store": ["C11", "C12"], "reg.read": ["C11", "C12"], "reg.frame": ["C11", "C12", "C13"], "reg.new": ["C11", "C12"],
    "reg.names": ["C11"], "reg.refuse.reg": ["C11"], "reg.replace": ["C11"], "reg.pure": ["C11", "C12"],
    "reg.count": ["C11", "C13"], "reg.accept": ["C11", "C12"],
    "reg.bits.read": ["C12"], "reg.bits.store": ["C12"], "reg.refuse.value": ["C12"], "reg.refuse.new": ["C12"],
    "reg.refused-change": ["C11", "C12"], "reg.width": ["C12"], "reg.repr": ["C12"],
    "reg.clear": ["C13"], "reg.iter": ["C13"], "reg.iterfile.again": ["C13"],
}
NAMES = ["AU1", "AU2", "SC", "CSC", "SH", "CSH", "UTR", "MXR"] + [p + str(i) for p in "XRS" for i in range(8)]
ALIASES = ["RAC", "DRAC", "WAC", "DWAC"]
NG = {"reg": 1, "group": 1, "file": 8}
CHANGES = {"put", "putbit", "putrange", "clear", "cleargroup", "clearall", "itergroupset", "replace", "replacegroup"}
QUERIES = {"get", "getbit", "getrange", "name", "rrepr", "rwidth", "rlen", "grepr", "itergroup", "glen"}
BADN = ["", "X8", "au1", "S8", "R9", "AU3", "Z", "X"]


DICT = vlib.Dictionary("h800/registers.py", "h800/bitfield.py")


def rv(rnd, w):
    k = rnd.randrange(7)
    if k == 6:
        return DICT.pick(rnd, 0, 2 ** w - 1)
    return [0, 2 ** w - 1, 1 << rnd.randrange(w)][k] if k < 3 else rnd.getrandbits(w)


def bv(rnd, w):
    return rnd.choice([-1, 2 ** w, 2 ** w + 1, -2 ** w, 2 ** (w + 1), 2 ** 29])


def new(i, kind, w, v=0, n="", dflt=False):
    return {"op": "new", "id": i, "kind": kind, "w": w, "v": v, "n": n, "dflt": dflt}


def where(rnd, kind, ok=True):
    x = {"g": rnd.randrange(NG[kind]), "r": 0 if kind == "reg" else rnd.randrange(32), "byname": False, "n": ""}
    if kind != "reg" and rnd.random() < .4:
        x.update(byname=True, n=rnd.choice(NAMES))
    if not ok and kind != "reg":
        k = rnd.randrange(3)
        if k == 0 and kind == "file":
            x["g"] = rnd.choice([-1, 8, 9, 100])
        elif k == 1:
            x.update(byname=True, n=rnd.choice(BADN))
        else:
            x.update(byname=False, n="", r=rnd.choice([-1, 32, 33, -32, 255]))
    return x


OPS = ["put"] * 8 + ["get"] * 4 + ["putbit"] * 4 + ["getbit"] * 2 + ["putrange"] * 4 + ["getrange"] * 3 + \
      ["clear", "cleargroup", "clearall", "name", "rwidth", "rlen", "rrepr", "replace", "replace", "replacegroup",
       "hold", "hold", "holdgroup", "install", "install", "installgroup", "itergroup", "itergroup", "itergroupset", "iterfile", "glen", "gwidth", "flen", "fwidth", "grepr"]


def history(rnd, n):
    kinds = rnd.choice([["file"], ["file", "file"], ["group", "group"], ["reg", "reg", "group"], ["file", "reg"],
                        ["group"], ["reg", "reg", "reg"], ["file", "group"]])
    ws = [rnd.choice([16, 24]) for _ in kinds]
    s = [new(k + 1, kd, ws[k], rv(rnd, ws[k]) if kd == "reg" else 0,
             rnd.choice(NAMES + ALIASES + ["", ""]) if kd == "reg" else "", rnd.random() < .5)
         for k, kd in enumerate(kinds)]
    live = {k + 1: (kd, ws[k]) for k, kd in enumerate(kinds)}      # what each id is
    for _ in range(n):
        k = rnd.choice(sorted(live)) - 1
        kind, w = live[k + 1]
        if rnd.random() < .08:           # meant for a register of the other width
            w = 40 - w
        op = rnd.choice(OPS)
        if kind != "file" and op in ("iterfile", "flen", "fwidth", "replacegroup", "holdgroup", "installgroup"):
            op = "put"
        if kind == "reg" and op in ("hold", "install"):
            op = "put"
        if op in ("hold", "holdgroup", "install", "installgroup"):
            x = dict(where(rnd, kind), op=op, id=k + 1)
            want = "group" if op.endswith("group") else "reg"
            if op.startswith("hold"):
                x["to"] = rnd.choice([7] if op == "holdgroup" else [5, 6])
                live[x["to"]] = (want, w)
            else:
                src = [i for i in sorted(live) if live[i][0] == want]
                if not src:
                    continue
                x["from"] = rnd.choice(src)
            s.append(x)
            continue
        if kind == "reg" and op in ("itergroup", "itergroupset", "glen", "gwidth", "grepr", "cleargroup", "clearall",
                                    "replace", "name"):
            op = "putrange"
        if op in ("clearall", "cleargroup", "replacegroup") and rnd.random() < .5:
            op = "put"
        x = {"op": op, "id": k + 1}
        x.update(where(rnd, kind, rnd.random() > .04))
        if op == "put":
            x["v"] = rv(rnd, w) if rnd.random() < .9 else bv(rnd, w)
        elif op in ("replace", "itergroupset", "replacegroup"):
            x["v"] = rv(rnd, w)
            if op != "itergroupset":
                x["w"] = w
            x["r"] = x["r"] if op == "replace" else rnd.randrange(32)
            if op == "replace":
                x["rn"] = rnd.choice(["", x["n"] if x["byname"] and x["n"] in NAMES else NAMES[x["r"] % 32], rnd.choice(NAMES + ALIASES)])
        elif op in ("putbit", "getbit"):
            x["i"] = (rnd.randint(1, w) if rnd.random() < .8 else DICT.pick(rnd, 1, w)) if rnd.random() < .93 else rnd.choice([0, w + 1, -1, 17, 25])
            if op == "putbit":
                x["v"] = rnd.choice([0, 1, 0, 1, 0, 1, 0, 1, 2, -1])
        elif op in ("putrange", "getrange"):
            a, b = sorted(rnd.randint(1, w) if rnd.random() < .8 else DICT.pick(rnd, 1, w) for _ in "ab")
            if rnd.random() < .06:
                a, b = rnd.choice([(b, a), (0, b), (a, w + 1)])
            x["s"], x["e"] = a, b
            if op == "putrange":
                ln = max(1, b - a + 1)
                x["v"] = rv(rnd, ln) if rnd.random() < .88 else bv(rnd, ln)
        elif op == "itergroup":
            x.update(nested=rnd.random() < .5, **vlib.woven(rnd, 32))
        s.append(x)
    return s


def sweep(kind, w, rnd):
    """Every register of every group gets its own value, by name or number; read back; cleared by group, then all."""
    s = [new(1, kind, w), new(2, kind, w)]
    cells = [(g, r) for g in range(NG[kind]) for r in range(32)]
    rnd.shuffle(cells)
    for j, (g, r) in enumerate(cells):
        by = rnd.random() < .5
        s.append({"op": "put", "id": 1, "g": g, "r": r, "byname": by, "n": NAMES[r] if by else "",
                  "v": 1 + g * 32 + r + (rnd.getrandbits(w - 9) << 9)})
    for j, (g, r) in enumerate(cells):
        by = rnd.random() < .5
        for op in ("get", "name"):
            s.append({"op": op, "id": 1, "g": g, "r": r, "byname": not by, "n": "" if by else NAMES[r]})
    for g in range(NG[kind]):
        base = {"id": 1, "g": g}
        s.append(dict(base, op="itergroup"))
        s.append(dict(base, op="itergroup", nested=True, **vlib.woven(rnd, 32)))
        s.append(dict(base, op="grepr"))
        s.append(dict(base, op="replace", r=5, byname=False, n="", v=77, rn="CSH"))
        s.append(dict(base, op="replace", r=0, byname=True, n="MXR", v=78, rn=""))
        s.append(dict(base, op="get", r=7, byname=False, n=""))
    if kind == "file":
        s += [{"op": "iterfile", "id": 1, "g": 0}]
        s += [{"op": "replacegroup", "id": 1, "g": 3, "v": 99}]
        for g in (-1, 8):
            s += [{"op": "replacegroup", "id": 1, "g": g, "v": 98, "byname": False, "r": 0, "n": ""}]
        s += [{"op": "cleargroup", "id": 1, "g": g} for g in (2, 7, 0)]
    s += [{"op": "clearall", "id": 1}]
    for t in range(2):
        for g, r in cells[:20]:
            s.append({"op": "put", "id": 1, "g": g, "r": r, "byname": False, "n": "", "v": 2 ** w - 1 - r})
        if kind == "file":
            s += [{"op": "iterfile", "id": 1, "g": 0}]
        s += [{"op": "itergroup", "id": 1, "g": 0}, {"op": "clearall", "id": 1}]
    return s


def shared(kind, w, rnd):
    """Each register: held and written by either way, replaced while held, another one installed, then cleared."""
    s = [new(1, kind, w), new(2, "reg", w, 0, "")]
    for r in rnd.sample(range(32), 32):
        g = rnd.randrange(NG[kind])
        a = {"id": 1, "g": g, "r": r, "byname": rnd.random() < .5, "n": NAMES[r]}
        z = {"g": 0, "r": 0, "byname": False, "n": ""}
        s += [dict(a, op="hold", to=5), dict(z, op="put", id=5, v=rv(rnd, w)), dict(a, op="put", v=rv(rnd, w)),
              dict(z, op="get", id=5), new(6, "reg", rnd.choice([16, 24]), rnd.choice([0, rv(rnd, 16)]), rnd.choice(["", NAMES[r]])),
              dict(a, op="install", **{"from": 6}), dict(z, op="put", id=6, v=rv(rnd, w)), dict(a, op="get"),
              dict(a, op="name"), dict(z, op="put", id=5, v=rv(rnd, w)), dict(a, op="itergroupset", v=rv(rnd, w))]
        s += [{"op": rnd.choice(["cleargroup", "clearall", "itergroup"]), "id": 1, "g": g}]
        s += [dict(a, op="replace", v=rv(rnd, w), rn=rnd.choice(["", NAMES[r]])), dict(z, op="putbit", id=6, i=rnd.randint(1, w), v=1),
              {"op": rnd.choice(["cleargroup", "clearall", "itergroup", "grepr"]), "id": 1, "g": g}]
    if kind == "file":
        for g in range(8):
            s += [{"op": "holdgroup", "id": 1, "g": g, "to": 7}, {"op": "itergroupset", "id": 7, "g": 0, "r": g, "v": 5 + g},
                  {"op": "replacegroup", "id": 1, "g": g, "v": g, "w": rnd.choice([16, 24])}, {"op": "cleargroup", "id": 7, "g": 0},
                  {"op": "installgroup", "id": 1, "g": (g + 3) % 8, "from": 7}, {"op": "put", "id": 7, "g": 0, "r": g, "byname": False, "n": "", "v": 9}]
        s += [{"op": "iterfile", "id": 1, "g": 0}]
    return s


def bits(w, rnd, full):
    s = [new(1, "reg", w, rnd.getrandbits(w), "SC")]
    z = {"id": 1, "g": 0, "r": 0, "byname": False, "n": ""}
    for q in ("rwidth", "rlen", "rrepr", "get"):
        s.append(dict(z, op=q))
    for i in range(-1, w + 3):
        for v in (1, 0, 1):
            s.append(dict(z, op="putbit", i=i, v=v))
            s.append(dict(z, op="getbit", i=i))
    rs = [(a, b) for a in range(1, w + 1) for b in range(a, w + 1)]
    for a, b in rs if full else rnd.sample(rs, 120):
        s.append(dict(z, op="putrange", s=a, e=b, v=rnd.getrandbits(b - a + 1)))
        s.append(dict(z, op="getrange", s=a, e=b))
        if rnd.random() < .3:
            s.append(dict(z, op="putrange", s=a, e=b, v=2 ** (b - a + 1)))
    s.append(dict(z, op="clear"))
    for v in (0, 1, 2 ** w - 1, 2 ** w, -1, 2 ** w + 1, 2 ** (w - 1)):
        s.append(dict(z, op="put", v=v))
        s.append(dict(z, op="rrepr"))
    return s


def explore(prop, tier, seed):
    ds = [vlib.design(m, m if tier == "quick" else m + "T") for m in ("MCRegisters", "MCRegisterHeap")]
    rnd = random.Random("registers %s" % seed)
    scens = []
    for kind in ("file", "group"):
        for w in (16, 24):
            scens.append({"name": "sweep %s %d" % (kind, w), "calls": sweep(kind, w, rnd)})
            for k in range(6 if tier == "quick" else 40):
                scens.append({"name": "shared %s %d %d" % (kind, w, k), "calls": shared(kind, w, rnd)})
    for w in (16, 24):
        scens.append({"name": "bits %d" % w, "calls": bits(w, rnd, True)})
    s = [{"op": "registerNumber", "n": n} for n in NAMES + ALIASES + BADN + [n.lower() for n in NAMES]]
    s += [{"op": op, "r": r} for op in ("registerName", "registerAlias") for r in range(-3, 40)]
    for w in (16, 24, 8, 17, 15, 23, 25, 32, 48, 0, 12):
        for kind in ("reg", "group", "file"):
            s.append(new(1, kind, w, 0, ""))
    for w in (16, 24):
        for v in (0, 1, 2 ** w - 1, 2 ** w, 2 ** w + 1, -1, -2 ** w, 2 ** 25, 65535, 65536):
            for n in ("", "SC", "RAC", "DWAC", "XX", "X8", "rac"):
                s.append(new(1, "reg", w, v, n, rnd.random() < .5))
    for n in NAMES + ALIASES:
        s.append(new(1, "reg", 24, 5, n))
    scens.append({"name": "names and construction", "calls": s})
    for k in range(4500 if tier == "quick" else 15000):
        scens.append({"name": "history %d" % k, "calls": vlib.sandwich(rnd, vlib.again(rnd, history(rnd, 48), CHANGES), QUERIES)})
    return ds, vlib.validate(DRIVER, TRACE, scens)
