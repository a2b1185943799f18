"""Memory: C09 C10."""
import random

import vlib

DRIVER, TRACE = "memory", "MemoryTrace"
CLAUSES = {
    "mem.store": ["C09"], "mem.read": ["C09"], "mem.frame": ["C09", "C10"], "mem.blank": ["C09"], "mem.pure": ["C09", "C10"],
    "mem.accept": ["C09"], "mem.refuse": ["C09", "C10"], "mem.refused-change": ["C09", "C10"],
    "mem.audit": ["C09", "C10"], "mem.slice": ["C10", "C09"], "mem.fill": ["C10", "C09"], "mem.accept.fill": ["C10"], "mem.iter": ["C10"], "mem.repr": ["C10"],
    "mem.size": ["C10"], "mem.banks": ["C10", "C09"], "mem.clear": ["C10"],
}
NB = {"bank": 1, "module": 4, "expansion": 8}
SIZE = 2048
CHANGES = {"write", "fill", "iterset", "clear"}
QUERIES = {"read", "slice", "iterpart", "iter", "nested", "repr", "len", "banks", "size", "bankslice"}
MAXW = 2 ** 48 - 1


def octal(n):
    return ("-%o" % -n) if n < 0 else "%o" % n


DICT = vlib.Dictionary("h800/memory.py", "h800/bitfield.py")


def word(rnd):
    k = rnd.randrange(9)
    if k == 8:
        return octal(DICT.pick(rnd, 0, MAXW))
    return octal({0: 0, 1: MAXW, 2: 1 << rnd.randrange(48), 3: MAXW ^ (1 << rnd.randrange(48))}.get(
        k, rnd.getrandbits(48)))


def bad(rnd):
    return octal(rnd.choice([2 ** 48, 2 ** 48 + 1, -1, -2 ** 48, 2 ** 49 + 5, 2 ** 64, -5]))


def addr(rnd, hot):
    r = rnd.random()
    if r < .35 and hot:
        a = rnd.choice(hot)
        return (a ^ (1 << rnd.randrange(11))) if rnd.random() < .4 else a
    if r < .6:
        return DICT.pick(rnd, 0, SIZE - 1)
    return rnd.choice([0, 1, 2046, 2047, 1023, 1024]) if r < .7 else rnd.randrange(SIZE)


def history(rnd, kinds, n, every):
    s = [{"op": "new", "id": k + 1, "kind": kd} for k, kd in enumerate(kinds)]
    hot = []
    for t in range(n):
        i = rnd.randrange(len(kinds))
        nb = NB[kinds[i]]
        b = rnd.randrange(nb)
        if rnd.random() < .02 and kinds[i] != "bank":
            b = rnd.choice([-1, nb, nb + 3])
        op = rnd.choice(["write"] * 10 + ["read"] * 5 + ["slice"] * 3 + ["fill"] * 3 +
                        ["iterset", "iterpart", "iter", "nested", "clear", "repr", "len", "width", "banks", "size", "bankslice"])
        if op in ("iter", "nested", "repr", "clear") and rnd.random() < .5:
            op = "write"
        x = {"op": op, "id": i + 1, "b": b, "held": rnd.random() < .5, "look": rnd.random() < every}
        a = addr(rnd, hot)
        if rnd.random() < .04 and op in ("read", "write"):
            a = rnd.choice([-1, 2048, 2049, -2048, 4096, 8192])
        if op in ("read", "write"):
            x["a"] = a
            if 0 <= a < SIZE:
                hot.append(a)
        if op in ("iterset", "iterpart"):
            x["a"] = rnd.choice([0, 1, 5, 2047, rnd.randrange(SIZE)])
        if op in ("write", "fill", "iterset"):
            x["v"] = word(rnd) if rnd.random() < .9 else bad(rnd)
        if op in ("slice", "fill"):
            ln = rnd.choice([0, 1, 2, 3, 7, 16, 40, DICT.pick(rnd, 0, 300)])
            st = rnd.choice([a if 0 <= a < SIZE else 0, SIZE - ln, 0])
            x["s"], x["e"] = st, st + ln
            if rnd.random() < .06:
                x["s"], x["e"] = rnd.choice([(2040, 2050), (-2, 3), (2047, 2049), (2048, 2050), (5, 2)])
        if op == "fill":
            x["look"] = True
        if op == "bankslice":
            if kinds[i] == "bank":
                continue
            p, q = sorted((rnd.randint(0, nb), rnd.randint(0, nb)))
            x["s"], x["e"] = p, q
        s.append(x)
        if t % 25 == 24:
            s.append({"op": "audit", "id": 1})
    s.append({"op": "audit", "id": 1})
    return s


def sweep(rnd, kind, b):
    """Every address of one bank, a distinct word each, written in one order and read in another."""
    order = list(range(SIZE))
    rnd.shuffle(order)
    s = [{"op": "new", "id": 1, "kind": kind}]
    val = {a: octal(1 + a + (rnd.getrandbits(30) << 17)) for a in order}
    for a in order:
        s.append({"op": "write", "id": 1, "b": b, "a": a, "v": val[a]})
    s.append({"op": "audit", "id": 1})
    rnd.shuffle(order)
    for a in order:
        s.append({"op": "read", "id": 1, "b": b, "a": a})
    s += [{"op": "slice", "id": 1, "b": b, "s": 0, "e": SIZE}, {"op": "iter", "id": 1, "b": b},
          {"op": "iter", "id": 1, "b": b}, {"op": "repr", "id": 1, "b": b},
          {"op": "clear", "id": 1, "b": b, "look": True}, {"op": "iter", "id": 1, "b": b},
          {"op": "fill", "id": 1, "b": b, "s": 0, "e": SIZE, "v": "1"}, {"op": "audit", "id": 1},
          {"op": "iter", "id": 1, "b": b}, {"op": "clear", "id": 1, "b": b}, {"op": "audit", "id": 1}]
    return s


def banksig(rnd, kind):
    """One distinct word at the same addresses of every bank, cleared bank by bank."""
    s = [{"op": "new", "id": 1, "kind": kind}, {"op": "new", "id": 2, "kind": kind}]
    for a in [0, 2047, rnd.randrange(SIZE), rnd.randrange(SIZE)]:
        for i in (1, 2):
            for b in range(NB[kind]):
                s.append({"op": "write", "id": i, "b": b, "a": a, "v": octal(1 + b + 16 * i + (a << 8)), "look": True})
    s.append({"op": "audit", "id": 1})
    for q in ("size", "banks", "len", "width"):
        for i in (1, 2):
            s.append({"op": q, "id": i, "b": NB[kind] - 1})
    if kind != "bank":
        for p in range(0, NB[kind] + 1):
            for q in range(p, NB[kind] + 1):
                s.append({"op": "bankslice", "id": 1, "s": p, "e": q})
    for b in range(NB[kind]):
        for q in ("iter", "repr", "nested", "nested"):
            for m in ({"op": "iterset", "a": rnd.randrange(SIZE)}, {"op": "write", "a": rnd.randrange(SIZE)},
                      {"op": "fill", "s": 7, "e": 9}, {"op": "clear"}):
                s.append({"op": q, "id": 1, "b": b})
                s.append(dict(m, id=1, b=b, v=octal(1 + rnd.getrandbits(40))))
            s.append({"op": q, "id": 1, "b": b})
        place = rnd.randrange(SIZE - 3)
        ms = [{"op": "iterset", "a": place, "v": "11"}, {"op": "write", "a": place, "v": "12"}, {"op": "write", "a": place + 1, "v": "12"},
              {"op": "fill", "s": place, "e": place + 2, "v": "13"}, {"op": "clear"}]
        for m in ms:
            for q in ms:
                s += [dict(y, id=1, b=b, look=True) for y in (m, q, m)]
        s.append({"op": "clear", "id": 1 + b % 2, "b": b})
        s.append({"op": "audit", "id": 1})
    for b in (-1, NB[kind]):
        if kind != "bank":
            s.append({"op": "read", "id": 1, "b": b, "a": 0})
            s.append({"op": "write", "id": 1, "b": b, "a": 0, "v": "5", "look": True})
    for a in (-1, 2048, -2047, 4095):
        s.append({"op": "read", "id": 1, "b": 0, "a": a})
        s.append({"op": "write", "id": 1, "b": 0, "a": a, "v": "5", "look": True})
    for v in (2 ** 48, -1, 2 ** 60):
        s.append({"op": "write", "id": 1, "b": 0, "a": 3, "v": octal(v), "look": True})
        s.append({"op": "fill", "id": 1, "b": 0, "s": 3, "e": 6, "v": octal(v), "look": True})
    s.append({"op": "audit", "id": 1})
    return s


def explore(prop, tier, seed):
    d = vlib.design("MCMemory", "MCMemory" if tier == "quick" else "MCMemoryT")
    rnd = random.Random("memory %s" % seed)
    scens = [{"name": "sweep bank", "calls": sweep(rnd, "bank", 0)}]
    for kind in NB:
        scens.append({"name": "banks " + kind, "calls": banksig(rnd, kind)})
    for kind, b in [("module", rnd.randrange(4)), ("expansion", rnd.randrange(8))] if tier == "quick" else \
            [(k, b) for k in ("module", "expansion") for b in range(NB[k])]:
        scens.append({"name": "sweep %s %d" % (kind, b), "calls": sweep(rnd, kind, b)})
    for k in range(800 if tier == "quick" else 3000):
        kinds = rnd.choice([["bank"], ["bank", "bank"], ["module"], ["expansion"], ["module", "bank"],
                            ["module", "expansion"], ["bank", "bank", "bank"]])
        scens.append({"name": "history %d" % k, "calls": vlib.sandwich(rnd, vlib.again(rnd, history(rnd, kinds, 78, .25), CHANGES), QUERIES, .3)})
    for sc in scens:                 # how far an iteration goes is not an address
        for x in sc["calls"]:
            if x["op"] == "clear":
                x["look"] = True
            if x["op"] == "nested":
                x.update(vlib.woven(rnd, SIZE))
            if x["op"] in ("iterpart", "iterset"):
                x["a"] %= SIZE
    return [d], vlib.validate(DRIVER, TRACE, scens)
