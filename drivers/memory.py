import operator

import dlib
from dlib import call, ok
from h800.memory import MemoryBank, MemoryModule, ExpansionMemoryModule

KINDS = {"bank": MemoryBank, "module": MemoryModule, "expansion": ExpansionMemoryModule}
NB = {"bank": 1, "module": 4, "expansion": 8}
SIZE = 2048


def octal(n):
    n = operator.index(n)
    return ("-%o" % -n) if n < 0 else "%o" % n


def asoct(r):
    return {"k": "str", "v": octal(r)}


def small(r):
    n = operator.index(r)
    return {"k": "int", "n": n} if -2 ** 30 < n < 2 ** 30 else {"k": "bigint"}


def dump(values):
    values = list(values)
    return {"k": "dump", "n": len(values), "w": [[i, octal(v)] for i, v in enumerate(values) if v != 0]}


class Obj:
    def __init__(self, kind):
        self.kind, self.o, self.held = kind, KINDS[kind](), {}

    def bank(self, c):
        if self.kind == "bank":
            if c["b"] != 0:
                raise KeyError(c["b"])
            return self.o
        if c.get("held") and c["b"] in self.held:
            return self.held[c["b"]]
        b = self.o[c["b"]]
        self.held[c["b"]] = b
        return b

    def words(self):
        out = []
        for b in range(NB[self.kind]):
            bank = self.o if self.kind == "bank" else self.o[b]
            for a in range(SIZE):
                v = bank[a]
                if v != 0:
                    out.append([b * SIZE + a, octal(v)])
        return out


def do(ob, c):
    op = c["op"]
    if op == "read":
        return call(lambda: ob.bank(c)[c["a"]], asoct)
    if op == "write":
        def f():
            ob.bank(c)[c["a"]] = int(c["v"], 8)
        return call(f, ok)
    if op == "slice":
        return call(lambda: ob.bank(c)[c["s"]:c["e"]], lambda r: {"k": "strs", "v": [octal(x) for x in r]})
    if op == "fill":
        def f():
            ob.bank(c)[c["s"]:c["e"]] = int(c["v"], 8)
        return call(f, ok)
    if op == "iter":
        return call(lambda: [w.value for w in ob.bank(c)], dump)
    if op == "nested":
        return call(lambda: dlib.weave(ob.bank(c), lambda w: w.value, c["way"], c["k"]), dump)
    if op == "iterpart":
        def f():
            got = []
            for w in ob.bank(c):
                if len(got) == c["a"]:
                    break
                got.append(w.value)
            return got
        return call(f, dump)
    if op == "iterset":
        def f():
            for i, w in enumerate(ob.bank(c)):
                if i == c["a"]:
                    w.value = int(c["v"], 8)
                    return
            raise RuntimeError("no such word")
        return call(f, ok)
    if op == "repr":
        return call(lambda: [int(t, 8) for t in repr(ob.bank(c)).split()], dump)
    if op == "clear":
        return call(lambda: ob.bank(c).clear(), ok)
    if op == "len":
        return call(lambda: len(ob.bank(c)), small)
    if op == "width":
        return call(lambda: ob.bank(c).width, small)
    if op == "banks":
        return call(lambda: 1 if ob.kind == "bank" else len(ob.o), small)
    if op == "size":
        return call(lambda: len(ob.o) if ob.kind == "bank" else ob.o.size(), small)
    if op == "bankslice":
        def f():
            return [next((b for b in range(NB[ob.kind]) if ob.o[b] is x), -1) for x in ob.o[c["s"]:c["e"]]]
        return call(f, lambda r: {"k": "ints", "v": r})
    raise AssertionError(op)


def readout(objs, ids):
    nz = []
    for i in ids:
        box = []
        r = call(lambda: box.append(objs[i].words()), ok)
        nz.append({"id": i, "ok": r["k"] == "ok", "w": box[0] if box else []})
    return nz


def run(log, sc):
    objs = {}
    for n, c in enumerate(sc["calls"]):
        i = c["id"]
        if c["op"] == "new":
            box = []
            res = call(lambda: box.append(Obj(c["kind"])), ok)
            if box:
                objs[i] = box[0]
        elif i not in objs:
            continue
        elif c["op"] == "audit":
            log.emit(**c, res={"k": "ok"}, nz=readout(objs, sorted(objs)))
            continue
        else:
            res = do(objs[i], c)
        log.emit(**c, res=res, nz=readout(objs, [i]) if c.get("look") or c["op"] == "new" else [])


dlib.main(run)
