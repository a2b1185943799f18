import operator

import dlib
from dlib import call, ok, asstr
from h800.registers import (Register, RegisterGroup, Registers, registerName, registerAlias, registerNumber)

NAMES = ["AU1", "AU2", "SC", "CSC", "SH", "CSH", "UTR", "MXR"] + [p + str(i) for p in "XRS" for i in range(8)]


def small(r):
    n = operator.index(r)
    return {"k": "int", "n": n} if -2 ** 30 < n < 2 ** 30 else {"k": "bigint"}


class Obj:
    def __init__(self, c):
        self.kind, self.w, self.files = c["kind"], c["w"], 0
        if c["kind"] == "reg":
            kw = {}
            if c["n"]:
                kw["name"] = c["n"]
            if not (c.get("dflt") and c["w"] == 16):
                kw["width"] = c["w"]
            self.o = Register(c["v"], **kw)
        elif c["kind"] == "group":
            self.o = RegisterGroup() if c.get("dflt") and c["w"] == 16 else RegisterGroup(width=c["w"])
        else:
            self.o = Registers() if c.get("dflt") and c["w"] == 16 else Registers(width=c["w"])

    def group(self, c):
        if self.kind == "file":
            return self.o[c["g"]]
        if c["g"] != 0:
            raise ValueError("no such group")
        return self.o

    def key(self, c):
        return c["n"] if c["byname"] else c["r"]

    def reg(self, c):
        if self.kind == "reg":
            if c["g"] != 0:
                raise ValueError("no such group")
            return self.o
        return self.group(c)[self.key(c)]

    def values(self):
        if self.kind == "reg":
            return [self.o.value]
        gs = [self.o] if self.kind == "group" else [self.o[g] for g in range(8)]
        return [g[r].value for g in gs for r in range(32)]


class Held(Obj):
    """A register or group that is part of something else."""
    def __init__(self, kind, w, o):
        self.kind, self.w, self.o, self.files = kind, w, o, 0


def ints(r):
    return {"k": "ints", "v": [int(x) for x in r]}


def do(ob, c):
    op = c["op"]
    if op == "get":
        return call(lambda: ob.reg(c).value, small)
    if op == "put":
        def f():
            ob.reg(c).value = c["v"]
        return call(f, ok)
    if op == "getbit":
        return call(lambda: ob.reg(c)[c["i"]], small)
    if op == "getrange":
        return call(lambda: ob.reg(c)[c["s"]:c["e"]], small)
    if op == "putbit":
        def f():
            ob.reg(c)[c["i"]] = c["v"]
        return call(f, ok)
    if op == "putrange":
        def f():
            ob.reg(c)[c["s"]:c["e"]] = c["v"]
        return call(f, ok)
    if op == "clear":
        return call(lambda: ob.reg(c).clear(), ok)
    if op == "name":
        return call(lambda: ob.reg(c).name or "", asstr)
    if op == "rwidth":
        return call(lambda: ob.reg(c).width, small)
    if op == "rlen":
        return call(lambda: len(ob.reg(c)), small)
    if op == "rrepr":
        return call(lambda: int(repr(ob.reg(c)), 8), small)
    if op == "grepr":
        return call(lambda: [int(t, 8) for t in repr(ob.group(c)).split()], ints)
    if op == "replace":
        def f():
            r = Register(c["v"], width=c["w"], name=c["rn"]) if c["rn"] else Register(c["v"], width=c["w"])
            ob.group(c)[ob.key(c)] = r
        return call(f, ok)
    if op == "replacegroup":
        def f():
            g = RegisterGroup(width=c["w"])
            for k in range(32):
                g[k].value = c["v"]
            ob.o[c["g"]] = g
        return call(f, ok)
    if op == "cleargroup":
        return call(lambda: ob.group(c).clear(), ok)
    if op == "clearall":
        return call(lambda: ob.o.clear(), ok)
    if op == "glen":
        return call(lambda: len(ob.group(c)), small)
    if op == "gwidth":
        return call(lambda: ob.group(c).width, small)
    if op == "flen":
        return call(lambda: len(ob.o), small)
    if op == "fwidth":
        return call(lambda: ob.o.width, small)
    if op == "itergroup":
        def f():
            g = ob.group(c)
            if c.get("nested"):
                return dlib.weave(g, lambda r: (r.value, r.name), c["way"], c["k"])
            return [(r.value, r.name) for r in g]
        return call(f, lambda r: {"k": "iter", "v": [operator.index(x) for x, _ in r], "n": [str(n or "") for _, n in r]})
    if op == "itergroupset":
        def f():
            for k, r in enumerate(ob.group(c)):
                if k == c["r"]:
                    r.value = c["v"]
                    return
            raise RuntimeError("no such register")
        return call(f, ok)
    if op == "iterfile":
        return call(lambda: [next((k for k in range(8) if ob.o[k] is g), -1) for g in ob.o], ints)
    raise AssertionError(op)


def observe(objs):
    out = []
    for i in sorted(objs):
        box = []

        def f():
            v = [operator.index(x) for x in objs[i].values()]
            if not all(0 <= x < 2 ** 24 for x in v):
                raise RuntimeError("out of range")
            box.append(v)
        r = call(f, ok)
        out.append({"id": i, "ok": r["k"] == "ok", "v": box[0] if box else []})
    return out


def run(log, sc):
    objs = {}
    for c in sc["calls"]:
        op = c["op"]
        if op == "registerNumber":
            log.emit(**c, res=call(lambda: registerNumber(c["n"]), small))
            continue
        if op == "registerName":
            log.emit(**c, res=call(lambda: registerName(c["r"]), asstr))
            continue
        if op == "registerAlias":
            log.emit(**c, res=call(lambda: registerAlias(c["r"]), asstr))
            continue
        if op == "new":
            box = []
            res = call(lambda: box.append(Obj(c)), ok)
            if box:
                objs[c["id"]] = box[0]
            else:
                objs.pop(c["id"], None)
        elif c["id"] not in objs:
            continue
        elif op in ("install", "installgroup") and c["from"] not in objs:
            continue
        elif op in ("hold", "holdgroup"):
            ob, box = objs[c["id"]], []
            res = call(lambda: box.append(ob.reg(c) if op == "hold" else ob.group(c)), ok)
            if box:
                objs[c["to"]] = Held("reg" if op == "hold" else "group", ob.w, box[0])
        elif op in ("install", "installgroup"):
            ob = objs[c["id"]]

            def f():
                if op == "install":
                    ob.group(c)[ob.key(c)] = objs[c["from"]].o
                else:
                    ob.o[c["g"]] = objs[c["from"]].o
            res = call(f, ok)
        else:
            if op == "iterfile":
                objs[c["id"]].files += 1
                c = dict(c, nth=objs[c["id"]].files)
            if op in ("replace", "replacegroup"):
                c = dict(c, w=c.get("w", objs[c["id"]].w))
            res = do(objs[c["id"]], c)
        log.emit(**c, res=res, obs=observe(objs))


dlib.main(run)
