import dlib
from dlib import num, denum, call, ok, asint, asbool
from h800.bitfield import BitField

NUM = {"LSB0": BitField.BIT_SCHEME_LSB_0, "LSB1": BitField.BIT_SCHEME_LSB_1,
       "MSB0": BitField.BIT_SCHEME_MSB_0, "MSB1": BitField.BIT_SCHEME_MSB_1, "BAD4": 4, "BADM1": -1}
ORD = {"MSBLEFT": BitField.BIT_ORDER_MSB_LEFT, "LSBLEFT": BitField.BIT_ORDER_LSB_LEFT,
       "BAD2": 2, "BADM1": -1}


def ints(r):
    return {"k": "ints", "v": [int(x) for x in r]}


def digits(r):
    return {"k": "ints", "v": [int(ch) for ch in r]}


def do(o, c):
    op = c["op"]
    v = denum(c["v"]) if "v" in c else None
    if op == "getbit":
        return call(lambda: o[c["i"]], asint)
    if op == "getrange":
        return call(lambda: o[c["s"]:c["e"]], asint)
    if op == "setbit":
        def f():
            o[c["i"]] = v
        return call(f, ok)
    if op == "setrange":
        def f():
            o[c["s"]:c["e"]] = v
        return call(f, ok)
    if op == "setvalue":
        def f():
            o.value = v
        return call(f, ok)
    if op == "setall":
        return call(lambda: o.set(), ok)
    if op == "clearall":
        return call(lambda: o.clear(), ok)
    if op == "set":
        return call(lambda: o.set(c["i"]), ok)
    if op == "clear":
        return call(lambda: o.clear(c["i"]), ok)
    if op in ("value", "width", "maxval", "lsb", "msb", "numbering", "order"):
        return call(lambda: getattr(o, op), asint)
    if op == "int":
        return call(lambda: int(o), asint)
    if op == "index":
        return call(lambda: [0][o:] and o.__index__() or o.__index__(), asint)
    if op == "len":
        return call(lambda: len(o), asint)
    if op == "indices":
        return call(lambda: o.indices, ints)
    if op == "repr":
        return call(lambda: repr(o), digits)
    if op == "isbit":
        return call(lambda: o.isBit(c["i"], v), asbool)
    if op == "isbitset":
        return call(lambda: o.isBitSet(c["i"]), asbool)
    if op == "isbitclr":
        return call(lambda: o.isBitClr(c["i"]), asbool)
    if op == "isrange":
        return call(lambda: o.isRange(c["s"], c["e"], v), asbool)
    if op == "israngeset":
        return call(lambda: o.isRangeSet(c["s"], c["e"]), asbool)
    if op == "israngeclr":
        return call(lambda: o.isRangeClr(c["s"], c["e"]), asbool)
    raise AssertionError(op)


def observe(objs):
    obs = []
    for k in sorted(objs):
        o, w = objs[k]
        r = call(lambda: o.value, asint)
        good = r["k"] == "int" and not r["v"]["neg"] and len(r["v"]["bits"]) <= w
        obs.append({"id": k, "ok": good,
                    "bits": r["v"]["bits"] + [0] * (w - len(r["v"]["bits"])) if good else []})
    return obs


def run(log, sc):
    objs = {}
    for c in sc["calls"]:
        box = []
        if c["op"] == "new":
            cc = c["c"]

            def mk():
                if c.get("dflt"):
                    return BitField(denum(c["v"]))
                return BitField(denum(c["v"]), width=cc["w"], numbering=NUM[cc["num"]],
                                order=ORD[cc["ord"]])
            res = call(lambda: box.append(mk()), ok)
            if box:
                objs[c["id"]] = (box[0], cc["w"])
            else:
                objs.pop(c["id"], None)
        elif c["id"] not in objs:
            continue
        else:
            res = do(objs[c["id"]][0], c)
        log.emit(**c, res=res, obs=observe(objs))


dlib.main(run)
