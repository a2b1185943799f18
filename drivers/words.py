import dlib
from dlib import denum, call, ok, asint
from h800.word import Word, InstructionWord
from h800 import instructions as I

W = 48


def do(o, c):
    op = c["op"]
    v = denum(c["v"]) if "v" in c else None
    if op == "value":
        return call(lambda: o.value, asint)
    if op == "group":
        return call(lambda: getattr(o, c["g"]), asint)
    if op == "emit":
        return call(lambda: o.emit(), ok)
    if op == "setvalue":
        def f():
            o.value = v
        return call(f, ok)
    if op == "setgroup":
        return call(lambda: setattr(o, c["g"], v), ok)
    if op == "getbit":
        return call(lambda: o.data[c["i"]], asint)
    if op == "getrange":
        return call(lambda: o.data[c["s"]:c["e"]], asint)
    if op == "setbit":
        def f():
            o.data[c["i"]] = v
        return call(f, ok)
    if op == "setrange":
        def f():
            o.data[c["s"]:c["e"]] = v
        return call(f, ok)
    raise AssertionError(op)


def observe(objs):
    obs = []
    for k in sorted(objs):
        o, iw = objs[k]
        r = call(lambda: o.value, asint)
        good = r["k"] == "int" and not r["v"]["neg"] and len(r["v"]["bits"]) <= W
        d = {"id": k, "ok": good, "iw": iw,
             "bits": r["v"]["bits"] + [0] * (W - len(r["v"]["bits"])) if good else []}
        if iw:
            d["g"] = {g: (lambda a: a["v"] if a["k"] == "int" else {"neg": True, "bits": [0]})(
                call(lambda: getattr(o, g), asint)) for g in ("command", "a", "b", "c")}
        obs.append(d)
    return obs


def run(log, sc):
    objs, const = {}, {}
    for c in sc["calls"]:
        box, op = [], c["op"]
        if op in ("newword", "newconst", "newiw"):
            names = ("command", "a", "b", "c") if op == "newiw" else ("data",)
            vals = [denum(c[n]) for n in (names if op == "newiw" else ("v",))]
            cls = Word if op == "newword" else InstructionWord if op == "newiw" else getattr(I, c["cls"], None)
            form = c.get("form", "kw")
            args, kw = (vals, {}) if form == "pos" else ([], dict(zip(names, vals)))
            if form == "omit" and op != "newconst":
                kw = {n: v for n, v in kw.items() if v != 0}
            res = call(lambda: box.append(cls(*args, **kw)), ok)
            const[c["id"]] = op == "newconst"
            if box:
                objs[c["id"]] = (box[0], op == "newiw")
            else:
                objs.pop(c["id"], None)
        elif c["id"] not in objs or (op in ("group", "setgroup") and not objs[c["id"]][1]):
            continue
        else:
            res = do(objs[c["id"]][0], c)
        log.emit(**c, const=const[c["id"]], res=res, obs=observe(objs))


dlib.main(run)
