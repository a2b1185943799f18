import contextlib
import io
import os
import tempfile

import dlib
from dlib import call, opt, small, text
from fuzzywuzzy import process
from h800 import symbol_table as S


def lay(files):
    for f in files:
        p = f["name"]
        if os.path.dirname(p):
            os.makedirs(os.path.dirname(f["name"]), exist_ok=True)
        with open(p, "w", encoding="utf-8") as h:
            h.write("\n".join(f["lines"]) + ("\n" if f["lines"] else ""))


def flat1(name, segs):
    out = []
    for seg, subs in segs.items():
        for sub, types in subs.items():
            for ty, e in types.items():
                out.append({"name": text(name), "seg": text(seg), "sub": text(sub), "type": text(ty), "file": opt(e["file"]),
                            "num": small(e["line"]),
                            "lognum": opt(e["lognum"]), "tag": text(e["tagtype"]), "text": str(e["card"])})
    return out


def flat(tab):
    out = []
    for name, segs in tab.items():
        out += flat1(name, segs)
    return out


def names(r):
    return {"k": "names", "v": [text(x) for x in r]}


def found(c):
    def enc(r):
        if r is None:
            return {"k": "none"}
        if isinstance(r, dict):
            return {"k": "defs", "v": flat1(c["name"], r)}
        return names(r)
    return enc


def showobj(t):
    syms = []
    for n in t.symbols:
        e = t.lookup(n)
        syms.append({"name": text(e.name), "value": [] if e.value is None else [small(e.value)], "valid": bool(e.isValid()), "abs": bool(e.isAbsolute()),
                     "cpx": bool(e.isComplex()), "both": bool(e.isMultiple()), "file": text(e.file), "line": small(e.line),
                     "seg": opt(e.segment), "sub": opt(e.subsegment), "refs": [small(x) for x in e.references]})
    return {"k": "obj", "syms": syms, "undefs": [text(x) for x in t.undefines],
            "n": small(t.getNumSymbols()), "nundefs": small(t.getNumUndefs())}


def one(x):
    return x[0] if x else None


def mutate(t, c):
    op = c["op"]
    if op == "add":
        kw = {k: one(c[j]) for k, j in (("value", "value"), ("symtype", "type"), ("segment", "seg"),
                                        ("subsegment", "sub")) if c[j]}
        t.add(c["name"], c["file"], c["line"], **kw)
    elif op == "update":
        t.update(c["name"], one(c["value"]), one(c["type"]))
    elif op == "prune":
        t.pruneUndefines()
    elif op == "resolve":
        t.resolve(c["passes"]) if c["passes"] != 10 else t.resolve()
    elif op == "setvalue":                      # through the entry looked up
        e = t.lookup(c["name"])
        if e is not None:
            e.setValue(one(c["value"]), one(c["type"]))
    elif op == "refer":
        e = t.lookup(c["name"])
        if e is not None:
            e.addReference(c["ref"])


def printed(t, c):
    """The symbols printed, by the text their entries print as."""
    out = io.StringIO()
    f = t.printUndefs if c["undefs"] else t.printTable
    if c["out"]:
        f(out)
    else:
        with contextlib.redirect_stdout(out):
            f()
    shown = {str(t.lookup(n)): n for n in t.symbols}
    if len(shown) != len(t.symbols) or any("\n" in x or x.startswith(("Defined", "Undefined")) or not x.strip() for x in shown):
        return {"k": "unreadable"}
    rest, lists = out.getvalue().split("\n"), {}
    cur = lists.setdefault("none", [])
    for x in rest:
        if x.startswith("Defined symbols"):
            cur = lists.setdefault("defined", [])
        elif x.startswith("Undefined symbols"):
            cur = lists.setdefault("undefined", [])
        elif x.strip():
            cur.append(text(shown[x]) if x in shown else "?" + x)
    return {"k": "printed", "stray": lists["none"], "defined": lists.get("defined", []), "undefined": lists.get("undefined", [])}


def run(log, sc):
    home = os.getcwd()
    tabs, objs = [{}, {}], [S.SymbolTable(), S.SymbolTable()]
    with tempfile.TemporaryDirectory(dir=home) as tmp:
        os.chdir(tmp)
        try:
            for c in sc["calls"]:
                op = c["op"]
                tab, obj = tabs[c["on"] - 1], objs[c["on"] - 1]
                both = lambda: [call(lambda: o, showobj) for o in objs]
                if op == "build":
                    lay(c["files"])
                    said = io.StringIO()
                    box = []

                    def f():
                        with contextlib.redirect_stderr(said):
                            box.append(S.buildSymbolTable(c["root"], tab, verbose=c["verbose"]))
                    res = call(f, dlib.ok)
                    if box:
                        t2, errs = box[0]
                        msgs = [x.split(' ')[3] for x in said.getvalue().splitlines() if x.startswith("*** ERROR: Symbol ")]
                        res = {"k": "built", "errs": small(errs), "said": msgs, "same": flat(t2) == flat(tab)}
                    log.emit(**c, res=res, table=flat(tab), other=flat(tabs[2 - c["on"]]))
                elif op == "check":
                    log.emit(**c, res=call(lambda: S.checkSymbolTable(tab, complexOnlyError=c["complex"]), names))
                elif op == "absolute":
                    log.emit(**c, res=call(lambda: S.getAbsoluteSymbols(tab), names))
                elif op == "find":
                    kw = {k: c[k] for k in ("begin", "end", "fuzzy") if c[k]}
                    if c["symtype"]:
                        kw["symtype"] = c["symtype"][0]
                    # how alike the matching library finds each symbol alone: an input of the specification
                    like = [{"n": text(n), "s": process.extract(c["name"], [n])[0][1]} for n in tab] if c["fuzzy"] else []
                    log.emit(**c, like=like, res=call(lambda: S.findSymbolDef(tab, c["name"], **kw), found(c)))
                elif op == "table":
                    log.emit(**c, table=flat(tab), other=flat(tabs[2 - c["on"]]))
                elif op == "make":
                    objs[c["on"] - 1] = S.SymbolTable()
                    log.emit(**c, res={"k": "ok"}, objs=both())
                elif op == "print":
                    log.emit(**c, res=call(lambda: printed(obj, c), lambda r: r), objs=both())
                elif op == "lookup":
                    log.emit(**c, res=call(lambda: obj.lookup(c["name"]), lambda e: {"k": "none"} if e is None else
                                           {"k": "found", "name": text(e.name)}), objs=both())
                else:
                    log.emit(**c, res=call(lambda: mutate(obj, c), dlib.ok), objs=both())
        finally:
            os.chdir(home)


dlib.main(run)
