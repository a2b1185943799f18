import types

import dlib
from h800.charset import CHARSET
from h800.context import Context

SAVED = ["linenum", "global_linenum", "code", "srcline", "loc", "bank", "coloc", "errorMsg", "warningMsg"]
FIELDS = SAVED + ["currentRecord", "previousRecord", "addSymbol", "reparse", "assembler", "srcfile", "symtab", "records", "passnum",
                  "bankloc", "errors", "warnings", "listfile", "binfile", "options", "verbose", "debug", "logLevel", "logfile"]


class Options:
    def __init__(self, verbose, debug, name):
        self.verbose, self.debug, self.name = verbose, debug, name

    def __repr__(self):
        return self.name


def show(o, fields):
    out = []
    for f in fields:
        try:
            v = getattr(o, f)
        except AttributeError:
            v = "\x00missing"
        if f == "symtab":
            v = sorted(getattr(v, "symbols", ["\x00no table"]))
        out.append({"f": f, "v": repr(v)})
    return out


def code(ch):
    if ch is None:
        return []
    return [ord(x) for x in ch] if isinstance(ch, str) else [-1]


def run(log, sc):
    ctx, rec = [None, None], [None, None, None]
    for c in sc["calls"]:
        op = c["op"]
        if op == "charset":
            log.emit("charset", codes=[{"c": dlib.small(k), "ch": code(v)} for k, v in CHARSET.items()])
            continue
        e = {"op": op, "c": c["c"] + 1}
        given = {}

        def act():
            i = c["c"]
            kw = {"partial": c["partial"][0]} if c.get("partial") else {}
            if op == "make":
                o = Options(c["verbose"], c["debug"], "opt%d" % c["n"])
                kw = {}
                given.update(listfile=c["listfile"], binfile=c["binfile"], options=o, verbose=c["verbose"], debug=c["debug"],
                             logLevel=0, logfile=None)
                for k in ("logLevel", "logfile"):
                    if c[k]:
                        kw[k] = c[k][0]
                        given[k] = c[k][0]
                ctx[i] = Context(c["listfile"], c["binfile"], o, **kw)
            elif op == "put":
                v = c["v"][:] if isinstance(c["v"], list) else c["v"]
                if c["f"] == "symtab":
                    for x in v:
                        ctx[i].symtab.add(x, "f", 1)
                elif c["how"] == "append":
                    getattr(ctx[i], c["f"]).append(v[-1])
                else:
                    setattr(ctx[i], c["f"], v)
            elif op == "reset_":
                ctx[i].reset()
            elif op == "save":
                if rec[c["r"]] is None:
                    rec[c["r"]] = types.SimpleNamespace(label="label %d" % (c["r"] + 1), type=c["r"] + 1)
                ctx[i].save(rec[c["r"]], **kw)
            elif op == "load":
                ctx[i].load(rec[c["r"]], **kw)
            return None
        e["res"] = dlib.call(act, lambda _: {"k": "ok"})["k"]
        if op == "make":
            e["given"] = [{"f": k, "v": repr(v)} for k, v in given.items()]
        if op == "put":
            e["f"] = c["f"]
            e["v"] = repr(sorted(c["all"]) if c["f"] == "symtab" else c["v"])
        if "r" in c:
            e["r"] = c["r"] + 1
        e["ctx"] = [[] if x is None else show(x, FIELDS) for x in ctx]
        e["rec"] = [[] if x is None else show(x, SAVED) for x in rec]
        e["rest"] = [[] if x is None else [repr(getattr(x, "label", None)), repr(getattr(x, "type", None))] for x in rec]
        log.emit(**e)


dlib.main(run)
