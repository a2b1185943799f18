"""Assembly context and character set: C25 C26."""
import random

import vlib

DRIVER, TRACE = "context", "ContextTrace"
CLAUSES = {"ctx.new": ["C25"], "ctx.put": ["C25"], "ctx.reset": ["C25"], "ctx.save": ["C25"], "ctx.load": ["C25"],
           "ctx.records": ["C25"], "ctx.rest": ["C25"], "chr.codes": ["C26"], "chr.char": ["C26"]}
DICT = vlib.Dictionary("h800/context.py")
NUMS = ["linenum", "global_linenum", "loc", "bank", "coloc", "errors", "warnings", "passnum"]
TEXTS = ["srcline", "errorMsg", "warningMsg", "srcfile", "currentRecord", "previousRecord"]
LISTS = ["code", "records"]
PARTIAL = [[], [], [True], [False]]
FLAGS = ["addSymbol", "reparse"]


def history(rnd):
    calls, made, saved, syms = [], set(), set(), {0: [], 1: []}
    own = {}                        # (context, list field) -> its content, where nothing else shares it
    for n in range(rnd.choice([5, 15, 40])):
        i = rnd.randrange(2)
        if i not in made or rnd.random() < .03:
            calls.append({"op": "make", "c": i, "n": n, "listfile": rnd.choice(["x.lst", ""]), "binfile": rnd.choice(["x.bin", "y"]),
                          "verbose": rnd.random() < .5, "debug": rnd.random() < .5, "logLevel": rnd.choice([[], [0], [7]]),
                          "logfile": rnd.choice([[], ["log"]])})
            made.add(i)
            syms[i] = []
            own[i, "code"], own[i, "records"] = [], []
            continue
        k = rnd.randrange(10)
        if k < 5:
            f = rnd.choice(NUMS + NUMS + TEXTS + LISTS + FLAGS + ["symtab", "bankloc"])
            how = "set"
            c = {"op": "put", "c": i, "f": f}
            if f in NUMS:
                v = rnd.choice([0, 1, 2, 77, 2047, 262143, -1, DICT.pick(rnd, -99, 10 ** 6)])
            elif f in TEXTS:
                v = rnd.choice([None, "", "line", "#", "x y", "0", rnd.choice(DICT.strs or ["s"])])
            elif f in LISTS:
                if own.get((i, f)) is not None and rnd.random() < .7:
                    own[i, f] = own[i, f] + [rnd.randrange(4096)]
                    v, how = own[i, f], "append"
                else:
                    v = [rnd.randrange(4096) for _ in range(rnd.randrange(3))]
                    own[i, f] = v
            elif f in FLAGS:
                v = rnd.random() < .5
            elif f == "bankloc":
                v = {str(rnd.randrange(3)): rnd.randrange(99)}
            else:
                v = [rnd.choice(["A", "B", "C"])]
                syms[i] = sorted(set(syms[i]) | set(v))
                c["all"] = syms[i]
            calls.append(dict(c, v=v, how=how))
        elif k == 5:
            calls.append({"op": "reset_", "c": i})
            own[i, "code"] = []
        elif k < 8 or not saved:
            r = rnd.randrange(3)
            calls.append({"op": "save", "c": i, "r": r, "partial": rnd.choice(PARTIAL)})
            own[i, "code"] = None
            saved.add(r)
        else:
            calls.append({"op": "load", "c": i, "r": rnd.choice(sorted(saved)), "partial": rnd.choice(PARTIAL)})
            own[i, "code"] = None
    return calls


def explore(prop, tier, seed):
    ds = [vlib.design("MCContext", "MCContext" if tier == "quick" else "MCContextT")]
    rnd = random.Random("context %s" % seed)
    scens = [{"name": "charset", "calls": [{"op": "charset"}]}]
    if prop == "C25":
        scens += [{"name": "context %d" % k, "calls": history(rnd)} for k in range(4000 if tier == "quick" else 25000)]
    return ds, vlib.validate(DRIVER, TRACE, scens)
