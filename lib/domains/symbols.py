"""Symbols: C18 C19 C20 C21."""
import random

import vlib
from domains.deck import put

DRIVER, TRACE = "symbols", "SymbolsTrace"
CLAUSES = {
    "sym.built": ["C18", "C19"], "sym.missing": ["C18"], "sym.extra": ["C18", "C19"], "sym.entry": ["C18", "C19"],
    "sym.returned": ["C18"], "sym.refuse": ["C18"], "sym.refused-change": ["C18"],
    "sym.errors": ["C19"], "sym.messages": ["C19"],
    "sym.check": ["C20"], "sym.absolute": ["C20"], "sym.pure": ["C20"], "find.exact": ["C20"],
    "find.undefined": ["C20"], "find.partial": ["C20"], "find.fuzzy": ["C20"], "find.best": ["C20"],
    "obj.read": ["C21"], "obj.failed": ["C21"], "obj.lookup": ["C21"], "obj.add": ["C21"], "obj.update": ["C21"],
    "obj.other": ["C21"], "obj.undefs": ["C21"], "obj.print": ["C21"], "obj.apart": ["C21"], "sym.apart": ["C18"],
}
STEMS = ["A", "B1", "S ZERO", "SZERO", "MASK", "AB", "ABA", "BA", "1X", "AZ", "L BANK 1", "MAXLABEL 11", "A+1"]
ODD = ["a", "Mask", "A,B,C", "Q,A", "L,A", "X,MASK", "BB,A", ",A", "B,", ",", "F ,A", "S, A,", "b,A", "B,a"]
OPS = ["TS", "ALF,4", "EQUALS", "ASSIGN", "RESERVE", "ASSIGN,1", "EQUALS ,", "ASSIGNX", "EQUAL"]


LABELS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-.*/ ,"
DICT = vlib.Dictionary("h800/symbol_table.py", "h800/arguscard.py", "h800/punchcard.py")
HINTS = DICT.words(LABELS, 8)
OPHINTS = DICT.words(LABELS + "abcdefghijklmnopqrstuvwxyz_", 12)


def card(label, op, a="", b="", c="", col8="", lognum="", col1="", remarks="", shift=0):
    row = []
    put(row, 1, col1)
    put(row, 2, lognum)
    put(row, 8, col8)
    put(row, 9 + (shift if len(label) + shift <= 11 else 0), label[:11])
    put(row, 20 + (shift if len(op) + shift <= 13 else 0), op[:13])
    put(row, 33, a)
    put(row, 47, b)
    put(row, 61, c)
    put(row, 81, remarks)
    return "".join(row)


def label(rnd, stems):
    k = rnd.random()
    if k < .06 and HINTS:
        h = rnd.choice(HINTS)
        return rnd.choice([h, h + rnd.choice(stems), rnd.choice(stems) + h])[:11]
    if k < .6:
        return rnd.choice(stems)
    if k < .85:
        return rnd.choice(["B,", "F,", "S,", "Z,", "F, ", "B ,"]) + rnd.choice([s for s in stems if len(s) < 8] or ["A"])
    return rnd.choice(ODD)


def line(rnd, stems):
    k = rnd.random()
    if k < .12:
        return card(rnd.choice(["", "", label(rnd, stems)]), rnd.choice(["SETLOC", "SETLOC,2", "SETLOC, 3", "SETLOC,1", "SETLOC,0",
                                                                         "SETLOC ,2,9", "SETLOCX,4", "XSETLOC,5", "SETLOC,10", "SETLOC,12",
                                                                         "SETLOC,100", "SETLOC,02", "SETLOC,A", "SETLOC,a2"]),
                    col8=rnd.choice(["", "", "", "*"]))
    if k < .2:
        return card(label(rnd, stems)[:11], rnd.choice(OPS), col1=rnd.choice("PRL"))
    if k < .26:
        return rnd.choice(["", "# A          TS", " ", "#", card("", "TS", "A")])
    op = rnd.choice(OPS + ["EQUALS"] * 3 + ["ASSIGN"] * 3 + ["TS"] * 3)
    if rnd.random() < .05 and OPHINTS:
        op = rnd.choice(OPHINTS)
    if rnd.random() < .07:
        op = ""
    arg = [rnd.choice(["", "1", "1", "2", "S ZERO"]) for _ in range(3)] if op.startswith("EQ") else \
        [rnd.choice(["", "N,X2"]) for _ in range(3)]
    return card(label(rnd, stems), op, *arg, col8=rnd.choice(["", "", "", "", "*", "@"]),
                lognum=rnd.choice(["", "0981", "12"]), remarks=rnd.choice(["", "", "NOTE"]), shift=rnd.choice([0, 0, 0, 1]))


def buildcall(rnd, k, stems):
    names = rnd.sample(["main.arg", "a.arg", "b", "sub/c.arg", "sub.d/e", "./f.arg", "../up.arg", "g.h.arg", ".hid", "x/.y.z", "sub/a.arg", "oth/a.arg", "A.arg", "a.argx"], 3)
    # everything stays below the scenario's scratch directory
    names = [n.replace("../up", "sub/../up") for n in names]
    files = []
    for i, nm in enumerate(names):
        lines = [line(rnd, stems) for _ in range(rnd.choice([0, 1, 3, 6, 10]))]
        if i < 2 and rnd.random() < .4:
            lines.insert(rnd.randrange(len(lines) + 1), "$" + names[i + 1])
        files.append({"name": nm, "lines": lines})
    root = names[0] if rnd.random() < .95 else "nosuch.arg"
    return {"op": "build", "files": files, "root": root, "verbose": rnd.random() < .15}


def findcall(rnd, stems):
    n = rnd.choice([s.replace(" ", "") for s in stems] + ["NOSUCH", "A", "B", "Z", "1", "X", ""] + [h for h in HINTS if rnd.random() < .3])
    k = rnd.randrange(7)
    c = {"op": "find", "name": n, "symtype": [], "begin": k in (2, 6), "end": k in (3, 6), "fuzzy": k == 4}
    if k == 1:
        c["symtype"] = [rnd.choice(["simple", "complex", "other"])]
    if c["fuzzy"] and not n.isalnum():
        c["name"] = "MASK"
    return c


def tablehistory(rnd, k):
    stems = rnd.sample(STEMS, rnd.choice([1, 2, 4, 8, 13]))
    calls = []
    last = None
    for _ in range(rnd.choice([1, 2, 3, 4])):
        c = buildcall(rnd, k, stems)
        if last and rnd.random() < .25:          # the same file again, or changed
            c["files"][0]["name"] = last["files"][0]["name"]
            c["root"] = c["files"][0]["name"]
            if rnd.random() < .5:
                c["files"][0]["lines"] = last["files"][0]["lines"]
            seen = set()
            c["files"] = [f for f in c["files"] if not (f["name"] in seen or seen.add(f["name"]))]
            # keep the include graph acyclic and closed
            for i, f in enumerate(c["files"]):
                later = [g["name"] for g in c["files"][i + 1:]]
                f["lines"] = [x for x in f["lines"] if not x.startswith("$") or x[1:] in later]
        calls.append(c)
        last = c
        for _ in range(rnd.randrange(4)):
            calls.append(findcall(rnd, stems))
        calls.append({"op": "check", "complex": rnd.random() < .7})
        calls.append({"op": "absolute"})
    calls.append({"op": "table"})
    return calls


def manysymbols(rnd):
    """More than ten absolute symbols, some only complex."""
    n = rnd.randrange(8, 25)
    lines = [card("SY%d" % i if i % 3 else "X%d" % i, rnd.choice(["TS", "TS", "TS", "RESERVE", "ASSIGN"])) for i in range(n)]
    calls = [{"op": "build", "files": [{"name": "m.arg", "lines": lines}], "root": "m.arg", "verbose": False}]
    for nm in ("SY1", "X3", "SY", "1", "QQ"):
        calls.append({"op": "find", "name": nm, "symtype": [], "begin": False, "end": False, "fuzzy": True})
        calls.append({"op": "find", "name": nm, "symtype": [], "begin": True, "end": False, "fuzzy": False})
        calls.append({"op": "find", "name": nm, "symtype": [], "begin": False, "end": True, "fuzzy": False})
        calls.append({"op": "find", "name": nm, "symtype": [rnd.choice(["simple", "complex"])], "begin": False, "end": False, "fuzzy": False})
    calls += [{"op": "check", "complex": True}, {"op": "absolute"}, {"op": "table"}]
    return calls


BASES = [("X", "EQUALS", "1", "2", "3"), ("X", "EQUALS", "", "", ""), ("X", "EQUALS", "1", "1", "1"), ("X", "TS", "1", "2", "3"),
         ("X", "ASSIGN", "1", "2", "3"), ("X", "RESERVE", "", "", ""), ("X", "EQUALS,1", "1", "", ""), ("F,X", "EQUALS", "1", "", "2")]
VARIANTS = [{}, {"a": "4"}, {"b": "4"}, {"c": "4"}, {"a": ""}, {"b": ""}, {"c": ""}, {"op": "EQUALS"}, {"op": "ASSIGN"}, {"op": "TS"},
            {"op": "EQUALS ,"}, {"op": "ASSIGN,X"}, {"op": "EQUAL"}, {"op": ""}, {"lab": "F,X"}, {"lab": "S, X"}, {"lab": "X 1"}, {"lab": "x"},
            {"lab": "B,X", "op": "ASSIGN"}, {"col8": "*"}, {"col8": "@"}, {"lognum": "0042"}, {"remarks": "NOTE"}, {"shift": 1},
            {"col1": "R"}, {"col1": "X"}, {"a": "1 "}, {"a": " 1"}, {"lab": "L,X"}, {"lab": "Q,X"}, {"lab": "B,X,Y"}, {"lab": " X"}]
BETWEEN = [[], [], [], [card("", "SETLOC,2")], [card("", "SETLOC,1")], [card("Y", "EQUALS", "1", "2", "3")], [card("X", "ASSIGN")],
           [card("", "SETLOC,2"), card("", "SETLOC,1")], ["#", ""], [card("X", "EQUALS", "9", "9", "9")]]


def pairs(rnd):
    """The same name defined twice (or three times), the second card being a variant of the first; in one file, in an
    included file or in a later build."""
    out = []
    for b, v in [(b, v) for b in BASES for v in VARIANTS]:
        calls = []
        first = card(*b)
        lab, op, *abc = b
        abc = [v.get(n, x) for n, x in zip("abc", abc)]
        second = card(v.get("lab", lab), v.get("op", op), *abc, **{k: v[k] for k in v if k in ("col8", "lognum", "remarks", "shift", "col1")})
        cards = [first] + rnd.choice(BETWEEN) + [second]
        if rnd.random() < .3:
            cards = cards[::-1]
        if rnd.random() < .2:
            cards.append(rnd.choice(cards))
        how = rnd.randrange(6)
        cut = rnd.randrange(1, len(cards))
        one = lambda n, ls: {"name": n, "lines": ls}
        bd = lambda fs, root="m.arg": {"op": "build", "files": fs, "root": root, "verbose": False}
        if how == 0:
            calls.append(bd([one("m.arg", cards[:cut] + ["$n.arg"]), one("n.arg", cards[cut:])]))
        elif how == 1:
            calls += [bd([one("m.arg", cards[:cut])]), bd([one("m.arg", cards[cut:])])]
        elif how == 2:
            calls += [bd([one("m.arg", cards[:cut])]), bd([one("n.arg", cards[cut:])], "n.arg")]
        else:
            calls.append(bd([one("m.arg", cards)]))
        calls += [{"op": "check", "complex": True}, {"op": "absolute"},
                  {"op": "find", "name": "X", "symtype": rnd.choice([[], ["simple"], ["complex"]]), "begin": False, "end": False, "fuzzy": False}]
        out.append(calls)
    return out


def objhistory(rnd):
    names = rnd.sample(["A", "B", "C", "AB", "X 1", "zed", "Q"] + ["N%d" % i for i in range(20)], rnd.choice([1, 2, 4, 6, 15, 25]))
    calls = [{"op": "make"}]
    n = rnd.choice([4, 10, 25, 40])
    if len(names) > 10 and rnd.random() < .5:     # many symbols without values
        calls += [{"op": "add", "name": nm, "file": "f.arg", "line": i, "value": [], "type": [], "seg": [], "sub": []} for i, nm in enumerate(names)]
    for i in range(n):
        k = rnd.randrange(14)
        nm = rnd.choice(names + [""] if rnd.random() < .1 else names)
        if k < 5:
            calls.append({"op": "add", "name": nm, "file": rnd.choice(["f.arg", "g"]), "line": rnd.randrange(1, 99),
                          "value": rnd.choice([[], [], [0], [7], [-1]]), "type": rnd.choice([[], ["absolute"], ["complex"]]),
                          "seg": rnd.choice([[], ["s"]]), "sub": rnd.choice([[], ["2"]])})
        elif k < 8:
            calls.append({"op": rnd.choice(["update", "update", "setvalue"]), "name": nm, "value": rnd.choice([[], [0], [0], [5], [123]]),
                          "type": rnd.choice([[], ["absolute"], ["complex"]])})
        elif k == 8:
            calls.append({"op": "prune"})
        elif k == 9:
            calls.append({"op": "resolve", "passes": rnd.choice([0, 1, 2, 10, 10])})
        elif k == 10:
            calls.append({"op": "refer", "name": nm, "ref": i})
        elif k == 11:
            calls.append({"op": "lookup", "name": rnd.choice(names + ["NOSUCH"])})
        elif k == 12:
            calls.append({"op": "print", "undefs": rnd.random() < .4, "out": rnd.random() < .5})
        elif calls[-1]["op"] in ("add", "update", "setvalue"):
            calls.append(dict(calls[-1]))
        elif rnd.random() < .1:
            calls.append({"op": "make"})
    return calls


def longsource(rnd):
    """Sources of more cards, subsegments and symbols than a page holds."""
    n = rnd.choice([60, 130, 260])
    some = rnd.choice([n // 3, 40, 5])
    lines = []
    for i in range(n):
        if rnd.random() < .12:
            lines.append(card("", "SETLOC,%d" % rnd.randrange(rnd.choice([3, 30]))))
        else:
            lines.append(card("L%d" % rnd.randrange(some), rnd.choice(["TS", "TS", "EQUALS", "ASSIGN"]), rnd.choice("12")))
    calls = [{"op": "build", "files": [{"name": "long.arg", "lines": lines}], "root": "long.arg", "verbose": False}]
    for nm in ("L1", "L%d" % rnd.randrange(some), "L"):
        for how in ("", "begin", "end"):
            calls.append({"op": "find", "name": nm, "symtype": [], "begin": how == "begin", "end": how == "end", "fuzzy": False})
    return calls + [{"op": "check", "complex": True}, {"op": "absolute"}, {"op": "table"}]


def placed(rnd, calls):
    """Each call on one of two tables."""
    two = rnd.random() < .5
    for c in calls:
        c["on"] = rnd.choice([1, 1, 2]) if two else 1
    return calls


def explore(prop, tier, seed):
    t = "" if tier == "quick" else "T"
    ds = [vlib.design("MCSymbols", "MCSymbols" + t), vlib.design("MCSymTab", "MCSymTab" + t)]
    rnd = random.Random("symbols %s" % seed)
    scale = 18 if tier == "quick" else 120
    scens = [{"name": "table %d" % k, "calls": tablehistory(rnd, k)} for k in range(170 * scale)]
    scens += [{"name": "many %d" % k, "calls": manysymbols(rnd)} for k in range(8 * scale)]
    scens += [{"name": "object %d" % k, "calls": objhistory(rnd)} for k in range(100 * scale)]
    for r in range(5 if tier == "quick" else 30):
        scens += [{"name": "pairs %d %d" % (r, k), "calls": c} for k, c in enumerate(pairs(rnd))]
    scens += [{"name": "long %d" % k, "calls": longsource(rnd)} for k in range(16 if tier == "quick" else 120)]
    for s in scens:
        placed(rnd, s["calls"])
    rnd.shuffle(scens)
    return ds, vlib.validate(DRIVER, TRACE, scens)
