"""Command line tools: C22 C23 C24."""
import random

import vlib
from domains import symbols as S
from domains.deck import put

DRIVER, TRACE = "tools", "ToolsTrace"
CLAUSES = {"tool.files": ["C22", "C23", "C24"]}
for tool, cl in (("ci", "refuse ran report"), ("li", "refuse ran report"), ("pa", "refuse ran perfile report")):
    for c in cl.split():
        CLAUSES[tool + "." + c] = ["C22"]
for tool, cl in (("ls", "refuse ran report errors"), ("cs", "refuse ran perfile report suggest"),
                 ("fs", "refuse ran perfile found")):
    for c in cl.split():
        CLAUSES[tool + "." + c] = ["C23"]
for tool, cl in (("lst", "refuse ran told files"), ("gl", "refuse ran lines"), ("gp", "refuse ran files")):
    for c in cl.split():
        CLAUSES[tool + "." + c] = ["C24"]

VOC = ["TS", "TX", "BA", "ALF", "OCT", "EQUALS", "ASSIGN", "S", "SETLOC", "M", "U", "PRA", "FDSU", "MASKBASE", "STOP", "DUMP",
       "ENDARGUS", "TAS", "RESERVE", "CAC", "FNN", "SUBCALL"]
BADOPS = ["XYZ", "ts", "Q", "ALFX", "T S", "TSX", "TS.", "0", "FDS U", "EQUAL", "B", "FBAEU"]


DICT = vlib.Dictionary("tools/*.py", "h800/symbol_table.py", "h800/arguscard.py", "h800/punchcard.py")
OPHINTS = DICT.words("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789,. ", 9)


def opfield(rnd):
    if OPHINTS and rnd.random() < .04:
        return rnd.choice(OPHINTS)
    o = rnd.choice(VOC[:rnd.choice([4, 22])]) if rnd.random() < .8 else rnd.choice(BADOPS)
    return (o + rnd.choice(["", "", "", ",4", ", X", " ,X", ",", ",A,B", ", MASK", ",MASK", ",MA"]))[:13] if rnd.random() < .97 \
        else rnd.choice([",", ",TS", ", X"])


def line(rnd):
    k = rnd.random()
    if k < .1:
        return rnd.choice(["", "#", "# TS", "    ", "#" + " " * 18 + "TS"])
    row = []
    if k < .2:
        put(row, 1, rnd.choice("PRL"))
        put(row, 20, rnd.choice(VOC))
    elif k < .25:
        put(row, 1, rnd.choice("XQ"))
    if rnd.random() < .4:
        put(row, 2, rnd.choice(["0981", "12"]))
    put(row, 8, rnd.choice(["", "", "", "", "*", "@"]))
    if rnd.random() < .4:
        put(row, 9, S.label(rnd, ["A", "B1", "S ZERO", "SZERO", "MASK", "AB", "BA"]))
    if rnd.random() < .85:
        put(row, rnd.choice([20, 20, 20, 21]), opfield(rnd)[:11])
    if rnd.random() < .4:
        put(row, 33, rnd.choice(["1", "2", "N,X2"]))
    if rnd.random() < .1:
        put(row, rnd.choice([81, 119, 120, 122]), rnd.choice(["NOTE", "x"]))
    return "".join(row) + rnd.choice([""] * 6 + [" ", "   "])


def fill(rnd, names, mk):
    files = []
    for i, nm in enumerate(names):
        ls = [mk(rnd) for _ in range(rnd.choice([0, 1, 3, 6, 10] + ([18] if mk in (manyline, spreadline, kinline) else [])))]
        if i + 1 < len(names) and rnd.random() < .35:
            ls.insert(rnd.randrange(len(ls) + 1), "$" + rnd.choice(["", " "]) + rnd.choice(names[i + 1:]))
        if rnd.random() < .02:
            ls.append("$missing.arg")
        if rnd.random() < .015:                 # line numbers of several digits
            ls = ["#"] * rnd.choice([8, 95, 98, 99, 99, 995, 998]) + ls
        if rnd.random() < .02:
            ls += [mk(rnd) for _ in range(rnd.choice([40, 80]))]
        files.append({"name": nm, "text": "\n".join(ls) + ("\n" if ls and (rnd.random() < .8 or ls[-1] == "") else "")})
    return files


LONG = ["x" * n + ".arg" for n in (16, 28, 36, 59, 60, 61, 76, 96, 146)] + ["d" * 40 + "/" + "y" * 40 + ".arg", "d" * 70 + "/z"]


def sources(rnd, mk=None):
    names = rnd.sample(["main.arg", "a.arg", "b", "sub/c.arg", "sub.d/e", "./f.arg", "g.h.arg", "sub/a.arg", "oth/a.arg",
                        "averyverylongdirectoryname/averyverylongfilename_01.arg", rnd.choice(LONG)], rnd.choice([1, 1, 2, 3]))
    files = fill(rnd, names, mk or line)
    args = [names[0]] + [n for n in names[1:] if rnd.random() < .6]
    if rnd.random() < .1:
        args.append(rnd.choice(args))
    if rnd.random() < .04:
        args.insert(rnd.randrange(len(args) + 1), "nosuch.arg")
    if rnd.random() < .02:
        args = []
    return {"files": files, "args": args, "long": rnd.random() < .2,
            "verbose": rnd.random() < .25 and all(len(f["text"]) < 15000 for f in files)}


def b(rnd, p=.5):
    return rnd.random() < p


def checkinstr(rnd):
    return dict(sources(rnd), tool="check-instructions", count=b(rnd, .6), sort=b(rnd, .4), unused=b(rnd, .3), print=b(rnd, .3),
                all=b(rnd, .2), invalid=b(rnd, .2))


def listinstr(rnd):
    o = rnd.choice(VOC[:8]) if rnd.random() < .9 else rnd.choice(BADOPS)
    return dict(sources(rnd), tool="list-instructions", details=b(rnd, .4),
                opcode=o + rnd.choice(["", "", "", ",", ",X", ",4", ",MASK", ",MA", ",A,B"]))


def symline(rnd):
    return S.line(rnd, ["A", "B1", "S ZERO", "SZERO", "MASK", "AB", "BA", "ABA", "AA", "A B A B", "B 1 1"][:rnd.choice([2, 7, 11])])


def manyline(rnd):
    n = rnd.randrange(30)
    return S.card("SY%d" % n if n % 3 else "X%d" % n, "ASSIGN" if n in (2, 3, 7, 9) else rnd.choice(["TS", "TS", "TS", "ASSIGN"]))


def spreadline(rnd):
    """Few names in many subsegments."""
    if b(rnd, .4):
        return S.card("", "SETLOC," + rnd.choice(["1", "2", "3", "9", "10", "11", "20", "100", "02", "A", "B", "AB", "a"]))
    return S.card(rnd.choice(["A", "A", "B1", "F,A", "B,A", "S,A", "Z,A"]), rnd.choice(["TS", "TS", "ASSIGN", "EQUALS"]))


def kinline(rnd):
    """Names that begin and end with one another."""
    return S.card(rnd.choice(["A", "AA", "BA", "ABA", "CABA", "AB", "AAB", "BAB", "A1", "1A", "A1A", "C"]), rnd.choice(["TS", "TS", "TS", "ASSIGN", "OCT"]))


def parse(rnd):
    return dict(sources(rnd, rnd.choice([line, symline])), tool="parse", debug=b(rnd, .3))


def symtool(rnd, tool):
    mk = rnd.choice([symline, symline, manyline, spreadline, kinline])
    c = dict(sources(rnd, mk), tool=tool)
    if tool == "check-symbols":
        c["complex"] = b(rnd, .8)
    if tool == "find-symbols":
        k = rnd.randrange(8)
        c.update(symbol=rnd.choice(["A", "B1", "SZERO", "MASK", "AB", "BA", "NOSUCH", "SY1", "X3", "S", "1", "B", "A", "AB"]), begin=k == 1, end=k == 2,
                 fuzzy=k == 3, exact=k == 4, details=b(rnd, .1))
        if mk is kinline:
            c["symbol"] = rnd.choice(["A", "BA", "A1", "AB", "ABA", "AA", "B"])
            if k > 5:
                c[rnd.choice(["begin", "end", "fuzzy"])] = True
        if k == 5:
            for x in rnd.sample(["begin", "end", "fuzzy", "exact"], rnd.choice([2, 2, 3])):
                c[x] = True
    return c


def listing(rnd):
    c = dict(sources(rnd, rnd.choice([line, symline])), tool="listing")
    if rnd.random() < .2:            # a listing is already there
        c["files"].append({"name": c["args"][0].rsplit(".arg", 1)[0] + ".lst" if c["args"] and c["args"][0].endswith(".arg")
                           and c["args"][0] != "nosuch.arg" else "old.lst", "text": "OLD\n" * rnd.choice([1, 50])})
    return c


def genlines(rnd):
    k = rnd.randrange(10)
    if k == 0:
        args = rnd.choice([[], ["1"], ["1234567", "1234569"], ["1", "1000000"], ["0000001", "9"], ["1", "0000009"], ["x", "2"],
                           ["1", "y"], ["1", "5", "0"], ["1", "5", "z"], ["1", "5", "2", "q"], ["1.5", "3"],
                           ["1", "5", "-1"], ["", ""]])
        c = {"args": args, "dashes": any(a.startswith("-") for a in args) or bool(args) and rnd.random() < .5}
    else:
        start = rnd.choice([0, 1, 2, 5, 95, 98, 995, 999, 1000, 9990, 9995, 10000, 99990, 99998, 123450, 999980,
                            DICT.pick(rnd, 0, 999999)])
        n = rnd.choice([0, 1, 1, 5, 12, 30])
        step = rnd.choice([1, 1, 2, 3, 5, 7, 10, 100, DICT.pick(rnd, 1, 200)])
        end = min(start + rnd.randrange(n * step + 1), 999999)
        if rnd.random() < .1:
            end = max(0, start - rnd.choice([0, 1, 3]))
        form = rnd.choice(["%d", "%d", "%03d", "%04d", "%05d", "%06d", "%01d"])
        down = rnd.random() < .15
        a, z = (end, start) if down and end >= start else (start, end)
        args = [rnd.choice([form, "%d", rnd.choice(["%05d", "%06d", "%03d"])]) % a, form % z]
        if down:
            step = -step
            # going down from a number with more digits than the field is not specified
            if len(str(a)) > max(4, len(str(z)), len(args[1])):
                args = ["%d" % z, "%d" % a]
                step = -step
        if rnd.random() < .6 or step < 0 or (z - a) / step > 60:
            args.append("%d" % step)
            if rnd.random() < .6:
                first = rnd.choice([1, 2, 2, 3, 10, DICT.pick(rnd, 1, 80)])
                args.append("%d" % first)
                if rnd.random() < .7:
                    args.append("%d" % (first + rnd.choice([3, 4, 5, 5, 5, 6, 20])))
        c = {"args": args, "dashes": rnd.random() < .3 or step < 0}
    return dict(c, files=[], tool="genlines")


def genpages(rnd):
    ls = []
    if b(rnd, .6):
        ls.append("# Filename: " + rnd.choice(["ALPHA_BETA.arg", "log.section_x.arg", "NAME", "_A__B_.x", "no_ext"]))
    if b(rnd, .15):
        ls.append("# Filename: SECOND.arg")
    if b(rnd, .92):
        ls.append("# Pages: " + rnd.choice(["1", "1-1", "5-7", "98-101", "9-10", "110", "7-5", "2-1", "0-1", "0", "998-1001 x", "12-13"]))
    if b(rnd, .15):
        ls.append("# Pages: " + rnd.choice(["3", "3-4"]))
    if b(rnd, .3):
        ls.append(rnd.choice(["#Pages: 4", " # Pages: 4-9", "# Page 3", "# pages: 1", "# Filename:X.arg", "#"]))
    for _ in range(rnd.choice([0, 0, 1, 1, 2])):
        ls.append(rnd.choice(["L", "L      @", "L       ", "L      ", "L      *"]) +
                  rnd.choice(["ALPHABETIC ARRAYS.", "X", "", "TITLE " + "Y" * 80, "  SPACED  "]) if b(rnd) else
                  rnd.choice(["L      @INTEGRATION", "L 0001 *TRACE", "L       NO COLUMN 8", "R      @REMARK", "P      @PAGE"]))
    for _ in range(rnd.choice([0, 1, 3])):
        ls.append(line(rnd))
    if b(rnd, .1):
        ls.append("$inc.arg")
    if b(rnd, .5):
        rnd.shuffle(ls)
    name = rnd.choice(["x.arg", "sub/y.arg", "z"])
    txt = "\n".join(ls) + ("\n" if ls and (b(rnd, .8) or ls[-1] == "") else "")
    files = [{"name": name, "text": txt}]
    if b(rnd, .1):
        files.append({"name": "other.arg", "text": txt})
    return {"tool": "genpages", "files": files, "args": [name] if b(rnd, .96) else rnd.choice([[], ["nosuch.arg"]])}


MAKERS = {"C22": [checkinstr, checkinstr, listinstr, parse],
          "C23": [lambda r: symtool(r, "list-symbols"), lambda r: symtool(r, "check-symbols"), lambda r: symtool(r, "find-symbols"),
                  lambda r: symtool(r, "find-symbols")],
          "C24": [listing, genlines, genlines, genpages, genpages]}


def explore(prop, tier, seed):
    ds = [vlib.design("MCTools", "MCTools" if tier == "quick" else "MCToolsT")]
    rnd = random.Random("tools %s %s" % (prop, seed))
    n = 900 if tier == "quick" else 3000
    scens = []
    for k in range(n):
        scens.append({"name": "%s %d" % (prop, k), "calls": [rnd.choice(MAKERS[prop])(rnd) for _ in range(5)]})
    for s in scens:
        for c in s["calls"]:
            c["op"] = "run"
    return ds, vlib.validate(DRIVER, TRACE, scens)
