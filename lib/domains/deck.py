"""Cards and decks: C14 C15 C16 C17."""
import random

import vlib

DRIVER, TRACE = "deck", "DeckTrace"
CLAUSES = {
    "card.made": ["C14"], "card.line": ["C14"], "card.comment": ["C14"], "card.origin": ["C14"],
    "card.layout": ["C14"], "card.fields": ["C14"], "card.stripped": ["C14"], "card.record": ["C14"],
    "card.recnum": ["C14"],
    "argus.made": ["C15"], "argus.cut": ["C14", "C15"], "argus.record": ["C15"], "argus.instruction": ["C15"], "argus.accessor": ["C15"],
    "deck.made": ["C16", "C17"], "deck.cards": ["C16"], "deck.origin": ["C16"], "deck.refuse": ["C16"],
    "deck.lines": ["C17"], "deck.fields": ["C17"], "deck.stripped": ["C17"], "deck.records": ["C17"],
    "deck.str": ["C17"], "deck.log": ["C17"],
}
COLS = [1, 2, 8, 9, 20, 33, 47, 61, 76, 81]
NAMES = ["column1", "lognum", "column8", "label", "operation", "operand1", "operand2", "operand3", "misc", "remarks"]
OPS = ["TS", "ALF", "ALF,4", "OCT", "S, PHI PRINT", "SWS, D8T12", "SETLOC,2", "EQUALS", "NA, CHAR8", "WA", "TX", ",",
       "A,B,C", "DA ,X", "tx", "TS#", "$X"]
WORDS = ["S ZERO", "A\fB", "N,X2,1", "-", "Z,AU1", "COMMON +1", "1,0", "PHI", "RE: A", "A#B", "$1", "*", "x y", "0", "T\tU"]


PRINTABLE = "".join(chr(c) for c in range(32, 127))
DICT = vlib.Dictionary("h800/punchcard.py", "h800/arguscard.py")
HINTS = DICT.words(PRINTABLE, 12)


def put(row, col, text):
    for i, ch in enumerate(text):
        while len(row) < col + i:
            row.append(" ")
        row[col - 1 + i] = ch


def argusline(rnd):
    s = plainline(rnd)
    k = rnd.random()
    if k < .1 and HINTS:                        # a word or a column of the source under test
        row = list(s)
        put(row, rnd.choice(COLS + [DICT.pick(rnd, 1, 125)]), rnd.choice(HINTS))
        s = "".join(row)
    elif k < .15:
        s = s[:DICT.pick(rnd, 0, 130)]
    elif k < .2:
        row = list(s)
        put(row, DICT.pick(rnd, 1, 130), rnd.choice("PRLX*"))
        s = "".join(row)
    return s


def plainline(rnd):
    row = []
    k = rnd.randrange(12)
    if k < 3:                                   # text card
        put(row, 1, "PRL"[k])
        put(row, 2, rnd.choice(["0086", "12345", "000123", ""]))
        if rnd.random() < .6:
            put(row, 8, rnd.choice("@*# AX"))
        put(row, rnd.choice([9, 9, 9, 10, 20, 75, 81, 82]), rnd.choice(
            ["ALPHABETIC ARRAYS.", "X", "A  B", "TESTING 123", "0 1 2 3 4 5 6 7 8 9" * 6, "TEXT\t", "~"]))
        if rnd.random() < .3:
            put(row, rnd.choice([79, 80, 81, 82, 83]), rnd.choice("QZ9") * rnd.choice([1, 3, 60]))
        return "".join(row)
    if k < 10:
        put(row, 1, rnd.choice(["", "", "", "X", "*", "l", "r", "P", "1"]))
        put(row, 2, rnd.choice(["0981", "1", "000123", "", " 12"]))
        put(row, 8, rnd.choice(["", "", "*", "@", "L"]))
        if rnd.random() < .6:
            put(row, rnd.choice([9, 9, 10, 19]), rnd.choice(["BACKUP", "F, MASK", "B,X", "NEW LINE", "A1234567890", "x"]))
        if rnd.random() < .8:
            put(row, rnd.choice([20, 20, 21, 30]), rnd.choice(OPS))
        for col in (33, 47, 61):
            if rnd.random() < .5:
                put(row, col + rnd.choice([0, 0, 0, 1, 5]), rnd.choice(WORDS))
        if rnd.random() < .3:
            put(row, rnd.choice([76, 76, 80]), rnd.choice("CX9"))
        if rnd.random() < .4:
            put(row, rnd.choice([81, 81, 82, 119, 120, 121]), rnd.choice(["REMARK.", "R", "REMARKS " * 6]))
        return "".join(row)
    if k == 10:                                 # every field edge occupied or not
        for c in COLS:
            if rnd.random() < .6:
                put(row, c, rnd.choice("PRLABC0#$*"))
            if rnd.random() < .4:
                put(row, c - 1 or 1, rnd.choice("YZ9,"))
        if rnd.random() < .5:
            put(row, rnd.choice([118, 119, 120, 121, 122]), "E")
        s = "".join(row)
        return "." + s[1:] if s[:1] in "#$" and s else s
    return "".join(rnd.choice("  AB,#$*PRL09\t~.é█") for _ in range(rnd.choice([0, 1, 2, 7, 8, 9, 20, 80, 81, 119, 120, 121, 130])))


def cardcall(rnd):
    line = argusline(rnd)
    j = rnd.randrange(10)
    if j == 0:
        line = "#" + line
    if j == 1:
        line = rnd.choice([" #", "\n#", "\t#"]) + line[2:]
    if rnd.random() < .35:
        line += "\n"
    if rnd.random() < .04 and line:
        p = rnd.randrange(len(line))
        line = line[:p] + "\n" + line[p:]
    c = {"op": "card", "line": line, "defaults": rnd.random() < .4, "cols": COLS, "width": 120, "names": NAMES,
         "filename": rnd.choice([[], [], ["x.arg"], ["d/y"]]), "linenum": rnd.choice([0, 0, 1, 2, 77, 100000])}
    if rnd.random() < .2:
        c["verbose"] = True
    if not c["defaults"]:
        k = rnd.randrange(3)
        if k == 0:
            c["width"] = rnd.choice([80, 81, 82, 90, 119, 121, 200, 80, 72])
        else:
            n = rnd.randrange(1, 11)
            c["cols"] = sorted(rnd.sample(range(1, rnd.choice([12, 40, 100])), n))
            if rnd.random() < .5:
                c["cols"][0] = 1
            c["width"] = max(c["cols"][-1] + rnd.choice([-1, 0, 1, 3, 40]), 0)
            c["names"] = NAMES if rnd.random() < .5 else ["f%d" % (10 - i) for i in range(n + rnd.randrange(2))]
    return c


def arguscall(rnd):
    line = argusline(rnd)
    if line.startswith("#"):
        line = "R" + line[1:]
    if rnd.random() < .35:
        line += "\n"
    return {"op": "argus", "line": line, "defaults": rnd.random() < .7, "width": 120 if rnd.random() < .7 else 85,
            "filename": [], "linenum": rnd.choice([0, 1, 9])}


def fixdef(c):
    if c.get("defaults"):
        c["width"] = 120
    return c


def sourcelines(rnd, n):
    out = []
    for _ in range(n):
        k = rnd.randrange(10)
        if k == 0:
            out.append("#" + rnd.choice(["", " Page 110", "$x", "# L"]))
        elif k == 1:
            out.append(rnd.choice(["", "   ", " #x", " $x", "L", "P", "L      @", "L       TITLE " + "X" * 70]))
        else:
            s = argusline(rnd)
            while s[:1] in ("$", "#") and s or "\r" in s:
                s = argusline(rnd)
            out.append(s)
    return out


def deckcall(rnd):
    lines = sourcelines(rnd, rnd.choice([0, 1, 2, 3, 5, 8]))
    if rnd.random() < .3:
        lines = [x + "\n" for x in lines]
    if rnd.random() < .3:
        lines.insert(rnd.randrange(len(lines) + 1), "$nofile.arg")
    return decorate(rnd, {"op": "deck", "lines": lines})


def decorate(rnd, c):
    c.update(cls=rnd.choice(["argus", "argus", "punch"]), cols=COLS, width=120, defaults=rnd.random() < .6,
             verbose=rnd.random() < .2)
    if not c["defaults"]:
        c["width"] = rnd.choice([120, 100, 81, 130])
        if c["cls"] == "punch" and rnd.random() < .6:
            c["cols"] = sorted(rnd.sample(range(1, 60), rnd.randrange(1, 11)))
            c["width"] = c["cols"][-1] + rnd.choice([0, 5, 30])
    return c


def filecall(rnd, k):
    """An acyclic include graph: file i may include only later files."""
    n = rnd.choice([1, 2, 2, 3, 4, 6])
    if rnd.random() < .6:                # the same names again, with other contents
        k = 0
    names = rnd.sample(["main.arg", "a.arg", "sub/b.arg", "sub/a.arg", "oth/a.arg", "sub/deep/a.arg", "c", "C", "sub/deep/d.src", "e.f.g", "./main.arg", "z.arg"], n)
    if rnd.random() < .25:
        names[rnd.randrange(n)] = "d" * rnd.choice([20, 60, 100]) + "/" * (rnd.random() < .5) + "f" * rnd.choice([30, 41, 70, 110])
    names = ["s%d/%s" % (k, x) if not x.startswith("./") else "./s%d_r.arg" % k for x in names]
    files = []
    for i, nm in enumerate(names):
        lines = sourcelines(rnd, rnd.choice([0, 1, 2, 3, 4]))
        for _ in range(rnd.choice([0, 1, 1, 2, 3]) if i + 1 < n else 0):
            inc = rnd.choice(names[i + 1:])
            lines.insert(rnd.randrange(len(lines) + 1), "$" + rnd.choice(["", " ", "  \t"]) + inc + rnd.choice(
                ["", "", " ", "  trailing words", "\tx"]))
        if rnd.random() < .06:
            lines.insert(rnd.randrange(len(lines) + 1), rnd.choice(["$s%d_missing" % k, "$", "$  "]))
        if rnd.random() < .1 and i + 1 < n:
            lines.append("#$" + names[i + 1])
        files.append({"name": nm, "lines": lines, "nl": rnd.random() < .6 or (bool(lines) and lines[-1] == ""),
                      "eol": rnd.choice(["\n", "\n", "\n", "\r\n"])})
    root = names[0] if rnd.random() < .95 else "s%d_nosuch" % k
    return decorate(rnd, {"op": "filedeck", "files": files, "root": root})


def bigfile(rnd, k):
    """Long files, long chains of includes, many includes of the same file."""
    pre = "b%d_" % (k % 2)
    one = lambda n, ls: {"name": pre + n, "lines": ls, "nl": True, "eol": "\n"}
    j = k % 4
    if j == 0:
        n = rnd.choice([130, 260])
        files = [one("m", [rnd.choice(["X", "# no", "L      @T%d" % i, ""]) for i in range(n)])]
    elif j == 1:
        n = rnd.choice([12, 25, 40])
        files = [one("c%d" % i, ["A%d" % i] * rnd.randrange(2) + (["$%sc%d" % (pre, i + 1)] if i < n else ["END"]) +
                     ["Z%d" % i] * rnd.randrange(2)) for i in range(n + 1)]
    elif j == 2:
        files = [one("m", ["$%sn" % pre] * rnd.choice([20, 35]) + ["E"]), one("n", ["N1", "# x", "$%sp" % pre]), one("p", ["P"] * rnd.randrange(3))]
    else:
        n = 5                               # a binary tree: each file twice in the one before
        files = [one("t%d" % i, ["$%st%d" % (pre, i + 1), "T%d" % i, "$%st%d" % (pre, i + 1)] if i < n else ["LEAF"]) for i in range(n + 1)]
    return decorate(rnd, {"op": "filedeck", "files": files, "root": files[0]["name"]})


def explore(prop, tier, seed):
    ds = [vlib.design("MCCard", "MCCard" if tier == "quick" else "MCCardT"),
          vlib.design("MCDeck", "MCDeck" if tier == "quick" else "MCDeckT")]
    rnd = random.Random("deck %s" % seed)
    scale = 11 if tier == "quick" else 60
    scens = []
    for k in range(40 * scale):
        scens.append({"name": "cards %d" % k, "calls": [cardcall(rnd) for _ in range(12)]})
    for k in range(32 * scale):
        scens.append({"name": "argus %d" % k, "calls": [fixdef(arguscall(rnd)) for _ in range(12)]})
    for k in range(30 * scale):
        scens.append({"name": "decks %d" % k, "calls": [deckcall(rnd) for _ in range(4)]})
    for k in range(40 * scale):
        scens.append({"name": "files %d" % k, "calls": [filecall(rnd, 10 * k + j) for j in range(4)]})
    for k in range(12 if tier == "quick" else 40):
        scens.append({"name": "big %d" % k, "calls": [bigfile(rnd, k)]})
    scens.append({"name": "nothing", "calls": [{"op": "nodeck", "cls": c, "defaults": True} for c in ("argus", "punch")]})
    rnd.shuffle(scens)
    return ds, vlib.validate(DRIVER, TRACE, scens)
