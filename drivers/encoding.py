import contextlib
import io
import operator
import os
import re

import dlib
from dlib import call, ok
from h800 import instruction
from h800 import instructions as I

PARAM = {"seq": "sequence", "mask": "mask", "a": "a", "b": "b", "c": "c", "paddr": "paddr"}
TAKES = {"maskable": ["seq", "mask", "a", "b", "c"], "unmasked": ["seq", "a", "b", "c"],
         "print": ["seq", "a", "b", "c"], "peripheral": ["paddr"], "simulator": ["seq"], "proceed": []}


def small(r):
    n = operator.index(r)
    return {"k": "int", "n": n} if -2 ** 30 < n < 2 ** 30 else {"k": "bigint"}


def val(x, boolish):
    if not x:
        return None
    return bool(x[0]) if boolish and x[0] in (0, 1) else x[0]


def build(c):
    """Returns a function building the instruction and answering it."""
    b = c.get("boolish")
    if c["via"] == "base":
        kw = {PARAM[n]: val(c[n], b and n not in ("mask", "paddr")) for n in PARAM if c[n]}
        return lambda: instruction.Instruction(opcode=I.OPCODES[c["m"]], **kw)
    vals = {n: val(c[n], b and n not in ("mask", "paddr")) for n in TAKES[c["kind"]]}

    def f():
        cls = getattr(I, I.OPCODES[c["m"]].c if c["via"] == "table" else c["cls"])
        if c.get("pos"):
            return cls(*[vals[n] for n in TAKES[c["kind"]]])
        kw = {PARAM[n]: v for n, v in vals.items()}
        if c["kind"] == "maskable":      # absent optional operands are really left out
            kw = {k: v for k, v in kw.items() if v is not None or k == "sequence"}
        return cls(**kw)
    return f


def make(c):
    m, k = c["m"], c["kind"]
    s, a, b, cc = (c[n][0] if c[n] else 0 for n in ("seq", "a", "b", "c"))
    if k == "maskable" and c["mask"]:
        return I.make_masked_opcode(m, s, c["mask"][0])
    if k == "peripheral":
        return I.make_peripheral_opcode(m, c["paddr"][0])
    if k == "print":
        return I.make_print_opcode(m, s, a, b, cc)
    return I.make_unmasked_opcode(m, s, a, b, cc)


def rowsof(text):
    rows = []
    for ln in text.splitlines():
        m = re.match(r"0o([0-7]{4}) (\S+)$", ln)
        rows.append([int(m.group(1), 8), m.group(2)] if m else [-1, ln])
    return rows


def tablerow(o):
    """The fields of an entry of the opcode table; absent ones are empty."""
    return {"k": "row", "m": dlib.text(o.m), "cls": dlib.text(o.c), "kind": dlib.text(o.type), "op5": dlib.small(o.op),
            "b23": [] if o.b23 is None else [dlib.small(o.b23)], "b7": [] if o.b7 is None else [dlib.small(o.b7)]}


def run(log, sc):
    kept = []
    for c in sc["calls"]:
        op = c["op"]
        if op == "enc":
            box = []

            def f():
                box.append(build(c)())
                return box[0].value
            res = call(f, small)
            if box and res["k"] == "int":
                kept.append((dict(c, via="again"), box[0]))
            log.emit(**c, res=res)
        elif op == "again":
            for cc, o in kept:
                log.emit(**cc, res=call(lambda: o.value, small))
        elif op == "make":
            log.emit(**c, res=call(lambda: make(c), small))
        elif op == "listing":
            buf = io.StringIO()

            def g():
                with contextlib.redirect_stdout(buf):
                    I.print_instructions()
            res = call(g, ok)
            log.emit("listing", res=res, rows=rowsof(buf.getvalue()))
        elif op == "shipped":
            with open(os.path.join(os.path.dirname(os.path.abspath(I.__file__)), "opcodes.txt")) as h:
                log.emit("listing", res={"k": "ok"}, rows=rowsof(h.read()))
        elif op == "row":
            log.emit(**c, res=call(lambda: I.OPCODES[c["m"]], tablerow))
        elif op == "vocab":
            names = []

            def h():
                names.extend(str(x) for x in getattr(I, c["g"]))
            res = call(h, ok)
            log.emit(**c, res=res, names=names)


dlib.main(run)
