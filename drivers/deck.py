"""Cards and decks.  Files are written below the driver's own scratch working directory."""
import os
import shutil
import tempfile

import dlib
from dlib import call, opt, small, text
from h800 import arguscard, punchcard

ACC = ["column1", "lognum", "column8", "label", "location", "operation", "operand1", "addressa", "operand2",
       "addressb", "operand3", "addressc", "sequence", "remarks", "instruction"]


def recpairs(rec):
    return [[text(k), opt(v)] for k, v in rec.items() if k != "linenum"]


def recnum(rec):
    return [small(rec["linenum"])] if "linenum" in rec else []


def showcard(c):
    d = {"k": "card", "line": text(c.line), "str": str(c), "iscomment": bool(c.isComment), "comment": opt(c.comment),
         "filename": opt(c.filename), "linenum": small(c.linenum)}
    if not c.isComment:
        d.update(layout=[[small(x) for x in p] for p in c.layout], fields=[text(x) for x in c.fields],
                 stripped=[opt(x) for x in c.strippedFields], record=recpairs(c.record), recnum=recnum(c.record))
    return d


def showargus(c):
    return {"k": "argus", "line": text(c.line), "fields": [text(x) for x in c.fields], "stripped": [opt(x) for x in c.strippedFields],
            "record": recpairs(c.record), "recnum": recnum(c.record),
            "acc": [[a, opt(getattr(c, a))] for a in ACC]}


def showdeck(d):
    r = {"k": "deck", "cards": [{"line": text(c.line), "file": opt(c.filename), "num": small(c.linenum)} for c in d.cards],
         "lines": [text(x) for x in d.lines], "fields": [[text(x) for x in f] for f in d.fields],
         "stripped": [[opt(x) for x in s] for s in d.strippedFields],
         "records": [recpairs(x) for x in d.records], "recnums": [recnum(x) for x in d.records], "str": str(d)}
    if isinstance(d, arguscard.Deck):
        r.update(log=opt(d.log_section), log8=opt(d.log_section_col8))
    return r


def lay(files):
    for x in os.listdir("."):            # the scratch directory of the scenario: only these files are there
        if os.path.isdir(x):
            shutil.rmtree(x)
        else:
            os.unlink(x)
    for f in files:
        p = f["name"]
        if os.path.dirname(p):
            os.makedirs(os.path.dirname(f["name"]), exist_ok=True)
        with open(p, "w", encoding="utf-8", newline=f.get("eol", "\n")) as h:
            h.write("\n".join(f["lines"]) + ("\n" if f["nl"] and f["lines"] else ""))


def make(c):
    kw = {"verbose": c.get("verbose", False)}
    if c["op"] in ("card", "argus"):
        if c["filename"]:
            kw["filename"] = c["filename"][0]
        if c["linenum"]:
            kw["linenum"] = c["linenum"]
    if not c.get("defaults"):
        kw["width"] = c["width"]
        if c["op"] != "argus" and c.get("cls") != "argus":
            kw["fields"] = c["cols"]
            if c["op"] == "card":
                kw["fieldnames"] = c["names"]
    if c["op"] == "card":
        return punchcard.PunchCard(c["line"], **kw), showcard
    if c["op"] == "argus":
        return arguscard.Card(c["line"], **kw), showargus
    cls = arguscard.Deck if c["cls"] == "argus" else punchcard.Deck
    if c["op"] == "deck":
        return cls(list(c["lines"]), **kw), showdeck
    if c["op"] == "filedeck":
        return cls(file=c["root"], **kw), showdeck
    return cls(**kw), showdeck


def run(log, sc):
    home = os.getcwd()
    held = []
    with tempfile.TemporaryDirectory(dir=home) as tmp:
        os.chdir(tmp)
        try:
            for c in sc["calls"]:
                if "files" in c:
                    lay(c["files"])
                box = []
                res = call(lambda: box.append(make(c)), dlib.ok)
                if box:
                    o, show = box[0]
                    held.append((c, o, show))
                    res = call(lambda: o, show)
                log.emit(**c, res=res)
            for c, o, show in held[:-1]:      # what was made first is still what it was
                log.emit(**c, res=call(lambda: o, show))
        finally:
            os.chdir(home)


dlib.main(run)
