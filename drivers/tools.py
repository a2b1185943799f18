"""The command line tools, each run in a child process of its own, in a scratch directory."""
import ast
import contextlib
import io
import json
import os
import re
import runpy
import signal
import sys
import tempfile

import dlib
from dlib import opt, small, text
import h800.arguscard, h800.instructions, h800.symbol_table  # noqa: E401,F401  (loaded once, inherited by the children)

TOOLS = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "tools")
LIMIT = 1 << 22


def child(tool, argv):
    out, err = io.StringIO(), io.StringIO()
    code = 0
    sys.argv = [tool + ".py"] + argv
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            runpy.run_path(os.path.join(TOOLS, tool + ".py"), run_name="__main__")
        except SystemExit as e:
            code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except BaseException as e:
            code = 100
            err.write("\nTraceback %s" % type(e).__name__)
    return {"code": code, "out": out.getvalue()[:LIMIT], "err": err.getvalue()[:LIMIT]}


def start(tool, argv):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        signal.alarm(3 * dlib.patience())
        try:
            os.close(r)
            with os.fdopen(w, "w") as f:
                json.dump(child(tool, argv), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        s = f.read()
    os.waitpid(pid, 0)
    if not s:
        dlib.hung()
    return json.loads(s) if s else {"code": 101, "out": "", "err": ""}


def lines(s):
    p = s.split("\n")
    return p[:-1] if p[-1] == "" else p


def defs(d):
    return [{"seg": text(g), "sub": text(s), "type": text(t), "file": opt(e["file"]), "num": small(e["line"]),
             "lognum": opt(e["lognum"]), "tag": text(e["tagtype"])}
            for g, ss in d.items() for s, ts in ss.items() for t, e in ts.items()]


def found(out):
    last = out[-1] if out else ""
    if last[:1] not in ("{", "["):
        return {"k": "nothing"}
    try:
        v = ast.literal_eval(re.sub(r"<[^<>]*>", "'card'", last))
        return {"k": "defs", "v": defs(v)} if isinstance(v, dict) else {"k": "names", "v": [text(x) for x in v]}
    except Exception:
        return {"k": "unreadable"}


def flags(c):
    a = []
    for name, short, long_ in (("count", "-c", "--count"), ("sort", "-s", "--sort"), ("unused", "-u", "--unused"),
                               ("print", "-p", "--print-opcodes"), ("all", "-a", "--all"), ("invalid", "-i", "--invalid"),
                               ("details", "-D", "--details"), ("debug", "-d", "--debug"), ("complex", "-c", "--complex"),
                               ("begin", "-b", "--begin"), ("end", "-e", "--end"), ("fuzzy", "-f", "--fuzzy"),
                               ("exact", "-x", "--exact"), ("verbose", "-v", "--verbose")):
        if c.get(name):
            a.append(long_ if c.get("long") else short)
    return a


def run(log, sc):
    home = os.getcwd()
    for c in sc["calls"]:
        with tempfile.TemporaryDirectory(dir=home) as tmp:
            os.chdir(tmp)
            try:
                for f in c["files"]:
                    if os.path.dirname(f["name"]):
                        os.makedirs(os.path.dirname(f["name"]), exist_ok=True)
                    with open(f["name"], "w", encoding="ascii") as h:
                        h.write(f["text"])
                pos = list(c["args"])
                if c["tool"] == "list-instructions":
                    pos = [c["opcode"]] + pos
                if c["tool"] == "find-symbols":
                    pos = [c["symbol"]] + pos
                if c.get("dashes"):
                    pos = ["--"] + pos
                r = start(c["tool"], flags(c) + pos)
                after, names = [], {os.path.normpath(f["name"]): f["name"] for f in c["files"]}
                for a in c["args"]:
                    n = os.path.splitext(a)[0] + ".lst"
                    names.setdefault(os.path.normpath(n), n)
                for d, _, fs in os.walk("."):
                    for n in fs:
                        p = os.path.normpath(os.path.join(d, n))
                        with open(p, encoding="utf-8", errors="replace", newline="") as h:
                            after.append({"name": names.get(p, p), "text": h.read()})
                e = dict(c, code=small(r["code"]), out=lines(r["out"]), err=lines(r["err"]), after=after)
                if c["tool"] == "find-symbols":
                    e["found"] = found(e["out"])
                e["op"] = "run"
                log.emit(**e)
            finally:
                os.chdir(home)


dlib.main(run)
