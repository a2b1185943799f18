"""Shared machinery: scratch space, TLC runs, drivers on the real code, sharded
trace validation, findings, evidence.  No verdict is computed here: verdicts are
the clause names that TLC's trace specifications put in their output."""
import ast
import atexit
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRIVERS = os.path.join(VERIF, "drivers")
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
CORES = max(1, min(8, os.cpu_count() or 1))
TIER = "quick"          # set by check.py
JARS = ":".join(sorted(glob.glob("/opt/veriftools/tla/*.jar")))


class MachineryError(Exception):
    pass


class Slow(MachineryError):
    """TLC did not finish in time."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="h800v-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


# ---------------------------------------------------------------- dictionary
class Dictionary:
    """Constants that occur in the source under test, as suggestions for inputs (no expectations come from
    them): integers with their neighbours and powers of two, and short strings."""

    def __init__(self, *files):
        ints, strs = set(), set()
        for f in files:
            for p in sorted(glob.glob(os.path.join(REPO, f))):
                if p.endswith("_test.py"):
                    continue
                try:
                    with open(p, encoding="utf-8", errors="replace") as h:
                        tree = ast.parse(h.read())
                except (OSError, SyntaxError, ValueError):
                    continue
                for n in ast.walk(tree):
                    v = _const(n)
                    if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 2 ** 72:
                        ints.add(v)
                    elif isinstance(v, str) and 0 < len(v) <= 12:
                        strs.add(v)
        self.ints, self.strs = sorted(ints), sorted(strs)
        near = {v + d for v in ints for d in (-1, 0, 1)}
        self.near = sorted(near | {2 ** v - d for v in ints if 0 <= v <= 64 for d in (0, 1)})

    def pick(self, rnd, lo, hi):
        """A suggested integer from lo to hi, or any."""
        k = [v for v in (self.ints if rnd.random() < .6 else self.near) if lo <= v <= hi]
        return rnd.choice(k) if k else rnd.randint(lo, hi)

    def words(self, chars, most):
        return [s for s in self.strs if len(s) <= most and all(c in chars for c in s)]


def _const(n):
    """The value of a constant expression, or None."""
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = _const(n.operand)
        return -v if isinstance(v, int) else None
    if isinstance(n, ast.BinOp):
        a, b = _const(n.left), _const(n.right)
        if isinstance(a, int) and isinstance(b, int):
            if isinstance(n.op, ast.Pow):
                return a ** b if abs(a) <= 64 and 0 <= b <= 72 else None
            if isinstance(n.op, ast.LShift):
                return a << b if 0 <= b <= 72 else None
            for t, g in ((ast.Add, lambda: a + b), (ast.Sub, lambda: a - b), (ast.Mult, lambda: a * b), (ast.BitOr, lambda: a | b)):
                if isinstance(n.op, t):
                    return g()
    return None


_n = 0


def fresh(name):
    global _n
    _n += 1
    p = os.path.join(scratch(), "%04d-%s" % (_n, name))
    return p


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, workers="1", timeout=800, extra=(), heap="2g"):
    meta = fresh("meta")
    os.makedirs(meta)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    for k in list(e):
        if k.startswith("VERIF_GEN") or k in ("VERIF_TRACE", "VERIF_OUT"):
            e.pop(k)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", meta, "-workers", str(workers), "-config", os.path.join(SPEC, cfg)]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        raise Slow("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, True)
    out = p.stdout
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    gen, dist = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
    return {"rc": p.returncode, "out": out, "generated": gen, "distinct": dist,
            "wall": time.time() - t}


def design(module, cfg=None, env=None, timeout=800, workers=CORES, heap="8g"):
    """Exhaustive design check.  A failure here is a fault of the specification,
    never of the code: it is a machinery error."""
    r = tlc(module, (cfg or module) + ".cfg", env, workers=workers, timeout=timeout, heap=heap)
    if r["rc"] != 0 or "No error has been found" not in r["out"]:
        raise MachineryError("design check of %s failed:\n%s" % (module, r["out"][-3000:]))
    return r


# ---------------------------------------------------------------- drivers
def drive(driver, scenarios_path, trace_path, timeout):
    """Run a driver on the real code.  Returns (returncode, stderr tail)."""
    cwd = fresh("cwd")
    os.makedirs(cwd)
    e = dict(os.environ)
    e["PYTHONPATH"] = REPO + os.pathsep + DRIVERS
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONPYCACHEPREFIX"] = fresh("pyc")
    e["PYTHONHASHSEED"] = "0"
    e["VERIF_REPO"] = REPO
    try:
        p = subprocess.run([PY, os.path.join(DRIVERS, driver + ".py"), scenarios_path, trace_path],
                           cwd=cwd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           timeout=timeout, text=True)
        return p.returncode, p.stderr[-2000:]
    except subprocess.TimeoutExpired:
        return -99, "driver timed out"
    finally:
        shutil.rmtree(cwd, True)


def split(scens, n):
    """Deal scenarios to n shards, balanced by weight, keeping relative order."""
    shards = [[] for _ in range(n)]
    load = [0] * n
    for s in scens:
        k = load.index(min(load))
        shards[k].append(s)
        load[k] += len(s["calls"]) + 1
    return [s for s in shards if s]


def again(rnd, calls, changes, p=.08):
    """Do an earlier change once more after another one (what was done once must be done again)."""
    out, last = [], {}
    for c in calls:
        out.append(c)
        if c["op"] in changes:
            before = last.setdefault(c.get("id"), [])
            if before and rnd.random() < p:
                out += [dict(rnd.choice(before)), dict(c)]
            last[c.get("id")] = (before + [c])[-3:]
    return out


def sandwich(rnd, calls, queries, p=.25):
    """Put the same question before and after some of the changes (what was answered once must not be answered again
    from memory).  A question is taken from the history itself and moved to the place that the change touches."""
    pool = {}
    for c in calls:
        if c["op"] in queries:
            pool.setdefault(c.get("id"), []).append(c)
    out = []
    for c in calls:
        qs = pool.get(c.get("id"))
        if qs and c["op"] not in queries and not c["op"].startswith("new") and rnd.random() < p:
            q = dict(rnd.choice(qs))
            for k in ("b", "g"):
                if k in q and k in c:
                    q[k] = c[k]
            if rnd.random() < .5 and q.keys() & {"a", "i", "r", "s"}:
                for k in ("a", "i", "r", "byname", "n", "s", "e"):
                    if k in q and k in c:
                        q[k] = c[k]
            out += [q, c, dict(q)]
        else:
            out.append(c)
    return out


class Outcome:
    def __init__(self):
        self.traces = 0
        self.events = 0
        self.ops = {}
        self.bad = []        # dicts: clause, event, scenario, context
        self.samples = []
        self.trace_states = 0
        self.error = None


def _shard(args):
    driver, tracemod, scens, k, timeout, tracecfg = args
    sp, tp, op = fresh("scen%d.jsonl" % k), fresh("trace%d.ndjson" % k), fresh("out%d.json" % k)
    with open(sp, "w") as f:
        for s in scens:
            f.write(json.dumps(s, separators=(",", ":")) + "\n")
    rc, err = drive(driver, sp, tp, timeout // 2)
    lines = []
    if os.path.exists(tp):
        with open(tp) as f:
            lines = f.read().splitlines()
    if rc != 0 and lines:
        try:                                  # a killed driver may leave half a line
            json.loads(lines[-1])
        except ValueError:
            lines.pop()
            with open(tp, "w") as f:
                f.write("\n".join(lines) + "\n")
    res = {"lines": lines, "bad": [], "driver": None, "distinct": 0, "scens": scens}
    if rc != 0:
        res["driver"] = "rc=%s %s" % (rc, err)
    if not lines:
        if rc == 0:
            raise MachineryError("driver %s wrote no trace" % driver)
        return res
    cfg = tracecfg or tracemod + ".cfg"
    try:
        r = tlc(tracemod, cfg, {"VERIF_TRACE": tp, "VERIF_OUT": op}, timeout=timeout)
    except Slow:
        # far more work than such a trace normally is: a beginning of it may show why (every prefix is a trace)
        part = lines[:max(1, len(lines) // 12)]
        with open(tp, "w") as f:
            f.write("\n".join(part) + "\n")
        r = tlc(tracemod, cfg, {"VERIF_TRACE": tp, "VERIF_OUT": op}, timeout=timeout // 2)
        if os.path.exists(op):
            with open(op) as f:
                o = json.load(f)
            if isinstance(o["bad"], list) and o["bad"]:
                res.update(lines=part, bad=o["bad"], distinct=r["distinct"])
                return res
        raise MachineryError("TLC timed out on %s" % tracemod)
    if not os.path.exists(op):
        ill = re.search(r"Attempted to |was not in the domain|nonexistent|out of bounds|The first argument of", r["out"])
        if ill and 0 < r["distinct"] <= len(lines):
            # the answer is of a shape the specification cannot even compare: TLC stopped at this event
            res["bad"] = [{"line": r["distinct"], "clause": "illtyped"}]
            res["distinct"] = r["distinct"]
            return res
        raise MachineryError("trace validation of %s failed:\n%s" % (tracemod, r["out"][-3000:]))
    with open(op) as f:
        o = json.load(f)
    if o["consumed"] != len(lines) or o["total"] != len(lines):
        raise MachineryError("trace of %s not consumed: %s of %s (%d lines)\n%s" % (
            tracemod, o["consumed"], o["total"], len(lines), r["out"][-2500:]))
    res["bad"] = o["bad"] if isinstance(o["bad"], list) else []
    res["distinct"] = r["distinct"]
    for p in (sp, tp, op):
        os.unlink(p)
    return res


def validate(driver, tracemod, scens, shards=CORES, timeout=None, tracecfg=None):
    """scens: list of {"name": str, "calls": [..]}.  Executes them on the real code and
    lets TLC validate what happened.  Each trace line carries "sc" (scenario number in
    its shard) for replay."""
    out = Outcome()
    if timeout is None:
        timeout = 360 if TIER == "quick" else 3000
    parts = split(scens, shards)
    with cf.ThreadPoolExecutor(max_workers=CORES) as ex:
        jobs = [ex.submit(_shard, (driver, tracemod, p, i, timeout, tracecfg)) for i, p in enumerate(parts)]
        results = []
        for j in jobs:
            try:
                results.append(j.result())
            except MachineryError as e:
                out.error = e            # raised by the caller unless the other shards show a violation
    for res in results:
        lines = res["lines"]
        out.events += len(lines)
        out.traces += len(res["scens"])
        out.trace_states += res["distinct"]
        starts = []
        for i, ln in enumerate(lines):
            m = re.match(r'\{"op":"([^"]+)"', ln)
            op = m.group(1) if m else "?"
            out.ops[op] = out.ops.get(op, 0) + 1
            if op == "reset":
                starts.append(i)
        if res["driver"]:
            k = max(0, len(starts) - 1)
            out.bad.append({"clause": "driver", "event": {"op": "driver", "why": res["driver"][-400:]},
                            "scenario": res["scens"][min(k, len(res["scens"]) - 1)]})
        seen = {}
        for b in res["bad"]:
            line = b["line"] - 1
            k = max([j for j, s in enumerate(starts) if s <= line] or [0])
            if seen.get(b["clause"], 0) >= 12:
                continue
            seen[b["clause"]] = seen.get(b["clause"], 0) + 1
            out.bad.append({"clause": b["clause"], "event": json.loads(lines[line]),
                            "scenario": res["scens"][k],
                            "step": line - starts[k] if starts else line})
        if len(out.samples) < 2 and len(lines) > 3:
            j = len(lines) // 2
            out.samples.append([json.loads(x) for x in lines[j:j + 2]])
    return out


# ---------------------------------------------------------------- findings & evidence
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return json.load(f)["findings"]


def matches(finding, prop, bad):
    if finding.get("status") != "known" or finding["property"] != prop:
        return False
    if finding["clause"] != bad["clause"]:
        return False
    ev = bad["event"]
    return all(k in ev and ev[k] == v for k, v in finding["event"].items())


def tree_digest():
    h = hashlib.sha256()
    for p in sorted(glob.glob(REPO + "/h800/*.py") + glob.glob(REPO + "/tools/*.py")):
        with open(p, "rb") as f:
            h.update(p.encode() + f.read())
    return h.hexdigest()[:16]


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)


WAYS = ["inner", "alternate", "part", "outer", "repr", "len", "item"]


def woven(rnd, size):
    """How an iteration is interleaved with another one or a query (drivers/dlib.py: weave)."""
    return {"way": rnd.choice(WAYS), "k": rnd.choice([0, 1, 2, 3, size // 2, size - 1])}
