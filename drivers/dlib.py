"""Driver side: runs calls on the real code and logs what it answered.  Holds no
expectations."""
import contextlib
import io
import json
import operator
import resource
import signal
import sys

CALL_SECONDS = 20      # for the first call that does not return, then less, then the driver stops
MEMORY = 3 << 30
hangs = 0


class Enough(BaseException):
    """Too many calls did not return: what was logged so far is the trace."""


def patience():
    return CALL_SECONDS if hangs == 0 else 3


def hung():
    global hangs
    hangs += 1


class Hang(BaseException):
    pass


def _alarm(sig, frame):
    raise Hang()


def num(n):
    """An integer as TLC reads it: sign and bits, least significant first."""
    n = operator.index(n)
    return {"neg": n < 0, "bits": [int(c) for c in reversed(bin(abs(n))[2:])] if n else []}


def denum(v):
    n = 0
    for k, b in enumerate(v["bits"]):
        n |= b << k
    return -n if v["neg"] else n


def call(fn, enc):
    """Run fn(); encode its answer, or the way it failed."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(patience())
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            r = fn()
            res = enc(r)
        return res
    except Hang:
        hung()
        return {"k": "hang"}
    except ValueError:
        return {"k": "ValueError"}
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        return {"k": "exc", "t": type(e).__name__}
    finally:
        signal.alarm(0)


def weave(ob, read, way, k):
    """Iterate ob while another iteration of it, or a query, is under way; what one of the iterations read."""
    first = iter(ob)
    got = [read(next(first)) for _ in range(k)]
    if way == "inner":
        return [read(x) for x in ob]
    if way == "alternate":
        other = []
        second = iter(ob)
        for x in first:
            got.append(read(x))
            for y in second:
                other.append(read(y))
                break
        other += [read(y) for y in second]
        return other if k % 2 else got
    if way == "part":
        next(iter(ob))
    elif way == "outer":
        list(ob)
    elif way == "repr":
        repr(ob)
    elif way == "len":
        len(ob)
    elif way == "item":
        ob[0]
    return got + [read(x) for x in first]




def ok(_):
    return {"k": "ok"}


def asint(r):
    return {"k": "int", "v": num(r)}


def asbool(r):
    return {"k": "bool", "v": bool(r)}


def asstr(r):
    if not isinstance(r, str):
        return {"k": "notstr", "t": type(r).__name__}
    return {"k": "str", "v": r}


def text(v):
    """A string as it is; anything else as a string no specification expects."""
    return v if isinstance(v, str) else "\x00%s %r" % (type(v).__name__, v)


def small(v):
    """A small integer as it is; anything else as a number no specification expects."""
    try:
        n = operator.index(v)
    except TypeError:
        return -999999999
    return n if -2 ** 30 < n < 2 ** 30 else -999999998


def opt(v):
    """None or a string, as TLC reads it: a sequence of at most one string."""
    return [] if v is None else [text(v)]


class Log:
    def __init__(self, path):
        self.f = open(path, "w")

    def emit(self, op, **kw):
        d = {"op": op}
        d.update(kw)
        self.f.write(json.dumps(d, separators=(",", ":")) + "\n")
        if hangs >= 8:
            raise Enough()

    def close(self):
        self.f.close()


def main(run):
    """run(log, scenario) for each scenario in argv[1], trace to argv[2]."""
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    log = Log(sys.argv[2])
    with open(sys.argv[1]) as f:
        try:
            for line in f:
                sc = json.loads(line)
                log.emit("reset", name=sc["name"])
                run(log, sc)
        except Enough:
            pass
    log.close()
