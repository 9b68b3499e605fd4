"""Explicit-state model checking of the real liblarch code.

A *system* closes the library with a driver: it says how to build a fresh
world (real liblarch objects plus observers), which operations are enabled in
a world, how to execute one, and what must hold afterwards.  The explorer
enumerates every operation sequence: a state is the history that reaches it,
worlds are rebuilt by replaying the history on fresh objects, and two
histories are merged only when the complete object graph reachable from the
world (every attribute of every liblarch object, see `canon`) is identical up
to object identity, so merged states have the same futures.
"""
import collections
import concurrent.futures
import functools
import hashlib
import io
import itertools
import json
import multiprocessing
import os
import pickle
import resource
import signal
import sys
import threading
import time
import types

NPROC = int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 1)
STEP_TIMEOUT = 30.0      # seconds for one transition that normally takes ~1 ms
MEM_LIMIT = 3 << 30


class Violation(Exception):
    """The property is broken."""


class StepTimeout(BaseException):
    pass


# --------------------------------------------------------------------------
# canonical form of an object graph
_LOCKS = (type(threading.Lock()), type(threading.RLock()))
_ATOM = (str, int, float, bool, bytes, type(None), complex)


def canon(*roots, skip=(), uniq=(), inert=None, unordered=()):
    """Digest of everything reachable from roots, up to object identity.

    dict and list order is kept (it can influence behaviour); sets are
    sorted; locks, threads, classes, modules and plain functions are opaque.
    skip: attributes left out.  uniq: list attributes of which repeated
    entries are dropped (first occurrence kept), as are entries for which
    inert(entry) holds.  unordered: dict attributes whose order is dropped.
    """
    out = []
    memo = {}
    w = out.append

    def go(o):
        t = type(o)
        if t is str:
            w("s" + o)
            return
        if o is None or t in (int, bool, float, bytes, complex):
            w(repr(o))
            return
        i = id(o)
        if i in memo:
            w("#%d" % memo[i])
            return
        memo[i] = len(memo)
        if t is list or t is tuple:
            w("[" if t is list else "(")
            for x in o:
                go(x)
            w("]")
        elif t is dict or isinstance(o, dict):
            w("{" + t.__name__)
            for k, v in o.items():
                go(k)
                w(":")
                go(v)
            w("}")
        elif isinstance(o, (set, frozenset)):
            w("<")
            for r in sorted(map(repr, o)):
                w(r)
            w(">")
        elif isinstance(o, (list, tuple)):
            w("[" + t.__name__)
            for x in o:
                go(x)
            w("]")
        elif isinstance(o, _ATOM):
            w(repr(o))
        elif isinstance(o, types.MethodType):
            w("m" + o.__func__.__qualname__)
            go(o.__self__)
        elif isinstance(o, functools.partial):
            w("p")
            go(o.func)
            go(o.args)
            go(o.keywords)
        elif isinstance(o, (types.FunctionType, types.BuiltinFunctionType,
                            type, types.ModuleType)):
            w("f" + getattr(o, "__qualname__", getattr(o, "__name__", "?")))
            clo = getattr(o, "__closure__", None)
            if clo:
                for c in clo:
                    try:
                        go(c.cell_contents)
                    except ValueError:
                        w("empty")
        elif isinstance(o, _LOCKS):
            w("L%d" % getattr(o, "locked", lambda: 0)())
        elif isinstance(o, threading.Thread):
            w("T")
        else:
            f = getattr(o, "_mc_canon", None)
            if f is not None:
                go(f())
                return
            w("o" + t.__name__)
            d = getattr(o, "__dict__", None)
            if d:
                for k in sorted(d):
                    if k in skip:
                        continue
                    w("." + k)
                    if k in uniq and type(d[k]) is list:
                        w("u")
                        for x in dict.fromkeys(d[k]):
                            if inert is None or not inert(x):
                                go(x)
                    elif k in unordered and type(d[k]) is dict:
                        w("d")
                        for x in sorted(d[k], key=repr):
                            go(x)
                            w(":")
                            go(d[k][x])
                    else:
                        go(d[k])
            for k in getattr(t, "__slots__", ()) or ():
                if isinstance(k, str) and hasattr(o, k) and k not in skip:
                    w("." + k)
                    go(getattr(o, k))
            if d is None and not getattr(t, "__slots__", None):
                # deque and other iterables from the standard library
                try:
                    it = list(o)
                except TypeError:
                    it = []
                for x in it:
                    go(x)
    for r in roots:
        go(r)
    return hashlib.blake2b("\x00".join(out).encode("utf8", "replace"),
                           digest_size=12).digest()


# --------------------------------------------------------------------------
class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


def quiet():
    """liblarch prints warnings; keep them off our stdout."""
    sys.stdout = _Null()


def loud():
    sys.stdout = sys.__stdout__


def _alarm(signum, frame):
    raise StepTimeout()


class guard:
    """One transition must terminate; a hang is reported, not suffered."""
    def __enter__(self):
        signal.setitimer(signal.ITIMER_REAL, STEP_TIMEOUT)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass
    quiet()


def protect(fn):
    """Run fn(); return (value, None) or (None, violation message)."""
    try:
        with guard():
            return fn(), None
    except Violation as e:
        return None, str(e)
    except StepTimeout:
        return None, "operation did not terminate within %ds" % STEP_TIMEOUT
    except RecursionError:
        return None, "unbounded recursion in an operation or a query"
    except MemoryError:
        return None, "unbounded memory in an operation or a query"
    except Exception as e:                               # noqa
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                            for f in reversed(tb[-4:]))
        return None, "unexpected %s: %s [%s]" % (
            type(e).__name__, str(e).splitlines()[0] if str(e) else "", where)


# --------------------------------------------------------------------------
class Result:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.replayed = 0
        self.depth = 0
        self.closed = False         # frontier ran empty: all histories covered
        self.capped = None
        self.outcomes = {}
        self.violation = None       # (history, message)
        self.samples = []
        self.level_states = []

    def merge_outcomes(self, d):
        for k, v in d.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v


_SYS = None


def replay(system, hist):
    """Rebuild the world for a history already explored."""
    w = system.fresh()
    for op in hist:
        system.run(w, op)
    return w


def _expand(hist):
    """All transitions out of one state."""
    s = _SYS
    new = []
    outcomes = {}
    w, err = protect(lambda: replay(s, hist))
    if err:
        return new, 0, outcomes, (hist, "replaying: " + err)
    ops, err = protect(lambda: list(s.ops(w)))
    if err:
        return new, 0, outcomes, (hist, err)
    n = 0
    for op in ops:
        def one():
            w = replay(s, hist)
            out = s.step(w, op)
            return s.key(w), out
        r, err = protect(one)
        n += 1
        if err:
            return new, n, outcomes, (hist + (op,), err)
        key, out = r
        outcomes[out] = outcomes.get(out, 0) + 1
        new.append((key, op))
    return new, n, outcomes, None


def _init_violation(system):
    def one():
        w = system.fresh()
        system.check(w)
        return system.key(w)
    return protect(one)


class Crash:
    """a worker process died while executing an item"""


def _grown():
    """KB of memory this process has taken for itself"""
    with open("/proc/self/status") as f:
        for line in f:
            if line.startswith("RssAnon"):
                return int(line.split()[1])
    return 0


_BASE = 0


def _init_worker():
    global _BASE
    _INIT()
    _BASE = _grown()


def _chunk(items):
    return [_FN(x) for x in items], _grown() - _BASE


def _alone(x):
    """Run one item in a process of its own; Crash if that process dies of a
    signal, twice."""
    for _ in range(2):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                _INIT()
                code = 0
                data = pickle.dumps(_FN(x))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if data:
            return pickle.loads(data)
        if not os.WIFSIGNALED(status):
            raise SystemExit("a worker process could not run (%d)" % status)
    return Crash


_FN = _INIT = None
GROWTH = 600 << 10      # KB after which the workers are replaced


def _pool(nproc):
    return concurrent.futures.ProcessPoolExecutor(
        nproc, multiprocessing.get_context("fork"), initializer=_init_worker)


def _kill(ex):
    procs = list((ex._processes or {}).values())
    ex.shutdown(wait=False, cancel_futures=True)
    for p in procs:
        p.kill()


def pmap(fn, items, chunk, init=worker_init, nproc=None):
    """Yield (item, fn(item)) in order, on forked workers."""
    global _FN, _INIT
    _FN, _INIT = fn, init
    nproc = nproc or NPROC
    it = iter(items)
    ex = _pool(nproc)
    todo = collections.deque()
    broken = fat = False
    Broken = concurrent.futures.process.BrokenProcessPool
    try:
        while True:
            if broken or fat:
                if not todo:
                    _kill(ex)
                    ex = _pool(nproc)
                    broken = fat = False
            while not broken and not fat and len(todo) < nproc * 6:
                c = list(itertools.islice(it, chunk))
                if not c:
                    break
                try:
                    todo.append((c, ex.submit(_chunk, c)))
                except Broken:
                    todo.append((c, None))
                    broken = True
            if not todo:
                if not broken and not fat:
                    return
                continue
            c, fut = todo.popleft()
            out = None
            if fut is not None:
                try:
                    out, grown = fut.result()
                    fat = fat or grown > GROWTH
                except Broken:
                    broken = True
            if out is None:
                out = [_alone(x) for x in c]
            yield from zip(c, out)
    finally:
        _kill(ex)


CRASHED = "the interpreter crashed while executing this history"


def bfs(system, max_depth=None, max_seconds=None, starts=((),), chunk=8,
        log=None, init=worker_init):
    """Exhaustive breadth-first search; stops at the first violation, which
    is therefore one with the fewest operations beyond its start."""
    global _SYS
    _SYS = system
    res = Result()
    t0 = time.time()
    seen = set()
    frontier = []
    for st, out in pmap(_start_key, [tuple(x) for x in starts], 32, init):
        key, err = (None, CRASHED) if out is Crash else out
        if err:
            res.violation = (st, err)
            return res
        if key not in seen:
            seen.add(key)
            frontier.append(st)
    res.states = len(seen)
    depth = 0
    while frontier and (max_depth is None or depth < max_depth):
        nxt = []
        for hist, out in pmap(_expand, frontier,
                              max(1, min(chunk, len(frontier) // 64)), init):
            if out is Crash:
                out = [], 0, {}, (hist, CRASHED)
            new, n, oc, viol = out
            res.replayed += 1
            res.transitions += n
            res.merge_outcomes(oc)
            if viol:
                res.violation = viol
                return res
            for key, op in new:
                if key not in seen:
                    seen.add(key)
                    nxt.append(hist + (op,))
            if max_seconds and time.time() - t0 > max_seconds:
                res.capped = "time cap %ds during depth %d" % (
                    max_seconds, depth + 1)
                res.states = len(seen)
                res.depth = depth
                return res
        depth += 1
        res.depth = depth
        res.states = len(seen)
        res.level_states.append(len(nxt))
        if nxt:
            res.samples = [nxt[0], nxt[len(nxt) // 2], nxt[-1]]
        frontier = nxt
        if log:
            log("depth %d: states=%d transitions=%d frontier=%d %.1fs" % (
                depth, res.states, res.transitions, len(nxt),
                time.time() - t0))
    res.closed = not frontier
    return res


def _start_key(st):
    def one():
        w = replay(_SYS, st)
        _SYS.check(w)
        return _SYS.key(w)
    return protect(one)


_CASEFN = None


def _case(c):
    return protect(lambda: _CASEFN(c))


def cases(fn, items, chunk=16, max_seconds=None, init=worker_init):
    """Run fn on every item of a finite enumeration.  fn returns
    (outcome label, executions) or raises Violation."""
    global _CASEFN
    _CASEFN = fn
    res = Result()
    t0 = time.time()
    for c, got in pmap(_case, items, chunk, init):
        out, err = (None, CRASHED) if got is Crash else got
        res.states += 1
        if err:
            res.violation = (c, err)
            return res
        lab, n = out
        res.transitions += n
        res.replayed += 1
        res.outcomes[lab] = res.outcomes.get(lab, 0) + 1
        if res.states in (1, 10, 100, 1000, 10000, 100000):
            res.samples = (res.samples + [c])[-3:]
        if max_seconds and time.time() - t0 > max_seconds:
            res.capped = "time cap %ds" % max_seconds
            return res
    res.closed = True
    return res


def jsonable(o):
    return json.loads(json.dumps(o))


def tuplify(o):
    if isinstance(o, list):
        return tuple(tuplify(x) for x in o)
    return o
