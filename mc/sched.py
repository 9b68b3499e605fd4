"""Controlled scheduler: systematic exploration of thread schedules of the
real code, with the real GLib main context.

Every logical thread is a real Python thread, but only one runs at a time.
Scheduling points are the executed lines (or bytecodes) of liblarch, and
blocking lock acquisitions; at each point the explorer decides who runs next.
Stateless search with a preemption bound: all schedules with at most `bound`
switches away from a runnable thread, and all choices where a thread blocks or
ends.
"""
import _thread
import os
import sys
import threading
import time
import traceback

import engine
from engine import Violation
from lib import REPO

PKG = os.path.join(os.path.abspath(REPO), "liblarch") + os.sep
REAL = (threading.Lock, threading.RLock)
HORIZON = 4000          # scheduling points of one execution


class Abort(BaseException):
    pass


class Sched:
    """One execution."""

    def __init__(self, prefix, files=None, opcodes=False):
        self.dev = dict(prefix)     # point -> choice; 0 elsewhere
        self.last = prefix[-1][0] if prefix else -1
        self.points = []        # (number enabled, choice, runner enabled)
        self.files = files
        self.opcodes = opcodes
        self.threads = {}       # name -> T, in canonical order
        self.running = None
        self.failed = None
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.clock = 0
        self.fine = True        # record points only while the harness says so
        self.finished = False

    # threads -------------------------------------------------------------
    def spawn(self, name, fn):
        t = T(self, name, fn)
        self.threads[name] = t
        return t

    def start(self, first, timeout=60):
        for t in self.threads.values():
            t.begin()
        self.running = self.threads[first]
        self.running.baton.release()
        if not self.done.acquire(timeout=timeout):
            self.finished = True
            raise Violation("an execution hangs: " + self.where())
        for t in self.threads.values():
            t.thread.join(5)
        if self.failed:
            raise self.failed

    def where(self):
        fr = sys._current_frames()
        out = []
        for t in self.threads.values():
            f = fr.get(t.thread.ident)
            if f is not None and t.state != "done":
                out.append("%s at %s" % (t.name, " <- ".join(
                    "%s:%d" % (os.path.basename(x.filename), x.lineno)
                    for x in reversed(traceback.extract_stack(f)[-6:]))))
        return "; ".join(out)

    def enabled(self):
        return [t for t in self.threads.values() if t.can_run()]

    def fail(self, exc):
        if self.failed is None:
            self.failed = exc
        self.stop()

    def stop(self):
        """End the execution: wake everybody up to unwind."""
        if self.finished:
            return
        self.finished = True
        for t in self.threads.values():
            if t.state != "done" and t is not self.running:
                try:
                    t.baton.release()
                except RuntimeError:
                    pass
        self.done.release()

    def pick(self, me):
        """Decide who runs next.  me: the thread at a point, None if it
        cannot go on."""
        en = self.enabled()
        if me is not None and me in en:
            en.remove(me)
            en.insert(0, me)
        if not en:
            if all(t.state == "done" for t in self.threads.values()):
                self.stop()
                return None
            self.fail(Violation("deadlock: " + ", ".join(
                "%s %s" % (t.name, t.state) for t in self.threads.values())))
            raise Abort()
        if len(en) == 1:
            return en[0]
        k = len(self.points)
        c = self.dev.get(k, 0)
        if c >= len(en):
            self.fail(RuntimeError("schedule does not replay: choice %d "
                                   "of %d at point %d" % (c, len(en), k)))
            raise Abort()
        self.points.append((len(en), c, me is not None and en[0] is me))
        if k > HORIZON:
            self.fail(Violation("the execution never ends: " + self.where()))
            raise Abort()
        return en[c]

    def point(self):
        me = CURRENT.get(_thread.get_ident())
        if me is None or me.sched is not self:
            return
        if self.finished:
            raise Abort()
        self.clock += 1
        nxt = self.pick(me)
        if nxt is not me:
            self.switch(me, nxt)

    def switch(self, me, nxt):
        self.running = nxt
        nxt.baton.release()
        if me is not None:
            me.baton.acquire()
            if self.finished:
                raise Abort()

    def block(self, why, pred):
        """The running thread waits until pred() holds."""
        me = CURRENT[_thread.get_ident()]
        if self.finished:
            raise Abort()
        while not pred():
            me.state, me.pred = why, pred
            nxt = self.pick(None)
            if nxt is not me:
                self.switch(me, nxt)
            me.state, me.pred = "ready", None


CURRENT = {}


class T:
    def __init__(self, sched, name, fn):
        self.sched, self.name, self.fn = sched, name, fn
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.state = "ready"
        self.pred = None
        self.thread = threading.Thread(target=self.main, daemon=True)

    def begin(self):
        self.thread.start()

    def can_run(self):
        if self.state == "done":
            return False
        return self.pred is None or self.pred()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        s = self.sched
        if s.files and os.path.basename(
                frame.f_code.co_filename) not in s.files:
            return None
        if s.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event in ("line", "opcode") and self.sched.fine \
                and not self.sched.finished:
            self.sched.point()
        return self.local

    def main(self):
        s = self.sched
        CURRENT[_thread.get_ident()] = self
        self.baton.acquire()
        self.state, self.pred = "ready", None
        try:
            if s.finished:
                return
            sys.settrace(self.trace)
            try:
                self.fn()
            finally:
                sys.settrace(None)
        except Abort:
            return
        except Violation as e:
            s.fail(e)
            return
        except BaseException as e:
            if not s.finished:
                tb = traceback.extract_tb(e.__traceback__)
                s.fail(Violation("%s raised %s: %s [%s]" % (
                    self.name, type(e).__name__, e, " <- ".join(
                        "%s:%d" % (os.path.basename(f.filename), f.lineno)
                        for f in reversed(tb[-4:])))))
            return
        finally:
            CURRENT.pop(_thread.get_ident(), None)
            self.state = "done"
        if s.finished:
            return
        try:
            nxt = s.pick(None)
        except Abort:
            return
        if nxt is not None:
            s.switch(None, nxt)


# locks ---------------------------------------------------------------------
class CoopLock:
    """threading.Lock/RLock under the scheduler."""
    reentrant = False

    def __init__(self, sched):
        self.sched = sched
        self.owner = None
        self.depth = 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.reentrant and self.owner == me:
            self.depth += 1
            return True
        t = CURRENT.get(me)
        if t is not None and t.sched is self.sched \
                and not self.sched.finished:
            if self.sched.fine:
                self.sched.point()
            if self.owner is not None and (not blocking or timeout == 0):
                return False
            self.sched.block("waits for a lock", lambda: self.owner is None)
        self.owner = me
        self.depth = 1
        return True

    __enter__ = acquire

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == self._me()


class CoopRLock(CoopLock):
    reentrant = True


class locks:
    """Within this block, locks that get created are CoopLocks."""
    def __init__(self, sched):
        self.sched = sched

    def __enter__(self):
        threading.Lock = lambda: CoopLock(self.sched)
        threading.RLock = lambda *a: CoopRLock(self.sched)

    def __exit__(self, *a):
        threading.Lock, threading.RLock = REAL


# exploration ----------------------------------------------------------------
_BODY = _ITEMS = None


def _one(job):
    """Execute one schedule; returns (points, outcome label)."""
    item, prefix = job

    def go():
        points, label = _BODY(_ITEMS[item], prefix)
        if prefix and prefix[-1][0] >= len(points):
            raise RuntimeError("schedule does not replay")
        return points, label
    old = engine.STEP_TIMEOUT
    engine.STEP_TIMEOUT = 100.0
    try:
        return engine.protect(go)
    finally:
        engine.STEP_TIMEOUT = old


def children(prefix, points, bound):
    """Schedules that deviate once more, after the last deviation of this
    one.  A schedule is the list of its deviations (point, choice) from
    `keep running; else the first enabled thread`."""
    cost = sum(1 for k, _ in prefix if points[k][2])
    start = prefix[-1][0] + 1 if prefix else 0
    out = []
    for i in range(start, len(points)):
        n, _, run = points[i]
        if cost + (1 if run else 0) <= bound:
            for alt in range(1, n):
                out.append(prefix + ((i, alt),))
    return out


def explore(body, items, bound, max_seconds=None, chunk=8,
            init=engine.worker_init):
    """All schedules of every item.  body(item, prefix) executes one and
    returns (points, label) or raises Violation."""
    global _BODY, _ITEMS
    _BODY, _ITEMS = body, list(items)
    res = engine.Result()
    t0 = time.time()
    res.extra = dict(preemption_bound=bound, programs=0, schedules=0)
    frontier = [(k, ()) for k in range(len(_ITEMS))]
    res.extra["programs"] = len(frontier)
    labels = {}
    gen = 0
    while frontier:
        nxt = []
        for job, got in engine.pmap(_one, frontier, chunk, init):
            out, err = (None, engine.CRASHED) if got is engine.Crash else got
            res.replayed += 1
            res.extra["schedules"] += 1
            if err:
                res.violation = ((_ITEMS[job[0]], job[1]), err)
                res.states = res.extra["schedules"]
                return res
            points, label = out
            res.transitions += len(points) - (
                job[1][-1][0] if job[1] else 0)
            labels[label] = labels.get(label, 0) + 1
            for ch in children(job[1], points, bound):
                nxt.append((job[0], ch))
            if max_seconds and time.time() - t0 > max_seconds:
                res.capped = "time cap %ds at deviation level %d" % (
                    max_seconds, gen)
                res.states = res.extra["schedules"]
                return res
        gen += 1
        frontier = nxt
        if nxt:
            res.samples = [(_ITEMS[k], d) for k, d in (nxt[0], nxt[-1])]
    res.states = res.extra["schedules"]
    res.outcomes = {"distinct outcomes": len(labels)}
    res.closed = True
    return res
