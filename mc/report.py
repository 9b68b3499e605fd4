"""Runs the parts of one check, writes evidence, reports violations."""
import json
import os
import re
import sys
import time

import engine
from engine import jsonable, tuplify

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))


class Found(Exception):
    pass


class Run:
    """One run of one check.  In replay mode only the recorded history of the
    recorded part is executed."""

    def __init__(self, prop, tier, replay=None):
        self.prop = prop
        self.tier = tier
        self.replay = replay
        self.quick = tier == "quick"
        self.parts = []
        self.assume = []
        self.t0 = time.time()
        # no part may use up the time of the others (a change of the code
        # could make one much larger)
        self.limit = 720 if self.quick else 6 * 3600
        self.violation = None

    def say(self, *a):
        print(*a, file=sys.__stdout__, flush=True)

    def left(self):
        left = self.limit - (time.time() - self.t0)
        return max(2, min(left, 300) if self.quick else left)

    # parts -----------------------------------------------------------------
    def bfs(self, part, system, depth=None, starts=((),), seconds=None, **kw):
        if self.replay:
            if self.replay["part"] == part:
                self._replay_history(system, kw.get("init"))
            return
        res = engine.bfs(system, depth, min(seconds or 1e9, self.left()),
                         starts, **kw)
        self._done(part, "all operation sequences", res, depth)

    def cases(self, part, fn, items, seconds=None, **kw):
        if self.replay:
            if self.replay["part"] == part:
                self._replay_case(fn, kw.get("init"))
            return
        res = engine.cases(fn, items, max_seconds=min(seconds or 1e9,
                                                      self.left()), **kw)
        self._done(part, "all cases of the enumeration", res, None)

    def known(self):
        """Histories of this property listed as known findings."""
        out = {}
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) case=(\[.*?\]) (.*)", line)
                if m and m.group(1) == self.prop:
                    out[tuplify(json.loads(m.group(2)))] = m.group(3)
        return out

    def findings(self, part, fn, items):
        """Like cases, for an enumeration with known findings."""
        known = self.known()

        def judged(item):
            try:
                return fn(item)
            except engine.Violation:
                if item in known:
                    return "known finding", 1
                raise
        if self.replay:
            if self.replay["part"] == part:
                self._replay_case(fn, None)
            return
        items = list(items)
        res = engine.cases(judged, items, chunk=1)
        if not res.violation:
            for item in items:
                if item in known and engine.protect(lambda: fn(item))[1]:
                    self.say("KNOWN-FINDING: property=%s %s %s" % (
                        self.prop, json.dumps(item), known[item]))
        self._done(part, "all cases of the enumeration", res, None)

    def add(self, part, kind, res, bound=None):
        """A part explored by other machinery (the schedule explorer)."""
        self._done(part, kind, res, bound)

    def _done(self, part, kind, res, depth):
        entry = dict(
            part=part, explored=kind, states=res.states,
            transitions=res.transitions, executions=res.replayed,
            bound=("none: every history of any length (closed at depth %d)"
                   % res.depth if res.closed and kind.startswith("all op")
                   else "complete" if res.closed
                   else "depth %s" % res.depth),
            outcomes=res.outcomes)
        entry.update(getattr(res, "extra", {}))
        if res.capped:
            entry["capped"] = res.capped
        entry["samples"] = jsonable(res.samples[:2])
        entry["exhausted"] = not res.capped and (
            res.closed or res.depth == depth)
        self.parts.append(entry)
        self.say("%s %-34s states=%d transitions=%d %s %.1fs" % (
            self.prop, part, res.states, res.transitions,
            entry.get("capped") or entry["bound"], time.time() - self.t0))
        if res.violation:
            hist, msg = res.violation
            os.makedirs(EVID, exist_ok=True)
            path = os.path.join(EVID, "replay-%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, tier=self.tier, part=part,
                               history=jsonable(hist), message=msg,
                               rerun="bash run.sh replay " + path), f,
                          indent=1)
            self.violation = (part, hist, msg, path)
            raise Found()

    # replay ----------------------------------------------------------------
    def _replay_history(self, system, init):
        (init or engine.worker_init)()
        hist = tuplify(self.replay["history"])
        w = system.fresh()
        for k, op in enumerate(hist):
            out, err = engine.protect(lambda: system.step(w, op))
            self.say("%3d %-40s %s" % (k, op, err or out))
            if err:
                self.violation = ("", hist, err, "")
                raise Found()

    def _replay_case(self, fn, init):
        (init or engine.worker_init)()
        item = tuplify(self.replay["history"])
        out, err = engine.protect(lambda: fn(item))
        self.say(item, "\n", err or out)
        if err:
            self.violation = ("", item, err, "")
            raise Found()

    # end -------------------------------------------------------------------
    def finish(self, level):
        ev = dict(
            property=self.prop, tier=self.tier,
            seed=int(os.environ.get("VERIF_SEED", "0") or 0), level=level,
            coverage=dict(
                states=sum(p["states"] for p in self.parts),
                transitions=sum(p["transitions"] for p in self.parts),
                traces_validated_against_impl=sum(
                    p["executions"] for p in self.parts),
                exhaustive=all(p["exhausted"] for p in self.parts)
                and not self.violation,
                samples=[s for p in self.parts for s in p["samples"]][:8],
                explanation="The explored transition system is the real "
                "code: every transition is one or more calls of liblarch "
                "from /repo's working tree; traces_validated_against_impl "
                "counts the histories/cases/schedules executed from a fresh "
                "world.  Nothing is random; VERIF_SEED is not used.",
                parts=self.parts),
            assumptions=self.assume,
            wall_s=round(time.time() - self.t0, 2),
            violations=1 if self.violation else 0)
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, "%s.json" % self.prop)
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
