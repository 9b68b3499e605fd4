"""Actions queued on a view (C13)."""
import gi
gi.require_version("GLib", "2.0")
from gi.repository import GLib  # noqa: E402

from engine import canon  # noqa: E402
from oracle import need, Mirror  # noqa: E402
import filters  # noqa: E402
from lib import Tree  # noqa: E402
from sys_view import ViewSys, World, VMERGE  # noqa: E402

CTX = GLib.MainContext.default()
KINDS = ("plain", "true", "again")


def drain(limit=200):
    k = 0
    while CTX.pending():
        k += 1
        need(k < limit, "the main loop never becomes idle again")
        CTX.iteration(False)


class QueueSys(ViewSys):
    """Edits of the tree and filter changes of one view, while actions wait
    for nodes."""

    def __init__(self, n, view, ids=None, most=2, kinds=KINDS,
                 toggle=(), **kw):
        ViewSys.__init__(self, n, (view,), **kw)
        if ids:
            self.ids = ids
        self.most = most
        self.kinds = kinds
        self.toggle = toggle

    def fresh(self):
        drain()
        w = World()
        t = w.tree = Tree()
        w.table = filters.install(t)
        names = self.views[0]
        v = w.view = t.get_viewtree(refresh=not names)
        for f in names:
            v.apply_filter(f)
        w.mirror = Mirror(v)
        w.wait = []         # (node, kind): not displayed when queued
        w.idle = []         # (node, kind): was displayed when queued
        w.ran = []
        w.bad = None
        w.looping = False
        return w

    def ops(self, w):
        for op in ViewSys.ops(self, w):
            if op[0] not in ("refall", "refresh", "addp"):
                yield op
        for i in self.ids:
            if sum(1 for x in w.wait + w.idle if x[0] == i) < self.most:
                for k in self.kinds:
                    if (i, k) not in w.wait + w.idle:
                        yield ("queue", i, k)
        if w.idle:
            yield ("loop",)
        for f in self.toggle:
            yield ("unapply" if f in w.view.list_applied_filters()
                   else "apply", f)

    def queue(self, w, i, k):
        # which list it joins is decided by what the view says now
        (w.idle if w.view.is_displayed(i) else w.wait).append((i, k))
        w.view.queue_action(i, Action(self, w, i, k), (i, k))

    def run(self, w, op):
        k = op[0]
        if k == "queue":
            self.queue(w, op[1], op[2])
        elif k == "loop":
            w.looping = True
            drain()
        elif k == "apply":
            w.view.apply_filter(op[1])
        elif k == "unapply":
            w.view.unapply_filter(op[1])
        else:
            k = ViewSys.run(self, w, op)
        w.looping = False
        shown = {n for e, n, _ in w.mirror.log if e == "+"}
        del w.mirror.log[:]
        for x, looping in w.ran:
            if not looping and x in w.wait and x[0] in shown:
                w.wait.remove(x)
            elif looping and x in w.idle:
                w.idle.remove(x)
            else:
                w.bad = w.bad or "action %r ran at a wrong time or once " \
                    "too often" % (x,)
        del w.ran[:]
        for x in w.wait:
            if x[0] in shown:
                w.bad = w.bad or "%r appeared but action %r did not run" % x
        if op[0] == "loop" and w.idle:
            w.bad = w.bad or "actions %r of displayed nodes did not run" % (
                w.idle,)
        return k

    def step(self, w, op):
        out = self.run(w, op)
        self.check(w, op)
        return out

    def check(self, w, op=None):
        need(not w.bad, w.bad)

    def key(self, w):
        return canon(w.tree, w.view, w.wait, w.idle, **VMERGE)


class Action:
    def __init__(self, system, w, i, k):
        self.s, self.w, self.i, self.k = system, w, i, k

    def _mc_canon(self):
        return (self.i, self.k)

    def __call__(self, param):
        w = self.w
        if param != (self.i, self.k):
            w.bad = "action %r got the parameter %r" % (
                (self.i, self.k), param)
        w.ran.append((param, w.looping))
        if not w.view.is_displayed(self.i) and not w.looping:
            w.bad = "action %r ran before its node was displayed" % (param,)
        for p in w.view.get_paths_for_node(self.i):     # it may look around
            w.view.get_node_for_path(p)
        if self.k == "again":
            self.s.queue(w, self.i, "plain2")
        return self.k == "true"
