"""Observers (C15) and the notifications of the main view (C16)."""
from engine import canon
from lib import Tree
from oracle import need, read_graph
import filters
from sys_view import ViewSys, World, VMERGE

EVENTS = {"view": ("node-added-inview", "node-deleted-inview",
                   "node-modified-inview"),
          "main": ("node-added", "node-deleted", "node-modified")}


class Obs:
    """One observer: what it is told, and what it does when told."""
    def __init__(self, w, view, event, kind="plain", arg=None):
        self.w = w
        self.view = view
        self.event = event
        self.kind = kind
        self.arg = arg
        self.log = []
        self.key = None
        self.on = False

    def _mc_canon(self):
        return (self.event, self.kind, self.on, self.key)

    def register(self):
        self.key = self.view.register_cllbck(self.event, self)
        self.on = True

    def drop(self):
        self.view.deregister_cllbck(self.event, self.key)
        self.on = False

    def __call__(self, *a):
        # a drop or a registration takes effect with the next notification
        self.w.seq += 1
        self.log.append(a)
        if self.kind == "once":
            self.drop()
        elif self.kind == "kill":
            o = self.w.slots.get(self.arg)
            if o is not None and o.on and o is not self:
                o.drop()
                o.note = len(self.w.ref[o.event].log)
        elif self.kind == "spawn":
            if self.arg not in self.w.slots:
                o = Obs(self.w, self.view, self.event)
                self.w.slots[self.arg] = o
                o.start = len(self.w.ref[self.event].log)
                o.spawned = True
                o.register()


class ObsSys(ViewSys):
    """Edits of 2 ids; up to `most` observers next to a reference observer
    registered before and one registered after them."""

    def __init__(self, n, which, most=2, kinds=("plain", "once", "kill",
                                                "spawn"), events=None,
                 view=("red",)):
        ViewSys.__init__(self, n, (view,))
        self.which = which
        self.most = most
        self.kinds = kinds
        self.events = events or EVENTS[which]

    def fresh(self):
        w = World()
        t = w.tree = Tree()
        w.table = filters.install(t)
        if self.which == "main":
            v = t.get_main_view()
        else:
            v = t.get_viewtree(refresh=False)
            for f in self.views[0]:
                v.apply_filter(f)
        w.view = v
        w.seq = 0
        w.slots = {}
        w.ref = {}
        for e in self.events:
            w.ref[e] = Obs(w, v, e)
            w.ref[e].register()
        return w

    def ops(self, w):
        for op in ViewSys.ops(self, w):
            if op[0] in ("add", "del", "col", "move"):
                yield op
        for s in range(self.most):
            if s not in w.slots:
                for e in self.events:
                    for k in self.kinds:
                        for a in range(self.most) if k in (
                                "kill", "spawn") else (None,):
                            if a != s:
                                yield ("reg", s, e, k, a)
            else:
                yield ("dereg", s)
        yield ("junk",)

    def run(self, w, op):
        for r in w.ref.values():
            del r.log[:]
        for o in w.slots.values():
            del o.log[:]
        before = {s: o.on for s, o in w.slots.items()}
        k = op[0]
        w.err = None
        if k == "reg":
            o = w.slots[op[1]] = Obs(w, w.view, op[2], op[3], op[4])
            o.register()
            before[op[1]] = False
        elif k == "dereg":
            o = w.slots.pop(op[1])
            if o.on:
                o.drop()
        elif k == "junk":
            w.view.deregister_cllbck("node-added-inview", 77)
            w.view.deregister_cllbck("no such event", 0)
        else:
            k = ViewSys.run(self, w, op)
        # a last observer, registered for this operation's judgement only,
        # would change the keys; the second reference is the first one
        for s, o in w.slots.items():
            ref = w.ref[o.event].log
            if k in ("reg", "dereg", "junk"):
                if o.log:
                    w.err = "observer %r called by %r" % (s, op)
                continue
            if before.get(s):
                if o.on:
                    good = o.log == ref
                elif o.kind == "once" and o.log:
                    good = o.log == ref[:1]
                else:       # dropped by another one: all up to that moment
                    n = getattr(o, "note", None)
                    if o.kind == "once" and n is None:
                        good = False
                    else:
                        good = o.log in (ref[:n], ref[:n - 1])
            elif getattr(o, "spawned", False) and s not in before:
                good = o.log in (ref[o.start:], ref[o.start - 1:])
                if not o.on:
                    n = o.note
                    good = o.log in [ref[i:j] for i in (o.start, o.start - 1)
                                     for j in (n, n - 1)] or not o.log
            else:
                good = not o.log
            if not good:
                w.err = w.err or "observer %r (%s of %s) was told %r, the " \
                    "first observer %r" % (s, o.kind, o.event, o.log, ref)
        # identities of observers registered for one event differ
        for e in self.events:
            keys = [o.key for o in list(w.slots.values()) + [w.ref[e]]
                    if o.on and o.event == e]
            if len(set(keys)) != len(keys):
                w.err = w.err or "two observers share the key"
        return k

    def step(self, w, op):
        out = self.run(w, op)
        self.check(w, op)
        return out

    def check(self, w, op=None):
        need(not getattr(w, "err", None), getattr(w, "err", None))

    def key(self, w):
        return canon(w.tree, w.view, sorted(
            (s, o._mc_canon()) for s, o in w.slots.items()), **VMERGE)


class MainSys(ViewSys):
    """Notifications of the main view."""

    def __init__(self, n, **kw):
        ViewSys.__init__(self, n, ((),), **kw)

    def fresh(self):
        w = World()
        t = w.tree = Tree()
        w.nodes = set()
        w.log = []
        w.err = None
        v = t.get_main_view()

        def added(nid, path):
            w.log.append(("+", nid))
            if nid in w.nodes or not t.has_node(nid):
                w.err = w.err or "%r announced as added" % nid
            w.nodes.add(nid)

        def deleted(nid, path):
            w.log.append(("-", nid))
            if nid not in w.nodes or t.has_node(nid):
                w.err = w.err or "%r announced as deleted" % nid
            w.nodes.discard(nid)

        def modified(nid, path):
            w.log.append(("~", nid))
            if not t.has_node(nid) or nid not in w.nodes:
                w.err = w.err or "%r announced as modified" % nid
        v.register_cllbck("node-added", added)
        v.register_cllbck("node-deleted", deleted)
        v.register_cllbck("node-modified", modified)
        return w

    def ops(self, w):
        for op in ViewSys.ops(self, w):
            yield op
        for i in self.ids:
            if not w.tree.has_node(i):
                yield ("norefresh", i)
        yield ("norefresh", None)

    def run(self, w, op):
        if op[0] == "norefresh":
            if op[1] is None:
                w.tree.get_node(None).modified()
            else:
                w.tree.refresh_node(op[1])
            need(not w.log, "there is no such node, announced:", w.log)
            return op[0]
        return ViewSys.run(self, w, op)

    def rels(self, w):
        nodes, par, kid, root = read_graph(w.tree)
        return {i: (set(par[i]), set(kid[i])) for i in nodes}

    def step(self, w, op):
        del w.log[:]
        before = self.rels(w)
        out = self.run(w, op)
        after = self.rels(w)
        need(not w.err, w.err, w.log)
        need(w.nodes == set(after), "announced nodes", sorted(w.nodes),
             "nodes", sorted(after))
        plus = [n for e, n in w.log if e == "+"]
        need(sorted(plus) == sorted(set(after) - set(before)),
             "announced as added:", plus)
        minus = [n for e, n in w.log if e == "-"]
        need(sorted(minus) == sorted(set(before) - set(after)),
             "announced as deleted:", minus)
        mod = {n for e, n in w.log if e == "~"}
        for i in set(before) & set(after):
            p = before[i][0] ^ after[i][0]
            c = before[i][1] ^ after[i][1]
            # a change because of an added node is announced by that node
            if (p | c) - set(plus):
                need(i in mod, "relations of", i, "changed, it was not "
                     "announced as modified", w.log)
        if op[0] in ("col", "refresh"):
            need(w.log == [("~", op[1])], "modified", op[1], "announced as",
                 w.log)
        if op[0] == "refall":
            need(sorted(w.log) == sorted(("~", i) for i in after),
                 "refresh_all announced", w.log)
        if out == "refused":
            need(not mod - {op[1]} or before != after,
                 "a refused operation announced", w.log)
        return out

    def check(self, w, op=None):
        need(not w.err, w.err)

    def key(self, w):
        return canon(w.tree, sorted(w.nodes), **VMERGE)
