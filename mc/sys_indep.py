"""Several views and counts of one tree (C19)."""
from engine import canon
from lib import Tree
from oracle import need, check_view, check_mirror, read_graph, Mirror
import filters
from sys_view import ViewSys, World, VMERGE


class Boom:
    """A filter registered under a name that is taken must not be used."""
    def __call__(self, node, parameters=None):
        raise AssertionError("a filter that was refused is used")


class IndepSys(ViewSys):
    """Views "x", "y" and an anonymous one, a count "x"; filters are applied
    to each on its own.  Views "z" and an anonymous one may come later."""

    def __init__(self, n, names=("red", "leaf"), late=True, edits="all"):
        ViewSys.__init__(self, n, ())
        self.names = names
        self.late = late
        self.edits = edits

    def fresh(self):
        w = World()
        t = w.tree = Tree()
        w.table = filters.install(t)
        w.filters = sorted(w.table)
        w.views = {}
        w.applied = {}
        w.mirror = {}
        for k, name in (("x", "x"), ("y", "y"), ("anon", None)):
            self.make(w, k, t.get_viewtree(name=name))
        w.count = t.get_viewcount(name="x")
        # counts nobody touches again
        w.still = [(t.get_viewcount(), ()), (t.get_viewcount(), ("red",)),
                   (t.get_viewcount(name="y"), ("notred",)),
                   (t.get_viewcount(refresh=False), ("red",))]
        for k, (c, names) in enumerate(w.still):
            for f in names:
                c.apply_filter(f)
            need(all(c is not d for d, _ in w.still[:k]) and
                 c is not w.count, "two counts are the same object")
        w.applied["count"] = []
        w.err = None
        return w

    def make(self, w, key, view, names=()):
        for v in w.views.values():
            need(v is not view, "two views are the same object")
        need(view is not w.tree.get_main_view(), "a view is the main view")
        w.views[key] = view
        w.applied[key] = []
        for f in names:
            view.apply_filter(f)
            w.applied[key].append(f)
        w.mirror[key] = Mirror(view)

    def ops(self, w):
        for op in ViewSys.ops(self, w):
            if op[0] in ("add", "col", "del") or (
                    self.edits == "all" and op[0] in ("addp", "remp")):
                yield op
        for k in w.applied:
            for f in self.names:
                if k == "count" and f not in ("red", "notred"):
                    continue
                yield ("apply" if f not in w.applied[k] else "unapply", k, f)
            if k != "count" and len(w.applied[k]) > 1:
                yield ("reset", k)
        if self.late and len(w.views) == 3:
            yield ("new", "z", ())
            yield ("new", "z", (self.names[0],))
            yield ("new", "anon2", (self.names[1],))
        yield ("bank",)

    def run(self, w, op):
        for m in w.mirror.values():
            del m.log[:]
        k = op[0]
        t = w.tree
        if k in ("apply", "unapply"):
            x = w.count if op[1] == "count" else w.views[op[1]]
            if k == "apply":
                x.apply_filter(op[2])
                w.applied[op[1]].append(op[2])
            else:
                x.unapply_filter(op[2])
                w.applied[op[1]].remove(op[2])
        elif k == "reset":
            w.views[op[1]].reset_filters()
            w.applied[op[1]] = []
        elif k == "new":
            self.make(w, op[1], t.get_viewtree(
                name=op[1] if op[1] == "z" else None, refresh=not op[2]),
                op[2])
        elif k == "bank":
            pass
        else:
            k = ViewSys.run(self, w, op)
        return k

    def step(self, w, op):
        out = self.run(w, op)
        if op[0] in ("apply", "unapply", "reset", "new"):
            for k, m in w.mirror.items():
                if k != op[1]:
                    need(not m.log, op, "made view", k, "announce", m.log)
        if op[0] == "bank":
            t = w.tree
            for f in w.filters:
                need(t.add_filter(f, Boom()) is False,
                     "a filter was registered twice")
            need(t.remove_filter("no such filter") is False,
                 "a filter that is not there was removed")
            need(t.add_filter("new one", Boom()) is True, "add_filter")
            need(sorted(t.list_filters()) == sorted(
                w.filters + ["new one"]), "list_filters", t.list_filters())
            need(t.remove_filter("new one") is True, "remove_filter")
            need(sorted(t.list_filters()) == w.filters, "list_filters")
        self.check(w, op)
        return out

    def check(self, w, op=None):
        t = w.tree
        graph = read_graph(t)
        for k, v in w.views.items():
            try:
                preds, flat = filters.spec(w.table, w.applied[k])
                check_view(t, v, preds, flat, graph)
                check_mirror(v, w.mirror[k])
                need(v.list_applied_filters() == w.applied[k],
                     "list_applied_filters", v.list_applied_filters(),
                     "instead of", w.applied[k])
            except Exception as e:
                raise type(e)("view %s with filters %r: %s" % (
                    k, w.applied[k], e))
            need(v.get_basetree() is t, "get_basetree")
        for k in ("x", "y", "z"):
            if k in w.views:
                need(t.get_viewtree(name=k) is w.views[k],
                     "get_viewtree(%r) returned another view" % k)
        need(t.get_viewtree(name="main") is t.get_main_view(), "main view")
        need(t.get_viewcount(name="x") is w.count,
             "get_viewcount returned another count")
        preds = [w.table[f][0] for f in w.applied["count"]]
        for what, c, preds in [("count x", w.count, preds)] + [
                ("another count with filters %r" % (names,), c,
                 [w.table[f][0] for f in names]) for c, names in w.still]:
            n = sum(1 for i in graph[0] if all(
                p(t.get_node(i)) for p in preds))
            need(c.get_n_nodes() == n, what, "is", c.get_n_nodes(),
                 "instead of", n)
        need(sorted(t.get_main_view().get_all_nodes()) == sorted(graph[0]),
             "main view")

    def key(self, w):
        return canon(w.tree, w.views, w.count, w.still, w.applied, **VMERGE)
