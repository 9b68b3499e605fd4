"""Views and counts created while an observer is notified (C17)."""
from engine import canon
from lib import IDS
import filters
from oracle import need, read_graph, check_view, check_mirror, Mirror
from sys_view import ViewSys, VMERGE

WHERE = ("node-added", "node-deleted", "node-modified", "node-added-inview",
         "node-deleted-inview", "node-modified-inview", "count")
WHAT = ((), ("red",), ("flatred",), ("below",), "count", "query")


class LateSys(ViewSys):
    """Edits; during one of them, at the n-th notification of an
    event, a view or a count is created, or the main view is asked a question
    for which it creates a helper."""

    most = 2        # which notification of an event

    def fresh(self):
        w = ViewSys.fresh(self)
        t = w.tree
        w.arm = None
        w.late = None
        w.seen = {}
        w.count = t.get_viewcount()
        w.newcount = None
        w.num = []
        # the observers come after (and before) those of the views
        for e in WHERE[:3]:
            t.get_main_view().register_cllbck(
                e, lambda n, p, e=e: self.told(w, e))
        for e in WHERE[3:6]:
            w.views[0][1].register_cllbck(
                e, lambda n, p, e=e: self.told(w, e))
        w.count.register_cllbck(lambda: self.told(w, "count"))
        return w

    def told(self, w, e):
        if w.arm is None:
            return
        w.seen[e] = w.seen.get(e, 0) + 1
        if (e, w.seen[e]) != w.arm[:2]:
            return
        what = w.arm[2]
        w.arm = None
        t = w.tree
        w.late = what
        if what == "count":
            w.newcount = t.get_viewcount(name="new")
            w.newcount.register_cllbck(
                lambda: w.num.append(w.newcount.get_n_nodes()))
        elif what == "query":
            t.get_main_view().get_n_nodes()
        else:
            v = t.get_viewtree(refresh=not what)
            for f in what:
                v.apply_filter(f)
            w.views.append((what, v, Mirror(v)))

    def ops(self, w):
        for op in ViewSys.ops(self, w):
            if w.late is not None:
                yield op
            else:
                for e in WHERE:
                    for k in range(1, self.most + 1):
                        for what in WHAT:
                            yield ("late", op, e, k, what)

    def run(self, w, op):
        if op[0] != "late":
            return ViewSys.run(self, w, op)
        w.arm = op[2:5]
        w.seen = {}
        out = ViewSys.run(self, w, op[1])
        if w.arm is not None:
            w.late = "never"
        w.arm = None
        return out if w.late != "never" else "no such notification"

    def check(self, w, op=None):
        t = w.tree
        graph = read_graph(t)
        for names, v, m in w.views:
            preds, flat = filters.spec(w.table, names)
            check_view(t, v, preds, flat, graph)
            check_mirror(v, m)
        for c in (w.count, w.newcount):
            if c is not None:
                need(c.get_n_nodes() == len(graph[0]), "a count is",
                     c.get_n_nodes(), "of", len(graph[0]))
        main = t.get_main_view()
        need(sorted(main.get_nodes()) == sorted(graph[0]), "get_nodes of the "
             "main view gives", main.get_nodes())
        for i in graph[0]:
            need(main.node_n_children(i) == len(graph[2][i]),
                 "node_n_children of", i, "is", main.node_n_children(i))

    def key(self, w):
        return canon(w.tree, [v for _, v, _ in w.views], w.count, w.newcount,
                     w.late, **VMERGE)
