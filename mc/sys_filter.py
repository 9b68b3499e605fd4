"""Filter management on one view (C07)."""
from engine import canon
from lib import Tree, N, IDS, is_circular
from oracle import need, read_graph, check_view, check_mirror, Mirror
from sys_view import VMERGE
import filters


class World:
    pass


class Par:
    """red == parameters['want'] (default: red)"""
    def __call__(self, node, parameters=None):
        want = True
        if parameters and "want" in parameters:
            want = parameters["want"]
        return node.red == want


PARAMS = {"p1": {"want": False}, "p2": {"want": True, "flat": True},
          "p3": {"want": True, "negate": True}, "p4": {"want": True}}


class FilterSys:
    """A view whose filters change while the tree does.

    The driver keeps the list of filters the view should have, the parameters
    last given to the parametrised filter and the filters registered in the
    bank.  `lazy`: include the refresh=False variants; while such a change is
    outstanding only the notification stream is judged."""

    def __init__(self, n, names=("red", "leaf", "flatred"), params=True,
                 bank=False, lazy=True, edits=True, adds=True):
        self.ids = IDS[:n]
        self.names = names
        self.params = params
        self.bank = bank
        self.lazy = lazy
        self.edits = edits
        self.adds = adds

    def fresh(self):
        w = World()
        t = w.tree = Tree()
        w.table = filters.install(t)
        t.add_filter("par", Par())
        w.par = {}
        w.view = t.get_viewtree()
        w.mirror = Mirror(w.view)
        w.applied = []
        w.dirty = False
        w.gone = set()
        return w

    def ops(self, w):
        t = w.tree
        for f in self.names:
            for refresh in (True, False) if self.lazy else (True,):
                yield ("apply", f, refresh)
                yield ("unapply", f, refresh)
            yield ("only", f)
            if self.bank:
                yield ("regdel", f) if f not in w.gone else ("reg", f)
        if self.params:
            for p in sorted(PARAMS):
                yield ("param", p, True)
                if self.lazy:
                    yield ("param", p, False)
            yield ("unapply", "par", True)
        for refresh in (True, False) if self.lazy else (True,):
            yield ("reset", refresh)
        here = [i for i in self.ids if t.has_node(i)]
        if self.edits:
            for i in here:
                yield ("col", i)
        if self.adds:
            for i in self.ids:
                if i in here:
                    yield ("del", i)
                    yield ("move", i, None)
                    for j in here:
                        if j != i:
                            yield ("move", i, j)
                            yield ("addp", i, j)
                else:
                    yield ("add", i, None)
                    for j in here:
                        yield ("add", i, j)

    def run(self, w, op):
        t, v = w.tree, w.view
        k = op[0]
        refreshed = None
        try:
            if k == "add" or k == "addr":
                t.add_node(N(op[1], k == "addr"), op[2])
            elif k == "del":
                t.del_node(op[1])
            elif k == "move":
                t.move_node(op[1], op[2])
            elif k == "addp":
                t.add_parent(op[1], op[2])
            elif k == "col":
                node = t.get_node(op[1])
                node.red = not node.red
                node.modified()
            elif k == "apply":
                v.apply_filter(op[1], refresh=op[2])
                if op[1] not in w.applied:
                    w.applied.append(op[1])
                    refreshed = op[2]
            elif k == "only":
                v.apply_filter(op[1], reset=True)
                refreshed = True
                w.applied = [op[1]]
            elif k == "param":
                w.par = PARAMS[op[1]]
                v.apply_filter("par", parameters=PARAMS[op[1]],
                               refresh=op[2])
                if "par" not in w.applied:
                    w.applied.append("par")
                refreshed = op[2]
            elif k == "unapply":
                v.unapply_filter(op[1], refresh=op[2])
                if op[1] in w.applied:
                    w.applied.remove(op[1])
                    refreshed = op[2]
            elif k == "reset":
                v.reset_filters(refresh=op[1])
                w.applied = []
                refreshed = op[1]
            elif k == "regdel":
                need(t.remove_filter(op[1]) is True, "remove_filter", op[1])
                w.gone.add(op[1])
                if op[1] in w.applied:
                    refreshed = False
            elif k == "reg":
                f, flat = w.table[op[1]]
                need(t.add_filter(op[1], f,
                                  {"flat": True} if flat else None) is True,
                     "add_filter", op[1])
                w.gone.discard(op[1])
                if op[1] in w.applied:
                    refreshed = False
        except Exception as e:
            if not is_circular(e):
                raise
            return "refused"
        if refreshed is True:
            w.dirty = False
        elif refreshed is False:
            w.dirty = True
        return k

    def spec(self, w):
        preds, flat = [], False
        for f in w.applied:
            if f in w.gone:
                preds.append(lambda node: False)
            elif f == "par":
                par, p = Par(), w.par
                neg = p.get("negate", False)
                preds.append(lambda n, par=par, p=p, neg=neg:
                             par(n, p) != neg)
                flat = flat or bool(p.get("flat"))
            else:
                pr, fl = w.table[f]
                preds.append(pr)
                flat = flat or fl
        return preds, flat

    def step(self, w, op):
        out = self.run(w, op)
        self.check(w, op)
        return out + (" (outstanding)" if w.dirty else "")

    def check(self, w, op=None):
        v = w.view
        need(sorted(v.list_applied_filters()) == sorted(w.applied),
             "applied filters are", v.list_applied_filters(), "instead of",
             w.applied)
        check_mirror(v, w.mirror)
        if w.dirty:
            return
        preds, flat = self.spec(w)
        graph = read_graph(w.tree)
        shown, _ = check_view(w.tree, v, preds, flat, graph)
        # counting with additional filters
        need(v.get_n_nodes() == len(shown), "get_n_nodes", v.get_n_nodes())
        need(sorted(v.get_nodes()) == sorted(shown), "get_nodes")
        for extra in [[f] for f in self.names] + [list(self.names[:2])]:
            if any(f in w.gone for f in extra):
                continue
            want = sorted(i for i in shown if all(
                w.table[f][0](w.tree.get_node(i)) for f in extra))
            need(sorted(v.get_nodes(withfilters=extra)) == want,
                 "get_nodes with", extra, "gives",
                 v.get_nodes(withfilters=extra), "instead of", want)
            need(v.get_n_nodes(withfilters=extra) == len(want),
                 "get_n_nodes with", extra)

    def key(self, w):
        return canon(w.tree, w.view, sorted(w.applied), sorted(w.par.items()),
                     sorted(w.gone), w.dirty, **VMERGE)
