"""Systems with filtered views on the tree (C05, C06, C08, C14 ...)."""
import functools

from engine import canon
from lib import Tree, N, IDS, is_circular
import filters
from oracle import need, read_graph, check_view, check_mirror, \
    check_rows, check_nav, Mirror
from sys_tree import MERGE

ALL = ((), ("red",), ("leaf",), ("flatred",), ("below",), ("notred",),
       ("red", "leaf"), ("child",), ("redleaf",), ("flatall",),
       ("flatbelow",), ("notleaf",), ("notleaf", "below"),
       ("top",), ("nottop",), ("nottop", "below"))
CORE = ((), ("red",), ("leaf",), ("flatred",), ("below",), ("child",),
        ("redleaf",))

VMERGE = dict(MERGE, skip=("cache_paths",))


class World:
    pass


def subtree(tree, nid):
    """Row data as rich as it gets: everything about the node and below."""
    node = tree.get_node(nid)
    return (nid, node.red,
            tuple(sorted(subtree(tree, c) for c in node.get_children())))


class ViewSys:
    """Editing operations on n ids with a set of views, each fixed to its
    filters from the start and watched by a mirror."""

    def __init__(self, n, views=ALL, pending=False, decl=False,
                 judge=("view",), flags=False):
        self.ids = IDS[:n]
        self.views = views
        self.pending = pending
        self.decl = decl
        self.judge = judge
        self.flags = flags

    def fresh(self):
        w = World()
        t = w.tree = Tree()
        w.table = filters.install(t)
        if "nav" in self.judge:
            t.get_main_view().get_n_nodes()     # it may create a helper
        w.views = []
        value = None
        if "rows" in self.judge:
            value = w.value = functools.partial(subtree, t)
        for names in self.views:
            v = t.get_viewtree(refresh=not names)
            for f in names:
                v.apply_filter(f)
            w.views.append((names, v, Mirror(
                v, value=value, reads="reads" in self.judge)))
        return w

    def ops(self, w):
        t = w.tree
        here = [i for i in self.ids if t.has_node(i)]
        away = [i for i in self.ids if not t.has_node(i)]
        for i in away:
            yield ("add", i, None)
            for j in self.ids:
                if j in here or (self.pending and j != i):
                    yield ("add", i, j)
            if self.decl:
                for j in self.ids:
                    if j != i:
                        yield ("decl", i, (), (j,))
                        for k in self.ids:
                            if k != i and k != j:
                                yield ("decl", i, (j,), (k,))
                                if k > j:
                                    yield ("decl", i, (j, k), ())
                                    yield ("decl", i, (), (j, k))
        for i in here:
            yield ("col", i)
            yield ("del", i)
            yield ("delr", i)
            yield ("move", i, None)
            yield ("refresh", i)
            node = t.get_node(i)
            if self.flags:
                yield ("kids", i, not node.has_children_enabled())
                yield ("pars", i, not node.has_parents_enabled())
            for j in self.ids:
                if j == i:
                    continue
                if j in here or self.pending:
                    yield ("move", i, j)
                    yield ("addp", i, j)
                    yield ("addc", i, j)
                if node.has_parent(j):
                    yield ("remp", i, j)
        if len(here) > 1:
            yield ("refall",)

    def run(self, w, op):
        t = w.tree
        k = op[0]
        try:
            if k == "add":
                t.add_node(N(op[1]), op[2])
            elif k == "addr":
                t.add_node(N(op[1], True), op[2])
            elif k == "decl":
                node = N(op[1])
                for p in op[2]:
                    node.add_parent(p)
                for c in op[3]:
                    node.add_child(c)
                t.add_node(node)
            elif k == "col":
                node = t.get_node(op[1])
                node.red = not node.red
                node.modified()
            elif k == "del":
                t.del_node(op[1])
            elif k == "delr":
                t.del_node(op[1], recursive=True)
            elif k == "move":
                t.move_node(op[1], op[2])
            elif k == "addp":
                t.add_parent(op[1], op[2])
            elif k == "addc":
                t.get_node(op[1]).add_child(op[2])
            elif k == "remp":
                t.get_node(op[1]).remove_parent(op[2])
            elif k == "kids":
                t.get_node(op[1]).set_children_enabled(op[2])
            elif k == "pars":
                t.get_node(op[1]).set_parents_enabled(op[2])
            elif k == "refresh":
                t.refresh_node(op[1])
            elif k == "refall":
                t.refresh_all()
            else:
                need(False, "unknown op", op)
        except Exception as e:
            if not is_circular(e):
                raise
            return "refused"
        return k

    def step(self, w, op):
        for _, _, m in w.views:
            del m.log[:]
        out = self.run(w, op)
        self.check(w, op)
        return out

    def check(self, w, op=None):
        graph = read_graph(w.tree)
        for names, v, m in w.views:
            try:
                if "view" in self.judge:
                    preds, flat = filters.spec(w.table, names)
                    check_view(w.tree, v, preds, flat, graph)
                if "nav" in self.judge:
                    check_nav(v, self.ids)
                if "mirror" in self.judge or "reads" in self.judge:
                    check_mirror(v, m)
                if "rows" in self.judge:
                    check_rows(v, m, w.value)
            except Exception as e:
                raise type(e)("view with filters %r: %s" % (list(names), e))
        if "nav" in self.judge:
            check_nav(w.tree.get_main_view(), self.ids)

    def key(self, w):
        rows = [sorted(m.rows.items()) for _, _, m in w.views]
        return canon(w.tree, [v for _, v, _ in w.views], rows, **VMERGE)
