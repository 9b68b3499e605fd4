"""What a query returns belongs to the caller (C23)."""
from lib import N, is_circular
import filters
from oracle import need, read_graph, check_view, check_mirror, \
    check_wellformed
from sys_view import ViewSys

JUNK = "junk"


def spoil(x):
    """Change a result in every way its type allows."""
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x.clear()
        x[JUNK] = JUNK
    elif isinstance(x, (set, bytearray)):
        x.clear()
    elif isinstance(x, list):
        for v in list(x):
            if not isinstance(v, str):
                spoil(v)
        del x[:]
        x.append(JUNK)
    elif isinstance(x, tuple):
        for v in x:
            if not isinstance(v, str):
                spoil(v)


def copy(x):
    if isinstance(x, (list, tuple)):
        return [copy(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(x, key=repr)
    if isinstance(x, dict):
        return sorted((repr(k), copy(v)) for k, v in x.items())
    return x


class AliasSys(ViewSys):
    """Edits; after each of them everything that can be asked is asked, the
    answers are overwritten, and everything is asked again."""

    def fresh(self):
        w = ViewSys.fresh(self)
        w.tree.get_main_view().get_n_nodes()
        w.count = w.tree.get_viewcount()
        return w

    def questions(self, w):
        t = w.tree
        main = t.get_main_view()
        out = [("list_filters", t.list_filters)]

        def ask(name, fn, *a, **k):
            out.append((name + repr(a) + (repr(k) if k else ""),
                        lambda: fn(*a, **k)))
        here = [i for i in self.ids if t.has_node(i)]
        for k, v in enumerate([main] + [v for _, v, _ in w.views]):
            n = "main" if v is main else "view%d" % k
            for q in ("get_all_nodes", "get_nodes", "get_n_nodes",
                      "node_all_children", "node_n_children",
                      "get_paths_for_node"):
                ask("%s.%s" % (n, q), getattr(v, q))
            if v is not main:
                ask(n + ".list_applied_filters", v.list_applied_filters)
            for f in (["red"], ["leaf"], ["red", "leaf"]):
                ask(n + ".get_nodes", lambda f, v=v: v.get_nodes(
                    withfilters=list(f)), f)
            for i in here:
                if v.is_displayed(i):
                    for q in ("get_paths_for_node", "node_all_children",
                              "node_parents", "next_node"):
                        ask("%s.%s" % (n, q), getattr(v, q), i)
        for i in here + [None]:
            node = t.get_node(i)
            for q in ("get_parents", "get_children"):
                ask("node.%s of %s" % (q, i), getattr(node, q))
        return out

    def abuse(self, w):
        """Ask everything, overwrite the answers; returns what they were."""
        asked = [(n, q()) for n, q in self.questions(w)]
        before = [(n, copy(r)) for n, r in asked]
        for n, r in asked:
            spoil(r)
        for _, v, _ in w.views:
            with_ = ["red", "leaf"]
            v.get_nodes(withfilters=with_)
            need(with_ == ["red", "leaf"], "get_nodes changed its argument")
        return before

    def run(self, w, op):
        out = ViewSys.run(self, w, op)
        w.answers = self.abuse(w)
        return out

    def check(self, w, op=None):
        before = getattr(w, "answers", None)
        if before is not None:
            now = [(n, copy(q())) for n, q in self.questions(w)]
            need([n for n, _ in before] == [n for n, _ in now],
                 "overwriting answers changed what the tree contains")
            for (n, a), (_, b) in zip(before, now):
                need(a == b, n, "was", a, "and is", b, "after the caller "
                     "changed lists it was given")
        check_wellformed(w.tree, self.ids)
        graph = read_graph(w.tree)
        for names, v, m in w.views:
            preds, flat = filters.spec(w.table, names)
            check_view(w.tree, v, preds, flat, graph)
            check_mirror(v, m)
