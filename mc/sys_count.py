"""View counts (C09)."""
from engine import canon
from lib import Tree, N, IDS, is_circular
from oracle import need, read_graph
from sys_tree import MERGE


class World:
    pass


class Obs:
    """Keeps the count it read when it was last told about a change."""
    def __init__(self, vc):
        self.vc = vc
        self.seen = vc.get_n_nodes()
        self.calls = 0

    def __call__(self):
        self.calls += 1
        self.seen = self.vc.get_n_nodes()

    def _mc_canon(self):
        return None


class Truthy:
    """Says yes and no the way Python code often does."""
    def __call__(self, node, parameters=None):
        return [node.get_id(), 0] if node.red else None


class Number:
    def __call__(self, node, parameters=None):
        return 2 if not node.red else 0


class Name:
    def __call__(self, node, parameters=None):
        return node.get_id() in ("a", "c")


PRED = {"red": lambda n: n.red, "notred": lambda n: not n.red,
        "truthy": lambda n: n.red, "number": lambda n: not n.red,
        "name": lambda n: n.get_id() in ("a", "c")}


class CountSys:
    """Counts over a changing tree.  variants: how counts are created."""

    def __init__(self, n, names=("red", "truthy", "number", "name"),
                 edits="full", bank=False):
        self.ids = IDS[:n]
        self.names = names
        self.edits = edits
        self.bank = bank

    def fresh(self):
        w = World()
        t = w.tree = Tree()
        t.add_filter("red", lambda node, parameters=None: node.red)
        t.add_filter("notred", lambda node, parameters=None: node.red,
                     {"negate": True})
        t.add_filter("truthy", Truthy())
        t.add_filter("number", Number())
        t.add_filter("name", Name())
        # the count under test, a named one that never gets a filter and one
        # with a fixed filter: they must not influence one another
        w.vc = t.get_viewcount("tested")
        w.plain = t.get_viewcount("plain")
        w.fixed = t.get_viewcount(refresh=False)
        w.fixed.apply_filter("notred")
        w.obs = []
        w.fobs = Obs(w.fixed)
        w.fixed.register_cllbck(w.fobs)
        w.applied = []
        w.stale = False     # a filter in force left or entered the bank
        w.gone = set()
        return w

    def ops(self, w):
        t = w.tree
        here = [i for i in self.ids if t.has_node(i)]
        for f in self.names:
            if f not in w.applied:
                if f not in w.gone:
                    yield ("apply", f)
            else:
                yield ("apply", f)
                yield ("unapply", f)
            if self.bank:
                yield ("reg", f) if f in w.gone else ("regdel", f)
        yield ("apply", "nope")
        yield ("unapply", "nope")
        if len(w.obs) < 2:
            yield ("watch",)
        if w.obs:
            yield ("unwatch", 0)
            yield ("rewatch", 0)
        if len(w.obs) > 1:
            yield ("unwatch", 1)
        for i in here:
            yield ("col", i)
            yield ("touch", i)
            yield ("del", i)
            yield ("delr", i)
            for j in here:
                if i != j:
                    yield ("addp", i, j)
            if self.edits == "full":
                yield ("move", i, None)
        for i in self.ids:
            if i not in here:
                yield ("add", i, None)
                yield ("addr", i, None)
                for j in here:
                    yield ("addr", i, j)

    def run(self, w, op):
        t, vc = w.tree, w.vc
        k = op[0]
        try:
            if k == "add" or k == "addr":
                t.add_node(N(op[1], k == "addr"), op[2])
            elif k == "del":
                t.del_node(op[1])
            elif k == "delr":
                t.del_node(op[1], recursive=True)
            elif k == "move":
                t.move_node(op[1], op[2])
            elif k == "addp":
                t.add_parent(op[1], op[2])
            elif k == "col":
                node = t.get_node(op[1])
                node.red = not node.red
                node.modified()
            elif k == "touch":
                # an external request to recount one node
                node = t.get_node(op[1])
                vc.modify(op[1])
            elif k == "apply":
                vc.apply_filter(op[1])
                if op[1] != "nope" and op[1] not in w.applied \
                        and op[1] not in w.gone:
                    w.applied.append(op[1])
            elif k == "unapply":
                vc.unapply_filter(op[1])
                if op[1] in w.applied:
                    w.applied.remove(op[1])
                    w.stale = any(f in w.gone for f in w.applied)
            elif k == "watch":
                o = Obs(vc)
                w.obs.append(o)
                vc.register_cllbck(o)
            elif k == "rewatch":
                vc.register_cllbck(w.obs[op[1]])
            elif k == "unwatch":
                o = w.obs.pop(op[1])
                vc.unregister_cllbck(o)
                o.calls = 0
                w.dead = o
            elif k == "regdel":
                t.remove_filter(op[1])
                w.gone.add(op[1])
                w.stale = w.stale or op[1] in w.applied
            elif k == "reg":
                f = {"red": lambda node, parameters=None: node.red,
                     "truthy": Truthy(), "number": Number(),
                     "name": Name()}[op[1]]
                t.add_filter(op[1], f)
                w.gone.discard(op[1])
        except Exception as e:
            if not is_circular(e):
                raise
            return "refused"
        return k

    def step(self, w, op):
        w.dead = None
        for o in w.obs:
            o.calls = 0
        before = w.vc.get_n_nodes()
        out = self.run(w, op)
        self.check(w, op)
        if w.dead is not None:
            # a removed observer is never told again
            w.tree.add_node(N("zz", True))
            w.tree.del_node("zz")
            w.tree.add_node(N("zz", False))
            w.tree.del_node("zz")
            need(w.dead.calls == 0, "an unregistered callback was called")
        if op[0] not in ("watch", "unwatch", "rewatch") and not w.stale:
            for o in w.obs:
                need(o.calls > 0 or w.vc.get_n_nodes() == before,
                     "the count changed but the observer was not told")
                if op[0] == "touch":
                    need(o.calls == 0, "notified although nothing changed")
        return out

    def check(self, w, op=None):
        t = w.tree
        nodes = read_graph(t)[0]
        need(t.get_viewcount("tested") is w.vc, "named count was replaced")
        need(t.get_viewcount("plain") is w.plain, "named count was replaced")
        need(w.plain.get_n_nodes() == len(nodes), "count without filters is",
             w.plain.get_n_nodes(), "for", nodes)
        want = sum(1 for i in nodes if not t.get_node(i).red)
        need(w.fixed.get_n_nodes() == want, "negated count is",
             w.fixed.get_n_nodes(), "instead of", want)
        need(w.fobs.seen == want, "observer of the negated count last saw",
             w.fobs.seen)
        if w.stale:
            return
        want = sum(1 for i in nodes if all(
            PRED[f](t.get_node(i)) for f in w.applied))
        got = w.vc.get_n_nodes()
        need(got == want, "count is", got, "instead of", want, "with filters",
             w.applied)
        for o in w.obs:
            need(o.seen == got, "observer last saw", o.seen, "of", got)

    def key(self, w):
        return canon(w.tree, w.vc, w.plain, w.fixed, sorted(w.applied),
                     sorted(w.gone), len(w.obs), w.stale,
                     [w.vc.cllbcks.index(o) if o in w.vc.cllbcks else -1
                      for o in w.obs] if hasattr(w.vc, "cllbcks") else 0,
                     **dict(MERGE, skip=("cllbcks",)))
