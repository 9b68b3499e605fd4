"""Two trees in one program (C24)."""
from engine import canon
from lib import Tree, N, IDS, is_circular
import filters
from oracle import need, read_graph, check_view, check_mirror, \
    check_wellformed, view_tree, Mirror
from ref import Ref, Refused
from sys_view import VMERGE, World


class Side:
    pass


class TwoSys:
    """The same ids in two trees with views and counts of the same names;
    node objects that leave one tree may enter the other."""

    def __init__(self, n, edits=True, decl=False, pending=True):
        self.ids = IDS[:n]
        self.edits = edits
        self.decl = decl
        self.pending = pending

    def fresh(self):
        w = World()
        w.free = []             # nodes that left their tree, by age
        w.sides = []
        for k in (0, 1):
            s = Side()
            t = s.tree = Tree()
            s.table = filters.install(t)
            s.ref = Ref()
            s.home = None
            s.views = []
            for names in ((), ("red",)):
                v = t.get_viewtree(name="v" + "".join(names),
                                   refresh=not names)
                for f in names:
                    v.apply_filter(f)
                s.views.append((names, v, Mirror(v)))
            s.count = t.get_viewcount(name="count")
            s.told = []
            s.count.register_cllbck(lambda s=s: s.told.append("count"))
            main = t.get_main_view()
            for e in ("node-added", "node-modified", "node-deleted"):
                main.register_cllbck(e, lambda n, p, s=s, e=e:
                                     s.told.append((e, n)))
            w.sides.append(s)
        return w

    def ops(self, w):
        for k, s in enumerate(w.sides):
            t = s.tree
            here = [i for i in self.ids if t.has_node(i)]
            for i in self.ids:
                if i in here:
                    yield (k, "col", i)
                    yield (k, "del", i)
                    yield (k, "move", i, None)
                    if self.edits:
                        yield (k, "delr", i)
                    for j in self.ids:
                        if j != i and (j in here or self.pending):
                            yield (k, "addp", i, j)
                            if self.edits:
                                yield (k, "move", i, j)
                                yield (k, "addc", i, j)
                else:
                    yield (k, "add", i, None)
                    for j in self.ids:
                        if j != i and (j in here or self.pending):
                            yield (k, "add", i, j)
                            if self.decl:
                                yield (k, "decl", i, j)
                    if any(n.get_id() == i for n in w.free):
                        yield (k, "enter", i)
            yield (k, "filter", "leaf")
        if not self.edits:
            return
        yield (0, "refall")

    def run(self, w, op):
        s = w.sides[op[0]]
        t = s.tree
        k = op[1]
        i = op[2] if len(op) > 2 else None
        out = [t.get_node(i)] if k == "del" else []
        if k == "delr":
            def down(x):
                if t.get_node(x) not in out:
                    out.append(t.get_node(x))
                for c in t.get_node(x).get_children():
                    down(c)
            down(i)
        try:
            if k == "add":
                t.add_node(N(i), op[3])
            elif k == "decl":
                n = N(i)
                n.add_parent(op[3])
                t.add_node(n)
            elif k == "enter":
                n = [n for n in w.free if n.get_id() == i][0]
                w.free.remove(n)
                t.add_node(n)
            elif k == "del":
                t.del_node(i)
            elif k == "delr":
                t.del_node(i, recursive=True)
            elif k == "col":
                n = t.get_node(i)
                n.red = not n.red
                n.modified()
            elif k == "move":
                t.move_node(i, op[3])
            elif k == "addp":
                t.add_parent(i, op[3])
            elif k == "addc":
                t.get_node(i).add_child(op[3])
            elif k == "filter":
                v = s.views[0][1]
                if "leaf" in s.views[0][0]:
                    v.unapply_filter("leaf")
                    s.views[0] = ((),) + s.views[0][1:]
                else:
                    v.apply_filter("leaf")
                    s.views[0] = (("leaf",),) + s.views[0][1:]
            elif k == "refall":
                t.refresh_all()
            else:
                need(False, "unknown op", op)
        except Exception as e:
            if not is_circular(e):
                raise
            need(self.refer(s.ref, op), op, "was refused:", e)
            return "refused"
        need(not self.refer(s.ref, op), op, "closes a cycle")
        for n in out:
            w.free = [m for m in w.free if m.get_id() != n.get_id()] + [n]
        return k

    def refer(self, r, op):
        """The same on the reference; is it refused?"""
        k, i = op[1], op[2] if len(op) > 2 else None
        j = op[3] if len(op) > 3 else None
        try:
            if k in ("add", "enter"):
                r.add(i, j)
            elif k == "decl":
                r.add(i, None, (j,))
            elif k in ("del", "delr"):
                r.delete(i, k == "delr")
            elif k == "move":
                r.move(i, j)
            elif k == "addp":
                r.add_parent(i, j)
            elif k == "addc":
                r.add_child(i, j)
        except Refused:
            return True
        return False

    def step(self, w, op):
        other = w.sides[1 - op[0]]
        before = self.look(other)
        for s in w.sides:
            del s.told[:]
            for _, _, m in s.views:
                del m.log[:]
        out = self.run(w, op)
        need(not other.told and not any(m.log for _, _, m in other.views),
             op, "was announced by the other tree", other.told)
        need(self.look(other) == before, op, "changed the other tree from",
             before, "to", self.look(other))
        if op[1] == "enter":
            t = w.sides[op[0]].tree
            n = t.get_node(op[2])
            need(n.get_tree() is not None and (op[2] in [
                x for x in t.get_main_view().get_all_nodes()]), "not entered")
        self.check(w, op)
        return out

    def look(self, s):
        return (read_graph(s.tree), s.tree.list_filters(),
                [(sorted(v.get_all_nodes()), v.list_applied_filters(),
                  view_tree(v)) for _, v, m in s.views],
                s.count.get_n_nodes())

    def check(self, w, op=None):
        self.check_sides(w)
        need(w.sides[0].home != w.sides[1].home, "get_tree() of nodes in two "
             "trees is the same")

    def check_sides(self, w):
        for s in w.sides:
            nodes = check_wellformed(s.tree, self.ids)[0]
            graph = read_graph(s.tree)
            r = s.ref
            need(sorted(nodes) == sorted(r.par), "a tree contains",
                 sorted(nodes), "instead of", sorted(r.par))
            for i in nodes:
                need((graph[1][i], graph[2][i]) == (r.par[i], r.kid[i]),
                     "parents and children of", i, "are", graph[1][i],
                     graph[2][i], "instead of", r.par[i], r.kid[i])
            for names, v, m in s.views:
                preds, flat = filters.spec(s.table, names)
                check_view(s.tree, v, preds, flat, graph)
                check_mirror(v, m)
            homes = {id(s.tree.get_node(i).get_tree())
                     for i in list(nodes) + [None]}
            need(len(homes) == 1 and id(None) not in homes,
                 "get_tree() differs among the nodes of one tree")
            need(s.home in (None, list(homes)[0]), "get_tree() changed")
            s.home = list(homes)[0]
            need(s.count.get_n_nodes() == len(nodes), "count is",
                 s.count.get_n_nodes(), "of", len(nodes))

    def key(self, w):
        return canon([(s.tree, s.views, s.count, s.ref) for s in w.sides],
                     [n for n in w.free], **VMERGE)
