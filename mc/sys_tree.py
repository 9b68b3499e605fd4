"""Systems over the main tree alone (C01, C02)."""
from engine import Violation, canon
from lib import Tree, N, IDS, is_circular
from oracle import need, check_wellformed, read_graph
from ref import Ref, Refused


# State merging (argued in DESIGN.md): the tree may note a deferred
# relationship more than once, and notes relationships with the root, which no
# event ever consumes; the order of the id -> node table only shows in the
# order of get_all_nodes(), which no property here promises.
MERGE = dict(uniq=("pending_relationships",), unordered=("nodes",),
             inert=lambda rel: type(rel) is tuple and rel[0] in (None, "root"))


class World:
    pass


class TreeSys:
    """Every editing operation of Tree and TreeNode on n node ids, including
    relationships with ids that are not (yet) in the tree and re-adding a
    removed node object."""

    def __init__(self, n, pending=True, decl=True, use_ref=False):
        self.ids = IDS[:n]
        self.pending = pending
        self.decl = decl
        self.use_ref = use_ref

    def fresh(self):
        w = World()
        w.tree = Tree()
        w.gone = {}
        w.ref = Ref()
        return w

    def ops(self, w):
        t = w.tree
        here = [i for i in self.ids if t.has_node(i)]
        away = [i for i in self.ids if not t.has_node(i)]
        for i in away:
            yield ("add", i, None)
            if i in w.gone:
                yield ("readd", i, None)
            yield ("del", i)
            yield ("move", i, here[0] if here else None)
            yield ("addpx", i, here[0] if here else None)
        for i in away:
            for j in self.ids:
                if j in here or self.pending:
                    yield ("add", i, j)
                    if i in w.gone:
                        yield ("readd", i, j)
        for i in here:
            yield ("del", i)
            yield ("delr", i)
            yield ("move", i, None)
            yield ("add", i, None)
            yield ("refresh", i)
            for j in self.ids:
                if j in here or self.pending:
                    yield ("move", i, j)
                    yield ("addp", i, j)
                    yield ("addc", i, j)
                if j in here:
                    yield ("remp", i, j)
        if self.decl:
            for i in away:
                for j in self.ids:
                    if i != j:
                        yield ("decls", i, (j,), ())
                        yield ("decl", i, (j,), ())
                        yield ("decl", i, (), (j,))
                        for k in self.ids:
                            if k != i:
                                yield ("decl", i, (j,), (k,))
                                if k > j:
                                    yield ("decl", i, (j, k), ())
                                    yield ("decl", i, (), (j, k))

    def run(self, w, op):
        """Execute op on the real tree and on the reference; returns the
        outcome label."""
        t = w.tree
        k = op[0]
        exc = None
        ret = None
        node = None
        if k in ("del", "delr"):
            before = {i: t.get_node(i) for i in self.ids if t.has_node(i)}
        try:
            if k == "add":
                t.add_node(N(op[1]), op[2])
            elif k == "readd":
                node = w.gone.pop(op[1])
                t.add_node(node, op[2])
            elif k in ("decl", "decls"):
                node = N(op[1])
                for p in op[2]:
                    (node.add_parent if k == "decl" else node.set_parent)(p)
                for c in op[3]:
                    node.add_child(c)
                t.add_node(node)
            elif k == "del":
                t.del_node(op[1])
            elif k == "delr":
                t.del_node(op[1], recursive=True)
            elif k == "move":
                ret = t.move_node(op[1], op[2])
            elif k == "addp":
                t.add_parent(op[1], op[2])
            elif k == "addpx":
                need(t.add_parent(op[1], op[2]) is False,
                     "add_parent of an absent node did not return False")
            elif k == "addc":
                t.get_node(op[1]).add_child(op[2])
            elif k == "remp":
                t.get_node(op[1]).remove_parent(op[2])
            elif k == "refresh":
                t.refresh_node(op[1])
            else:
                raise Violation("unknown op %r" % (op,))
        except Exception as e:
            if not is_circular(e):
                raise
            exc = e
        if k in ("del", "delr"):
            for i, n in before.items():
                if not t.has_node(i):
                    w.gone[i] = n
        if self.use_ref:
            self.run_ref(w, op, exc, ret)
        return "refused" if exc else k

    def run_ref(self, w, op, exc, ret):
        r = w.ref
        k = op[0]
        refused = False
        try:
            if k in ("add", "readd"):
                r.add(op[1], op[2])
            elif k in ("decl", "decls"):
                r.add(op[1], None, op[2], op[3])
            elif k == "del":
                r.delete(op[1])
            elif k == "delr":
                r.delete(op[1], True)
            elif k == "move":
                had = op[1] in r.par
                w.expect_ret = had
                if bool(ret) != had and not exc:
                    raise Violation("move_node returned %r" % (ret,))
                r.move(op[1], op[2])
            elif k == "addp":
                r.add_parent(op[1], op[2])
            elif k == "addc":
                r.add_child(op[1], op[2])
            elif k == "remp":
                r.remove_parent(op[1], op[2])
        except Refused:
            refused = True
        if refused != bool(exc):
            raise Violation("%r %s, reference model %s" % (
                op, "raised" if exc else "was accepted",
                "refuses it" if refused else "accepts it"))

    def step(self, w, op):
        out = self.run(w, op)
        self.check(w)
        return out

    def check(self, w):
        if not self.use_ref:
            check_wellformed(w.tree, self.ids)
            return
        nodes, par, kid, root = read_graph(w.tree)
        r = w.ref
        need(sorted(nodes) == sorted(r.par), "nodes are", sorted(nodes),
             "instead of", sorted(r.par))
        for i in nodes:
            need(par[i] == r.par[i], "parents of", i, "are", par[i],
                 "instead of", r.par[i])
            need(kid[i] == r.kid[i], "children of", i, "are", kid[i],
                 "instead of", r.kid[i])
        need(root == r.root, "root children are", root, "instead of", r.root)

    def key(self, w):
        if self.use_ref:
            return canon(w.tree, sorted(w.gone.items()), w.ref, **MERGE)
        return canon(w.tree, sorted(w.gone.items()), **MERGE)


class FlagSys(TreeSys):
    """Nodes that do not accept children or parents, against the reference
    model."""

    def __init__(self, n, **kw):
        TreeSys.__init__(self, n, use_ref=True, **kw)

    def ops(self, w):
        t = w.tree
        for op in TreeSys.ops(self, w):
            if op[0] not in ("readd", "refresh"):
                yield op
        for i in self.ids:
            if t.has_node(i):
                for on in (False, True):
                    yield ("kids", i, on)
                    yield ("pars", i, on)
            else:
                for j in (None,) + self.ids:
                    if j is None or t.has_node(j) or (self.pending and
                                                      i != j):
                        yield ("addf", i, j, True, False)
                        yield ("addf", i, j, False, True)
                        yield ("addf", i, j, True, True)
                if self.decl:
                    for j in self.ids:
                        if j != i:
                            for k, p in ((1, 0), (0, 1), (1, 1)):
                                yield ("declf", i, (j,), (), k, p)
                                yield ("declf", i, (), (j,), k, p)

    def run(self, w, op):
        t, r, k = w.tree, w.ref, op[0]
        if k == "kids":
            t.get_node(op[1]).set_children_enabled(op[2])
            r.children_enabled(op[1], op[2])
        elif k == "pars":
            t.get_node(op[1]).set_parents_enabled(op[2])
            r.parents_enabled(op[1], op[2])
        elif k in ("addf", "declf"):
            n = N(op[1])
            off = op[3:5] if k == "addf" else op[4:6]
            parents = children = ()
            if k == "declf":        # declared while still allowed
                parents, children = op[2], op[3]
                for p in parents:
                    n.add_parent(p)
                for c in children:
                    n.add_child(c)
            if off[0]:
                n.set_children_enabled(False)
            if off[1]:
                n.set_parents_enabled(False)
            where = op[2] if k == "addf" else None
            exc, refused = None, False
            try:
                t.add_node(n, where)
            except Exception as e:
                if not is_circular(e):
                    raise
                exc = e
            try:
                r.add(op[1], where, parents, children, off[0], off[1])
            except Refused:
                refused = True
            need(bool(exc) == refused, op, "refused:", exc,
                 "reference:", refused)
            return "refused" if exc else k
        else:
            return TreeSys.run(self, w, op)
        return k

    def check(self, w):
        TreeSys.check(self, w)
        check_wellformed(w.tree, self.ids)
        for i in self.ids:
            if w.tree.has_node(i):
                n = w.tree.get_node(i)
                need(bool(n.has_children_enabled()) == (i not in
                     w.ref.nokids) and bool(n.has_parents_enabled()) ==
                     (i not in w.ref.nopars), "flags of", i)
                need(n.has_children_enabled() or not n.has_child(),
                     i, "has children although they are disabled")

    def key(self, w):
        return canon(w.tree, w.ref, **MERGE)
