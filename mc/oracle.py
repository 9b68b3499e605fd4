"""Oracles: what must be true of a tree, a view, a mirror.

Everything here reads the library through its public interface only.
"""
from engine import Violation


def need(cond, *msg):
    if not cond:
        raise Violation(" ".join(str(m) for m in msg))


# ----------------------------------------------------------------- main tree
def read_graph(tree):
    """(nodes, parents, children, root children) as the tree reports them."""
    main = tree.get_main_view()
    nodes = list(main.get_all_nodes())
    par = {i: list(tree.get_node(i).get_parents()) for i in nodes}
    kid = {i: list(tree.get_node(i).get_children()) for i in nodes}
    root = list(main.node_all_children())
    return nodes, par, kid, root


def all_paths(kid, root, limit=20000):
    """Every root-to-node path of an acyclic graph: {path: children}."""
    out = {}
    stack = [(r,) for r in reversed(root)]
    while stack:
        p = stack.pop()
        need(p[-1] not in p[:-1], "cycle through", p)
        need(p not in out, "duplicate path", p)
        out[p] = list(kid[p[-1]])
        need(len(out) < limit, "too many paths")
        stack.extend(p + (c,) for c in reversed(kid[p[-1]]))
    return out


def check_wellformed(tree, ids):
    """The tree is a rooted DAG and every read interface says the same."""
    main = tree.get_main_view()
    nodes, par, kid, root = read_graph(tree)
    ns = set(nodes)
    need(len(ns) == len(nodes), "node listed twice", nodes)
    for i in ids:
        need(tree.has_node(i) == (i in ns), "has_node disagrees for", i)
        need(main.is_displayed(i) == (i in ns),
             "main view is_displayed disagrees for", i)
        if i not in ns:
            try:
                tree.get_node(i)
                need(False, "get_node of an absent node returned for", i)
            except ValueError:
                pass
    for i in nodes:
        n = tree.get_node(i)
        need(n.get_id() == i, "node stored under a wrong id", i)
        need(len(set(par[i])) == len(par[i]), "duplicate parent of", i, par[i])
        need(len(set(kid[i])) == len(kid[i]), "duplicate child of", i, kid[i])
        for p in par[i]:
            need(p in ns, "parent", p, "of", i, "is not in the tree")
            need(i in kid[p], i, "has parent", p, "which does not list it")
        for c in kid[i]:
            need(c in ns, "child", c, "of", i, "is not in the tree")
            need(i in par[c], i, "has child", c, "which does not list it")
        need((i in root) == (not par[i]),
             "node", i, "parents", par[i], "root children", root)
        need(bool(n.has_child()) == bool(kid[i]),
             "has_child() of", i, "is", n.has_child(), "children", kid[i])
        need(bool(n.has_parent()) == bool(par[i]),
             "has_parent() of", i, "is", n.has_parent(), "parents", par[i])
        for j in ids:
            need(bool(n.has_child(j)) == (j in kid[i]),
                 "has_child(%s) of %s disagrees with" % (j, i), kid[i])
            need(bool(n.has_parent(j)) == (j in par[i]),
                 "has_parent(%s) of %s disagrees with" % (j, i), par[i])
        need(n.get_n_children() == len(kid[i]), "get_n_children of", i)
        for k, c in enumerate(kid[i]):
            need(n.get_nth_child(k) == c, "nth_child", k, "of", i)
            need(n.get_child_index(c) == k, "child_index of", c, "in", i)
        try:
            n.get_nth_child(len(kid[i]))
            need(False, "nth_child past the end of", i, "returned")
        except ValueError:
            pass
    need(len(set(root)) == len(root), "root lists a child twice", root)
    need(set(root) <= ns, "root lists an absent node", root, nodes)
    paths = all_paths(kid, root)
    reach = {p[-1] for p in paths}
    need(reach == ns, "nodes not reachable from the root:", sorted(ns - reach))
    return nodes, par, kid, root, paths


# --------------------------------------------------------------------- views
class Mirror:
    """Rebuilds a view from its notifications alone."""
    def __init__(self, view, current=True, value=None, reads=False):
        self.value = value          # row data, computed when notified
        self.rows = {}
        self.kids = {(): []}
        self.reads = reads
        self.err = None
        self.log = []
        self.view = view
        self.keys = [
            ("node-added-inview",
             view.register_cllbck("node-added-inview", self.add)),
            ("node-deleted-inview",
             view.register_cllbck("node-deleted-inview", self.rm)),
            ("node-modified-inview",
             view.register_cllbck("node-modified-inview", self.mod))]
        if current:
            view.get_current_state()

    def _mc_canon(self):
        return None

    def look(self, n, p):
        """What an observer can ask about a row it is told of."""
        v = self.view
        if not v.is_displayed(n):
            self.fail("told of", p, "but it is not displayed")
        elif p not in v.get_paths_for_node(n):
            self.fail("told of", p, "but the view has it at",
                      v.get_paths_for_node(n))
        elif v.get_node_for_path(p) != n or v.get_node(n).get_id() != n:
            self.fail("told of", p, "but it cannot be found")
        elif n not in v.node_all_children(p[-2] if len(p) > 1 else None):
            self.fail("told of", p, "but its parent does not list it")
        self.survey(p)

    def survey(self, p):
        """Reading the whole view works and is consistent."""
        v = self.view
        try:
            for i in v.get_all_nodes():
                for q in v.get_paths_for_node(i):
                    if v.get_node_for_path(q) != i:
                        self.fail("told of", p, ", then", q, "is not", i)
                    up = q[-2] if len(q) > 1 else None
                    if i not in v.node_all_children(up):
                        self.fail("told of", p, ", then", i,
                                  "is not a child of", up)
                for j in v.node_parents(i):
                    if not v.is_displayed(j):
                        self.fail("told of", p, ", then parent", j, "of", i,
                                  "is not displayed")
                    elif i not in v.node_all_children(j):
                        self.fail("told of", p, ", then", i, "has parent", j,
                                  "which does not list it")
                for j in v.node_all_children(i):
                    if not v.is_displayed(j) or i not in v.node_parents(j):
                        self.fail("told of", p, ", then", i, "has child", j,
                                  "which does not know it")
        except Exception as e:
            self.fail("told of", p, ", then reading the view raised", repr(e))

    def fail(self, *m):
        if not self.err:
            self.err = " ".join(str(x) for x in m)

    def add(self, n, p):
        self.log.append(("+", n, p))
        if not p or p[-1] != n:
            self.fail("added", n, "at path", p)
        elif p[:-1] not in self.kids:
            self.fail("added", p, "under a path never added")
        elif p in self.kids:
            self.fail("added", p, "twice")
        else:
            self.kids[p] = []
            self.kids[p[:-1]].append(n)
            if self.reads:
                self.look(n, p)
            if self.value:
                self.rows[p] = self.value(n)

    def rm(self, n, p):
        self.log.append(("-", n, p))
        if not p or p[-1] != n:
            self.fail("deleted", n, "at path", p)
        elif p not in self.kids:
            self.fail("deleted", p, "which was not there")
        elif self.kids[p]:
            self.fail("deleted", p, "before its children", self.kids[p])
        else:
            del self.kids[p]
            self.rows.pop(p, None)
            self.kids[p[:-1]].remove(n)
            if self.reads:
                self.survey(p)

    def mod(self, n, p):
        self.log.append(("~", n, p))
        if not p or p[-1] != n:
            self.fail("modified", n, "at path", p)
        elif p not in self.kids:
            self.fail("modified", p, "which is not there")
        else:
            if self.reads:
                self.look(n, p)
            if self.value:
                self.rows[p] = self.value(n)


def expected_view(tree, preds, flat, graph=None):
    """Displayed set and placement the filters call for."""
    nodes, par, kid, root = graph or read_graph(tree)
    shown = {i for i in nodes
             if all(f(tree.get_node(i)) for f in preds)}
    vp = {}
    for i in nodes:
        if i in shown:
            vp[i] = [] if flat else [p for p in par[i] if p in shown]
    return shown, vp


def check_view(tree, view, preds, flat, graph=None):
    """The view displays exactly the right nodes in exactly the right place."""
    shown, vp = expected_view(tree, preds, flat, graph)
    got = list(view.get_all_nodes())
    need(len(set(got)) == len(got), "view lists a node twice", got)
    need(set(got) == shown, "view displays", sorted(got), "but",
         sorted(shown), "pass the filters")
    vk = {None: []}
    for i in shown:
        vk[i] = []
    for i in shown:
        for p in vp[i] or [None]:
            vk[p].append(i)
    for i in shown:
        need(view.is_displayed(i), "is_displayed", i)
        g = list(view.node_parents(i))
        need(sorted(g) == sorted(vp[i]), "view parents of", i, "are", g,
             "instead of", vp[i])
    for i in list(shown) + [None]:
        g = list(view.node_all_children(i))
        need(sorted(g) == sorted(vk[i]), "view children of", i, "are", g,
             "instead of", sorted(vk[i]))
    return shown, vp


def view_tree(view):
    """The view as {path: ordered children}, read through node_all_children."""
    out = {(): list(view.node_all_children())}
    stack = [(c,) for c in out[()]]
    while stack:
        p = stack.pop()
        need(p[-1] not in p[:-1], "cycle in view", p)
        need(p not in out, "view repeats path", p)
        out[p] = list(view.node_all_children(p[-1]))
        need(len(out) < 20000, "too many view paths")
        stack.extend(p + (c,) for c in out[p])
    return out


def check_mirror(view, mirror):
    need(mirror.err is None, "notifications:", mirror.err, "log", mirror.log)
    vt = view_tree(view)
    need(vt == mirror.kids, "view is", vt, "but its notifications say",
         mirror.kids)
    return vt


def check_rows(view, mirror, value):
    """Row data computed on notification is what it would be now."""
    need(mirror.err is None, "notifications:", mirror.err, "log", mirror.log)
    for p, v in mirror.rows.items():
        now = value(p[-1])
        need(v == now, "row", p, "was last notified when its data was", v,
             "but it is now", now)


def check_nav(view, ids):
    """Every way of asking for positions agrees with the tree the view
    shows (as read through node_all_children)."""
    vt = view_tree(view)
    paths = {}
    for p in vt:
        if p:
            paths.setdefault(p[-1], []).append(p)
    shown = set(paths)
    need(sorted(view.get_all_nodes()) == sorted(shown), "get_all_nodes")
    need(sorted(view.get_nodes()) == sorted(shown), "get_nodes")
    need(view.get_n_nodes() == len(shown), "get_n_nodes")
    need(view.get_paths_for_node() == [()], "path of the root")
    for i in shown:
        got = view.get_paths_for_node(i)
        need(sorted(got) == sorted(paths[i]), "paths of", i, "are", got,
             "instead of", paths[i])
        need(sorted(view.node_parents(i)) == sorted(
            {p[-2] for p in paths[i] if len(p) > 1}), "parents of", i)
        need(view.node_has_parent(i) == any(len(p) > 1 for p in paths[i]),
             "node_has_parent", i)
    for i in ids:
        need(view.is_displayed(i) == (i in shown), "is_displayed", i)
        if i not in shown:
            need(view.node_n_children(i) == 0, "children count of", i,
                 "which is not displayed")
    # candidate paths: every valid one, and all short sequences of ids
    cand = set(p for p in vt if p)
    cand |= {(i,) for i in ids} | {(i, j) for i in ids for j in ids}
    if len(ids) < 4:
        cand |= {(i, j, k) for i in ids for j in ids for k in ids}
    for p in cand:
        want = p[-1] if p in vt else None
        got = view.get_node_for_path(p)
        need(got == want, "get_node_for_path", p, "is", got, "instead of",
             want)
    need(view.get_node_for_path(()) is None, "node of the empty path")
    below = {}

    def count(p):
        if p not in below:
            below[p] = sum(1 + count(p + (c,)) for c in vt[p])
        return below[p]
    for p, kids in vt.items():
        i = p[-1] if p else None
        need(view.node_n_children(i) == len(kids), "node_n_children", i)
        need(view.node_n_children(i, recursive=True) == count(p),
             "recursive node_n_children", i)
        need(bool(view.node_has_child(i)) == bool(kids), "node_has_child", i)
        for k, c in enumerate(kids):
            need(view.node_nth_child(i, k) == c, "node_nth_child", i, k)
            after = kids[k + 1] if k + 1 < len(kids) else None
            # without a parent the choice of siblings is free
            if i is not None:
                need(view.next_node(c, i) == after, "next_node", c, i)
            elif not view.node_has_parent(c):
                need(view.next_node(c) == after, "next_node", c)
        try:
            view.node_nth_child(i, len(kids))
            need(False, "node_nth_child past the end of", i, "returned")
        except ValueError:
            pass
    for i in shown:
        free = set()
        for p in paths[i]:
            ks = vt[p[:-1]]
            k = ks.index(i)
            free.add(ks[k + 1] if k + 1 < len(ks) else None)
        need(view.next_node(i) in free, "next_node", i, "without parent is",
             view.next_node(i), "not among", free)
    body = [x for x in view.print_tree(True).split("\n")
            if x.startswith(" ")]
    got, stack = [], []
    for line in body:
        d = len(line) - len(line.lstrip(" ")) - 1
        del stack[d:]
        stack.append(line.lstrip(" "))
        got.append(tuple(stack))
    want = []

    def go(p):
        for c in vt[p]:
            want.append(p + (c,))
            go(p + (c,))
    go(())
    need(got == want, "print_tree shows", got, "instead of", want)
