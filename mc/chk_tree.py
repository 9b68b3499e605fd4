"""C01 - C04: the main tree."""
import itertools

import gen
from engine import Violation, canon
from lib import Tree, N, TreeNode, IDS, is_circular
from oracle import need, read_graph, check_wellformed
from sys_tree import TreeSys, FlagSys


def _starts(n, iso=True):
    ids = IDS[:n]
    return [gen.build(ids, e)
            for e in (gen.iso_dags(ids) if iso else gen.dags(ids))]


def _structure(run, use_ref):
    run.assume += [
        "node ids are non-empty strings other than 'root'",
        "states of the explored histories are merged only when every "
        "attribute of every liblarch object is equal (DESIGN.md, merging)"]
    run.bfs("3 ids, every operation", TreeSys(3, True, True, use_ref))
    if run.quick:
        run.bfs("4-node graphs", TreeSys(4, False, False, use_ref),
                depth=2, starts=_starts(4))
    else:
        run.bfs("4-node graphs, deferred", TreeSys(4, True, False, use_ref),
                depth=3, starts=_starts(4), seconds=3600)
        run.bfs("5-node graphs", TreeSys(5, False, False, use_ref),
                depth=2, starts=_starts(5), seconds=3600)
        run.bfs("4 ids, every operation", TreeSys(4, False, False, use_ref),
                seconds=5400)
    for name, ids, edges in gen.shapes():
        run.bfs("shape " + name, TreeSys(len(ids), False, False, use_ref),
                depth=2 if run.quick else 3, starts=[gen.build(ids, edges)],
                seconds=900)


def C01(run):
    _structure(run, False)


def C02(run):
    _structure(run, True)


# -------------------------------------------------------------------- cycles
def _link(tree, api, child, parent):
    """One public way of putting child under parent."""
    if api == "tree.add_parent":
        tree.add_parent(child, parent)
    elif api == "node.add_parent":
        tree.get_node(child).add_parent(parent)
    elif api == "node.add_child":
        tree.get_node(parent).add_child(child)
    elif api == "tree.move_node":
        tree.move_node(child, parent)
    elif api == "node.set_parent":
        tree.get_node(child).set_parent(parent)


APIS = ("tree.add_parent", "node.add_parent", "node.add_child",
        "tree.move_node", "node.set_parent")


def _reach(edges, a):
    """nodes reachable from a, a included"""
    out, todo = {a}, [a]
    while todo:
        x = todo.pop()
        for p, c in edges:
            if p == x and c not in out:
                out.add(c)
                todo.append(c)
    return out


def _mk(ids, edges, red=()):
    t = Tree()
    for i in ids:
        t.add_node(N(i, i in red))
    for p, c in edges:
        t.add_parent(c, p)
    return t


def _snapshot(tree, views):
    return (read_graph(tree),
            [[(i, list(v.node_parents(i)), list(v.node_all_children(i)),
               v.get_paths_for_node(i)) for i in sorted(v.get_all_nodes())] +
             [list(v.node_all_children())] for v in views])


def _cycle_case(case):
    """Attach in every way every node under every other one; cyclic requests
    are refused and change nothing, the others are honoured."""
    ids, edges = case
    n = 0
    refused = 0
    for child, parent, api in itertools.product(ids, ids, APIS):
        t = _mk(ids, edges)
        t.add_filter("odd", lambda node, parameters=None:
                     node.get_id() in ids[::2])
        views = [t.get_viewtree(), t.get_viewtree(refresh=False)]
        views[1].apply_filter("odd")
        before = _snapshot(t, views)
        raised = False
        try:
            _link(t, api, child, parent)
        except Exception as e:
            if not is_circular(e):
                raise
            raised = True
        n += 1
        cyclic = child in _reach(edges, child) and \
            parent in _reach(edges, child)
        what = "%s of %s under %s in %s" % (api, child, parent, list(edges))
        graph = check_wellformed(t, ids)
        if cyclic:
            refused += 1
            need(_snapshot(t, views) == before,
                 what, "changed the tree or a view:", before, "->",
                 _snapshot(t, views))
            # Linking a node to itself is silently ignored, anything else
            # is reported to the caller.
            need(raised or child == parent, what, "was not reported")
        else:
            need(not raised, what, "was refused")
            need(parent in graph[1][child], what, "had no effect")
            if api in ("tree.move_node", "node.set_parent"):
                need(graph[1][child] == [parent], what, "kept other parents:",
                     graph[1][child])
            else:
                old = {p for p, c in edges if c == child}
                need(set(graph[1][child]) == old | {parent}, what,
                     "gives parents", graph[1][child])
        # the tree must stay usable after the request
        t.add_node(N("zz"), child)
        need(t.get_node("zz").get_parents() == [child], what,
             "left the tree unusable")
    return "%d edges" % len(edges), n


def _declared_cycle_case(case):
    """Nodes declare an arbitrary set of relationships (cyclic ones too)
    before they are in the tree; whatever the arrival order the tree stays
    acyclic, only relationships that were declared appear, and one is left
    out only if it would have closed a cycle with those accepted."""
    ids, edges, side, order = case
    t = Tree()
    nodes = {i: N(i) for i in ids}
    for (p, c), s in zip(edges, side):
        if s == 0:
            nodes[c].add_parent(p)
        else:
            nodes[p].add_child(c)
    for i in order:
        t.add_node(nodes[i])
        need(t.has_node(i), "node", i, "was not added")
    _, par, kid, root, _ = check_wellformed(t, ids)
    got = {(p, c) for c in ids for p in par[c]}
    need(got <= set(edges), "relationships nobody declared:", got)
    for p, c in set(edges) - got:
        need(p in _reach(got, c), "declared", (p, c),
             "is missing although it closes no cycle with", sorted(got))
    return "%d of %d" % (len(got), len(edges)), 1


def _late_cycle_case(case):
    """add_node(node, parent) where the parent is below a pending child."""
    ids, edges, pend, parent = case
    new = "n"
    t = _mk(ids, edges)
    for c in pend:
        t.get_node(c).add_parent(new)
    v = t.get_viewtree()
    raised = False
    try:
        t.add_node(N(new), parent)
    except Exception as e:
        if not is_circular(e):
            raise
        raised = True
    graph = check_wellformed(t, tuple(ids) + (new,))
    cyc = any(parent in _reach(edges, c) for c in pend)
    need(raised == cyc, "adding", new, "under", parent, "with children", pend,
         "raised" if raised else "was accepted")
    need(t.has_node(new), "node was not added")
    need(graph[1][new] == ([] if cyc else [parent]),
         "parents of the new node are", graph[1][new])
    need(set(graph[2][new]) == set(pend), "children of the new node are",
         graph[2][new], "instead of", pend)
    need(sorted(v.get_all_nodes()) == sorted(tuple(ids) + (new,)),
         "view misses nodes:", v.get_all_nodes())
    need(sorted(v.node_all_children(new)) == sorted(pend), "view children")
    return ("refused" if cyc else "accepted"), 1


def _self_case(api):
    """A node offered itself as parent or child."""
    t = Tree()
    node = N("a")
    raised = False
    try:
        if api == "decl parent":
            node.add_parent("a")
            t.add_node(node)
        elif api == "decl child":
            node.add_child("a")
            t.add_node(node)
        elif api == "ctor":
            node = N("a", parent="a")
            t.add_node(node)
        else:
            t.add_node(node, "a")
    except Exception as e:
        if not is_circular(e):
            raise
        raised = True
    graph = check_wellformed(t, ("a",))
    need(graph[0] == ["a"] and graph[3] == ["a"], "graph is", graph)
    t.add_node(N("b"), "a")
    need(t.get_node("a").get_children() == ["b"], "tree unusable")
    return "refused" if raised else "ignored", 1


def C03(run):
    def graphs():
        for n in (1, 2, 3):
            for e in gen.dags(IDS[:n]):
                yield IDS[:n], e
        for e in (gen.iso_dags if run.quick else gen.dags)(IDS[:4]):
            yield IDS[:4], e
        if not run.quick:
            for e in gen.iso_dags(IDS[:5]):
                yield IDS[:5], e
        for _, ids, e in gen.shapes():
            yield ids, e
    run.cases("every attach request on every graph", _cycle_case, graphs(),
              chunk=1)

    def declared():
        for n in (2, 3):
            ids = IDS[:n]
            pairs = list(itertools.permutations(ids, 2))
            for edges in gen.subsets(pairs):
                orders = list(itertools.permutations(edges)) \
                    if len(edges) <= 3 or not run.quick else [edges,
                                                              edges[::-1]]
                for es in orders:
                    for side in itertools.product((0, 1), repeat=len(es)):
                        for order in itertools.permutations(ids):
                            yield ids, es, side, order
    run.cases("cyclic declarations, every arrival order",
              _declared_cycle_case, declared(), chunk=200)

    def late():
        for n in (1, 2, 3) if run.quick else (1, 2, 3, 4):
            ids = IDS[:n]
            for e in gen.dags(ids):
                for pend in gen.subsets(ids):
                    for parent in ids:
                        yield ids, e, pend, parent
    run.cases("adding a node between relatives", _late_cycle_case, late(),
              chunk=50)
    run.cases("a node as its own relative", _self_case,
              ["decl parent", "decl child", "ctor", "add_node"])


# ----------------------------------------------------- deferred relationships
MODES = ("ctor", "parent", "child", "addnode", "late parent", "late child")


def _arrival_case(case):
    """Build a graph by declaring every relationship before both its ends
    exist, each in its own way; every arrival order gives that graph."""
    ids, edges, modes, order = case
    t = Tree()
    t.add_filter("odd", lambda node, parameters=None:
                 node.get_id() in ids[::2])
    v0 = t.get_viewtree()
    v1 = t.get_viewtree()
    v1.apply_filter("odd")
    have = set()
    for i in order:
        mine = [(e, m) for e, m in zip(edges, modes) if i in e]
        ctor = [e[0] for e, m in mine if m == "ctor" and e[1] == i]
        node = N(i, parent=ctor[0]) if ctor else N(i)
        for p in ctor[1:]:
            node.add_parent(p)
        direct = [p for (p, c), m in mine if m == "addnode" and c == i]
        for (p, c), m in mine:
            if m == "parent" and c == i:
                node.add_parent(p)
            elif m == "child" and p == i:
                node.add_child(c)
        for p in direct[1:]:
            node.add_parent(p)
        t.add_node(node, direct[0] if direct else None)
        have.add(i)
        for (p, c), m in mine:
            if m == "late parent" and c == i:
                t.add_parent(c, p)
            elif m == "late child" and p == i:
                t.get_node(p).add_child(c)
        # after every arrival: exactly the declared relationships whose both
        # ends are there and whose declaring end has arrived
        want = {(p, c) for (p, c), m in zip(edges, modes)
                if p in have and c in have}
        _, par, kid, root, _ = check_wellformed(t, ids)
        got = {(p, c) for c in have for p in par[c]}
        need(got == want, "after", i, "arrived the relationships are",
             sorted(got), "instead of", sorted(want))
        for v, keep in ((v0, have), (v1, have & set(ids[::2]))):
            need(set(v.get_all_nodes()) == keep, "view shows",
                 v.get_all_nodes(), "instead of", sorted(keep))
            for x in keep:
                vp = {p for p, c in want if c == x and p in keep}
                need(set(v.node_parents(x)) == vp, "view parents of", x,
                     "are", v.node_parents(x), "instead of", sorted(vp))
    return "%d edges" % len(edges), len(order)


def _cancel_case(case):
    """A deferred relationship that was withdrawn must not come back:
    deleting either end, or removing the present end, cancels it."""
    ids, mode, again = case
    a, b = ids
    t = Tree()
    t.add_node(N("x"))
    if mode == "parent waits for child":
        t.add_node(N(a))
        t.get_node(a).add_child(b)
        t.del_node(a)
        t.add_node(N(b))
    elif mode == "child waits for parent":
        t.add_node(N(b))
        t.add_parent(b, a)
        t.del_node(b)
        t.add_node(N(a))
    elif mode == "child waits in add_node":
        t.add_node(N(b), a)
        t.del_node(b)
        t.add_node(N(a))
    elif mode == "child waits after move":
        t.add_node(N(b), "x")
        t.move_node(b, a)
        need(t.get_node(b).get_parents() == [], "move kept the old parent")
        t.del_node(b)
        t.add_node(N(a))
    elif mode == "recursive delete":
        t.add_node(N("p"))
        t.add_node(N(b), "p")
        t.add_parent(b, a)
        t.del_node("p", recursive=True)
        t.add_node(N(a))
    other = b if not t.has_node(b) else a
    if again:
        t.add_node(N(other))
    _, par, kid, root, _ = check_wellformed(t, tuple(ids) + ("x", "p"))
    for i in ids:
        if t.has_node(i):
            need(par[i] == [] and kid[i] == [], "a deleted node's deferred "
                 "relationship came back:", par, kid)
    return mode, 1


CANCEL = ("parent waits for child", "child waits for parent",
          "child waits in add_node", "child waits after move",
          "recursive delete")


def C04(run):
    def small():
        for n in (2, 3):
            ids = IDS[:n]
            for e in gen.dags(ids):
                for modes in itertools.product(MODES, repeat=len(e)):
                    for order in itertools.permutations(ids):
                        yield ids, e, modes, order
    run.cases("<=3 nodes, every way of declaring, every order",
              _arrival_case, small(), chunk=100)

    def four():
        ids = IDS[:4]
        # one way of declaring per node role
        for e in gen.iso_dags(ids) if run.quick else gen.dags(ids):
            for modes in itertools.product(
                    ("parent", "late child") if run.quick or len(e) > 4
                    else ("parent", "child", "late parent", "late child"),
                    repeat=len(e)):
                for order in itertools.permutations(ids):
                    yield ids, e, modes, order
    run.cases("4 nodes, every order", _arrival_case, four(), chunk=100)

    def big():
        for name, ids, e in gen.shapes(7):
            k = min(len(ids), 5 if run.quick else 6)
            sub = ids[:k]
            es = tuple(x for x in e if x[0] in sub and x[1] in sub)
            for m in MODES:
                for order in itertools.permutations(sub):
                    yield sub, es, (m,) * len(es), order
    run.cases("larger graphs, every order", _arrival_case, big(), chunk=50)
    run.cases("withdrawn declarations", _cancel_case,
              [(ids, m, again) for ids in (("a", "b"), ("b", "a"))
               for m in CANCEL for again in (False, True)])


def C18(run):
    run.assume += ["a relationship that waits for a node and is not allowed "
                   "when it arrives is dropped"]
    run.bfs("2 ids", FlagSys(2))
    run.bfs("3 ids, nothing deferred",
            FlagSys(3, pending=False, decl=False),
            depth=6 if run.quick else None, seconds=3600)
    run.bfs("3 ids", FlagSys(3), depth=4 if run.quick else 6, seconds=3600)
    for name, ids, edges in gen.shapes():
        run.bfs("shape " + name,
                FlagSys(len(ids), pending=False, decl=False),
                depth=1 if run.quick else 2, seconds=900,
                starts=[gen.build(ids, edges, ())])
