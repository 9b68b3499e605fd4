"""C09: view counts."""
import gen
from lib import Tree, N, IDS
from oracle import need
from sys_count import CountSys, Number, Name, Obs, PRED


def C09(run):
    run.assume += ["filters of a count look at the node's own data (a count "
                   "is not told about a parent when a child is added)"]
    run.bfs("2 ids, all filters and observers", CountSys(2))
    run.bfs("2 ids, filters leaving and entering the bank",
            CountSys(2, ("red", "number"), bank=True))
    run.bfs("3 ids, two filters", CountSys(3, ("red", "name"), edits="few"),
            depth=5 if run.quick else 8, seconds=3600)
    run.cases("counts created on an existing tree", _late_count,
              _late_counts(), chunk=200)
    st = [gen.build(IDS[:4], e, red) for e in gen.iso_dags(IDS[:4])
          for red in gen.subsets(IDS[:4])]
    run.bfs("4-node graphs", CountSys(4, ("red", "number")),
            depth=1 if run.quick else 2, starts=st, seconds=3600)
    for name, ids, edges in gen.shapes():
        run.bfs("shape " + name, CountSys(len(ids), ("red", "number")),
                depth=1 if run.quick else 3, seconds=600,
                starts=[gen.build(ids, edges, r)
                        for r in ((), ids, ids[::2], ids[1::2])])


def _late_count(case):
    """A count created on an existing tree, then one change."""
    ids, edges, red, refresh, names, after = case
    t = Tree()
    t.add_filter("red", lambda node, parameters=None: node.red)
    t.add_filter("number", Number())
    t.add_filter("name", Name())
    for i in ids:
        t.add_node(N(i, i in red))
    for p, c in edges:
        t.add_parent(c, p)
    vc = t.get_viewcount(refresh=refresh)
    obs = Obs(vc)
    vc.register_cllbck(obs)
    for f in names:
        vc.apply_filter(f)

    def check(what):
        want = sum(1 for i in t.get_main_view().get_all_nodes() if all(
            PRED[f](t.get_node(i)) for f in names))
        need(vc.get_n_nodes() == want, what, "count is", vc.get_n_nodes(),
             "instead of", want)
        need(obs.seen == want, what, "observer saw", obs.seen, "of", want)
    check("after creation the")
    if after[0] == "col":
        n = t.get_node(after[1])
        n.red = not n.red
        n.modified()
    elif after[0] == "del":
        t.del_node(after[1])
    elif after[0] == "delr":
        t.del_node(after[1], recursive=True)
    elif after[0] == "add":
        t.add_node(N("z", True), after[1])
    elif after[0] == "unapply":
        vc.unapply_filter(names[after[1]])
        names = names[:after[1]] + names[after[1] + 1:]
    check("after %r the" % (after,))
    return after[0], 1


def _late_counts():
    ids = IDS[:3]
    for e in gen.dags(ids):
        for red in gen.subsets(ids):
            for names in gen.subsets(("red", "number", "name")):
                # without refresh a count starts with its first filter
                for refresh in (True, False) if names else (True,):
                    for after in [(k, i) for k in ("col", "del", "delr",
                                                   "add") for i in ids] + \
                            [("unapply", k) for k in range(len(names))]:
                        yield ids, e, red, refresh, names, after
