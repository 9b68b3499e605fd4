"""C05 - C08: filtered views."""
import gen
from lib import IDS
from sys_view import ViewSys, ALL, CORE
from sys_filter import FilterSys
from sys_late import LateSys


def _starts(n, iso=True, reds=None):
    ids = IDS[:n]
    return [gen.build(ids, e, red)
            for e in (gen.iso_dags(ids) if iso else gen.dags(ids))
            for red in (reds or gen.subsets(ids))]


def _name(view):
    return "+".join(view) or "no filter"


def _shape_starts():
    out = {}
    for name, ids, edges in gen.shapes():
        out.setdefault(len(ids), []).extend(
            gen.build(ids, edges, red)
            for red in ((), ids, ids[::2], ids[1::2], ids[:1], ids[-1:]))
    return out


def _views(run, judge):
    run.assume += [
        "filters are functions of the node, its direct relations and its "
        "descendants, and the application calls modified()/refresh_node() "
        "after changing the data a filter looks at",
        "views are explored one at a time in the closed parts (their "
        "independence is C16)"]
    # every history over 3 nodes, one view at a time
    for v in ALL:
        run.bfs("3 ids, view " + _name(v), ViewSys(3, (v,), judge=judge))
    # nodes that accept no children or no parents
    run.bfs("2 ids, nodes that refuse relations",
            ViewSys(2, ALL, flags=True, judge=judge))
    run.bfs("3 ids, nodes that refuse relations",
            ViewSys(3, CORE, flags=True, judge=judge),
            depth=4 if run.quick else 5, seconds=2400)
    # relationships that wait for a node, declared before or after
    run.bfs("3 ids, deferred relationships",
            ViewSys(3, CORE, pending=True, decl=True, judge=judge),
            depth=4 if run.quick else 5, seconds=2400)
    # every 4-node graph x colouring x operation, all views at once
    run.bfs("4-node graphs, all views", ViewSys(4, ALL, judge=judge),
            depth=1, starts=_starts(4))
    for n, st in _shape_starts().items():
        run.bfs("larger shapes, %d nodes" % n, ViewSys(n, ALL, judge=judge),
                depth=1, starts=st)
    if not run.quick:
        run.bfs("labelled 4-node graphs", ViewSys(4, ALL, judge=judge),
                depth=1, starts=_starts(4, iso=False), seconds=3600)
        for v in ALL:
            run.bfs("4-node graphs, view %s, two operations" % _name(v),
                    ViewSys(4, (v,), judge=judge), depth=2,
                    starts=_starts(4), seconds=900)
        run.bfs("5-node graphs", ViewSys(5, CORE, judge=judge), depth=1,
                starts=_starts(5, reds=[(), IDS[:5], IDS[:5:2], IDS[1:5:2],
                                        ("a",), ("e",), ("c",)]),
                seconds=3600)


def C05(run):
    _views(run, ("view",))


def C06(run):
    _views(run, ("mirror",))


def C08(run):
    _views(run, ("rows",))


def C07(run):
    run.assume += ["filter parameters are kept in the bank, so a parametrised "
                   "filter is explored with one view at a time"]
    run.bfs("2 ids, edits and immediate filter changes",
            FilterSys(2, lazy=False))
    run.bfs("2 ids, edits and deferred filter changes",
            FilterSys(2, lazy=True, params=False))
    run.bfs("2 ids, deferred changes and parameters", FilterSys(2),
            depth=5 if run.quick else None, seconds=3600)
    st3 = _starts(3)
    run.bfs("3-node graphs, six filters and parameters",
            FilterSys(3, ("red", "leaf", "flatred", "below", "notred",
                          "child"), lazy=False, adds=False, edits=False),
            depth=2 if run.quick else 4, starts=st3, seconds=3600)
    run.bfs("3-node graphs, recolouring",
            FilterSys(3, ("red", "leaf", "flatred", "below"), lazy=False,
                      adds=False, params=False), starts=st3)
    run.bfs("4-node graphs",
            FilterSys(4, ("red", "leaf", "flatred", "below", "redleaf",
                          "flatbelow"), lazy=False, adds=False, edits=False),
            depth=1 if run.quick else 2, starts=_starts(4), seconds=3600)
    for n, st in _shape_starts().items():
        run.bfs("larger shapes, %d nodes" % n,
                FilterSys(n, ("red", "leaf", "flatred", "below"), lazy=False,
                          adds=False), depth=2 if run.quick else 3,
                starts=st, seconds=1800)
    run.bfs("2 ids, filters leaving and entering the bank",
            FilterSys(2, ("red", "flatred"), params=False, bank=True),
            depth=None, seconds=600)


def C14(run):
    run.assume += ["next_node without a parent may pick any of the parents"]
    nav = ("nav",)
    for v in (("red",), ("flatred",), ("below",)) if run.quick else ALL:
        run.bfs("3 ids, view " + _name(v), ViewSys(3, (v,), judge=nav))
    run.bfs("4-node graphs", ViewSys(4, CORE, judge=nav), depth=1,
            starts=_starts(4))
    for n, st in _shape_starts().items():
        run.bfs("larger shapes, %d nodes" % n, ViewSys(n, CORE, judge=nav),
                depth=1, starts=st)
    run.cases("asked for the first time on an existing tree", _late_nav,
              ((IDS[:n], e, red) for n in (1, 2, 3, 4) for e in gen.iso_dags(IDS[:n])
               for red in gen.subsets(IDS[:n])), chunk=20)
    if not run.quick:
        run.bfs("5-node graphs", ViewSys(5, CORE, judge=nav), depth=1,
                starts=_starts(5, reds=[(), IDS[:5], ("a", "c")]),
                seconds=3600)


def _late_nav(case):
    ids, edges, red = case
    from lib import Tree, N
    from oracle import check_nav
    import filters
    for f in ((), ("red",), ("flatred",)):
        t = Tree()
        filters.install(t)
        for i in ids:
            t.add_node(N(i, i in red))
        for p, c in edges:
            t.add_parent(c, p)
        v = t.get_viewtree(refresh=not f)
        for x in f:
            v.apply_filter(x)
        check_nav(v, IDS[:5])
        check_nav(t.get_main_view(), IDS[:5])
    return "ok", 3


def C17(run):
    run.assume += ["at a deletion the deleted row may still be listed"]
    reads = ("reads",)
    for v in ((), ("red",), ("flatred",), ("below",)) if run.quick else ALL:
        run.bfs("3 ids, view " + _name(v), ViewSys(3, (v,), judge=reads))
    run.bfs("3 ids, deferred relationships",
            ViewSys(3, CORE, pending=True, decl=True, judge=reads),
            depth=4 if run.quick else 5, seconds=3600)
    run.bfs("created by observers, 3-node graphs", LateSys(3, ((), ("red",))),
            depth=1 if run.quick else 2, starts=_starts(3), seconds=3600)
    run.bfs("4-node graphs", ViewSys(4, CORE if run.quick else ALL,
                                     judge=reads), depth=1,
            starts=_starts(4))
    for n, st in _shape_starts().items():
        run.bfs("larger shapes, %d nodes" % n, ViewSys(
            n, ((), ("red",), ("below",)) if run.quick else CORE,
            judge=reads),
                depth=1, starts=st)
