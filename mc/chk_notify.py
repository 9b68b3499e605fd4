"""C15, C16, C19: observers and the independence of views."""
import itertools

from lib import IDS, Tree, N
from oracle import need
from chk_view import _starts, _shape_starts, _name
from sys_notify import ObsSys, MainSys, EVENTS
from sys_indep import IndepSys
from sys_alias import AliasSys
from sys_two import TwoSys
from sys_view import ALL, CORE


def C15(run):
    run.assume += ["whether an observer that is registered or dropped while "
                   "a notification is delivered gets that very notification "
                   "is left open"]
    for which in ("view", "main"):
        run.bfs("2 ids, two observers, %s" % which, ObsSys(2, which))
    for e in EVENTS["view"]:
        run.bfs("2 ids, three observers of " + e,
                ObsSys(2, "view", 3, events=(e,)),
                depth=5 if run.quick else None, seconds=3600)


def C16(run):
    run.bfs("2 ids with deferred relationships",
            MainSys(2, pending=True, decl=True))
    run.bfs("3 ids", MainSys(3))
    run.bfs("3 ids with deferred relationships",
            MainSys(3, pending=True, decl=True), depth=5 if run.quick else 7,
            seconds=3600)
    run.bfs("4-node graphs", MainSys(4), depth=1 if run.quick else 2,
            starts=_starts(4, reds=[()]), seconds=3600)
    for n, st in _shape_starts().items():
        run.bfs("larger shapes, %d nodes" % n, MainSys(n),
                depth=1 if run.quick else 2, starts=st, seconds=3600)


def C19(run):
    run.assume += ["two filters at a time; parameters are judged separately"]
    run.bfs("2 ids, filters red and leaf", IndepSys(2, edits="few",
                                                    late=False))
    run.bfs("2 ids, with views created later",
            IndepSys(2, ("red", "flatred")), depth=4 if run.quick else 7,
            seconds=3600)
    st = _starts(3)
    run.bfs("3-node graphs", IndepSys(3, ("red", "leaf")),
            depth=1 if run.quick else 2, starts=st, seconds=3600)
    run.bfs("3-node graphs, flat", IndepSys(3, ("flatred", "below")),
            depth=1 if run.quick else 2, starts=st, seconds=3600)
    run.findings("one filter with parameters in two views", _shared,
                 itertools.product("12", "12", ("nothing", "modify",
                                                  "refilter")))


def _shared(case):
    """Views x and y apply the same filter, each with its own parameters."""
    px, py, then = case
    t = Tree()
    t.add_filter("pick", lambda node, parameters=None:
                 parameters is None or node.rev == parameters["v"])
    t.add_filter("all", lambda node, parameters=None: True)
    for i, rev in (("a", 1), ("b", 2)):
        n = N(i)
        n.rev = rev
        t.add_node(n)
    x, y = t.get_viewtree(name="x"), t.get_viewtree(name="y")
    for v, p in ((x, px), (y, py)):
        v.apply_filter("pick", parameters={"v": int(p)})
    if then == "modify":
        t.refresh_all()
    elif then == "refilter":
        x.apply_filter("all")
        y.apply_filter("all")
    for name, v, p in (("x", x, px), ("y", y, py)):
        want = {"1": ["a"], "2": ["b"]}[p]
        need(sorted(v.get_all_nodes()) == want, "view", name, "applied the "
             "filter with parameter", p, "and shows", v.get_all_nodes())
    return then, 1


def C23(run):
    run.assume += ["node objects and the objects applications pass in are "
                   "shared on purpose, only containers the library returns "
                   "are overwritten"]
    for v in ((), ("red",)) if run.quick else ALL:
        run.bfs("3 ids, view " + _name(v), AliasSys(3, (v,)))
    run.bfs("2 ids, several views", AliasSys(2, CORE))
    run.bfs("3 ids, several views and deferred relationships",
            AliasSys(3, CORE[:5], pending=True, decl=True),
            depth=3 if run.quick else 5, seconds=3600)
    run.bfs("4-node graphs", AliasSys(4, CORE[:5]), depth=1,
            starts=_starts(4, reds=[(), IDS[:4], ("a", "c")]))


def C24(run):
    run.assume += ["a node object is in one tree at a time"]
    run.bfs("2 ids, all edits", TwoSys(2), depth=5 if run.quick else 7,
            seconds=3600)
    run.bfs("2 ids, few edits, no deferred relationships",
            TwoSys(2, edits=False, pending=False),
            depth=7 if run.quick else None, seconds=7200)
    run.bfs("2 ids, declared relationships", TwoSys(2, decl=True),
            depth=4 if run.quick else 6, seconds=3600)
    run.bfs("3 ids, few edits", TwoSys(3, edits=False),
            depth=4 if run.quick else 6, seconds=3600)
