"""C21, C22: the GTK widget while the tree changes."""
from lib import IDS
import gen
from chk_gtk import XServer, init
from chk_view import _starts, _name, _shape_starts
from sys_view import ALL, CORE
from sys_widget import ExpandSys, SortSys
from sys_columns import one, two, separators, descriptions

VIEWS = ((), ("red",), ("flatred",), ("below",))
SHOWN = ["the widget runs on a virtual X server without being mapped; the "
         "main loop runs until it is idle after every operation"]


def _later(starts):
    return [s + (("widget",),) for s in starts]


def _reds(quick):
    return [(), IDS[:4], ("a", "c")] if quick else list(gen.subsets(IDS[:4]))


def C21(run):
    run.assume += SHOWN
    views = VIEWS if run.quick else ALL
    with XServer():
        for v in views:
            run.bfs("2 ids, view " + _name(v), ExpandSys(2, v),
                    depth=6 if run.quick else 12, init=init, seconds=1800)
            run.bfs("3 ids, view " + _name(v), ExpandSys(3, v),
                    depth=5 if run.quick else 7, init=init, seconds=1800)
            run.bfs("3 ids, nothing collapsed, view " + _name(v),
                    ExpandSys(3, v, ctl=False, skip=("refresh", "refall")),
                    depth=6 if run.quick else 9, init=init, seconds=1800)
            run.bfs("4-node graphs, view " + _name(v), ExpandSys(4, v),
                    depth=1 if run.quick else 2, init=init, seconds=1800,
                    starts=_later(_starts(4, reds=_reds(run.quick))))
        for n, st in _shape_starts().items():
            for v in VIEWS[:2]:
                run.bfs("larger shapes, %d nodes, view %s" % (n, _name(v)),
                        ExpandSys(n, v), depth=1, starts=_later(st),
                        init=init)


def C22(run):
    run.assume += SHOWN + [
        "the sort function is a total order on the node's own data"]
    views = VIEWS if run.quick else ALL
    with XServer():
        for v in views:
            run.bfs("2 ids, view " + _name(v), SortSys(2, v),
                    depth=6 if run.quick else 10, init=init, seconds=1800)
            run.bfs("3 ids, view " + _name(v), SortSys(3, v),
                    depth=5 if run.quick else 7, init=init, seconds=1800)
            run.bfs("4-node graphs, view " + _name(v), SortSys(4, v),
                    depth=1 if run.quick else 2, init=init, seconds=1800,
                    starts=[s + (("sort", c, d),) for s in _later(
                        _starts(4, reds=_reds(run.quick)))
                        for c in ("title", "number") for d in (0, 1)])
        for n, st in _shape_starts().items():
            for v in VIEWS[:2]:
                run.bfs("larger shapes, %d nodes, view %s" % (n, _name(v)),
                        SortSys(n, v), depth=1, init=init,
                        starts=[s + (("sort", "title", 0),)
                                for s in _later(st)])


def C25(run):
    run.assume += SHOWN[:1] + [
        "a column that joins the previous one is not given options of its "
        "own; columns have at most one way of sorting"]
    with XServer():
        for n in (1, 2):
            run.cases("%d columns, all options" % n, one, list(
                descriptions(n, True)), chunk=16, init=init)
        for n in (1, 2, 3):
            run.cases("%d columns, all ways of sorting" % n, one, list(
                descriptions(n, False)), chunk=16, init=init)
        run.cases("two widgets of one description", two, [
            (n, which, c, tup) for n in (1, 2, 3) for which in (0, 1)
            for c in (0, 2) if c < n for tup in (False, True)], chunk=1,
            init=init)
        run.cases("separators", separators, [
            (s, then) for s in gen.subsets("abcde") for then in (
                "nothing", "none", "move", "add", "other")], chunk=4,
            init=init)
