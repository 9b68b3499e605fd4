"""C12, C13: what widgets build on: the GTK model, queued actions."""
from lib import IDS
from chk_view import _starts, _name, _shape_starts
from sys_model import ModelSys
from sys_queue import QueueSys, KINDS
from sys_view import ALL, CORE


def C12(run):
    run.assume += ["the GTK model is explored without a display; it is a "
                   "Gtk.TreeStore, which needs none"]
    few = ((), ("red",), ("flatred",), ("below",))
    less = ("refresh", "refall", "addp") if run.quick else ()
    run.bfs("3 ids, no filter, no data changes",
            ModelSys(3, ((),), skip=less + ("col",)))
    run.bfs("3 ids, sorted, few edits",
            ModelSys(3, ((),), sort=True, skip=(
                "refresh", "refall", "addp", "move", "delr", "remp")))
    run.bfs("3 ids, view red, few edits", ModelSys(3, (("red",),), skip=(
        "refresh", "refall", "addp", "move", "delr")))
    if not run.quick:
        for v in ALL:
            run.bfs("3 ids, view " + _name(v), ModelSys(3, (v,)))
        for v in CORE:
            run.bfs("3 ids, sorted, view " + _name(v),
                    ModelSys(3, (v,), sort=True))
    run.bfs("2 ids, connecting later, changing a column",
            ModelSys(2, few, late=True))
    run.bfs("4-node graphs", ModelSys(4, CORE[:5] if run.quick else ALL), depth=1,
            starts=_starts(4))
    run.bfs("4-node graphs, sorted",
            ModelSys(4, ((), ("red",)), sort=True, late=True), depth=1,
            starts=_starts(4))
    run.bfs("4-node graphs, no filter, two operations",
            ModelSys(4, ((),)), depth=2,
            starts=_starts(4, reds=[(), IDS[:4]] if run.quick else None),
            seconds=3600)
    for n, st in _shape_starts().items():
        run.bfs("larger shapes, %d nodes" % n, ModelSys(n, CORE, late=True),
                depth=1, starts=st)


def C13(run):
    run.assume += ["actions do not raise and do not edit the tree"]
    for v, tog in (((), ("red",)), (("red",), ("flatred",)), (("below",), ()),
                   (("flatred",), ())):
        run.bfs("2 ids, view " + _name(v), QueueSys(2, v, toggle=tog,
                most=(2 if v == () else 1) if run.quick else 3,
                kinds=KINDS if v != () or not run.quick else KINDS[1:]),
                seconds=3600)
    run.bfs("3 ids, view red", QueueSys(3, ("red",), most=1,
            kinds=("plain",)), depth=6 if run.quick else None, seconds=3600)
    for a, b in (("added", "modified"), ("deleted", "reordered"),
                 ("runonce", "node-added")):
        run.bfs("nodes %s and %s" % (a, b),
                QueueSys(2, ("red",), ids=(a, b), kinds=("plain",)))
    acts = [(("queue", i, k),) for i in IDS[:4] for k in KINDS]
    st = [s + a for s in _starts(4, reds=[(), IDS[:4], ("b",), ("a", "d")])
          for a in acts]
    run.bfs("4-node graphs, one action, one edit", QueueSys(4, ("red",),
            kinds=(), most=0), depth=1, starts=st)
