"""C20 ...: the GTK widget, on a private X server without a screen."""
import ctypes
import itertools
import os
import signal
import subprocess
import time

import gi
gi.require_version("Gtk", "3.0")
os.environ.pop("DISPLAY", None)
from gi.repository import Gtk  # noqa: E402

import engine  # noqa: E402
import filters  # noqa: E402
import gen  # noqa: E402
import sys_model  # noqa: E402, F401
import liblarch_gtk  # noqa: E402
from lib import Tree, N, IDS  # noqa: E402
from oracle import need, read_graph, view_tree  # noqa: E402
from ref import Ref, Refused  # noqa: E402
from sys_view import ALL, CORE  # noqa: E402

DISPLAY = None
POS = Gtk.TreeViewDropPosition


class XServer:
    """A virtual X server that ends with this process."""

    def __enter__(self):
        global DISPLAY
        r, w = os.pipe()

        def die():
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)
        self.p = subprocess.Popen(
            ["Xvfb", "-displayfd", str(w), "-screen", "0", "640x480x24",
             "-nolisten", "tcp", "-noreset", "-maxclients", "512"], pass_fds=[w],
            preexec_fn=die, stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL)
        os.close(w)
        with os.fdopen(r) as f:
            DISPLAY = ":" + f.readline().strip()
        if DISPLAY == ":":
            raise SystemExit("Xvfb does not start: the GTK widget cannot be "
                             "checked here")

    def __exit__(self, *a):
        self.p.kill()
        self.p.wait()


def init():
    engine.worker_init()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    os.environ["DISPLAY"] = DISPLAY
    for _ in range(5):
        if Gtk.init_check(None)[0]:
            return
        time.sleep(1)
    raise SystemExit("no display")


def columns(rank=None):
    return {"title": {"value": [str, lambda n: n.get_id()],
                      "renderer": ["markup", Gtk.CellRendererText()],
                      "order": 0},
            "colour": {"value": [bool, lambda n: bool(n.red)],
                       "visible": False, "order": 1}}


def make(ids, edges, red, names):
    t = Tree()
    table = filters.install(t)
    ref = Ref()
    for i in ids:
        t.add_node(N(i, i in red))
        ref.add(i)
    for p, c in edges:
        t.add_parent(c, p)
        ref.add_parent(c, p)
    v = t.get_viewtree(refresh=not names)
    for f in names:
        v.apply_filter(f)
    return t, v, ref, table


def rows(model):
    """[(path of ids, Gtk path)] in display order"""
    out = []

    def go(prefix, it):
        k = model.iter_children(it) if it else model.get_iter_first()
        while k:
            p = prefix + (model.get_value(k, 0),)
            out.append((p, model.get_path(k)))
            go(p, k)
            k = model.iter_next(k)
    go((), None)
    return out


class Data:
    """Stands in for Gtk.SelectionData"""
    def __init__(self):
        self.data = None

    def get_target(self):
        return "target"

    def set(self, target, bits, data):
        need(target == "target", "another target")
        self.data = bytes(data)

    def get_data(self):
        return self.data


class Source:
    """The widget the rows are dragged from, with a given selection"""
    def __init__(self, model, paths):
        self.model = model
        self.paths = paths

    def get_selection(self):
        return self

    def get_selected_rows(self):
        return self.model, self.paths

    def get_model(self):
        return self.model


class Dest:
    def __init__(self, model, where):
        self.model = model
        self.where = where

    def get_model(self):
        return self.model

    def get_dest_row_at_pos(self, x, y):
        return self.where


def C20(run):
    run.assume += [
        "the widget runs on a virtual X server; the selection and the place "
        "of the drop are given to the handlers the widget registers, the way "
        "GTK gives them",
        "of rows dragged together none shows a node above another's"]
    with XServer():
        views = CORE if run.quick else ALL
        ids = IDS[:3]
        run.cases("within one widget, 3 ids, any selection", _move, [
            (ids, e, red, v, 3, (0, 1, 2, 3)) for e in gen.dags(ids)
            for red in gen.subsets(ids) for v in views],
            chunk=1, init=init)
        ids = IDS[:4]
        reds = list(gen.subsets(ids))
        run.cases("within one widget, 4-node graphs, two rows", _move, [
            (ids, e, red, v, 2, (0, 2)) for e in gen.iso_dags(ids)
            for red in (((), ids, ("a", "c")) if run.quick else reds)
            for v in views], chunk=1, init=init)
        run.cases("between widgets", _external, [
            (e, red, v, k) for e in (gen.iso_dags if run.quick else
                                     gen.dags)(IDS[:3])
            for red in gen.subsets(IDS[:3]) for v in views for k in range(
                len(ACTS))], chunk=1, init=init)


def _move(case):
    ids, edges, red, names, most, positions = case
    n = 0
    t, v, ref, table = make(ids, edges, red, names)
    count = len(ordered(v))
    for pick in subsets(count, most):
        for where in [None] + [(k, p) for k in range(count)
                               for p in positions]:
            n += one(case, pick, where)
    return len(edges), n


def _record(tree, source):
    pass


def _uncolour(tree, source):
    n = tree.get_node(source)
    n.red = not n.red
    n.modified()


def _delete(tree, source):
    tree.del_node(source)


def _promote(tree, source):
    tree.move_node(source, None)


ACTS = (_record, _uncolour, _delete, _promote)


def _external(case):
    """Rows of one widget dropped on another: the function registered for
    the target is called once per row, whatever it does to the source."""
    edges, red, names, act = case
    n = 0
    count = len(ordered(make(IDS[:3], edges, red, names)[1]))
    for pick in subsets(count, 2):
        for where in [None] + [(k, p) for k in (0, 1) for p in range(4)]:
            n += 1
            t, v, ref, table = make(IDS[:3], edges, red, names)
            src = liblarch_gtk.TreeView(v, columns())
            src.set_dnd_name("test/rows")
            t2, v2, _, _ = make(("x", "y"), (("x", "y"),), (), ())
            dst = liblarch_gtk.TreeView(v2, columns())
            dst.set_dnd_name("test/places")
            calls, wrong = [], []

            def f(source, dest):
                calls.append((source, dest))
                ACTS[act](t, source)
            dst.set_dnd_external("test/nothing", lambda *a: wrong.append(a))
            dst.set_dnd_external("test/rows", f)
            rs, rd = rows(src.get_model()), rows(dst.get_model())
            dest, place = None, None
            if where is not None:
                place = (rd[where[0]][1], POS(where[1]))
                dest = where_to(rd[where[0]][0], place[1])
            nodes = [rs[k][0][-1] for k in pick]
            if ACTS[act] is _delete and len(set(nodes)) < len(nodes):
                continue
            g = read_graph(t)
            Gtk.drag_get_source_widget = lambda context: src
            data = Data()
            src.on_drag_data_get(Source(src.get_model(), [
                rs[k][1] for k in pick]), None, data, 2, 0)
            dst.on_drag_data_received(Dest(dst.get_model(), place), None, 1,
                                      1, data, 2, 0)
            need(not wrong, "the function of another target was called")
            need(calls == ([(i, dest) for i in nodes] if dest else []),
                 "dropping rows", [rs[k][0] for k in pick], "on", where, dest,
                 "with", ACTS[act].__name__, "called the function with",
                 calls)
            need(read_graph(t2)[1:3] == ({"x": [], "y": ["x"]},
                                         {"x": ["y"], "y": []}),
                 "the receiving tree changed")
            need(act or read_graph(t) == g, "the source tree changed")
    return ACTS[act].__name__, n


def where_to(p, pos):
    if pos in (POS.BEFORE, POS.AFTER):
        return p[-2] if len(p) > 1 else None
    return p[-1]


def subsets(n, most):
    for k in range(0, most + 1):
        yield from itertools.combinations(range(n), k)
    if n > most:
        yield tuple(range(n))


def one(case, pick, where):
    ids, edges, red, names = case[:4]
    t, v, ref, table = make(ids, edges, red, names)
    w = liblarch_gtk.TreeView(v, columns())
    w.set_dnd_name("test/rows")
    rs = rows(w.get_model())
    dest, place = None, None
    if where is not None:
        k, pos = where
        place = (rs[k][1], POS(pos))
        dest = where_to(rs[k][0], POS(pos))
    said = (pick, [rs[k][0] for k in pick], where, dest)
    if any(rs[a][0][-1] in ref.anc(rs[b][0][-1])
           for a in pick for b in pick
           if rs[a][0][-1] != rs[b][0][-1]):
        return 0
    for k in pick:
        try:
            ref.move(rs[k][0][-1], dest)
        except Refused:
            pass
    data = Data()
    w.on_drag_data_get(Source(w.get_model(), [rs[k][1] for k in pick]), None,
                       data, 0, 0)
    w.on_drag_data_received(Dest(w.get_model(), place), None, 1, 1, data, 0,
                            0)
    nodes, par, kid, root = read_graph(t)
    need(sorted(nodes) == sorted(ref.par), "dropping", said, "left nodes",
         nodes)
    for i in nodes:
        need(par[i] == ref.par[i] and kid[i] == ref.kid[i], "dropping", said,
             "left", i, "with parents", par[i], "children", kid[i],
             "instead of", ref.par[i], ref.kid[i])
    need(root == ref.root, "dropping", said, "left the root", root)
    need([r for r, _ in rows(w.get_model())] == ordered(v), "dropping", said,
         "left the rows", [r for r, _ in rows(w.get_model())])
    return 1


def ordered(v):
    vt = view_tree(v)
    out = []

    def go(p):
        for c in vt[p]:
            out.append(p + (c,))
            go(p + (c,))
    go(())
    return out
