"""The GTK widget on a view: what is expanded, selected, sorted (C21, C22)."""
import sys

from chk_gtk import Gtk, columns, rows, ordered, liblarch_gtk, subsets
from gi.repository import GLib, Gdk
from engine import canon
from lib import Tree
import filters
from oracle import need, view_tree
from sys_view import ViewSys, World, VMERGE


def settle():
    c = GLib.MainContext.default()
    for _ in range(1000):
        if not c.iteration(False):
            return
    need(False, "the main loop never gets idle")


ERRORS = []


def watch():
    """GTK prints what a Python callback raises, and goes on."""
    del ERRORS[:]
    sys.excepthook = lambda t, e, tb: ERRORS.append("%s: %s" % (
        t.__name__, e))


def quiet_callbacks(what):
    need(not ERRORS, what, "a callback raised", ERRORS)


def memory(o):
    """What a widget remembers about paths and ids: all its attributes that
    are plain data, sets of paths being compared by what they hold."""
    def plain(x):
        if x is None or isinstance(x, (str, int, float, bool)):
            return True
        if isinstance(x, dict):
            return all(plain(k) and plain(v) for k, v in x.items())
        return isinstance(x, (list, tuple, set, frozenset)) and all(
            map(plain, x))

    def norm(x):
        if isinstance(x, (set, frozenset)):
            return sorted(map(repr, map(norm, x)))
        if isinstance(x, dict):
            return sorted((repr(k), repr(norm(v))) for k, v in x.items())
        if isinstance(x, (list, tuple)):
            if x and all(isinstance(c, (list, tuple)) and c for c in x):
                return sorted({c[-1] for c in x})
            return [norm(c) for c in x]
        return x
    return sorted((k, repr(norm(v))) for k, v in vars(o).items() if plain(v))


class ExpandSys(ViewSys):
    """Edits, and collapsing and expanding nodes, displayed or not.  With
    `before`, the tree exists before the widget."""

    def __init__(self, n, view, ctl=True, skip=(), sort=False, **kw):
        ViewSys.__init__(self, n, (view,), **kw)
        self.ctl = ctl
        self.skip = skip
        self.sort = sort

    def fresh(self):
        w = World()
        t = w.tree = Tree()
        w.table = filters.install(t)
        names = self.views[0]
        v = t.get_viewtree(refresh=not names)
        for f in names:
            v.apply_filter(f)
        w.views = [(names, v, None)]
        w.widget = None
        w.collapsed, w.touched, w.told = set(), set(), []
        w.pending = set()
        return w

    def ops(self, w):
        for op in ViewSys.ops(self, w):
            if op[0] not in self.skip:
                yield op
        if not w.widget:
            yield ("widget",)
        elif self.ctl:
            v = w.views[0][1]
            for i in self.ids:
                if i not in w.pending:
                    yield ("collapse", i)
                    yield ("expand", i)

    def run(self, w, op):
        k = op[0]
        if k == "widget":
            w.widget = liblarch_gtk.TreeView(w.views[0][1], columns())
            for s in ("node-expanded", "node-collapsed"):
                w.widget.connect(s, self.hear, w, s)
            out = k
        elif k in ("collapse", "expand"):
            v = w.views[0][1]
            if not v.is_displayed(op[1]):
                w.pending.add(op[1])
            (w.widget.collapse_node if k == "collapse" else
             w.widget.expand_node)(("some", "where", op[1]))
            (w.collapsed.add if k == "collapse" else
             w.collapsed.discard)(op[1])
            w.touched.add(op[1])
            out = k
        else:
            out = ViewSys.run(self, w, op)
            v = w.views[0][1]
            w.pending = {i for i in w.pending if not v.is_displayed(i)}
        settle()
        return out

    def hear(self, widget, path, w, s):
        w.told.append((s, path))

    def step(self, w, op):
        before = dict(self.state(w))
        del w.told[:]
        watch()
        out = self.run(w, op)
        quiet_callbacks(op)
        self.check(w, op)
        if op[0] in ("collapse", "expand"):
            want = []
            for r, ex in self.state(w):
                if r[-1] == op[1]:
                    if ex != before[r]:
                        want.append(("node-%sed" % op[0].replace(
                            "collapse", "collaps").replace("expand", "expand"),
                            str(r)))
            need(sorted(w.told) == sorted(want), op, "announced", w.told,
                 "instead of", want)
            for r, ex in before.items():
                if r[-1] != op[1] and not any(
                        r[:k + 1][-1] == op[1] for k in range(len(r))):
                    need(dict(self.state(w))[r] == ex, op, "changed row", r)
        return out

    def state(self, w):
        """[(row, expanded)] of the rows with children"""
        if not w.widget:
            return []
        m = w.widget.get_model()
        return [(r, bool(w.widget.row_expanded(p))) for r, p in rows(m)
                if m.iter_has_child(m.get_iter(p))]

    def check(self, w, op=None):
        if not w.widget:
            return
        m = w.widget.get_model()
        v = w.views[0][1]
        rs = rows(m)
        need([r for r, _ in rs] == ordered(v), "rows are", [r for r, _ in rs])
        for r, expanded in self.state(w):
            if r[-1] in w.collapsed:
                need(not expanded, "row", r, "is expanded although its node "
                     "is collapsed")
            elif not set(r[:-1]) & w.touched:
                need(expanded, "row", r, "is not expanded")

    def key(self, w):
        rs = []
        extra = None
        if w.widget:
            m = w.widget.get_model()
            rs = [(r, bool(w.widget.row_expanded(p))) for r, p in rows(m)]
            extra = memory(w.widget)
        return canon(w.tree, [w.views[0][1]], rs, extra, sorted(w.collapsed),
                     sorted(w.touched), sorted(w.pending), bool(w.widget),
                     **VMERGE)


def order(a, b, how):
    """red first, then from z to a"""
    need(how in (Gtk.SortType.ASCENDING, Gtk.SortType.DESCENDING),
         "sort function called with order", how)
    x, y = ((not n.red, -ord(n.get_id()[0])) for n in (a, b))
    return (x > y) - (x < y)


def colour(node, default):
    need(isinstance(default, Gdk.Color), "no default colour")
    return "#FF0000" if node.red else \
        "#000000" if node.has_child() else \
        "#FFFFFF" if node.has_parent() else None


class SortSys(ViewSys):
    """Edits, and changes of the column and direction of sorting; in every
    state every selection, every cell colour."""

    def __init__(self, n, view, skip=(), **kw):
        ViewSys.__init__(self, n, (view,), **kw)
        self.skip = skip

    def fresh(self):
        w = World()
        t = w.tree = Tree()
        w.table = filters.install(t)
        names = self.views[0]
        v = t.get_viewtree(refresh=not names)
        for f in names:
            v.apply_filter(f)
        w.views = [(names, v, None)]
        w.widget = None
        w.by = None
        return w

    def ops(self, w):
        for op in ViewSys.ops(self, w):
            if op[0] not in self.skip:
                yield op
        if not w.widget:
            yield ("widget",)
        else:
            for c in ("title", "number"):
                for d in (0, 1):
                    yield ("sort", c, d)

    def run(self, w, op):
        k = op[0]
        if k == "widget":
            cell = w.cell = Gtk.CellRendererText()
            w.widget = liblarch_gtk.TreeView(w.views[0][1], {
                "number": {"value": [int, lambda n: ord(n.get_id()[0])],
                           "renderer": ["text", Gtk.CellRendererText()],
                           "sorting": "number", "order": 2},
                "title": {"value": [str, lambda n: n.get_id()],
                          "renderer": ["markup", cell],
                          "sorting_func": order, "order": 3},
                "back": {"value": [str, lambda n: None],
                         "visible": False, "order": 1}})
            w.widget.set_bg_color(colour, "back")
            w.widget.set_multiple_selection(True)
            w.tree.refresh_all()
            settle()
            return k
        if k == "sort":
            w.by = (op[1], op[2])
            w.widget.set_sort_column(op[1], Gtk.SortType(op[2]))
            need(w.widget.get_sort_column() == (op[1], Gtk.SortType(op[2])),
                 "get_sort_column is", w.widget.get_sort_column())
            settle()
            return k
        out = ViewSys.run(self, w, op)
        settle()
        return out

    def step(self, w, op):
        watch()
        out = self.run(w, op)
        quiet_callbacks(op)
        self.check(w, op)
        quiet_callbacks(op)
        return out

    def check(self, w, op=None):
        if not w.widget:
            return
        m = w.widget.get_model()
        vt = view_tree(w.views[0][1])
        want = []

        def go(p):
            kids = list(vt[p])
            if w.by:
                kids.sort(key=lambda i: -ord(i[0]))
                if w.by[0] == "number":
                    kids.reverse()
                else:
                    kids.sort(key=lambda i: not w.tree.get_node(i).red)
                if w.by[1]:
                    kids.reverse()
            for i in kids:
                want.append(p + (i,))
                go(p + (i,))
        go(())
        rs = rows(m)
        need([r for r, _ in rs] == want, "sorted by", w.by, "rows are",
             [r for r, _ in rs], "instead of", want)
        col, = [c for c in Gtk.TreeView.get_columns(w.widget)
                if w.cell in c.get_cells()]
        for r, p in rs:
            node = w.tree.get_node(r[-1])
            col.cell_set_cell_data(m, m.get_iter(p), False, False)
            c = w.cell.get_property("cell-background-rgba")
            got = None
            if w.cell.get_property("cell-background-set"):
                got = "#%02X%02X%02X" % tuple(
                    round(255 * x) for x in (c.red, c.green, c.blue))
            need(got == colour(node, Gdk.Color(0, 0, 0)), "row", r, "has background",
                 got)
            dark = got not in ("#FFFFFF", None)
            need(bool(w.cell.get_property("foreground-set")) == dark, "row",
                 r, "on", got, "has the wrong text colour")
            need(w.cell.get_property("text") == r[-1], "row", r, "shows",
                 w.cell.get_property("text"))
        sel = w.widget.get_selection()
        for pick in subsets(len(rs), 2):
            sel.unselect_all()
            for k in pick:
                sel.select_path(rs[k][1])
            got = w.widget.get_selected_nodes()
            need(got == [rs[k][0][-1] for k in pick], "selecting rows",
                 [rs[k][0] for k in pick], "selects nodes", got)
        sel.unselect_all()

    def key(self, w):
        rs = w.widget and [r for r, _ in rows(w.widget.get_model())]
        return canon(w.tree, [w.views[0][1]], rs, w.by, **VMERGE)
