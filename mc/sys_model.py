"""GTK tree models fed by filtered views (C12)."""
import gi
gi.require_version("Gtk", "3.0")
from gi.repository import Gtk  # noqa: E402

from lib import Tree, REPO  # noqa: E402
import os  # noqa: E402
import liblarch_gtk.treemodel as _tm  # noqa: E402
from engine import canon  # noqa: E402
from oracle import need, view_tree  # noqa: E402
import filters  # noqa: E402
from sys_view import ViewSys, World, VMERGE, subtree  # noqa: E402

if not os.path.abspath(_tm.__file__).startswith(
        os.path.abspath(REPO) + os.sep):
    raise SystemExit("liblarch_gtk was not loaded from %s" % REPO)


class Columns:
    """What the application shows: own data, the whole subtree as text, a
    number that sorts."""
    def __init__(self, tree):
        self.tree = tree

    def red(self, node):
        return bool(node.red)

    def text(self, node):
        return repr(subtree(self.tree, node.get_id()))

    def other(self, node):
        return "other " + repr(subtree(self.tree, node.get_id()))

    def rank(self, node):
        return (0 if node.red else 100) - ord(node.get_id()[0])

    def none(self, node):
        """the application has nothing to show here"""
        return "red" if node.red else None

    def types(self):
        return [[bool, self.red], [str, self.text], [int, self.rank],
                [str, self.none]]


class Model(_tm.TreeModel):
    def _mc_canon(self):
        out = []
        for k in sorted(self.__dict__):
            v = self.__dict__[k]
            if k in ("count", "count2"):        # statistics
                continue
            if isinstance(v, dict):
                v = sorted((repr(x), self.where(y)) for x, y in v.items())
            out.append((k, v))
        return [out, [repr(r) for r in rows(self)]]

    def where(self, it):
        if isinstance(it, Gtk.TreeIter):
            if not self.iter_is_valid(it):
                return "stale"
            return self.get_string_from_iter(it)
        return repr(it)


def rows(model):
    """[(path of ids, values)] in display order"""
    out = []
    stack = [((), None)]

    def go(prefix, it):
        k = model.iter_children(it) if it else model.get_iter_first()
        while k:
            p = prefix + (model.get_value(k, 0),)
            need(len(p) < 30, "rows nested without end")
            out.append((p, tuple(model.get_value(k, c) for c in range(
                1, model.get_n_columns()))))
            go(p, k)
            k = model.iter_next(k)
    go((), None)
    return out


class ModelSys(ViewSys):
    """ViewSys with a GTK model on every view; a second one may connect
    later.  sort: keep the models sorted by their rank column."""

    def __init__(self, n, views, sort=False, late=False, skip=(), **kw):
        ViewSys.__init__(self, n, views, **kw)
        self.sort = sort
        self.skip = skip
        self.late = late

    def fresh(self):
        w = World()
        t = w.tree = Tree()
        w.table = filters.install(t)
        w.cols = Columns(t)
        w.views = []
        w.models = []
        w.other = False
        for names in self.views:
            v = t.get_viewtree(refresh=not names)
            for f in names:
                v.apply_filter(f)
            w.views.append((names, v, None))
            w.models.append((names, v, self.connect(w, v)))
        return w

    def connect(self, w, v):
        m = Model(v, w.cols.types())
        if w.other:
            m.set_column_function(2, w.cols.other)
        if self.sort:
            m.set_sort_column_id(3, Gtk.SortType.ASCENDING)
        m.connect_model()
        return m

    def ops(self, w):
        for op in ViewSys.ops(self, w):
            if op[0] not in self.skip:
                yield op
        if self.late and len(w.models) == len(w.views):
            yield ("connect",)
        if self.late:
            yield ("setcol",)
            yield ("again",)

    def run(self, w, op):
        if op[0] == "connect":
            for names, v, _ in w.views:
                w.models.append((names, v, self.connect(w, v)))
            return "connect"
        if op[0] == "again":
            for _, _, m in w.models:
                m.connect_model()
            return "again"
        if op[0] == "setcol":
            w.other = not w.other
            for _, _, m in w.models:
                f = w.cols.other if w.other else w.cols.text
                need(m.set_column_function(2, f) is True,
                     "set_column_function refused column 2")
                need(m.set_column_function(5, f) is False,
                     "set_column_function accepted a column that is not "
                     "there")
            w.tree.refresh_all()
            return "setcol"
        return ViewSys.run(self, w, op)

    def step(self, w, op):
        out = self.run(w, op)
        self.check(w, op)
        return out

    def check(self, w, op=None):
        for names, v, m in w.models:
            want = []
            vt = view_tree(v)
            cols = [w.cols.red,
                    w.cols.other if w.other else w.cols.text, w.cols.rank,
                    w.cols.none]

            def go(p):
                kids = vt[p]
                if self.sort:
                    kids = sorted(kids, key=lambda i: w.cols.rank(
                        w.tree.get_node(i)))
                for i in kids:
                    n = w.tree.get_node(i)
                    want.append((p + (i,), tuple(f(n) for f in cols)))
                    go(p + (i,))
            go(())
            got = rows(m)
            need(got == want, "view with filters %r: model rows" %
                 (list(names),), got, "instead of", want)

    def key(self, w):
        return canon(w.tree, [v for _, v, _ in w.views],
                     [m for _, _, m in w.models], w.other, **VMERGE)
