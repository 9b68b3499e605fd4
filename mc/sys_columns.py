"""Widgets built from every description of columns (C25)."""
import itertools

from chk_gtk import Gtk, rows, liblarch_gtk
from gen import subsets
from lib import Tree, N
from oracle import need

NODES = (("a", None), ("b", None), ("c", "a"), ("d", "a"), ("e", None))
# the rank of every node in the order of the k-th column
RANK = ({"a": 1, "b": 2, "c": 3, "d": 4, "e": 5, "x": 6},
        {"a": 4, "b": 1, "c": 5, "d": 2, "e": 3, "x": 6},
        {"a": 2, "b": 5, "c": 4, "d": 3, "e": 1, "x": 6})
NAMES = ("n1", "n2", "n3")


def value(k, node):
    """what the k-th column shows of a node; the middle one is a number"""
    r = RANK[k][node.get_id()]
    return r if k == 1 else "%d of %s" % (r, node.get_id())


def by_rank(k, a, b, order):
    x, y = RANK[k][a.get_id()], RANK[k][b.get_id()]
    return (x > y) - (x < y)


def make_tree():
    t = Tree()
    for i, p in NODES:
        t.add_node(N(i, i in "ad"), p)
    return t


def describe(case):
    """case: per column, in the order of the dictionary, a dict as tuple of
    pairs: order, join, title, visible, resizable, expandable, renderer,
    sorting (name), func"""
    desc, cells = {}, {}
    for k, opts in enumerate(case):
        o = dict(opts)
        d = {"value": [str, int, str][k:k + 1] + [
            lambda node, k=k: value(k, node)]}
        if o.get("tuple"):
            d["value"] = tuple(d["value"])
        if "order" in o:
            d["order"] = o["order"]
        if o.get("join"):
            d["new_column"] = False
        for x in ("title", "visible", "resizable", "expandable", "sorting"):
            if x in o:
                d[x] = o[x]
        if "renderer" in o:
            cells[NAMES[k]] = Gtk.CellRendererText()
            d["renderer"] = [o["renderer"], cells[NAMES[k]]]
        if o.get("func"):
            d["sorting_func"] = lambda a, b, order, k=k: by_rank(
                k, a, b, order)
        desc[NAMES[k]] = d
    return desc, cells


def layout(case):
    """[[names of the cells] of every column] as the description asks"""
    ks = sorted(range(len(case)),
                key=lambda k: (dict(case[k]).get("order", 9999 + k)))
    out = []
    for k in ks:
        if dict(case[k]).get("join") and out:
            out[-1].append(k)
        else:
            out.append([k])
    return out


def shown(widget, col, cell):
    """what a cell shows in every row"""
    m = widget.get_model()
    out = []
    for r, p in rows(m):
        col.cell_set_cell_data(m, m.get_iter(p), False, False)
        out.append((r[-1], cell.get_property("text")))
    return out


def check_cells(w, t, case, want):
    cols = Gtk.TreeView.get_columns(w)
    need(len(cols) == len(want), "there are", len(cols), "columns instead of",
         len(want))
    for col, ks in zip(cols, want):
        cells = col.get_cells()
        need(len(cells) == len(ks), "a column has", len(cells), "cells "
             "instead of", len(ks))
        for cell, k in zip(cells, ks):
            got = shown(w, col, cell)
            need(len(got) == len(NODES), "not all rows")
            for i, text in got:
                need(text == str(value(k, t.get_node(i))), "column", NAMES[k],
                     "shows", text, "for", i)


def order_of(t, w, key, down):
    """rows are sorted by key under every parent"""
    want = []

    def go(p, prefix):
        ks = sorted((i for i, q in NODES if q == p), key=key, reverse=down)
        for i in ks:
            want.append(prefix + (i,))
            go(i, prefix + (i,))
    go(None, ())
    got = [r for r, _ in rows(w.get_model())]
    need(got == want, "rows are", got, "instead of", want)


def one(case):
    t = make_tree()
    desc, cells = describe(case)
    w = liblarch_gtk.TreeView(t.get_viewtree(), desc)
    want = layout(case)
    check_cells(w, t, case, want)
    need(sorted(w.get_columns()) == sorted(desc), "get_columns is",
         w.get_columns())
    cols = Gtk.TreeView.get_columns(w)
    home = {NAMES[k]: col for col, ks in zip(cols, want) for k in ks}
    for n, cell in cells.items():
        need(cell in home[n].get_cells(), "the renderer of", n,
             "is not in its column")

    def state():
        return [(c.get_title(), c.get_visible(), c.get_resizable(),
                 c.get_expand()) for c in cols]
    for col, ks, st in zip(cols, want, state()):
        o = dict(case[ks[0]])
        if len(ks) == 1:
            need(st == (o.get("title", ""), o.get("visible", True),
                        o.get("resizable", True), o.get("expandable", False)),
                 "column", NAMES[ks[0]], "is", st)
    # changing one column changes that one
    for n, col in home.items():
        k = cols.index(col)
        for at, fn in ((1, w.set_col_visible), (2, w.set_col_resizable)):
            for val in (False, True):
                before = state()
                fn(n, val)
                before[k] = before[k][:at] + (val,) + before[k][at + 1:]
                need(state() == before, "setting", n, "to", val, "gives",
                     state())
        w.set_expander_column(n)
        need(w.get_property("expander-column") == col, "expander column")
        w.set_main_search_column(n)
        m = w.get_model()
        for r, p in rows(m):
            need(m.get_value(m.get_iter(p), w.get_search_column()) == value(
                NAMES.index(n), t.get_node(r[-1])), "search column of", n)
    # sorting by a click on the header
    for col, ks in zip(cols, want):
        o = {}
        for k in ks:
            if "sorting" in dict(case[k]):
                o = dict(by=NAMES.index(dict(case[k])["sorting"]))
        for k in ks:
            if dict(case[k]).get("func"):
                o = dict(by=k)
        col.set_visible(True)
        if not o:
            continue
        for down in (False, True):
            col.clicked()
            order_of(t, w, lambda i: RANK[o["by"]][i], down)
        check_cells(w, t, case, want)
    for n in home:
        for down in (0, 1):
            w.set_sort_column(n, Gtk.SortType(down))
            need(w.get_sort_column() == (n, down), "get_sort_column")
            order_of(t, w, lambda i: RANK[NAMES.index(n)][i], down)
    return "ok", 1


def two(case):
    """Two widgets made from one description, one gets colours, then data
    change."""
    n, which, column, tup = case
    t = make_tree()
    desc, _ = describe([dict(tuple=tup)] * n)
    ws = [liblarch_gtk.TreeView(t.get_viewtree(), desc) for _ in range(2)]
    want = [[k] for k in range(n)]
    for w in ws:
        check_cells(w, t, None, want)
    a, b = (ws[which], ws[1 - which])
    seen = set()
    a.set_bg_color(lambda node, default: seen.add(node.get_id()) or
                   "#FFFFFF", NAMES[column])
    t.refresh_all()
    need(seen == {i for i, _ in NODES}, "colours asked for", sorted(seen))
    check_cells(b, t, None, want)
    w = liblarch_gtk.TreeView(t.get_viewtree(), desc)
    check_cells(w, t, None, want)
    return "ok", 1


def separators(case):
    names, then = case
    t = make_tree()
    w = liblarch_gtk.TreeView(t.get_viewtree(), describe([()])[0])
    w.set_row_separator_func(lambda node: node.get_id() in names)
    sel = w.get_selection()

    def judge(names):
        for r, p in rows(w.get_model()):
            sel.unselect_all()
            sel.select_path(p)
            need((w.get_selected_nodes() == []) == (r[-1] in names), "row", r,
                 "of separators", names)
        sel.unselect_all()      # a separator keeps its selection
    judge(names)
    if then == "none":
        w.set_row_separator_func(None)
        names = ()
    elif then == "move":
        t.move_node("c", "b")
    elif then == "add":
        t.add_node(N("x"), "b")
        t.del_node("a")
    elif then == "other":
        names = tuple(i for i, _ in NODES if i not in names)
        w.set_row_separator_func(lambda node: node.get_id() in names)
    judge(names)
    return then, 1


def descriptions(n, rich):
    """All descriptions of n columns: orders, joins, and either options or
    ways of sorting (of up to two columns, or one of three)."""
    opts, sorts = [()], [None]
    if rich:
        opts = [tuple(zip(("visible", "resizable", "expandable"), x)) +
                ((("title", "T"),) if tt else ())
                for x in itertools.product((False, True), repeat=3)
                for tt in (0, 1)]
    else:
        sorts = [None, "func"] + list(NAMES[:n])
    orders = {tuple(o if k not in out else None for k, o in enumerate(p))
              for p in itertools.permutations(range(n))
              for out in subsets(range(n))}
    for order in sorted(orders, key=repr):
        for join in subsets(range(n)):
            free = [k for k in range(n) if k not in join]
            for what in itertools.product(opts, repeat=len(free)):
                for sort in itertools.product(sorts, repeat=len(free)):
                    if n > 2 and sum(x is not None for x in sort) > 1:
                        continue
                    case = []
                    for k in range(n):
                        o = {} if order[k] is None else dict(order=order[k])
                        if k in join:
                            o["join"] = True
                        else:
                            o.update(what[free.index(k)])
                            x = sort[free.index(k)]
                            if x == "func":
                                o["func"] = True
                            elif x:
                                o["sorting"] = x
                        if (k + len(join)) % 2:
                            o["renderer"] = ("text", "markup")[k % 2]
                        case.append(tuple(sorted(o.items())))
                    yield tuple(case)
