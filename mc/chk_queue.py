"""C10, C11: requests from other threads."""
import itertools
import sys
import threading

import gi
gi.require_version("GLib", "2.0")
from gi.repository import GLib  # noqa: E402

import engine  # noqa: E402
import sched  # noqa: E402
import filters  # noqa: E402
from lib import Tree, N, is_circular  # noqa: E402
from oracle import need, check_wellformed, check_view, check_mirror, \
    read_graph, Mirror  # noqa: E402

SPIN = 60           # main loop iterations with nothing left to do


class Harness:
    """One execution: an origin thread that creates the tree and runs the
    main loop, and workers that call the tree's API."""

    files = None
    opcodes = False

    def __init__(self, item, prefix):
        self.item = item
        self.s = sched.Sched(prefix, self.files, self.opcodes)
        self.ready = False
        self.log = []
        self.workers = []
        self.ctx = GLib.MainContext.default()

    # to override
    def setup(self):
        raise NotImplementedError

    def origin_ops(self):
        return ()

    def do(self, who, op):
        raise NotImplementedError

    def judge(self):
        raise NotImplementedError

    # machinery
    def origin(self):
        s = self.s
        s.fine = False
        with sched.locks(s):
            self.setup()
        for _ in range(100):        # nothing may be left from the set-up
            if not self.ctx.pending():
                break
            self.ctx.iteration(False)
        s.fine = True
        self.ready = True
        todo = list(self.origin_ops())
        spins = 0
        while True:
            if todo:
                s.point()
                self.call("O", todo.pop(0))
                continue
            s.block("is idle", lambda: self.ctx.pending() or
                    all(w.state == "done" for w in self.workers))
            if not self.ctx.pending():
                break
            mark = len(self.log)
            self.log.append(("iteration",))
            self.ctx.iteration(False)
            if len(self.log) == mark + 1 and all(
                    w.state == "done" for w in self.workers):
                spins += 1
                need(spins < SPIN, "the main loop never becomes idle again")
        s.fine = False
        self.judge()

    def call(self, who, op):
        k = len(self.log)
        self.log.append(("call", who, op))
        self.do(who, op)
        self.log.append(("return", who, op, k))

    def worker(self, name, prog):
        def body():
            for op in prog:
                self.call(name, op)
        t = self.s.spawn(name, body)
        t.state = "waits for the set-up"
        t.pred = lambda: self.ready
        self.workers.append(t)

    def run(self):
        while self.ctx.pending():
            self.ctx.iteration(False)
        o = self.s.spawn("O", self.origin)
        for k, prog in enumerate(self.item[1]):
            self.worker("W%d" % (k + 1), prog)
        self.s.start("O")
        return self.s.points, self.label()

    def label(self):
        return repr(self.log)


class Requests(Harness):
    """Refresh requests of several priorities; node 'boom' makes an observer
    raise."""
    files = ("processqueue.py",)
    modified = False            # requested through the node itself

    def setup(self):
        self.t = Tree()
        for i in ("a", "b", "c", "boom"):
            self.t.add_node(N(i))
        self.home = threading.get_ident()
        main = self.t.get_main_view()
        main.register_cllbck("node-modified", self.seen)
        main.register_cllbck("node-added", self.seen)

    def seen(self, nid, path):
        self.log.append(("done", nid, threading.get_ident() == self.home))
        if nid == "boom":
            raise ValueError("an observer failed")

    def origin_ops(self):
        return self.item[0]

    def do(self, who, op):
        nid, prio = op
        try:
            if nid == "new":
                self.t.add_node(N(nid), priority=prio)
            elif self.modified:
                self.t.get_node(nid).modified(priority=prio)
            else:
                self.t.refresh_node(nid, priority=prio)
        except ValueError:
            # on the thread of the tree the caller gets the exception
            need(who == "O" and nid == "boom", "the caller of", op,
                 "got an exception")

    def judge(self):
        log = self.log
        calls = [(k, e[1], e[2]) for k, e in enumerate(log)
                 if e[0] == "call"]
        rets = {e[3]: k for k, e in enumerate(log) if e[0] == "return"}
        done = [(k, e[1]) for k, e in enumerate(log) if e[0] == "done"]
        its = [k for k, e in enumerate(log) if e[0] == "iteration"]
        need(len(calls) == len(rets), "a call did not return")
        for e in log:
            if e[0] == "done":
                need(e[2], "request for", e[1], "processed on a thread that "
                     "does not own the tree", log)
        # requests of the origin thread are done when the call returns
        direct = set()
        for k, who, (nid, prio) in calls:
            if who == "O":
                mine = [d for d, n in done if k < d < rets[k] and n == nid]
                need(len(mine) == 1, "a request of the tree's own thread was "
                     "not processed at once", log)
                direct.add(mine[0])
        queued = [(d, n) for d, n in done if d not in direct]
        reqs = [(k, rets[k], nid, prio) for k, who, (nid, prio) in calls
                if who != "O"]
        by = {}
        for c, r, nid, prio in reqs:
            by.setdefault(nid, []).append((c, r, prio))
        for nid, rs in by.items():
            ds = [d for d, n in queued if n == nid]
            need(len(ds) <= len(rs), "request for", nid, "processed", len(ds),
                 "times, requested", len(rs), "times", log)
            for c, r, prio in rs:
                need(any(d > c for d in ds), "the request for", nid,
                     "was never processed", log)
            # requests of different priority are different requests
            if len({p for _, _, p in rs}) == len(rs):
                need(len(ds) == len(rs), "request for", nid, "processed",
                     len(ds), "times instead of", len(rs), log)
        need(len(queued) <= len(reqs), "more requests processed than made")
        # order among requests for different nodes with one request each
        one = [(c, r, nid, prio, [d for d, n in queued if n == nid][0])
               for c, r, nid, prio in reqs if len(by[nid]) == 1]
        rank = {"high": 0, "low": 2}
        for x, y in itertools.permutations(one, 2):
            px, py = rank.get(x[3], 1), rank.get(y[3], 1)
            if px == py and x[1] < y[0]:
                need(x[4] < y[4], "request for", x[2], "was made before the "
                     "one for", y[2], "but processed after it", log)
            if px < py:
                # x is more urgent: if it was waiting when the main loop
                # turned to y, it must have been processed before y
                start = max([i for i in its if i < y[4]], default=-1)
                if x[1] < start:
                    need(x[4] < y[4], "request for", x[2], "of priority",
                         x[3], "was waiting while the one for", y[2],
                         "of priority", y[3], "was processed", log)

    def label(self):
        return repr([e for e in self.log if e[0] != "iteration"])


class Edits(Harness):
    """Edits of one tree from several threads, watched by views.

    item = (origin program, worker programs, start graph)"""
    files = ("processqueue.py", "tree.py", "treenode.py")

    def setup(self):
        t = self.t = Tree()
        self.table = filters.install(t)
        ids, edges, red = self.item[2]
        for i in ids:
            t.add_node(N(i, i in red))
        for p, c in edges:
            t.add_parent(c, p)
        self.views = []
        for names in ((), ("red",), ("below",), ("flatred",)):
            v = t.get_viewtree(refresh=not names)
            for f in names:
                v.apply_filter(f)
            self.views.append((names, v, Mirror(v)))
        self.vc = t.get_viewcount()

    def origin_ops(self):
        return self.item[0]

    def do(self, who, op):
        t = self.t
        k = op[0]
        try:
            if k == "add":
                t.add_node(N(op[1], True), op[2])
            elif k == "decl":
                node = N(op[1], True)
                for p in op[2]:
                    node.add_parent(p)
                for c in op[3]:
                    node.add_child(c)
                t.add_node(node)
            elif k == "addhigh":
                t.add_node(N(op[1], True), op[2], priority="high")
            elif k == "del":
                t.del_node(op[1])
            elif k == "delr":
                t.del_node(op[1], recursive=True)
            elif k == "move":
                t.move_node(op[1], op[2])
            elif k == "addp":
                t.add_parent(op[1], op[2])
            elif k == "addc":
                t.get_node(op[1]).add_child(op[2])
            elif k == "remp":
                t.get_node(op[1]).remove_parent(op[2])
            elif k == "col":
                node = t.get_node(op[1])
                node.red = not node.red
                node.modified()
            elif k == "refall":
                t.refresh_all()
            elif k == "kids":
                t.get_node(op[1]).set_children_enabled(False)
            elif k == "pars":
                t.get_node(op[1]).set_parents_enabled(False)
        except Exception as e:
            if isinstance(e, ValueError) and k in (
                    "addc", "remp", "col", "kids", "pars"):
                return          # the node is not there (any more)
            if k in ("move", "addp") and isinstance(e, ValueError) \
                    and "not in the tree" in str(e):
                return
            if not is_circular(e):
                raise

    def judge(self):
        t = self.t
        ids = ("a", "b", "c", "d", "e")
        nodes, par, kid, root, _ = check_wellformed(t, ids)
        graph = read_graph(t)
        for names, v, m in self.views:
            preds, flat = filters.spec(self.table, names)
            check_view(t, v, preds, flat, graph)
            check_mirror(v, m)
        need(self.vc.get_n_nodes() == len(nodes), "count")
        self.final = (sorted(nodes), sorted((p, c) for c in nodes
                                            for p in par[c]))
        # relationships requested and never withdrawn must be there
        if len(self.item) > 3 and self.item[3] is not None:
            need(self.final == tuple(self.item[3]) or
                 (self.final[0] == list(self.item[3][0]) and
                  self.final[1] == [tuple(x) for x in self.item[3][1]]),
                 "the tree ends as", self.final, "instead of", self.item[3])

    def label(self):
        return repr(self.final)


class EditsCoarse(Edits):
    """Fewer points, more preemptions: what the tree does on its own thread
    is atomic."""
    files = ("processqueue.py", "treenode.py")


def _init():
    engine.worker_init()
    sys.stderr = engine._Null()


def _requests(case, prefix):
    cls, item = CLASSES[case[0]], case[1]
    return cls(item, prefix).run()


class RequestsFine(Requests):
    opcodes = True


class RequestsNode(Requests):
    modified = True


CLASSES = {"requests": Requests, "requests-op": RequestsFine,
           "requests-node": RequestsNode,
           "edits": Edits, "edits-coarse": EditsCoarse}


def C10(run):
    run.assume += [
        "scheduling points: every line of processqueue.py and every lock "
        "operation (thorough: every bytecode); GLib calls are atomic",
        "an identical request that is still waiting may absorb a new one "
        "(documented)"]
    reqs = [("a", "low"), ("a", "high"), ("a", None), ("b", "low"),
            ("b", "high"), ("boom", "low")]

    def progs(n):
        return itertools.product(reqs, repeat=n)
    # every pair of one-request workers, every pair of two- and one-request
    one = [("requests", ((), (p, q))) for p in progs(1) for q in progs(1)]
    two = [("requests", ((), (p, q))) for p in progs(2) for q in progs(1)]
    few = [(r,) for r in reqs if r in (("a", "low"), ("a", "high"),
                                       ("b", "low"), ("boom", "low"))]
    three = [("requests", ((), x)) for x in
             itertools.combinations_with_replacement(few, 3)]
    own = [("requests", ((o,), (p,))) for o in reqs for p in progs(2)]
    b = 2 if run.quick else 3
    _explore(run, "two workers, one request each", one, b)
    _explore(run, "two workers, two and one requests", two,
             1 if run.quick else 2)
    new = [("requests", ((), (x, y))) for prio in ("low", "high")
           for p in reqs[:2] + reqs[3:5] for q in reqs[3:5]
           for x, y in (((("new", prio),), (p, q)),
                        ((p, ("new", prio)), (q,)))]
    _explore(run, "added nodes and refreshed ones", new,
             1 if run.quick else 2)
    node = [("requests-node", ((), (p, q)))
            for p in progs(2) for q in [(("b", "low"),), (("a", "high"),)]]
    _explore(run, "requests through nodes", node, 1 if run.quick else 2)
    _explore(run, "three workers, one request each", three,
             1 if run.quick else 2)
    _explore(run, "one worker and the tree's own thread", own,
             1 if run.quick else 2)
    five = [("requests", ((), ((("a", "low"), ("b", None), ("c", "high"),
                                ("b", "low"), ("a", None)),
                               (("c", "low"), ("boom", "high"),
                                ("a", "high")))))]
    _explore(run, "long programs", five, 1 if run.quick else 2)
    if not run.quick:
        _explore(run, "two workers, bytecode granularity",
                 [("requests-op", x) for _, x in one[:12]], 2)


def _explore(run, part, items, bound):
    if run.replay:
        if run.replay["part"] == part:
            run._replay_case(lambda it: _requests(it[0], it[1]), _init)
        return
    res = sched.explore(_requests, items, bound, max_seconds=run.left(),
                        init=_init)
    run.add(part, "all schedules with at most %d preemptions" % bound, res)


G = (("a", "b", "c"), (("a", "b"),), ("b", "c"))

OPS = [("add", "d", None), ("add", "d", "a"), ("add", "d", "e"),
       ("addhigh", "d", "b"), ("decl", "d", ("a",), ("c",)),
       ("del", "a"), ("del", "b"), ("delr", "a"), ("move", "b", None),
       ("move", "b", "c"), ("move", "c", "b"), ("addp", "b", "c"),
       ("addp", "c", "d"), ("addc", "c", "b"), ("addc", "b", "c"),
       ("addc", "c", "d"), ("remp", "b", "a"), ("col", "b"), ("col", "a"),
       ("refall",), ("kids", "a"), ("kids", "c"), ("pars", "b")]


def _commuting():
    """Programs whose requests only add: every schedule must end in the same
    tree, the one with everything in it."""
    base = ("a", "b", "c")
    adds = [("add", "d", None), ("addhigh", "d", None)]
    rels = [(("addp", "c", "d"), ("d", "c")), (("addc", "c", "d"),
                                               ("c", "d")),
            (("addp", "c", "b"), ("b", "c")), (("addc", "b", "c"),
                                               ("b", "c"))]
    for ad in adds:
        for op, edge in rels:
            want = (sorted(base + ("d",)), sorted([("a", "b"), edge]))
            yield ((ad,), ((op,),), G, want)
            yield ((op,), ((ad,),), G, want)
            yield ((), ((ad,), (op,)), G, want)
            yield ((), ((ad, op),), G, want)
    for (o1, e1), (o2, e2) in itertools.combinations(rels, 2):
        if {e1, e2} == {("d", "c"), ("c", "d")}:
            continue
        if e1 == e2:
            want = (sorted(base + ("d",)), sorted([("a", "b"), e1]))
        else:
            want = (sorted(base + ("d",)), sorted([("a", "b"), e1, e2]))
        yield ((("add", "d", None),), ((o1,), (o2,)), G, want)
        yield ((o1,), ((("add", "d", None),), (o2,)), G, want)
    # two nodes that wait for each other's arrival
    want = (["a", "b", "c", "d", "e"], [("a", "b"), ("d", "e")])
    yield ((("add", "d", None),), ((("add", "e", "d"),),), G, want)
    yield ((("add", "e", "d"),), ((("add", "d", None),),), G, want)
    yield ((), ((("add", "e", "d"),), (("add", "d", None),)), G, want)


def C11(run):
    run.assume += [
        "scheduling points: every line of processqueue.py, tree.py and "
        "treenode.py and every lock operation; GLib calls are atomic",
        "views are only read on the thread that owns the tree"]
    com = list(_commuting())
    ops = [o for o in OPS if not run.quick or o not in (
        ("col", "a"), ("addp", "b", "c"), ("addhigh", "d", "b"))]
    some = [o for o in OPS if not run.quick or o in (
        ("add", "d", "e"), ("decl", "d", ("a",), ("c",)), ("del", "a"),
        ("move", "b", None), ("move", "b", "c"), ("move", "c", "b"),
        ("addc", "c", "b"), ("addc", "c", "d"), ("remp", "b", "a"))]
    own = [((o,), ((w,),), G, None) for o in ops for w in ops]
    two = [((), ((o,), (w,)), G, None)
           for o, w in itertools.combinations_with_replacement(some, 2)]
    _explore(run, "additions only: one outcome",
             [("edits", x) for x in (com[::4] if run.quick else com)], 1)
    _explore(run, "additions only, coarse",
             [("edits-coarse", x) for x in com], 1)
    _explore(run, "own thread against one worker",
             [("edits-coarse", x) for x in own], 1)
    _explore(run, "two workers",
             [("edits-coarse", x) for x in two], 1)
    if not run.quick:
        _explore(run, "own thread against one worker, fine",
                 [("edits", x) for x in own], 1)
        _explore(run, "two workers, fine", [("edits", x) for x in two], 1)
        _explore(run, "additions only, two preemptions",
                 [("edits-coarse", x) for x in com], 2)
        _explore(run, "own thread against one worker, two preemptions",
                 [("edits-coarse", x) for x in own], 2)
