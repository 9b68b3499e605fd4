"""Reference model of the main tree: ordered DAG with deferred relationships.

Plain lists and dicts, no callbacks, no views.  Each method is the documented
effect of one public operation.
"""


class Refused(Exception):
    """The operation would close a cycle."""


class Ref:
    def __init__(self):
        self.par = {}
        self.kid = {}
        self.root = []
        self.pend = []
        self.nokids = set()     # children disabled
        self.nopars = set()     # parents disabled

    def _mc_canon(self):
        return (sorted(self.par), [self.par[i] for i in sorted(self.par)],
                [self.kid[i] for i in sorted(self.kid)], self.root, self.pend,
                self.nokids, self.nopars)

    # helpers
    def ok(self, p, c):
        return p not in self.nokids and c not in self.nopars

    def anc(self, i):
        """i and all its ancestors"""
        out, todo = set(), [i]
        while todo:
            x = todo.pop()
            if x not in out:
                out.add(x)
                todo += self.par.get(x, [])
        return out

    def link(self, p, c):
        if c not in self.kid[p]:
            self.kid[p].append(c)
        if p not in self.par[c]:
            self.par[c].append(p)
        if c in self.root:
            self.root.remove(c)

    def unlink(self, p, c):
        self.kid[p].remove(c)
        self.par[c].remove(p)
        if not self.par[c]:
            self.root.append(c)

    def defer(self, p, c):
        if (p, c) not in self.pend:
            self.pend.append((p, c))

    def request(self, p, c):
        """a relationship asked for later on counts as the newest one"""
        if (p, c) in self.pend:
            self.pend.remove((p, c))
        self.pend.append((p, c))

    # operations
    def add(self, i, parent=None, parents=(), children=(), nokids=False,
            nopars=False):
        """add_node(node, parent); parents/children were declared on the node
        before it was added, in that order."""
        if i in self.par:
            return
        if nokids:
            self.nokids.add(i)
        if nopars:
            self.nopars.add(i)
        for p in parents:
            if p != i:
                self.defer(p, i)
        for c in children:
            if c != i:
                self.defer(i, c)
        self.par[i], self.kid[i] = [], []
        refused = False
        for p, c in list(self.pend):
            if i in (p, c) and p in self.par and c in self.par:
                self.pend.remove((p, c))
                if c not in self.anc(p) and self.ok(p, c):
                    self.link(p, c)
        if parent is not None:
            if i in self.anc(parent):
                refused = True
            elif parent in self.par:
                if self.ok(parent, i):
                    self.link(parent, i)
            else:
                self.defer(parent, i)
        if not self.par[i]:
            self.root.append(i)
        if refused:
            raise Refused()

    def delete(self, i, recursive=False):
        if i not in self.par:
            return
        self.pend = [r for r in self.pend if i not in r]
        for p in self.par[i]:
            self.kid[p].remove(i)
        self.par[i] = []
        for c in list(self.kid[i]):
            if recursive:
                self.delete(c, True)
            else:
                self.par[c].remove(i)
                if not self.par[c]:
                    self.root.append(c)
        if i in self.root:
            self.root.remove(i)
        del self.par[i], self.kid[i]
        self.nokids.discard(i)
        self.nopars.discard(i)

    def add_parent(self, i, p):
        if i not in self.par or p == i or p in self.par[i]:
            return
        if not self.ok(p, i):
            return
        if p not in self.par:
            self.request(p, i)
        elif i in self.anc(p):
            raise Refused()
        else:
            self.link(p, i)

    def add_child(self, i, c):
        if c == i or c in self.kid[i]:
            return
        if not self.ok(i, c):
            return
        if c not in self.par:
            self.request(i, c)
        elif c in self.anc(i):
            raise Refused()
        else:
            self.link(i, c)

    def remove_parent(self, i, p):
        if p in self.par[i]:
            self.unlink(p, i)

    def move(self, i, p):
        """only parent becomes p (None: the root)"""
        if i not in self.par or p == i:
            return
        if not self.ok(p, i):
            return
        if p in self.par and i in self.anc(p):
            raise Refused()
        for q in list(self.par[i]):
            if q != p:
                self.unlink(q, i)
        if p in self.par:
            self.link(p, i)
        elif p is not None:
            self.request(p, i)

    def children_enabled(self, i, on):
        if on:
            self.nokids.discard(i)
        else:
            for c in list(self.kid[i]):
                self.unlink(i, c)
            self.nokids.add(i)

    def parents_enabled(self, i, on):
        if on:
            self.nopars.discard(i)
        else:
            for p in list(self.par[i]):
                self.unlink(p, i)
            self.nopars.add(i)
