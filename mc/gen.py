"""Finite enumerations of starting configurations."""
import itertools


def dags(ids):
    """Every labelled DAG over ids, as a tuple of (parent, child) edges."""
    pairs = [(p, c) for p in ids for c in ids if p != c]
    out = []

    def acyclic(edges):
        kid = {i: [] for i in ids}
        for p, c in edges:
            kid[p].append(c)
        col = {}

        def visit(n):
            col[n] = 1
            for c in kid[n]:
                if col.get(c) == 1 or (c not in col and not visit(c)):
                    return False
            col[n] = 2
            return True
        return all(col.get(n) == 2 or visit(n) for n in ids)

    und = [(a, b) for a, b in itertools.combinations(ids, 2)]
    for choice in itertools.product((0, 1, 2), repeat=len(und)):
        edges = tuple((a, b) if k == 1 else (b, a)
                      for k, (a, b) in zip(choice, und) if k)
        if acyclic(edges):
            out.append(edges)
    out.sort(key=lambda e: (len(e), e))
    return out


def iso_dags(ids):
    """One representative per isomorphism class of dags(ids)."""
    seen = set()
    out = []
    perms = list(itertools.permutations(ids))
    for e in dags(ids):
        best = min(tuple(sorted((m[p], m[c]) for p, c in e))
                   for m in (dict(zip(ids, q)) for q in perms))
        if best not in seen:
            seen.add(best)
            out.append(e)
    return out


def subsets(xs):
    xs = list(xs)
    for r in range(len(xs) + 1):
        for s in itertools.combinations(xs, r):
            yield s


def topo(ids, edges):
    """ids ordered parents first."""
    par = {i: {p for p, c in edges if c == i} for i in ids}
    out = []
    rest = list(ids)
    while rest:
        for i in rest:
            if par[i] <= set(out):
                out.append(i)
                rest.remove(i)
                break
    return out


def shapes(size=7):
    """Named larger graphs: (name, ids, edges)."""
    from lib import IDS
    ids = IDS[:size]
    n = size
    out = []

    def s(name, pairs, k=n):
        out.append((name, IDS[:k], tuple((ids[p], ids[c]) for p, c in pairs)))
    s("chain", [(i, i + 1) for i in range(n - 1)])
    s("fan", [(0, i) for i in range(1, n)])
    s("infan", [(i, n - 1) for i in range(n - 1)])
    s("binary", [((i - 1) // 2, i) for i in range(1, n)])
    s("diamonds", [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (3, 5), (4, 6),
                   (5, 6)])
    s("complete5", list(itertools.combinations(range(5), 2)), 5)
    s("bipartite", [(i, j) for i in range(3) for j in range(3, n)])
    s("deepdag", [(i, i + 1) for i in range(n - 1)] +
      [(i, i + 2) for i in range(n - 2)])
    s("flat", [])
    s("forest", [(0, 1), (1, 2), (3, 4), (3, 5)])
    return out


def build(ids, edges, red=()):
    """History that builds a graph (add all, then attach)."""
    return tuple(("addr" if i in red else "add", i, None) for i in ids) + \
        tuple(("addp", c, p) for p, c in edges)
