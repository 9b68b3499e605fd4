"""The filters of the driver: one per kind of dependency a filter can have.

own data, complement of own data (negate parameter), structure (leaf),
children's data, whole subtree, combination of own data and children's data,
and the flat variants.
"""


class Red:
    def __call__(self, node, parameters=None):
        return node.red


class Leaf:
    def __call__(self, node, parameters=None):
        return not node.has_child()


class Top:
    """not under any other node"""
    def __call__(self, node, parameters=None):
        return not node.has_parent()


class HasRedBelow:
    """red, or some descendant is red"""
    def __init__(self, tree):
        self.tree = tree

    def __call__(self, node, parameters=None):
        if node.red:
            return True
        return any(self(self.tree.get_node(c)) for c in node.get_children())


class HasRedChild:
    def __init__(self, tree):
        self.tree = tree

    def __call__(self, node, parameters=None):
        return any(self.tree.get_node(c).red for c in node.get_children())


class RedLeaf:
    """red without a red child"""
    def __init__(self, tree):
        self.tree = tree

    def __call__(self, node, parameters=None):
        return node.red and not any(
            self.tree.get_node(c).red for c in node.get_children())


class Everything:
    def __call__(self, node, parameters=None):
        return True


class Not:
    def __init__(self, f):
        self.f = f

    def __call__(self, node):
        return not self.f(node)


def install(tree):
    """Register the filters; returns {name: (predicate, flat)} as the oracle
    understands them."""
    red, leaf, every, top = Red(), Leaf(), Everything(), Top()
    below, child, redleaf = HasRedBelow(tree), HasRedChild(tree), RedLeaf(tree)
    tree.add_filter("red", red)
    tree.add_filter("leaf", leaf)
    tree.add_filter("top", top)
    tree.add_filter("below", below)
    tree.add_filter("child", child)
    tree.add_filter("redleaf", redleaf)
    tree.add_filter("notred", red, parameters={"negate": True})
    tree.add_filter("flatred", red, parameters={"flat": True})
    tree.add_filter("flatall", every, parameters={"flat": True})
    tree.add_filter("flatbelow", below, parameters={"flat": True})
    tree.add_filter("notleaf", leaf, parameters={"negate": True})
    tree.add_filter("nottop", top, parameters={"negate": True})
    return {
        "red": (red, False), "leaf": (leaf, False), "below": (below, False),
        "child": (child, False), "redleaf": (redleaf, False),
        "notred": (Not(red), False), "flatred": (red, True),
        "flatall": (every, True), "flatbelow": (below, True),
        "notleaf": (Not(leaf), False), "top": (top, False),
        "nottop": (Not(top), False),
    }


def spec(table, names):
    """(predicates, flat) of a view with these filters applied"""
    return [table[n][0] for n in names], any(table[n][1] for n in names)
