"""Expression trees (C18)."""
import general_optics as G
import Shapes.shapes as S
import numpy as np
from record import Episode

LEAVES = ["A", "B", "ball", "x1", "", 0, 1, -3, 2.5, 0.0, False, (), (1, 2), "union ", "u", None.__class__, None]
OPS = ["union", "intersect", "difference"]


class Tree:
    """a real tree and the handles of its nodes, in the order of their creation"""
    def __init__(self):
        self.nodes, self.ops, self.keys = [], [], []

    def name(self, key):
        self.keys.append(key)
        return str(key)

    def new(self, key):
        self.nodes.append(G.BinaryTree(key))
        self.ops.append(dict(op="new", n=0, key=self.name(key)))

    def insert(self, n, left, key):
        node = self.nodes[n - 1]
        (node.insertLeft if left else node.insertRight)(key)
        self.nodes.append(node.getLeftChild() if left else node.getRightChild())
        self.ops.append(dict(op="left" if left else "right", n=n, key=self.name(key)))

    def set(self, n, key):
        self.nodes[n - 1].setRootVal(key)
        self.ops.append(dict(op="set", n=n, key=self.name(key)))

    def handle(self, node):
        if node is None:
            return 0
        for k, x in enumerate(self.nodes):
            if x is node:
                return k + 1
        return -1

    def observe(self):
        return [dict(key=str(x.getRootVal()) if any(x.getRootVal() is k for k in self.keys) else "another " + str(x.getRootVal()),
                     l=self.handle(x.getLeftChild()), r=self.handle(x.getRightChild())) for x in self.nodes]


def full(node):
    l, r = node.getLeftChild(), node.getRightChild()
    op = isinstance(node.getRootVal(), str) and node.getRootVal() in OPS
    if l is None and r is None:
        return not op and node.getRootVal() is not None
    return op and l is not None and r is not None and full(l) and full(r)


def record(e, t):
    obs = e.guard(t.observe, "reading the tree")
    if e.dead:
        return
    prints = []
    for k, x in enumerate(t.nodes):
        if full(x):
            s = e.guard(lambda: str(G.postOrderEval(x)), "postOrderEval()")
            if e.dead:
                return
            prints.append(dict(n=k + 1, text=s))
    e.event(e="tree", ops=list(t.ops), obs=obs, prints=prints)


def leaf(g):
    k = int(g.integers(len(LEAVES) + 2))
    if k < len(LEAVES):
        return LEAVES[k]
    return S.Sphere(np.array([1.0, 2, 3]), R=2) if k == len(LEAVES) else np.array([1.0, 2.0])


def key(g):
    return str(g.choice(OPS)) if g.random() < 0.5 else leaf(g)


def histories(g, id, own):
    """any sequence of insertions and replacements, any number of trees"""
    e, t = Episode(id, own, []), Tree()
    e.guard(lambda: t.new(key(g)), "BinaryTree()")
    for _ in range(int(g.integers(1, 14)) if g.random() < 0.95 else int(g.integers(14, 80))):
        if e.dead:
            break
        x = g.random()
        n = int(g.integers(1, len(t.nodes) + 1)) if g.random() < 0.5 else int(g.choice([1, len(t.nodes)]))
        k = key(g)
        if x < 0.06:
            e.guard(lambda: t.new(k), "BinaryTree()")
        elif x < 0.5:
            e.guard(lambda: t.insert(n, True, k), "insertLeft()")
        elif x < 0.9:
            e.guard(lambda: t.insert(n, False, k), "insertRight()")
        else:
            e.guard(lambda: t.set(n, k), "setRootVal()")
        if g.random() < 3 / (10 + len(t.nodes)) and not e.dead:
            record(e, t)
    record(e, t)
    return e


def expressions(g, id, own):
    """full Boolean trees, built from the root down in any order of sides, sometimes by pushing subtrees down"""
    e, t = Episode(id, own, []), Tree()
    depth = int(g.integers(0, 5))
    if g.random() < 0.04:                                 # as deep as a tree can be
        depth = -1

    def grow(n, d):
        for left in ([True, False] if g.random() < 0.5 else [False, True]):
            if d > 1 and g.random() < 0.6:
                t.insert(n, left, str(g.choice(OPS)))
                grow(len(t.nodes), d - 1)
            else:
                t.insert(n, left, leaf(g))

    def push():                                           # a new operator between a node and its child
        inner = [k + 1 for k, x in enumerate(t.nodes) if x.getLeftChild() is not None]
        n, left = inner[int(g.integers(len(inner)))], bool(g.random() < 0.5)
        t.insert(n, left, str(g.choice(OPS)))
        t.insert(len(t.nodes), not left, leaf(g))
    def say():
        if g.random() < 0.25 and not e.dead:
            record(e, t)

    def other():                                          # another value: an operator for an operator, a leaf for a leaf
        n = int(g.integers(1, len(t.nodes) + 1))
        t.set(n, str(g.choice(OPS)) if t.nodes[n - 1].getLeftChild() is not None else leaf(g))
    if depth == 0:
        e.guard(lambda: t.new(leaf(g)), "BinaryTree()")
    elif depth < 0:
        e.guard(lambda: t.new(str(g.choice(OPS))), "BinaryTree()")

        def line():
            at = 1
            for k in range(int(g.integers(10, 70))):
                left = bool(g.random() < 0.5)
                t.insert(at, not left, leaf(g))
                t.insert(at, left, str(g.choice(OPS)))
                at = len(t.nodes)
            t.insert(at, True, leaf(g))
            t.insert(at, False, leaf(g))
        e.guard(line, "building a tree")
    else:
        e.guard(lambda: t.new(str(g.choice(OPS))), "BinaryTree()")
        e.guard(lambda: grow(1, depth), "building a tree")
        for _ in range(int(g.choice([0, 0, 1, 2, 3]))):
            say()
            e.guard(push, "building a tree")
    for _ in range(int(g.choice([0, 0, 1, 2, 4]))):
        say()
        e.guard(other, "changing a tree")
    if not e.dead:
        record(e, t)
    return e


def register(suite):
    suite("C18", "histories", histories, 500, 6000)
    suite("C18", "expressions", expressions, 500, 6000)
