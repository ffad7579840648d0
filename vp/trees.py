"""Formula-tree shapes with opaque sub-formulas, refined on demand, for rules about visitors."""
from .pql import *
from . import seqlib

UNARY = ['ECondition', 'ACondition', 'FCondition', 'GCondition', 'XCondition', 'ControlCondition', 'EFCondition', 'AGCondition',
         'EXCondition', 'AXCondition', 'AFCondition', 'EGCondition']
BINARY = ['UntilCondition', 'EUCondition', 'AUCondition']
LOGICAL = ['AndCondition', 'OrCondition']
COMPARE = ['LessThanCondition', 'LessThanOrEqualCondition', 'EqualCondition', 'NotEqualCondition']
PATHQ = ['AllPaths', 'ExistPath']
SHALLOW = ['UpperBoundsCondition', 'FireableCondition', 'UnfoldedFireableCondition', 'LivenessCondition', 'KSafeCondition',
           'QuasiLivenessCondition', 'StableMarkingCondition']
ATOMS = ['BooleanCondition', 'DeadlockCondition', 'CompareConjunction', 'UnfoldedUpperBoundsCondition']
EXPRS = ['PlusExpr', 'MultiplyExpr', 'MinusExpr', 'SubtractExpr', 'LiteralExpr', 'IdentifierExpr', 'UnfoldedIdentifierExpr', 'PathSelectExpr']
CONDS = ['NotCondition'] + UNARY + BINARY + LOGICAL + COMPARE + PATHQ + ['PathSelectCondition'] + SHALLOW + ATOMS


class Refine(Exception):
    def __init__(self, leaf):
        self.leaf = leaf


class Node:
    def __init__(self, cls, kids, tag=''):
        self.cls, self.kids, self.tag = cls, kids, tag

    def __repr__(self):
        n = self.cls.replace('Condition', '')
        return n + self.tag + ('(%s)' % ','.join(map(repr, self.kids)) if self.kids else '')


class Leaf(Node):
    def __init__(self, i, expr=False):
        self.i, self.expr, self.cls, self.kids, self.tag = i, expr, None, [], ''
        self.term = T('leaf', ('e' if expr else 'c') + str(i))

    def __repr__(self):
        return '?%d' % self.i


class Fields:
    """where each kind of node keeps its children, taken from its accessors"""

    def __init__(self, p):
        self.p = p
        self.cache = {}

    def of(self, cls, getter):
        k = (cls, getter)
        if k not in self.cache:
            self.cache[k] = getter_field(self.p, NS + cls, getter)
        return self.cache[k]


def shapes(cls, fresh, maxn=3):
    """nodes of class cls over opaque children; fresh(expr) makes a leaf"""
    if cls == 'NotCondition' or cls in UNARY or cls in PATHQ or cls == 'PathSelectCondition':
        return [Node(cls, [fresh()])]
    if cls in BINARY:
        return [Node(cls, [fresh(), fresh()])]
    if cls in LOGICAL:
        return [Node(cls, [fresh() for _ in range(n)]) for n in range(maxn + 1)]
    if cls in COMPARE:
        return [Node(cls, [fresh(True), fresh(True)])]
    if cls in SHALLOW:
        return [Node(cls, [], ':uncompiled'), Node(cls, [fresh()])]
    if cls in ATOMS:
        return [Node(cls, [])]
    raise AnchorError('unknown class ' + cls)


class Lay:
    """lay a tree out in an abstract store"""

    def __init__(self, p, F):
        self.p, self.F, self.n = p, F, 0
        self.ptr = {}

    def put(self, st, node):
        if isinstance(node, Leaf):
            self.ptr[node.term] = node
            st.facts[('b', node.term)] = True      # never null
            return node.term
        ks = [self.put(st, k) for k in node.kids]
        f = {}

        def setf(path, v):
            f[path[0]] = v if len(path) == 1 else Obj(None, None, {path[1]: v})
        cls = node.cls
        if cls == 'NotCondition' or cls in UNARY:
            setf(self.F.of(cls, 'getCond'), ks[0])
        elif cls in PATHQ or cls == 'PathSelectCondition':
            setf(self.F.of(cls, 'child'), ks[0])
        elif cls in BINARY:
            setf(self.F.of(cls, 'getCond1'), ks[0])
            setf(self.F.of(cls, 'getCond2'), ks[1])
        elif cls in LOGICAL:
            setf(self.F.of(cls, 'getOperands'), seqlib.seq(ks))
        elif cls in COMPARE:
            setf(self.F.of(cls, 'getExpr1'), ks[0])
            setf(self.F.of(cls, 'getExpr2'), ks[1])
        elif cls in SHALLOW:
            setf(self.F.of(cls, 'getCompiled'), ks[0] if ks else NULL)
        for k, v in getattr(node, 'extra', {}).items():
            f[('f', k)] = v
        self.n += 1
        root = ('h', 'node', self.n)
        st.store[root] = Obj(NS + cls, None, f)
        v = ('p', root, ())
        self.ptr[v] = node
        return v


def leaves(node):
    if isinstance(node, Leaf):
        return [node]
    return [x for k in node.kids for x in leaves(k)]


def replace(node, leaf, new):
    if isinstance(node, Leaf):
        return new if node is leaf else node
    n = Node(node.cls, [replace(k, leaf, new) for k in node.kids], node.tag)
    if hasattr(node, 'extra'):
        n.extra = node.extra
    return n
