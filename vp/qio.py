"""Formula trees over opaque sub-formulas, written to and read from streams: shared by the rules about query input and output.

A tree node is laid out in the abstract store with opaque children; readers and writers are interpreted on it.  The formula language:
  conditions  ('true',) ('false',) ('dead',) ('atom',i) ('not',x) ('and',[..]) ('or',[..]) ('cmp',op,e,e) ('fire',name)
              ('EX'|'AX'|'EF'|'AF'|'EG'|'AG'|'E'|'A'|'X'|'F'|'G'|'control',x) ('EU'|'AU'|'U',x,y) ('path','A'|'E',name,x) ('sel',name,x)
              ('ksafe',e) ('ql',) ('sm',) ('live',) ('ub',[names])
  expressions ('lit',t) ('place',name) ('num',i) ('sum',[..]) ('prod',[..]) ('sub',[..]) ('selx',name,e)"""
import re
import itertools, random
from .trees import *
from .smallmodel import term, holds, Unk
from . import maplib, temporal

MAXU = (1 << 32) - 1
CMPN = {'LessThanCondition': '<', 'LessThanOrEqualCondition': '<=', 'EqualCondition': '==', 'NotEqualCondition': '!='}
TEMP1 = {'EFCondition': 'EF', 'AGCondition': 'AG', 'AFCondition': 'AF', 'EGCondition': 'EG', 'EXCondition': 'EX', 'AXCondition': 'AX',
         'FCondition': 'F', 'GCondition': 'G', 'XCondition': 'X', 'ECondition': 'E', 'ACondition': 'A', 'ControlCondition': 'control'}
TEMP2 = {'EUCondition': 'EU', 'AUCondition': 'AU', 'UntilCondition': 'U'}
TEMPS = (set(TEMP1.values()) | set(TEMP2.values()) | {'dead', 'path', 'sel', 'ksafe', 'ql', 'sm', 'live', 'ub'})
KDOM = (0, 1, 2, -1, -3, 7, (1 << 31) - 1, 1 << 31, -(1 << 31), (1 << 40) + 5)
UDOM = (0, 1, 2, 7, (1 << 31) - 1, 1 << 31, MAXU - 1, MAXU)
VALS = (0, 1, 2, 3, 7, 8, -1, -4, (1 << 31) - 1, 1 << 31, MAXU, MAXU - 1, (1 << 40) + 5, (1 << 40) + 6, -(1 << 31), -(1 << 31) - 1)
PVALS = (0, 1, 2, 3, 7, 8, (1 << 31) - 1, 1 << 31, MAXU, MAXU - 1)


class Bad(Exception):
    """definitely wrong"""


class Q:
    def __init__(self, cls, kids=(), **kw):
        self.cls, self.kids, self.kw = cls, list(kids), kw

    def __repr__(self):
        a = [repr(k) for k in self.kids] + ['%s=%s' % (k, show(v) if isinstance(v, tuple) else v) for k, v in self.kw.items()]
        return self.cls.replace('Condition', '').replace('Expr', '') + ('(%s)' % ','.join(a) if a else '')


def CL(i):
    return Q('cleaf', i=i)


def EL(i):
    return Q('eleaf', i=i)


class World:
    def __init__(self, p, I):
        self.p, self.I = p, I
        self.st = State()
        self.n = 0
        self.leaf = {}          # root -> formula
        st = self.st
        for b in (True, False):
            r = ('h', 'const', b)
            st.store[r] = Obj(NS + 'BooleanCondition', None, {('f', 'value'): C(b), ('f', '_value'): C(b)})
            st.store[('g', NS + 'BooleanCondition::' + ('TRUE_CONSTANT' if b else 'FALSE_CONSTANT'))] = ('p', r, ())
        st.store[('h', 'dead')] = Obj(NS + 'DeadlockCondition', None, {})
        st.store[('g', NS + 'DeadlockCondition::DEADLOCK')] = ('p', ('h', 'dead'), ())

    def name(self, s):
        self.st.store[('h', 'str', s)] = C(s)
        return ('p', ('h', 'str', s), ())

    def new(self, cls, fields, root=None):
        self.n += 1
        r = root or ('h', 'q', self.n)
        self.st.store[r] = Obj(NS + cls, None, {('f', k): v for k, v in fields.items()})
        return ('p', r, ())

    def cleaf(self, i):
        r = ('h', 'leaf', 'c%s' % i)
        self.leaf[r] = ('atom', i)
        return self.new('UnfoldedFireableCondition', {'_name': self.name('leaf%s' % i), '_compiled': NULL}, r)

    def eleaf(self, i):
        r = ('h', 'leaf', 'e%s' % i)
        self.leaf[r] = ('num', i)
        inner = self.new('IdentifierExpr', {'_name': self.name('leafid%s' % i), '_compiled': NULL})
        return self.new('MinusExpr', {'_expr': inner}, r)

    def put(self, q):
        c = q.cls
        ks = [self.put(k) for k in q.kids]
        if c == 'cleaf':
            return self.cleaf(q.kw['i'])
        if c == 'eleaf':
            return self.eleaf(q.kw['i'])
        nm = self.name(q.kw['name']) if 'name' in q.kw else None
        if c == 'LiteralExpr':
            return self.new(c, {'_value': q.kw['v']})
        if c == 'IdentifierExpr':
            return self.new(c, {'_name': nm, '_compiled': ks[0] if ks else NULL})
        if c == 'UnfoldedIdentifierExpr':
            return self.new(c, {'_name': nm, '_offsetInMarking': C(q.kw['off'])})
        if c in ('PlusExpr', 'MultiplyExpr'):
            ids = [maplib.pair(C(o), self.name(x)) for o, x in q.kw.get('ids', ())]
            return self.new(c, {'_constant': q.kw['const'], '_ids': seqlib.seq(ids), '_exprs': seqlib.seq(ks)})
        if c == 'SubtractExpr':
            return self.new(c, {'_exprs': seqlib.seq(ks)})
        if c == 'MinusExpr':
            return self.new(c, {'_expr': ks[0]})
        if c in CMPN:
            return self.new(c, {'_expr1': ks[0], '_expr2': ks[1]})
        if c in ('AndCondition', 'OrCondition'):
            return self.new(c, {'_conds': seqlib.seq(ks), '_temporal': C(False)})
        if c in TEMP2:
            return self.new(c, {'_cond1': ks[0], '_cond2': ks[1]})
        if c == 'NotCondition' or c in TEMP1:
            return self.new(c, {'_cond': ks[0]})
        if c == 'BooleanCondition':
            return self.new(c, {'value': C(q.kw['v'])})
        if c == 'DeadlockCondition':
            return self.new(c, {})
        if c in ('FireableCondition', 'UnfoldedFireableCondition'):
            return self.new(c, {'_name': nm, '_compiled': ks[0] if ks else NULL})
        if c in ('LivenessCondition', 'QuasiLivenessCondition', 'StableMarkingCondition'):
            return self.new(c, {'_compiled': ks[0] if ks else NULL})
        if c == 'KSafeCondition':
            return self.new(c, {'_bound': ks[0], '_compiled': ks[1] if len(ks) > 1 else NULL})
        if c == 'UpperBoundsCondition':
            return self.new(c, {'_places': seqlib.seq([self.name(x) for x in q.kw['places']]), '_compiled': ks[0] if ks else NULL})
        if c == 'UnfoldedUpperBoundsCondition':
            pls = [Obj(NS + c + '::place_t', None, {('f', '_place'): C(o), ('f', '_name'): self.name(x), ('f', '_max'): m, ('f', '_maxed_out'): C(False)})
                   for o, x, m in q.kw['places']]
            return self.new(c, {'_places': seqlib.seq(pls), '_max': q.kw['max'], '_offset': q.kw['offset']})
        if c == 'CompareConjunction':
            cons = [Obj(NS + c + '::cons_t', None, {('f', '_place'): C(o), ('f', '_lower'): lo, ('f', '_upper'): up, ('f', '_name'): self.name(n)})
                    for o, n, lo, up in q.kw['cons']]
            return self.new(c, {'_constraints': seqlib.seq(cons), '_negated': C(q.kw['neg'])})
        if c in ('AllPaths', 'ExistPath'):
            return self.new(c, {'_id': q.kw['trace'], '_child': ks[0], '_offset': C(0)})
        if c in ('PathSelectExpr', 'PathSelectCondition'):
            return self.new(c, {'_name': q.kw['trace'], '_child': ks[0], '_offset': C(0)})
        raise AnchorError(c)


def meaning(q):
    """what the tree means"""
    c = q.cls
    if c == 'cleaf':
        return ('atom', q.kw['i'])
    if c == 'eleaf':
        return ('num', q.kw['i'])
    ks = [meaning(k) for k in q.kids]
    if c == 'LiteralExpr':
        return ('lit', q.kw['v'])
    if c in ('IdentifierExpr',):
        return ks[0] if ks else ('place', q.kw['name'])
    if c == 'UnfoldedIdentifierExpr':
        return ('place', q.kw['name'])
    if c in ('PlusExpr', 'MultiplyExpr'):
        return ('sum' if c == 'PlusExpr' else 'prod', [('lit', q.kw['const'])] + [('place', x) for _, x in q.kw.get('ids', ())] + ks)
    if c == 'SubtractExpr':
        return ('sub', ks)
    if c == 'MinusExpr':
        return ('sub', [('lit', C(0)), ks[0]])
    if c in CMPN:
        return ('cmp', CMPN[c], ks[0], ks[1])
    if c in ('AndCondition', 'OrCondition'):
        return ('and' if c[0] == 'A' else 'or', ks)
    if c in TEMP1:
        return (TEMP1[c], ks[0])
    if c in TEMP2:
        return (TEMP2[c], ks[0], ks[1])
    if c == 'NotCondition':
        return ('not', ks[0])
    if c == 'BooleanCondition':
        return ('true',) if q.kw['v'] else ('false',)
    if c == 'DeadlockCondition':
        return ('dead',)
    if c in SHALLOW and c != 'UnfoldedFireableCondition' and c != 'FireableCondition':
        return ks[-1]
    if c in ('UnfoldedFireableCondition', 'FireableCondition'):
        return ks[0] if ks and c == 'FireableCondition' else ('fire', q.kw['name'])
    if c == 'UnfoldedUpperBoundsCondition':
        return ('ub', [x for _, x, _ in q.kw['places']])
    if c == 'CompareConjunction':
        xs = []
        for o, n, lo, up in q.kw['cons']:
            xs += [('cmp', '>=', ('place', n), ('lit', lo)), ('cmp', '<=', ('place', n), ('lit', up))]
        return ('not', ('and', xs)) if q.kw['neg'] else ('and', xs)
    if c in ('AllPaths', 'ExistPath'):
        return ('path', 'A' if c[0] == 'A' else 'E', text(q.kw['trace']), ks[0])
    if c == 'PathSelectCondition':
        return ('sel', text(q.kw['trace']), ks[0])
    if c == 'PathSelectExpr':
        return ('selx', text(q.kw['trace']), ks[0])
    raise AnchorError(c)


def text(v):
    """text of a string value"""
    if isconst(v) and isinstance(cval(v), str):
        return cval(v)
    return v


class Decode:
    """the formula denoted by a pointer in a final state; place names by offset when given"""

    def __init__(self, st, leaf, names=None):
        self.st, self.leaf, self.names = st, leaf, names

    def nm(self, v):
        if v[0] == 'p':
            v = load(self.st, (v[1], v[2]))
        if v[0] == 't' and v[1] in ('undef', 'unk'):
            raise Unk('name ' + show(v)[:40])
        return text(v)

    def place(self, name, off=None):
        n = self.nm(name)
        if self.names is not None and off is not None:
            if not isnum(off):
                raise Unk('offset ' + show(off)[:40])
            o = int(cval(off))
            if not 0 <= o < len(self.names) or self.names[o] != n:
                raise Bad('offset %d is given the name %s' % (o, n))
        return ('place', n)

    def ptr(self, v, depth=0):
        if depth > 14:
            raise Unk('depth')
        if v[0] == 't' and v[1] == 'bool':
            return ('true',) if cval(v[2]) else ('false',)
        if v[0] == 't' and v[1] == 'global' and v[2].endswith(('::TRUE_CONSTANT', '::FALSE_CONSTANT')):
            return ('true',) if 'TRUE' in v[2] else ('false',)
        if v[0] == 't' and v[1] == 'global' and v[2].endswith('::DEADLOCK'):
            return ('dead',)
        if v == NULL:
            raise Bad('an operand is missing')
        if v[0] != 'p':
            raise Unk(show(v)[:60])
        if v[1] in self.leaf:
            return self.leaf[v[1]]
        o = load(self.st, (v[1], v[2]))
        cls = (getattr(o, 'cls', None) or '').split('::')[-1]

        def g(f):
            return get_step(o, ('f', f))

        def sub(f):
            return self.ptr(g(f), depth + 1)

        def seqf(f):
            x = g(f)
            if not seqlib.conc(x):
                raise Unk('list ' + f)
            return seqlib.items(x)
        if cls == 'LiteralExpr':
            return ('lit', g('_value'))
        if cls == 'IdentifierExpr':
            return self.place(g('_name')) if g('_compiled') == NULL else sub('_compiled')
        if cls == 'UnfoldedIdentifierExpr':
            return self.place(g('_name'), g('_offsetInMarking'))
        if cls in ('PlusExpr', 'MultiplyExpr'):
            pls = [self.place(get_step(x, ('f', 'second')), get_step(x, ('f', 'first'))) for x in seqf('_ids')]
            return ('sum' if cls == 'PlusExpr' else 'prod', [('lit', g('_constant'))] + pls + [self.ptr(x, depth + 1) for x in seqf('_exprs')])
        if cls == 'SubtractExpr':
            return ('sub', [self.ptr(x, depth + 1) for x in seqf('_exprs')])
        if cls == 'MinusExpr':
            return ('sub', [('lit', C(0)), sub('_expr')])
        if cls in CMPN:
            return ('cmp', CMPN[cls], sub('_expr1'), sub('_expr2'))
        if cls in ('AndCondition', 'OrCondition'):
            return ('and' if cls[0] == 'A' else 'or', [self.ptr(x, depth + 1) for x in seqf('_conds')])
        if cls in TEMP1:
            return (TEMP1[cls], sub('_cond'))
        if cls in TEMP2:
            return (TEMP2[cls], sub('_cond1'), sub('_cond2'))
        if cls == 'NotCondition':
            return ('not', sub('_cond'))
        if cls == 'BooleanCondition':
            x = g('value')
            if not isconst(x):
                raise Unk('boolean')
            return ('true',) if cval(x) else ('false',)
        if cls == 'DeadlockCondition':
            return ('dead',)
        if cls in ('FireableCondition', 'UnfoldedFireableCondition'):
            return ('fire', self.nm(g('_name')))
        if cls == 'KSafeCondition':
            return ('ksafe', sub('_bound'))
        if cls in ('LivenessCondition', 'QuasiLivenessCondition', 'StableMarkingCondition'):
            return ({'L': 'live', 'Q': 'ql', 'S': 'sm'}[cls[0]],)
        if cls == 'UpperBoundsCondition':
            return ('ub', [self.nm(x) for x in seqf('_places')])
        if cls == 'UnfoldedUpperBoundsCondition':
            return ('ub', [self.place(get_step(x, ('f', '_name')), get_step(x, ('f', '_place')))[1] for x in seqf('_places')])
        if cls == 'CompareConjunction':
            xs = []
            for c in seqf('_constraints'):
                pl = self.place(get_step(c, ('f', '_name')), get_step(c, ('f', '_place')))
                xs += [('cmp', '>=', pl, ('lit', get_step(c, ('f', '_lower')))), ('cmp', '<=', pl, ('lit', get_step(c, ('f', '_upper'))))]
            n = g('_negated')
            if not isconst(n):
                raise Unk('polarity')
            return ('not', ('and', xs)) if cval(n) else ('and', xs)
        if cls in ('AllPaths', 'ExistPath'):
            return ('path', 'A' if cls[0] == 'A' else 'E', self.nm(g('_id')), sub('_child'))
        if cls == 'PathSelectCondition':
            return ('sel', self.nm(g('_name')), sub('_child'))
        if cls == 'PathSelectExpr':
            return ('selx', self.nm(g('_name')), sub('_child'))
        raise Unk('object of class %s' % cls)


# ------------------------------------------------------------------ comparison
def walk(f, fn):
    if isinstance(f, (tuple, list)) and not isinstance(f, Obj):
        if isinstance(f, tuple):
            fn(f)
        for x in f:
            walk(x, fn)


def symbols(f, out):
    """input symbols: opaque atoms, opaque numbers, places, symbolic constants"""
    def fn(x):
        if x and x[0] in ('atom', 'num', 'place', 'fire') and len(x) == 2:
            out.add(x)
        elif x and x[0] == 'selx':
            out.add(x) if hashable(x) else None
        elif x and x[0] == 'lit':
            for y in subterms(x[1]):
                if isinstance(y, tuple) and y and y[0] == 't' and y[1] == 'sym':
                    out.add(y)
    walk(f, fn)
    return out


def hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def freeze(f):
    if isinstance(f, list):
        return tuple(freeze(x) for x in f)
    if isinstance(f, tuple) and not isinstance(f, Obj):
        return tuple(freeze(x) for x in f)
    return f


def num(f, env):
    k = f[0]
    if k == 'lit':
        return term(f[1], env)
    if k in ('place', 'num', 'selx'):
        return env[f]
    if k == 'sum':
        return sum(num(x, env) for x in f[1])
    if k == 'prod':
        r = 1
        for x in f[1]:
            r *= num(x, env)
        return r
    if k == 'sub':
        if not f[1]:
            raise Bad('a difference of no operands')
        r = num(f[1][0], env)
        for x in f[1][1:]:
            r -= num(x, env)
        return r
    raise Unk(k)


def prop(f, env):
    k = f[0]
    if k == 'true':
        return True
    if k == 'false':
        return False
    if k in ('atom', 'fire'):
        return env[f]
    if k == 'not':
        return not prop(f[1], env)
    if k == 'and':
        return all([prop(x, env) for x in f[1]])
    if k == 'or':
        return any([prop(x, env) for x in f[1]])
    if k == 'cmp':
        a, b = num(f[2], env), num(f[3], env)
        return {'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b, '>': a > b, '>=': a >= b}[f[1]]
    raise Unk(k)


def is_temporal(f):
    hit = []
    walk(f, lambda x: hit.append(1) if x and x[0] in TEMPS else None)
    return bool(hit)


CTLN = {('E', 'F'): 'EF', ('A', 'F'): 'AF', ('E', 'G'): 'EG', ('A', 'G'): 'AG', ('E', 'X'): 'EX', ('A', 'X'): 'AX', ('E', 'U'): 'EU', ('A', 'U'): 'AU'}


def equal(a, b):
    if a == b:
        return True
    try:
        return temporal.counterexample(a, b, [], temporal.table_constraints(a, b)) in (None, False)
    except temporal.Unknown:
        reps = []
        top = outer(a) or outer(b)
        a, b = split(a, top, reps), split(b, top, reps)
        return a == b or temporal.counterexample(a, b, [], temporal.table_constraints(a, b)) in (None, False)


def rep(reps, key, f):
    """an atom for the sub-formula f, the same for equivalent ones"""
    for i, (k, g) in enumerate(reps):
        if k == key and equal(f, g):
            return ('atom', ('rep', i))
        if k == key and key in ('c', 'l') and equal(('not', f), g):
            return ('not', ('atom', ('rep', i)))
    reps.append((key, f))
    return ('atom', ('rep', len(reps) - 1))


def outer(f):
    """kind of the outermost temporal operator"""
    if not isinstance(f, tuple) or not f or f[0] == 'atom':
        return None
    if f[0] in temporal.CTL:
        return 'c'
    if f[0] in temporal.LTL:
        return 'l'
    for x in f[1:]:
        r = outer(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else None
        if isinstance(x, tuple) and x and isinstance(x[0], tuple):
            for y in x:
                r = r or outer(y)
        if r:
            return r
    return None


def split(f, top, reps):
    """sub-formulas of the other kind become atoms"""
    if f[0] in ('atom', 'true', 'false', 'dead'):
        return f
    k = 'c' if f[0] in temporal.CTL else 'l' if f[0] in temporal.LTL else None
    if k and k != top:
        return rep(reps, k, f)
    if f[0] in ('and', 'or'):
        return (f[0], tuple(split(x, top, reps) for x in f[1]))
    return (f[0],) + tuple(split(x, top, reps) if isinstance(x, tuple) else x for x in f[1:])


def canon(f, envs, reps):
    """normal form: propositional parts are truth tables, quantifier-operator pairs are CTL operators, other constructs are opaque"""
    if not is_temporal(f):
        tab = tuple(prop(f, e) for e in envs)
        return ('true',) if all(tab) else ('false',) if not any(tab) else ('atom', tab)
    k = f[0]
    if k == 'dead':
        return f
    if k in ('and', 'or'):
        xs = tuple(canon(x, envs, reps) for x in f[1])
        return xs[0] if len(xs) == 1 else (k, xs)
    if k in ('E', 'A') and (k, f[1][0]) in CTLN:
        return (CTLN[k, f[1][0]],) + tuple(canon(x, envs, reps) for x in f[1][1:])
    if k == 'ub':
        return ('atom', ('ub', tuple(sorted(map(str, f[1])))))
    if k in ('ql', 'sm', 'live'):
        return ('atom', f)
    if k == 'ksafe':
        return ('atom', ('ksafe', tuple(num(f[1], e) for e in envs)))
    if k == 'control':
        return rep(reps, 'control', canon(f[1], envs, reps))
    if k == 'path':
        return rep(reps, f[:3], canon(f[3], envs, reps))
    if k == 'sel':
        return rep(reps, f[:2], canon(f[2], envs, reps))
    return (k,) + tuple(canon(x, envs, reps) for x in f[1:])


def envs_for(syms, doms, n=160):
    rnd = random.Random(7)
    syms = sorted(syms, key=repr)
    out = []

    def dom(s):
        if s[0] in ('atom', 'fire'):
            return (False, True)
        if s[0] == 'place':
            return PVALS
        if s[0] == 't':
            return doms.get(s, KDOM)
        return VALS
    small = len(syms) <= 3
    prodn = 1
    for s in syms:
        prodn *= len(dom(s))
    if prodn <= 2500:
        for vs in itertools.product(*[dom(s) for s in syms]):
            out.append(dict(zip(syms, vs)))
        return out
    for _ in range(n):
        out.append({s: rnd.choice(dom(s)) for s in syms})
    # near-equalities between the numeric symbols
    for _ in range(3 * n):
        e = {s: rnd.choice(dom(s)) for s in syms}
        nums = [s for s in syms if s[0] != 'atom' and s[0] != 'fire']
        if len(nums) > 1:
            a, b = rnd.sample(nums, 2)
            v = e[b] + rnd.choice((-1, 0, 1))
            if a[0] != 'place' or 0 <= v <= MAXU:
                if a[0] != 't' or a not in doms or 0 <= v <= MAXU:
                    e[a] = v
        out.append(e)
    return out


def differ(got, want, facts, doms):
    """None: the same meaning on every valuation considered; else a description; raises Unk when undecided"""
    got, want = freeze(got), freeze(want)
    syms = set()
    symbols(got, syms)
    symbols(want, syms)
    for k in facts:
        for y in subterms(k):
            if isinstance(y, tuple) and y and y[0] == 't' and y[1] == 'sym':
                syms.add(y)
    envs, unk = [], False
    for e in envs_for(syms, doms):
        h = holds(facts, e)
        if h is None:
            unk = True
        if h is not False:
            envs.append(e)
    if not envs:
        return None
    if not is_temporal(got) and not is_temporal(want):
        for e in envs:
            a, b = prop(got, e), prop(want, e)
            if a != b:
                if unk:
                    raise Unk('path condition not understood')
                return 'is %s where %s is meant, for %s' % (a, b, describe(e))
        return None
    reps = []
    a, b = canon(got, envs, reps), canon(want, envs, reps)
    if a == b:
        return None
    try:
        r = temporal.counterexample(a, b, [], temporal.table_constraints(a, b))
    except temporal.Unknown:
        reps = []
        top = outer(a) or outer(b)
        a, b = split(a, top, reps), split(b, top, reps)
        if a == b:
            return None
        r = temporal.counterexample(a, b, [], temporal.table_constraints(a, b))
    if r in (None, False):
        return None
    if unk:
        raise Unk('path condition not understood')
    return 'differs from what is meant (%s)' % r


def differ_num(got, want, facts, doms):
    got, want = freeze(got), freeze(want)
    syms = set()
    symbols(got, syms)
    symbols(want, syms)
    unk = False
    for k in facts:
        for y in subterms(k):
            if isinstance(y, tuple) and y and y[0] == 't' and y[1] == 'sym':
                syms.add(y)
    for e in envs_for(syms, doms):
        h = holds(facts, e)
        if h is False:
            continue
        unk = unk or h is None
        a, b = num(got, e), num(want, e)
        if a != b:
            if unk:
                raise Unk('path condition not understood')
            return 'is %s where %s is meant, for %s' % (a, b, describe(e))
    return None


def describe(e):
    return ', '.join('%s=%s' % (show(k) if k[0] == 't' else k[1], v) for k, v in sorted(e.items(), key=repr))[:120]


def sym(I, name, t):
    v = T('sym', name)
    I.note(v, t)
    return v


# ------------------------------------------------------------------ engine set-up
STRING = 'std::basic_string<char'
WS = ' \t\n\r\v\f'


def is_string_type(t):
    return (t or '').replace('const ', '').strip().startswith(STRING) or (t or '') in ('std::string', 'const std::string')


def base_interp(p):
    I = Interp(p, max_states=4000, max_depth=120)
    maplib.install(I, rec=14)
    I.budget = 2500000
    I.cast_hook = strict_cast
    I.raii = True
    I.hooks[NS + 'BooleanCondition::getShared'] = lambda I, e, st, loc, ptr: [(('p', ('h', 'const', bool(cval(v))), ()) if isconst(v) else T('bool', v), s) for v, s in I.eval(e['args'][0], st)]
    I.hooks[NS + 'isTemporal'] = lambda I, e, st, loc, ptr: [(C(True), s) for v, s in I.eval(e['args'][0], st)]

    def mk(I, e, st, loc, ptr):
        t = e.get('t', '')
        inner = t[t.find('<') + 1:t.rfind('>')].replace('const ', '').strip()
        if not inner.startswith(STRING):
            return None
        out = []
        for vs, s in I.evals(e['args'], st):
            if len(vs) != 1:
                return None
            s = s.copy()
            root = ('h', I.site_id(e, s), 'str', len(s.store))
            s.store[root] = vs[0]
            out.append((('p', root, ()), s))
        return out
    I.hooks['std::make_shared'] = mk

    def remove_if(I, e, st, loc, ptr):
        out = []
        for vs, s in I.evals(e['args'], st):
            b = vs[0]
            if not (b[0] == 't' and b[1] == 'begin'):
                return None
            l = b[2]
            v = load(s, l)
            if isinstance(v, tuple) and v and v[0] == 'seq':
                return maplib.seqlib.ALGS['std::remove_if'](I, e, st, loc, ptr)
            gone = ''
            for ch in WS + 'ab09_-.':
                r = None
                if vs[2][0] == 'fnp' or vs[2][0] == 't':
                    nm = str(vs[2][1:])
                    r = ch in WS if 'isspace' in nm else None
                elif isinstance(vs[2], Closure):
                    rs = I.call_closure(vs[2], [], s, e, vals=(C(ord(ch)),))
                    if len(rs) == 1 and isconst(rs[0][0]):
                        r = bool(cval(rs[0][0]))
                if r is None:
                    raise Unsupported('remove_if predicate ' + show(vs[2])[:60])
                if r:
                    gone += ch
            s = s.copy()
            if isconst(v) and isinstance(cval(v), str):
                save(s, l, C(''.join(c for c in cval(v) if c not in gone)))
            elif gone == WS:
                save(s, l, T('strip', v))
            else:
                raise Unsupported('remove_if of other characters')
            out.append((T('end', l), s))
        return out
    I.hooks['std::remove_if'] = remove_if
    I.hooks['isspace'] = lambda I, e, st, loc, ptr: [(C(chr(int(cval(v))) in WS), s) if isnum(v) else (T('isspace', v), s) for v, s in I.eval(e['args'][0], st)]

    old = I.std_hook

    def method(I, e, st, loc, ptr):
        cls = e.get('cls', '') or ''
        if is_string_type(cls) and loc is not None:
            v = load(st, loc)
            name = e.get('name')
            if name == 'erase':
                return [(('LV', loc), s) for vs, s in I.evals(e['args'], st)]       # of the tail left by remove_if
            if name in ('begin', 'cbegin') and not (isconst(v) and isinstance(cval(v), str) and False):
                return [(T('begin', loc), st)]
            if name in ('end', 'cend'):
                return [(T('end', loc), st)]
            if name == 'empty' and v[0] == 't' and v[1] in ('strip', 'numtext', 'sym'):
                return [(C(False), st)]
            if name == 'size' and v[0] == 't':
                return [(T('strlen', v), st)]
            if name in ('c_str', 'data'):
                return [(v, st)]
            if name in ('push_back', 'append') and len(e['args']) == 1:
                out = []
                for x, s in I.eval(e['args'][0], st):
                    o = load(s, loc)
                    if not (isconst(o) and isinstance(cval(o), str) and isconst(x)):
                        raise Unsupported('text appended: ' + show(x)[:60])
                    s = s.copy()
                    save(s, loc, C(cval(o) + (cval(x) if isinstance(cval(x), str) else chr(int(cval(x)) % 256))))
                    out.append((('LV', loc), s))
                return out
            if name in ('operator=', 'assign') and len(e['args']) == 1:
                out = []
                for x, s in I.eval(e['args'][0], st):
                    s = s.copy()
                    save(s, loc, x)
                    out.append((('LV', loc), s))
                return out
        return old(I, e, st, loc, ptr)
    I.std_hook = method
    return I


def intparse(v, bits, signed=True):
    """the number read from text v into a type of that many bits"""
    if v[0] == 't' and v[1] == 'numtext':
        x = v[2]
        return x if bits >= 64 and signed else T('strunc' if signed else 'trunc', bits, x)
    if isconst(v) and isinstance(cval(v), str):
        m = re.match(r'\s*([-+]?[0-9]+)', cval(v))        # the longest numeric prefix, as in C
        return C(int(m.group(1))) if m else None
    return None
