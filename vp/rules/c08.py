"""C08: name resolution and expansion of derived propositions give the query its meaning on the net."""
import itertools
from ..trees import *
from ..smallmodel import term, holds, Unk
from .. import maplib, temporal
from ..netmodel import Arc, lay_net, NETL, NETP
from ..pql import VISIT

LEVEL = 'other'
MIN_OBLIGATIONS = 60
EXPLANATION = ('Abstract interpretation of analyze() (visitor dispatch, context resolution, node constructors) over query trees of every node class, on an abstract net with '
               'named places and transitions whose arc weights, initial tokens and bounds are symbolic, in plain and coloured contexts. On every path the analysed tree '
               '(read through its resolved offsets and compiled conditions) must mean what the named query means: compared over every valuation of a finite grid of markings, '
               'weights and initial tokens, temporal operators over all small transition systems; unknown names must raise an error.')
TUS = ['src/PetriEngine/PQL/Analyze.cpp', 'src/PetriEngine/PQL/Contexts.cpp', 'src/PetriEngine/PQL/Expressions.cpp', 'src/PetriEngine/PetriNet.cpp']
PE = 'PetriEngine::'
AV = NS + 'AnalyzeVisitor'
CTX = ('h', 'ctx')
MAXU = (1 << 32) - 1
PLACES = ['P_0', 'P_1', 'Q_0']           # offset = index
TRANS = ['T_0', 'T_1', 'U_0']
CPLACES = {'P': ['P_0', 'P_1'], 'Q': ['Q_0']}
CTRANS = {'T': ['T_1', 'T_0'], 'U': ['U_0'], 'V': []}
TOK = (0, 1, 2, 3, MAXU)
BIGTOK = (0, 1, 1 << 31, MAXU)
WTS = (1, 2, (1 << 31) - 1)
INIT = (0, 1, (1 << 31) + 1, MAXU)
CMPN = {'LessThanCondition': '<', 'LessThanOrEqualCondition': '<=', 'EqualCondition': '==', 'NotEqualCondition': '!='}
TEMP1 = {'EFCondition': 'EF', 'AGCondition': 'AG', 'AFCondition': 'AF', 'EGCondition': 'EG', 'EXCondition': 'EX', 'AXCondition': 'AX',
         'FCondition': 'F', 'GCondition': 'G', 'XCondition': 'X', 'ECondition': 'E', 'ACondition': 'A'}
TEMP2 = {'EUCondition': 'EU', 'AUCondition': 'AU', 'UntilCondition': 'U'}


class Q:
    """named query / expression node"""

    def __init__(self, cls, kids=(), **kw):
        self.cls, self.kids, self.kw = cls, list(kids), kw

    def __repr__(self):
        a = [repr(k) for k in self.kids] + ['%s=%s' % (k, v) for k, v in self.kw.items()]
        return self.cls.replace('Condition', '').replace('Expr', '') + ('(%s)' % ','.join(a) if a else '')


class World:
    """an abstract net, a context, and laid out queries"""

    def __init__(self, p, colored, I, order=0, extra_places=(), short=False):
        self.p, self.I, self.colored = p, I, colored
        self.st = State()
        self.n = 0
        self.syms = {}
        st = self.st
        for b in (True, False):
            r = ('h', 'const', b)
            st.store[r] = Obj(NS + 'BooleanCondition', None, {('f', 'value'): C(b), ('f', '_value'): C(b)})
            st.store[('g', NS + 'BooleanCondition::' + ('TRUE_CONSTANT' if b else 'FALSE_CONSTANT'))] = ('p', r, ())
        self.w = [self.sym('w%d' % i, WTS, 'unsigned int') for i in range(4)]
        w = self.w
        self.trans = [([Arc(0, tokens=w[0]), Arc(1, inhibitor=True, tokens=w[1])], [Arc(2, tokens=1)]),
                      ([], [Arc(0, tokens=1)]),
                      ([Arc(1, tokens=w[2]), Arc(2, tokens=w[3])], [])]
        lay_net(I, st, 3, self.trans)
        self.init = [self.sym('init%d' % i, INIT, 'unsigned int') for i in range(3)]
        self.names = {}
        for n in PLACES + TRANS + list(CPLACES) + list(CTRANS):
            self.name(n)
        N = self.name
        net = st.store[NETL]
        f = dict(net.fields)
        f[('f', '_placenames')] = seqlib.seq([N(x) for x in PLACES])
        f[('f', '_transitionnames')] = seqlib.seq([N(x) for x in TRANS])
        st.store[('h', 'init')] = seqlib.seq(self.init)
        f[('f', '_initialMarking')] = ('p', ('h', 'init'), ())
        st.store[NETL] = Obj(net.cls, None, f)
        perm = [(2, 0, 1), (1, 2, 0)][order % 2]
        st.store[('h', 'pmap')] = maplib.mk_map([(N(PLACES[i]), C(i)) for i in perm])
        st.store[('h', 'tmap')] = maplib.mk_map([(N(TRANS[i]), C(i)) for i in perm])
        cp = {k: list(v) for k, v in CPLACES.items()}
        cpo = list(cp)
        if order % 2:
            cpo.reverse()
        self.cplaces = cp
        cm = []
        for k in cpo:
            ent = [(C(j), N(x)) for j, x in enumerate(cp[k])]
            if order % 2:
                ent.reverse()
            if extra_places and k in extra_places:
                ent.insert(extra_places[k] if extra_places[k] >= 0 else len(ent), (C(9), N(k + 'Sum')))
            cm.append((N(k), maplib.mk_map(ent)))
        st.store[('h', 'cpmap')] = maplib.mk_map(cm)
        st.store[('h', 'ctmap')] = maplib.mk_map([(N(k), seqlib.seq([N(x) for x in v])) for k, v in CTRANS.items()])
        if extra_places:
            xs = seqlib.items(st.store[('h', 'pmap')])
            self.nplaces = 3 + len(extra_places)
            for j, k in enumerate(extra_places):
                xs = xs + [maplib.pair(N(k + 'Sum'), C(3 + j))]
            st.store[('h', 'pmap')] = seqlib.seq(xs)
        rf = lambda n: ('rf', (('h', n), ()))
        fields = {('f', '_placeNames'): rf('pmap'), ('f', '_transitionNames'): rf('tmap'), ('f', '_net'): NETP, ('f', '_trace_names'): seqlib.seq([])}
        cls = NS + 'AnalysisContext'
        if colored is not None:
            cls = NS + 'ColoredAnalysisContext'
            fields[('f', '_coloredPlaceNames')] = rf('cpmap')
            fields[('f', '_coloredTransitionNames')] = rf('ctmap')
            fields[('f', '_colored')] = C(colored)
        st.store[CTX] = Obj(cls, None, fields)

    def sym(self, name, dom, t):
        v = T(name)
        self.syms[v] = dom
        self.I.note(v, t)
        return v

    def name(self, s):
        self.st.store[('h', 'str', s)] = C(s)
        return ('p', ('h', 'str', s), ())

    def new(self, cls, fields):
        self.n += 1
        r = ('h', 'q', self.n)
        self.st.store[r] = Obj(NS + cls, None, {('f', k): v for k, v in fields.items()})
        return ('p', r, ())

    def put(self, q):
        c = q.cls
        ks = [self.put(k) for k in q.kids]
        nm = self.name(q.kw['name']) if 'name' in q.kw else None
        if c == 'LiteralExpr':
            return self.new(c, {'_value': C(q.kw['v'])})
        if c == 'IdentifierExpr':
            return self.new(c, {'_name': nm, '_compiled': NULL})
        if c == 'UnfoldedIdentifierExpr':
            return self.new(c, {'_name': nm, '_offsetInMarking': C(q.kw.get('off', -1))})
        if c in ('PlusExpr', 'MultiplyExpr'):
            ids = [maplib.pair(C(q.kw.get('off', 0)), self.name(x)) for x in q.kw.get('ids', ())]
            return self.new(c, {'_constant': C(q.kw['const']), '_ids': seqlib.seq(ids), '_exprs': seqlib.seq(ks)})
        if c == 'SubtractExpr':
            return self.new(c, {'_exprs': seqlib.seq(ks)})
        if c == 'MinusExpr':
            return self.new(c, {'_expr': ks[0]})
        if c in CMPN:
            return self.new(c, {'_expr1': ks[0], '_expr2': ks[1]})
        if c in ('AndCondition', 'OrCondition'):
            return self.new(c, {'_conds': seqlib.seq(ks), '_temporal': C(False)})
        if c in ('UntilCondition', 'EUCondition', 'AUCondition'):
            return self.new(c, {'_cond1': ks[0], '_cond2': ks[1]})
        if c == 'NotCondition' or c in TEMP1 or c == 'ControlCondition':
            return self.new(c, {'_cond': ks[0]})
        if c == 'BooleanCondition':
            return self.new(c, {'value': C(q.kw['v'])})
        if c == 'DeadlockCondition':
            return self.new(c, {})
        if c in ('FireableCondition', 'UnfoldedFireableCondition'):
            return self.new(c, {'_name': nm, '_compiled': NULL})
        if c == 'KSafeCondition':
            return self.new(c, {'_bound': self.put(Q('LiteralExpr', v=q.kw['k'])), '_compiled': NULL})
        if c in ('LivenessCondition', 'QuasiLivenessCondition', 'StableMarkingCondition'):
            return self.new(c, {'_compiled': NULL})
        if c == 'UpperBoundsCondition':
            return self.new(c, {'_places': seqlib.seq([self.name(x) for x in q.kw['places']]), '_compiled': NULL})
        if c == 'UnfoldedUpperBoundsCondition':
            pls = [Obj(NS + c + '::place_t', None, {('f', '_place'): C(0), ('f', '_name'): self.name(x), ('f', '_max'): ('inf',), ('f', '_maxed_out'): C(False)})
                   for x in q.kw['places']]
            return self.new(c, {'_places': seqlib.seq(pls), '_max': ('inf',), '_offset': C(0)})
        if c == 'CompareConjunction':
            cons = [Obj(NS + c + '::cons_t', None, {('f', '_place'): C(0), ('f', '_lower'): C(lo), ('f', '_upper'): C(up), ('f', '_name'): self.name(n)})
                    for n, lo, up in q.kw['cons']]
            return self.new(c, {'_constraints': seqlib.seq(cons), '_negated': C(q.kw.get('neg', False))})
        if c in ('AllPaths', 'ExistPath'):
            return self.new(c, {'_id': C(q.kw['trace']), '_child': ks[0], '_offset': C(0)})
        if c in ('PathSelectExpr', 'PathSelectCondition'):
            return self.new(c, {'_name': C(q.kw['trace']), '_child': ks[0], '_offset': C(0)})
        raise AnchorError(c)

    # ---- what the named query means, as a decoded tree
    def pl(self, name):
        return ('sum', C(0), [C(PLACES.index(x)) for x in ([name] if not self.colored or name not in CPLACES else CPLACES[name])], [])

    def fire(self, t):
        xs = []
        for a in self.trans[TRANS.index(t)][0]:
            if a.inhibitor:
                xs.append(('cmp', '<', ('place', C(a.place)), ('lit', a.tokens)))
            else:
                xs.append(('cmp', '>=', ('place', C(a.place)), ('lit', a.tokens)))
        return ('and', xs)

    def cfire(self, t):
        return ('or', [self.fire(x) for x in (CTRANS[t] if self.colored else [t])])

    def allplaces(self):
        return list(CPLACES) if self.colored else PLACES

    def alltrans(self):
        return list(CTRANS) if self.colored else TRANS

    def spec(self, q):
        c = q.cls
        ks = [self.spec(k) for k in q.kids]
        if c == 'LiteralExpr':
            return ('lit', C(q.kw['v']))
        if c == 'IdentifierExpr':
            return self.pl(q.kw['name'])
        if c == 'UnfoldedIdentifierExpr':
            return ('place', C(PLACES.index(q.kw['name'])))
        if c in ('PlusExpr', 'MultiplyExpr'):
            return ('sum' if c == 'PlusExpr' else 'prod', C(q.kw['const']), [C(PLACES.index(x)) for x in q.kw.get('ids', ())], ks)
        if c == 'SubtractExpr':
            return ('sub', ks)
        if c == 'MinusExpr':
            return ('neg', ks[0])
        if c in CMPN:
            return ('cmp', CMPN[c], ks[0], ks[1])
        if c in ('AndCondition', 'OrCondition'):
            return ('and' if c[0] == 'A' else 'or', ks)
        if c in TEMP1:
            return (TEMP1[c], ks[0])
        if c in TEMP2:
            return (TEMP2[c], ks[0], ks[1])
        if c == 'NotCondition':
            return ('not', ks[0])
        if c == 'BooleanCondition':
            return ('true',) if q.kw['v'] else ('false',)
        if c == 'DeadlockCondition':
            return ('dead',)
        if c == 'FireableCondition':
            return self.cfire(q.kw['name'])
        if c == 'UnfoldedFireableCondition':
            return self.fire(q.kw['name'])
        if c == 'KSafeCondition':
            return ('AG', ('and', [('cmp', '<=', self.pl(x), ('lit', C(q.kw['k']))) for x in self.allplaces()]))
        if c == 'QuasiLivenessCondition':
            return ('and', [('EF', self.cfire(t)) for t in self.alltrans()])
        if c == 'LivenessCondition':
            return ('and', [('AG', ('EF', self.cfire(t))) for t in self.alltrans()])
        if c == 'StableMarkingCondition':
            return ('or', [('AG', ('cmp', '==', self.pl(x), ('sumlit', [self.init[PLACES.index(y)] for y in (CPLACES[x] if self.colored else [x])])))
                           for x in self.allplaces()])
        if c in ('UpperBoundsCondition', 'UnfoldedUpperBoundsCondition'):
            xs = []
            for x in q.kw['places']:
                xs += self.pl(x)[2]
            return ('ub', sorted(cval(x) for x in xs))
        if c == 'CompareConjunction':
            r = ('and', [y for n, lo, up in q.kw['cons'] for y in (('cmp', '>=', ('place', C(PLACES.index(n))), ('lit', C(lo))),
                                                                     ('cmp', '<=', ('place', C(PLACES.index(n))), ('lit', C(up))))])
            return ('not', r) if q.kw.get('neg') else r
        raise AnchorError(c)


class Bad(Exception):
    """the analysed tree is definitely not resolved"""


class Decode:
    def __init__(self, st):
        self.st = st

    def ptr(self, v, depth=0):
        if depth > 14:
            raise Unk('depth')
        if v[0] == 't' and v[1] == 'bool':
            return ('true',) if cval(v[2]) else ('false',)
        if v[0] == 't' and v[1] == 'global' and v[2].endswith(('::TRUE_CONSTANT', '::FALSE_CONSTANT')):
            return ('true',) if 'TRUE' in v[2] else ('false',)
        if v == NULL:
            raise Bad('an operand is missing')
        if v[0] != 'p':
            raise Unk(show(v)[:60])
        o = load(self.st, (v[1], v[2]))
        cls = (getattr(o, 'cls', None) or '').split('::')[-1]

        def g(f):
            return get_step(o, ('f', f))

        def sub(f):
            return self.ptr(g(f), depth + 1)

        def seqf(f):
            x = g(f)
            if not seqlib.conc(x):
                raise Unk('list ' + f)
            return seqlib.items(x)
        if cls == 'LiteralExpr':
            return ('lit', g('_value'))
        if cls == 'IdentifierExpr':
            if g('_compiled') == NULL:
                raise Bad('an identifier is left unresolved')
            return sub('_compiled')
        if cls == 'UnfoldedIdentifierExpr':
            return ('place', g('_offsetInMarking'))
        if cls in ('PlusExpr', 'MultiplyExpr'):
            offs = [get_step(x, ('f', 'first')) for x in seqf('_ids')]
            return ('sum' if cls == 'PlusExpr' else 'prod', g('_constant'), offs, [self.ptr(x, depth + 1) for x in seqf('_exprs')])
        if cls == 'SubtractExpr':
            return ('sub', [self.ptr(x, depth + 1) for x in seqf('_exprs')])
        if cls == 'MinusExpr':
            return ('neg', sub('_expr'))
        if cls in CMPN:
            return ('cmp', CMPN[cls], sub('_expr1'), sub('_expr2'))
        if cls in ('AndCondition', 'OrCondition'):
            return ('and' if cls[0] == 'A' else 'or', [self.ptr(x, depth + 1) for x in seqf('_conds')])
        if cls in TEMP1:
            return (TEMP1[cls], sub('_cond'))
        if cls in TEMP2:
            return (TEMP2[cls], sub('_cond1'), sub('_cond2'))
        if cls == 'NotCondition':
            return ('not', sub('_cond'))
        if cls == 'BooleanCondition':
            return ('true',) if cval(g('value')) else ('false',)
        if cls == 'DeadlockCondition':
            return ('dead',)
        if cls in ('FireableCondition', 'UnfoldedFireableCondition', 'KSafeCondition', 'LivenessCondition', 'QuasiLivenessCondition', 'StableMarkingCondition',
                   'UpperBoundsCondition'):
            if g('_compiled') == NULL:
                raise Bad('a %s is left without a compiled condition' % cls)
            return sub('_compiled')
        if cls == 'UnfoldedUpperBoundsCondition':
            offs = [get_step(x, ('f', '_place')) for x in seqf('_places')]
            if not all(isconst(x) for x in offs):
                raise Unk('places')
            return ('ub', sorted(cval(x) for x in offs))
        if cls == 'CompareConjunction':
            xs = []
            cs = seqf('_constraints')
            pls = [get_step(c, ('f', '_place')) for c in cs]
            if all(isconst(x) for x in pls) and [cval(x) for x in pls] != sorted(cval(x) for x in pls):
                raise Bad('the constraints of a conjunction are not ordered by place, which merging them relies on')
            for c in cs:
                pl = ('place', get_step(c, ('f', '_place')))
                xs.append(('cmp', '>=', pl, ('lit', get_step(c, ('f', '_lower')))))
                xs.append(('cmp', '<=', pl, ('lit', get_step(c, ('f', '_upper')))))
            r = ('and', xs)
            return ('not', r) if cval(g('_negated')) else r
        raise Unk('object of class %s' % cls)


TEMPS = set(TEMP1.values()) | set(TEMP2.values()) | {'dead'}


def temporal_ops(f):
    if isinstance(f, (tuple, list)):
        return (f and isinstance(f[0], str) and f[0] in TEMPS) or any(temporal_ops(x) for x in f)
    return False


def num(f, env):
    k = f[0]
    if k == 'lit':
        return term(f[1], env)
    if k == 'sumlit':
        return sum(term(x, env) for x in f[1])
    if k == 'place':
        i = term(f[1], env)
        if ('m', i) not in env:
            raise Bad('reads offset %s of the marking' % i)
        return env['m', i]
    if k == 'sum':
        return term(f[1], env) + sum(num(('place', x), env) for x in f[2]) + sum(num(x, env) for x in f[3])
    if k == 'prod':
        r = term(f[1], env)
        for x in f[2]:
            r *= num(('place', x), env)
        for x in f[3]:
            r *= num(x, env)
        return r
    if k == 'sub':
        r = num(f[1][0], env)
        for x in f[1][1:]:
            r -= num(x, env)
        return r
    if k == 'neg':
        return -num(f[1], env)
    raise Unk(k)


def prop(f, env):
    k = f[0]
    if k == 'true':
        return True
    if k == 'false':
        return False
    if k == 'not':
        return not prop(f[1], env)
    if k == 'and':
        return all([prop(x, env) for x in f[1]])
    if k == 'or':
        return any([prop(x, env) for x in f[1]])
    if k == 'cmp':
        a, b = num(f[2], env), num(f[3], env)
        return {'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b, '>': a > b, '>=': a >= b}[f[1]]
    raise Unk(k)


def to_temporal(f, envs):
    """maximal propositional sub-formulas become atoms identified by their truth table"""
    if not temporal_ops(f):
        tab = tuple(prop(f, e) for e in envs)
        if all(tab):
            return ('true',)
        if not any(tab):
            return ('false',)
        return ('atom', tab)
    k = f[0]
    if k == 'dead':
        return f
    if k in ('and', 'or'):
        return (k, tuple(to_temporal(x, envs) for x in f[1]))
    return (k,) + tuple(to_temporal(x, envs) for x in f[1:])


def used_syms(f, out):
    if isinstance(f, (tuple, list)):
        for x in f:
            used_syms(x, out)
        if isinstance(f, tuple) and f and f[0] in ('t', 'l', 'c', 'o'):
            for x in subterms(f):
                out.add(x)
    elif isinstance(f, Obj):
        pass
    return out


def env_list(W, big, syms):
    toks = [(a, b, c) for a in (BIGTOK if big else TOK) for b in (BIGTOK if big else TOK) for c in (0, 1, 2, MAXU)]
    keys = [k for k in W.syms if k in syms]
    out = []
    for vs in itertools.product(*[W.syms[k] for k in keys]):
        base = dict(zip(keys, vs))
        for k in W.syms:
            if k not in base:
                base[k] = W.syms[k][0]
        if W.colored and any(sum(base[W.init[PLACES.index(x)]] for x in v) > MAXU for v in CPLACES.values()):
            continue        # a marking holds 32-bit token counts
        ts = toks
        for v in vs:
            if v not in (0, 1, 2, MAXU):
                ts = ts + [(v, v, v), (v - 1, v - 1, v - 1), (v, 0, 0), (0, v, 0)]
        for t in ts:
            e = dict(base)
            for i in range(3):
                e['m', i] = t[i]
            out.append(e)
    return out


def compare(ctx, nm, W, s, got, want, where):
    if got[0] == 'ub' or want[0] == 'ub':
        ctx.check(nm, got == want, 'the bound is taken over places %s, not %s' % (got[1:], want[1:]), where)
        return
    syms = set()
    used_syms(got, syms)
    used_syms(want, syms)
    for k in s.facts:
        used_syms(k, syms)
    for big in (False, True):
        envs = []
        unk = False
        cache = {}
        for e in env_list(W, big, syms):
            key = tuple(e[k] for k in W.syms)
            if key not in cache:
                cache[key] = holds(s.facts, e)
            if cache[key] is None:
                unk = True
            if cache[key] is not False:
                envs.append(e)
        if not envs:
            continue
        if not temporal_ops(got) and not temporal_ops(want):
            for e in envs:
                if prop(got, e) != prop(want, e):
                    if unk:
                        ctx.und(nm, 'path condition not understood', where)
                        return
                    ctx.bad(nm, 'the analysed formula is %s where the query is %s: %s' % (prop(got, e), prop(want, e), describe(e)), where)
                    return
            continue
        a, b = to_temporal(got, envs), to_temporal(want, envs)
        if a == b:
            continue
        r = temporal.counterexample(a, b, [], temporal.table_constraints(a, b))
        if r not in (None, False):
            if unk:
                ctx.und(nm, 'path condition not understood', where)
                return
            ctx.bad(nm, 'the analysed formula differs from the query (%s)' % r, where)
            return
    ctx.ok(nm, '', where)


def describe(e):
    return ', '.join('%s=%s' % (k[1] if k[0] == 't' else PLACES[k[1]], v) for k, v in sorted(e.items(), key=str))


def interp(p):
    I = Interp(p, max_states=4000, max_depth=120)
    maplib.install(I, rec=12)
    I.budget = 3000000
    I.cast_hook = strict_cast
    I.ref_fields = tuple(I.ref_fields) + ('_context', '_placeNames', '_transitionNames', '_coloredPlaceNames', '_coloredTransitionNames')

    def hook(I, e, st, loc, ptr):
        out = []
        for vl, c, s in visit_child(I, e, st):
            if c == NULL:
                raise Unsupported('null operand visited')
            if c[0] == 't' and c[1] == 'global':
                out.append((NULL, s))       # the shared constants
                continue
            o = load(s, (c[1], c[2])) if c[0] == 'p' else None
            cls = getattr(o, 'cls', None)
            if cls is None:
                raise Unsupported('visit of ' + show(c)[:60])
            key = accept_fn(I.p, AV, cls)
            if key is None or key not in I.p.fns:
                raise AnchorError('no handler for ' + cls)
            out += I.call_fn(I.p.fns[key], s, ('p', vl[0], vl[1]), [('v', c)], e)
        return out
    I.hooks[VISIT] = hook

    def dl(I, e, st, loc, ptr):
        s = st.copy()
        s.ghost['deadlock'] = True
        return [(NULL, s)]
    I.name_hooks['setHasDeadlock'] = dl
    I.hooks[NS + 'BooleanCondition::getShared'] = lambda I, e, st, loc, ptr: [(T('bool', v), s) for v, s in I.eval(e['args'][0], st)]
    I.hooks[NS + 'isTemporal'] = lambda I, e, st, loc, ptr: [(C(True), s) for v, s in I.eval(e['args'][0], st)]
    return I


def queries(colored):
    P = lambda n: Q('IdentifierExpr', name=n)
    U = lambda n: Q('UnfoldedIdentifierExpr', name=n)
    L = lambda v: Q('LiteralExpr', v=v)
    a, b = ('P', 'Q') if colored else ('P_0', 'Q_0')
    ta, tb = ('T', 'U') if colored else ('T_0', 'U_0')
    out = []
    for c in CMPN:
        out.append(Q(c, [P(a), L(2)]))
        out.append(Q(c, [L(1), P(b)]))
        out.append(Q(c, [U('P_1'), U('P_0')]))
    le = lambda x, y: Q('LessThanOrEqualCondition', [x, y])
    exprs = [Q('PlusExpr', [], const=3, ids=['Q_0', 'P_0']), Q('PlusExpr', [P(a)], const=1, ids=[]), Q('PlusExpr', [P(a), P(b)], const=0, ids=['P_1']),
             Q('PlusExpr', [Q('SubtractExpr', [P(a), U('Q_0')])], const=0, ids=['P_0']), Q('PlusExpr', [Q('MinusExpr', [P(b)])], const=5, ids=[]),
             Q('SubtractExpr', [P(a), L(1)]), Q('SubtractExpr', [P(a), P(b), U('P_1')]), Q('MinusExpr', [P(a)]), Q('MinusExpr', [Q('SubtractExpr', [P(b), P(a)])]),
             Q('MultiplyExpr', [], const=2, ids=['P_1']), Q('MultiplyExpr', [P(b)], const=1, ids=['P_0']), Q('MultiplyExpr', [Q('SubtractExpr', [P(a), L(1)])], const=3, ids=[]),
             Q('PlusExpr', [Q('MultiplyExpr', [P(b)], const=2, ids=[])], const=0, ids=['P_0'])]
    for x in exprs:
        out.append(le(x, L(4)))
    q1, q2 = le(P(a), L(1)), Q('LessThanCondition', [L(0), P(b)])
    f1, f2 = Q('FireableCondition', name=ta), Q('FireableCondition', name=tb)
    uf1, uf2 = Q('UnfoldedFireableCondition', name='T_0'), Q('UnfoldedFireableCondition', name='U_0')
    out += [Q('NotCondition', [q1]), Q('NotCondition', [f1]), Q('NotCondition', [uf1])]
    for c in ('AndCondition', 'OrCondition'):
        out += [Q(c, [q1, q2]), Q(c, [f1, q2]), Q(c, [q1, uf2, f2]), Q(c, [uf1, uf2]), Q(c, [])]
    for c in TEMP1:
        out += [Q(c, [q1]), Q(c, [f1])]
    for c in TEMP2:
        out += [Q(c, [q1, f2]), Q(c, [f1, q2])]
    for t in (list(CTRANS) if colored else TRANS):
        out.append(Q('FireableCondition', name=t))
    for t in TRANS:
        out.append(Q('UnfoldedFireableCondition', name=t))
    for k in (0, 1, 3):
        out.append(Q('KSafeCondition', k=k))
    out += [Q('QuasiLivenessCondition'), Q('LivenessCondition'), Q('StableMarkingCondition')]
    out += [Q('UpperBoundsCondition', places=x) for x in ([a], [b], [b, a])]
    out += [Q('UnfoldedUpperBoundsCondition', places=x) for x in (['P_1'], ['Q_0', 'P_0'])]
    for ng in (False, True):
        out.append(Q('CompareConjunction', cons=[('Q_0', 1, 2)], neg=ng))
        out.append(Q('CompareConjunction', cons=[('Q_0', 1, MAXU), ('P_0', 0, 1)], neg=ng))
        out.append(Q('CompareConjunction', cons=[('P_1', 2, 2), ('Q_0', 0, 0), ('P_0', 1, MAXU)], neg=ng))
    out += [Q('BooleanCondition', v=True), Q('BooleanCondition', v=False), Q('DeadlockCondition')]
    out += [Q('AndCondition', [Q('KSafeCondition', k=1), q1]), Q('NotCondition', [Q('LivenessCondition')]), Q('OrCondition', [Q('StableMarkingCondition'), Q('KSafeCondition', k=2)])]
    return out


def unknowns(colored):
    P = lambda n: Q('IdentifierExpr', name=n)
    L = lambda v: Q('LiteralExpr', v=v)
    n = 'nosuch'
    out = [Q('EqualCondition', [P(n), L(1)]), Q('EqualCondition', [Q('UnfoldedIdentifierExpr', name=n), L(1)]), Q('EqualCondition', [Q('PlusExpr', [], const=0, ids=[n]), L(1)]),
           Q('EqualCondition', [Q('PlusExpr', [P(n)], const=0, ids=[]), L(1)]), Q('FireableCondition', name=n), Q('UnfoldedFireableCondition', name=n),
           Q('CompareConjunction', cons=[(n, 1, 2)]), Q('UpperBoundsCondition', places=[n]), Q('UnfoldedUpperBoundsCondition', places=[n]),
           # a name of the other kind is not a name of this kind
           Q('EqualCondition', [P('T_0'), L(1)]), Q('FireableCondition', name='P_0'), Q('UnfoldedFireableCondition', name='Q_0')]
    if colored:
        out += [Q('EqualCondition', [P('T'), L(1)]), Q('FireableCondition', name='P')]
    return out


def entry(p):
    fs = [f for f in p.fns.values() if f['key'].split('(')[0] == NS + 'analyze' and len(f.get('params', [])) == 2]
    fs = [f for f in fs if 'shared_ptr' not in f['key']]
    if not fs:
        raise AnchorError('analyze() not found')
    return fs[0]


def run_query(ctx, p, colored, q, order=0, extra=()):
    I = interp(p)
    W = World(p, colored, I, order, extra)
    ptr = W.put(q)
    f = entry(p)
    rs = I.run(f, None, [ptr, ('L', (CTX, ()))], W.st)
    ctx.note_interp(I, len(rs))
    return I, W, ptr, f, rs


def one(ctx, p, colored, q, order, extra=()):
    cn = {None: 'plain', False: 'uncoloured', True: 'coloured'}[colored]
    nm = '%s%s:%r' % (cn, '' if not order else "'", q) + (':sum@%s' % list(extra.values())[0] if extra else '')
    where = 'src/PetriEngine/PQL/Analyze.cpp'

    def go():
        I, W, ptr, f, rs = run_query(ctx, p, colored, q, order, extra)
        w2 = handler_site(p, q)
        for s in I.thrown + I.aborted:
            ctx.bad(nm, 'analysis of a well-formed query throws or fails an assertion', w2)
            return
        if not rs:
            ctx.und(nm, 'no path', w2)
            return
        want = W.spec(q)
        for _, s in rs:
            try:
                got = Decode(s).ptr(ptr)
                if has_dead(want) and not s.ghost.get('deadlock'):
                    ctx.bad(nm, 'a deadlock proposition is not reported to the context', w2)
                    return
                compare(ctx, nm, W, s, got, want, w2)
            except Bad as ex:
                ctx.bad(nm, str(ex), w2)
            except Unk as ex:
                ctx.und(nm, 'result not understood: %s' % ex, w2)
    ctx.attempt(nm, go, where)


def has_dead(f):
    if isinstance(f, (tuple, list)):
        return (len(f) > 0 and f[0] == 'dead') or any(has_dead(x) for x in f)
    return False


def handler_site(p, q):
    try:
        return site(p.fns[accept_fn(p, AV, NS + q.cls)])
    except Exception:
        return 'src/PetriEngine/PQL/Analyze.cpp'


def bad_name(ctx, p, colored, q):
    nm = '%s:unknown:%r' % ('coloured' if colored else 'plain', q)

    def go():
        I, W, ptr, f, rs = run_query(ctx, p, colored, q)
        if rs:
            ctx.bad(nm, 'a name the net does not have is accepted', handler_site(p, q))
        else:
            ctx.check(nm, False if I.aborted else True if I.thrown else None, 'a name the net does not have trips an assertion instead of raising an error' if I.aborted else 'no path', handler_site(p, q))
    ctx.attempt(nm, go)


def traces(ctx, p):
    """trace quantifiers: fresh names get distinct consecutive numbers, references the number of their quantifier; misuse is rejected"""
    le = lambda off: Q('PathSelectCondition', [Q('LessThanOrEqualCondition', [Q('UnfoldedIdentifierExpr', name='P_0'), Q('LiteralExpr', v=1)])], trace=off)
    pe = lambda t: Q('PathSelectExpr', [Q('UnfoldedIdentifierExpr', name='P_1')], trace=t)
    E = lambda t, k: Q('ExistPath', [k], trace=t)
    A = lambda t, k: Q('AllPaths', [k], trace=t)
    cases = [(E('a', A('b', Q('AndCondition', [le('a'), le('b')]))), True), (A('x', A('y', E('z', Q('OrCondition', [le('z'), le('x'), le('y')])))), True),
             (E('a', A('b', Q('EqualCondition', [pe('a'), pe('b')]))), True),
             (E('a', E('a', le('a'))), False), (A('a', E('a', le('a'))), False), (E('a', le('b')), False), (E('a', Q('EqualCondition', [pe('c'), pe('a')])), False)]
    for q, good in cases:
        nm = 'traces:%r' % q

        def go():
            I, W, ptr, f, rs = run_query(ctx, p, None, q)
            wh = 'src/PetriEngine/PQL/Contexts.cpp AnalysisContext::resolve_trace_name'
            if not good:
                if rs:
                    ctx.bad(nm, 'a %s trace name is accepted' % ('repeated' if 'Exist' in repr(q.kids[0]) or 'AllP' in repr(q.kids[0]) else 'undeclared'), wh)
                else:
                    ctx.check(nm, True if I.thrown else None, 'no path', wh)
                return
            if I.thrown or I.aborted:
                ctx.bad(nm, 'a well-formed trace-quantified query is rejected', wh)
                return
            if not rs:
                ctx.und(nm, 'no path', wh)
            for _, s in rs:
                num = {}
                refs = []

                def walk(v, depth):
                    o = load(s, (v[1], v[2]))
                    c = o.cls.split('::')[-1]
                    g = lambda f: get_step(o, ('f', f))
                    if c in ('AllPaths', 'ExistPath'):
                        num[cval(g('_id'))] = len(num)
                        walk(g('_child'), depth + 1)
                    elif c in ('PathSelectCondition', 'PathSelectExpr'):
                        refs.append((cval(g('_name')), g('_offset')))
                        walk(g('_child'), depth + 1)
                    elif c in ('AndCondition', 'OrCondition'):
                        for x in seqlib.items(g('_conds')):
                            walk(x, depth + 1)
                    elif c in CMPN:
                        walk(g('_expr1'), depth + 1)
                        walk(g('_expr2'), depth + 1)
                    elif c == 'UnfoldedIdentifierExpr':
                        w = PLACES.index(cval(load(s, deref(g('_name')))))
                        ctx.check(nm + ':inner', g('_offsetInMarking') == C(w), 'a place under a trace reference is resolved to %s' % show(g('_offsetInMarking')), wh)
                walk(ptr, 0)
                ctx.check(nm, all(o == C(num[t]) for t, o in refs), 'trace references are numbered %s, the quantifiers %s' % ([(t, show(o)) for t, o in refs], num), wh)
        ctx.attempt(nm, go)


def run(ctx):
    ctx.rule('after analyze(), every query node evaluates (through resolved offsets and compiled conditions) to the meaning of the named query on the net')
    ctx.rule('unknown place, transition and trace names raise an error; trace references carry the number of their quantifier')
    p = ctx.program(TUS)
    jobs = []
    for colored in (None, False, True):
        for q in queries(bool(colored)):
            for order in ((0,) if colored is False else (0, 1)):
                jobs.append(('q', colored, q, order, ()))
        if colored is not False:
            for q in unknowns(bool(colored)):
                jobs.append(('u', colored, q))
    P = lambda n: Q('IdentifierExpr', name=n)
    for pos in (0, 1, 2):
        for q in (Q('LessThanOrEqualCondition', [P('P'), Q('LiteralExpr', v=2)]), Q('UpperBoundsCondition', places=['P']), Q('KSafeCondition', k=2)):
            for order in (0, 1):
                jobs.append(('q', True, q, order, {'P': pos}))
    jobs.append(('t',))

    def go(j):
        if j[0] == 'q':
            one(ctx, p, *j[1:])
        elif j[0] == 'u':
            bad_name(ctx, p, *j[1:])
        else:
            traces(ctx, p)
    ctx.parallel(jobs, go)
