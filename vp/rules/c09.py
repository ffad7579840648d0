"""C09: query simplification preserves the meaning of the query."""
import itertools
from ..pql import *
from .. import temporal as TL
from .. import seqlib
from ..smallmodel import term, holds, Unk
from . import c04, c09lp

LEVEL = 'other'
MIN_OBLIGATIONS = 200
EXPLANATION = ('Abstract interpretation of every simplification method. Sub-formulas are free terms returned together with two opaque linear programs '
               '(one implied by the sub-formula, one implied by its negation); "this program is unsatisfiable" is a free decision that makes the '
               'corresponding predicate false everywhere. Every path yields a result whose formula must equal the input operator over all small Kripke '
               'structures and whose two linear programs must be implied by the formula and by its negation. Comparisons are interpreted down to the '
               'coefficients and decided over a grid of coefficients, constants and firing counts; the enumeration of the combined linear programs and '
               'the calls to the LP solver are interpreted against the equations they stand for.')
TUS = ['src/PetriEngine/PQL/Simplifier.cpp', 'src/PetriEngine/PQL/Expressions.cpp', 'src/PetriEngine/PQL/PQL.cpp',
       'src/PetriEngine/Simplification/LinearProgram.cpp', 'src/PetriEngine/Simplification/LinearPrograms.cpp',
       'src/PetriEngine/Simplification/Vector.cpp', 'src/PetriEngine/PQL/Contexts.cpp', 'src/PetriEngine/PetriNet.cpp']
SV = NS + 'Simplifier'
SI = 'PetriEngine::Simplification::'
COLL = (SI + 'UnionCollection', SI + 'MergeCollection', SI + 'SingleProgram')
THIS, EL, CTX = T('this'), T('el'), ('g', 'ctx')
CONSTS = c04.CONSTS
U32 = (1 << 32) - 1


def subterm_of(x, r):
    return x == r or (isinstance(x, tuple) and any(subterm_of(y, r) for y in x if isinstance(y, tuple)))


class Sem(c04.Sem):
    def tr(self, x):
        if x[0] == 't' and x[1] == 'f':
            f = self.tr(x[2])
            return ('not', f) if x[3] else f
        if x[0] == 'p' and x[1][0] == 'd' and not x[2]:
            return self.tr(x[1][1])
        if x[0] == 't' and str(x[1]) == 'new:' + NS + 'CompareConjunction' and len(x) == 4 and x[3] in (TRUE, FALSE):
            a = x[2]
            if a == T('*', EL) or a == EL:
                return ('not', ('atom', EL)) if x[3] == TRUE else ('atom', EL)
        return super().tr(x)

    def lp(self, x):
        """state predicate of a collection of linear programs"""
        if x == NULL:
            raise TL.Unknown('missing linear program')
        if x[0] == 't':
            op = str(x[1])
            if op in ('L', 'N'):
                c, ng = x[2], x[3]
                f = self.tr(T('f', c, ng))
                a = ('atom', x)
                if x not in self.done:
                    self.done[x] = a
                    self.cons.append((('or', (('not', f) if op == 'L' else f, a)), ('true',), False))
                return a
            if op == 'new:' + SI + 'SingleProgram' and len(x) == 2:
                return ('true',)
            if op == 'new:' + SI + 'MergeCollection' and len(x) == 4:
                return ('and', (self.lp(x[2]), self.lp(x[3])))
            if op == 'new:' + SI + 'UnionCollection':
                xs = x[2:]
                if len(xs) == 1 and xs[0][0] == 'seq':
                    xs = seqlib.items(xs[0])
                return ('or', tuple(self.lp(y) for y in xs))
        raise TL.Unknown('linear program ' + show(x)[:60])


def base(p, cls):
    I = Interp(p)
    I.unroll = 8
    seqlib.install(I, rec=8)
    I.budget = 2000000
    I.ref_fields = tuple(I.ref_fields) + ('_context',)
    I.herbrand = lambda c: (c.startswith(NS) and (c.endswith('Condition') or c.endswith('Expr') or c in (NS + 'CompareConjunction', NS + 'ExistPath', NS + 'AllPaths'))) or c in COLL
    I.dynclass = lambda v: cls if v in (EL, T('*', EL)) else (SV if v in (THIS, T('*', THIS)) else None)

    def timeout(I, e, st, loc, ptr):
        if st.ghost.get('late'):
            return [(TRUE, st)]
        s = st.copy()
        s.ghost['late'] = True
        return [(FALSE, st), (TRUE, s)]
    I.hooks[NS + 'SimplificationContext::timeout'] = timeout

    def sat(I, e, st, loc, ptr):
        v = ptr if ptr is not None else load(st, loc)
        return [(C(r), s) for r, s in I.decide_atom(st, T('sat', v))]
    I.name_hooks['satisfiable'] = sat

    def seqcond(kind):
        def h(I, e, st, loc, ptr):
            out = []
            for vs, s in I.evals(e['args'], st):
                if len(vs) == 1:
                    q = vs[0]
                    if q[0] == 'p':
                        q = load(s, (q[1], q[2]))
                    if q[0] != 'seq':
                        raise Unsupported('operand list of make' + kind)
                    out.append((T(kind, *seqlib.items(q)), s))
                else:
                    out.append((T(kind, *vs), s))
            return out
        return h
    I.hooks[NS + 'makeOr'] = seqcond('Or')
    I.hooks[NS + 'makeAnd'] = seqcond('And')

    def triv(nm):
        def h(I, e, st, loc, ptr):
            v = ptr if ptr is not None else load(st, loc)
            g = c04.gname(v)
            if g in CONSTS:
                return [(C(CONSTS[g] == (('true',) if nm == 'trivT' else ('false',))), st)]
            if v[0] == 't' and v[1] == 'bool' and v[2] in (TRUE, FALSE):
                return [(C((v[2] == TRUE) == (nm == 'trivT')), st)]
            return [(C(r), s) for r, s in I.decide_atom(st, T(nm, v))]
        return h
    I.name_hooks['isTriviallyTrue'] = triv('trivT')
    I.name_hooks['isTriviallyFalse'] = triv('trivF')
    I.hooks[NS + 'BooleanCondition::getShared'] = lambda I, e, st, loc, ptr: [(T('bool', C(r)), s2) for (a,), s in I.evals(e['args'], st) for r, s2 in I.truth(s, a)]

    def vis(I, e, st, loc, ptr):
        out = []
        for vl, c, s in visit_child(I, e, st):
            s = s.copy()
            ng = load(s, (CTX, (('f', '_negated'),)))
            if ng not in (TRUE, FALSE):
                raise Unsupported('negation flag ' + show(ng)[:40])
            ng = ng == TRUE
            for f, k in (('formula', 'f'), ('lps', 'L'), ('neglps', 'N')):
                save(s, (vl[0], vl[1] + (('f', '_return_value'), ('f', f))), I.note(T(k, c, ng), 'std::shared_ptr<X>'))
            out.append((NULL, s))
        return out
    I.hooks[VISIT] = vis
    return I


def start(neg):
    st = State()
    save(st, (('d', THIS), (('f', '_context'),)), ('rf', (CTX, ())))
    st.store[CTX] = Obj(NS + 'SimplificationContext', T('ctx'), {('f', '_negated'): C(neg)})
    o = Obj(SI + 'Retval', None, {('f', 'formula'): NULL, ('f', 'lps'): T('new:' + SI + 'SingleProgram'), ('f', 'neglps'): T('new:' + SI + 'SingleProgram')})
    save(st, (('d', THIS), (('f', '_return_value'),)), o)
    return st


def result(s):
    r = load(s, (('d', THIS), (('f', '_return_value'),)))
    return tuple(get_step(r, ('f', f)) for f in ('formula', 'lps', 'neglps'))


OPS = ['NotCondition', 'AndCondition', 'OrCondition', 'BooleanCondition', 'DeadlockCondition', 'PathSelectCondition', 'ControlCondition',
       'EFCondition', 'AFCondition', 'EGCondition', 'AGCondition', 'EXCondition', 'AXCondition', 'EUCondition', 'AUCondition',
       'UntilCondition', 'FCondition', 'GCondition', 'XCondition']


def operator(ctx, p, cn, neg, nops):
    cls = NS + cn
    name = '%s%s%s' % ('!' if neg else '', cn, '' if nops is None else '/%d' % nops)
    key = accept_fn(p, SV, cls)
    f = p.fns.get(key) if key else None
    if f is None:
        ctx.und(name, 'no simplification method found')
        return
    where = site(f)

    def go():
        I = base(p, cls)
        st = start(neg)
        if nops is not None:
            save(st, (('d', EL), (('f', '_conds'),)), ('seq', tuple(('one', I.note(T('opd', EL, i), 'std::shared_ptr<Condition>')) for i in range(nops))))
        rs = I.run(f, THIS, [EL], st)
        ctx.note_interp(I, len(rs))
        if not rs:
            ctx.und(name, 'no terminating path', where)
        for n, (v, s) in enumerate(rs):
            judge(ctx, p, s, cls, '%s#%d' % (name, n), neg, where)
    ctx.attempt(name, go, where)


def judge(ctx, p, s, cls, name, neg, where):
    fo, lps, neglps = result(s)
    S = Sem(p, s, EL, cls)
    try:
        if fo == NULL:
            ctx.bad(name, 'a path returns no formula', where)
            return
        rf, ef = S.tr(fo), S.tr(EL)
        L, N = S.lp(lps), S.lp(neglps)
        for k, v in s.facts.items():
            if k[0] != 'b' or k[1][0] != 't':
                continue
            if k[1][1] == 'sat' and v is False:
                S.cons.append((S.lp(k[1][2]), ('false',), False))
            elif k[1][1] in ('trivT', 'trivF') and v is True:
                S.cons.append((S.tr(k[1][2]), ('true',) if k[1][1] == 'trivT' else ('false',), False))
            elif cls.endswith('::BooleanCondition') and k[1] == c04.accessor_field(p, cls, 'value', EL):
                S.cons.append((('atom', EL), ('true',) if v else ('false',), False))
    except TL.Unknown as ex:
        ctx.und(name + ':result', 'result not understood: %s' % ex, where)
        return
    spec = ('not', ef) if neg else ef
    for what, a, b in (('formula', rf, spec), ('lps', ('or', (('not', rf), L)), ('true',)), ('neglps', ('or', (rf, N)), ('true',))):
        try:
            c = TL.counterexample(a, b, S.defs, S.cons)
        except TL.Unknown as ex:
            ctx.und(name + ':' + what, str(ex), where)
            continue
        if c is False:
            return
        d = {'formula': 'simplified to %s, which differs from the input', 'lps': 'the linear program of %s is not implied by it',
             'neglps': 'the negated linear program of %s is not implied by its negation'}[what] % TL.pretty(rf, c04.Names())
        ctx.check(name + ':' + what, c is None, '%s (%s)' % (d, c), where)
    ng = load(s, (CTX, (('f', '_negated'),)))
    ctx.check(name + ':flag', ng == C(neg), 'the negation flag is left at %s' % show(ng), where)


# ---------------------------------------------------------------- comparisons

def member(vs, c, can=True):
    return Obj(SI + 'Member', None, {('f', '_variables'): ('seq', tuple(('one', v) for v in vs)), ('f', '_constant'): c, ('f', '_canAnalyze'): C(can)})


def row_of(m):
    if not isinstance(m, Obj):
        raise Unk('member ' + show(m)[:40])
    v = get_step(m, ('f', '_variables'))
    if v[0] != 'seq' or not all(x[0] == 'one' for x in v[1]):
        raise Unk('variables ' + show(v)[:60])
    return [x[1] for x in v[1]], get_step(m, ('f', '_constant')), get_step(m, ('f', '_canAnalyze'))


REL = {'OP_EQ': lambda a, b: a == b, 'OP_LE': lambda a, b: a <= b, 'OP_GE': lambda a, b: a >= b, 'OP_LT': lambda a, b: a < b,
       'OP_GT': lambda a, b: a > b, 'OP_NE': lambda a, b: a != b}
CMP = {'LessThanCondition': lambda a, b: a < b, 'LessThanOrEqualCondition': lambda a, b: a <= b, 'EqualCondition': lambda a, b: a == b,
       'NotEqualCondition': lambda a, b: a != b}


class Num:
    """value of produced formulas and linear programs for one choice of the input symbols and firing counts"""

    def __init__(self, env, x, expr):
        self.env, self.x, self.expr = env, x, expr

    def f(self, v):
        g = c04.gname(v)
        if g in CONSTS:
            return CONSTS[g] == ('true',)
        if v[0] == 'p' and v[1][0] == 'd' and not v[2]:
            v = v[1][1]
        if v[0] == 't':
            op = str(v[1])
            if op == 'bool' or op == 'new:' + NS + 'BooleanCondition':
                return bool(term(v[2], self.env))
            if op in ('And', 'Or'):
                r = [self.f(y) for y in v[2:]]
                return all(r) if op == 'And' else any(r)
            if op == 'new:' + NS + 'NotCondition':
                return not self.f(v[2])
            if op.startswith('new:' + NS) and op[len('new:' + NS):] in CMP and len(v) == 4:
                return CMP[op[len('new:' + NS):]](self.e(v[2]), self.e(v[3]))
            if op == 'new:' + NS + 'CompareConjunction' and len(v) == 4:
                n = term(v[3], self.env)
                if isinstance(v[2], Obj):        # the copying constructor flips the negation of its argument
                    return (self.conj(seqlib.items(get_step(v[2], ('f', '_constraints')))) != bool(term(get_step(v[2], ('f', '_negated')), self.env))) != bool(n)
                if v[2][0] != 'seq':
                    raise Unk('conjunction of ' + show(v[2])[:40])
                return self.conj(seqlib.items(v[2])) != bool(n)
        raise Unk('formula ' + show(v)[:60])

    def conj(self, cs):
        r = True
        for c in cs:
            m = self.place(term(get_step(c, ('f', '_place')), self.env))
            r = r and term(get_step(c, ('f', '_lower')), self.env) <= m <= term(get_step(c, ('f', '_upper')), self.env)
        return r

    def place(self, p):
        raise Unk('place')

    def e(self, v):
        if v[0] == 't' and str(v[1]) == 'new:' + NS + 'LiteralExpr':
            return term(v[2], self.env)
        if v[0] == 't' and str(v[1]) == 'new:' + NS + 'UnfoldedIdentifierExpr':
            return self.place(term(v[3], self.env))
        return self.expr(v, self)

    def lin(self, vs):
        if len(vs) > len(self.x):
            raise Unk('row too long')
        return sum(term(a, self.env) * n for a, n in zip(vs, self.x))

    def lp(self, v):
        if v == NULL:
            raise Unk('missing linear program')
        if v[0] == 't':
            op = str(v[1])
            if op == 'new:' + SI + 'SingleProgram':
                if len(v) == 2:
                    return True
                vs, _, _ = row_of(v[3])
                if v[5][0] != 'e':
                    raise Unk('operator ' + show(v[5])[:40])
                return REL[v[5][2]](self.lin(vs), term(v[4], self.env))
            if op == 'new:' + SI + 'MergeCollection':
                return self.lp(v[2]) and self.lp(v[3])
            if op == 'new:' + SI + 'UnionCollection':
                xs = v[2:]
                if len(xs) == 1 and xs[0][0] == 'seq':
                    xs = seqlib.items(xs[0])
                return any([self.lp(y) for y in xs])
        raise Unk('linear program ' + show(v)[:60])

    def sat_ok(self, s):
        """no program answered unsatisfiable holds here"""
        for k, v in s.facts.items():
            if k[0] == 'b' and k[1][0] == 't' and k[1][1] == 'sat' and v is False and self.lp(k[1][2]):
                return False
        return True


def free_facts(s):
    """path facts apart from the decisions the rule accounts for itself"""
    return {k: v for k, v in s.facts.items() if not (k[0] == 'b' and k[1][0] == 't' and k[1][1] in ('sat', 'trivT', 'trivF'))}


def grid_judge(ctx, name, s, envs, mk, spec, where, neg):
    """compare one path with the meaning of the input on every environment consistent with it"""
    fo, lps, neglps = result(s)
    facts = free_facts(s)
    bad = {}
    used = 0
    try:
        for env, x in envs:
            h = holds(facts, env)
            if h is False:
                continue
            if h is None:
                ctx.und(name, 'path condition not understood: ' + facts_str(s)[:100], where)
                return
            M = mk(env, x)
            if not M.sat_ok(s):
                continue
            used += 1
            want = spec(M) != neg
            got = M.f(fo)
            if got != want and 'formula' not in bad:
                bad['formula'] = (env, x, got)
            if got and not M.lp(lps) and 'lps' not in bad:
                bad['lps'] = (env, x, got)
            if not got and not M.lp(neglps) and 'neglps' not in bad:
                bad['neglps'] = (env, x, got)
    except Unk as ex:
        ctx.und(name, 'result not understood: %s' % ex, where)
        return
    if not used:
        return
    for what in ('formula', 'lps', 'neglps'):
        d = ''
        if what in bad:
            env, x, got = bad[what]
            d = '%s: %s is %s; with %s, firing counts %s' % ({'formula': 'the result differs from the input', 'lps': 'the linear program excludes a marking where the formula holds',
                                                               'neglps': 'the negated linear program excludes a marking where the formula fails'}[what],
                                                              show(fo).replace(NS, '')[:80], got, {show(k): v for k, v in env.items()}, list(x))
        ctx.check(name + ':' + what, what not in bad, d, where)
    ng = load(s, (CTX, (('f', '_negated'),)))
    ctx.check(name + ':flag', ng == C(neg), 'the negation flag is left at %s' % show(ng), where)


BIG = 3 * 10**9


def comparison(ctx, p, cn, neg, n1, n2, can):
    cls = NS + cn
    name = '%s%s/%d,%d%s' % ('!' if neg else '', cn, n1, n2, '' if can else '/opaque')
    key = accept_fn(p, SV, cls)
    f = p.fns.get(key) if key else None
    if f is None:
        ctx.und(name, 'no simplification method found')
        return
    where = site(f)
    a = [[T('a1%d' % i) for i in range(n1)], [T('a2%d' % i) for i in range(n2)]]
    c = [T('c1'), T('c2')]

    def go():
        I = base(p, cls)
        I.cast_hook = strict_cast
        st = start(neg)
        ch = [accessor(p, cls, 'operator[]', C(i), el=EL) for i in (0, 1)]
        for v in a[0] + a[1] + c:
            I.note(v, 'long')

        def constraint(I, e, st, loc, ptr):
            out = []
            for (x, _), s in I.evals(e['args'][:2], st):
                if x[0] == 'p' and x[1][0] == 'd' and not x[2]:
                    x = x[1][1]
                if x not in ch:
                    raise Unsupported('constraint of ' + show(x)[:60])
                i = ch.index(x)
                out.append((member(a[i], c[i], can or i == 1), s))
            return out
        I.hooks[NS + 'constraint'] = constraint
        rs = I.run(f, THIS, [EL], st)
        ctx.note_interp(I, len(rs))
        envs = []
        n = max(n1, n2)
        cv = (-2, 0, 1, BIG, -BIG) if n1 + n2 < 3 else (0, 1)
        for av in itertools.product((-1, 0, 2), repeat=n1 + n2):
            for c1, c2 in itertools.product(cv, cv):
                for x in itertools.product((0, 1, 3), repeat=n):
                    env = dict(zip(a[0] + a[1], av))
                    env[c[0]], env[c[1]] = c1, c2
                    envs.append((env, x))

        def val(v, M):
            if v[0] == 'p' and v[1][0] == 'd' and not v[2]:
                v = v[1][1]
            if v in ch:
                i = ch.index(v)
                return M.lin(a[i]) + M.env[c[i]]
            raise Unk('operand ' + show(v)[:60])
        if not rs:
            ctx.und(name, 'no terminating path', where)
        for n, (v, s) in enumerate(rs):
            grid_judge(ctx, '%s#%d' % (name, n), s, envs, lambda env, x: Num(env, x, val), lambda M: CMP[cn](val(ch[0], M), val(ch[1], M)), where, neg)
    ctx.attempt(name, go, where)


# ---------------------------------------------------------------- conjunctions of bounds, linear forms of expressions

def net_hooks(I, nt):
    """a net with nt transitions; arc weights and initial marking are symbols"""
    def name(k, a, b):
        if not (isnum(a) and isnum(b)):
            raise Unsupported('arc of a symbolic node')
        return I.note(T(k, cval(a), cval(b)), 'unsigned int')
    I.name_hooks['numberOfTransitions'] = lambda I, e, st, loc, ptr: [(C(nt), st)]
    I.name_hooks['numberOfPlaces'] = lambda I, e, st, loc, ptr: [(C(2), st)]
    I.name_hooks['outArc'] = lambda I, e, st, loc, ptr: [(name('out', vs[1], vs[0]), s) for vs, s in I.evals(e['args'], st)]
    I.name_hooks['inArc'] = lambda I, e, st, loc, ptr: [(name('in', vs[0], vs[1]), s) for vs, s in I.evals(e['args'], st)]
    I.hooks[NS + 'SimplificationContext::marking'] = lambda I, e, st, loc, ptr: [(('p', ('g', 'marking'), ()), st)]


def put_marking(st):
    st.store[('g', 'marking')] = ('seq', tuple(('one', T('m0', i)) for i in (0, 1)))


class NetNum(Num):
    def place(self, p):
        env = self.env
        return env[T('m0', p)] + sum((env[T('out', p, t)] - env[T('in', p, t)]) * n for t, n in enumerate(self.x))


SHAPES = {'l': ('lo', None), 'u': (None, 'up'), 'b': ('lo', 'up'), 'e': ('lo', 'lo'), 'n': (None, None), 'z': (None, 0)}


def conj(ctx, p, neg, eneg, shape, nt):
    cls = NS + 'CompareConjunction'
    name = '%sCompareConjunction/%s%s/%d' % ('!' if neg else '', '!' if eneg else '', shape, nt)
    key = accept_fn(p, SV, cls)
    f = p.fns.get(key) if key else None
    if f is None:
        ctx.und(name, 'no simplification method found')
        return
    where = site(f)

    def go():
        I = base(p, cls)
        I.cast_hook = strict_cast
        net_hooks(I, nt)
        st = start(neg)
        put_marking(st)
        cs = []
        for i, k in enumerate(shape):
            lo, up = SHAPES[k]
            L = I.note(T('lo', i), 'unsigned int') if lo else C(0)
            U = C(U32) if up is None else (C(up) if up == 0 else (I.note(T(up, i), 'unsigned int')))
            cs.append(Obj(NS + 'CompareConjunction::cons_t', None, {('f', '_place'): C(i), ('f', '_lower'): L, ('f', '_upper'): U, ('f', '_name'): T('name', i)}))
            for v in (L, U):
                if v[0] == 't':
                    st.facts[('i', v)] = (1 if v == L else 0, U32 - 1, frozenset())
        save(st, (('d', EL), (('f', '_constraints'),)), ('seq', tuple(('one', c) for c in cs)))
        save(st, (('d', EL), (('f', '_negated'),)), C(eneg))
        rs = I.run(f, THIS, [EL], st)
        ctx.note_interp(I, len(rs))
        if not rs:
            ctx.und(name, 'no terminating path', where)
        envs = conj_envs(shape, nt)

        for n, (v, s) in enumerate(rs):
            grid_judge(ctx, '%s#%d' % (name, n), s, envs, lambda env, x: NetNum(env, x, None), lambda M: M.conj(cs) != eneg, where, neg)
    ctx.attempt(name, go, where)


def conj_envs(shape, nt):
    import random
    r = random.Random(7)
    ARCS = ((0, 0), (1, 0), (0, 1), (2, 1), (1, 2))
    out = []
    for _ in range(1500 if len(shape) == 1 else 2500):
        env = {}
        for i, k in enumerate(shape):
            env[T('lo', i)] = r.choice((1, 2, 3, BIG)) if r.random() < .95 else 4
            env[T('up', i)] = r.choice((0, 1, 2, 3, BIG))
        for i in (0, 1):
            env[T('m0', i)] = r.choice((0, 1, 2, 3))
            for t in range(nt):
                a = r.choice(ARCS)
                env[T('out', i, t)], env[T('in', i, t)] = a
        x = tuple(r.choice((0, 1, 2, 3)) for _ in range(nt))
        M = NetNum(env, x, None)
        if all(M.place(i) >= 0 for i in range(len(shape))):
            out.append((env, x))
    return out


def cons_copy(ctx, p):
    """CompareConjunction(other, negated) == other xor negated"""
    def go():
        fs = [f for f in Interp(p).ctors(NS + 'CompareConjunction') if len(f['params']) == 2 and f['params'][0]['t'].rstrip(' &').endswith('CompareConjunction') and 'bool' in f['params'][1]['t']]
        if not fs:
            raise AnchorError('copying constructor of CompareConjunction')
        where = site(fs[0])
        for on in (False, True):
            for n in (False, True):
                I = Interp(p)
                seqlib.install(I)
                st = State()
                th, ot = ('g', 'new'), ('g', 'other')
                st.store[th] = Obj(NS + 'CompareConjunction', None, {})
                sq = ('seq', (('one', T('k0')),))
                st.store[ot] = Obj(NS + 'CompareConjunction', None, {('f', '_constraints'): sq, ('f', '_negated'): C(on)})
                for v, s in I.run(fs[0], ('p', th, ()), [('L', (ot, ())), C(n)], st):
                    o = load(s, (th, ()))
                    a, b = get_step(o, ('f', '_constraints')), get_step(o, ('f', '_negated'))
                    ctx.check('CompareConjunction:copy/%d%d' % (on, n), a == sq and b == C(on != n), 'copy of a conjunction (negated %s) with flag %s has constraints %s, negated %s' % (on, n, show(a)[:60], show(b)), where)
    ctx.attempt('CompareConjunction:copy', go)


def place_member(ctx, p):
    f = p.fn(NS + 'memberForPlace')
    where = site(f)

    def go():
        for nt in (0, 1, 2):
            for pl in (0, 1):
                I = base(p, None)
                I.cast_hook = strict_cast
                net_hooks(I, nt)
                st = start(False)
                put_marking(st)
                rs = I.run(f, None, [C(pl), ('L', (CTX, ()))], st)
                ctx.note_interp(I, len(rs))
                if not rs:
                    ctx.und('memberForPlace', 'no path', where)
                for v, s in rs:
                    vs, c, can = row_of(v)
                    want = [add(T('out', pl, t), T('in', pl, t), -1) for t in range(nt)]
                    ctx.check('memberForPlace/%d/%d' % (nt, pl), vs == want and c == T('m0', pl) and can == TRUE,
                              'the linear form of place %d is %s + %s' % (pl, [show(x) for x in vs], show(c)), where)
    ctx.attempt('memberForPlace', go, where)


CV = NS + 'ConstraintVisitor'


def expr_forms():
    """(class, fields, number of child expressions, value of children and places -> value)"""
    yield 'UnfoldedIdentifierExpr', {'_offsetInMarking': C(1)}, [], lambda ch, pl: pl(1)
    yield 'LiteralExpr', {'_value': T('k')}, [], lambda ch, pl: T('k')
    yield 'MinusExpr', {}, ['_expr'], lambda ch, pl: ('-', C(0), ch[0])
    for n in (1, 2, 3):
        yield 'SubtractExpr', {}, n, lambda ch, pl: ('-',) + tuple(ch)
    for cn, op, unit in (('PlusExpr', '+', 0), ('MultiplyExpr', '*', 1)):
        for k in (C(unit), T('k')):
            for places in ((), (0,), (0, 1)):
                for n in (0, 1, 2):
                    yield cn, {'_constant': k, 'places': places}, n, (lambda ch, pl, op=op, k=k, places=places: (op, k) + tuple(pl(i) for i in places) + tuple(ch))


def lin_expr(ctx, p):
    """the linear form of every expression has the expression's value"""
    rows = list(expr_forms())

    def val(v, M):
        if isinstance(v, tuple) and v and v[0] in ('+', '-', '*'):
            xs = [val(y, M) for y in v[1:]]
            r = xs[0]
            for y in xs[1:]:
                r = r + y if v[0] == '+' else (r - y if v[0] == '-' else r * y)
            return r
        if v[0] == 'ch':
            return M.lin([T('a', v[1], 0)]) + M.env[T('cc', v[1])]
        if v[0] == 'pl':
            return M.place(v[1])
        return term(v, M.env)

    for cn, fields, nch, spec in rows:
        cls = NS + cn
        name = 'linear:%s/%s/%s' % (cn, ','.join('%s=%s' % (k, show(v) if k != 'places' else len(v)) for k, v in fields.items()), nch if isinstance(nch, int) else len(nch))
        key = accept_fn(p, CV, cls)
        f = p.fns.get(key) if key else None
        if f is None:
            ctx.und(name, 'no method found')
            continue
        where = site(f)

        def go():
            I = base(p, cls)
            I.cast_hook = strict_cast
            net_hooks(I, 1)
            I.dynclass = lambda v: cls if v in (EL, T('*', EL)) else (CV if v in (THIS, T('*', THIS)) else None)
            st = State()
            save(st, (('d', THIS), (('f', '_context'),)), ('rf', (CTX, ())))
            st.store[CTX] = Obj(NS + 'SimplificationContext', T('ctx'), {})
            put_marking(st)
            save(st, (('d', THIS), (('f', '_return_value'),)), member([], C(0), False))
            for k, v in fields.items():
                if k == 'places':
                    save(st, (('d', EL), (('f', '_ids'),)), ('seq', tuple(('one', Obj('pair', None, {('f', 'first'): C(i), ('f', 'second'): T('nm', i)})) for i in v)))
                else:
                    save(st, (('d', EL), (('f', k),)), I.note(v, 'long'))
            n = nch if isinstance(nch, int) else len(nch)
            chs = [I.note(T('opd', i), 'std::shared_ptr<Expr>') for i in range(n)]
            if isinstance(nch, int):
                save(st, (('d', EL), (('f', '_exprs'),)), ('seq', tuple(('one', c) for c in chs)))
            else:
                for k, c in zip(nch, chs):
                    save(st, (('d', EL), (('f', k),)), c)
            seen = {}

            def vis(I, e, st, loc, ptr):
                out = []
                for vl, c, s in visit_child(I, e, st):
                    if c not in chs:
                        raise Unsupported('visit of ' + show(c)[:60])
                    i = chs.index(c)
                    s = s.copy()
                    m = member([I.note(T('a', i, 0), 'long')], I.note(T('cc', i), 'long'))
                    save(s, (vl[0], vl[1] + (('f', '_return_value'),)), m)
                    out.append((NULL, s))
                return out
            I.hooks[VISIT] = vis
            rs = I.run(f, THIS, [EL], st)
            ctx.note_interp(I, len(rs))
            if not rs:
                ctx.und(name, 'no path', where)
            sp = spec([('ch', i) for i in range(n)], lambda i: ('pl', i))
            syms = [T('k')] * any(v == T('k') for v in fields.values() if not isinstance(v, tuple) or v == T('k'))
            nmul = cn == 'MultiplyExpr'
            for kx, (v, s) in enumerate(rs):
                m = load(s, (('d', THIS), (('f', '_return_value'),)))
                nm = '%s#%d' % (name, kx)
                try:
                    vs, c, can = row_of(m)
                    if can == FALSE:
                        ctx.ok(nm + ':opaque', '', where)
                        continue
                    if can != TRUE:
                        ctx.und(nm, 'analysability ' + show(can)[:40], where)
                        continue
                    bad, used = None, 0
                    for env, x in lin_envs(n, fields.get('places', (0, 1))):
                        h = holds(s.facts, env)
                        if h is None:
                            raise Unk('path condition ' + facts_str(s)[:80])
                        if h is False:
                            continue
                        used += 1
                        M = NetNum(env, x, None)
                        a, b = M.lin(vs) + term(c, env), val(sp, M)
                        if a != b:
                            bad = 'linear form gives %d, the expression is %d with %s, firing count %s' % (a, b, {show(k): q for k, q in env.items()}, x)
                            break
                    if used:
                        ctx.check(nm, bad is None, bad or '', where)
                except Unk as ex:
                    ctx.und(nm, 'result not understood: %s' % ex, where)
        ctx.attempt(name, go, where)


_le = {}


def lin_envs(n, places):
    import random
    k = (n, tuple(places))
    if k not in _le:
        r = random.Random(11)
        out = []
        for _ in range(400):
            env = {T('k'): r.choice((-2, -1, 0, 1, 2, BIG, -BIG))}
            for i in range(n):
                env[T('a', i, 0)] = r.choice((-2, 0, 0, 1, 3))
                env[T('cc', i)] = r.choice((-2, 0, 1, 2, BIG))
            for i in (0, 1):
                env[T('m0', i)] = r.choice((0, 1, 2, BIG))
                env[T('out', i, 0)], env[T('in', i, 0)] = r.choice(((0, 0), (0, 0), (1, 0), (0, 1), (2, 3)))
            out.append((env, (r.choice((0, 1, 2)),)))
        _le[k] = out
    return _le[k]


# ---------------------------------------------------------------- upper bounds queries

def upper(ctx, p, n, neg=False):
    cls = NS + 'UnfoldedUpperBoundsCondition'
    name = 'UnfoldedUpperBoundsCondition/%d' % n
    key = accept_fn(p, SV, cls)
    f = p.fns.get(key) if key else None
    if f is None:
        ctx.und(name, 'no simplification method found')
        return
    where = site(f)

    def go():
        I = base(p, cls)
        st = start(False)
        pl = [Obj(cls + '::place_t', None, {('f', '_name'): T('name', i), ('f', '_place'): C(i), ('f', '_max'): C(float('inf')), ('f', '_maxed_out'): FALSE}) for i in range(n)]
        save(st, (('d', EL), (('f', '_places'),)), ('seq', tuple(('one', x) for x in pl)))
        save(st, (('d', EL), (('f', '_offset'),)), C(0))
        I.name_hooks['getLpTimeout'] = lambda I, e, st, loc, ptr: [(C(10), st)]
        import itertools as it_
        outs = []

        def bounds(I, e, st, loc, ptr):
            out = []
            for cs in it_.product((False, True), repeat=n + 1):
                if cs[n] and not all(cs[:n]) and n:
                    pass
                prs = ('seq', tuple(('one', Obj('pair', None, {('f', 'first'): I.note(T('b', i), 'double'), ('f', 'second'): C(c)})) for i, c in enumerate(cs)))
                for vs, s in I.evals(e['args'][2:], st):
                    want = tuple(('one', C(i)) for i in range(n))
                    if vs[0][0] != 'seq' or vs[0][1] != want:
                        raise Unsupported('bounds of other places: ' + show(vs[0])[:60])
                    s = s.copy()
                    s.ghost['cs'] = cs
                    out.append((prs, s))
            return out
        I.hooks[SI + 'LinearProgram::bounds'] = bounds
        rs = I.run(f, THIS, [EL], st)
        ctx.note_interp(I, len(rs))
        if not rs:
            ctx.und(name, 'no path', where)
        for k, (v, s) in enumerate(rs):
            nm = '%s#%d' % (name, k)
            fo = result(s)[0]
            if fo[0] != 't' or str(fo[1]) != 'new:' + cls or len(fo) != 5 or fo[2][0] != 'seq':
                ctx.und(nm, 'result ' + show(fo)[:60], where)
                continue
            cs = s.ghost['cs']
            bad, used = None, 0
            try:
                nxt = [term(get_step(q, ('f', '_place')), {}) for q in seqlib.items(fo[2])]
                for ms in itertools.product((0, 1, 2), repeat=n):
                    for slack in itertools.product((0, 1, float('inf')), repeat=n + 1):
                        env = {}
                        for i in range(n + 1):
                            real = ms[i] if i < n else sum(ms)
                            env[T('b', i)] = real if cs[i] else real + slack[i]
                        if env[T('b', n)] < sum(env[T('b', i)] for i in range(n) if cs[i]):
                            continue
                        h = holds(s.facts, env)
                        if h is None:
                            raise Unk('path ' + facts_str(s)[:80])
                        if not h:
                            continue
                        used += 1
                        off, mx = term(fo[4], env), term(fo[3], env)
                        got = off + sum(ms[i] for i in nxt)
                        if got != sum(ms) and not bad:
                            bad = 'a marking %s of the places is valued %s (bounds %s)' % (ms, got, {show(a): b for a, b in env.items()})
                        if sum(ms[i] for i in nxt) > mx and not bad:
                            bad = 'the search for the bound stops at %s, but the places hold %s (bounds %s)' % (mx, ms, {show(a): b for a, b in env.items()})
                        for q in seqlib.items(fo[2]):
                            i = term(get_step(q, ('f', '_place')), env)
                            if ms[i] > term(get_step(q, ('f', '_max')), env) and not bad:
                                bad = 'place %d is limited to %s, but holds %s' % (i, show(get_step(q, ('f', '_max'))), ms)
                if used:
                    ctx.check(nm, bad is None, bad or '', where)
            except Unk as ex:
                ctx.und(nm, 'result not understood: %s' % ex, where)
    ctx.attempt(name, go, where)


def run(ctx):
    ctx.rule('simplified formula == input (xor the negation flag) in every structure; formula implies its linear program, its negation the negated one')
    p = ctx.program(TUS)
    jobs = []
    for cn in OPS:
        for neg in (False, True):
            if cn == 'ControlCondition' and neg:
                continue
            for n in (0, 1, 2, 3) if cn in ('AndCondition', 'OrCondition') else (None,):
                jobs.append(('op', cn, neg, n))

    for cn in CMP:
        for neg in (False, True):
            for n1, n2 in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2)):
                jobs.append(('cmp', cn, neg, n1, n2, True))
            jobs.append(('cmp', cn, neg, 1, 1, False))

    for neg in (False, True):
        for eneg in (False, True):
            for sh in ('l', 'u', 'b', 'e', 'n', 'z', 'lu', 'bl', 'ub', 'nb', 'bb'):
                for nt in (0, 1):
                    jobs.append(('conj', neg, eneg, sh, nt))
    for t in c09lp.trees():
        for mode in ('', '/reused'):
            jobs.append(('tree', t, mode))
    jobs += [('copy',), ('place',), ('lin',), ('union',), ('single',), ('vector',), ('impossible',), ('base',), ('bounds',), ('upper', 0), ('upper', 1), ('upper', 2)]

    def go(j):
        {'op': operator, 'cmp': comparison, 'conj': conj, 'copy': cons_copy, 'place': place_member, 'lin': lin_expr, 'tree': c09lp.one_tree, 'union': c09lp.make_union,
         'single': c09lp.single, 'vector': c09lp.vector, 'impossible': c09lp.impossible, 'base': c09lp.marking_equation, 'bounds': c09lp.upper_bounds, 'upper': upper}[j[0]](ctx, p, *j[1:])
    ctx.parallel(jobs, go)
