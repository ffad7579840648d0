"""C09, second half: the collections of linear programs and the calls to the LP solver."""
import itertools
from ..pql import *
from .. import seqlib
from ..smallmodel import term, holds, Unk

SI = 'PetriEngine::Simplification::'
CTX = ('g', 'ctx')
INF = float('inf')
EV = {'l': 0, 'fn': None}


def eqn(row, lower, upper):
    return Obj(SI + 'equation_t', None, {('f', 'row'): row, ('f', 'lower'): lower, ('f', 'upper'): upper})


def program(p, eqs, res='UKNOWN'):
    en = p.enums[SI + 'LinearProgram::result_t']
    return Obj(SI + 'LinearProgram', None, {('f', '_result'): ('e', SI + 'LinearProgram::result_t', res, en[res]), ('f', '_equations'): ('seq', tuple(('one', e) for e in eqs))})


def eqs_of(pr):
    v = get_step(pr, ('f', '_equations'))
    if v[0] != 'seq':
        raise Unk('equations ' + show(v)[:60])
    return seqlib.items(v)


def interp(p):
    I = Interp(p)
    seqlib.install(I, rec=12)
    I.unroll = 40
    I.budget = 2000000
    I.cast_hook = strict_cast

    def timeout(I, e, st, loc, ptr):
        if st.ghost.get('late'):
            return [(TRUE, st)]
        s = st.copy()
        s.ghost['late'] = True
        return [(FALSE, st), (TRUE, s)]
    I.hooks[NS + 'SimplificationContext::timeout'] = timeout
    return I


def ctor(I, st, cls, pick, args, tag):
    fs = [f for f in I.ctors(cls) if pick(f)]
    if not fs:
        raise AnchorError('constructor of ' + cls)
    s = st.copy()
    root = ('h', 'obj', tag)
    s.store[root] = Obj(cls, None, {})
    rs = I.call_fn(fs[0], s, ('p', root, ()), args, EV)
    out = [s2 for _, s2 in rs]
    if len(out) != 1:
        raise Unsupported('constructor of %s forks' % cls)
    return ('p', root, ()), out[0]


# a tree: ('s', leaf number or None) | ('u', [trees]) | ('u2', a, b) | ('m', a, b)
def s(i):
    return ('s', i)


def trees():
    a, b, c, d, e, f = [s(i) for i in range(6)]
    E = s(None)
    U = lambda *x: ('u', x)
    M = lambda x, y: ('m', x, y)
    U2 = lambda x, y: ('u2', x, y)
    yield from (a, E, U(a), U(a, b), U2(a, b), U2(a, E), U(a, E), U(a, b, c), M(a, b), M(E, a), M(a, E), M(E, E), M(U(a, b), c), M(c, U(a, b)), M(U2(a, b), U2(c, d)),
                M(U(a, b), U(c, d)), M(M(a, b), c), M(a, M(b, c)), M(M(U(a, b), c), d), M(M(U(a, b), c), U(d, e)), M(U(d, e), M(U(a, b), c)), M(U(a, E), b), M(b, U(E, a)),
                M(U(a, E), U(b, c)), U(M(a, b), c), U(c, M(a, U(b, d))), M(U(M(a, b), c), d), M(d, U(M(a, b), c)), M(U(a, b, c), U(d, e)), M(U(a, U(b, c)), d),
                M(d, U(U(a, b), c)), M(U(M(U(a, b), c), d), U(e, f)), M(M(U(a, b), U(c, d)), U(e, f)), M(U(a, b), M(U(c, d), U(e, f))), M(M(U(a, b), c), M(U(d, e), f)),
                M(M(U(a, b), E), c), M(M(E, E), a), U(M(E, a), b), M(U(M(a, b), M(c, d)), U(e, f)))


def meaning(t, y):
    k = t[0]
    if k == 's':
        return True if t[1] is None else y[t[1]]
    if k == 'm':
        return meaning(t[1], y) and meaning(t[2], y)
    if k == 'u':
        return any(meaning(x, y) for x in t[1])
    return meaning(t[1], y) or meaning(t[2], y)


def pretty(t):
    k = t[0]
    if k == 's':
        return '-' if t[1] is None else 'abcdef'[t[1]]
    if k == 'm':
        return 'M(%s,%s)' % (pretty(t[1]), pretty(t[2]))
    return 'U%s(%s)' % ('2' if k == 'u2' else '', ','.join(pretty(x) for x in (t[1] if k == 'u' else t[1:])))


class Build:
    def __init__(self, p, I):
        self.p, self.I, self.n = p, I, 0

    def mk(self, t, st):
        I, p = self.I, self.p
        self.n += 1
        tag = self.n
        if t[0] == 's':
            root = ('h', 'obj', tag)
            st = st.copy()
            if t[1] is None:
                q, st = ctor(I, st, SI + 'SingleProgram', lambda f: not f['params'], [], tag)
                return q, st
            q, st = ctor(I, st, SI + 'SingleProgram', lambda f: not f['params'], [], tag)
            st = st.copy()
            save(st, (q[1], (('f', 'program'),)), program(p, [eqn(C(100 + t[1]), C(1), C(INF))]))
            save(st, (q[1], (('f', 'has_empty'),)), FALSE)
            return q, st
        if t[0] == 'u':
            xs = []
            for x in t[1]:
                q, st = self.mk(x, st)
                xs.append(q)
            return self.wrap('u', xs, st)
        qa, st = self.mk(t[1], st)
        qb, st = self.mk(t[2], st)
        return self.wrap(t[0], [qa, qb], st)

    def wrap(self, k, xs, st):
        I = self.I
        self.n += 1
        tag = self.n
        if k == 'u':
            st = st.copy()
            vl = ('h', 'vec', tag)
            st.store[vl] = ('seq', tuple(('one', x) for x in xs))
            return ctor(I, st, SI + 'UnionCollection', lambda f: len(f['params']) == 1 and 'vector' in f['params'][0]['t'], [('l', (vl, ()))], tag)
        st = st.copy()
        ls = []
        for i, x in enumerate(xs):
            st.store[('h', 'arg', tag, i)] = x
            ls.append(('l', (('h', 'arg', tag, i), ())))
        cls = SI + ('UnionCollection' if k == 'u2' else 'MergeCollection')
        return ctor(I, st, cls, lambda f: len(f['params']) == 2, ls, tag)


def impossible_hook(I, p):
    en = p.enums[SI + 'LinearProgram::result_t']

    def h(I, e, st, loc, ptr):
        l = loc if loc is not None else deref(ptr)
        pr = load(st, l)
        r0 = get_step(pr, ('f', '_result'))
        if r0[0] == 'e' and r0[2] == 'IMPOSSIBLE':
            return [(TRUE, st)]
        eqs = eqs_of(pr)
        if not eqs:
            return [(FALSE, st)]
        key = tuple(sorted(cval(get_step(q, ('f', 'row'))) for q in eqs))
        out = []
        for r, s2 in I.decide_atom(st, T('impossible', key)):
            s2 = s2.copy()
            nm = 'IMPOSSIBLE' if r else 'POSSIBLE'
            save(s2, (l[0], l[1] + (('f', '_result'),)), ('e', SI + 'LinearProgram::result_t', nm, en[nm]))
            out.append((C(r), s2))
        return out
    I.hooks[SI + 'LinearProgram::isImpossible'] = h


def ask(I, q, st):
    fs = [f for f in I.p.method(SI + 'AbstractProgramCollection', 'satisfiable')]
    if not fs:
        raise AnchorError('satisfiable')
    return I.unlv(I.call_fn(fs[0], st, q, [('l', (CTX, ())), ('v', C((1 << 32) - 1))], EV))


def judge(ctx, name, t, v, st, where):
    if v == TRUE:
        return True
    if v != FALSE:
        ctx.und(name, 'answer ' + show(v)[:40], where)
        return False
    unsat = [k[1][2] for k, x in st.facts.items() if k[0] == 'b' and k[1][0] == 't' and k[1][1] == 'impossible' and x is True]
    for y in itertools.product((False, True), repeat=6):
        if meaning(t, y) and not any(all(y[r - 100] for r in key) for key in unsat):
            ctx.bad(name, 'answered unsatisfiable although only the systems %s were found impossible: %s also has the solution %s'
                    % ([''.join('abcdef'[r - 100] for r in key) for key in unsat], pretty(t), ''.join(c for c, b in zip('abcdef', y) if b)), where)
            return False
    ctx.ok(name, '', where)
    return False


def one_tree(ctx, p, t, mode):
    name = 'combine:%s%s' % (pretty(t), mode)
    fs = p.method(SI + 'AbstractProgramCollection', 'satisfiable')
    where = site(fs[0]) if fs else ''

    def go():
        I = interp(p)
        impossible_hook(I, p)
        st = State()
        st.store[CTX] = Obj(NS + 'SimplificationContext', T('ctx'), {})
        B = Build(p, I)
        q, st = B.mk(t, st)
        rs = ask(I, q, st)
        ctx.note_interp(I, len(rs))
        n = 0
        for v, s1 in rs:
            n += 1
            if not judge(ctx, '%s#%d' % (name, n), t, v, s1, where) or not mode or s1.ghost.get('late'):
                continue
            # a program that was found satisfiable is combined further and asked again
            for k, other in (('m', ('s', 5)), ('m2', ('s', 5)), ('m', ('u', (('s', 5), ('s', 4)))), ('u', ('s', 5)), ('=', None)):
                s2 = s1
                if k == '=':
                    q2, t2 = q, t
                else:
                    qo, s2 = B.mk(other, s2)
                    if k == 'm':
                        q2, s2 = B.wrap('m', [q, qo], s2)
                        t2 = ('m', t, other)
                    elif k == 'm2':
                        q2, s2 = B.wrap('m', [qo, q], s2)
                        t2 = ('m', other, t)
                    else:
                        q2, s2 = B.wrap('u', [q, qo], s2)
                        t2 = ('u', (t, other))
                r2 = ask(I, q2, s2)
                ctx.note_interp(I, len(r2))
                for v2, s3 in r2:
                    n += 1
                    judge(ctx, '%s#%d:%s' % (name, n, pretty(t2)), t2, v2, s3, where)
    ctx.attempt(name, go, where)


def make_union(ctx, p):
    """the union of two systems has exactly the solutions of both"""
    fs = p.method(SI + 'LinearProgram', 'make_union')
    if not fs:
        ctx.und('make_union', 'not found')
        return
    where = site(fs[0])

    def go():
        rows = [(), (1,), (2,), (1, 2), (2, 3), (1, 3), (1, 2, 3)]
        for ra in rows:
            for rb in rows:
                if len(ra) + len(rb) > 5:
                    continue
                I = interp(p)
                st = State()
                mk = lambda w, rs: [eqn(C(r), I.note(T('lo', w, r), 'double'), I.note(T('up', w, r), 'double')) for r in rs]
                st.store[('g', 'a')] = program(p, mk('a', ra))
                st.store[('g', 'b')] = program(p, mk('b', rb))
                res = I.run(fs[0], ('p', ('g', 'a'), ()), [('L', (('g', 'b'), ()))], st)
                ctx.note_interp(I, len(res))
                name = 'make_union:%s+%s' % (ra, rb)
                if not res:
                    ctx.und(name, 'no path', where)
                syms = [T(k, w, r) for w, rs_ in (('a', ra), ('b', rb)) for r in rs_ for k in ('lo', 'up')]
                import random
                R = random.Random(3)
                envs = [({q: R.choice((-INF, 0, 1) if q[1] == 'lo' else (INF, 1, 2)) for q in syms}, [None] + [R.choice((0, 1, 2)) for _ in range(3)]) for _ in range(300)]
                for n, (v, s1) in enumerate(res):
                    nm = '%s#%d' % (name, n)
                    try:
                        bad = None
                        eqs = eqs_of(load(s1, (('g', 'a'), ())))
                        ob = load(s1, (('g', 'b'), ()))
                        if ob != st.store[('g', 'b')]:
                            bad = 'the other system is changed'
                        for env, y in envs:
                            h = holds(s1.facts, env)
                            if h is None:
                                raise Unk('path condition ' + facts_str(s1)[:80])
                            if not h:
                                continue
                            got = all(term(get_step(q, ('f', 'lower')), env) <= y[cval(get_step(q, ('f', 'row')))] <= term(get_step(q, ('f', 'upper')), env) for q in eqs)
                            want = all(env[T('lo', w, r)] <= y[r] <= env[T('up', w, r)] for w, rs_ in (('a', ra), ('b', rb)) for r in rs_)
                            if got != want and not bad:
                                bad = 'union has rows %s; solution %s is %s' % ([show(get_step(q, ('f', 'row'))) for q in eqs], y[1:], 'kept' if got else 'lost')
                        ctx.check(nm, bad is None, bad or '', where)
                    except Unk as ex:
                        ctx.und(nm, 'result not understood: %s' % ex, where)
    ctx.attempt('make_union', go, where)


# ---------------------------------------------------------------- one program and the solver

OPREL = {'OP_EQ': lambda a, b: a == b, 'OP_LE': lambda a, b: a <= b, 'OP_GE': lambda a, b: a >= b, 'OP_LT': lambda a, b: a < b, 'OP_GT': lambda a, b: a > b}
BIG = 3 * 10**9


def single(ctx, p):
    """SingleProgram(cache, member, k, op) holds exactly the constraint  member.variables . x  op  k"""
    fs = [f for f in Interp(p).ctors(SI + 'SingleProgram') if len(f['params']) == 4]
    if not fs:
        ctx.und('SingleProgram', 'constructor not found')
        return
    where = site(fs[0])

    def go():
        en = p.enums[SI + 'op_t']
        for op in OPREL:
            I = interp(p)
            st = State()
            a = ('seq', (('one', I.note(T('a0'), 'long')), ('one', I.note(T('a1'), 'long'))))
            st.store[('g', 'm')] = Obj(SI + 'Member', None, {('f', '_variables'): a, ('f', '_constant'): T('mc'), ('f', '_canAnalyze'): TRUE})

            def cache(I, e, st, loc, ptr):
                out = []
                for l, s1 in I.lv(e['args'][0], st):
                    s1 = s1.copy()
                    v = load(s1, l)
                    s1.store[('g', 'vec')] = Obj(SI + 'Vector', None, {('f', 'given'): v, ('f', 'ref'): C(0)})
                    out.append((('p', ('g', 'vec'), ()), s1))
                return out
            I.hooks[SI + 'LPCache::createAndCache'] = cache
            th = ('g', 'sp')
            st.store[th] = Obj(SI + 'SingleProgram', None, {})
            st.store[('g', 'cache')] = Obj(SI + 'LPCache', T('cache'), {})
            k = I.note(T('k'), 'long')
            rs = I.run(fs[0], ('p', th, ()), [('p', ('g', 'cache'), ()), ('L', (('g', 'm'), ())), k, ('e', SI + 'op_t', op, en[op])], st)
            ctx.note_interp(I, len(rs))
            nm = 'SingleProgram:' + op
            if not rs:
                ctx.und(nm, 'no path', where)
            for v, s1 in rs:
                o = load(s1, (th, ()))
                try:
                    eqs = eqs_of(get_step(o, ('f', 'program')))
                    ctx.check(nm + ':nonempty', get_step(o, ('f', 'has_empty')) == FALSE, 'a program with an equation is marked empty', where)
                    ctx.check(nm + ':count', len(eqs) == 1, '%d equations' % len(eqs), where)
                    for q in eqs:
                        r = get_step(q, ('f', 'row'))
                        given = get_step(load(s1, deref(r)), ('f', 'given')) if r[0] == 'p' else None
                        ctx.check(nm + ':row', given == a, 'the row is %s' % show(given or r)[:60], where)
                        bad = None
                        for kv in (-BIG, -1, 0, 2, BIG, 1 << 40):
                            for y in (kv - 1, kv, kv + 1):
                                env = {T('k'): kv}
                                got = term(get_step(q, ('f', 'lower')), env) <= y <= term(get_step(q, ('f', 'upper')), env)
                                if got != OPREL[op](y, kv):
                                    bad = 'value %d against constant %d is %s' % (y, kv, 'kept' if got else 'excluded')
                        ctx.check(nm + ':bounds', bad is None, bad or '', where)
                except Unk as ex:
                    ctx.und(nm, 'result not understood: %s' % ex, where)
    ctx.attempt('SingleProgram', go, where)


def vector(ctx, p):
    """the sparse row of a linear program lists exactly the non-zero coefficients"""
    fs = [f for f in Interp(p).ctors(SI + 'Vector') if len(f['params']) == 1 and 'vector' in f['params'][0]['t']]
    ws = p.method(SI + 'Vector', 'write_indir')
    if not fs or not ws:
        ctx.und('Vector', 'not found')
        return
    where = site(fs[0])

    def go():
        for n in (0, 1, 2, 3):
            I = interp(p)
            st = State()
            st.store[('g', 'd')] = ('seq', tuple(('one', I.note(T('a', i), 'long')) for i in range(n)))
            th = ('g', 'v')
            st.store[th] = Obj(SI + 'Vector', None, {})
            rs = I.run(fs[0], ('p', th, ()), [('L', (('g', 'd'), ()))], st)
            k = 0
            for v, s1 in rs:
                s1 = s1.copy()
                s1.store[('g', 'dest')] = ('seq', tuple(('one', T('old', i)) for i in range(n + 1)))
                s1.store[('g', 'ind')] = ('seq', tuple(('one', C(i)) for i in range(n + 1)))
                r2 = I.unlv(I.call_fn(ws[0], s1, ('p', th, ()), [('l', (('g', 'dest'), ())), ('l', (('g', 'ind'), ()))], EV))
                ctx.note_interp(I, len(r2))
                for l, s2 in r2:
                    k += 1
                    nm = 'Vector:%d#%d' % (n, k)
                    if not isnum(l):
                        ctx.und(nm, 'length ' + show(l)[:40], where)
                        continue
                    dest, ind = seqlib.items(load(s2, (('g', 'dest'), ()))), seqlib.items(load(s2, (('g', 'ind'), ())))
                    bad = None
                    try:
                        for av in itertools.product((-2, 0, 1, BIG), repeat=n):
                            env = {T('a', i): x for i, x in enumerate(av)}
                            h = holds(s2.facts, env)
                            if h is None:
                                raise Unk('path ' + facts_str(s2)[:60])
                            if not h:
                                continue
                            want = {i + 1: x for i, x in enumerate(av) if x}
                            got = {term(ind[j], env): term(dest[j], env) for j in range(1, int(cval(l)))}
                            if got != want or len(got) != cval(l) - 1:
                                bad = 'coefficients %s are written as %s' % (av, got)
                        ctx.check(nm, bad is None, bad or '', where)
                    except Unk as ex:
                        ctx.und(nm, str(ex), where)
    ctx.attempt('Vector', go, where)


LO, UP, DB, FX, FR = 2, 3, 4, 5, 1


def glp_hooks(I, p, rows=None):
    """records the linear program handed to the solver; its answers are free decisions (restricted to those the settings allow)"""
    def rec(key):
        def h(I, e, st, loc, ptr):
            out = []
            for vs, s1 in I.evals(e['args'], st):
                s1 = s1.copy()
                s1.ghost['lp'] = s1.ghost.get('lp', ()) + ((key,) + tuple(vs[1:]),)
                out.append((C(0), s1))
            return out
        return h
    for f in ('glp_add_rows', 'glp_add_cols', 'glp_set_row_bnds', 'glp_set_col_bnds', 'glp_set_col_kind', 'glp_set_obj_coef', 'glp_set_obj_dir'):
        I.hooks[f] = rec(f)

    def mat(key):
        def h(I, e, st, loc, ptr):
            out = []
            for vs, s1 in I.evals(e['args'], st):
                if not isnum(vs[2]):
                    raise Unsupported('symbolic number of coefficients')
                es = []
                for j in range(1, int(cval(vs[2])) + 1):
                    es.append((load(s1, I.ptr_idx(vs[3], C(j))), load(s1, I.ptr_idx(vs[4], C(j)))))
                s1 = s1.copy()
                s1.ghost['lp'] = s1.ghost.get('lp', ()) + ((key, vs[1], tuple(es)),)
                out.append((NULL, s1))
            return out
        return h
    I.hooks['glp_set_mat_row'] = mat('row')
    I.hooks['glp_set_mat_col'] = mat('col')
    I.hooks['glp_delete_prob'] = I.hooks['glp_erase_prob'] = lambda I, e, st, loc, ptr: [(NULL, s1) for v, s1 in I.evals(e['args'], st)]
    I.hooks['glp_time'] = lambda I, e, st, loc, ptr: [(I.note(T('time'), 'double'), st)]
    I.hooks['glp_create_prob'] = lambda I, e, st, loc, ptr: [(('p', ('g', 'prob'), ()), st)]

    def init(I, e, st, loc, ptr):
        out = []
        for (q,), s1 in I.evals(e['args'], st):
            s1 = s1.copy()
            l = deref(q)
            save(s1, (l[0], l[1] + (('f', 'presolve'),)), C(0))
            out.append((C(0), s1))
        return out
    I.hooks['glp_init_smcp'] = I.hooks['glp_init_iocp'] = init

    def fork(key, codes, presolved=()):
        def h(I, e, st, loc, ptr):
            out = []
            for vs, s1 in I.evals(e['args'], st):
                cs = list(codes)
                if presolved:
                    l = deref(vs[1])
                    pre = load(s1, (l[0], l[1] + (('f', 'presolve'),)))
                    if pre != C(0):
                        cs += presolved
                for c in cs:
                    s2 = s1.copy()
                    s2.ghost['ans'] = s2.ghost.get('ans', ()) + ((key, c),)
                    out.append((C(c), s2))
            return out
        return h
    I.hooks['glp_simplex'] = fork('simplex', (0, 5, 8, 9), (0x0A, 0x0B))
    I.hooks['glp_intopt'] = fork('intopt', (0, 5, 9, 0x0C, 0x0D, 0x0E), (0x0A, 0x0B))
    return fork


def base_lp(I):
    def h(I, e, st, loc, ptr):
        return [(NULL, st), (('p', ('g', 'prob'), ()), st)]
    I.hooks[NS + 'SimplificationContext::makeBaseLP'] = h


def allowed(kind, lb, ub, y):
    return (kind in (FR, UP) or lb <= y) and (kind in (FR, LO) or y <= ub) and (kind != FX or y == lb)


def impossible(ctx, p):
    """isImpossible answers true only when the solver finds a relaxation of the system infeasible, or two bounds contradict each other"""
    fs = p.method(SI + 'LinearProgram', 'isImpossible')
    if not fs:
        ctx.und('isImpossible', 'not found')
        return
    where = site(fs[0])
    NP, NT = 2, 2

    def go():
        for shape in ((), ('lo',), ('up',), ('both',), ('lo', 'both'), ('up', 'lo')):
            for prior in ('UKNOWN', 'POSSIBLE', 'IMPOSSIBLE'):
                if prior != 'UKNOWN' and len(shape) != 1:
                    continue
                I = interp(p)
                st = State()
                st.store[CTX] = Obj(NS + 'SimplificationContext', T('ctx'), {})
                I.name_hooks['numberOfTransitions'] = lambda I, e, st, loc, ptr: [(C(NT), st)]
                I.name_hooks['numberOfPlaces'] = lambda I, e, st, loc, ptr: [(C(NP), st)]
                I.name_hooks['getLpTimeout'] = lambda I, e, st, loc, ptr: [(C(10), st)]
                base_lp(I)
                fork = glp_hooks(I, p)
                I.hooks['glp_get_status'] = fork('status', (2, 4, 5, 6))
                I.hooks['glp_mip_status'] = fork('mip', (2, 4, 5))
                eqs = []
                for i, k in enumerate(shape):
                    st.store[('g', 'vec', i)] = Obj(SI + 'Vector', None, {('f', '_data'): ('seq', tuple(('one', Obj('pair', None, {('f', 'first'): C(j), ('f', 'second'): C((i + 1) * (j + 2))})) for j in range(NT)))})
                    eqs.append(eqn(('p', ('g', 'vec', i), ()), I.note(T('lo', i), 'double') if k in ('lo', 'both') else C(-INF), I.note(T('up', i), 'double') if k in ('up', 'both') else C(INF)))

                def isinf(I, e, st, loc, ptr):
                    return [(C(isnum(v) and v[0] == 'c' and abs(v[1]) == INF), s1) for (v,), s1 in I.evals(e['args'], st)]
                I.hooks['std::isinf'] = isinf
                th = ('g', 'prog')
                st.store[th] = program(p, eqs, prior)
                rs = I.run(fs[0], ('p', th, ()), [('L', (CTX, ())), C((1 << 32) - 1)], st)
                ctx.note_interp(I, len(rs))
                name = 'isImpossible:%s/%s' % ('+'.join(shape), prior)
                if not rs:
                    ctx.und(name, 'no path', where)
                for n, (v, s1) in enumerate(rs):
                    judge_lp(ctx, '%s#%d' % (name, n), shape, prior, v, s1, where, th, NP, NT)
    ctx.attempt('isImpossible', go, where)


def judge_lp(ctx, nm, shape, prior, v, s1, where, th, NP, NT):
    lp, ans = s1.ghost.get('lp', ()), s1.ghost.get('ans', ())
    res = get_step(load(s1, (th, ())), ('f', '_result'))
    if v not in (TRUE, FALSE):
        ctx.und(nm, 'answer ' + show(v)[:40], where)
        return
    if v == FALSE and not (res[0] == 'e' and res[2] == 'IMPOSSIBLE'):
        return
    if prior == 'IMPOSSIBLE':
        ctx.ok(nm, '', where)
        return
    try:
        # two bounds of one equation exclude each other on this path
        for i, k in enumerate(shape):
            if k == 'both' and not any(holds(s1.facts, {**{T('lo', j): 0 for j in range(3)}, **{T('up', j): 9 for j in range(3)}, T('lo', i): a, T('up', i): b}) is not False
                                       for a in (-2, 0, 1, 2) for b in (-2, 0, 1, 2) if a <= b):
                ctx.ok(nm, '', where)
                return
        a = dict(ans)
        inf = (a.get('simplex') == 0 and (a.get('status') == 4 or (a.get('status') == 5 and a.get('intopt') == 0 and a.get('mip') == 4))) or a.get('simplex') == 0x0A \
            or (a.get('simplex') == 0 and a.get('intopt') == 0x0A)
        ctx.check(nm + ':answer', inf, 'the system is declared impossible on the solver answer %s' % (ans,), where)
        if not inf:
            return
        # the system solved is a relaxation of the one asked about
        bad = None
        rows = {}
        for k in lp:
            if k[0] == 'row':
                rows.setdefault(cval(k[1]), {})['c'] = {cval(x): cval(y) for x, y in k[2]}
            elif k[0] == 'glp_set_row_bnds':
                rows.setdefault(cval(k[1]), {})['b'] = (cval(k[2]), k[3], k[4])
            elif k[0] == 'glp_set_col_bnds':
                for x in (0, 1, 5):
                    if not allowed(cval(k[2]), *[term(z, {}) if k2 else 0 for z, k2 in ((k[3], cval(k[2]) in (LO, DB, FX)), (k[4], cval(k[2]) in (UP, DB)))], x):
                        bad = 'column %s excludes the firing count %d' % (show(k[1]), x)
        want = [{j + 1: (i + 1) * (j + 2) for j in range(NT)} for i in range(len(shape))]
        for r, d in rows.items():
            if r <= NP:
                bad = 'row %d of the marking equation is overwritten' % r
                continue
            if 'b' not in d:
                continue
            kind, lb, ub = d['b']
            if kind == FR:
                continue
            c = d.get('c', {})
            ok = False
            for i, k in enumerate(shape):
                if c != want[i]:
                    continue
                good = True
                for l0, u0 in ((0, 0), (0, 2), (1, 2), (-1, 1)):
                    env = {T('lo', j): l0 for j in range(len(shape))}
                    env.update({T('up', j): u0 for j in range(len(shape))})
                    if holds(s1.facts, env) is False:
                        continue
                    for y in (-2, -1, 0, 1, 2, 3):
                        if (k == 'up' or l0 <= y) and (k == 'lo' or y <= u0):
                            if not allowed(kind, term(lb, env) if kind in (LO, DB, FX) else 0, term(ub, env) if kind in (UP, DB) else 0, y):
                                good = False
                ok = ok or good
            if not ok:
                bad = 'row %d (%s, bounds %s) is not a consequence of the system' % (r, c, [show(z) if isinstance(z, tuple) else z for z in d['b']])
        ctx.check(nm + ':relaxation', bad is None, bad or '', where)
    except Unk as ex:
        ctx.und(nm, 'result not understood: %s' % ex, where)


def marking_equation(ctx, p):
    """the base system is m0 + C x >= 0, row per place, column per transition"""
    fs = p.method(NS + 'SimplificationContext', 'buildBase')
    if not fs:
        ctx.und('buildBase', 'not found')
        return
    where = site(fs[0])
    from ..netmodel import Arc, lay_net, NETP, MARK
    I0, O0 = [], []
    layouts = []
    pres = [(), ((0, 0),), ((1, 0),), ((0, 1),), ((0, 0), (1, 0)), ((0, 1), (1, 0)), ((0, 0), (1, 1))]
    posts = [(), (0,), (1,), (0, 1)]
    for a in pres:
        for b in posts:
            layouts.append([(a, b)])
    layouts.append([(((0, 0),), (1,)), (((1, 0),), (0, 1))])
    layouts.append([])

    def go():
        for lay in layouts:
            I = interp(p)
            st = State()
            trans = [([Arc(q, bool(inh)) for q, inh in a], [Arc(q) for q in b]) for a, b in lay]
            lay_net(I, st, 2, trans)
            fork = glp_hooks(I, p)
            st.store[CTX] = Obj(NS + 'SimplificationContext', T('ctx'), {('f', '_net'): NETP, ('f', '_marking'): ('p', MARK, ())})
            rs = I.run(fs[0], ('p', CTX, ()), [], st)
            ctx.note_interp(I, len(rs))
            name = 'buildBase:%s' % (lay,)
            n = 0
            for v, s1 in rs:
                if v == NULL:
                    continue
                n += 1
                nm = '%s#%d' % (name, n)
                A, bad = {}, None
                try:
                    bnds = {}
                    for k in s1.ghost.get('lp', ()):
                        if k[0] == 'col':
                            idx = [cval(x) for x, _ in k[2]]
                            if len(set(idx)) != len(idx):
                                bad = 'a row index occurs twice in one column'
                            for x, y in k[2]:
                                A[(cval(x), cval(k[1]))] = y
                        elif k[0] == 'row':
                            for x, y in k[2]:
                                A[(cval(k[1]), cval(x))] = y
                        elif k[0] == 'glp_set_row_bnds':
                            bnds[cval(k[1])] = k[2:]
                        elif k[0] == 'glp_set_col_bnds' and (cval(k[2]) not in (LO, FR) or (cval(k[2]) == LO and term(k[3], {}) > 0)):
                            bad = 'a column bound excludes firing counts'
                    toks = {}
                    kk = 0
                    for t, (ins, outs) in enumerate(trans):
                        for a in ins:
                            if not a.inhibitor:
                                toks[(a.place, t)] = add(toks.get((a.place, t), C(0)), a.tokens, -1)
                        for a in outs:
                            toks[(a.place, t)] = add(toks.get((a.place, t), C(0)), a.tokens)
                    for q in (0, 1):
                        b = bnds.get(q + 1)
                        if b is None or cval(b[0]) == FR:
                            continue        # weaker is still sound
                        if cval(b[0]) != LO or b[1] != add(C(0), T('m', C(q)), -1):
                            bad = 'place %d is bounded by %s' % (q, [show(z) for z in b])
                        for t in range(len(trans)):
                            got = A.get((q + 1, t + 1), C(0))
                            if got != toks.get((q, t), C(0)):
                                bad = 'effect of transition %d on place %d is entered as %s, it is %s' % (t, q, show(got), show(toks.get((q, t), C(0))))
                    for r in bnds:
                        if r > 2 and cval(bnds[r][0]) != FR:
                            bad = 'extra row %d is constrained' % r
                    for (r, c_) in A:
                        if c_ > len(trans):
                            bad = 'column %d does not exist' % c_
                    ctx.check(nm, bad is None, bad or '', where)
                except (Unk, TypeError) as ex:
                    ctx.und(nm, 'result not understood: %s' % ex, where)
            if not n:
                ctx.und(name, 'no base system is built', where)
    ctx.attempt('buildBase', go, where)


def upper_bounds(ctx, p):
    """place bounds from the linear program: bound >= every reachable value, and 'constant' only if the value never changes"""
    fs = p.method(SI + 'LinearProgram', 'bounds')
    if not fs:
        ctx.und('bounds', 'not found')
        return
    where = site(fs[0])

    def go():
        for places in ((0,), (1,), (0, 1), ()):
            for nt in (0, 1):
                I = interp(p)
                st = State()
                st.store[CTX] = Obj(NS + 'SimplificationContext', T('ctx'), {})
                st.store[('g', 'marking')] = ('seq', tuple(('one', I.note(T('m0', i), 'unsigned int')) for i in (0, 1)))
                I.name_hooks['numberOfTransitions'] = lambda I, e, st, loc, ptr: [(C(nt), st)]
                I.name_hooks['numberOfPlaces'] = lambda I, e, st, loc, ptr: [(C(2), st)]
                nmk = lambda k, a, b: I.note(T(k, cval(a), cval(b)), 'unsigned int')
                I.name_hooks['outArc'] = lambda I, e, st, loc, ptr: [(nmk('out', vs[1], vs[0]), s1) for vs, s1 in I.evals(e['args'], st)]
                I.name_hooks['inArc'] = lambda I, e, st, loc, ptr: [(nmk('in', vs[0], vs[1]), s1) for vs, s1 in I.evals(e['args'], st)]
                I.name_hooks['getLpTimeout'] = lambda I, e, st, loc, ptr: [(C(10), st)]
                I.hooks[NS + 'SimplificationContext::marking'] = lambda I, e, st, loc, ptr: [(('p', ('g', 'marking'), ()), st)]
                I.hooks['memset'] = lambda I, e, st, loc, ptr: [(NULL, s1) for v, s1 in I.evals(e['args'], st)]
                I.hooks['std::round'] = I.hooks['round'] = lambda I, e, st, loc, ptr: [(v, s1) for (v,), s1 in I.evals(e['args'], st)]
                base_lp(I)
                fork = glp_hooks(I, p)
                I.hooks['glp_get_status'] = fork('status', (2, 5, 6))
                I.hooks['glp_mip_status'] = fork('mip', (2, 5))

                def objval(I, e, st, loc, ptr):
                    dirs = [k for k in st.ghost.get('lp', ()) if k[0] == 'glp_set_obj_dir']
                    i = max([n for n, k in enumerate(st.ghost['lp']) if k[0] == 'glp_set_obj_dir'] or [0])
                    obj = tuple((cval(k[1]), k[2]) for k in st.ghost['lp'][i:] if k[0] == 'glp_set_obj_coef')
                    return [(I.note(T('opt', bool(dirs) and dirs[-1][1] == C(2), obj), 'double'), st)]
                I.hooks['glp_mip_obj_val'] = I.hooks['glp_get_obj_val'] = objval
                st.store[('g', 'pl')] = ('seq', tuple(('one', C(i)) for i in places))
                rs = I.run(fs[0], None, [('L', (CTX, ())), C(10), ('L', (('g', 'pl'), ()))], st)
                ctx.note_interp(I, len(rs))
                name = 'bounds:%s/%d' % (places, nt)
                if not rs:
                    ctx.und(name, 'no path', where)
                for n, (v, s1) in enumerate(rs):
                    judge_bounds(ctx, '%s#%d' % (name, n), places, nt, v, s1, where)
    ctx.attempt('bounds', go, where)


def judge_bounds(ctx, nm, places, nt, v, s1, where):
    try:
        if v[0] != 'seq' or len(seqlib.items(v)) != len(places) + 1:
            ctx.check(nm, False, 'one bound per place and one for their sum expected, got %s' % show(v)[:60], where)
            return
        pairs = [(get_step(q, ('f', 'first')), get_step(q, ('f', 'second'))) for q in seqlib.items(v)]
        bad = None
        for m0 in itertools.product((0, 1, 2), repeat=2):
            for arcs in itertools.product(((0, 0), (1, 0), (0, 1), (2, 1)), repeat=2 * nt):
                for x in itertools.product((0, 1, 2), repeat=nt):
                    env = {T('m0', i): m0[i] for i in (0, 1)}
                    for q in (0, 1):
                        for t in range(nt):
                            env[T('out', q, t)], env[T('in', q, t)] = arcs[q * nt + t]
                    env[T('time')] = 0
                    for a, b in pairs:
                        for o in subterms(a):
                            if isinstance(o, tuple) and len(o) == 4 and o[0] == 't' and o[1] == 'opt':
                                # the optimum is at least (maximisation) the value at x
                                val = sum(term(k, env) * x[c - 1] for c, k in o[3] if c <= nt)
                                env[o] = val if o[2] else -INF
                    h = holds({k: f for k, f in s1.facts.items() if not any(isinstance(z, tuple) and z[:2] == ('t', 'opt') for z in subterms(k[1]))}, env)
                    if h is None:
                        raise Unk('path condition ' + facts_str(s1)[:80])
                    if not h:
                        continue
                    mk = [m0[q] + sum((env[T('out', q, t)] - env[T('in', q, t)]) * x[t] for t in range(nt)) for q in (0, 1)]
                    if min(mk) < 0:
                        continue
                    for i, (a, b) in enumerate(pairs):
                        real = sum(mk[q] for q in places) if i == len(places) else mk[places[i]]
                        init = sum(m0[q] for q in places) if i == len(places) else m0[places[i]]
                        ub = term(a, env)
                        if not (real <= ub) and not bad:
                            bad = 'bound %s is %s but the marking reaches %d (initially %s, arcs %s, firing counts %s)' % ('of the sum' if i == len(places) else i, ub, real, m0, arcs, x)
                        if term(b, env) and real != ub and not bad:
                            bad = 'a value is called constant (%s) but the marking reaches %d (initially %s, arcs %s, firing counts %s)' % (ub, real, m0, arcs, x)
        ctx.check(nm, bad is None, bad or '', where)
    except Unk as ex:
        ctx.und(nm, 'result not understood: %s' % ex, where)
