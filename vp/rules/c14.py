"""C14: the explicit coloured engine compiles guards and arc expressions faithfully"""
import itertools
from collections import Counter
from ..rule import *
from .. import seqlib, maplib
from ..smallmodel import term, holds, Unk
from . import c12, c13
from .c12 import CN, TYPES, VARS, BIND, fld, obj, strip, txt, num, seqof, typ, tree, Wrong, mev, gev, val, dom, cplace, ctrans, carc
from .c13 import load_doc

LEVEL = 'exhaustive-abstraction'
MIN_OBLIGATIONS = 60
EXPLANATION = ('Abstract interpretation of the guard and arc compilers of the explicit coloured engine, of what they compile to and of its multisets, over every kind of coloured expression and for every binding of the variables, '
               'against the multiset or truth value the expression denotes; multiset operations are interpreted with symbolic token counts for every arrangement of the stored entries.')
TUS = ['src/PetriParse/PNMLParser.cpp', 'src/PetriEngine/Colored/Colors.cpp', 'src/PetriEngine/ExplicitColored/ArcCompiler.cpp', 'src/PetriEngine/ExplicitColored/ExpressionCompilers/GuardCompiler.cpp']
EN = 'PetriEngine::ExplicitColored::'
AC = 'src/PetriEngine/ExplicitColored/ArcCompiler.cpp'
GC = 'src/PetriEngine/ExplicitColored/ExpressionCompilers/GuardCompiler.cpp'
SM = 'include/PetriEngine/ExplicitColored/SequenceMultiSet.h'
CS = 'include/PetriEngine/ExplicitColored/ColorSequence.h'
VNUM = {n: i for i, n in enumerate(VARS)}
MS = EN + 'SequenceMultiSet'


def interp(p):
    I = c13.interp(p)
    I.unroll_forks = True
    return I


def fn(p, q, npar=None, par=None):
    fs = [f for f in p.fns.values() if f['q'] == EN + q and (npar is None or len(f['params']) == npar) and (par is None or (f['params'] and par in f['params'][0]['t']))]
    if not fs:
        raise AnchorError(EN + q + ' not found')
    return fs[0]


def one(I, rs, what):
    if not rs and (I.thrown or I.aborted or I.nulls):
        raise Wrong(what + ' fails')
    if I.thrown or I.aborted or I.nulls or len(rs) != 1:
        raise Unk('%s: %d results' % (what, len(rs)))
    v, s = rs[0]
    return v, s


def value(v, s):
    return load(s, v[1]) if isinstance(v, tuple) and v and v[0] == 'LV' else v


def call(p, ptr, name, args, s, ctx, what=None):
    """call a method on the dynamic class of the object"""
    cls = obj(s, ptr).cls
    fs = p.method(cls, name)
    if not fs:
        raise AnchorError('%s::%s not found' % (cls, name))
    I = interp(p)
    rs = I.run(fs[0], strip(ptr), args, s)
    ctx.note_interp(I, len(rs))
    v, s = one(I, rs, what or name)
    return value(v, s), s


def codes(p, ctx, s0, sizes):
    """number of every tuple of component numbers, from the source"""
    I = interp(p)
    f = fn(p, 'ColorSequence::ColorSequence', 2, 'vector')
    f = [g for g in p.fns.values() if g['q'] == EN + 'ColorSequence::ColorSequence' and len(g['params']) == 2 and 'vector' in g['params'][1]['t']]
    if not f:
        raise AnchorError('ColorSequence constructor not found')
    out = {}
    for c in itertools.product(*[range(n) for n in sizes]):
        s = s0.copy()
        s.store[('h', 'seq')] = seqlib.seq([C(i) for i in c])
        s.store[('h', 'siz')] = seqlib.seq([C(i) for i in sizes])
        s.store[('h', 'cs')] = Obj(EN + 'ColorSequence', None, {})
        rs = I.run(f[0], ('p', ('h', 'cs'), ()), [('L', (('h', 'seq'), ())), ('L', (('h', 'siz'), ()))], s)
        _, s = one(I, rs, 'the number of a colour')
        out[c] = num(fld(load(s, (('h', 'cs'), ())), 'encodedValue'))
    ctx.note_interp(I, len(out))
    return out


def sizes_of(t):
    return [1] if t[0] == 'dot' else [len(t[2])] if t[0] == 'enum' else [sizes_of(u)[0] for u in t[2]]


def key(c):
    """colour of the oracle -> component numbers"""
    if c and isinstance(c[0], tuple):
        return tuple(x[1] if len(x) > 1 else 0 for x in c)
    return (c[1] if len(c) > 1 else 0,)


def content(m):
    """SequenceMultiSet -> {code: count}, checking the order of the entries and the stored total"""
    es = [(num(fld(e, 'first')), num(fld(e, 'second'))) for e in seqof(fld(m, '_counts'))]
    ks = [k for k, _ in es]
    if ks != sorted(set(ks)):
        raise Wrong('the entries of a multiset are not in order: %s' % ks)
    if num(fld(m, '_cardinality')) != sum(v for _, v in es):
        raise Wrong('the stored total %d of a multiset is not %d' % (num(fld(m, '_cardinality')), sum(v for _, v in es)))
    return {k: v for k, v in es if v}


def mk(es):
    return Obj(MS, None, {('f', '_counts'): seqlib.seq([maplib.pair(C(k), C(v)) for k, v in es]), ('f', '_cardinality'): C(sum(v for _, v in es))})


def binding(s, b):
    s.store[('h', 'bind')] = Obj(EN + 'Binding', None, {('f', '_values'): maplib.mk_map([(C(VNUM[n]), C(b[n][1])) for n in sorted(VARS, key=VNUM.get)])})
    return ('L', (('h', 'bind'), ()))


def compiler(s, types, cls):
    s.store[('h', 'comp')] = Obj(EN + cls, None, {('f', '_variableMap'): maplib.mk_map([(C(n), C(i)) for n, i in VNUM.items()]),
                                                  ('f', '_colorTypeMap'): maplib.mk_map([(C(n), t) for n, t in types.items()])})
    return ('p', ('h', 'comp'), ())


def used(e):
    return [n for n in VARS if "('var', %r)" % n in repr(e)]


def unsupported(e):
    """shapes the compiler refuses to handle: several summands under one number, a type as a whole, a multiple of zero"""
    if e[0] == 'num':
        return len(e[2]) != 1 or e[1] == 0 or e[1] >= 1 << 31 or unsupported(e[2][0])
    if e[0] == 'all':
        return True
    if e[0] == 'tup':
        return any(x[0] in ('all', 'plus') or unsupported(x) for x in e[1])
    if e[0] == 'add':
        return not e[1] or any(unsupported(x) for x in e[1])
    if e[0] == 'scal':
        return e[1] == 0 or unsupported(e[2])
    if e[0] == 'sub':
        return unsupported(e[1]) or unsupported(e[2])
    return False


def arc(ctx, p, t, es, code):
    f = fn(p, 'ArcCompiler::compile')

    def go():
        kids = [cplace('p', t), ctrans('t')] + [carc('t', 'p', e) for e in es]
        s0, raw, types, vs = load_doc(p, *kids)
        ptrs = [a[2] for n, a in raw if n == 'addOutputArc']
        for e0, ptr in zip(es, ptrs):
            nm = 'arc %s %r' % (t, e0)
            ctx.attempt(nm, lambda: single(nm, e0, ptr, s0, types), AC)

    def single(nm, e0, ptr, s0, types):
        e = tree(s0, strip(ptr))
        s = s0.copy()
        s.store[('h', 'expr')] = ptr
        I = interp(p)
        rs = I.run(f, compiler(s, types, 'ArcCompiler'), [('L', (('h', 'expr'), ()))], s)
        ctx.note_interp(I, len(rs))
        if not rs and I.thrown and not (I.aborted or I.nulls):
            # refusing an expression is no wrong answer, but what was supported stays supported
            if unsupported(e):
                ctx.ok(nm, 'refused', AC)
            else:
                ctx.bad(nm, 'the expression is refused', AC)
            return
        try:
            c, s = one(I, rs, 'the compilation')
            names = used(e)
            seen = {}
            for b in BIND:
                k = tuple(b[n] for n in names)
                if k in seen:
                    continue
                want = Counter()
                for col, n in mev(e, b).items():
                    want[code[key(col)]] += n
                seen[k] = (b, want)
            check(nm, e, c, s, seen, names)
            ctx.ok(nm, '%d bindings' % len(seen), AC)
        except Wrong as w:
            ctx.bad(nm, str(w), AC)

    def check(nm, e, c, s, seen, names):
        ask = lambda n, a, st: call(p, c, n, a, st, ctx)
        v, _ = ask('getVariables', [], s)
        got = {num(x) for x in maplib_keys(v)}
        if got != {VNUM[n] for n in names}:
            raise Wrong('its variables are given as %s instead of %s' % (sorted(got), sorted(VNUM[n] for n in names)))
        lo = num(ask('getMinimalMarkingCount', [], s)[0])
        hi = num(ask('getUpperBoundMarkingCount', [], s)[0])
        mn = ask('getMinimalColorMarking', [], s)[0]
        mn = content(fld(mn, 'minimalMarkingMultiSet'))
        neg = num(ask('containsNegative', [], s)[0])
        cons = {}
        for n in names:
            r, _ = ask('calculateVariableConstraints', [C(VNUM[n]), C(7)], s)
            cons[n] = [tuple(num(fld(x, g)) for g in ('colorIndex', 'colorOffset', 'place')) if num(fld(x, 'colorIndex')) != c12.MAXU else None for x in seqof(r)]
        tuples = {v: k for k, v in code.items()}
        sz = sizes_of(TYPES[t])
        for nth, (b, want) in enumerate(seen.values()):
            at = ', '.join('%s=%s%d' % ((n,) + b[n]) for n in names) or 'every binding'
            st = s.copy()
            bl = binding(st, b)
            m, _ = ask('eval', [bl], st)
            got = content(m)
            if got != dict(+want):
                raise Wrong('evaluates to %s instead of %s for %s' % (got, dict(want), at))
            tot = sum(want.values())
            if lo > tot or hi < tot:
                raise Wrong('has %d tokens for %s but is bounded by %d and %d' % (tot, at, lo, hi))
            if not neg and not lo == hi == tot:
                raise Wrong('has %d tokens for %s, claims to have no subtraction, and is bounded by %d and %d' % (tot, at, lo, hi))
            bad = [k for k, v in mn.items() if v > want.get(k, 0)]
            if bad:
                raise Wrong('colour %d occurs %d times for %s but at least %d times are demanded' % (bad[0], want.get(bad[0], 0), at, mn[bad[0]]))
            for n in names:
                for x in cons[n]:
                    if x is None:
                        continue
                    i, off, pl = x
                    if pl != 7 or i >= len(sz):
                        raise Wrong('a constraint of %s names place %d component %d' % (n, pl, i))
                    if not any((tuples[k][i] - off) % sz[i] == b[n][1] for k in want if want[k] > 0):
                        raise Wrong('for %s no token has component %d equal to %s%+d, as its constraint demands' % (at, i, n, off))
            allc = sorted(code.values())
            base = dict(want)
            rich = sorted((k, base.get(k, 0) + 1 + i) for i, k in enumerate(allc) if base.get(k, 0) or i % 2 == 0)
            exact = sorted(base.items())
            outs = [('empty', []), ('exact', exact), ('rich', rich)] if nth < 4 or ctx.tier == 'thorough' else [('exact', exact)]
            if exact:
                outs.append(('short', [(k, v - (j == 0)) for j, (k, v) in enumerate(exact)]))
            for w, es_ in outs:
                d = dict(es_)
                q = st.copy()
                q.store[('h', 'out')] = mk(es_)
                lo_ = ('L', (('h', 'out'), ()))
                r, _ = ask('isSubSet', [lo_, bl], q)
                if bool(num(r)) != all(d.get(k, 0) >= v for k, v in want.items()):
                    raise Wrong('is %senabled by %s although it takes %s (%s)' % ('' if num(r) else 'not ', d, dict(want), at))
                _, q2 = ask('produce', [lo_, bl], q)
                g = content(load(q2, (('h', 'out'), ())))
                w2 = {k: v for k, v in (Counter(d) + want).items() if v}
                if g != w2:
                    raise Wrong('producing %s onto %s gives %s (%s)' % (dict(want), d, g, at))
                if all(d.get(k, 0) >= v for k, v in want.items()):
                    _, q2 = ask('consume', [lo_, bl], q)
                    g = content(load(q2, (('h', 'out'), ())))
                    w2 = {k: d.get(k, 0) - want.get(k, 0) for k in set(d) | set(want) if d.get(k, 0) - want.get(k, 0)}
                    if g != w2:
                        raise Wrong('consuming %s from %s leaves %s (%s)' % (dict(want), d, g, at))
    ctx.attempt('arcs %s' % t, go, AC)


def maplib_keys(v):
    if seqlib.conc(v):
        return list(seqlib.items(v))
    return [k for k, _ in maplib.items(v)]


def guard(ctx, p, i0, gs):
    f = fn(p, 'GuardCompiler::compile')

    def go():
        s0, raw, types, vs = load_doc(p, *[ctrans('t%d' % i, g) for i, g in enumerate(gs)])
        for g, ptr in zip(gs, [a[1] for n, a in raw if n == 'addTransition']):
            nm = 'guard %r' % (g,)
            ctx.attempt(nm, lambda: single(nm, ptr, s0, types), GC)

    def single(nm, ptr, s0, types):
        v = strip(ptr)
        e = tree(s0, v)
        s = s0.copy()
        I = interp(p)
        rs = I.run(f, compiler(s, types, 'GuardCompiler'), [('L', (v[1], v[2]))], s)
        ctx.note_interp(I, len(rs))
        if not rs and I.thrown and not (I.aborted or I.nulls):
            if 'dot' in repr(e):
                ctx.ok(nm, 'refused', GC)
            else:
                ctx.bad(nm, 'the guard is refused', GC)
            return
        try:
            c, s = one(I, rs, 'the compilation')
            names = used(e)
            st = s.copy()
            st.store[('h', 'vars')] = maplib.mk_set([]) if hasattr(maplib, 'mk_set') else maplib.mk_map([])
            _, st = call(p, c, 'collectVariables', [('L', (('h', 'vars'), ()))], st, ctx)
            got = {num(x) for x in maplib_keys(load(st, (('h', 'vars'), ())))}
            if got != {VNUM[n] for n in names}:
                raise Wrong('its variables are given as %s instead of %s' % (sorted(got), sorted(VNUM[n] for n in names)))
            done = set()
            for b in BIND:
                k = tuple(b[n] for n in names)
                if k in done:
                    continue
                done.add(k)
                want = gev(e, b)
                st = s.copy()
                r, _ = call(p, c, 'eval', [binding(st, b)], st, ctx)
                if not isconst(r):
                    raise Unk('truth value ' + show(r)[:60])
                if bool(cval(r)) != want:
                    raise Wrong('is %s for %s' % (bool(cval(r)), ', '.join('%s=%s%d' % ((n,) + b[n]) for n in names)))
            ctx.ok(nm, '%d bindings' % len(done), GC)
        except Wrong as w:
            ctx.bad(nm, str(w), GC)
    ctx.attempt('guards %d' % i0, go, GC)


# ---------------------------------------------------------------- multisets with symbolic counts
NCOL = 3


def sym(ids, tag):
    tot = C(0)
    for i in ids:
        tot = add(tot, T(tag + str(i)))
    return Obj(MS, None, {('f', '_counts'): seqlib.seq([maplib.pair(C(2 * i + 1), T(tag + str(i))) for i in ids]), ('f', '_cardinality'): tot})


def counts(m, env, low=0):
    es = [(num(fld(e, 'first')), term(fld(e, 'second'), env)) for e in seqof(fld(m, '_counts'))]
    ks = [k for k, _ in es]
    if ks != sorted(set(ks)):
        raise Wrong('leaves the entries out of order: %s' % ks)
    tot = term(fld(m, '_cardinality'), env)
    if tot != sum(v for _, v in es):
        raise Wrong('leaves a total of %d for counts %s' % (tot, es))
    d = dict(es)
    bad = [k for k in d if (k < 1 or k > 2 * NCOL or k % 2 == 0) and d[k]]
    if bad:
        raise Wrong('has tokens of colour %d' % bad[0])
    return [d.get(2 * i + 1, 0) for i in range(NCOL)]


def setop(ctx, p, name, f, a, b, want, kind, args=None, then=None, neg=False, keep=None):
    def go():
        ra, rb = ('h', 'msa'), ('h', 'msb')
        I = interp(p)
        st = blank(p)
        st.store[ra], st.store[rb] = sym(a, 'a'), sym(b or (), 'b')
        for n in [T('a%d' % i) for i in a] + [T('b%d' % i) for i in (b or ())] + [T('c')]:
            I.note(n, 'int')
        av = [('L', (rb, ()))] if args is None else args
        rs = I.run(f, ('p', ra, ()), av, st)
        if then is not None:
            rs = [x for r, q in rs for x in I.run(then, ('p', ra, ()), [], q)]
        ctx.note_interp(I, len(rs))
        names = [T('a%d' % i) for i in a] + [T('b%d' % i) for i in (b or ())]
        vals = (0, 1, 2, 5) if not neg else (-3, 0, 1, 4)
        for cv in ((0, 1, 4) if args is not None and T('c') in args else (0,)):
            for vs in grid(len(names), vals):
                env = dict(zip(names, vs))
                env[T('c')] = cv
                A = [env.get(T('a%d' % i), 0) if i in a else 0 for i in range(NCOL)]
                B = [env.get(T('b%d' % i), 0) if i in (b or ()) else 0 for i in range(NCOL)]
                if args is not None and b is None:
                    B = cv
                w = want(A, B)
                if w is None:
                    continue
                hit = 0
                for r, q in rs:
                    if not holds(q.facts, env):
                        continue
                    hit += 1
                    if kind == 'value':
                        got = term(value(r, q), env)
                        got = bool(got) if isinstance(w, bool) else got
                    else:
                        got = counts(load(q, (ra, ())), env)
                        if keep is not None:
                            keep(load(q, (ra, ())), env)
                    if got != w:
                        raise Wrong('gives %s instead of %s for %s and %s (colours stored: %s and %s)' % (got, w, A, B, list(a), list(b or ())))
                    if kind == 'value' and counts(load(q, (ra, ())), env) != A or b is not None and counts(load(q, (rb, ())), env) != B:
                        raise Wrong('changes its operand')
                if not hit:
                    if any(holds(x.facts, env) for x in list(I.thrown) + list(I.aborted)):
                        raise Wrong('fails for %s and %s' % (A, B))
                    raise Unk('no result for %s and %s' % (A, B))
        ctx.ok(name, '', SM)

    def safe():
        try:
            go()
        except Wrong as w:
            ctx.bad(name, str(w), SM)
    ctx.attempt(name, safe, SM)


def grid(n, vals):
    tot = len(vals) ** n
    step = max(1, tot // 300)
    step += 1 if step > 1 and step % len(vals) == 0 else 0
    for k in range(0, tot, step):
        r = []
        for _ in range(n):
            r.append(vals[k % len(vals)])
            k //= len(vals)
        yield r


def blank(p):
    return State()


def multisets(ctx, p):
    M = 'SequenceMultiSet::'
    arr = [x for n in range(4) for x in itertools.combinations(range(NCOL), n)]
    fix = fn(p, M + 'fixNegative', 0)
    jobs = []

    def job(*a, **k):
        jobs.append(lambda: setop(ctx, p, *a, **k))
    for a in arr:
        n = '/' + ''.join(map(str, a))
        for b in arr:
            m = n + '/' + ''.join(map(str, b))
            job('multiset +=' + m, fn(p, M + 'operator+=', 1), a, b, lambda A, B: [x + y for x, y in zip(A, B)], 'self')
            job('multiset -=' + m, fn(p, M + 'operator-=', 1), a, b, lambda A, B: [max(0, x - y) for x, y in zip(A, B)], 'self', then=fix)
            job('multiset <=' + m, fn(p, M + 'operator<=', 1), a, b, lambda A, B: all(x <= y for x, y in zip(A, B)), 'value')
            job('multiset >=' + m, fn(p, M + 'operator>=', 1), a, b, lambda A, B: all(x >= y for x, y in zip(A, B)), 'value')
            job('multiset ==' + m, fn(p, M + 'operator==', 1), a, b, lambda A, B: A == B, 'value')
        job('multiset total' + n, fn(p, M + 'totalCount', 0), a, None, lambda A, B: sum(A), 'value', args=[])
        job('multiset highest' + n, fn(p, M + 'getHighestCount', 0), a, None, lambda A, B: max(A), 'value', args=[])
        job('multiset fixNegative' + n, fix, a, None, lambda A, B: [max(0, x) for x in A], 'self', args=[], neg=True)

        def kept(m, env):
            if any(term(fld(e, 'second'), env) <= 0 for e in seqof(fld(m, '_counts'))):
                raise Wrong('keeps an entry without tokens')
        job('multiset shrink' + n, fn(p, M + 'shrink', 0), a, None, lambda A, B: A, 'self', args=[], keep=kept)
        for k in (1, 2, 7):
            job('multiset *=%s/%d' % (n, k), fn(p, M + 'operator*=', 1), a, None, lambda A, B, k=k: [x * k for x in A], 'self', args=[C(k)])
        for c in range(NCOL):
            upd = lambda g, c: lambda A, B: [g(x, B) if i == c else x for i, x in enumerate(A)]
            job('multiset setCount%s/%d' % (n, c), fn(p, M + 'setCount', 2, 'int'), a, None, upd(lambda x, B: B, c), 'self', args=[C(2 * c + 1), T('c')])
            job('multiset addCount%s/%d' % (n, c), fn(p, M + 'addCount', 2, 'int'), a, None, upd(lambda x, B: x + B, c), 'self', args=[C(2 * c + 1), T('c')])
            cs = Obj(EN + 'ColorSequence', None, {('f', 'encodedValue'): C(2 * c + 1)})
            job('multiset getCount%s/%d' % (n, c), fn(p, M + 'getCount', 1), a, None, lambda A, B, c=c: A[c], 'value', args=[cs])
    return jobs


def coding(ctx, p, s0):
    """colours of a product <-> numbers"""
    def go(sizes):
        def g():
            try:
                code = codes(p, ctx, s0, sizes)
                tot = 1
                for n in sizes:
                    tot *= n
                if sorted(code.values()) != list(range(tot)):
                    raise Wrong('the colours of sizes %s are not numbered 0..%d' % (sizes, tot - 1))
                I = interp(p)
                dec = fn(p, 'ColorSequence::decode', 2)
                for c, k in code.items():
                    s = s0.copy()
                    s.store[('h', 'siz')] = seqlib.seq([C(n) for n in sizes])
                    s.store[('h', 'cs')] = Obj(EN + 'ColorSequence', None, {('f', 'encodedValue'): C(k)})
                    v, s = one(I, I.run(dec, ('p', ('h', 'cs'), ()), [('L', (('h', 'siz'), ())), C(tot)], s), 'decode')
                    got = tuple(num(x) for x in seqof(value(v, s)))
                    if got != c:
                        raise Wrong('colour %s of sizes %s is decoded as %s' % (c, sizes, got))
                ctx.note_interp(I, len(code))
                ctx.ok('coding %s' % (sizes,), '%d colours' % tot, CS)
            except Wrong as w:
                ctx.bad('coding %s' % (sizes,), str(w), CS)
        return lambda: ctx.attempt('coding %s' % (sizes,), g, CS)
    return [go(z) for z in ([1], [3], [2, 3], [3, 2], [2, 1, 3], [2, 3, 2], [4, 2, 3, 2])]


def run(ctx):
    ctx.rule('a compiled arc expression has the multiset of the expression for every binding: when evaluated, as a condition, when consumed and when produced')
    ctx.rule('the bounds, the demanded colours, the variables and the constraints on variables given for an arc expression hold for every binding')
    ctx.rule('a compiled guard is true exactly for the bindings that satisfy the guard')
    p = ctx.program(TUS)
    arcs, gs = c12.coloured(True)
    x, y = ('var', 'x'), ('var', 'y')
    one_, sub = lambda n, e: ('num', n, (e,)), lambda a, b: ('sub', a, b)
    arcs['A'] = arcs['A'] + [sub(one_(3, x), sub(one_(2, y), one_(1, x))), sub(one_(3, x), sub(one_(3, y), one_(2, ('con', ('A', 1))))), sub(one_(3, x), ('add', (sub(one_(2, y), one_(1, x)), one_(1, x)))),
                             ('scal', 2, ('scal', 3, one_(1, x))), ('scal', 2, ('add', (('scal', 3, one_(2, y)), one_(1, ('succ', x))))), sub(('scal', 3, one_(1, x)), ('scal', 2, sub(one_(1, y), one_(1, x))))]
    s0, raw, types, vs = load_doc(p)
    jobs = []
    for t, es in arcs.items():
        es = [e for e in es if str(c12.MAXU) not in repr(e) or e[0] == 'num']
        code = codes(p, ctx, s0, sizes_of(TYPES[t]))
        for i in range(0, len(es), 4):
            jobs.append(('arc', t, es[i:i + 4], code))
    for i in range(0, len(gs), 6):
        jobs.append(('guard', i, gs[i:i + 6]))

    jobs += multisets(ctx, p) + coding(ctx, p, s0)

    def go(j):
        if callable(j):
            j()
        elif j[0] == 'arc':
            arc(ctx, p, *j[1:])
        else:
            guard(ctx, p, *j[1:])
    ctx.parallel(jobs, go)
