"""C13: evaluation of coloured expressions, multisets and colours"""
import itertools
from collections import Counter
from ..rule import *
from .. import seqlib, maplib
from ..smallmodel import term, holds, Unk
from . import c12
from .c12 import CN, TYPES, SIZE, VARS, BIND, fld, obj, strip, txt, num, seqof, typ, color, tree, Wrong, cev, mev, gev, val, dom, pnml, decls, cplace, ctrans, carc, DOT

LEVEL = 'exhaustive-abstraction'
MIN_OBLIGATIONS = 60
EXPLANATION = ('Abstract interpretation of EvaluationVisitor, Multiset and the colour types over every kind of coloured expression, for every binding of the variables; '
               'multiset operations are interpreted with symbolic token counts, for every arrangement of the stored entries.')
TUS = ['src/PetriParse/PNMLParser.cpp', 'src/PetriEngine/Colored/Colors.cpp', 'src/PetriEngine/Colored/EvaluationVisitor.cpp', 'src/PetriEngine/Colored/Multiset.cpp']
EV = 'src/PetriEngine/Colored/EvaluationVisitor.cpp'
MS = 'src/PetriEngine/Colored/Multiset.cpp'
CO = 'src/PetriEngine/Colored/Colors.cpp'
MAXU = (1 << 32) - 1


def interp(p):
    I = c12.interp(p)
    for n in ('EvaluationVisitor::evaluate', 'Multiset::operator='):
        I.hooks.pop(CN + n, None)
    I.hooks.pop('ctor:' + CN + 'Multiset', None)
    return I


def load_doc(p, *kids, more={}):
    """state after a document was read, the raw builder calls, the types and the variables by name"""
    I, rs = c12.read(p, pnml(*kids, decl=decls(more=more)))
    if len(rs) != 1 or I.thrown or I.aborted or I.nulls:
        raise Unk('the document is not read')
    s = rs[0][1].copy()
    raw = s.ghost['raw']
    types = {txt(a[0]): a[1] for n, a in raw if n == 'addColorType'}
    vs = {txt(fld(load(s, (strip(a[0])[1], strip(a[0])[2])), 'name')): a[0] for n, a in raw if n == 'addVariable'}
    return s, raw, types, vs


def pick(s, types, c):
    """pointer to colour (type name, number) of an enumeration"""
    t = strip(types[c[0]])
    return ('p', t[1], t[2] + (('f', '_colors'), ('i', C(c[1]))))


def context(s, types, vs, b):
    # members of reference type are seen through
    eq = Obj(CN + 'EquivalenceVec', None, {('f', '_equivalenceClasses'): seqlib.seq([]), ('f', '_diagonal'): C(False), ('f', '_diagonalTuplePositions'): seqlib.seq([])})
    s.store[('h', 'ctx')] = Obj(CN + 'ExpressionContext', None, {('f', 'binding'): maplib.mk_map([(vs[n], pick(s, types, c)) for n, c in b.items()]),
                                                                 ('f', 'colorTypes'): maplib.mk_map([(C(n), t) for n, t in types.items()]), ('f', 'placePartition'): eq})
    return ('L', (('h', 'ctx'), ()))


def colour_of(s, tptr, i):
    t = typ(s, tptr)
    return dom_index(t)[i]


def dom_index(t):
    """colours of a type by number: the first component of a product varies fastest"""
    if t[0] != 'prod':
        return dom(t)
    return [tuple(reversed(x)) for x in itertools.product(*[dom_index(y) for y in reversed(t[2])])]


def decode(s, m):
    """Multiset object -> (type or None, [(colour number, count term)])"""
    if not isinstance(m, Obj):
        raise Unk('multiset ' + show(m)[:60])
    es = []
    for e in seqof(fld(m, '_set')):
        es.append((num(fld(e, 'first')), fld(e, 'second')))
    return fld(m, '_type'), es


def counter(s, m):
    t, es = decode(s, m)
    r = Counter()
    ns = [i for i, _ in es]
    if len(set(ns)) != len(ns):
        raise Wrong('a colour is stored twice')
    if strip(t) == NULL:
        cs = None
    else:
        cs = dom_index(typ(s, t))
    for i, c in es:
        if cs is not None and i >= len(cs):
            raise Wrong('colour number %d of %d' % (i, len(cs)))
        r[cs[i] if cs is not None else ('dot', i)] += num(c)
    return +r


def evaluation(ctx, p, nm, kids, pick_arg, guard):
    fs = [f for f in p.fns.values() if f['q'] == CN + 'EvaluationVisitor::evaluate' and ('GuardExpression' in f['params'][0]['t']) == guard]
    if not fs:
        raise AnchorError('EvaluationVisitor::evaluate not found')
    f = fs[0]

    def go():
        s0, raw, types, vs = load_doc(p, *kids)
        for name, v in pick_arg(raw):
            v = strip(v)
            e = tree(s0, v)
            used = [n for n in VARS if "('var', %r)" % n in repr(e)]
            done = set()
            ok = True
            for b in BIND:
                key = tuple(b[n] for n in used)
                if key in done:
                    continue
                done.add(key)
                I = interp(p)
                s = s0.copy()
                c = context(s, types, vs, b)
                rs = I.run(f, None, [('L', (v[1], v[2])), c], s)
                ctx.note_interp(I, len(rs))
                try:
                    want = (gev if guard else mev)(e, b)
                except Wrong as w:
                    raise Unk(str(w))
                at = ', '.join('%s=%s%d' % ((n,) + b[n]) for n in used)
                if I.thrown or I.aborted or I.nulls or not rs:
                    if rs:
                        ctx.und(name, 'some paths fail', EV)
                    else:
                        ctx.bad(name, 'the evaluation fails for %s' % at, EV)
                    ok = False
                    break
                for r, s2 in rs:
                    try:
                        if guard:
                            if not isconst(r):
                                raise Unk('truth value ' + show(r)[:60])
                            got = bool(cval(r))
                        else:
                            got = counter(s2, r)
                    except Wrong as w:
                        ctx.bad(name, str(w), EV)
                        ok = False
                        break
                    if got != want:
                        ctx.bad(name, 'evaluates to %s instead of %s for %s' % (val(got), val(want), at), EV)
                        ok = False
                        break
                if not ok:
                    break
            if ok:
                ctx.ok(name, '%d bindings' % len(done), EV)
    ctx.attempt(nm, go, EV)


# ---------------------------------------------------------------- multisets with symbolic counts
def mk_ms(tptr, ids, tag):
    return Obj(CN + 'Multiset', None, {('f', '_set'): seqlib.seq([maplib.pair(C(i), T(tag + str(i))) for i in ids]), ('f', '_type'): tptr})


def method(p, q, npar=None, const=None, par=None):
    fs = [f for f in p.fns.values() if f['q'] == CN + q and (npar is None or len(f['params']) == npar) and (const is None or bool(f.get('const')) == const) and (par is None or par in f['params'][0]['t'])]
    if not fs:
        raise AnchorError(CN + q + ' not found')
    return fs[0]


def envs(a, b, vals):
    """assignments of the counts of two multisets; None: all of vals (sampled evenly when there are many)"""
    names = [T('a%d' % i) for i in a] + [T('b%d' % i) for i in b]
    tot = len(vals) ** len(names)
    step = max(1, tot // 250)
    step += 1 if step > 1 and step % len(vals) == 0 else 0
    for k in range(0, tot, step):
        e = {}
        for n in names:
            e[n] = vals[k % len(vals)]
            k //= len(vals)
        yield e


def counts(s, r, env, ncol):
    """multiset object -> count of every colour number under env"""
    t, es = decode(s, r)
    out = [0] * ncol
    seen = set()
    for i, c in es:
        if i in seen:
            raise Wrong('a colour is stored twice')
        seen.add(i)
        out[i] += term(c, env)
    return out


def setop(ctx, p, name, f, s0, tptr, a, b, want, kind, typed=True, arg=None):
    """f applied to the multiset with entries a (and the one with entries b); kind: what the result is"""
    ncol = 3

    def go():
        I = interp(p)
        s = s0.copy()
        ra, rb = ('h', 'msa'), ('h', 'msb')
        s.store[ra] = mk_ms(tptr if a or typed else NULL, a, 'a')
        s.store[rb] = mk_ms(tptr if b or typed else NULL, b, 'b')
        for n in [T('a%d' % i) for i in a] + [T('b%d' % i) for i in b]:
            I.note(n, 'unsigned int')
        args = [arg] if arg is not None else [('L', (rb, ()))] if b is not None and f['params'] else []
        rs = I.run(f, ('p', ra, ()), args, s)
        ctx.note_interp(I, len(rs))
        vals = (0, 1, 2, 7) if kind != 'scaled' else (0, 1, 3, 70000)
        for env in envs(a, b or (), vals):
            A = [env.get(T('a%d' % i), 0) if i in a else 0 for i in range(ncol)]
            B = [env.get(T('b%d' % i), 0) if i in (b or ()) else 0 for i in range(ncol)]
            w = want(A, B)
            hit = 0
            for r, s2 in rs:
                if not holds(s2.facts, env):
                    continue
                hit += 1
                try:
                    if kind == 'value':
                        got = term(r, env)
                        got = bool(got) if isinstance(w, bool) else got
                    else:
                        got = counts(s2, load(s2, (ra, ())) if kind == 'self' else r, env, ncol)
                except Wrong as x:
                    ctx.bad(name, '%s for %s and %s' % (x, A, B), MS)
                    return
                if got != w:
                    ctx.bad(name, 'gives %s instead of %s for counts %s and %s (entries stored as %s and %s)' % (got, w, A, B, list(a), list(b or ())), MS)
                    return
                if kind != 'self':
                    if counts(s2, load(s2, (ra, ())), env, ncol) != A or counts(s2, load(s2, (rb, ())), env, ncol) != B:
                        ctx.bad(name, 'changes its operand', MS)
                        return
            if not hit:
                fails = any(holds(x.facts, env) for x in list(I.thrown) + list(I.aborted))
                ctx.check(name, False if fails else None, 'fails for counts %s and %s' % (A, B), MS)
                return
        ctx.ok(name, '', MS)
    ctx.attempt(name, go, MS)


def multisets(ctx, p, s0, types):
    """jobs: closures"""
    arr = [x for n in range(4) for x in itertools.permutations(range(3), n)]
    few = [(), (0,), (2,), (0, 1), (2, 0), (1, 2, 0), (0, 1, 2)]
    ops = [('operator+', 1, lambda A, B: [x + y for x, y in zip(A, B)], 'result'), ('operator-', 1, lambda A, B: [max(0, x - y) for x, y in zip(A, B)], 'result'),
           ('operator+=', 1, lambda A, B: [x + y for x, y in zip(A, B)], 'self'), ('operator-=', 1, lambda A, B: [max(0, x - y) for x, y in zip(A, B)], 'self'),
           ('isSubsetOrEqTo', 1, lambda A, B: all(x <= y for x, y in zip(A, B)), 'value'), ('isSubsetOf', 1, lambda A, B: all(x <= y for x, y in zip(A, B)) and A != B, 'value')]
    jobs = []
    tp = types['A']
    for nm, n, want, kind in ops:
        f = method(p, 'Multiset::' + nm, n)
        for a in arr:
            for b in few:
                for typed in (True, False) if not a or not b else (True,):
                    jobs.append(lambda nm=nm, f=f, a=a, b=b, want=want, kind=kind, typed=typed: setop(ctx, p, '%s/%s/%s%s' % (nm, ''.join(map(str, a)), ''.join(map(str, b)), '' if typed else '/untyped'), f, s0, tp, a, b, want, kind, typed))
    for a in arr:
        jobs.append(lambda a=a: setop(ctx, p, 'empty/%s' % (a,), method(p, 'Multiset::empty', 0), s0, tp, a, (), lambda A, B: not any(A), 'value'))
        jobs.append(lambda a=a: setop(ctx, p, 'size/%s' % (a,), method(p, 'Multiset::size', 0), s0, tp, a, (), lambda A, B: sum(A), 'value'))
        for k in (0, 1, 3):
            jobs.append(lambda a=a, k=k: setop(ctx, p, 'operator*/%s/%d' % (a, k), method(p, 'Multiset::operator*', 1), s0, tp, a, (), lambda A, B: [x * k for x in A], 'scaled', True, C(k)))
            jobs.append(lambda a=a, k=k: setop(ctx, p, 'operator*=/%s/%d' % (a, k), method(p, 'Multiset::operator*=', 1), s0, tp, a, (), lambda A, B: [x * k for x in A], 'self', True, C(k)))
        for c in range(3):
            jobs.append(lambda a=a, c=c: setop(ctx, p, 'count/%s/%d' % (a, c), method(p, 'Multiset::operator[]', 1, True), s0, tp, a, (), lambda A, B: A[c], 'value', True, pick(s0, types, ('A', c))))
    def entries(n, a):
        nm = 'entries/%s/%s' % (n, a)

        def go():
            f = method(p, 'Multiset::Iterator::operator*', 0)
            cs = dom_index(typ(s0, types[n]))
            for k, i in enumerate(a):
                I = interp(p)
                s = s0.copy()
                s.store[('h', 'ms')] = mk_ms(types[n], a, 'a')
                s.store[('h', 'it')] = Obj(CN + 'Multiset::Iterator', None, {('f', '_ms'): ('p', ('h', 'ms'), ()), ('f', '_index'): C(k)})
                rs = I.run(f, ('p', ('h', 'it'), ()), [], s)
                ctx.note_interp(I, len(rs))
                if len(rs) != 1:
                    raise Unk('%d results' % len(rs))
                r, s = rs[0]
                if color(s, fld(r, 'first')) != cs[i] or fld(r, 'second') != T('a%d' % i):
                    ctx.bad(nm, 'entry %d is %s %s instead of %s %s' % (k, color(s, fld(r, 'first')), show(fld(r, 'second')), cs[i], 'a%d' % i), MS)
                    return
            ctx.ok(nm, '', MS)
        return lambda: ctx.attempt(nm, go, MS)
    jobs += [entries('A', a) for a in arr[1:]] + [entries('AR', (0, 5, 3)), entries('RAR', (7, 2, 11)), entries('dot', (0,))]
    return jobs


# ---------------------------------------------------------------- colours
def one(I, rs, what):
    if I.thrown or I.aborted or I.nulls:
        raise Wrong(what + ' fails')
    if len(rs) != 1:
        raise Unk('%d results' % len(rs))
    v, s = rs[0]
    if isinstance(v, tuple) and v and v[0] == 'LV':
        v = ('p', v[1][0], v[1][1])
    return strip(v), s


def fns(p, cls, name, par=None, npar=None):
    r = [f for f in p.fns.values() if f['q'] == CN + cls + '::' + name and (par is None or (f['params'] and par in f['params'][0]['t'])) and (npar is None or len(f['params']) == npar)]
    if not r:
        raise AnchorError(CN + cls + '::' + name + ' not found')
    return r[0]


def index(I, p, s, tptr, i):
    """pointer to colour i of a type"""
    o = obj(s, tptr)
    cls = 'ProductType' if o.cls.endswith('ProductType') else 'ColorType'
    return one(I, I.run(fns(p, cls, 'operator[]', 'unsigned long'), tptr, [C(i)], s), 'colour %d' % i)


def colours(ctx, p, s0, types):
    def succ(n, op, d):
        def go():
            t = strip(types[n])
            ty = typ(s0, t)
            cs = dom_index(ty)
            f = fns(p, 'Color', op)
            for i in range(len(cs)):
                I = interp(p)
                c, s = index(I, p, s0.copy(), t, i)
                if color(s, c) != cs[i]:
                    raise Wrong('colour %d is %s instead of %s' % (i, color(s, c), cs[i]))
                r, s = one(I, I.run(f, c, [], s), op)
                ctx.note_interp(I, 1)
                want = cs[(i + d) % len(cs)]
                if color(s, r) != want:
                    raise Wrong('of %s is %s instead of %s' % (cs[i], color(s, r), want))
                r2, s = index(I, p, s, t, (i + d) % len(cs))
                if r2 != r:
                    raise Wrong('of %s is a copy of the colour: equality of colours is by identity' % (cs[i],))
        return go

    def product(n):
        def go():
            t = strip(types[n])
            ty = typ(s0, t)
            cs = dom_index(ty)
            byc = fns(p, 'ProductType', 'getColor', 'Color')
            byi = fns(p, 'ProductType', 'getColor', 'int')
            szf = fns(p, 'ProductType', 'size', npar=0)
            tid = fns(p, 'Color', 'getTupleId')
            I = interp(p)
            v, s = one(I, I.run(szf, t, [], s0.copy()), 'size')
            if num(v) != len(cs):
                raise Wrong('%s has %s colours instead of %d' % (n, show(v), len(cs)))
            for i, c in enumerate(cs):
                I = interp(p)
                s = s0.copy()
                s.store[('h', 'vec')] = seqlib.seq([pick(s, types, x) for x in c])
                a, s = one(I, I.run(byc, t, [('L', (('h', 'vec'), ()))], s), 'getColor')
                if color(s, a) != c or num(fld(obj(s, a), '_id')) != i:
                    raise Wrong('the colour of components %s is %s with number %s' % (c, color(s, a), show(fld(obj(s, a), '_id'))))
                s = s.copy()
                s.store[('h', 'vec')] = seqlib.seq([C(x[1]) for x in c])
                b, s = one(I, I.run(byi, t, [('L', (('h', 'vec'), ()))], s), 'getColor')
                d, s = index(I, p, s, t, i)
                if not a == b == d:
                    raise Wrong('the colour of components %s is not one object: %s' % (c, [color(s, x) for x in (a, b, d)]))
                s = s.copy()
                s.store[('h', 'vec')] = seqlib.seq([])
                rs = I.run(tid, a, [('L', (('h', 'vec'), ()))], s)
                _, s = one(I, rs, 'getTupleId')
                ids = [num(x) for x in seqof(load(s, (('h', 'vec'), ())))]
                if ids != [x[1] for x in c]:
                    raise Wrong('the component numbers of %s are %s' % (c, ids))
                ctx.note_interp(I, 4)
            # components of other types denote no colour
            for bad in ([('A', 0)], [('R', 0), ('A', 0)], [('R', 1), ('R', 0), ('R', 0)], [('A', 0), ('R', 0), ('A', 0)], [('A', 0), ('R', 0), ('R', 0), ('R', 1)]):
                if tuple(x[0] for x in bad) == tuple(x[1] for x in ty[2]):
                    continue
                I = interp(p)
                s = s0.copy()
                s.store[('h', 'vec')] = seqlib.seq([pick(s, types, x) for x in bad])
                a, s = one(I, I.run(byc, t, [('L', (('h', 'vec'), ()))], s), 'getColor')
                if a != NULL:
                    raise Wrong('components %s, which are not of %s, give a colour' % (bad, n))
        return go
    todo = [('successor/' + n, succ(n, 'operator++', 1)) for n in types] + [('predecessor/' + n, succ(n, 'operator--', -1)) for n in types]
    todo += [('product/' + n, product(n)) for n in types if TYPES[n][0] == 'prod']

    def mk(nm, f):
        def g():
            try:
                f()
                ctx.ok(nm, '', CO)
            except Wrong as w:
                ctx.bad(nm, str(w), CO)
        return lambda: ctx.attempt(nm, g, CO)
    return [mk(n, f) for n, f in todo]


def run(ctx):
    ctx.rule('a coloured arc expression evaluates to the multiset it denotes and a guard to its truth value, for every binding')
    ctx.rule('sum, difference, multiple, count, inclusion and emptiness of multisets are those of their counts, whatever the order of the stored entries')
    ctx.rule('successor and predecessor are cyclic in the order of the type; colours of a product correspond one to one to tuples of components, and each colour is one object')
    p = ctx.program(TUS)
    arcs, gs = c12.coloured(True)
    x, y, a0 = ('var', 'x'), ('var', 'y'), ('con', ('A', 0))
    arcs['A'] += [('num', 2, (x, y)), ('num', 1, (x, x)), ('num', 3, (a0, ('succ', x), y)), ('sub', ('num', 4, (x, y)), ('num', 3, (y,)))]
    jobs = []
    for t, es in arcs.items():
        for i in range(0, len(es), 6):
            jobs.append(('arc', t, es[i:i + 6]))
    for i in range(0, len(gs), 6):
        jobs.append(('guard', i, gs[i:i + 6]))

    s0, raw, types, vs = load_doc(p)
    jobs += multisets(ctx, p, s0, types) + colours(ctx, p, s0, types)

    def go(j):
        if callable(j):
            j()
        elif j[0] == 'arc':
            t, es = j[1], j[2]
            kids = [cplace('p', t), ctrans('t')] + [carc('t', 'p', e) for e in es]
            evaluation(ctx, p, 'arc %s' % t, kids, lambda raw: zip(['arc %s %r' % (t, e) for e in es], [a[2] for n, a in raw if n == 'addOutputArc']), False)
        elif j[0] == 'guard':
            kids = [ctrans('t%d' % i, g) for i, g in enumerate(j[2])]
            evaluation(ctx, p, 'guard %d' % j[1], kids, lambda raw: zip(['guard %r' % (g,) for g in j[2]], [a[1] for n, a in raw if n == 'addTransition']), True)
    ctx.parallel(jobs, go)
