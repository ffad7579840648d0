"""C07: stubborn sets contain every transition that could make the query true, and are closed."""
import itertools
from ..trees import *
from ..smallmodel import term, holds, Unk
from . import c07s, c02

LEVEL = 'other'
MIN_OBLIGATIONS = 150
EXPLANATION = ('Path-sensitive abstract interpretation of the interesting-transition visitors per node class with opaque operands (recorded truth values and '
               'expression values symbolic): on every path the recorded requests (preset/postset of a place, operand to be increased/decreased) must contain what the '
               'definition of interesting transitions demands for every operand valuation consistent with the path. The closure, the pre/post/inhibitor tables and the '
               'set extraction are interpreted over bounded arc lists with symbolic weights, directions, inhibitors, markings and seen-flags.')
TUS = ['src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp', 'src/PetriEngine/Stubborn/StubbornSet.cpp',
       'src/PetriEngine/Stubborn/ReachabilityStubbornSet.cpp', 'src/PetriEngine/ReducingSuccessorGenerator.cpp', 'src/PetriEngine/PetriNet.cpp', 'src/PetriEngine/PQL/Evaluation.cpp', 'src/LTL/Stubborn/LTLEvalAndSetVisitor.cpp']
PE = 'PetriEngine::'
SS = PE + 'StubbornSet'
ITV = PE + 'InterestingTransitionVisitor'
VIS = ('h', 'vis')
MAXU = (1 << 32) - 1


class Itv:
    def __init__(self, ctx, p, cls=ITV):
        self.ctx, self.p, self.cls = ctx, p, cls
        self.F = Fields(p)
        self.n = 0

    def fresh(self, expr=False):
        self.n += 1
        return Leaf(self.n, expr)

    def interp(self, lay):
        I = Interp(self.p)
        seqlib.install(I)
        I.rec = 6
        I.max_depth = 90

        def role(vl):
            """which of the visitors: 'cond', 'incr' or 'decr'"""
            if vl == (VIS, ()):
                return 'cond'
            if vl[0] == VIS and len(vl[1]) == 1 and vl[1][0][1] in ('incr', 'decr'):
                return vl[1][0][1]
            if vl[0] in (('h', 'incr'), ('h', 'decr')):
                return vl[0][1]
            return None

        def hook(I, e, st, loc, ptr):
            out = []
            for vl, c, s in visit_child(I, e, st):
                if c not in lay.ptr or not isinstance(lay.ptr[c], Leaf):
                    return None
                r = role(vl)
                if r is None:
                    raise Unsupported('unknown visitor %s' % showloc(vl))
                s2 = s.copy()
                ng = None
                if r == 'cond':
                    ng = load(s, (VIS, (('f', 'negated'),)))
                    if not isconst(ng):
                        raise Unsupported('polarity ' + show(ng))
                    ng = bool(cval(ng))
                s2.ghost['req'] = s2.ghost.get('req', frozenset()) | {(r, lay.ptr[c].i, ng)}
                out.append((NULL, s2))
            return out
        I.hooks[VISIT] = hook

        def req(kind):
            def h(I, e, st, loc, ptr):
                out = []
                for v, s in I.eval(e['args'][0], st):
                    s2 = s.copy()
                    s2.ghost['req'] = s2.ghost.get('req', frozenset()) | {(kind, v, None)}
                    out.append((NULL, s2))
                return out
            return h
        for k in ('presetOf', 'postsetOf', 'postPresetOf', 'inhibitorPostsetOf'):
            I.hooks[SS + '::' + k] = req(k)

        def seen(kind):
            def h(I, e, st, loc, ptr):
                return [(I.note(T(kind, v), 'bool'), s) for v, s in I.eval(e['args'][0], st)]
            return h
        I.hooks[SS + '::seenPre'] = seen('seenPre')
        I.hooks[SS + '::seenPost'] = seen('seenPost')
        I.hooks[SS + '::getParent'] = lambda I, e, st, loc, ptr: [(('p', ('h', 'marking'), ()), st)]
        I.hooks[SS + '::leastDependentEnabled'] = lambda I, e, st, loc, ptr: [(I.note(T('someEnabled'), 'unsigned int'), st)]

        def refine(v):
            v = v[1][1] if v[0] == 'p' and v[1][0] == 'd' and not v[2] else v
            if v in lay.ptr and isinstance(lay.ptr[v], Leaf):
                raise Unsupported('examines the class of an operand')
        I.dyn_hook = lambda I, v, t, st: refine(v)
        I.virt_fallback = lambda e, st, ptr: refine(ptr)
        return I

    def visitor(self, st, negd):
        inc = Obj(ITV + '::IncrVisitor', None, {('f', 'decr'): ('p', VIS, (('f', 'decr'),)), ('f', 'closure'): C(True), ('f', '_stubborn'): T('stub')})
        dec = Obj(ITV + '::DecrVisitor', None, {('f', 'incr'): ('p', VIS, (('f', 'incr'),)), ('f', 'closure'): C(True), ('f', '_stubborn'): T('stub')})
        st.store[VIS] = Obj(self.cls, None, {('f', 'negated'): C(negd), ('f', 'closure'): C(True), ('f', '_stubborn'): T('stub'),
                                             ('f', 'incr'): inc, ('f', 'decr'): dec})

    def run(self, node, negd=False, recv='cond', prep=None, dyn=None):
        cls = self.cls if recv == 'cond' else ITV + ('::IncrVisitor' if recv == 'incr' else '::DecrVisitor')
        key = accept_fn(self.p, cls, NS + node.cls)
        if key is None or key not in self.p.fns:
            raise AnchorError('no _accept for ' + node.cls)
        f = self.p.fns[key]
        lay = Lay(self.p, self.F)
        st = State()
        self.visitor(st, negd)
        ptr = lay.put(st, node)
        if prep:
            prep(st, ptr)
        I = self.interp(lay)
        this = ('p', VIS, ()) if recv == 'cond' else ('p', VIS, (('f', recv),))
        rs = I.run(f, this, [ptr], st)
        self.ctx.note_interp(I, len(rs))
        return I, rs, f


def reqs(s):
    return s.ghost.get('req', frozenset())


def neg_restored(ctx, nm, s, negd, f):
    v = load(s, (VIS, (('f', 'negated'),)))
    ctx.check(nm + ':polarity restored', v == C(negd) if isconst(v) else None, 'the polarity is left as %s for the formulas visited next' % show(v), site(f))


def conditions(ctx, p, cls):
    X = Itv(ctx, p, cls)
    short = cls.split('::')[-1]
    # --- connectives and temporal operators
    for negd in (False, True):
        for c in ['NotCondition', 'GCondition', 'FCondition', 'EFCondition', 'ECondition', 'ACondition', 'XCondition', 'UntilCondition', 'EUCondition', 'AUCondition',
                  'AGCondition', 'AFCondition', 'EGCondition', 'EXCondition', 'AXCondition']:
            for sh in shapes(c, X.fresh):
                nm = '%s:%s@%s' % (short, c, negd)

                def go():
                    I, rs, f = X.run(sh, negd)
                    if not rs:
                        ctx.und(nm, 'no path', site(f))
                    for _, s in rs:
                        got = {(i, g) for k, i, g in reqs(s) if k == 'cond'}
                        ks = [k.i for k in sh.kids]
                        if c in ('NotCondition', 'GCondition'):
                            want = {(ks[0], not negd)}
                        elif c in BINARY:
                            want = {(ks[0], negd), (ks[0], not negd), (ks[1], negd)}
                        elif c in ('AGCondition', 'AFCondition', 'EGCondition', 'EXCondition', 'AXCondition'):
                            want = {(ks[0], negd)} if (ks[0], not negd) not in got else set()
                        else:
                            want = {(ks[0], negd)}
                        ctx.check(nm + ':operands', want <= got, 'an operand is not examined in the required polarity (missing %s)' % sorted(want - got), site(f))
                        neg_restored(ctx, nm, s, negd, f)
                ctx.attempt(nm, go)
        for c in LOGICAL:
            for sh in shapes(c, X.fresh):
                nm = '%s:%s/%d@%s' % (short, c, len(sh.kids), negd)

                def go():
                    def prep(st, ptr):
                        pass
                    I, rs, f = X.run(sh, negd)
                    R = results(p)
                    conj = (c == 'AndCondition') != negd       # all operands must come to hold (under the polarity)
                    ef = getter_field(p, NS + 'Condition', 'getSatisfied')
                    for _, s in rs:
                        got = {i for k, i, g in reqs(s) if k == 'cond' and g == negd}
                        other = {i for k, i, g in reqs(s) if k == 'cond' and g != negd}
                        ctx.check(nm + ':polarity', not (other - got), 'an operand is examined in the wrong polarity', site(f))
                        if not conj:
                            ctx.check(nm + ':all', got >= {k.i for k in sh.kids}, 'not every operand is examined although any of them may make the formula true', site(f))
                        else:
                            # a recorded value of each operand: which ones still have to change?
                            # (operands after the first one that decided the value were not re-evaluated: their record may be stale)
                            bad = None
                            for vals in itertools.product((True, False), repeat=len(sh.kids)):
                                tosat = [k for k, v in zip(sh.kids, vals) if v == negd]
                                if not tosat or any(k.i in got for k in tosat):
                                    continue
                                first = vals.index(negd)
                                if consistent(I, s, [('==', load(s, (('d', k.term), ef)), R['RTRUE' if v else 'RFALSE']) for k, v in list(zip(sh.kids, vals))[:first + 1]]):
                                    bad = vals
                            ctx.check(nm + ':one', bad is None, 'with operand values %s no operand that has to change is examined' % (bad,), site(f))
                        neg_restored(ctx, nm, s, negd, f)
                ctx.attempt(nm, go)
        # --- comparisons
        for c, op in (('LessThanCondition', '<'), ('LessThanOrEqualCondition', '<='), ('EqualCondition', '=='), ('NotEqualCondition', '!=')):
            sh = shapes(c, X.fresh)[0]
            nm = '%s:%s@%s' % (short, c, negd)

            def go():
                I, rs, f = X.run(sh, negd)
                ev = getter_field(p, NS + 'Expr', 'getEval')
                a, b = sh.kids
                real = op if not negd else {'<': '>=', '<=': '>', '==': '!=', '!=': '=='}[op]
                if not rs:
                    ctx.und(nm, 'no path', site(f))
                for _, s in rs:
                    va, vb = load(s, (('d', a.term), ev)), load(s, (('d', b.term), ev))
                    got = {(k, i) for k, i, g in reqs(s)}
                    for rel, sat in (('<', real in ('<', '<=', '!=')), ('==', real in ('<=', '>=', '==')), ('>', real in ('>', '>=', '!='))):
                        if sat or not consistent(I, s, [(rel, va, vb)]):
                            continue
                        if real in ('<', '<='):
                            want = {('decr', a.i), ('incr', b.i)}
                        elif real in ('>', '>='):
                            want = {('incr', a.i), ('decr', b.i)}
                        elif real == '==':
                            want = {('decr', a.i), ('incr', b.i)} if rel == '>' else {('incr', a.i), ('decr', b.i)}
                        else:
                            want = {('incr', a.i), ('decr', a.i), ('incr', b.i), ('decr', b.i)}
                        ctx.check(nm + ':when %s' % rel, want <= got, 'with left %s right the transitions that %s are not included' % (
                            rel, ', '.join('%s the %s side' % (k + 'ease', 'left' if i == a.i else 'right') for k, i in sorted(want - got))), site(f))
                    neg_restored(ctx, nm, s, negd, f)
            ctx.attempt(nm, go)
        # --- interval constraints
        for cneg in (False, True):
            for shape in (('l',), ('u',), ('lu',), ('=',), ('l', 'u'), ('lu', 'lu'), ('=', 'l'), ('u', '='), ('=', '=')):
                nm = '%s:interval[%s]%s@%s' % (short, ','.join(shape), '!' if cneg else '', negd)
                ctx.attempt(nm, lambda: interval(ctx, p, X, nm, shape, cneg, negd))
        # --- deadlock, bounds, constants
        nm = '%s:Deadlock@%s' % (short, negd)

        def go():
            sh = Node('DeadlockCondition', [])
            I, rs, f = X.run(sh, negd)
            ef = getter_field(p, NS + 'Condition', 'getSatisfied')
            R = results(p)
            for _, s in rs:
                t = load(s, (('h', 'node', 1), ef))
                if consistent(I, s, [('==', t, R['RFALSE'])]) and not negd:
                    ctx.check(nm, ('postPresetOf', T('someEnabled'), None) in reqs(s), 'a deadlock can only be reached after disabling some enabled transition, but none is considered', site(f))
                else:
                    ctx.ok(nm, '', site(f))
        ctx.attempt(nm, go)
        nm = '%s:UpperBounds@%s' % (short, negd)

        def go():
            PB = NS + 'UnfoldedUpperBoundsCondition::place_t'
            pl = getter_field(p, NS + 'UnfoldedUpperBoundsCondition', 'places')
            sh = Node('UnfoldedUpperBoundsCondition', [])
            mo = [T('maxed', 0), T('maxed', 1)]
            sh.extra = {pl[0][1]: seqlib.seq([Obj(PB, None, {('f', '_place'): C(4 + i), ('f', '_maxed_out'): mo[i]}) for i in (0, 1)])}
            I, rs, f = X.run(sh, negd)
            for _, s in rs:
                for i in (0, 1):
                    if consistent(I, s, [('==', mo[i], C(False))]):
                        ctx.check(nm + ':%d' % i, ('presetOf', C(4 + i), None) in reqs(s), 'a place whose bound can still grow is not considered', site(f))
        ctx.attempt(nm, go)


def interval(ctx, p, X, nm, shape, cneg, negd):
    CC = NS + 'CompareConjunction'
    cons, doms, pre = [], {}, []
    for i, k in enumerate(shape):
        lo, up, val = T('lo', i), T('up', i), T('tok', i)
        doms[val] = (0, 1, 2, 3, MAXU - 1, MAXU)
        if k == '=':
            up = lo
            doms[lo] = (0, 1, 2, MAXU - 1)
        else:
            if 'l' in k:
                doms[lo] = (1, 2, MAXU - 1)
            else:
                lo = C(0)
            if 'u' in k:
                doms[up] = (0, 1, 2, MAXU - 1)
            else:
                up = C(MAXU)
        cons.append((i, lo, up, val))
    sh = Node('CompareConjunction', [])
    sh.extra = {'_constraints': seqlib.seq([Obj(CC + '::cons_t', None, {('f', '_place'): C(i), ('f', '_lower'): lo, ('f', '_upper'): up}) for i, lo, up, _ in cons]),
                '_negated': C(cneg)}

    def prep(st, ptr):
        st.store[('h', 'marking')] = seqlib.seq([c[3] for c in cons])
    I, rs, f = X.run(sh, negd, prep=prep)
    if not rs:
        ctx.und(nm, 'no path', site(f))
    neg = negd != cneg
    for t in doms:
        I.note(t, 'unsigned int')
    syms = list(doms)
    for _, s in rs:
        got = {(k, v) for k, v, g in reqs(s)}
        seen = {(k[1][1], k[1][2]) for k, v in s.facts.items() if k[0] == 'b' and v is True and k[1][0] == 't' and k[1][1] in ('seenPre', 'seenPost')}

        def has(kind, i):
            return (kind, C(i)) in got or ({'presetOf': 'seenPre', 'postsetOf': 'seenPost'}[kind], C(i)) in seen
        bad = unk = None
        for combo in itertools.product(*[doms[t] for t in syms]):
            env = dict(zip(syms, combo))
            ivs = [(i, term(lo, env), term(up, env), env[v]) for i, lo, up, v in cons]
            if any(lo > up for _, lo, up, _ in ivs):
                continue
            h = holds(s.facts, env, free=('seenPre', 'seenPost'))
            if h is False:
                continue
            sat = all(lo <= v <= up for _, lo, up, v in ivs)
            why = None
            if not neg and not sat:
                okk = False
                for i, lo, up, v in ivs:
                    if v < lo and has('presetOf', i) or v > up and has('postsetOf', i):
                        okk = True
                if not okk:
                    why = 'no transition that brings a violated constraint closer is included'
            elif neg and sat:
                for i, lo, up, v in ivs:
                    if lo > 0 and not has('postsetOf', i):
                        why = 'transitions that could bring place %d below %d are not included' % (i, lo)
                    if up < MAXU and not has('presetOf', i):
                        why = 'transitions that could bring place %d above %d are not included' % (i, up)
            if why:
                if h is None:
                    unk = why
                else:
                    bad = '%s with %s' % (why, '; '.join('place %d has %d, constraint [%d,%d]' % (i, v, lo, up) for i, lo, up, v in ivs))
                    break
        if bad:
            ctx.bad(nm, bad, site(f))
        elif unk:
            ctx.und(nm, unk, site(f))
        else:
            ctx.ok(nm, '', site(f))
        neg_restored(ctx, nm, s, negd, f)


def expressions(ctx, p):
    X = Itv(ctx, p)
    F = X.F
    for recv in ('incr', 'decr'):
        flip = {'incr': 'decr', 'decr': 'incr'}
        setof = {'incr': 'presetOf', 'decr': 'postsetOf'}
        for np, ne in itertools.product(range(3), range(3)):
            for c in ('PlusExpr', 'MultiplyExpr'):
                nm = '%s:%s/%d places,%d operands' % (recv, c, np, ne)

                def go():
                    kids = [X.fresh(True) for _ in range(ne)]
                    sh = Node(c, kids)
                    cst = T('constant')
                    sh.extra = {F.of(c, 'places')[0][1]: seqlib.seq([Obj('std::pair', None, {('f', 'first'): C(3 + i), ('f', 'second'): NULL}) for i in range(np)]),
                                F.of(c, 'expressions')[0][1]: seqlib.seq([k.term for k in kids]), F.of(c, 'constant')[0][1]: cst}
                    I, rs, f = X.run(sh, recv=recv, prep=lambda st, ptr: [st.facts.__setitem__(('b', k.term), True) for k in kids])
                    I.note(cst, 'long')
                    if not rs:
                        ctx.und(nm, 'no path', site(f))
                    for _, s in rs:
                        got = {(k, v) for k, v, g in reqs(s)}
                        for sign, (rel, b) in (('positive', ('>', C(0))), ('negative', ('<', C(0)))):
                            if c == 'PlusExpr' and sign == 'negative':
                                continue
                            if not consistent(I, s, [(rel, cst, b)]):
                                continue
                            d = recv if (c == 'PlusExpr' or sign == 'positive') else flip[recv]
                            want = set()
                            if c == 'PlusExpr' or np + ne == 1:
                                want |= {(setof[d], C(3 + i)) for i in range(np)} | {(d, k.i) for k in kids}
                            elif ne == 0:
                                want |= {(setof[d], C(3 + i)) for i in range(np)}
                            else:
                                want |= {(setof[x], C(3 + i)) for i in range(np) for x in setof} | {(x, k.i) for k in kids for x in setof}
                            miss = want - got
                            ctx.check(nm + (':' + sign if c == 'MultiplyExpr' else ''), not miss,
                                      'to %sease the value, these must be considered, too: %s' % (recv, sorted(('%s place %s' % (k, show(v))) if k.endswith('Of') else '%sease operand' % k for k, v in miss)), site(f))
                ctx.attempt(nm, go)
        for n in (1, 2, 3):
            nm = '%s:SubtractExpr/%d' % (recv, n)

            def go():
                kids = [X.fresh(True) for _ in range(n)]
                sh = Node('SubtractExpr', kids)
                sh.extra = {F.of('SubtractExpr', 'expressions')[0][1]: seqlib.seq([k.term for k in kids])}
                I, rs, f = X.run(sh, recv=recv, prep=lambda st, ptr: [st.facts.__setitem__(('b', k.term), True) for k in kids])
                for _, s in rs:
                    got = {(k, v) for k, v, g in reqs(s)}
                    want = {(recv if i == 0 else flip[recv], k.i) for i, k in enumerate(kids)}
                    ctx.check(nm, want <= got, 'an operand of a difference is not considered in the right direction', site(f))
                if not rs:
                    ctx.und(nm, 'no path', site(f))
            ctx.attempt(nm, go)
        nm = '%s:MinusExpr' % recv

        def go():
            k = X.fresh(True)
            sh = Node('MinusExpr', [k])
            sh.extra = {'_expr': k.term}
            I, rs, f = X.run(sh, recv=recv)
            for _, s in rs:
                ctx.check(nm, (flip[recv], k.i) in {(a, b) for a, b, g in reqs(s)}, 'the operand of a unary minus is not considered', site(f))
        ctx.attempt(nm, go)
        nm = '%s:UnfoldedIdentifierExpr' % recv

        def go():
            sh = Node('UnfoldedIdentifierExpr', [])
            sh.extra = {F.of('UnfoldedIdentifierExpr', 'offset')[0][1]: C(7)}
            I, rs, f = X.run(sh, recv=recv)
            for _, s in rs:
                ctx.check(nm, (setof[recv], C(7), None) in reqs(s), 'the place is not considered', site(f))
        ctx.attempt(nm, go)


def recorded_width(ctx, p):
    """a recorded expression value is read back unchanged"""
    g, st_ = p.byq.get(NS + 'Expr::getEval', [None])[0], p.byq.get(NS + 'Expr::setEval', [None])[0]
    if g is None or st_ is None:
        ctx.und('recorded value', 'Expr::getEval/setEval not found')
        return

    def go():
        I = Interp(p)
        I.cast_hook = trunc_hook
        v = I.note(T('value'), 'long')
        st = State()
        st.store[('h', 'x')] = Obj(NS + 'Expr', None, {})
        w = width(st_['params'][0]['t'])
        for _, s in I.run(st_, ('p', ('h', 'x'), ()), [v if w == 64 else T('trunc', w, v)], st):
            for r, s2 in I.run(g, ('p', ('h', 'x'), ()), [], s):
                rw = width(g.get('ret', ''))
                ctx.check('recorded value', r == v and rw == 64, 'the recorded value of an expression is read back as %s (%s)' % (show(r), g.get('ret')), site(g))
    ctx.attempt('recorded value', go, site(g))


def run(ctx):
    ctx.rule('interesting transitions: every way to make a false formula true contains a requested transition')
    p = ctx.program(TUS)
    jobs = [('cond', ITV), ('cond', PE + 'AutomatonInterestingTransitionVisitor'), ('expr', None)] + [('set', n) for n in ('closure', 'sets', 'tables', 'extraction', 'generator')]

    def one(j):
        k, a = j
        if k == 'cond':
            ctx.attempt(a, lambda: conditions(ctx, p, a))
        elif k == 'expr':
            ctx.attempt(k, lambda: expressions(ctx, p))
        else:
            ctx.attempt(a, lambda: getattr(c07s, a)(ctx, p))
    ctx.parallel(jobs, one)
    recorded_width(ctx, p)
    # the visitors read the values recorded by evaluateAndSet
    c02.run(ctx)
