"""C10: a query read from XML means what the query format says; malformed queries are refused."""
from ..qio import *
from ..xmldom import N, Dom

LEVEL = 'other'
MIN_OBLIGATIONS = 100
EXPLANATION = ('Abstract interpretation of QueryXMLParser::parse (and everything it calls, node constructors included) over documents built from every element of the '
               'query language: each element with every number of operands up to 3 and every position of its operands, nested in each other, with symbolic integer constants. '
               'The query tree that results on every path must mean what the element means (compared over a grid of valuations, temporal operators over all small transition '
               'systems); property order, identifiers and the selected subset are kept; malformed documents must not yield a query.')
TUS = ['src/PetriParse/QueryXMLParser.cpp', 'src/PetriEngine/PQL/Expressions.cpp', 'src/PetriEngine/PQL/Evaluation.cpp']
QP = 'QueryXMLParser'
VEC = 'std::vector<char, std::allocator<char>>'
WHERE = 'src/PetriParse/QueryXMLParser.cpp'


def interp(p):
    I = base_interp(p)
    I.ref_fields = tuple(I.ref_fields) + ('_string_set',)

    def buf(I, e, st, loc, ptr):
        if len(e['args']) >= 2 and 'istreambuf_iterator' in str(e['args'][0].get('t')):
            return [(seqlib.seq([C(60)]), st)]
        return None
    I.hooks['ctor:' + VEC] = buf

    def scan(I, e, st, loc, ptr):
        """sscanf of one number"""
        out = []
        if len(e['args']) != 3:
            return None
        for vs, s in I.evals(e['args'], st):
            f = vs[1]
            if not isconst(f) or vs[2][0] != 'p':
                return None
            fmt = cval(f).strip()
            if fmt not in SCAN:
                raise Unsupported('sscanf ' + fmt)
            bits, sg = SCAN[fmt]
            r = intparse(vs[0], bits, sg)
            s = s.copy()
            if r is None:
                if not isconst(vs[0]):
                    raise Unsupported('sscanf of ' + show(vs[0])[:40])
                out.append((C(0 if cval(vs[0]).strip() else -1), s))
            else:
                save(s, (vs[2][1], vs[2][2]), clamp(r, bits, sg))
                out.append((C(1), s))
        return out
    I.hooks['sscanf'] = scan
    for n, (bits, sg) in {'atoi': (32, True), 'atol': (64, True), 'atoll': (64, True)}.items():
        I.hooks[n] = I.hooks['std::' + n] = number(bits, sg, 0)
    for n, (bits, sg) in {'std::stoi': (32, True), 'std::stol': (64, True), 'std::stoll': (64, True), 'std::stoul': (64, False), 'std::stoull': (64, False)}.items():
        I.hooks[n] = number(bits, sg, None)
    def strto(I, e, st, loc, ptr):
        a = e['args']
        if len(a) != 3:
            return None
        out = []
        for vs, s in I.evals(a, st):
            if isconst(vs[2]) and cval(vs[2]) not in (10,):
                raise Unsupported('number base')
            text, end = vs[0], vs[1]
            r = intparse(text, 64, True)
            if r is None and not isconst(text):
                raise Unsupported('strtol of ' + show(text)[:40])
            if end[0] == 'p':
                s = s.copy()
                m = re.match(r'\s*[-+]?[0-9]+', cval(text)) if isconst(text) else None
                save(s, (end[1], end[2]), text if r is None else C(cval(text)[m.end():]) if m else C(''))
            elif not (isconst(end) and not cval(end)):
                raise Unsupported('end of number')
            out.append((C(0) if r is None else clamp(r, 64, True), s))
        return out
    for n in ('strtol', 'strtoll'):
        I.hooks[n] = I.hooks['std::' + n] = strto
    I.hooks['fprintf'] = I.hooks['std::fprintf'] = lambda I, e, st, loc, ptr: [(C(0), st)]
    return I


SCAN = {'%d': (32, True), '%i': (32, True), '%u': (32, False), '%ld': (64, True), '%lld': (64, True), '%li': (64, True), '%lu': (64, False), '%llu': (64, False)}


def clamp(v, bits, sg):
    if isnum(v):
        x = int(cval(v))
        x &= (1 << bits) - 1
        if sg and x >> (bits - 1):
            x -= 1 << bits
        return C(x)
    return v


def number(bits, sg, dflt):
    """conversion of text to a number; dflt: result for text that is none (None: throws, also out of range)"""
    def h(I, e, st, loc, ptr):
        out = []
        for v, s in I.eval(e['args'][0], st):
            r = intparse(v, bits, sg)
            if r is None:
                if not isconst(v):
                    raise Unsupported('number from ' + show(v)[:40])
                if dflt is None:
                    I.thrown.append(s)
                    continue
                r = C(dflt)
            elif dflt is None and v[0] == 't' and bits < 64:
                # out of range: throws
                lo, hi = C(-(1 << (bits - 1))), C((1 << (bits - 1)) - 1)
                for b1, s1 in I.decide_cmp(s, '<=', lo, v[2]) if hasattr(I, 'decide_cmp') else [(True, s)]:
                    s = s1
                r = v[2]
            out.append((clamp(r, bits, sg), s))
        return out
    return h


# ---------------------------------------------------------------- documents
def F(n):
    return N('is-fireable', N('transition', text=n))


def P(*names):
    return N('tokens-count', *[N('place', text=n) for n in names])


def K(v):
    return N('integer-constant', text=T('numtext', v) if isinstance(v, tuple) else str(v))


def doc(*props):
    return N('property-set', *props)


def prop_(id, *formula, tags=None):
    ks = [N('id', text=id)] if id is not None else []
    ks += [N('formula', *formula)]
    if tags:
        ks.append(tags)
    return N('property', *ks)


def conds(x, y, z):
    """every condition element over operands given as (element, meaning); with its meaning"""
    (a, ma), (b, mb), (c, mc) = x, y, z
    out = []
    for nm, m in (('invariant', ('AG', ma)), ('impossibility', ('not', ('EF', ma))), ('possibility', ('EF', ma)), ('control', ('control', ma)),
                  ('negation', ('not', ma)), ('not', ('not', ma))):
        out.append((N(nm, a), m))
    for nm, k in (('next', 'X'), ('globally', 'G'), ('finally', 'F')):
        out.append((N('exists-path', N(nm, a)), ('E' + k, ma)))
        out.append((N('all-paths', N(nm, a)), ('A' + k, ma)))
        out.append((N(nm, a), (k, ma)))
    u = lambda: N('until', N('before', a), N('reach', b))
    out += [(N('exists-path', u()), ('EU', ma, mb)), (N('all-paths', u()), ('AU', ma, mb)), (u(), ('U', ma, mb))]
    out += [(N('exists-path', a, name='t1'), ('path', 'E', 't1', ma)), (N('all-paths', a, name='t2'), ('path', 'A', 't2', ma)), (N('path-scope', a, name='t1'), ('sel', 't1', ma))]
    out += [(N('exists-path', a), ('E', ma)), (N('all-paths', a), ('A', ma))]
    for nms, k in ((('conjunction', 'and'), 'and'), (('disjunction', 'or'), 'or')):
        for nm in nms:
            out += [(N(nm, a), ma), (N(nm, a, b), (k, [ma, mb])), (N(nm, a, b, c), (k, [ma, mb, mc]))]
    out += [(N('exclusive-disjunction', a, b), ('or', [('and', [ma, ('not', mb)]), ('and', [('not', ma), mb])])), (N('implication', a, b), ('or', [('not', ma), mb])),
            (N('equivalence', a, b), ('or', [('and', [ma, mb]), ('and', [('not', ma), ('not', mb)])]))]
    return out


def fire(n):
    return ('or', [('fire', x) for x in n])


def basic():
    """conditions without condition operands"""
    out = [(N('deadlock'), ('dead',)), (N('true'), ('true',)), (N('false'), ('false',))]
    for ns in (['t0'], ['t0', 't1'], ['t1', 't0', 't2']):
        out.append((N('is-fireable', *[N('transition', text=n) for n in ns]), fire(ns)))
    return out


OPS = {'integer-eq': '==', 'integer-ne': '!=', 'integer-lt': '<', 'integer-le': '<=', 'integer-gt': '>', 'integer-ge': '>='}


def exprs(x, y, z):
    (a, ma), (b, mb), (c, mc) = x, y, z
    out = []
    for nm, k in (('integer-sum', 'sum'), ('integer-product', 'prod'), ('integer-difference', 'sub')):
        one = ma if k != 'sub' else ('sub', [('lit', C(0)), ma])
        out += [(N(nm, a), one), (N(nm, a, b), (k, [ma, mb])), (N(nm, a, b, c), (k, [ma, mb, mc]))]
    return out


def documents(I):
    """(name, formula element, meaning)"""
    k1, k2 = sym(I, 'k1', 'long'), sym(I, 'k2', 'long')
    A, B, D = (F('ta'), fire(['ta'])), (F('tb'), fire(['tb'])), (F('tc'), fire(['tc']))
    pa, pb, pc = (P('pa'), ('place', 'pa')), (P('pb'), ('place', 'pb')), (P('pc'), ('place', 'pc'))
    ka, kb = (K(k1), ('lit', k1)), (K(k2), ('lit', k2))
    out = list(basic())
    for op, o in OPS.items():
        out.append((N(op, pa[0], pb[0]), ('cmp', o, pa[1], pb[1])))
        out.append((N(op, pa[0], ka[0]), ('cmp', o, pa[1], ka[1])))
        out.append((N(op, ka[0], pa[0]), ('cmp', o, ka[1], pa[1])))
    ex = [(P('pa', 'pb'), ('sum', [pa[1], pb[1]])), (P('pb', 'pc', 'pa'), ('sum', [pb[1], pc[1], pa[1]])), (P(' pa\n'), pa[1]),
          (N('path-scope', pa[0], name='t1'), ('selx', 't1', pa[1]))]
    ex += [(P('pa', 'pa'), ('sum', [pa[1], pa[1]])), (P('pa', 'pb', 'pa'), ('sum', [pa[1], pb[1], pa[1]]))]
    ex += exprs(pa, pa, pb) + exprs(pa, pb, pa) + exprs(ka, ka, pa)
    ex += exprs(pa, pb, pc) + exprs(ka, pa, kb) + exprs(pa, ka, kb)
    for v in (0, 1, -1, (1 << 31) - 1, 1 << 31, (1 << 32) + 3, -(1 << 31) - 1):
        ex.append((K(v), ('lit', C(v))))
    ex.append((K(' 12 '), ('lit', C(12))))
    inner = exprs(pa, pb, pc)
    for i in inner:                     # one expression in the other, at either side
        ex += [y for y in exprs(i, ka, pb)] + [y for y in exprs(pb, i, ka) if len(y[0].kids) > 1]
    for x, m in ex:
        out.append((N('integer-le', x, pc[0]), ('cmp', '<=', m, pc[1])))
    comp = (N('integer-lt', pa[0], ka[0]), ('cmp', '<', pa[1], ka[1]))
    out += conds(A, B, D)
    out += conds(comp, A, B) + conds(A, A, B)
    out += conds((N('deadlock'), ('dead',)), B, comp)
    for y in conds(A, B, D):            # nesting
        out += [z for z in conds(y, D, B)]
        out += [z for z in conds(D, y, B) if len(z[0].kids) > 1 or z[0].name == 'until' or (z[0].kids and z[0].kids[0].name == 'until')]
    return out


def special(I):
    k1 = sym(I, 'k1', 'long')
    return [(N('k-safe', K(k1)), ('ksafe', ('lit', k1))), (N('k-safe', N('integer-sum', K(1), K(2))), ('ksafe', ('lit', C(3)))), (N('quasi-liveness'), ('ql',)),
            (N('stable-marking'), ('sm',)), (N('liveness'), ('live',)),
            (N('place-bound', N('place', text='pa')), ('EF', ('ub', ['pa']))), (N('place-bound', N('place', text='pb'), N('place', text=' pa ')), ('EF', ('ub', ['pb', 'pa'])))]


def malformed():
    a, b, c = F('ta'), F('tb'), F('tc')
    p, q = P('pa'), P('pb')
    cmp_ = lambda e: N('integer-le', e, q)
    out = [N('nosuch'), N('nosuch', a), N('conjunction'), N('and'), N('disjunction'), N('or'), N('negation'), N('negation', a, b), N('not'), N('not', a, b), N('next'),
           N('next', a, b), N('globally', a, b), N('globally'), N('finally', a, b), N('finally'), N('exists-path', a, b), N('exists-path'), N('all-paths', a, b), N('all-paths'),
           N('until', N('before', a)), N('until', a, b), N('until', N('foo', a), N('reach', b)), N('until', N('before', a), N('foo', b)), N('until', N('reach', a), N('before', b)), N('until', N('before', a, c), N('reach', b)),
           N('until', N('before', a), N('reach', b, c)), N('until', N('before'), N('reach', b)), N('until', N('before', a), N('reach')), N('until', N('before', a), N('reach', b), N('reach', c)),
           N('implication', a), N('implication', a, b, c), N('equivalence', a), N('equivalence', a, b, c), N('exclusive-disjunction', a), N('exclusive-disjunction', a, b, c),
           N('implication'), N('is-fireable'), N('is-fireable', N('place', text='ta')), N('is-fireable', N('transition', text='ta'), N('place', text='pa')),
           N('control'), N('control', a, b), N('path-scope', a), N('path-scope', a, b, name='t1'), N('invariant'), N('possibility'), N('impossibility'),
           N('invariant', p), N('conjunction', a, p), N('negation', p), N('disjunction', p), N('finally', K(1)),
           N('tokens-count', N('place', text='pa')), N('integer-constant', text='1')]
    for o in OPS:
        out += [N(o, p), N(o), N(o, p, q, K(1)), N(o, a, p), N(o, p, a)]
    for e in (N('integer-constant'), N('integer-constant', text='abc'), N('tokens-count'), N('tokens-count', N('transition', text='pa')), N('tokens-count', N('place')),
              N('tokens-count', N('place', text='pa'), N('transition', text='pb')), N('integer-sum'), N('integer-product'), N('integer-difference'), N('integer-difference', p, a), N('integer-sum', a, p), N('integer-product', p, a),
              N('path-scope', p), N('path-scope', p, q, name='t1'), N('nosuch', p), N('true')):
        out.append(cmp_(e))
    out += [N('k-safe'), N('k-safe', K(1), K(2)), N('k-safe', a), N('place-bound', N('transition', text='pa')), N('place-bound', N('place', text='pa'), N('place'))]
    return out


# ---------------------------------------------------------------- runs
def entry(p):
    fs = [f for f in p.fns.values() if f['q'] == QP + '::parse' and len(f['params']) == 2 and 'istream' in f['params'][0]['t']]
    if not fs:
        raise AnchorError('QueryXMLParser::parse not found')
    return fs[0]


def setup(st):
    for b in (True, False):
        r = ('h', 'const', b)
        st.store[r] = Obj(NS + 'BooleanCondition', None, {('f', 'value'): C(b), ('f', '_value'): C(b)})
        st.store[('g', NS + 'BooleanCondition::' + ('TRUE_CONSTANT' if b else 'FALSE_CONSTANT'))] = ('p', r, ())
    st.store[('h', 'dead')] = Obj(NS + 'DeadlockCondition', None, {})
    st.store[('g', NS + 'DeadlockCondition::DEADLOCK')] = ('p', ('h', 'dead'), ())


PARSER = ('h', 'parser')


def read(I, p, root, only=(), facts=None):
    """interpret the parser on a document"""
    st = State()
    st.facts = dict(facts or {})
    setup(st)
    Dom(I, root)
    st.store[('h', 'names')] = seqlib.seq([])
    st.store[PARSER] = Obj(QP, None, {('f', 'queries'): seqlib.seq([]), ('f', '_string_set'): ('rf', (('h', 'names'), ()))})
    st.store[('h', 'only')] = seqlib.seq([C(i) for i in only])
    st.store[('h', 'in')] = T('istream')
    return I.run(entry(p), ('p', PARSER, ()), [('L', (('h', 'in'), ())), ('L', (('h', 'only'), ()))], st)


def queries(st):
    q = get_step(st.store[PARSER], ('f', 'queries'))
    if not seqlib.conc(q):
        raise Unk('queries')
    return [{f: get_step(x, ('f', f)) for f in ('id', 'query', 'parsingResult')} for x in seqlib.items(q)]


def good(ctx, p, el, want):
    nm = repr(el)

    def go():
        I = interp(p)
        rs = read(I, p, doc(prop_('q1', el)))
        ctx.note_interp(I, len(rs))
        if I.thrown or I.aborted or I.nulls:
            ctx.bad(nm, 'a well-formed query is refused', WHERE)
            return
        if not rs:
            ctx.und(nm, 'no path', WHERE)
        for v, s in rs:
            try:
                qs = queries(s)
                if v == C(False) or len(qs) != 1:
                    ctx.bad(nm, 'a well-formed query is not read (%d queries, result %s)' % (len(qs), show(v)), WHERE)
                    continue
                got = Decode(s, {}).ptr(qs[0]['query'])
                r = differ(got, want, s.facts, {})
                ctx.check(nm, r is None, 'the query read %s' % r, WHERE)
            except Bad as ex:
                ctx.bad(nm, str(ex), WHERE)
            except Unk as ex:
                ctx.und(nm, 'result not understood: %s' % ex, WHERE)
    ctx.attempt(nm, go, WHERE)


def wrong(ctx, p, el):
    nm = 'malformed:%r' % el

    def go():
        I = interp(p)
        rs = read(I, p, doc(prop_('q1', el)))
        ctx.note_interp(I, len(rs))
        for v, s in rs:
            qs = queries(s)
            if v == C(False) or not qs or any(x['query'] == NULL for x in qs):
                continue
            ctx.bad(nm, 'a malformed query is accepted', WHERE)
            return
        ctx.check(nm, True if rs or I.thrown or I.aborted or I.nulls else None, 'no path', WHERE)
    ctx.attempt(nm, go, WHERE)


def sets(ctx, p):
    """several properties: all are read, in order, under their identifiers; a selection leaves the others out"""
    a, b, c = F('ta'), N('negation', F('tb')), N('deadlock')
    ms = [fire(['ta']), ('not', fire(['tb'])), ('dead',)]

    def sel(only):
        nm = 'set:%s' % (list(only) or 'all')

        def go():
            I = interp(p)
            rs = read(I, p, doc(prop_('first', a), prop_('second', b), prop_('third', c)), only)
            ctx.note_interp(I, len(rs))
            if I.thrown or I.aborted or I.nulls or not rs:
                ctx.check(nm, False if I.thrown or I.aborted or I.nulls else None, 'a well-formed property set is refused', WHERE)
                return
            for v, s in rs:
                qs = queries(s)
                if v != C(True) or len(qs) != 3:
                    ctx.bad(nm, '%d queries for 3 properties (result %s)' % (len(qs), show(v)), WHERE)
                    continue
                for i in range(3):
                    if only and i not in only:
                        ctx.check(nm + ':%d' % i, qs[i]['query'] == NULL, 'a property that is not selected is read', WHERE)
                        continue
                    try:
                        t = text(qs[i]['id'])
                        ctx.check(nm + ':id%d' % i, t == ['first', 'second', 'third'][i], 'property %d is given the identifier %s' % (i, t), WHERE)
                        r = differ(Decode(s, {}).ptr(qs[i]['query']), ms[i], s.facts, {})
                        ctx.check(nm + ':%d' % i, r is None, 'property %d %s' % (i, r), WHERE)
                    except (Bad, Unk) as ex:
                        ctx.check(nm + ':%d' % i, False if isinstance(ex, Bad) else None, str(ex), WHERE)
        ctx.attempt(nm, go, WHERE)
    for only in ((), (0,), (1,), (2,), (0, 2), (1, 2), (0, 1, 2)):
        sel(only)
    for nm, root in (('no-set', N('properties', prop_('q', a))), ('no-property', doc(N('query', N('id', text='q'), N('formula', a)))), ('no-id', doc(prop_(None, a))),
                     ('empty-id', doc(prop_('', a))), ('two-formulas', doc(prop_('q', a, b))), ('no-formula', doc(prop_('q'))),
                     ('second-bad', doc(prop_('q', a), prop_('r', N('conjunction')))), ('formula-missing', doc(N('property', N('id', text='q'))))):
        def go(root=root, nm=nm):
            I = interp(p)
            rs = read(I, p, root)
            ctx.note_interp(I, len(rs))
            bad = [v for v, s in rs if v != C(False)]
            ctx.check('set:' + nm, False if bad else True if rs or I.thrown or I.aborted or I.nulls else None, 'a malformed document is accepted', WHERE)
        ctx.attempt('set:' + nm, go, WHERE)


def run(ctx):
    ctx.rule('the query tree read for an element means what the query language says the element means, for every element, operand count and nesting of two')
    ctx.rule('properties keep their order, number and identifiers; unselected properties are not read; malformed elements and documents yield no query')
    p = ctx.program(TUS)
    I = base_interp(p)
    jobs = [('g', x) for x in documents(I) + special(I)] + [('m', x) for x in malformed()] + [('s',)]

    def go(j):
        if j[0] == 'g':
            good(ctx, p, *j[1])
        elif j[0] == 'm':
            wrong(ctx, p, j[1])
        else:
            sets(ctx, p)
    ctx.parallel(jobs, go)
