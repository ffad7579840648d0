"""C12: nets read from PNML are the nets the document describes."""
from ..xmldom import *
from .. import seqlib, maplib
from ..qio import sym, base_interp
from . import c10
from ..smallmodel import Unk
from collections import Counter
import itertools

LEVEL = 'exhaustive-abstraction'
MIN_OBLIGATIONS = 60
EXPLANATION = ('Abstract interpretation of PNMLParser::parse over documents built from every element of the net format (plain and coloured), with the calls to the net builder recorded. '
               'On every path the recorded places, tokens, transitions, players, arcs, weights, colour types, variables, guards, arc expressions and initial multisets must be those '
               'of the document; guards and arc expressions are compared under every binding of the variables. Unsupported or malformed documents must be refused.')
TUS = ['src/PetriParse/PNMLParser.cpp', 'src/PetriEngine/Colored/Colors.cpp']
CN = 'PetriEngine::Colored::'
AB = 'PetriEngine::AbstractPetriNetBuilder'
PARSER, BUILDER, DOT = ('h', 'parser'), ('h', 'builder'), ('h', 'dot')
WHERE = 'src/PetriParse/PNMLParser.cpp'
MAXU = (1 << 32) - 1


class Wrong(Exception):
    pass


# ---------------------------------------------------------------- decoding of what the parser built
def fld(o, n):
    return get_step(o, ('f', n))


def obj(s, v):
    v = strip(v)
    if v == NULL or v[0] != 'p':
        raise Unk('object ' + show(v)[:40])
    o = load(s, (v[1], v[2]))
    if isinstance(o, Obj) and o.cls is not None:
        return o
    raise Unk('object ' + show(o)[:60] if not isinstance(o, Obj) else 'object')


def strip(v):
    while v[0] == 't' and v[1] in ('cast', 'ptrcast'):
        v = v[-1]
    return v


def txt(v):
    if isconst(v) and isinstance(cval(v), str):
        return cval(v)
    raise Unk('text ' + show(v)[:40])


def num(v):
    if isnum(v):
        return int(cval(v))
    raise Unk('number ' + show(v)[:40])


def seqof(v):
    if not seqlib.conc(v):
        raise Unk('list ' + show(v)[:40])
    return list(seqlib.items(v))


def short(o):
    return o.cls.split('::')[-1]


def typ(s, v):
    """colour type: ('dot',) | ('enum', name, colours) | ('prod', name, component types)"""
    v = strip(v)
    if v == NULL:
        raise Wrong('a colour type is missing')
    if v == ('p', DOT, ()):
        return ('dot',)
    o = obj(s, v)
    if short(o) == 'ProductType':
        return ('prod', txt(fld(o, '_name')), tuple(typ(s, x) for x in seqof(fld(o, '_constituents'))))
    cs = seqof(fld(o, '_colors'))
    for i, c in enumerate(cs):
        if num(fld(c, '_id')) != i:
            raise Wrong('colour %d of %s has number %d' % (i, txt(fld(o, '_name')), num(fld(c, '_id'))))
    return ('enum', txt(fld(o, '_name')), tuple(txt(fld(c, '_colorName')) for c in cs))


def color(s, v):
    """colour: (type name, number), or the tuple of its components"""
    v = strip(v)
    if v == NULL:
        raise Wrong('a colour is missing')
    o = obj(s, v)
    t = typ(s, fld(o, '_colorType'))
    if t[0] == 'prod':
        return tuple(color(s, x) for x in seqof(fld(o, '_tuple')))
    return ('dot' if t == ('dot',) else t[1], num(fld(o, '_id')))


def tree(s, v):
    v = strip(v)
    if v == NULL:
        return None
    o = obj(s, v)
    c = short(o)
    if c == 'DotConstantExpression':
        return ('dot',)
    if c == 'VariableExpression':
        x = fld(o, '_variable')
        if strip(x) == NULL or not (strip(x)[0] == 'p'):
            raise Wrong('an undeclared variable is used')
        x = load(s, (strip(x)[1], strip(x)[2]))
        return ('var', txt(fld(x, 'name')))
    if c == 'UserOperatorExpression':
        return ('con', color(s, fld(o, '_userOperator')))
    if c in ('SuccessorExpression', 'PredecessorExpression'):
        return ('succ' if c[0] == 'S' else 'pred', tree(s, fld(o, '_color')))
    if c == 'TupleExpression':
        return ('tup', tuple(tree(s, x) for x in seqof(fld(o, '_colors'))), typ(s, fld(o, '_colorType')))
    if c in CMP:
        return (CMP[c], tree(s, fld(o, '_left')), tree(s, fld(o, '_right')))
    if c in ('AndExpression', 'OrExpression'):
        return (c[:-10].lower(), (tree(s, fld(o, '_left')), tree(s, fld(o, '_right'))))
    if c == 'NumberOfExpression':
        return ('num', num(fld(o, '_number')), tuple(tree(s, x) for x in seqof(fld(o, '_color'))))
    if c == 'AddExpression':
        return ('add', tuple(tree(s, x) for x in seqof(fld(o, '_constituents'))))
    if c == 'SubtractExpression':
        return ('sub', tree(s, fld(o, '_left')), tree(s, fld(o, '_right')))
    if c == 'ScalarProductExpression':
        return ('scal', num(fld(o, '_scalar')), tree(s, fld(o, '_expr')))
    raise Unk('expression ' + c)


CMP = {'LessThanExpression': 'lt', 'LessThanEqExpression': 'le', 'EqualityExpression': 'eq', 'InequalityExpression': 'ne'}
TYPES = {'A': ('enum', 'A', ('a0', 'a1', 'a2')), 'R': ('enum', 'R', ('1', '2')), 'W': ('enum', 'W', ('2', '3', '4', '5')), 'C': ('enum', 'C', ('c0', 'a1')), 'dot': ('dot',)}
TYPES['AR'] = ('prod', 'AR', (TYPES['A'], TYPES['R']))
TYPES['RAR'] = ('prod', 'RAR', (TYPES['R'], TYPES['A'], TYPES['R']))
TYPES['AA'] = ('prod', 'AA', (TYPES['A'], TYPES['A']))
TYPES['AW'] = ('prod', 'AW', (TYPES['A'], TYPES['W']))
VARS = {'x': 'A', 'y': 'A', 'r': 'R'}
SIZE = {'A': 3, 'R': 2, 'W': 4, 'C': 2, 'dot': 1}
BIND = [dict(zip(VARS, [(t, i) for t, i in zip(VARS.values(), v)])) for v in itertools.product(*[range(SIZE[t]) for t in VARS.values()])]


# ---------------------------------------------------------------- meaning of terms (document terms and built terms alike)
def tname(c):
    return c[0] if isinstance(c[0], str) else tuple(tname(x) for x in c)


def cev(e, b):
    """list of colours of a term"""
    k = e[0]
    if k == 'dot':
        return [('dot', 0)]
    if k == 'var':
        return [b[e[1]]]
    if k == 'con':
        return [e[1]]
    if k in ('succ', 'pred'):
        return [(t, (i + (1 if k == 'succ' else -1)) % SIZE[t]) for t, i in cev(e[1], b)]
    if k == 'tup':
        r = [tuple(x) for x in itertools.product(*[cev(y, b) for y in e[1]])]
        if len(e) > 2 and (e[2][0] != 'prod' or tuple(base(t) for t in e[2][2]) != tname(r[0])):
            raise Wrong('a tuple has the wrong product type')
        return r
    if k == 'all':
        return dom(TYPES[e[1]])
    if k == 'part':
        return list(e[1])
    if k == 'plus':
        return [c for x in e[1] for c in cev(x, b)]
    raise Unk('colour term ' + k)


def base(t):
    return 'dot' if t == ('dot',) else t[1] if t[0] == 'enum' else tuple(base(x) for x in t[2])


def dom(t):
    if t == ('dot',):
        return [('dot', 0)]
    if t[0] == 'enum':
        return [(t[1], i) for i in range(len(t[2]))]
    return [tuple(x) for x in itertools.product(*[dom(y) for y in t[2]])]


def mev(e, b):
    k = e[0]
    if k == 'num':
        r = Counter()
        for x in e[2]:
            for c in cev(x, b):
                r[c] += e[1]
        return +r
    if k == 'add':
        r = Counter()
        for x in e[1]:
            r += mev(x, b)
        return r
    if k == 'sub':
        return mev(e[1], b) - mev(e[2], b)
    if k == 'scal':
        return +Counter({c: n * e[1] for c, n in mev(e[2], b).items()})
    if k in ('tup', 'all'):
        return Counter(cev(e, b))
    raise Unk('arc term ' + k)


def gev(e, b):
    k = e[0]
    if k in ('and', 'or'):
        return (all if k == 'and' else any)([gev(x, b) for x in e[1]])
    if k == 'not':
        return not gev(e[1], b)
    l, r = cev(e[1], b), cev(e[2], b)
    if len(l) != 1 or len(r) != 1 or tname(l[0]) != tname(r[0]):
        raise Wrong('colours of different types are compared')
    l, r = l[0], r[0]
    return {'lt': l < r, 'le': l <= r, 'gt': l > r, 'ge': l >= r, 'eq': l == r, 'ne': l != r}[k]


def same(f, want, got):
    if (want is None) != (got is None):
        return 'is missing' if got is None else 'is present although none was given'
    if want is None:
        return None
    for b in BIND:
        w, g = f(want, b), f(got, b)
        if w != g:
            return 'has the value %s instead of %s for %s' % (val(g), val(w), ', '.join('%s=%s%d' % ((n,) + c) for n, c in b.items()))
    return None


def val(x):
    if isinstance(x, Counter):
        return '{' + ', '.join("%d'%s" % (n, c) for c, n in sorted(x.items(), key=str)) + '}'
    return str(x)


# ---------------------------------------------------------------- terms as XML
ELEM = {'lt': ('lessthan', 'lt'), 'gt': ('greaterthan', 'gt'), 'le': ('lessthanorequal', 'leq'), 'ge': ('greaterthanorequal', 'geq'), 'eq': ('equality', 'eq'), 'ne': ('inequality', 'neq')}


def st_(x):
    return N('subterm', x)


def xml(e, v=0):
    k = e[0]
    X = lambda x: st_(xml(x, v))
    if k == 'dot':
        return N('dotconstant')
    if k == 'var':
        return N('variable', refvariable=e[1])
    if k == 'con':
        t, i = e[1]
        if t in ('R', 'W'):
            cs = TYPES[t][2]
            return N('finiteintrangeconstant', N('finiteintrange', start=cs[0], end=cs[-1]), value=cs[i])
        return N('useroperator', declaration=TYPES[t][2][i])
    if k == 'part':
        return N('useroperator', declaration=e[2])
    if k in ('succ', 'pred'):
        return N('successor' if k == 'succ' else 'predecessor', X(e[1]))
    if k == 'tup':
        return N('tuple', *[X(x) for x in e[1]])
    if k == 'plus':
        return N('add', *[X(x) for x in e[1]])
    if k == 'all':
        return N('all', N('usersort', declaration=e[1]))
    if k == 'num':
        if e[1] == 1 and v == 1:
            return N('numberof', *[X(x) for x in e[2]])
        return N('numberof', st_(N('numberconstant', N('positive'), value=str(e[1]))), *[X(x) for x in e[2]])
    if k == 'add':
        return N('add', *[X(x) for x in e[1]])
    if k == 'sub':
        return N('subtract', *[X(x) for x in flat(e)])
    if k == 'scal':
        return N('scalarproduct', st_(N('numberconstant', N('positive'), value=str(e[1]))), X(e[2]))
    if k in ('and', 'or'):
        return N(k, *[X(x) for x in e[1]])
    if k == 'not':
        return N('not', X(e[1]))
    return N(ELEM[k][v], X(e[1]), X(e[2]))


def flat(e):
    return (flat(e[1]) if e[1][0] == 'sub' else [e[1]]) + [e[2]]


# ---------------------------------------------------------------- documents
def decls(order=('A', 'R', 'W', 'dot', 'AR', 'RAR', 'AA', 'AW'), part=False, more={}):
    out = []
    for n in order:
        t = TYPES[n]
        if n in ('A', 'C'):
            out.append(N('namedsort', N('cyclicenumeration', *[N('feconstant', id=c, name='nm ' + c) for c in t[2]]), id=n, name=n))
        elif n in ('R', 'W'):
            out.append(N('namedsort', N('finiteintrange', start=t[2][0], end=t[2][-1]), id=n, name=n))
        elif n == 'dot':
            out.append(N('namedsort', N('dot'), id='dot', name='dot'))
        else:
            out.append(N('namedsort', N('productsort', *[N('usersort', declaration=x[1]) for x in t[2]]), id=n, name=n))
    for v, t in list(VARS.items()) + list(more.items()):
        out.append(N('variabledecl', N('usersort', declaration=t), id=v, name=v))
    if part:
        out.append(N('partition', N('usersort', declaration='A'), N('partitionelement', N('useroperator', declaration='a0'), N('useroperator', declaration='a2'), id='P1'),
                     N('partitionelement', N('useroperator', declaration='a1'), id='P2'), id='Part'))
    return N('declaration', N('structure', N('declarations', *out)))


def cplace(n, t, m=None, v=0):
    ks = [N('name', N('text', text='name of ' + n)), N('type', N('text', text=t), N('structure', N('usersort', declaration=t)))]
    if m is not None:
        ks.append(N('hlinitialMarking', N('text', text='-'), N('structure', xml(m, v))))
    return N('place', *ks, id=n)


def carc(a, b, e, v=0):
    return N('arc', N('hlinscription', N('text', text='-'), N('structure', xml(e, v))), id=a + b, source=a, target=b)


def ctrans(n, g=None, v=0):
    return N('transition', *([N('condition', N('structure', xml(g, v)))] if g is not None else []), id=n)


def pnml(*kids, decl=None, top=False):
    net = N('net', *([decl] if decl is not None and not top else []), N('page', *kids, id='page'), id='n', type='x')
    return N('pnml', *([decl] if decl is not None and top else []), net)


# ---------------------------------------------------------------- interpretation
def interp(p):
    I = c10.interp(p)
    old = I.std_hook

    def text(I, e, st, loc, ptr):
        if e.get('name') in ('begin', 'cbegin', 'end', 'cend') and not e['args'] and loc is not None:
            v = load(st, loc)
            if isconst(v) and isinstance(cval(v), str):
                return [(seqlib.it(loc, 0 if 'begin' in e['name'] else len(cval(v))), st)]
        return old(I, e, st, loc, ptr)
    I.std_hook = text

    def rec(name):
        def h(I, e, st, loc, ptr):
            out = []
            for vs, s in I.evals(e['args'], st):
                s = s.copy()
                try:
                    a = args(I, s, name, vs, e)
                except Wrong as ex:
                    a = [('wrong', str(ex))]
                s.ghost['calls'] = s.ghost.get('calls', ()) + ((name, tuple(a)),)
                s.ghost['raw'] = s.ghost.get('raw', ()) + ((name, tuple(vs)),)
                if name == 'addToColorType':
                    l = (strip(vs[0])[1], strip(vs[0])[2] + (('f', '_constituents'),))
                    save(s, l, seqlib.seq(seqof(load(s, l)) + [vs[1]]))
                out.append((NULL, s))
            return out
        return h
    for n in ('addPlace', 'addTransition', 'addInputArc', 'addOutputArc', 'addColorType', 'addVariable', 'addToColorType', 'addTokens', 'sort', 'enableColors', 'enablePartition'):
        I.hooks[AB + '::' + n] = rec(n)
    I.hooks[CN + 'ColorType::dotInstance'] = lambda I, e, st, loc, ptr: [(('p', DOT, ()), st)]

    def evaluate(I, e, st, loc, ptr):
        out = []
        for l, s in I.lv(e['args'][0], st):
            for vs, s2 in I.evals(e['args'][1:], s):
                out.append((T('mset', Frozen(tree(s2, ('p', l[0], l[1])))), s2))
        return out
    I.hooks[CN + 'EvaluationVisitor::evaluate'] = evaluate
    I.hooks['ctor:' + CN + 'Multiset'] = lambda I, e, st, loc, ptr: [(T('mset', Frozen(('add', ()))), st)] if not e.get('args') else [(mset(vs), s) for vs, s in I.evals(e['args'], st)]

    def assign(I, e, st, loc, ptr):
        out = []
        for vs, s in I.evals(e['args'][-1:], st):
            s = s.copy()
            save(s, loc, mset(vs))
            out.append((('LV', loc), s))
        return out
    I.hooks[CN + 'Multiset::operator='] = assign
    I.hooks['std::to_string'] = lambda I, e, st, loc, ptr: [(C(str(int(cval(v)))) if isnum(v) else T('to_string', v), s) for v, s in I.eval(e['args'][0], st)]
    for n, f in (('isdigit', str.isdigit), ('isblank', lambda c: c in ' \t'), ('isspace', str.isspace), ('isalpha', str.isalpha), ('isalnum', str.isalnum)):
        I.hooks[n] = I.hooks['std::' + n] = (lambda f: lambda I, e, st, loc, ptr: [(C(int(f(chr(int(cval(v)))))) if isnum(v) else T('ctype', v), s) for v, s in I.eval(e['args'][0], st)])(f)
    I.hooks['atof'] = I.hooks['std::atof'] = lambda I, e, st, loc, ptr: [(T('real'), s) for v, s in I.eval(e['args'][0], st)]
    return I


def mset(vs):
    if len(vs) == 1 and isinstance(vs[0], tuple) and vs[0][:2] == ('t', 'mset'):
        return vs[0]
    raise Unk('multiset')


class Frozen:
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Frozen) and o.t == self.t

    def __hash__(self):
        return hash(repr(self.t))

    def __repr__(self):
        return repr(self.t)


def marking(ctx, p, nm, root, want):
    """a marking document read for a net whose colour types are known"""
    def go():
        fs = [f for f in p.fns.values() if f['q'] == 'PNMLParser::parseMarking']
        if not fs:
            raise AnchorError('PNMLParser::parseMarking not found')
        I, rs = read(p, pnml(decl=decls()))
        if len(rs) != 1:
            raise Unk('declarations')
        s = rs[0][1].copy()
        s.store[('h', 'cts')] = maplib.mk_map([(C(a[0]), a[1]) for n, a in s.ghost['calls'] if n == 'addColorType'])
        s.store[('h', 'doc')] = Obj('rapidxml::xml_document<char>', None, {})
        s.ghost['calls'] = ()
        D = Dom(I, root)
        D.doc = (('h', 'doc'), ())
        save(s, (PARSER, (('f', 'placeTypeContext'),)), C(''))
        rs = I.run(fs[0], ('p', PARSER, ()), [('L', (('h', 'doc'), ())), ('p', BUILDER, ()), ('p', ('h', 'cts'), ())], s)
        ctx.note_interp(I, len(rs))
        if want is None:
            ctx.check(nm, not rs, 'a malformed marking is accepted', WHERE)
            return
        if I.thrown or I.aborted or I.nulls:
            ctx.bad(nm, 'a well-formed marking is refused', WHERE)
            return
        for _, s in rs:
            got = [a for n, a in s.ghost['calls'] if n == 'addTokens']
            d = None
            if [a[0] for a in got] != [n for n, _ in want]:
                d = 'tokens are added to %s' % [a[0] for a in got]
            else:
                for a, (n, e) in zip(got, want):
                    x = same(mev, e, a[1])
                    d = d or (x and 'the marking of %s %s' % (n, x))
            ctx.check(nm, d is None, d, WHERE)
    ctx.attempt(nm, go, WHERE)


def args(I, s, name, vs, e):
    """arguments of a builder call, decoded"""
    ps = e['fn']
    if name == 'addPlace':
        if len(vs) == 4:
            return [txt(vs[0]), vs[1]]
        m = vs[2]
        if isinstance(m, tuple) and m[0] == 't' and m[1] == 'mset':
            return [txt(vs[0]), typ(s, vs[1]), m[2].t]
        raise Unk('marking ' + show(m)[:40])
    if name == 'addTransition':
        return [txt(vs[0]), vs[1]] if len(vs) == 4 else [txt(vs[0]), vs[2], tree(s, vs[1])]
    if name == 'addInputArc':
        if 'shared_ptr' in ps or 'ArcExpression' in ps:
            return [txt(vs[0]), txt(vs[1]), 'col', tree(s, vs[2]), vs[3]]
        return [txt(vs[0]), txt(vs[1]), 'pt', vs[2], vs[3]]
    if name == 'addOutputArc':
        if 'shared_ptr' in ps or 'ArcExpression' in ps:
            return [txt(vs[0]), txt(vs[1]), 'col', tree(s, vs[2])]
        return [txt(vs[0]), txt(vs[1]), 'pt', vs[2]]
    if name == 'addTokens':
        return [txt(vs[0]), mset(vs[1:])[2].t]
    if name == 'addColorType':
        return [txt(vs[0]), vs[1]]
    if name == 'addVariable':
        v = load(s, (strip(vs[0])[1], strip(vs[0])[2]))
        return [txt(fld(v, 'name')), fld(v, 'colorType')]
    return []


def entry(p):
    fs = [f for f in p.fns.values() if f['q'] == 'PNMLParser::parse' and len(f['params']) == 2]
    if not fs:
        raise AnchorError('PNMLParser::parse not found')
    return fs[0]


def read(p, root, facts=None):
    I = interp(p)
    st = State()
    st.facts = dict(facts or {})
    Dom(I, root)
    st.store[DOT] = Obj(CN + 'ColorType', None, {('f', '_name'): C('dot'), ('f', '_colors'): seqlib.seq([
        Obj(CN + 'Color', None, {('f', '_tuple'): seqlib.seq([]), ('f', '_colorType'): ('p', DOT, ()), ('f', '_colorName'): C('dot'), ('f', '_id'): C(0), ('f', '_displayName'): C('')})])})
    st.store[BUILDER] = Obj(AB, None, {})
    st.store[('h', 'in')] = T('istream')
    e = seqlib.seq([])
    st.store[PARSER] = Obj('PNMLParser', None, {('f', n): e for n in ('id2name', 'arcs', '_transitions', 'colorTypes', 'variables', 'queries', 'partitions', 'missingCTs')})
    for n in ('placeTypeContext', 'tid'):
        save(st, (PARSER, (('f', n),)), C(''))
    save(st, (PARSER, (('f', 'builder'),)), NULL)
    return I, I.run(entry(p), ('p', PARSER, ()), [('L', (('h', 'in'), ())), ('p', BUILDER, ())], st)


ADD = ('addPlace', 'addTransition', 'addInputArc', 'addOutputArc')


def compare(s, want):
    """difference between the recorded calls and the wanted ones, or None"""
    calls = s.ghost.get('calls', ())
    for n, a in calls:
        if a and isinstance(a[0], tuple) and a[0][0] == 'wrong':
            return a[0][1]
    idx = [i for i, (n, a) in enumerate(calls) if n in ADD]
    if not any(n == 'sort' for n, a in calls[(idx[-1] + 1 if idx else 0):]):
        return 'the net is not sorted after its last element was added'
    for n in ADD:
        w = sorted((x for x in want if x[0] == n), key=lambda x: str(x[1][:2]) + repr(x))
        g = [a for m, a in calls if m == n]
        if len(w) != len(g):
            return '%d calls of %s for %d elements: %s' % (len(g), n, len(w), [x[:2] for x in g])
        g = list(g)
        for _, x in w:
            err = None
            for y in g:
                d = diff(s, n, x, y)
                if d is None:
                    g.remove(y)
                    break
                err = err if err and y[0] != x[0] else d if y[0] == x[0] else err
            else:
                return err or '%s %s is missing' % (n, x[:2])
    pos = {}
    for i, (n, a) in enumerate(calls):
        if n in ('addPlace', 'addTransition'):
            pos[a[0]] = i
        elif n in ('addInputArc', 'addOutputArc'):
            for y in a[:2]:
                if y not in pos:
                    return 'an arc of %s is added before the node' % y
    return None


def rng_ok(v, w, s):
    """value v of a call equals the wanted number w"""
    return v == C(w) if isinstance(w, int) and not isinstance(w, bool) else v in (C(w), C(int(w))) if isinstance(w, bool) else v == w or linear(v, s) == w


def linear(v, s):
    r = s.facts.get(('i', v[3])) if v[:2] == ('t', 'trunc') else None
    if r is not None and 0 <= r[0] and r[1] < 1 << v[2]:
        return v[3]
    while isinstance(v, tuple) and v and v[0] == 't' and v[1] in ('cast', 'conv'):
        v = v[-1]
    return v


def diff(s, n, x, y):
    nm = ' to '.join(x[:2]) if 'Arc' in n else x[0]
    if x[0] != y[0] or ('Arc' in n and x[1] != y[1]):
        return 'no %s for %s' % (n, nm)
    if n == 'addPlace':
        if len(x) == 2:
            if len(y) != 2 or not rng_ok(y[1], x[1], s):
                return '%s has %s tokens instead of %s' % (nm, show(y[1])[:40], x[1])
            return None
        if len(y) != 3 or y[1] != x[1]:
            return '%s has type %s instead of %s' % (nm, y[1], x[1])
        d = same(mev, x[2], y[2])
        return d and 'the marking of %s %s' % (nm, d)
    if n == 'addTransition':
        if len(x) != len(y) or not rng_ok(y[1], x[1], s):
            return 'player of %s is %s' % (nm, show(y[1])[:30])
        if len(x) == 3:
            d = same(gev, x[2], y[2])
            return d and 'the guard of %s %s' % (nm, d)
        return None
    if x[2] != y[2]:
        return 'arc %s of the wrong kind' % nm
    if x[2] == 'pt':
        for a, b in zip(x[3:], y[3:]):
            if not rng_ok(b, a, s):
                return 'arc %s has %s instead of %s' % (nm, show(b)[:40], a)
        return None
    d = same(mev, x[3], y[3])
    if d:
        return 'the expression of arc %s %s' % (nm, d)
    if n == 'addInputArc' and not rng_ok(y[4], x[4], s):
        return 'arc %s has inhibitor weight %s' % (nm, show(y[4])[:30])
    return None


def symbol(want):
    for _, a in want:
        for y in a:
            if isinstance(y, tuple) and y[:1] == ('t',):
                return y
    return None


def good(ctx, p, nm, root, want, types=None):
    def go():
        v = symbol(want)
        I, rs = read(p, root, {('i', v): (0, 1 << 40, frozenset())} if v else None)
        ctx.note_interp(I, len(rs))
        if v:
            for s in I.thrown:
                s = s[0] if isinstance(s, tuple) else s
                r = s.facts.get(('i', v))
                ctx.check(nm + ' refusal', r is not None and r[0] > MAXU, 'a token count that fits 32 bits is refused', WHERE)
            for _, s in rs:
                r = s.facts.get(('i', v))
                ctx.check(nm + ' range', r is not None and r[1] <= MAXU, 'a token count that does not fit 32 bits is accepted', WHERE)
        if (I.thrown and not v) or I.aborted or I.nulls:
            ctx.bad(nm, 'a well-formed net is refused', WHERE)
            return
        if not rs:
            ctx.und(nm, 'no path', WHERE)
            return
        for _, s in rs:
            try:
                d = compare(s, want)
                if d is None and types is not None:
                    d = compare_types(s, types)
            except Wrong as ex:
                d = str(ex)
            ctx.check(nm, d is None, d, WHERE)
    ctx.attempt(nm, go, WHERE)


def compare_types(s, types):
    calls = s.ghost.get('calls', ())
    if not any(n == 'enableColors' for n, a in calls):
        return 'colours are not enabled'
    got = {}
    for n, a in calls:
        if n == 'addColorType':
            if a[0] in got:
                return 'colour type %s is added twice' % a[0]
            got[a[0]] = typ(s, a[1])
    w = {t: TYPES[t] for t in types}
    for t in w:
        if got.get(t) != w[t]:
            return 'colour type %s is %s instead of %s' % (t, got.get(t), w[t])
    if set(got) != set(w):
        return 'colour types %s' % sorted(got)
    vs = [(a[0], typ(s, a[1])) for n, a in calls if n == 'addVariable']
    if sorted(vs, key=str) != sorted([(v, TYPES[t]) for v, t in VARS.items()], key=str):
        return 'variables %s' % vs
    return None


def refused(ctx, p, nm, root):
    def go():
        I, rs = read(p, root)
        ctx.note_interp(I, len(rs))
        ctx.check(nm, not rs, 'a document that describes no net is accepted', WHERE)
    ctx.attempt(nm, go, WHERE)


# ---------------------------------------------------------------- the documents
def pl(n, tok=None, attr=None, pos=False):
    ks = [N('name', N('text', text='name of ' + n))]
    if pos:
        ks.insert(0, N('graphics', N('position', x='10', y='20')))
    if tok is not None:
        ks.append(N('initialMarking', N('text', text=tok)))
    return N('place', *ks, id=n, **({} if attr is None else {'initialMarking': attr}))


def plain(I):
    """(name, document, wanted calls) of plain nets; wanted None: refused"""
    out = []
    P = lambda n, k=0: ('addPlace', [n, k])
    TT = lambda n, pl=0: ('addTransition', [n, pl])
    IN = lambda a, b, w=1, inh=False: ('addInputArc', [a, b, 'pt', inh, w])
    OU = lambda a, b, w=1: ('addOutputArc', [a, b, 'pt', w])
    A = lambda a, b, *k, tag='arc', **kw: N(tag, *k, id=a + b, source=a, target=b, **kw)
    ins = lambda w, tag='text': N('inscription', N(tag, text=w))
    tr = lambda n, *k, **kw: N('transition', *k, id=n, **kw)
    for tok in ('0', '1', '7', '2147483648', '4294967295'):
        out.append(('tokens ' + tok, pnml(pl('p', tok), pl('q', None, tok), pl('r', pos=True)), [P('p', int(tok)), P('q', int(tok)), P('r')]))
    for tok in ('4294967296', '-1', '-4294967295', '18446744073709551615', '4294967297'):
        out.append(('refused tokens ' + tok, pnml(pl('p', tok)), None))
        out.append(('refused tokens attribute ' + tok, pnml(pl('p', None, tok)), None))
    base = [pl('p', '1'), pl('q'), tr('t'), tr('u')]
    B = [P('p', 1), P('q'), TT('t'), TT('u')]
    for w in ('1', '2', '12', '2147483647'):
        k = int(w)
        out.append(('weight ' + w, pnml(*base, A('p', 't', ins(w)), A('t', 'q', ins(w)), A('q', 'u'), A('u', 'p')), B + [IN('p', 't', k), OU('t', 'q', k), IN('q', 'u'), OU('u', 'p')]))
        out.append(('weight attribute ' + w, pnml(*base, A('p', 't', weight=w), A('t', 'q', weight=w)), B + [IN('p', 't', k), OU('t', 'q', k)]))
        out.append(('weight value ' + w, pnml(*base, A('p', 't', ins(w, 'value'), tag='inputArc'), A('t', 'q', ins(w, 'value'), tag='outputArc')), B + [IN('p', 't', k), OU('t', 'q', k)]))
        out.append(('inhibitor ' + w, pnml(*base, A('p', 't', ins(w), tag='inhibitorArc'), A('q', 'u', ins(w), type='inhibitor'), A('q', 't', ins(w), type='normal')),
                    B + [IN('p', 't', k, True), IN('q', 'u', k, True), IN('q', 't', k)]))
        out.append(('transport ' + w, pnml(*base, N('transportArc', ins(w), source='p', transition='t', target='q')), B + [IN('p', 't', k), OU('t', 'q', k)]))
    out.append(('transport', pnml(*base, N('transportArc', source='p', transition='u', target='p'), A('q', 't', tag='inhibitorArc')), B + [IN('p', 'u'), OU('u', 'p'), IN('q', 't', 1, True)]))
    out.append(('two transports', pnml(*base, N('transportArc', source='p', transition='u', target='p'), N('transportArc', ins('3'), source='q', transition='t', target='p')), B + [IN('p', 'u'), OU('u', 'p'), IN('q', 't', 3), OU('t', 'p', 3)]))
    out.append(('arcs first', pnml(A('p', 't', ins('2')), A('t', 'q'), tr('t'), pl('p', '3'), pl('q', '4')), [P('p', 3), P('q', 4), TT('t'), IN('p', 't', 2), OU('t', 'q')]))
    out.append(('several arcs', pnml(*base, A('p', 't', ins('2')), A('q', 't', ins('3')), A('t', 'p'), A('t', 'q', ins('5')), A('p', 'u'), A('u', 'p')),
                B + [IN('p', 't', 2), IN('q', 't', 3), OU('t', 'p'), OU('t', 'q', 5), IN('p', 'u'), OU('u', 'p')]))
    out.append(('pages', N('pnml', N('net', N('page', pl('p', '1'), tr('t'), N('page', pl('q', '2'), A('p', 't')), id='1'), N('page', A('t', 'q', ins('4')), tr('u'), id='2'), id='n')),
                [P('p', 1), P('q', 2), TT('t'), TT('u'), IN('p', 't'), OU('t', 'q', 4)]))
    for k in ('0', '1'):
        out.append(('player ' + k, pnml(tr('t', N('player', N('value', text=k))), tr('u', player=k), tr('v')), [TT('t', int(k)), TT('u', int(k)), TT('v')]))
    out.append(('player after graphics', pnml(tr('t', N('graphics', N('position', x='1', y='2')), N('name', N('text', text='5')), N('player', N('text', text='1'))), tr('u')), [TT('t', 1), TT('u')]))
    out.append(('empty', pnml(), []))
    v = sym(I, 'tok', 'long')
    out.append(('symbolic tokens', pnml(pl('p', T('numtext', v))), [('addPlace', ['p', v])]))
    for w in ('0', 'x', '2x', '-3', '1.5', '0x2'):
        out.append(('refused inscription ' + w, pnml(*base, A('p', 't', ins(w))), None))
    out.append(('refused weight attribute 0', pnml(*base, A('p', 't', weight='0')), None))
    out.append(('refused two inscriptions', pnml(*base, A('p', 't', ins('1'), ins('2'))), None))
    out.append(('refused timed arc', pnml(*base, A('p', 't', type='timed')), None))
    for t in ('variable', 'k-bound', 'query'):
        out.append(('refused ' + t, pnml(*base, N(t)), None))
    for t in ('conditions', 'assignments'):
        out.append(('refused ' + t, pnml(pl('p'), tr('t', N(t))), None))
    out.append(('refused root', N('net', pl('p')), None))
    return out


def guards(x, y, r, a, R, S, Pd, tup):
    cmp = [(o, l, q) for o in ELEM for l, q in ((x, y), (x, a(1)), (S(x), y), (a(2), Pd(y)), (r, R(1)))]
    g = cmp[:]
    g += [(o, tup(x, r), tup(y, R(0))) for o in ('eq', 'ne')]
    g += [('not', c) for c in g] + [('not', ('not', c)) for c in cmp[::3]] + [('not', ('not', ('not', c))) for c in cmp[::7]]
    c0, c1, c2, c3 = ('lt', x, y), ('eq', r, R(1)), ('ne', y, a(0)), ('ge', S(x), y)
    for o in ('and', 'or'):
        q = 'or' if o == 'and' else 'and'
        for n in (1, 2, 3, 4):
            for k in ((c0, c1, c2, c3), (c3, ('not', c1), c0, c2), ((q, (c0, c1)), c2, ('not', (q, (c3, c1))), (o, (c2, c0)))):
                e = (o, k[:n])
                g += [e, ('not', e), ('not', ('not', e)), ('and', (e, c3)), ('or', (c2, e)), (o, (('not', e), c0))]
    return g, c0, c1


def coloured(terms=False):
    """(name, document, wanted calls, types)"""
    out = []
    ALL = ('A', 'R', 'W', 'dot', 'AR', 'RAR', 'AA', 'AW')
    a = lambda i: ('con', ('A', i))
    R = lambda i: ('con', ('R', i))
    x, y, r = ('var', 'x'), ('var', 'y'), ('var', 'r')
    S, Pd = lambda e: ('succ', e), lambda e: ('pred', e)
    tup = lambda *k: ('tup', tuple(k))
    one = lambda k, *c: ('num', k, tuple(c))
    none = ('add', ())
    for top in (False, True):
        out.append(('types top=%s' % top, pnml(decl=decls(), top=top), [], ALL))
    out.append(('types late', pnml(decl=decls(('AR', 'R', 'RAR', 'AA', 'AW', 'dot', 'W', 'A'))), [], ALL))
    out.append(('types mixed', pnml(decl=decls(('R', 'RAR', 'AR', 'A', 'AA', 'AW', 'W', 'dot'))), [], ALL))
    arcs = {
        'A': [one(1, a(0)), one(3, a(2)), one(1, x), one(2, S(x)), one(1, Pd(y)), one(2, S(S(x))), one(1, Pd(S(y))), one(1, ('all', 'A')), one(2, ('all', 'A')), ('all', 'A'), one(1, S(a(2))), one(1, Pd(a(0))), one(70000, a(1)), one(MAXU, a(0))],
        'R': [one(1, r), one(4, R(1)), one(1, S(R(1))), one(2, ('all', 'R')), ('all', 'R')],
        'W': [one(2, ('con', ('W', 3))), one(1, ('con', ('W', 0))), ('all', 'W')],
        'dot': [one(1, ('dot',)), one(5, ('dot',)), one(2, ('all', 'dot')), ('all', 'dot')],
        'AR': [one(1, tup(x, r)), one(2, tup(a(1), R(0))), one(1, tup(S(x), Pd(r))), one(1, tup(('all', 'A'), r)), one(2, tup(x, ('all', 'R'))), one(3, tup(('all', 'A'), ('all', 'R'))), tup(x, r), tup(a(2), R(1)),
               tup(('all', 'A'), R(1)), tup(('all', 'A'), ('all', 'R')), tup(('plus', (a(0), a(2))), r), tup(('plus', (x, S(x), y)), ('plus', (R(0), R(1)))), tup(S(a(1)), Pd(r)), one(2, ('all', 'AR')), ('all', 'AR')],
        'RAR': [one(1, tup(r, x, R(1))), one(2, tup(r, ('all', 'A'), ('all', 'R'))), tup(R(0), y, r), tup(('all', 'R'), x, ('all', 'R')), tup(('plus', (R(1), r)), ('all', 'A'), R(0)), one(2, tup(('all', 'R'), ('all', 'A'), ('all', 'R')))],
        'AA': [one(1, tup(x, y)), one(1, tup(y, x)), one(2, tup(S(x), ('all', 'A'))), tup(('all', 'A'), y), one(1, ('all', 'AA'))],
        'AW': [tup(x, ('con', ('W', 0))), one(2, tup(a(1), ('con', ('W', 0)))), tup(a(0), ('con', ('W', 3)))]}
    for t, es in list(arcs.items()):
        b = es[:]
        n = len(b)
        for i in range(0, n, 2):
            c, d, f = b[i], b[(i + 1) % n], b[(i + 2) % n]
            es += [('add', (c, d)), ('add', (c,)), ('add', (d, c, f)), ('scal', 3, c), ('scal', 0, c), ('scal', 2, ('add', (d, c))), ('sub', ('scal', 4, c), d), ('sub', ('sub', ('scal', 5, ('add', (c, d))), f), d),
                   ('add', (('scal', 2, c), ('sub', ('add', (d, c)), c)))]
    if terms:
        return arcs, guards(x, y, r, a, R, S, Pd, tup)[0]
    free = lambda e: 'var' not in repr(e)
    for t, es in arcs.items():
        for i, e in enumerate(es):
            for v in (0, 1) if i % 5 == 0 or e[0] == 'num' and e[1] == 1 else (0,):
                doc = pnml(cplace('p', t), ctrans('t'), carc('p', 't', e, v), carc('t', 'p', e, v), decl=decls())
                out.append(('arc %s %r/%d' % (t, e, v), doc, [('addPlace', ['p', TYPES[t], none]), ('addTransition', ['t', 0, None]), ('addInputArc', ['p', 't', 'col', e, 0]), ('addOutputArc', ['t', 'p', 'col', e])], ALL))
            if free(e):
                out.append(('marking %s %r' % (t, e), pnml(cplace('p', t, e), cplace('q', t), decl=decls()), [('addPlace', ['p', TYPES[t], e]), ('addPlace', ['q', TYPES[t], none])], ALL))
    g, c0, c1 = guards(x, y, r, a, R, S, Pd, tup)
    for i, e in enumerate(g):
        out.append(('guard %r' % (e,), pnml(ctrans('t', e, 1 if i % 7 == 3 else 0), ctrans('u'), decl=decls()), [('addTransition', ['t', 0, e]), ('addTransition', ['u', 0, None])], ALL))
    out.append(('player and guard', pnml(N('transition', N('condition', N('structure', xml(c0))), N('player', N('value', text='1')), id='t'), decl=decls()), [('addTransition', ['t', 1, c0])], ALL))
    out.append(('coloured inhibitor', pnml(cplace('p', 'A'), ctrans('t'), N('arc', N('inscription', N('text', text='3')), id='i', source='p', target='t', type='inhibitor'), decl=decls()),
                [('addPlace', ['p', TYPES['A'], none]), ('addTransition', ['t', 0, None]), ('addInputArc', ['p', 't', 'col', None, 3])], ALL))
    out.append(('net', pnml(cplace('p', 'A', one(2, a(1))), cplace('q', 'AR'), ctrans('t', c0), ctrans('u', c1), carc('p', 't', one(1, x)), carc('t', 'q', one(2, tup(x, r))), carc('q', 'u', tup(y, r)), carc('u', 'p', one(3, S(y))), decl=decls()),
                [('addPlace', ['p', TYPES['A'], one(2, a(1))]), ('addPlace', ['q', TYPES['AR'], none]), ('addTransition', ['t', 0, c0]), ('addTransition', ['u', 0, c1]), ('addInputArc', ['p', 't', 'col', one(1, x), 0]),
                 ('addOutputArc', ['t', 'q', 'col', one(2, tup(x, r))]), ('addInputArc', ['q', 'u', 'col', tup(y, r), 0]), ('addOutputArc', ['u', 'p', 'col', one(3, S(y))])], ALL))
    # a colour written in a place belongs to the place's own type; the place's type is of no concern to what follows
    for order in (('A', 'R', 'C'), ('C', 'R', 'A')):
        c = lambda i: ('con', ('C', i))
        out.append(('same colour id in two types %s' % (order,), pnml(cplace('p', 'C', ('add', (one(2, c(1)), one(1, c(0))))), cplace('q', 'A', one(3, a(1))), decl=decls(order)),
                    [('addPlace', ['p', TYPES['C'], ('add', (one(2, c(1)), one(1, c(0))))]), ('addPlace', ['q', TYPES['A'], one(3, a(1))])], order))
    for t, m in (('A', one(1, a(0))), ('R', one(1, R(0))), ('W', one(1, ('con', ('W', 2)))), ('AA', one(1, tup(a(0), a(1)))), ('dot', one(1, ('dot',)))):
        for g1, g2 in ((('eq', r, R(1)), ('ne', x, a(2))), (('eq', y, a(1)), ('lt', r, R(1)))):
            out.append(('after a place of type %s' % t, pnml(cplace('p', t, m), ctrans('t', g1), cplace('q', t), ctrans('u', g2), decl=decls()),
                        [('addPlace', ['p', TYPES[t], m]), ('addTransition', ['t', 0, g1]), ('addPlace', ['q', TYPES[t], none]), ('addTransition', ['u', 0, g2])], ALL))
    P1, P2 = ('part', [('A', 0), ('A', 2)], 'P1'), ('part', [('A', 1)], 'P2')
    for e in (tup(P1, r), tup(P2, R(0)), tup(P1, ('all', 'R')), tup(P1, R(1))):
        out.append(('partition %r' % (e,), pnml(cplace('p', 'AR'), ctrans('t'), carc('p', 't', e), decl=decls(part=True)), [('addPlace', ['p', TYPES['AR'], none]), ('addTransition', ['t', 0, None]), ('addInputArc', ['p', 't', 'col', e, 0])], ALL))
    out.append(('refused untyped place', pnml(N('place', id='p'), decl=decls()), None, None))
    out.append(('refused colour', pnml(cplace('p', 'A', ('num', 1, (('part', [], 'zz'),))), decl=decls()), None, None))
    out.append(('refused arc term', pnml(cplace('p', 'A'), ctrans('t'), N('arc', N('hlinscription', N('structure', N('bogus', N('subterm')))), id='x', source='p', target='t'), decl=decls()), None, None))
    out.append(('refused guard', pnml(N('transition', N('condition', N('structure', N('imply', st_(xml(c0)), st_(xml(c0))))), id='t'), decl=decls()), None, None))
    return out


def run(ctx):
    ctx.rule('the builder receives exactly the places, tokens, transitions, players, arcs, kinds and weights of the document, nodes before arcs, and is told to sort at the end')
    ctx.rule('colour types, variables, guards, arc expressions and initial multisets have the value of the document under every binding')
    ctx.rule('documents with unsupported or malformed parts are refused')
    p = ctx.program(TUS)
    I = base_interp(p)
    jobs = [x + (None,) for x in plain(I)] + coloured()

    one = lambda k, c: ('num', k, (c,))
    es = [one(2, ('con', ('A', 1))), ('add', (one(1, ('con', ('R', 0))), one(3, ('con', ('R', 1))))), one(1, ('tup', (('con', ('A', 2)), ('all', 'R')))), one(4, ('dot',)), ('scal', 2, one(1, ('all', 'A'))), ('tup', (('con', ('R', 1)), ('con', ('A', 0)), ('con', ('R', 0))))]
    pm = lambda n, e, w=True: N('place', N('structure', xml(e)) if w else xml(e), id=n)
    marks = [('marking document %d' % i, N('marking', pm('p', e, i % 2 == 0)), [('p', e)]) for i, e in enumerate(es)]
    marks += [('marking document several', N('marking', *[pm('p%d' % i, e) for i, e in enumerate(es)]), [('p%d' % i, e) for i, e in enumerate(es)]), ('marking document empty', N('marking'), []),
              ('refused marking root', N('markings', pm('p', es[0])), None), ('refused marking element', N('marking', pm('p', es[0]), N('transition', id='t')), None),
              ('refused marking place', N('marking', N('place', N('structure', xml(es[0])))), None)]
    jobs += [m + ('marking',) for m in marks]

    def go(j):
        if j[3] == 'marking':
            marking(ctx, p, *j[:3])
            return
        nm, root, want, types = j
        if want is None:
            refused(ctx, p, nm, root)
        else:
            good(ctx, p, nm, root, want, types)
    ctx.parallel(jobs, go)
