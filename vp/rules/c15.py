"""C15: the explicit coloured engine builds the net it is given and generates exactly its successors"""
import itertools
from collections import Counter
from ..rule import *
from .. import seqlib, maplib
from ..smallmodel import Unk
from . import c12, c13, c14
from .c12 import CN, TYPES, VARS, fld, obj, strip, txt, num, seqof, tree, Wrong, mev, gev, pnml, cplace, ctrans, carc
from .c14 import EN, value, content, mk, sizes_of, key, used
from ..xmldom import N

LEVEL = 'exhaustive-abstraction'
MIN_OBLIGATIONS = 20
EXPLANATION = ('Abstract interpretation of ExplicitColoredPetriNetBuilder and ColoredSuccessorGenerator: nets covering every kind of arc, guard, inhibitor and number of variables are built and all successors of several markings are enumerated, '
               'with both kinds of search state, and compared with the firing rule applied to every binding.')
TUS = ['src/PetriParse/PNMLParser.cpp', 'src/PetriEngine/Colored/Colors.cpp', 'src/PetriEngine/Colored/Multiset.cpp', 'src/PetriEngine/ExplicitColored/ArcCompiler.cpp', 'src/PetriEngine/ExplicitColored/ExpressionCompilers/GuardCompiler.cpp',
       'src/PetriEngine/ExplicitColored/ExplicitColoredPetriNetBuilder.cpp', 'src/PetriEngine/ExplicitColored/ColoredPetriNet.cpp', 'src/PetriEngine/ExplicitColored/ExpressionCompilers/ExplicitQueryPropositionCompiler.cpp', 'src/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.cpp']
SG = 'src/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.cpp'
B = EN + 'ExplicitColoredPetriNetBuilder::'
G = EN + 'ColoredSuccessorGenerator::'
MAXB = (1 << 64) - 1
MORE = {'z': 'A', 'u': 'R'}
ALLV = {**VARS, **MORE}
VNUM = {n: i for i, n in enumerate(ALLV)}
FIXED, EVEN = EN + 'ColoredPetriNetStateFixed', EN + 'ColoredPetriNetStateEven'


def interp(p):
    I = c14.interp(p)
    I.unroll = 200
    I.traps = True
    return I


def fns(p, q, pred=lambda f: True):
    r = [f for f in p.fns.values() if f['q'] == q and pred(f)]
    if not r:
        raise AnchorError(q + ' not found')
    return r[0]


def single(I, rs, what):
    return c14.one(I, rs, what)


def build(ctx, p, net):
    """net: dict(places=[(name, type, {colour: n})], trans=[(name, guard or None)], inp=[(p, t, expr)], out=[(t, p, expr)], inh=[(p, t, n)])"""
    kids = [cplace(n, t) for n, t, _ in net['places']] + [ctrans(n, g) for n, g in net['trans']] + [carc(a, b, e) for a, b, e in net['inp'] + net['out']]
    kids += [N('arc', N('inscription', N('text', text=str(w))), id='i%d' % i, source=a, target=b, type='inhibitor') for i, (a, b, w) in enumerate(net.get('inh', ()))]
    s, raw, types, vs = c13.load_doc(p, *kids, more=MORE)
    I = interp(p)
    root = ('h', 'builder')
    s.store[root] = Obj(B[:-2], None, {})
    me = ('p', root, ())
    _, s = single(I, I.run(fns(p, B + 'ExplicitColoredPetriNetBuilder'), me, [], s), 'the builder')
    marks = {n: (t, m) for n, t, m in net['places']}
    trees = {}
    for n, a in raw:
        s = s.copy()
        args = list(a)
        f = None
        if n == 'addPlace':
            t, m = marks[txt(a[0])]
            idx = {c: i for i, c in enumerate(c13.dom_index(TYPES[t]))}
            s.store[('h', 'ms')] = Obj(CN + 'Multiset', None, {('f', '_set'): seqlib.seq([maplib.pair(C(idx[c]), C(k)) for c, k in m]), ('f', '_type'): types[t]})
            args[2] = ('L', (('h', 'ms'), ()))
            f = fns(p, B + n, lambda f: len(f['params']) == len(args))
        elif n in ('addTransition', 'addInputArc', 'addOutputArc'):
            f = fns(p, B + n, lambda f: any(x in str([q['t'] for q in f['params']]) for x in ('Expression', 'shared_ptr')))
            k = 1 if n == 'addTransition' else 2
            if strip(a[k]) != NULL:
                trees.setdefault(n, []).append((txt(a[0]), txt(a[1]) if n != 'addTransition' else None, tree(s, strip(a[k]))))
            s.store[('h', 'ptr')] = a[k]
            args[k] = ('L', (('h', 'ptr'), ()))
        elif n in ('addColorType', 'addVariable'):
            f = fns(p, B + n)
        elif n == 'addToColorType':
            f = fns(p, B + n)
        elif n == 'sort':
            f = fns(p, B + n)
        else:
            continue
        for i, q in enumerate(f['params']):
            if 'basic_string' in q['t'] and '&' in q['t']:
                s.store[('h', 'str%d' % i)] = args[i]
                args[i] = ('L', (('h', 'str%d' % i), ()))
        _, s = single(I, I.run(f, me, args[:len(f['params'])], s), n)
    r, s = single(I, I.run(fns(p, B + 'build'), me, [], s), 'build')
    ctx.note_interp(I, 1)
    return s, root, trees



def marking(m):
    """marking object -> tuple of sorted (colour number, tokens) lists"""
    return tuple(tuple(sorted(content(x).items())) for x in seqof(fld(m, 'markings')))


def used(e):
    return [n for n in ALLV if "('var', %r)" % n in repr(e)]


class Net:
    """a net and the firing rule applied to it"""

    def __init__(self, ctx, p, net):
        self.ctx, self.p, self.net = ctx, p, net
        self.s, self.root, trees = build(ctx, p, net)
        self.places = [n for n, _, _ in net['places']]
        self.types = [TYPES[t] for _, t, _ in net['places']]
        cache = {}
        self.code = [cache.setdefault(t, None) or cache.__setitem__(t, c14.codes(p, ctx, self.s, sizes_of(TYPES[t]))) or cache[t] for _, t, _ in net['places']]
        self.trans = [n for n, _ in net['trans']]
        self.guards = {a: e for a, _, e in trees.get('addTransition', [])}
        self.inp = {t: [(self.places.index(a), e) for a, b, e in trees.get('addInputArc', []) if b == t] for t in self.trans}
        self.out = {t: [(self.places.index(b), e) for a, b, e in trees.get('addOutputArc', []) if a == t] for t in self.trans}
        self.inh = {t: [(self.places.index(a), w) for a, b, w in net.get('inh', ()) if b == t] for t in self.trans}
        self.netptr = ('p', self.root, (('f', '_currentNet'),))

    def codes(self, i, ms):
        c = Counter()
        for col, n in ms.items():
            c[self.code[i][key(col)]] += n
        return c

    def vars(self, t):
        return [n for n in ALLV if any("('var', %r)" % n in repr(e) for e in [self.guards.get(t)] + self.inp[t] + self.out[t])]

    def initial(self):
        return tuple(tuple(sorted((k, v) for k, v in self.codes(i, dict(m)).items() if v)) for i, (_, _, m) in enumerate(self.net['places']))

    def successors(self, m):
        """[(transition number, binding, marking)] of marking m (tuple of token lists)"""
        out = []
        for ti, t in enumerate(self.trans):
            if any(sum(v for _, v in m[p]) >= w for p, w in self.inh[t]):
                continue
            names = self.vars(t)
            for v in itertools.product(*[range(c12.SIZE[ALLV[n]]) for n in names]):
                b = {n: (ALLV[n], i) for n, i in zip(names, v)}
                if t in self.guards and not gev(self.guards[t], b):
                    continue
                now = [Counter(dict(x)) for x in m]
                take = [(pl, self.codes(pl, mev(e, b))) for pl, e in self.inp[t]]
                if any(now[pl][k] < n for pl, c in take for k, n in c.items()):
                    continue
                for pl, c in take:
                    now[pl].subtract(c)
                for pl, e in self.out[t]:
                    now[pl].update(self.codes(pl, mev(e, b)))
                out.append((ti, tuple(zip(names, v)), tuple(tuple(sorted((k, n) for k, n in x.items() if n)) for x in now)))
        return out

    # ---- the source
    def method(self, cls, name, pred=lambda f: True):
        return fns(self.p, cls + '::' + name, pred)

    def call(self, f, this, args, s, what):
        I = interp(self.p)
        rs = I.run(f, this, args, s)
        self.ctx.note_interp(I, len(rs))
        v, s = single(I, rs, what)
        return value(v, s), s

    def generator(self, s, nm='gen'):
        s = s.copy()
        root = ('h', nm)
        s.store[root] = Obj(G[:-2], None, {})
        f = fns(self.p, G + 'ColoredSuccessorGenerator', lambda f: len(f['params']) == 1 and 'ColoredPetriNet &' in f['params'][0]['t'])
        _, s = self.call(f, ('p', root, ()), [('L', (self.root, (('f', '_currentNet'),)))], s, 'the generator')
        return s, ('p', root, ())

    def state(self, s, cls, m, ident, nm):
        """a fresh search state of marking object m"""
        s = s.copy()
        root = ('h', nm)
        s.store[root] = Obj(cls, None, {})
        f = self.method(cls, cls.split('::')[-1], lambda f: f['params'] and 'ColoredPetriNetMarking' in f['params'][0]['t'])
        args = [m]
        if len(f['params']) == 2:
            s.store[('h', 'n')] = C(len(self.trans))
            args.append(('L', (('h', 'n'), ())))
        _, s = self.call(f, ('p', root, ()), args, s, 'the state')
        s = s.copy()
        o = s.store[root]
        s.store[root] = o.with_(('f', 'id'), C(ident)) if hasattr(o, 'with_') else Obj(o.cls, o.base, {**o.fields, ('f', 'id'): C(ident)})
        return s, root

    def mobj(self, m):
        return Obj(EN + 'ColoredPetriNetMarking', None, {('f', 'markings'): seqlib.seq([c14.mk(list(x)) for x in m])})

    def step(self, s, gen, cls, root):
        """next(): -> (None | (marking, marking object, transition, binding number, predecessor, id), finished, state)"""
        f = self.method(G[:-2], 'next', lambda f: cls.split('::')[-1] in f['params'][0]['t'])
        v, s = self.call(f, gen, [('L', (root, ()))], s, 'next')
        done, s = self.call(self.method(cls, 'done'), ('p', root, ()), [], s, 'done')
        if num(done):
            return None, True, s
        o = s.store[root]
        if cls == EVEN and num(fld(o, 'shuffle')):
            s = s.copy()
            s.store[root] = Obj(o.cls, o.base, {**o.fields, ('f', 'shuffle'): C(False)})
            return None, False, s
        new, tr = fld(v, 'first'), fld(v, 'second')
        g = lambda n: num(fld(tr, n))
        return (marking(fld(new, 'marking')), fld(new, 'marking'), g('transition'), g('binding'), g('predecessorId'), g('id')), False, s


def say(net, x):
    return '%s[%s]' % (net.trans[x[0]], ', '.join('%s=%d' % a for a in x[1]))


def enumerate_all(net, cls):
    """the initial marking and some of its successors, explored in turn with one generator"""
    s, gen = net.generator(net.s)
    ini = load(s, (net.root, (('f', '_currentNet'), ('f', '_initialMarking'))))
    if marking(ini) != net.initial():
        raise Wrong('the initial marking is %s instead of %s' % (marking(ini), net.initial()))
    s, r = net.state(s, cls, ini, 0, 'st0')
    todo = [(r, marking(ini), 0, [])]
    ids = {0}
    live = [0]
    for ident, part in ((1 << 20, 0), ((1 << 47) + 3, 1)):
        # markings far from the initial one, under numbers of their own
        m2 = tuple(tuple(sorted(((len(net.code[i]) - 1 - k) if part == 0 else (k + 1) % len(net.code[i]), v) for k, v in x)) for i, x in enumerate(net.initial()))
        s, r2 = net.state(s, cls, net.mobj(m2), ident, 'st%d' % len(todo))
        live.append(len(todo))
        todo.append((r2, m2, ident, []))
        ids.add(ident)
    rounds = 0
    while live:
        rounds += 1
        if rounds > 400:
            raise Wrong('the successors of a marking do not come to an end')
        for i in list(live):
            r, m, ident, got = todo[i]
            x, fin, s = net.step(s, gen, cls, r)
            if fin:
                live.remove(i)
                s = net.call(net.method(G[:-2], 'shrinkState'), gen, [C(ident)], s, 'shrinkState')[1]
                continue
            if x is None:
                continue
            if x[4] != ident:
                raise Wrong('a successor of state %d is recorded with predecessor %d' % (ident, x[4]))
            if x[5] in ids:
                raise Wrong('two states have the number %d' % x[5])
            ids.add(x[5])
            got.append(x)
            if marking(load(s, (r, (('f', 'marking'),)))) != m:
                raise Wrong('exploring a marking changes it')
            if len(todo) < 2 + net.net.get('states', 3):
                s, r2 = net.state(s, cls, x[1], x[5], 'st%d' % len(todo))
                live.append(len(todo))
                todo.append((r2, x[0], x[5], []))
    return todo


def judge(net, todo):
    n = 0
    for r, m, ident, got in todo:
        want = net.successors(m)
        a, b = Counter((x[2], x[0]) for x in got), Counter((x[0], x[2]) for x in want)
        for k in b:
            if a[k] < b[k]:
                w = [x for x in want if (x[0], x[2]) == k]
                raise Wrong('the marking %s lacks the successor by %s' % (m, ' or '.join(say(net, x) for x in w[:3])))
        for k in a:
            if a[k] > b[k]:
                raise Wrong('the marking %s has the successor %s by %s %d times instead of %d' % (m, k[1], net.trans[k[0]] if k[0] < len(net.trans) else k[0], a[k], b[k]))
        n += len(want)
    return n


def bindings(net, m):
    """findNextValidBinding as the trace and the interactive mode use it: all bindings of every transition, twice with the same state number"""
    s, gen = net.generator(net.s)
    want = net.successors(m)
    find = net.method(G[:-2], 'findNextValidBinding')
    can = fns(net.p, EN + 'FireabilityChecker::canFire')
    dead = fns(net.p, EN + 'FireabilityChecker::hasDeadlock')
    total = fns(net.p, EN + 'ColoredPetriNet::getTotalBindings')
    turn = tuple(tuple(sorted(((k + 1) % len(net.code[i]), v) for k, v in x)) for i, x in enumerate(m))
    for cur in (m, turn, tuple(tuple((k, 1) for k, v in x[::2]) for x in m), m):
        want = net.successors(cur)
        s = s.copy()
        s.store[('h', 'cur')] = net.mobj(cur)
        ml = ('L', (('h', 'cur'), ()))
        s = net.call(net.method(G[:-2], 'shrinkState'), gen, [C(0)], s, 'shrinkState')[1]
        gl = ('L', (gen[1], gen[2]))
        for ti, t in enumerate(net.trans):
            v, s = net.call(can, None, [gl, C(ti), ml, C(0)], s, 'canFire')
            en = [x for x in want if x[0] == ti]
            if bool(num(v)) != bool(en):
                raise Wrong('%s is said to be %s in %s' % (t, 'enabled' if num(v) else 'disabled', cur))
            tot, s = net.call(total, net.netptr, [C(ti)], s, 'getTotalBindings')
            got, bid = [], 0
            while True:
                s = s.copy()
                s.store[('h', 'bnd')] = Obj(EN + 'Binding', None, {('f', '_values'): maplib.mk_map([])})
                v, s = net.call(find, gen, [ml, C(ti), C(bid), C(num(tot)), ('L', (('h', 'bnd'), ())), C(0)], s, 'findNextValidBinding')
                if num(v) == MAXB:
                    break
                bid = num(v)
                vals = {num(fld(e, 'first')): num(fld(e, 'second')) for e in seqof(fld(load(s, (('h', 'bnd'), ())), '_values'))}
                got.append(tuple((n, vals.pop(VNUM[n], None)) for n in net.vars(t)))
                if vals:
                    raise Wrong('a binding of %s has values for other variables' % t)
                s = s.copy()
                s.store[('h', 'mv')] = net.mobj(cur)
                fire = net.method(G[:-2], 'fire')
                _, s2 = net.call(fire, gen, [('L', (('h', 'mv'), ())), C(ti), ('L', (('h', 'bnd'), ()))], s, 'fire')
                res = marking(load(s2, (('h', 'mv'), ())))
                if (ti, got[-1], res) not in want:
                    raise Wrong('%s is fired with %s in %s giving %s' % (t, got[-1], cur, res))
                bid += 1
                if len(got) > 500:
                    raise Wrong('the bindings of %s do not come to an end' % t)
            if Counter(got) != Counter(x[1] for x in en):
                d = Counter(x[1] for x in en) - Counter(got)
                raise Wrong('the bindings of %s in %s are %d instead of %d%s' % (t, cur, len(got), len(en), ': %s is missing' % (list(d)[0],) if d else ''))
        v, s = net.call(dead, None, [gl, ml, C(0)], s, 'hasDeadlock')
        if bool(num(v)) != (not want):
            raise Wrong('%s is said to be %s deadlock' % (cur, 'a' if num(v) else 'no'))


def nets():
    a, R = lambda i: ('con', ('A', i)), lambda i: ('con', ('R', i))
    ca, cr = lambda i: ('A', i), lambda i: ('R', i)
    x, y, r, z, u = (('var', n) for n in 'xyrzu')
    S, Pd = lambda e: ('succ', e), lambda e: ('pred', e)
    n = lambda k, e: ('num', k, (e,))
    tup = lambda *e: ('tup', e)
    N_ = {}
    N_['simple'] = dict(places=[('p', 'A', [(ca(0), 2), (ca(2), 1)]), ('q', 'A', [])], trans=[('t', None)], inp=[('p', 't', n(1, x))], out=[('t', 'q', n(2, S(x)))])
    # several transitions, guards, no variables, constants, sources and sinks
    N_['many'] = dict(places=[('p', 'A', [(ca(0), 2), (ca(1), 1)]), ('q', 'A', [(ca(1), 3)]), ('d', 'R', [(cr(1), 1)])],
                      trans=[('t0', None), ('t1', ('ne', x, a(1))), ('t2', None), ('t3', None), ('t4', ('and', (('le', x, y), ('ne', x, y)))), ('t5', None)],
                      inp=[('p', 't0', n(1, a(0))), ('p', 't1', n(1, x)), ('q', 't1', n(1, S(x))), ('q', 't2', n(2, y)), ('p', 't4', n(1, x)), ('q', 't4', n(1, y)), ('p', 't5', n(1, x)), ('d', 't5', n(1, r))],
                      out=[('t0', 'q', n(1, a(2))), ('t1', 'd', n(1, r)), ('t3', 'd', n(1, R(0))), ('t4', 'p', n(1, y)), ('t4', 'd', n(1, R(1)))])
    # inhibitors on several transitions, around the bounds
    N_['inhibitors'] = dict(places=[('p', 'A', [(ca(0), 2), (ca(1), 1)]), ('q', 'A', []), ('s', 'A', [(ca(2), 1)])],
                            trans=[('t%d' % i, None) for i in range(6)],
                            inp=[('p', 't%d' % i, n(1, x)) for i in (0, 1, 3, 4)] + [('s', 't2', n(1, y))], out=[('t0', 'q', n(1, x)), ('t2', 'q', n(2, y)), ('t5', 'q', n(1, a(0)))],
                            inh=[('p', 't4', 3), ('q', 't1', 1), ('p', 't1', 4), ('s', 't3', 1), ('q', 't0', 1), ('s', 't0', 2), ('q', 't5', 2)], states=5)
    N_['inhibited first and last'] = dict(places=[('p', 'A', [(ca(0), 1)]), ('q', 'A', [(ca(1), 2)])], trans=[('t0', None), ('t1', None), ('t2', None)],
                                          inp=[('p', 't%d' % i, n(1, x)) for i in range(3)], out=[('t%d' % i, 'q', n(i + 1, x)) for i in range(3)], inh=[('q', 't2', 2), ('q', 't0', 2), ('q', 't2', 5)], states=4)
    # products
    N_['products'] = dict(places=[('pr', 'AR', [((ca(0), cr(0)), 1), ((ca(2), cr(1)), 2)]), ('p', 'A', [(ca(1), 1), (ca(2), 1)]), ('o', 'RAR', [])], trans=[('t0', None), ('t1', ('lt', x, y)), ('t2', None)],
                          inp=[('pr', 't0', n(1, tup(x, r))), ('pr', 't1', n(1, tup(x, r))), ('p', 't1', n(1, y)), ('pr', 't2', n(2, tup(x, R(1)))), ('p', 't2', ('add', (n(1, x), n(1, Pd(x)))))],
                          out=[('t0', 'o', n(1, tup(r, S(x), R(0)))), ('t1', 'pr', n(1, tup(y, S(r)))), ('t2', 'p', n(3, S(x)))])
    # subtraction and demanded colours
    N_['subtraction'] = dict(places=[('p', 'A', [(ca(0), 2), (ca(1), 1), (ca(2), 1)]), ('q', 'A', [])], trans=[('t0', None), ('t1', None)],
                             inp=[('p', 't0', ('sub', ('add', (n(2, x), n(1, a(1)))), n(1, y))), ('p', 't1', ('sub', n(3, x), n(1, x)))], out=[('t0', 'q', n(1, y)), ('t1', 'q', ('sub', ('add', (n(1, x), n(1, a(0)))), n(1, a(0))))], states=2)
    # more bindings than are tried one by one: constraints from the places
    N_['constrained'] = dict(places=[('p', 'A', [(ca(0), 1), (ca(2), 2)]), ('q', 'A', [(ca(1), 1), (ca(2), 1)]), ('o', 'AR', [((ca(1), cr(0)), 1), ((ca(2), cr(1)), 1)])], trans=[('t0', None), ('t1', None)],
                             inp=[('p', 't0', n(1, x)), ('q', 't0', n(1, S(y))), ('o', 't0', n(1, tup(z, r))), ('p', 't1', n(1, a(2)))], out=[('t0', 'p', n(1, y)), ('t1', 'p', n(2, a(1)))], states=2)
    N_['constrained twice'] = dict(places=[('p', 'A', [(ca(0), 1), (ca(2), 2)]), ('q', 'A', [(ca(0), 1), (ca(1), 1), (ca(2), 1)]), ('o', 'AR', [((ca(1), cr(0)), 1), ((ca(2), cr(1)), 1)])],
                                   trans=[('t0', ('ne', z, x)), ('t1', None)],
                                   inp=[('p', 't0', n(1, x)), ('q', 't0', ('add', (n(1, x), n(1, Pd(x))))), ('o', 't0', n(1, tup(Pd(x), u))), ('p', 't1', n(2, S(S(y)))), ('q', 't1', n(1, Pd(z)))],
                                   out=[('t0', 'o', n(1, tup(z, r))), ('t0', 'p', n(1, y)), ('t1', 'o', n(1, tup(x, u)))], states=2)
    N_['nothing possible'] = dict(places=[('p', 'A', [(ca(0), 2)]), ('q', 'A', [(ca(1), 1)])], trans=[('t0', None), ('t1', ('lt', x, a(2))), ('t2', None)],
                                  inp=[('p', 't0', n(1, x)), ('q', 't0', n(1, x)), ('p', 't1', n(1, x)), ('q', 't1', n(1, S(x))), ('p', 't2', n(1, x)), ('q', 't2', n(1, y))],
                                  out=[('t0', 'p', ('add', (n(1, y), n(1, z)))), ('t0', 'q', n(1, Pd(z))), ('t1', 'p', n(1, z)), ('t1', 'q', ('add', (n(1, y), n(1, x)))), ('t2', 'p', n(1, z)), ('t2', 'q', n(1, S(z)))], states=2)
    N_['constrained by all'] = dict(places=[('p', 'A', [(ca(0), 1), (ca(1), 1), (ca(2), 1)]), ('q', 'A', [(ca(1), 1)]), ('w', 'R', [])], trans=[('t0', None)],
                                    inp=[('p', 't0', n(1, x)), ('q', 't0', ('sub', n(2, S(x)), n(1, y)))], out=[('t0', 'q', n(1, y)), ('t0', 'p', n(1, S(z))), ('t0', 'w', n(1, r))], states=2)
    N_['constrained later'] = dict(places=[('p', 'A', [(ca(0), 2)]), ('w', 'R', [])], trans=[('t0', None), ('t1', ('le', z, y)), ('t2', None)], inp=[('p', 't0', n(1, a(1))), ('p', 't1', n(1, x)), ('p', 't2', n(2, Pd(x)))],
                                   out=[('t1', 'w', n(1, r)), ('t1', 'p', n(1, S(x))), ('t2', 'p', ('add', (n(1, y), n(1, z)))), ('t2', 'w', n(1, u))], states=1)
    N_['variables of guards only'] = dict(places=[('p', 'A', [(ca(0), 1), (ca(1), 1)]), ('q', 'R', [])], trans=[('t0', ('lt', x, y)), ('t1', ('eq', r, R(0))), ('t2', ('or', (('eq', z, a(1)), ('gt', x, z))))],
                                          inp=[('p', 't0', n(1, x)), ('p', 't1', n(1, a(1)))], out=[('t2', 'q', n(1, u))])
    N_['no transition'] = dict(places=[('p', 'A', [(ca(0), 1)])], trans=[], inp=[], out=[])
    N_['nothing enabled'] = dict(places=[('p', 'A', [(ca(0), 1)]), ('q', 'A', [])], trans=[('t0', None), ('t1', None), ('t2', ('lt', x, x))], inp=[('q', 't0', n(1, x)), ('p', 't1', n(1, a(1))), ('p', 't2', n(1, x))], out=[])
    return N_


def run(ctx):
    ctx.rule('the successors generated for a marking are those of the firing rule for every transition and every binding of its variables, each binding once')
    p = ctx.program(TUS)

    def go(j):
        nm, net, what = j
        full = '%s: %s' % (nm, what)

        def g():
            try:
                N1 = Net(ctx, p, net)
                if what == 'bindings':
                    bindings(N1, N1.initial())
                    ctx.ok(full, 'bindings', SG)
                else:
                    todo = enumerate_all(N1, FIXED if what == 'fixed' else EVEN)
                    k = judge(N1, todo)
                    ctx.ok(full, '%d markings, %d successors' % (len(todo), k), SG)
            except Wrong as w:
                ctx.bad(full, str(w), SG)
        ctx.attempt(full, g, SG)
    ctx.parallel([(nm, net, w) for nm, net in nets().items() for w in ('fixed', 'even', 'bindings') if net['trans'] or w == 'fixed'], go)
