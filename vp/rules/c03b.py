"""Arithmetic on bounded expression trees: built by interpreting the constructors, evaluated by interpreting the evaluation visitor."""
import itertools, random
from ..pql import *
from .. import seqlib
from ..smallmodel import term, holds, Unk

P = lambda r: ('p', r, ())
PL = [T('m', C(i)) for i in range(3)]
LITS = [T('k', C(i)) for i in range(6)]
MAX32 = (1 << 32) - 1


class B:
    """a tree under construction: every node is (pointer, meaning)"""
    def __init__(self, p):
        I = self.I = Interp(p)
        seqlib.install(I)
        I.cast_hook = strict_cast
        I.max_depth = 80
        I.rec = 8
        self.p, self.n = p, 0
        st = State()
        for t in PL:
            I.note(t, 'unsigned int')
        for t in LITS:
            I.note(t, 'long')
        st.store[('h', 'marking')] = seqlib.seq(PL)
        st.store[('h', 'net')] = Obj('PetriEngine::PetriNet', None, {('f', '_nplaces'): C(3)})
        self.sts = [st]
        self.nl = 0
        self.ctx = self.new('EvaluationContext', [P(('h', 'marking')), P(('h', 'net'))])

    def new(self, cls, args, preset=()):
        """constructs an object on every path; args may be functions of the state"""
        self.n += 1
        root = ('h', 'x', self.n)
        f = [f for f in self.I.ctors(NS + cls) if f.get('ctor') and not f.get('implicit') and len(f['params']) >= len(args)
             and all('def' in q for q in f['params'][len(args):]) and not (f['params'] and cls in f['params'][0]['t'])
             and (not args or ('vector' in f['params'][0]['t']) == (args[0][0] == 'seq')) and (not args or args[0][0] != 'seq' or 'Expr' in f['params'][0]['t'])
             and not (cls == 'PlusExpr' and args and args[0][0] == 'seq' and 'string' in f['params'][0]['t'])]
        if not f:
            raise AnchorError('no constructor of ' + cls)
        out = []
        for st in self.sts:
            st = st.copy()
            st.store = dict(st.store)
            st.store[root] = Obj(NS + cls, None, {q[0]: seqlib.seq([]) for q in preset})
            out += [s for _, s in self.I.run(f[0], P(root), list(args), st)]
            if self.I.aborted:
                raise Bad('an assertion fails')
            if self.I.thrown:
                raise Bad('an exception is raised')
        self.sts = out
        return P(root)

    def lit(self):
        k = LITS[self.nl]
        self.nl += 1
        return self.new('LiteralExpr', [k]), lambda env: env[k]

    def place(self, i):
        return self.new('UnfoldedIdentifierExpr', [T('name', C(i)), C(i)]), lambda env: env[PL[i]]

    def ident(self, i):
        x = self.new('IdentifierExpr', [T('name', C(i))])
        y, m = self.place(i)
        fld = getter_field(self.p, NS + 'IdentifierExpr', 'compiled')
        for st in self.sts:
            save(st, (x[1], fld), y)
        return x, m

    def nary(self, cls, kids):
        pre = [getter_field(self.p, NS + cls, 'expressions')]
        if cls != 'SubtractExpr':
            pre.append(getter_field(self.p, NS + cls, 'places'))
        ptr = self.new(cls, [seqlib.seq([k[0] for k in kids])], pre)
        ms = [k[1] for k in kids]

        def mean(env):
            vs = [m(env) for m in ms]
            if cls == 'PlusExpr':
                return sum(vs)
            if cls == 'SubtractExpr':
                return vs[0] - sum(vs[1:])
            r = 1
            for v in vs:
                r *= v
            return r
        return ptr, mean

    def minus(self, k):
        return self.new('MinusExpr', [k[0]]), lambda env: -k[1](env)


class Bad(Exception):
    pass


KINDS = {
    'k': lambda b: b.lit(),
    'p': lambda b: b.place(1),
    'q': lambda b: b.place(0),
    'id': lambda b: b.ident(2),
    'k+p': lambda b: b.nary('PlusExpr', [b.lit(), b.place(2)]),
    'q+p': lambda b: b.nary('PlusExpr', [b.place(0), b.place(1)]),
    'k*p': lambda b: b.nary('MultiplyExpr', [b.lit(), b.place(1)]),
    'p*q': lambda b: b.nary('MultiplyExpr', [b.place(2), b.place(0)]),
    'k+k': lambda b: b.nary('PlusExpr', [b.lit(), b.lit()]),
    'p-k': lambda b: b.nary('SubtractExpr', [b.place(0), b.lit()]),
    'k-k': lambda b: b.nary('SubtractExpr', [b.lit(), b.lit()]),
    '-p': lambda b: b.minus(b.place(2)),
    '(k*p)+q': lambda b: b.nary('PlusExpr', [b.nary('MultiplyExpr', [b.lit(), b.place(1)]), b.place(0)]),
    'p+(q-k)': lambda b: b.nary('PlusExpr', [b.place(1), b.nary('SubtractExpr', [b.place(0), b.lit()])]),
    'p*(q-p)': lambda b: b.nary('MultiplyExpr', [b.place(1), b.nary('SubtractExpr', [b.place(0), b.place(1)])]),
}


def envs(n=90):
    r = random.Random(11)
    mv = (0, 1, 2, 3, 7, MAX32)
    kv = (-3, -1, 0, 1, 2, 5, 3000000000, -3000000000)
    for _ in range(n):
        env = {m: r.choice(mv) for m in PL}
        env.update({k: r.choice(kv) for k in LITS})
        yield env


ENVS = list(envs())


def tree(ctx, p, outer, ks, ev):
    name = 'tree:%s(%s)' % (outer.replace('Expr', ''), ', '.join(ks))
    where = site(ev)

    def go():
        b = B(p)
        try:
            kids = [KINDS[k](b) for k in ks]
            ptr, mean = b.minus(kids[0]) if outer == 'MinusExpr' else b.nary(outer, kids)
        except Bad as x:
            ctx.bad(name, 'building the expression: %s' % x, where)
            return
        I = b.I
        rs = []
        for st in b.sts:
            rs += I.run(ev, None, [ptr, ('L', (b.ctx[1], ()))], st)
            if I.aborted or I.thrown:
                ctx.bad(name, 'evaluating the expression fails', where)
                return
        ctx.note_interp(I, len(rs))
        pf = {}
        for env in ENVS:
            want = mean(env)
            if abs(want) >= 1 << 62:
                continue
            hit = 0
            for v, s in rs:
                h = holds(s.facts, env)
                if h is None:
                    ctx.und(name, 'path condition ' + facts_str(s)[:80], where)
                    return
                if not h:
                    continue
                hit += 1
                try:
                    got = term(v, env)
                except Unk as u:
                    if any(isinstance(x, tuple) and x[:2] == ('t', '*') and x[2] == NULL for x in subterms(v)):
                        ctx.bad(name, 'the value is read through a null marking', where)
                    else:
                        ctx.und(name, 'value %s' % u, where)
                    return
                if got != want:
                    ctx.bad(name, 'evaluates to %d instead of %d for marking %s, literals %s' % (got, want, [env[m] for m in PL], [env[k] for k in LITS[:b.nl]]), where)
                    return
            if not hit:
                ctx.und(name, 'no path', where)
                return
        ctx.ok(name, '', where)
    ctx.attempt(name, go, where)


def run(ctx, p):
    ev = [f for f in p.byq.get(NS + 'evaluate', []) if 'Expr' in f['params'][0]['t']][0]
    jobs = [('MinusExpr', (k,)) for k in KINDS]
    rest = list(KINDS)
    few = ['k', 'p', 'q+p', 'k*p', 'p-k']
    for o in ('PlusExpr', 'MultiplyExpr', 'SubtractExpr'):
        jobs += [(o, (k,)) for k in rest]
        jobs += [(o, x) for x in itertools.product(rest, repeat=2)]
        jobs += [(o, x) for x in itertools.product(few, repeat=3)]
    jobs += [('PlusExpr', ('p',) * 5 + ('k',)), ('MultiplyExpr', ('k', 'p', 'q', 'p-k', 'k')), ('SubtractExpr', ('p', 'q', 'k', 'id', 'k'))]
    bounds(ctx, p)
    ctx.parallel(jobs, lambda j: tree(ctx, p, j[0], j[1], ev))


def bounds(ctx, p):
    f = p.fn(NS + 'UnfoldedUpperBoundsCondition::value')
    where = site(f)
    for n in range(5):
        name = 'sum:bounds/%d' % n

        def go():
            b = B(p)
            st = b.sts[0].copy()
            st.store = dict(st.store)
            pls = [i % 3 for i in range(n)]
            fld = getter_field(p, NS + 'UnfoldedUpperBoundsCondition', 'places')
            st.store[('h', 'ub')] = Obj(NS + 'UnfoldedUpperBoundsCondition', None, {fld[0]: seqlib.seq([Obj(NS + 'UnfoldedUpperBoundsCondition::place_t', None, {('f', '_place'): C(i)}) for i in pls])})
            rs = b.I.run(f, P(('h', 'ub')), [P(('h', 'marking'))], st)
            ctx.note_interp(b.I, len(rs))
            for env in ENVS:
                got = [term(v, env) for v, s in rs if holds(s.facts, env) is not False]
                want = sum(env[PL[i]] for i in pls)
                if not got:
                    ctx.und(name, 'no path', where)
                    return
                if any(g != want for g in got):
                    ctx.bad(name, 'the sum of the places is %s instead of %d' % (got, want), where)
                    return
            ctx.ok(name, '', where)
        ctx.attempt(name, go, where)


def settled(obls):
    ts = [o[1] for o in obls if o[0].startswith('tree:')]
    bs = [o[1] for o in obls if o[0].startswith('sum:bounds')]
    out = set()
    if ts and all(x == 'ok' for x in ts):
        out |= {'PlusExpr', 'MultiplyExpr', 'SubtractExpr', 'MinusExpr', 'LiteralExpr', 'IdentifierExpr', 'UnfoldedIdentifierExpr', 'evaluate', 'flatten/PlusExpr', 'flatten/MultiplyExpr'}
    if bs and all(x == 'ok' for x in bs):
        out.add('bounds')
    return out
