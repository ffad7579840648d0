"""C05: building conjunctions and disjunctions (flattening, merging comparisons into intervals) preserves meaning."""
import itertools
from ..pql import *
from .. import seqlib
from ..smallmodel import term, holds, Unk

LEVEL = 'other'
MIN_OBLIGATIONS = 150
EXPLANATION = ('Bounded-shape abstract interpretation of makeAnd/makeOr, the And/Or constructors and the interval merging they use: operand lists '
               'of every combination of operand kinds (opaque formula, comparison of each class and orientation, negated/plain compare-conjunction of '
               'one- and two-sided intervals, nested And/Or) with symbolic constants and bounds; on every abstract path the produced formula is compared '
               'with the conjunction/disjunction of the operands at the boundary values of the unsigned token domain.')
TUS = ['src/PetriEngine/PQL/Expressions.cpp', 'src/PetriEngine/PQL/PushNegation.cpp']
MAX = (1 << 32) - 1
CC = NS + 'CompareConjunction'
CONS = CC + '::cons_t'
CMPS = {'<': 'LessThanCondition', '<=': 'LessThanOrEqualCondition', '==': 'EqualCondition', '!=': 'NotEqualCondition'}
VALS = (-1, 0, 1, 2, MAX - 1, MAX, MAX + 1, MAX + 3)
BND = (0, 1, 2, MAX - 1, MAX)
VALS3 = (-1, 0, 1, MAX)
BND3 = (0, 1, 2, MAX)
TOK = (0, 1, 2, 3, MAX - 1, MAX)


class Build:
    """operands in an abstract store"""

    def __init__(self, p, I, st, small=False):
        self.VALS, self.BND = (VALS3, BND3) if small else (VALS, BND)
        self.p, self.I, self.st, self.n = p, I, st, 0
        self.syms = {}       # term -> domain
        self.meaning = {}    # pointer -> function(env)->bool
        self.vals = {}       # expression root -> value term
        self.pre = []

    def new(self, cls, fields):
        self.n += 1
        root = ('h', 'in', self.n)
        self.st.store[root] = Obj(cls, None, {('f', k): v for k, v in fields.items()})
        return ('p', root, ())

    def sym(self, kind, dom, t):
        v = T(kind, len(self.syms))
        self.syms[v] = dom
        self.I.note(v, t)
        return v

    def atom(self):
        a = self.sym('atom', (False, True), 'bool')
        x = self.new(NS + 'FireableCondition', {'#atom': a})
        self.meaning[x] = lambda env: env[a]
        return x

    def cmp(self, op, left, place):
        v = self.sym('val', self.VALS, 'long')
        ide = self.new(NS + 'UnfoldedIdentifierExpr', {'_offsetInMarking': C(place), '_name': self.new('std::string', {'s': C('p%d' % place)})})
        lit = self.new(NS + 'LiteralExpr', {'_value': v})
        self.vals[lit] = v
        x = self.new(NS + CMPS[op], {'_expr1': ide if left else lit, '_expr2': lit if left else ide})

        def m(env):
            t, c = env['tok', place], env[v]
            a, b = (t, c) if left else (c, t)
            return {'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b}[op]
        self.meaning[x] = m
        return x

    def general(self):
        """a comparison without a single place on one side"""
        a = self.sym('atom', (False, True), 'bool')
        e1 = self.new(NS + 'PlusExpr', {})
        e2 = self.new(NS + 'PlusExpr', {})
        x = self.new(NS + 'LessThanCondition', {'_expr1': e1, '_expr2': e2})
        self.meaning[x] = lambda env: env[a]
        return x

    def conj(self, negd, shapes):
        cons, ms = [], []
        for place, sh in shapes:
            lo = self.sym('lo', [b for b in self.BND if b > 0], 'unsigned int') if 'l' in sh else C(0)
            up = self.sym('up', [b for b in self.BND if b < MAX], 'unsigned int') if 'u' in sh else C(MAX)
            if 'l' in sh:
                self.pre.append(('>=', lo, C(1)))
                self.pre.append(('<=', lo, C(MAX)))
            if 'u' in sh:
                self.pre.append(('<', up, C(MAX)))
            cons.append(Obj(CONS, None, {('f', '_place'): C(place), ('f', '_lower'): lo, ('f', '_upper'): up,
                                         ('f', '_name'): T('name', place)}))
            ms.append((place, lo, up))
        x = self.new(CC, {'_constraints': seqlib.seq(cons), '_negated': C(negd)})
        self.meaning[x] = lambda env: all(term(lo, env) <= env['tok', pl] <= term(up, env) for pl, lo, up in ms) != negd
        return x

    def logical(self, kind, kids):
        x = self.new(NS + kind, {'_conds': seqlib.seq(kids)})
        f = all if kind == 'AndCondition' else any
        self.meaning[x] = lambda env: f(self.meaning[k](env) for k in kids)
        return x


def operand_kinds():
    ks = {'atom': lambda b: b.atom(), 'general': lambda b: b.general()}
    for op in CMPS:
        for left in (True, False):
            nm = 'p%sc' % op if left else 'c%sp' % op
            ks[nm] = lambda b, op=op, left=left: b.cmp(op, left, 1)
    for negd in (False, True):
        for sh in ('l', 'u', 'lu'):
            ks['%s[%s]' % ('!' if negd else '', sh)] = lambda b, negd=negd, sh=sh: b.conj(negd, [(1, sh)])
        ks['%s[l,u]' % ('!' if negd else '')] = lambda b, negd=negd: b.conj(negd, [(1, 'l'), (2, 'u')])
        ks['%s[u]@0' % ('!' if negd else '')] = lambda b, negd=negd: b.conj(negd, [(0, 'u')])
        ks['%s[l]@2' % ('!' if negd else '')] = lambda b, negd=negd: b.conj(negd, [(2, 'l')])
    ks['And(atom,p<=c)'] = lambda b: b.logical('AndCondition', [b.atom(), b.cmp('<=', True, 1)])
    ks['Or(atom,c<p)'] = lambda b: b.logical('OrCondition', [b.atom(), b.cmp('<', False, 1)])
    return ks


class Meaning:
    def __init__(self, b, st, flds):
        self.b, self.st, self.F = b, st, flds

    def ptr(self, v, env, depth=0):
        if depth > 8:
            raise Unk('depth')
        if v[0] == 't' and v[1] == 'bool':
            return bool(cval(v[2]))
        if v[0] == 't' and v[1] == 'global' and v[2] in (NS + 'BooleanCondition::TRUE_CONSTANT', NS + 'BooleanCondition::FALSE_CONSTANT'):
            return v[2].endswith('TRUE_CONSTANT')
        if v[0] != 'p':
            raise Unk(show(v)[:60])
        o = load(self.st, (v[1], v[2]))
        if v in self.b.meaning and (o == self.b.st.store.get(v[1])):
            return self.b.meaning[v](env)
        cls = getattr(o, 'cls', None)
        if cls == CC:
            return self.cc(o, env)
        if cls in (NS + 'AndCondition', NS + 'OrCondition'):
            q = get_step(o, ('f', self.F['conds']))
            if not seqlib.conc(q):
                raise Unk('operand list')
            xs = [self.ptr(x, env, depth + 1) for x in seqlib.items(q)]
            return all(xs) if cls.endswith('AndCondition') else any(xs)
        if cls == NS + 'NotCondition':
            return not self.ptr(get_step(o, ('f', '_cond')), env, depth + 1)
        raise Unk('object of class %s' % cls)

    def cc(self, o, env):
        q = get_step(o, ('f', self.F['constraints']))
        ng = get_step(o, ('f', self.F['negated']))
        if not seqlib.conc(q):
            raise Unk('constraint list')
        r = True
        for c in seqlib.items(q):
            lo, up, pl = (term(get_step(c, ('f', f)), env) for f in ('_lower', '_upper', '_place'))
            if not lo_ok(lo) or not lo_ok(up):
                lo, up = lo & MAX, up & MAX
            r = r and lo <= env['tok', pl] <= up
        return r != bool(term(ng, env))


def lo_ok(x):
    return 0 <= x <= MAX


def setup(ctx, p, b_ref):
    I = Interp(p, max_states=4000)
    seqlib.install(I)
    I.cast_hook = strict_cast
    I.budget = 3000000

    def ev(I, e, st, loc, ptr):
        out = []
        for vs, s in I.evals(e['args'], st):
            v = b_ref[0].vals.get(vs[0])
            out.append((v if v is not None else T('unk', 'evaluate'), s))
        return out
    I.hooks[NS + 'evaluate'] = ev

    def place_free(I, e, st, loc, ptr):
        return [(C(ptr in b_ref[0].vals), st)]
    I.name_hooks['placeFree'] = place_free

    def temporal(I, e, st, loc, ptr):
        out = []
        for vs, s in I.evals(e['args'], st):
            out += [(C(r), s2) for r, s2 in I.decide_atom(s, T('temporal', vs[0]))]
        return out
    I.hooks[NS + 'isTemporal'] = temporal
    I.hooks[NS + 'BooleanCondition::getShared'] = lambda I, e, st, loc, ptr: [(T('bool', v), s) for v, s in I.eval(e['args'][0], st)]
    return I


def getters(p):
    F = {'conds': '_conds', 'constraints': '_constraints', 'negated': '_negated'}
    try:
        F['conds'] = getter_field(p, NS + 'LogicalCondition', 'getOperands')[-1][1]
        F['constraints'] = getter_field(p, CC, 'constraints')[-1][1]
        F['negated'] = getter_field(p, CC, 'isNegated')[-1][1]
    except AnchorError:
        pass
    return F


def envs(b, places):
    keys = list(b.syms)
    n = 1
    for k in keys:
        n *= len(b.syms[k])
    for vs in itertools.product(*[b.syms[k] for k in keys]):
        yield dict(zip(keys, vs))


def judge(ctx, name, b, st, v, spec, F, where, obj=False):
    """the produced formula equals spec in every assignment consistent with the path"""
    M = Meaning(b, st, F)
    bad = None
    for env0 in envs(b, None):
        h = holds(st.facts, env0, free=('temporal', 'atom'))
        if h is False:
            continue
        toks = sorted({t for t in env0.values() if not isinstance(t, bool) and 0 <= t <= MAX} | {0, MAX} |
                      {t + 1 for t in env0.values() if not isinstance(t, bool) and 0 <= t < MAX} |
                      {t - 1 for t in env0.values() if not isinstance(t, bool) and 0 < t <= MAX})
        for t1 in toks:
            for t2 in (0, MAX) if any(k[1] == 'lo' or k[1] == 'up' for k in b.syms) else (0,):
                env = dict(env0)
                env['tok', 1] = t1
                env['tok', 2] = env['tok', 0] = t1 if t2 == 0 else MAX - t1
                try:
                    got = M.cc(load(st, (v[1], v[2])), env) if obj else M.ptr(v, env)
                except Unk as ex:
                    ctx.und(name, 'result not understood: %s' % ex, where)
                    return False
                if got != spec(env):
                    if h is None:
                        ctx.und(name, 'path condition not understood', where)
                        return False
                    ctx.bad(name, 'the operands are %s but the built formula is %s for %s' % (
                        spec(env), got, ', '.join('%s=%s' % (k if isinstance(k[0], str) and k[0] == 'tok' else k[1] + str(k[2]), x) for k, x in env.items())), where)
                    return False
    return True


def stuck(ctx, I, b, name, where):
    """a throw or failed assertion that some operands reach"""
    for s in I.thrown + I.aborted:
        for env in envs(b, None):
            h = holds(s.facts, env, free=('temporal', 'atom'))
            if h:
                ctx.bad(name, 'building the formula throws or fails an assertion for %s' % ', '.join('%s=%s' % (k[1] + str(k[2]), x) for k, x in env.items()), where)
                return True
    return False


def run(ctx):
    ctx.rule('makeAnd(xs) == conjunction of xs; makeOr(xs) == disjunction of xs; And/Or constructors keep every operand')
    p = ctx.program(TUS)
    F = getters(p)
    kinds = operand_kinds()
    fns = {}
    for nm in ('makeAnd', 'makeOr'):
        for f in p.byq.get(NS + nm, []):
            fns.setdefault(nm, []).append(f)
    jobs = []
    for nm in ('makeAnd', 'makeOr'):
        vec = [f for f in fns.get(nm, []) if len(f['params']) == 1]
        two = [f for f in fns.get(nm, []) if len(f['params']) == 2]
        if not vec or not two:
            ctx.und(nm, 'function not found')
            continue
        for k in kinds:
            jobs.append((nm, vec[0], (k,)))
        jobs.append((nm, vec[0], ()))
        for a in kinds:
            for b in kinds:
                jobs.append((nm, vec[0], (a, b)))
        for a, b in (('atom', 'atom'), ('p<=c', 'c<=p'), ('atom', '[l]')):
            jobs.append((nm, two[0], (a, b)))
        tri = ['atom', 'p<=c', '[l]', '![u]', '[u]@0', '[lu]', '![l]@2']
        if ctx.tier == 'thorough':
            tri += ['p==c', 'p!=c', '![l,u]', '[l,u]', 'c<p']
        tri = [t for t in tri if t in kinds]
        for t in itertools.product(tri, repeat=3):
            jobs.append((nm, vec[0], t))
    ctx.parallel(jobs, lambda j: one(ctx, p, F, kinds, *j))
    for cn in ('AndCondition', 'OrCondition'):
        ctors(ctx, p, F, kinds, cn)
    copy_ctor(ctx, p, F, kinds)
    interval_ctor(ctx, p, F)


def one(ctx, p, F, kinds, nm, f, ks):
    name = '%s(%s)' % (nm, ', '.join(ks))
    where = site(f)

    def go():
        ref = [None]
        I = setup(ctx, p, ref)
        st = State()
        b = ref[0] = Build(p, I, st, len(ks) > 2)
        xs = [kinds[k](b) for k in ks]
        sts = [st]
        for op, x, y in b.pre:
            sts = [s for q in sts for r, s in I.decide(q, op, x, y) if r]
        comb = all if nm == 'makeAnd' else any
        spec = lambda env: comb(b.meaning[x](env) for x in xs)
        args = [seqlib.seq(xs)] if len(f['params']) == 1 else xs
        rs = I.run(f, None, args, sts[0])
        ctx.note_interp(I, len(rs))
        if stuck(ctx, I, b, name, where):
            return
        if not rs:
            ctx.und(name, 'no result', where)
            return
        for v, s in rs:
            if not judge(ctx, name, b, s, v, spec, F, where):
                return
        ctx.ok(name, '', where)
    ctx.attempt(name, go, where)


def ctors(ctx, p, F, kinds, cn):
    cls = NS + cn
    rec = p.records.get(cls)
    for m in (rec or {'methods': []})['methods']:
        f = p.fns.get(m['key'])
        if f is None or not f.get('ctor') or f.get('implicit') or not f['params'] or cn in f['params'][0]['t']:
            continue
        vec = 'vector' in f['params'][0]['t']
        for ks in ((), ('atom',), ('atom', 'p<=c'), ('And(atom,p<=c)', '[l]'), ('Or(atom,c<p)', 'And(atom,p<=c)'), ('atom', 'Or(atom,c<p)', 'atom')):
            if not vec and len(ks) != len(f['params']):
                continue
            name = '%s%s(%s)' % (cn, '&&' if f['params'][0]['t'].endswith('&&') else '', ', '.join(ks))
            where = site(f)

            def go():
                ref = [None]
                I = setup(ctx, p, ref)
                st = State()
                b = ref[0] = Build(p, I, st)
                xs = [kinds[k](b) for k in ks]
                for op, x, y in b.pre:
                    st = [s for r, s in I.decide(st, op, x, y) if r][0]
                    st.store = dict(st.store)
                b.st = st
                root = ('h', 'obj')
                st.store[root] = Obj(cls, None, {('f', F['conds']): seqlib.seq([])})
                comb = all if cn == 'AndCondition' else any
                spec = lambda env: comb(b.meaning[x](env) for x in xs)
                rs = I.run(f, ('p', root, ()), [seqlib.seq(xs)] if vec else xs, st)
                ctx.note_interp(I, len(rs))
                if stuck(ctx, I, b, name, where):
                    return
                if not rs:
                    ctx.und(name, 'no result', where)
                for v, s in rs:
                    if not judge(ctx, name, b, s, ('p', root, ()), spec, F, where):
                        return
                ctx.ok(name, '', where)
            ctx.attempt(name, go, where)


def copy_ctor(ctx, p, F, kinds):
    rec = p.records.get(CC)
    for m in rec['methods']:
        f = p.fns.get(m['key'])
        if f is None or not f.get('ctor') or len(f['params']) != 2 or norm_type(f['params'][0]['t']) != CC:
            continue
        where = site(f)
        for k in kinds:
            if '[' not in k:
                continue
            for flip in (False, True):
                name = 'copy of %s%s' % (k, ' negated' if flip else '')

                def go():
                    ref = [None]
                    I = setup(ctx, p, ref)
                    st = State()
                    b = ref[0] = Build(p, I, st)
                    x = kinds[k](b)
                    root = ('h', 'obj')
                    st.store[root] = Obj(CC, None, {})
                    rs = I.run(f, ('p', root, ()), [('L', (x[1], x[2])), C(flip)], st)
                    ctx.note_interp(I, len(rs))
                    if not rs:
                        ctx.und(name, 'no result', where)
                    for v, s in rs:
                        if not judge(ctx, name, b, s, ('p', root, ()), lambda env: b.meaning[x](env) != flip, F, where):
                            return
                    ctx.ok(name, '', where)
                ctx.attempt(name, go, where)


def interval_ctor(ctx, p, F):
    """CompareConjunction(comparisons, negated) denotes their conjunction (disjunction when negated)"""
    rec = p.records.get(CC)
    jobs = []
    for m in rec['methods']:
        f = p.fns.get(m['key'])
        if f is None or not f.get('ctor') or len(f['params']) != 2 or 'shared_ptr' not in f['params'][0]['t']:
            continue
        for negd in (False, True):
            ops = [(op, left) for op in (('<', '<=', '!=') if negd else ('<', '<=', '==')) for left in (True, False)]
            for a in ops:
                jobs.append((f, negd, (a,)))
                for b in ops:
                    if not (negd and (a[0] == '!=')) :
                        jobs.append((f, negd, (a, b)))

    def one(job):
        f, negd, ops = job
        where = site(f)
        name = 'intervals(%s%s)' % ('not all of ' if negd else '', ', '.join(('p%sc' if l else 'c%sp') % o for o, l in ops))

        def go():
            for places in ((1, 1), (1, 2), (2, 1)) if len(ops) == 2 else ((1,),):
                if negd and len(set(places)) < len(places):
                    continue
                ref = [None]
                I = setup(ctx, p, ref)
                st = State()
                b = ref[0] = Build(p, I, st)
                xs = [b.cmp(op, left, pl) for (op, left), pl in zip(ops, places)]
                for v, (op, left) in zip(list(b.syms), ops):
                    lo = 1 if (op == '<' and left) or (op == '<=' and not left) else 0
                    b.syms[v] = [x for x in VALS if lo <= x < MAX]
                    for o, c in (('>=', lo), ('<', MAX)):
                        st = [s for r, s in I.decide(st, o, v, C(c)) if r][0]
                st.store = dict(st.store)
                b.st = st
                root = ('h', 'obj')
                st.store[root] = Obj(CC, None, {('f', F['constraints']): seqlib.seq([])})
                comb = any if negd else all
                spec = lambda env: comb(b.meaning[x](env) for x in xs)
                rs = I.run(f, ('p', root, ()), [seqlib.seq(xs), C(negd)], st)
                ctx.note_interp(I, len(rs))
                if stuck(ctx, I, b, name, where):
                    return
                if not rs:
                    ctx.und(name, 'no result', where)
                for v, s in rs:
                    if not judge(ctx, name, b, s, ('p', root, ()), spec, F, where):
                        return
            ctx.ok(name, '', where)
        ctx.attempt(name, go, where)
    ctx.parallel(jobs, one)
