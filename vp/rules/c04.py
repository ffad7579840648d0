"""C04: pushing negations and the temporal rewrites preserve the meaning of the query."""
from ..pql import *
from .. import temporal as TL

LEVEL = 'other'
MIN_OBLIGATIONS = 60
EXPLANATION = ('Abstract interpretation of every rewrite method with sub-formulas as free (Herbrand) terms: each abstract path yields one rewrite '
               'rule (input shape, conditions on sub-results, produced formula). Every rule is compared with the meaning of the input operator over '
               'all Kripke structures with 2 and 3 states (deadlocked states included; ultimately periodic words for linear operators; small integers '
               'for comparisons); rewriting that is only valid in the initial marking must not be used below a temporal operator.')
TUS = ['src/PetriEngine/PQL/PushNegation.cpp', 'src/PetriEngine/PQL/Expressions.cpp', 'src/PetriEngine/PQL/PQL.cpp']
PNV = NS + 'PushNegationVisitor'
UN = {'EX': 'EX', 'AX': 'AX', 'EF': 'EF', 'AF': 'AF', 'EG': 'EG', 'AG': 'AG', 'X': 'X', 'F': 'F', 'G': 'G', 'E': 'E', 'A': 'A'}
UNCLS = {NS + k + 'Condition': v for k, v in UN.items()}
BINCLS = {NS + 'EUCondition': 'EU', NS + 'AUCondition': 'AU', NS + 'UntilCondition': 'U'}
CMPCLS = {NS + 'LessThanCondition': '<', NS + 'LessThanOrEqualCondition': '<=', NS + 'EqualCondition': '==', NS + 'NotEqualCondition': '!='}
SHALLOW = ['FireableCondition', 'UnfoldedFireableCondition', 'KSafeCondition', 'LivenessCondition', 'QuasiLivenessCondition', 'StableMarkingCondition']
CONSTS = {NS + 'BooleanCondition::TRUE_CONSTANT': ('true',), NS + 'BooleanCondition::FALSE_CONSTANT': ('false',),
          NS + 'DeadlockCondition::DEADLOCK': ('dead',)}


def gname(v):
    """name of the global a term denotes"""
    if v[0] == 't' and v[1] == 'global':
        return v[2]
    return None


class Sem:
    """translation of engine terms to formulas, given the facts of a path"""

    def __init__(self, p, st, el, cls):
        self.p, self.st, self.el, self.cls = p, st, el, cls
        self.defs, self.cons = [], []
        self.done = {}
        self.used_neg = False
        self.fields = {}

    def fieldsof(self, cls, n):
        """(term -> child) accessors of an n-ary node"""
        k = (cls, n)
        if k not in self.fields:
            self.fields[k] = accessor(self.p, cls, 'operator[]', C(n), el=T('x'))
        return self.fields[k]

    def child(self, x, cls, n):
        loc_t = self.fieldsof(cls, n)
        return subst(loc_t, T('x'), x)

    def is_fact(self, x):
        for k, v in self.st.facts.items():
            if k[0] == 'b' and v is True and k[1][0] == 't' and k[1][1] == 'is' and k[1][2] == x:
                return CONSTS[k[1][3]]
            if k[0] == 'b' and v is True and k[1][0] == 't' and k[1][1] in ('trivT', 'trivF') and k[1][2] == x:
                return ('true',) if k[1][1] == 'trivT' else ('false',)
        return None

    def isa(self, x):
        for k, v in self.st.facts.items():
            if k[0] == 'b' and v is True and k[1][0] == 't' and k[1][1] == 'isa' and k[1][2] == x:
                return k[1][3]
        return None

    def node(self, cls, x):
        """formula of a node of class cls whose children are the sub-terms of x"""
        if cls in UNCLS:
            return (UNCLS[cls], self.tr(self.child(x, cls, 0)))
        if cls == NS + 'NotCondition':
            return ('not', self.tr(self.child(x, cls, 0)))
        if cls in BINCLS:
            return (BINCLS[cls], self.tr(self.child(x, cls, 0)), self.tr(self.child(x, cls, 1)))
        if cls in (NS + 'OrCondition', NS + 'AndCondition'):
            seq = load(self.st, (('d', x), (('f', '_conds'),)))
            if seq[0] != 'seq':
                raise TL.Unknown('operands of a connective')
            return ('or' if cls.endswith('OrCondition') else 'and', tuple(self.tr(y[1]) for y in seq[1]))
        if cls == NS + 'DeadlockCondition':
            return ('dead',)
        raise TL.Unknown('structure ' + cls)

    def expr(self, x):
        if x[0] == 't' and str(x[1]) == 'new:' + NS + 'LiteralExpr':
            if isnum(x[2]):
                return ('int', cval(x[2]))
            raise TL.Unknown('literal ' + show(x)[:40])
        return ('num', x)

    def tr(self, x):
        if x in self.done:
            return self.done[x]
        g = gname(x)
        if g in CONSTS:
            return CONSTS[g]
        if x[0] == 'e' and x[2] in ('RTRUE', 'RFALSE'):
            return ('true',) if x[2] == 'RTRUE' else ('false',)
        if x[0] == 't':
            op = str(x[1])
            if op == 'bool':
                return self.boolv(x[2])
            if op in ('Or', 'And'):
                return (op.lower(), tuple(self.tr(y) for y in x[2:]))
            if op == 'clone':
                return self.tr(x[2])
            if op == 'pn':
                return self.pn(x)
            if op.startswith('new:'):
                cls = op[4:]
                a = x[2:]
                if cls in UNCLS and len(a) == 1:
                    return (UNCLS[cls], self.tr(a[0]))
                if cls == NS + 'NotCondition' and len(a) == 1:
                    return ('not', self.tr(a[0]))
                if cls in BINCLS and len(a) == 2:
                    return (BINCLS[cls], self.tr(a[0]), self.tr(a[1]))
                if cls in CMPCLS and len(a) == 2:
                    return ('cmp', CMPCLS[cls], self.expr(a[0]), self.expr(a[1]))
                if cls in (NS + 'ExistPath', NS + 'AllPaths') and len(a) == 3:
                    if a[0] != self.path('name') or a[2] != self.path('offset'):
                        return ('atom', ('other trace', x))
                    return ('E' if cls.endswith('ExistPath') else 'A', self.tr(a[1]))
                if cls == NS + 'PathSelectCondition' and len(a) == 3:
                    if a[0] != self.path('name') or a[2] != self.path('offset'):
                        return ('atom', ('other trace', x))
                    return self.tr(a[1])      # a state formula read on one trace: negation commutes with it
                if cls == NS + 'CompareConjunction' and len(a) == 2 and a[1] in (TRUE, FALSE):
                    n = self.ref(a[0])
                    return ('not', self.tr(n)) if a[1] == TRUE else self.tr(n)
                if cls == NS + 'ControlCondition' and len(a) == 1:
                    return self.tr(a[0])
                if cls in [NS + c for c in SHALLOW] and cls == self.cls and len(a) == 1 and a[0] == self.path('_name', raw=True):
                    return ('atom', self.el)
                if cls == NS + 'DeadlockCondition' and not a:
                    return ('dead',)
                if cls == NS + 'UnfoldedUpperBoundsCondition' and cls == self.cls and len(a) == 3:
                    want = [accessor(self.p, cls, m, el=self.el) for m in ('places', 'getMax', 'getOffset')]
                    if list(a) == want:
                        return ('atom', self.el)
                    return ('atom', ('other bounds', x))
                raise TL.Unknown('constructor ' + op)
        if x == self.el:
            return self.elform()
        f = self.is_fact(x)
        if f is not None:
            return f
        k = self.isa(x)
        if k:
            return self.node(k, x)
        if x[0] == 't' and x[1] in ('sel', 'opd', '*'):
            r = x
            while r[0] == 't' and r[1] in ('sel', 'opd', '*'):
                r = r[2]
            if r == self.el or (r[0] == 't' and r[1] == 'pn'):
                return ('atom', x)
        raise TL.Unknown(show(x)[:60])

    def ref(self, x):
        if x == T('*', self.el):
            return self.el
        return x

    def boolv(self, v):
        if v in (TRUE, FALSE):
            return ('true',) if v == TRUE else ('false',)
        if v[0] == 'e':
            return ('true',) if v[3] != 0 else ('false',)
        raise TL.Unknown('boolean ' + show(v)[:40])

    def path(self, name, raw=False):
        return accessor(self.p, self.cls, name if not raw else 'getName', el=self.el)

    def elform(self):
        cls = self.cls
        if cls in CMPCLS:
            return ('cmp', CMPCLS[cls], self.expr(self.child(self.el, cls, 0)), self.expr(self.child(self.el, cls, 1)))
        if cls in UNCLS or cls in BINCLS or cls in (NS + 'NotCondition', NS + 'AndCondition', NS + 'OrCondition', NS + 'DeadlockCondition'):
            return self.node(cls, self.el)
        if cls == NS + 'BooleanCondition':
            return ('atom', self.el)
        if cls in (NS + 'ExistPath', NS + 'AllPaths'):
            return ('E' if cls.endswith('ExistPath') else 'A', self.tr(self.path('child')))
        if cls == NS + 'PathSelectCondition':
            return self.tr(self.path('child'))
        if cls == NS + 'ControlCondition':
            return self.tr(self.child(self.el, cls, 0))
        return ('atom', self.el)

    def pn(self, x):
        c, neg, nest = x[2], x[3], x[4]
        at = ('atom', x)
        self.done[x] = at
        comp = accessor(self.p, self.cls, 'getCompiled', el=self.el) if self.p.method(self.cls, 'getCompiled') else None
        cf = ('atom', self.el) if comp is not None and c == comp else self.tr(c)
        cv = cf if not neg else ('not', cf)
        if self.cls in (NS + 'ECondition', NS + 'ACondition', NS + 'ExistPath', NS + 'AllPaths'):
            nest = True      # every position of the model stands for the start of a path from the initial marking
        s = self.is_fact(x)
        k = self.isa(x)
        if s is None and k:
            s = self.node(k, x)
        if s is not None:
            self.defs.append((x, s))
        if nest and s is None:
            self.defs.append((x, cv))
        elif nest and cf[0] == 'atom' and cf[1] not in [a for a, _ in self.defs] and cf[1] not in [z for z in self.pending(s)]:
            self.defs.append((cf[1], at if not neg else ('not', at)))
        else:
            self.cons.append((at, cv, not nest))
        return at

    def pending(self, s):
        b, n = [], []
        TL.leaves(s, b, n)
        return b


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)
    return t


def setup(ctx, p, cls, this, el):
    I = Interp(p)
    I.unroll = 6
    R = results(p)
    I.herbrand = lambda c: c.startswith(NS) and (c.endswith('Condition') or c.endswith('Expr') or c in (NS + 'CompareConjunction', NS + 'ExistPath', NS + 'AllPaths'))
    I.dynclass = lambda v: cls if v in (el, T('*', el)) else (PNV if v in (this, T('*', this)) else None)

    def val(I, a, st):
        """Herbrand value of a condition argument (pointer, reference or shared pointer)"""
        if a[0] == 'p':
            v = load(st, (a[1], a[2]))
            if v[0] == 't' and str(v[1]).startswith('new:'):
                return v
            if a[1][0] == 'd' and not a[2]:
                return a[1][1]
            return v
        if a[0] == 't' and a[1] == '*':
            return a[2]
        return a

    def subvisit(I, e, st, loc, ptr):
        out = []
        for (c, ne, ng), s in I.evals(e['args'], st):
            c = val(I, c, s)
            for r1, s1 in I.truth(s, ne):
                for r2, s2 in I.truth(s1, ng):
                    s3 = s2.copy()
                    v = T('pn', c, r2, r1)
                    if str(c[1]) == 'pn':
                        pass
                    out.append((I.note(v, 'std::shared_ptr<Condition>'), s3))
        return out
    I.hooks[PNV + '::subvisit'] = subvisit

    def init_rw(I, e, st, loc, ptr):
        out = []
        for vs, s in I.evals(e['args'], st):
            fnv = vs[0]
            if fnv[0] != 'cl':
                raise Unsupported('initial-marking rewriting of something else than a closure')
            out += I.unlv(I.call_closure(fnv, [], s, e))
            # the flags must be those of the visitor
            s.ghost['rwargs'] = tuple(vs[3:6])
        return out
    I.hooks[NS + 'initialMarkingRW'] = init_rw

    def seqcond(kind):
        def h(I, e, st, loc, ptr):
            out = []
            for vs, s in I.evals(e['args'], st):
                if len(vs) == 1:
                    q = vs[0]
                    if q[0] == 'p':
                        q = load(s, (q[1], q[2]))
                    if q[0] != 'seq' or not all(x[0] == 'one' for x in q[1]):
                        raise Unsupported('operand list of make' + kind)
                    out.append((T(kind, *[x[1] for x in q[1]]), s))
                else:
                    out.append((T(kind, *vs), s))
            return out
        return h
    I.hooks[NS + 'makeOr'] = seqcond('Or')
    I.hooks[NS + 'makeAnd'] = seqcond('And')

    def atom1(nm):
        def h(I, e, st, loc, ptr):
            v = ptr
            if v is None or v[0] == 'p':
                v = val(I, v, st) if v is not None else load(st, loc)
            g = gname(v)
            if g in CONSTS and nm in ('trivT', 'trivF'):
                return [(C(CONSTS[g] == (('true',) if nm == 'trivT' else ('false',))), st)]
            return [(C(r), s) for r, s in I.decide_atom(st, T(nm, v))]
        return h
    I.name_hooks['isTriviallyTrue'] = atom1('trivT')
    I.name_hooks['isTriviallyFalse'] = atom1('trivF')
    I.name_hooks['isTrivial'] = atom1('trivial')
    I.name_hooks['placeFree'] = atom1('placeFree')
    I.name_hooks['clone'] = lambda I, e, st, loc, ptr: [(T('clone', val(I, ptr, st)), st)]

    def istemp(I, e, st, loc, ptr):
        return [(C(r), s2) for (a,), s in I.evals(e['args'], st) for r, s2 in I.decide_atom(s, T('temporal', val(I, a, s)))]
    I.hooks[NS + 'isTemporal'] = istemp

    def shared(I, e, st, loc, ptr):
        return [(T('bool', C(r)), s2) for (a,), s in I.evals(e['args'], st) for r, s2 in I.truth(s, a)]
    I.hooks[NS + 'BooleanCondition::getShared'] = shared

    def evalh(I, e, st, loc, ptr):
        out = []
        for vs, s in I.evals(e['args'], st):
            a = val(I, vs[0], s)
            t = e['args'][0].get('t') or ''
            if 'Expr' in t and 'Condition' not in t:
                out.append((I.note(T('val', a), 'long'), s))
            else:
                for n in ('RTRUE', 'RFALSE', 'RUNKNOWN'):
                    s2 = s.copy()
                    s2.ghost['evals'] = s2.ghost.get('evals', ()) + ((a, n),)
                    out.append((R[n], s2))
        return out
    I.hooks[NS + 'evaluate'] = evalh

    def vis(I, e, st, loc, ptr):
        t0 = (e['args'][0].get('t') or '')
        if 'CanBeNegative' in t0:
            out = []
            for vl, c, s in visit_child(I, e, st):
                for r, s2 in I.decide_atom(s, T('canneg', c)):
                    s2 = s2.copy()
                    save(s2, (vl[0], vl[1] + (('f', 'result'),)), C(r))
                    out.append((NULL, s2))
            return out
        out = []
        for vl, c, s in visit_child(I, e, st):
            s = s.copy()
            ng = load(s, (('d', this), (('f', 'negated'),)))
            ne = load(s, (('d', this), (('f', 'nested'),)))
            save(s, (('d', this), (('f', 'return_value'),)), T('pn', c, ng == TRUE, ne == TRUE))
            out.append((NULL, s))
        return out
    I.hooks[VISIT] = vis

    def eqh(I, st, a, b):
        for x, y in ((a, b), (b, a)):
            g = gname(y)
            if g in CONSTS:
                gx = gname(x)
                if gx in CONSTS:
                    return [(gx == g, st)]
                if x == NULL or (x[0] == 't' and str(x[1]).startswith('new:')):
                    return [(False, st)]
                if x[0] == 't' and x[1] == 'bool':
                    return [(CONSTS[g] == (('true',) if x[2] == TRUE else ('false',)), st)]
                for k, v in st.facts.items():
                    if v is True and k[0] == 'b' and k[1][0] == 't' and k[1][1] == 'isa' and k[1][2] == x:
                        if not ('DeadlockCondition' in k[1][3] and CONSTS[g] == ('dead',)):
                            return [(False, st)]
                    if v is True and k[0] == 'b' and k[1][0] == 't' and k[1][1] == 'is' and k[1][2] == x:
                        return [(k[1][3] == g, st)]
                return I.decide_atom(st, T('is', x, g))
        return None
    I.eq_hook = eqh

    def dyn(I, v, t, st):
        if v[0] == 't' and v[1] in ('Or', 'And', 'clone', 'bool'):
            raise Unsupported('cast of a built formula')
        g = gname(v)
        if g in CONSTS:
            return [(v if t == (NS + ('DeadlockCondition' if CONSTS[g] == ('dead',) else 'BooleanCondition')) else NULL, st)]
        for k, f in st.facts.items():
            if f is True and k[0] == 'b' and k[1][0] == 't' and k[1][2:3] == (v,):
                if k[1][1] == 'isa':
                    return [(v if t in p.bases(k[1][3]) else NULL, st)]
                if k[1][1] == 'is':
                    return [(NULL, st)]
                if k[1][1] in ('trivT', 'trivF'):
                    return [(NULL, st)]
        out = []
        for r, s in I.decide_atom(st, T('isa', v, t)):
            if not r:
                out.append((NULL, s))
            elif t in (NS + 'OrCondition', NS + 'AndCondition'):
                for n in (2, 3) if ctx.tier == 'thorough' else (2,):
                    s2 = s.copy()
                    save(s2, (('d', v), (('f', '_conds'),)), ('seq', tuple(('one', I.note(T('opd', v, i), 'std::shared_ptr<Condition>')) for i in range(n))))
                    out.append((v, s2))
            else:
                out.append((v, s))
        return out
    I.dyn_hook = dyn
    return I


def run(ctx):
    ctx.rule('result of pushing through an operator == (operator xor negated), in every structure; only in the initial state when not nested')
    p = ctx.program(TUS)
    classes = list(UNCLS) + list(BINCLS) + list(CMPCLS) + [NS + c for c in SHALLOW] + [NS + c for c in (
        'NotCondition', 'AndCondition', 'OrCondition', 'CompareConjunction', 'BooleanCondition', 'DeadlockCondition', 'ExistPath', 'AllPaths',
        'PathSelectCondition', 'ControlCondition', 'UpperBoundsCondition', 'UnfoldedUpperBoundsCondition')]
    for cls in classes:
        if cls not in p.records:
            ctx.und(cls.split('::')[-1], 'class not found')
            continue
        key = accept_fn(p, PNV, cls)
        f = p.fns.get(key) if key else None
        if f is None:
            ctx.und(cls.split('::')[-1], 'no rewrite method found')
            continue
        for negated in (False, True):
            for nested in (True, False):
                one(ctx, p, cls, f, negated, nested)
    init_rw(ctx, p)
    trivial(ctx, p)
    can_be_negative(ctx, p)
    subvisit_frame(ctx, p)


def one(ctx, p, cls, f, negated, nested):
    cn = cls.split('::')[-1]
    this, el = T('this'), T('el')
    name = '%s%s%s' % ('!' if negated else '', cn, '/nested' if nested else '')
    where = site(f)
    if cn == 'ControlCondition' and (negated or nested):
        return

    def go():
        for nops in ((0, 1, 2, 3) if cn in ('AndCondition', 'OrCondition') else (None,)):
            if nops == 3 and ctx.tier != 'thorough':
                continue
            I = setup(ctx, p, cls, this, el)
            st = State()
            save(st, (('d', this), (('f', 'negated'),)), C(negated))
            save(st, (('d', this), (('f', 'nested'),)), C(nested))
            if nops is not None:
                save(st, (('d', el), (('f', '_conds'),)), ('seq', tuple(('one', I.note(T('opd', el, i), 'std::shared_ptr<Condition>')) for i in range(nops))))
            rs = I.run(f, this, [el], st)
            ctx.note_interp(I, len(rs))
            if not rs:
                if cn.endswith('UpperBoundsCondition') and negated:
                    ctx.ok(name + ':refused', '', where)
                else:
                    ctx.und(name, 'no terminating path', where)
            for v, s in rs:
                judge(ctx, p, I, s, cls, name, negated, nested, where, this, el)
    ctx.attempt(name, go, where)


def judge(ctx, p, I, s, cls, name, negated, nested, where, this, el):
    cn = cls.split('::')[-1]
    r = load(s, (('d', this), (('f', 'return_value'),)))
    rw = s.ghost.get('rwargs')
    if cn.endswith('UpperBoundsCondition') and negated:
        ctx.bad(name + ':refused', 'a bound query is negated without complaint', where)
        return
    S = Sem(p, s, el, cls)
    try:
        for k in list(s.facts):
            if k[0] == 'b':
                for x in sorted(pn_terms(k[1]), key=lambda y: len(repr(y))):
                    S.tr(x)
        rf = S.tr(r)
        ef = S.tr(el)
    except TL.Unknown as ex:
        ctx.und(name + ':result', 'formula not understood: %s' % ex, where)
        return
    spec = ('not', ef) if negated else ef
    cons, numcons = list(S.cons), []
    if cn == 'BooleanCondition':
        for k, v in s.facts.items():
            if k[0] == 'b' and k[1] == accessor_field(p, cls, 'value', el):
                cons.append((('atom', el), ('true',) if v else ('false',), False))
    for a, n in s.ghost.get('evals', ()):
        if n == 'RUNKNOWN':
            if a == el and s.facts.get(('b', T('trivial', el))):
                return      # a comparison of constants always has a value
            ctx.und(name, 'value of an unknown evaluation used', where)
            return
        if a == el:
            cons.append((ef, ('true',) if n == 'RTRUE' else ('false',), False))
    for k, v in s.facts.items():
        if k[0] == 'i' and k[1][0] == 't' and k[1][1] == 'val':
            numcons.append(lambda env, x=k[1][2], iv=v: x not in env or (iv[0] <= env[x] <= iv[1] and env[x] not in iv[2]))
        if k[0] == 'b' and k[1][0] == 't' and k[1][1] == 'canneg' and v is False:
            numcons.append(lambda env, x=k[1][2]: x not in env or env[x] >= 0)
    try:
        c = TL.counterexample(rf, spec, S.defs, cons, only0=not nested, numcons=numcons)
    except TL.Unknown as ex:
        ctx.und(name + ':compare', str(ex), where)
        return
    if c is False:
        return
    nm = {}

    def lab(x):
        return show(x).replace(NS, '')[:40]
    shape = TL.pretty(rf)
    ctx.check('%s:%s' % (name, rule_name(s)), c is None, 'rewritten to %s, which differs from the input in a structure with %s [%s]'
              % (TL.pretty(rf, Names()), c, shape_facts(s)), where)


def pn_terms(v):
    return {x for x in subterms(v) if isinstance(x, tuple) and len(x) == 5 and x[0] == 't' and x[1] == 'pn'}


class Names(dict):
    def get(self, k, d=None):
        return show(k).replace(NS, '').replace('PetriEngine::PQL::', '')

    def __bool__(self):
        return True


def rule_name(s):
    out = []
    for k, v in s.facts.items():
        if v is True and k[0] == 'b' and k[1][0] == 't' and k[1][1] in ('isa', 'is', 'trivT', 'trivF', 'trivial'):
            out.append(str(k[1][3]).split('::')[-1].replace('Condition', '') if k[1][1] in ('isa', 'is') else k[1][1])
    return '+'.join(out) or 'plain'


def shape_facts(s):
    return '; '.join('%s=%s' % (show(k[1]).replace(NS, '')[:50], v) for k, v in s.facts.items() if k[0] == 'b' and v is True)[:300]


def accessor_field(p, cls, name, el):
    return T('sel', T('*', el), ('f', name))


def init_rw(ctx, p):
    f = p.fn(NS + 'initialMarkingRW')
    where = site(f)

    def go():
        this, el = T('this'), T('el')
        I = setup(ctx, p, NS + 'Condition', this, el)
        del I.hooks[NS + 'initialMarkingRW']
        I.dynclass = lambda v: None
        res = I.note(T('res'), 'std::shared_ptr<Condition>')
        I.name_hooks['operator()'] = lambda I, e, st, loc, ptr: [(res, st)]
        I.opaque |= {NS + 'Condition::getQuantifier', NS + 'Condition::getPath'}
        for nested in (False, True):
            for rw in (False, True):
                rs = I.run(f, None, [T('func'), T('stats'), T('context'), C(nested), T('neg'), C(rw)])
                ctx.note_interp(I, len(rs))
                for v, s in rs:
                    evs = dict((a, n) for a, n in s.ghost.get('evals', ()))
                    if v == res:
                        ctx.ok('initial/unchanged', '', where)
                    elif v[0] == 't' and v[1] == 'bool':
                        n = evs.get(res)
                        ctx.check('initial/only-top-level', not nested, 'a nested sub-formula is replaced by its value in the initial marking', where)
                        ctx.check('initial/only-if-asked', rw, 'initial-marking rewriting is applied although it is switched off', where)
                        ctx.check('initial/value', n in ('RTRUE', 'RFALSE') and (n == 'RTRUE') == (v[2] == TRUE),
                                  'a formula whose initial value is %s is replaced by %s' % (n, show(v[2])), where)
                    else:
                        ctx.und('initial/result', show(v)[:100], where)
    ctx.attempt('initialMarkingRW', go, where)


def trivial(ctx, p):
    f = p.fn(NS + 'CompareCondition::isTrivial')
    where = site(f)
    ctx.note_fn = f

    def go():
        this = T('this')
        I = Interp(p)

        def forget(I, key, n, head, o, st):
            if o[0] in ('next', 'continue'):
                st = st.copy()
                st.facts = dict(head.facts)
                st.ghost = dict(head.ghost)
            return [st]
        I.on_iter = forget
        I.name_hooks['placeFree'] = lambda I, e, st, loc, ptr: [(C(r), s) for r, s in I.decide_atom(st, T('placeFree', ptr if ptr is not None else load(st, loc)))]
        erased = []

        def er(I, e, st, loc, ptr):
            out = []
            for vs, s in I.evals(e['args'], st):
                s = s.copy()
                s.ghost['erase'] = s.ghost.get('erase', ()) + ((loc, vs[0]),)
                erased.append((loc, vs[0], s))
                out.append((vs[0], s))
            return out
        I.name_hooks['erase'] = er
        rs = I.run(f, this, [])
        ctx.note_interp(I, len(rs))
        e1, e2 = (accessor(p, NS + 'CompareCondition', 'operator[]', C(i), el=this) for i in (0, 1))
        for loc, it, s in erased:
            own = [x for x in (e1, e2) if contains(loc, x)]
            plus = bool(own) and s.facts.get(('b', T('isa', own[0], NS + 'PlusExpr'))) is True
            other = e2 if own and own[0] == e1 else e1
            plus2 = s.facts.get(('b', T('isa', other, NS + 'PlusExpr'))) is True
            if not own:
                ctx.und('trivial/cancel', 'removes operands from %s' % show(loc)[:80], where)
                continue
            ctx.check('trivial/cancel', plus and plus2,
                      'a place common to both sides of a comparison is cancelled although the sides are not both sums', where)
            # cancelled pairwise: the element removed equals the element removed on the other side
            prev = [x for x in s.ghost.get('erase', ())[:-1]]
            if prev:
                a, b = prev[-1][1], it
                fa, fb = (load(s, (deref(z)[0], deref(z)[1] + (('f', 'first'),))) for z in (a, b))
                ctx.check('trivial/same-place', entails(I, s, '==', fa, fb) or contains(a, ('erased',)) or None, 'different places are cancelled', where)
                if consistent(I, s, [('!=', fa, fb)]) and known(fa, allow=ws(fa)) and known(fb, allow=ws(fb)):
                    ctx.bad('trivial/same-place', 'places that need not be the same are cancelled', where)
        for v, s in rs:
            if v == TRUE:
                pf = all(s.facts.get(('b', T('placeFree', e))) is True for e in (e1, e2))
                com = all(s.facts.get(('b', T('isa', e, NS + 'CommutativeExpr'))) is True for e in (e1, e2))
                if com and not pf:
                    zero = set()
                    for k, iv in s.facts.items():
                        if k[0] == 'i' and iv[0] == 0 and iv[1] == 0:
                            cc, m = lin_of(k[1])
                            if cc == 0 and (all(x > 0 for x in m.values()) or all(x < 0 for x in m.values())):
                                zero |= set(m)
                    for e in (e1, e2):
                        for fl in ('_exprs', '_ids'):
                            hit = [z for z in zero if contains(z, e) and contains(z, ('f', fl))]
                            ctx.check('trivial/constant', bool(hit), 'a comparison counts as constant although a side may still mention places (%s)' % fl, where)
                    continue
                ctx.check('trivial/constant', True if pf or com else None, '', where)
    ctx.attempt('isTrivial', go, where)


def ws(v):
    return {x for x in subterms(v) if isinstance(x, tuple) and len(x) > 2 and x[0] == 't' and x[1] == 'w'}


def can_be_negative(ctx, p):
    vis = NS + 'CanBeNegativeVisitor'
    if vis not in p.records:
        ctx.und('CanBeNegative', 'visitor not found')
        return
    this, el = T('this'), T('el')
    for cn in ('SubtractExpr', 'MinusExpr', 'LiteralExpr', 'PlusExpr', 'MultiplyExpr'):
        cls = NS + cn
        key = accept_fn(p, vis, cls)
        f = p.fns.get(key) if key else None
        if f is None:
            ctx.und('CanBeNegative/' + cn, 'no method')
            continue
        where = site(f)

        def go():
            I = Interp(p)
            I.dynclass = lambda v: cls if v in (el, T('*', el)) else (vis if v in (this, T('*', this)) else None)

            def vh(I, e, st, loc, ptr):
                out = []
                for vl, c, s in visit_child(I, e, st):
                    for r in (False, True):
                        s2 = s.copy()
                        s2.ghost['seen'] = s2.ghost.get('seen', frozenset()) | {(c, r)}
                        if r:
                            save(s2, (('d', this), (('f', 'result'),)), TRUE)
                        out.append((NULL, s2))
                return out
            I.hooks[VISIT] = vh
            st = State()
            save(st, (('d', this), (('f', 'result'),)), FALSE)
            rs = I.run(f, this, [el], st)
            ctx.note_interp(I, len(rs))
            for v, s in rs:
                r = load(s, (('d', this), (('f', 'result'),)))
                if r not in (TRUE, FALSE):
                    ctx.und('CanBeNegative/' + cn, show(r)[:60], where)
                    continue
                if r == TRUE:
                    ctx.ok('CanBeNegative/' + cn + ':maybe', '', where)
                    continue
                if cn in ('SubtractExpr', 'MinusExpr'):
                    ctx.bad('CanBeNegative/' + cn, 'a difference or negation is taken to be non-negative', where)
                elif cn == 'LiteralExpr':
                    val = accessor(p, cls, 'value', el=el)
                    ctx.check('CanBeNegative/literal', not consistent(I, s, [('<', val, C(0))]), 'a negative literal is taken to be non-negative', where)
                else:
                    k = accessor(p, cls, 'constant', el=el)
                    ctx.check('CanBeNegative/%s:constant' % cn, not consistent(I, s, [('<', k, C(0))]), 'a negative constant part is ignored', where)
                    seen = s.ghost.get('seen', frozenset())
                    ctx.check('CanBeNegative/%s:child' % cn, not any(x[1] for x in seen), 'a sub-expression that may be negative is forgotten', where)
            if cn in ('PlusExpr', 'MultiplyExpr'):
                cont = accessor(p, cls, 'expressions', el=el)
                okl = any(any(x for it in L.iters for x in it['st'].ghost.get('seen', ())) for ls in I.loops.values() for L in ls)
                ctx.check('CanBeNegative/%s:children' % cn, okl or None, 'sub-expressions are not inspected', where)
                if not okl and not I.loops:
                    ctx.bad('CanBeNegative/%s:children' % cn, 'sub-expressions of a sum or product are not inspected', where)
        ctx.attempt('CanBeNegative/' + cn, go, where)


def subvisit_frame(ctx, p):
    """subvisit hands the given flags to the visit and restores the caller's"""
    fs = [f for f in p.byq.get(PNV + '::subvisit', []) if f.get('body')]
    this = T('this')
    for f in fs:
        if 'shared_ptr' in f['params'][0]['t']:
            continue
        where = site(f)

        def go():
            I = Interp(p)
            seen = []

            def vh(I, e, st, loc, ptr):
                out = []
                for vl, c, s in visit_child(I, e, st):
                    seen.append((c, load(s, (('d', this), (('f', 'nested'),))), load(s, (('d', this), (('f', 'negated'),)))))
                    s = s.copy()
                    save(s, (('d', this), (('f', 'return_value'),)), T('rv'))
                    save(s, (('d', this), (('f', 'has_returned'),)), TRUE)
                    out.append((NULL, s))
                return out
            I.hooks[VISIT] = vh
            for a, b in itertools_pairs():
                st = State()
                save(st, (('d', this), (('f', 'nested'),)), C(not a))
                save(st, (('d', this), (('f', 'negated'),)), C(not b))
                seen.clear()
                rs = I.run(f, this, [T('c'), C(a), C(b)], st)
                ctx.note_interp(I, len(rs))
                for v, s in rs:
                    ctx.check('subvisit/result', v == T('rv'), 'returns %s' % show(v)[:60], where)
                    ctx.check('subvisit/restored', load(s, (('d', this), (('f', 'nested'),))) == C(not a) and load(s, (('d', this), (('f', 'negated'),))) == C(not b),
                              'the flags of the caller are not restored', where)
                ctx.check('subvisit/flags', all(x == (T('c'), C(a), C(b)) for x in seen) and len(seen) == 1, 'the visit runs with other flags than requested', where)
        ctx.attempt('subvisit', go, where)


def itertools_pairs():
    return [(a, b) for a in (False, True) for b in (False, True)]
