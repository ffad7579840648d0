"""Path-sensitive abstract interpreter over the extracted AST.

Abstract domain (no program is executed, nothing is handed to a solver):
  * values       : constants, enumerators, Herbrand terms over the function's inputs,
                   record values, and regular abstractions ("seq") of containers
  * facts        : truth of boolean terms, and one integer interval (with holes) per
                   canonical linear form  -- every branch condition becomes one of these
  * joins        : disjunctive (a set of abstract states); loops are solved to a
                   fixpoint, values that keep changing are widened to a symbol, then
                   recognised as induction variables / folds; container and event
                   contributions of a loop are widened to a star
Functions of the repository are inlined (interprocedural), everything else is opaque
unless a rule gives it a transfer function ("hook").
"""
import itertools

INF = float('inf')


class Limit(Exception):
    pass


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ values
OPAQUE = set()      # functions without a body or a model whose result was left open


class Obj:
    __slots__ = ('cls', 'base', 'fields', '_h')

    def __init__(self, cls, base, fields):
        self.cls = cls
        self.base = base
        self.fields = fields
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.cls, self.base, frozenset(self.fields.items())))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Obj) and hash(self) == hash(o) and self.cls == o.cls and self.base == o.base and self.fields == o.fields

    def __getitem__(self, i):   # tag test v[0]
        if i == 0:
            return 'o'
        raise IndexError

    def __repr__(self):
        return 'Obj<%s|%s|%s>' % (self.cls, show(self.base) if self.base else '', ', '.join('%s=%s' % (k[1], show(v)) for k, v in self.fields.items()))


class Closure:
    __slots__ = ('node', 'env', 'this', '_k')

    def __init__(self, node, env, this):
        self.node = node
        self.env = env
        self.this = this
        self._k = (node['id'], tuple(sorted(env.items())), this)

    def __hash__(self):
        return hash(self._k)

    def __eq__(self, o):
        return isinstance(o, Closure) and self._k == o._k

    def __getitem__(self, i):
        if i == 0:
            return 'cl'
        raise IndexError

    def __repr__(self):
        return 'Closure@%s' % self.node.get('l')


def C(v):
    return ('c', v)


TRUE, FALSE, NULL = C(True), C(False), C(None)


def T(op, *a):
    return ('t', op) + a


def isconst(v):
    return v[0] in ('c', 'e')


def cval(v):
    return v[1] if v[0] == 'c' else v[3]


def isnum(v):
    if v[0] == 'e':
        return True
    return v[0] == 'c' and isinstance(v[1], (int, float)) and v[1] is not None


def show(v, d=0):
    if v is None:
        return 'None'
    if isinstance(v, Obj):
        return repr(v)
    if isinstance(v, Closure):
        return repr(v)
    if not isinstance(v, tuple):
        return repr(v)
    if v and v[0] == 'c':
        return repr(v[1])
    if v and v[0] == 'e':
        return v[2]
    if v and v[0] == 'p':
        return '&' + showloc((v[1], v[2]))
    if v and v[0] == 't':
        if v[1] == 'sel':
            st = v[3]
            return show(v[2], d + 1) + ('.' + st[1] if st[0] == 'f' else '[' + show(st[1]) + ']')
        if v[1] == 'lin':
            return '(' + ' + '.join(([] if v[2] == 0 else [str(v[2])]) + [('' if c == 1 else str(c) + '*') + show(a) for a, c in v[3]]) + ')'
        if v[1] == '*' and len(v) == 3:
            return '*' + show(v[2])
        return str(v[1]) + ('(' + ','.join(show(x) if isinstance(x, (tuple, Obj, Closure)) else str(x) for x in v[2:]) + ')' if len(v) > 2 else '')
    if v and v[0] == 'seq':
        return 'seq[' + ', '.join(show(x) if isinstance(x, tuple) else str(x) for x in v[1]) + ']'
    return '<' + ' '.join(show(x) if isinstance(x, (tuple, Obj, Closure)) else str(x) for x in v) + '>'


def showloc(l):
    r, p = l
    s = show(r) if r and isinstance(r, tuple) and r[0] in ('c', 't') else '{' + ','.join(show(x) if isinstance(x, (tuple, Obj)) else str(x) for x in r) + '}'
    for st in p:
        s += '.' + st[1] if st[0] == 'f' else '[' + show(st[1]) + ']'
    return s


# ------------------------------------------------------------------ linear forms
def lin_of(v):
    """(const, {atom:coef}) of a numeric value"""
    if isnum(v):
        return cval(v) + 0, {}
    if v[0] == 't' and v[1] == 'lin':
        return v[2], dict(v[3])
    return 0, {v: 1}


def mk_lin(c, m):
    m = {a: k for a, k in m.items() if k != 0}
    if not m:
        return C(c)
    if c == 0 and len(m) == 1:
        (a, k), = m.items()
        if k == 1:
            return a
    return ('t', 'lin', c, tuple(sorted(m.items(), key=lambda x: _key(x[0]))))


_kc = {}


def _key(v):
    k = _kc.get(v)
    if k is None:
        k = repr(v)
        _kc[v] = k
    return k


def add(a, b, sb=1):
    ca, ma = lin_of(a)
    cb, mb = lin_of(b)
    m = dict(ma)
    for x, k in mb.items():
        m[x] = m.get(x, 0) + sb * k
    return mk_lin(ca + sb * cb, m)


def neg(a):
    ca, ma = lin_of(a)
    return mk_lin(-ca, {x: -k for x, k in ma.items()})


def mul(a, b):
    ca, ma = lin_of(a)
    cb, mb = lin_of(b)
    if not ma:
        return mk_lin(ca * cb, {x: ca * k for x, k in mb.items()})
    if not mb:
        return mk_lin(ca * cb, {x: cb * k for x, k in ma.items()})
    x, y = sorted((a, b), key=_key)
    return T('mul', x, y)


def subst(v, old, new):
    """replace atom old by new in value v"""
    if v == old:
        return new
    if isinstance(v, Obj):
        return Obj(v.cls, subst(v.base, old, new) if v.base is not None else None,
                   {(k[0], subst(k[1], old, new) if isinstance(k[1], tuple) else k[1]): subst(x, old, new) for k, x in v.fields.items()})
    if isinstance(v, Closure):
        return v
    if isinstance(v, tuple):
        if not contains(v, old):
            return v
        if v and v[0] == 't' and v[1] == 'lin':
            r = C(v[2])
            for a, k in v[3]:
                r = add(r, mul(C(k), subst(a, old, new)))
            return r
        return tuple(subst(x, old, new) if isinstance(x, (tuple, Obj)) else x for x in v)
    if isinstance(v, frozenset):
        return frozenset(subst(x, old, new) if isinstance(x, (tuple, Obj)) else x for x in v)
    return v


def contains(v, old):
    if v == old:
        return True
    if isinstance(v, Obj):
        return (v.base is not None and contains(v.base, old)) or any(contains(x, old) or (isinstance(k[1], tuple) and contains(k[1], old)) for k, x in v.fields.items())
    if isinstance(v, (tuple, frozenset)):
        return any(isinstance(x, (tuple, Obj, frozenset)) and contains(x, old) for x in v)
    return False


def subterms(v):
    yield v
    if isinstance(v, Obj):
        if v.base is not None:
            yield from subterms(v.base)
        for k, x in v.fields.items():
            if isinstance(k[1], tuple):
                yield from subterms(k[1])
            yield from subterms(x)
    elif isinstance(v, (tuple, frozenset)):
        for x in v:
            if isinstance(x, (tuple, Obj, frozenset)):
                yield from subterms(x)


# ------------------------------------------------------------------ state
class State:
    __slots__ = ('store', 'env', 'facts', 'events', 'ghost', 'this', 'stack')

    def __init__(self):
        self.store = {}
        self.env = {}
        self.facts = {}
        self.events = ()
        self.ghost = {}
        self.this = None
        self.stack = ()

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.env = self.env
        s.facts = dict(self.facts)
        s.events = self.events
        s.ghost = dict(self.ghost)
        s.this = self.this
        s.stack = self.stack
        return s

    def ev(self, *e):
        self.events = self.events + (e,)

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()), self.events, frozenset(self.ghost.items()))


def default_root(root):
    k = root[0]
    if k == 'd':
        return T('*', root[1])
    if k == 't':
        return root[1]
    if k == 'g':
        return T('global', root[1])
    return T('undef', root)


def get_step(v, step):
    if isinstance(v, Obj):
        if step in v.fields:
            return v.fields[step]
        if v.base is not None:
            return get_step(v.base, step)
        return T('undef', v.cls or '', step)
    if v[0] == 'seq' and step[0] == 'i':
        i = step[1]
        if isnum(i) and all(p[0] == 'one' for p in v[1]) and 0 <= cval(i) < len(v[1]):
            return v[1][int(cval(i))][1]
        return T('sel', v, step)
    if v[0] == 'c' and isinstance(v[1], str) and step[0] == 'i' and isnum(step[1]) and 0 <= cval(step[1]) <= len(v[1]):
        return C(ord((v[1] + '\0')[int(cval(step[1]))]))
    return T('sel', v, step)


def set_step(v, step, x):
    if isinstance(v, Obj):
        f = dict(v.fields)
        if step[0] == 'i':
            clash = [k for k in f if k[0] == 'i' and k != step and not (isnum(k[1]) and isnum(step[1]))]
            if clash:
                return Obj(v.cls, T('upd', v, step), {step: x})
        f[step] = x
        return Obj(v.cls, v.base, f)
    if v[0] == 'seq' and step[0] == 'i' and isnum(step[1]) and all(p[0] == 'one' for p in v[1]) and 0 <= cval(step[1]) < len(v[1]):
        l = list(v[1])
        l[int(cval(step[1]))] = ('one', x)
        return ('seq', tuple(l))
    return Obj(None, v, {step: x})


# reference members of these types keep the location they are bound to
SCALAR_REFS = {t + ' &' for t in ('bool', 'int', 'unsigned int', 'uint32_t', 'size_t', 'uint64_t', 'int64_t', 'std::size_t', 'unsigned long', 'long')}


def load(st, loc):
    root, path = loc
    v = st.store.get(root)
    if v is None:
        v = default_root(root)
    for s in path:
        v = get_step(v, s)
    return v


def save(st, loc, x):
    root, path = loc
    if not path:
        st.store[root] = x
        return
    v = st.store.get(root)
    if v is None:
        v = default_root(root)
    chain = [v]
    for s in path[:-1]:
        chain.append(get_step(chain[-1], s))
    for s, cur in zip(reversed(path), reversed(chain)):
        x = set_step(cur, s, x)
    st.store[root] = x


def deref(v):
    if v[0] == 'p':
        return (v[1], v[2])
    if v[0] == 't' and v[1] == 'lin':
        # pointer/iterator arithmetic: begin(c)+k or p+k
        c, m = lin_of(v)
        for a, k in m.items():
            if k == 1 and a[0] == 't' and a[1] == 'begin':
                m2 = dict(m)
                del m2[a]
                root, path = a[2]
                return (root, path + (('i', mk_lin(c, m2)),))
        for a, k in m.items():
            if k == 1 and (a[0] == 'p'):
                m2 = dict(m)
                del m2[a]
                off = mk_lin(c, m2)
                if a[2] and a[2][-1][0] == 'i':
                    return (a[1], a[2][:-1] + (('i', add(a[2][-1][1], off)),))
                return (a[1], a[2] + (('i', off),))
        return (('d', v), ())
    if v[0] == 't' and v[1] == 'begin':
        root, path = v[2]
        return (root, path + (('i', C(0)),))
    if v[0] == 't' and v[1] == 'find':
        return (('d', v), ())
    return (('d', v), ())


def is_ptr(v):
    """pointer/iterator into a known container"""
    if isinstance(v, (Obj, Closure)):
        return False
    if v[0] == 'p':
        return bool(v[2]) and v[2][-1][0] == 'i'
    if v[0] == 't' and v[1] == 'begin':
        return True
    if v[0] == 't' and v[1] == 'lin':
        return sum(1 for a, k in v[3] if k == 1 and is_ptr(a)) == 1
    return False


def pnum(v):
    """pointer as container base + index"""
    c, m = lin_of(v)
    r = C(c)
    for a, k in m.items():
        if a[0] == 'p' and a[2] and a[2][-1][0] == 'i':
            r = add(r, mul(C(k), add(T('pbase', a[1], a[2][:-1]), a[2][-1][1])))
        elif a[0] == 't' and a[1] == 'begin':
            r = add(r, mul(C(k), T('pbase', a[2][0], a[2][1])))
        else:
            r = add(r, mul(C(k), a))
    return r


# ------------------------------------------------------------------ facts
FULL = (-INF, INF, frozenset())


def fact_interval(st, interp, form):
    f = st.facts.get(('i', form))
    if f is not None:
        return f
    lo, hi = -INF, INF
    # type information: unsigned atoms are >= 0
    c, m = lin_of(form)
    if m and all(k > 0 for k in m.values()) and all(interp.is_unsigned(a) for a in m):
        lo = c
    if m and all(k < 0 for k in m.values()) and all(interp.is_unsigned(a) for a in m):
        hi = c
    return (lo, hi, frozenset())


def norm_cmp(a, b):
    """a - b -> (canonical form, constant, sign): sign*form + constant"""
    d = add(a, b, -1)
    c, m = lin_of(d)
    if not m:
        return None, c, 1
    items = sorted(m.items(), key=lambda x: _key(x[0]))
    sign = 1 if items[0][1] > 0 else -1
    form = mk_lin(0, {x: sign * k for x, k in m.items()})
    return form, c, sign


def narrow(iv, lo, hi):
    l, h, ex = max(iv[0], lo), min(iv[1], hi), iv[2]
    while l in ex and l <= h:
        l += 1
    while h in ex and l <= h:
        h -= 1
    if l > h:
        return None
    return (l, h, frozenset(e for e in ex if l <= e <= h))


def exclude(iv, x):
    l, h, ex = iv
    if x < l or x > h:
        return iv
    return narrow((l, h, ex | {x}), -INF, INF)


NULLROOT = ('d', NULL)


class Loop:
    def __init__(self, key, site):
        self.key = key
        self.site = site
        self.iters = []      # dicts(facts, events, outcome, value, ghost0, ghost1, head)
        self.ind = {}        # w-term -> (init, step)
        self.folds = {}
        self.range = None    # container loc/value for range loops
        self.cond = None


# ------------------------------------------------------------------ interpreter
FUNCTIONAL = {'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>=', 'equal_to': '==', 'not_equal_to': '!=', 'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'modulus': '%', 'bit_and': '&', 'bit_or': '|', 'bit_xor': '^'}


def functional(v):
    """(operator, operand type or None) of a std::less<T> and the like"""
    if v[0] == 't' and v[1] == 'default' and isinstance(v[2], str) and v[2].startswith('std::') and '<' in v[2]:
        op = FUNCTIONAL.get(v[2][5:v[2].index('<')])
        if op:
            t = v[2][v[2].index('<') + 1:v[2].rindex('>')].strip()
            return op, t if t not in ('', 'void') else None
    return None


class Interp:
    def __init__(self, prog, hooks=None, name_hooks=None, max_states=6000, max_depth=28):
        self.p = prog
        self.hooks = hooks or {}
        self.name_hooks = name_hooks or {}
        self.raii = True
        self.opaque = set()
        self.loops = {}
        self.ty = {}
        self.max_states = max_states
        self.max_depth = max_depth
        self.inlined = set()
        self.opaque_seen = {}
        self.sites = 0
        self.budget = 400000
        self.herbrand = lambda cls: False   # classes whose objects are terms 'new:cls'
        self.dynclass = lambda v: None      # rule-supplied dynamic class of a symbolic object
        self.cast_hook = None
        self.on_arith = None
        self.max_heads = 80
        self.eq_hook = None      # rule-supplied equality (I, st, a, b) -> [(bool, st)] or None
        self.dyn_hook = None     # rule-supplied dynamic_cast (I, v, cls, st) -> [(value, st)] or None
        self.rec = 1             # how often a function may be on the inlining stack
        self.std_hook = None     # (I, e, st, loc, ptr) for members of library containers
        self.thrown, self.aborted, self.nulls = [], [], []
        self.ref_fields = ()
        self.fresh = False       # every allocation gets a new object (bounded-shape mode)
        self.unroll = 0          # loops whose condition is decided are unrolled up to this many times
        self.on_store = None
        self.unroll_forks = False    # ... and so are loops whose condition is not
        self.on_iter = None      # rule hook at the end of every loop iteration: may fork on ghost state
        self.force_ints = ()
        self._tmp = 0
        self.throws_dead = True

    # -------------------------------------------------- types
    def note(self, v, t):
        if isinstance(v, tuple) and v and v[0] == 't' and t and v not in self.ty:
            self.ty[v] = t
        return v

    def is_unsigned(self, a):
        if a[0] == 't' and a[1] in ('size', 'iv', 'sizeof'):
            return True
        t = self.ty.get(a, '')
        t = t.replace('const ', '').replace('&', '').strip()
        return t.startswith('unsigned') or t == 'bool'

    def is_boolish(self, a):
        t = self.ty.get(a, '')
        t = t.replace('const ', '').replace('&', '').strip()
        return t == 'bool' or t.endswith('*') or 'shared_ptr' in t or 'unique_ptr' in t

    # -------------------------------------------------- facts
    def decide(self, st, op, a, b):
        """-> [(bool, state)]"""
        if a[0] == 'p' and b[0] == 'p' and a[1] == b[1] and a[2] != b[2]:
            x = next((z for z in zip(a[2], b[2]) if z[0] != z[1]), None)
            if x is not None and x[0][0] == 'i' == x[1][0] and isnum(x[0][1]) and isnum(x[1][1]):
                i, j = cval(x[0][1]), cval(x[1][1])
                return [({'==': False, '!=': True, '<': i < j, '<=': i < j, '>': i > j, '>=': i > j}[op], st)]
        if is_ptr(a) and is_ptr(b):
            a, b = pnum(a), pnum(b)
            if len(lin_of(add(a, b, -1))[1]) == 0 or not any(x[0] == 't' and x[1] == 'pbase' for x in lin_of(add(a, b, -1))[1]):
                return self.decide_int(st, op, a, b)
            if op in ('==', '!='):
                r = self.decide_atom(st, T('eq', *sorted((a, b), key=_key)))
                return r if op == '==' else [(not x, s) for x, s in r]
        if op in ('==', '!='):
            r = self.decide_eq(st, a, b)
            if op == '!=':
                r = [(not x, s) for x, s in r]
            return r
        return self.decide_int(st, op, a, b)

    def decide_int(self, st, op, a, b):
        form, c, sign = norm_cmp(a, b)
        if form is None:
            x = c
            return [({'<': x < 0, '<=': x <= 0, '>': x > 0, '>=': x >= 0, '==': x == 0, '!=': x != 0}[op], st)]
        iv = fact_interval(st, self, form)
        # sign*form + c  op 0   <=>  form op' (-c)*sign
        k = -c * sign
        if sign < 0:
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op]
        import math
        intk = (k == math.floor(k)) if abs(k) != INF else True
        if op == '<':
            t, f = narrow(iv, -INF, k - 1), narrow(iv, k, INF)
        elif op == '<=':
            t, f = narrow(iv, -INF, k), narrow(iv, k + 1, INF)
        elif op == '>':
            t, f = narrow(iv, k + 1, INF), narrow(iv, -INF, k)
        elif op == '>=':
            t, f = narrow(iv, k, INF), narrow(iv, -INF, k - 1)
        elif op == '==':
            t, f = (None if k in iv[2] else narrow(iv, k, k)), exclude(iv, k)
        else:
            f, t = (None if k in iv[2] else narrow(iv, k, k)), exclude(iv, k)
        out = []
        for val, nv in ((True, t), (False, f)):
            if nv is None:
                continue
            if nv == iv and (t is None or f is None):
                out.append((val, st))
                continue
            s = st.copy()
            s.facts[('i', form)] = nv
            out.append((val, s))
        return out

    def decide_eq(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == 't' and x[1] == 'numtext' and isconst(y) and cval(y) == '':
                return [(False, st)]
        if a == b:
            return [(True, st)]
        if self.eq_hook:
            r = self.eq_hook(self, st, a, b)
            if r is not None:
                return r
        an, bn = isnum(a), isnum(b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            return self.decide_atom(st, T('eq', *sorted((a, b), key=_key)))
        if (a[0] == 'c' and isinstance(a[1], str)) and (b[0] == 'c' and isinstance(b[1], str)):
            return [(a[1] == b[1], st)]
        if isconst(a) and isconst(b):
            return [(cval(a) == cval(b) and (cval(a) is None) == (cval(b) is None), st)]
        for x, y in ((a, b), (b, a)):
            if y == NULL:
                if x[0] in ('p', 'cl') or (x[0] == 't' and str(x[1]).startswith('new:')):
                    return [(False, st)]
                return [(not r, s) for r, s in self.truth(st, x)]
            if isconst(y) and x[0] == 't' and self.is_boolish(x) and isnum(y):
                if cval(y) not in (0, 1):
                    return [(False, st)]
                return [(r == bool(cval(y)), s) for r, s in self.truth(st, x)]
        if a[0] == 'p' and b[0] == 'p':
            if a[1] != b[1] and a[1][0] in ('v', 'h') and b[1][0] in ('v', 'h'):
                return [(False, st)]
            return self.decide_atom(st, T('eq', *sorted((a, b), key=_key)))
        if a[0] == 'p' or b[0] == 'p':
            return self.decide_atom(st, T('eq', *sorted((a, b), key=_key)))
        sa = a[0] == 'c' and isinstance(a[1], str)
        sb = b[0] == 'c' and isinstance(b[1], str)
        if sa or sb:
            x, y = (b, a) if sa else (a, b)
            cur = st.facts.get(('s', x))
            if cur is not None and cur[0] == 'is':
                return [(cur[1] == y[1], st)]
            ex = cur[1] if cur else frozenset()
            if y[1] in ex:
                return [(False, st)]
            s1, s2 = st.copy(), st.copy()
            s1.facts[('s', x)] = ('is', y[1])
            s2.facts[('s', x)] = ('not', ex | {y[1]})
            return [(True, s1), (False, s2)]
        return self.decide_int(st, '==', a, b)

    def decide_atom(self, st, t):
        f = st.facts.get(('b', t))
        if f is not None:
            return [(f, st)]
        s1, s2 = st.copy(), st.copy()
        s1.facts[('b', t)] = True
        s2.facts[('b', t)] = False
        return [(True, s1), (False, s2)]

    def truth(self, st, v):
        if v[0] == 'c':
            if isinstance(v[1], str):
                return [(True, st)]
            return [(bool(v[1]), st)]
        if v[0] == 'e':
            return [(v[3] != 0, st)]
        if v[0] in ('p', 'cl', 'o', 'seq', 'fnp'):
            return [(True, st)]
        if v[0] == 't':
            if str(v[1]).startswith('new:'):
                return [(True, st)]
            if v[1] == 'lin' or not self.is_boolish(v) and self.ty.get(v, '') and self._inty(self.ty[v]):
                return self.decide_int(st, '!=', v, C(0))
        return self.decide_atom(st, v)

    @staticmethod
    def _inty(t):
        t = t.replace('const ', '').replace('&', '').strip()
        return t in ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'unsigned char', 'char', 'long long', 'unsigned long long')

    def dedupe(self, rs):
        if len(rs) < 2:
            return rs
        seen, out = set(), []
        for v, s in rs:
            try:
                k = (v, s.key())
            except TypeError:
                out.append((v, s))
                continue
            if k in seen:
                continue
            seen.add(k)
            out.append((v, s))
        if len(out) > self.max_states:
            raise Limit('too many states')
        return out

    # -------------------------------------------------- expressions
    def evals(self, exprs, st):
        outs = [((), st)]
        for e in exprs:
            nxt = []
            for vs, s in outs:
                for v, s2 in self.eval(e, s):
                    nxt.append((vs + (v,), s2))
            outs = nxt
        return outs

    def eval(self, e, st):
        self.budget -= 1
        if self.budget < 0:
            raise Limit('budget exhausted')
        if e is None:
            return [(NULL, st)]
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return [(T('unk', k, e.get('l')), st)]
        return m(e, st)

    def e_int(self, e, st): return [(C(e['v']), st)]
    def e_bool(self, e, st): return [(C(e['v']), st)]
    def e_float(self, e, st):
        try:
            return [(C(float(e['v'])), st)]
        except ValueError:
            return [(T('float', e['v']), st)]
    def e_str(self, e, st): return [(C(e['v']), st)]
    def e_null(self, e, st): return [(NULL, st)]
    def e_this(self, e, st): return [(st.this, st)]
    def e_enum(self, e, st): return [(('e', e['of'], e['n'], e['v']), st)]
    def e_zero(self, e, st): return [(C(0), st)]
    def e_unk(self, e, st): return [(self.note(T('unk', e.get('c'), e.get('l')), e.get('t')), st)]
    def e_fnref(self, e, st): return [(('fnp', e['fn'], e['q'], e['name']), st)]
    def e_memfn(self, e, st): return [(('fnp', e['fn'], e['q'], e['name']), st)]
    def e_typeid(self, e, st): return [(T('typeid', e.get('of', e.get('l'))), st)]
    def e_delete(self, e, st):
        return [(NULL, s) for v, s in self.eval(e['e'], st)]

    def e_throw(self, e, st):
        st = st.copy()
        st.ev('throw', e.get('l'))
        return [(T('throw'), ThrowState(st))] if False else self._throw(st)

    def _throw(self, st):
        self.thrown.append(st)
        return []

    def e_ref(self, e, st):
        if 'cv' in e:
            return [(C(e['cv']), st)]
        return [(self.note(load(s, l), e.get('t')), s) for l, s in self.lv(e, st)]

    def e_mem(self, e, st):
        return [(self.note(load(s, l), e.get('t')), s) for l, s in self.lv(e, st)]

    def e_idx(self, e, st):
        return [(self.note(load(s, l), e.get('t')), s) for l, s in self.lv(e, st)]

    def e_lambda(self, e, st):
        env = {}
        sts = [st]
        for c in e['caps']:
            if 'id' not in c:
                continue
            nxt = []
            for s in sts:
                if 'init' in c:
                    for v, s2 in self.eval(c['init'], s):
                        nm = ('cap', e['id'], c['id'])
                        s2 = s2.copy()
                        s2.store[nm] = v
                        nxt.append(s2)
                    env[c['id']] = (('cap', e['id'], c['id']), ())
                elif c.get('ref'):
                    loc = s.env.get(c['id'])
                    if loc is not None:
                        env[c['id']] = loc
                    nxt.append(s)
                else:
                    loc = s.env.get(c['id'])
                    s2 = s.copy()
                    nm = ('cap', e['id'], c['id'])
                    if loc is not None:
                        s2.store[nm] = load(s, loc)
                    env[c['id']] = (nm, ())
                    nxt.append(s2)
            sts = nxt
        return [(Closure(e, env, s.this), s) for s in sts]

    def e_cond(self, e, st):
        out = []
        for c, s in self.cond(e['c'], st):
            out += self.eval(e['a'] if c else e['b'], s)
        return out

    def cond(self, e, st):
        """evaluate a condition -> [(bool, st)]"""
        out = []
        for v, s in self.eval(e, st):
            out += self.truth(s, v)
        return out

    def e_bin(self, e, st):
        op = e['op']
        if op == '&&':
            out = []
            for a, s in self.cond(e['lhs'], st):
                if not a:
                    out.append((FALSE, s))
                else:
                    out += [(C(b), s2) for b, s2 in self.cond(e['rhs'], s)]
            return out
        if op == '||':
            out = []
            for a, s in self.cond(e['lhs'], st):
                if a:
                    out.append((TRUE, s))
                else:
                    out += [(C(b), s2) for b, s2 in self.cond(e['rhs'], s)]
            return out
        if op == ',':
            out = []
            for _, s in self.eval(e['lhs'], st):
                out += self.eval(e['rhs'], s)
            return out
        out = []
        for (a, b), s in self.evals([e['lhs'], e['rhs']], st):
            out += self.binop(op, a, b, s, e.get('t'), e)
        return out

    def binop(self, op, a, b, st, t=None, e=None):
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return [(C(r), s) for r, s in self.decide(st, op, a, b)]
        if self.on_arith and op in ('+', '-', '*'):
            self.on_arith(self, op, a, b, t, st)
        if op == '+':
            if (a[0] == 'c' and isinstance(a[1], str)) or (b[0] == 'c' and isinstance(b[1], str)):
                if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], str) and isinstance(b[1], str):
                    return [(C(a[1] + b[1]), st)]
                return [(T('concat', a, b), st)]
            return [(self.note(add(a, b), t), st)]
        if op == '-':
            return [(self.note(add(a, b, -1), t), st)]
        if op == '*':
            return [(self.note(mul(a, b), t), st)]
        if op in ('&', '|', '^') and (t == 'bool' or (self._isbool(a) and self._isbool(b))):
            out = []
            for x, s in self.truth(st, a):
                for y, s2 in self.truth(s, b):
                    out.append((C({'&': x and y, '|': x or y, '^': x != y}[op]), s2))
            return out
        if isnum(a) and isnum(b):
            x, y = cval(a), cval(b)
            if op in ('/', '%') and y == 0 and not isinstance(x, float) and not isinstance(y, float) and getattr(self, 'traps', False):
                self.aborted.append(st)
                return []
            try:
                if op == '/':
                    if isinstance(x, float) or isinstance(y, float):
                        return [(C(x / y), st)]
                    q = abs(x) // abs(y)
                    return [(C(q if (x >= 0) == (y >= 0) else -q), st)]
                if op == '%':
                    return [(C(abs(x) % abs(y) * (1 if x >= 0 else -1)), st)]
                if op == '<<': return [(C(x << y), st)]
                if op == '>>': return [(C(x >> y), st)]
                if op == '&': return [(C(x & y), st)]
                if op == '|': return [(C(x | y), st)]
                if op == '^': return [(C(x ^ y), st)]
            except (ZeroDivisionError, TypeError, ValueError):
                pass
        if op in ('&', '|', '^'):
            a, b = sorted((a, b), key=_key)
        return [(self.note(T('op' + op, a, b), t), st)]

    def _isbool(self, v):
        if v[0] == 'c':
            return isinstance(v[1], bool)
        return self.ty.get(v, '').replace('const ', '') == 'bool'

    def e_un(self, e, st):
        op = e['op']
        if op == '!':
            return [(C(not a), s) for a, s in self.cond(e['e'], st)]
        if op == '-':
            return [(self.note(neg(a), e.get('t')), s) for a, s in self.eval(e['e'], st)]
        if op == '+':
            return self.eval(e['e'], st)
        if op == '&':
            if e['e']['k'] in ('fnref', 'memfn'):
                return self.eval(e['e'], st)
            return [(('p', l[0], l[1]), s) for l, s in self.lv(e['e'], st)]
        if op == '*':
            return [(self.note(load(s, l), e.get('t')), s) for l, s in self.lv(e, st)]
        if op in ('++', '--'):
            out = []
            for l, s in self.lv(e['e'], st):
                old = load(s, l)
                new = add(old, C(1), 1 if op == '++' else -1)
                self.note(new, e.get('t'))
                s = s.copy()
                self.store(s, l, new)
                out.append((old if e.get('post') else new, s))
            return out
        if op == '~':
            return [(C(~cval(a)) if isnum(a) and isinstance(cval(a), int) else T('op~', a), s) for a, s in self.eval(e['e'], st)]
        return [(T('un' + op, a), s) for a, s in self.eval(e['e'], st)]

    def e_asg(self, e, st):
        out = []
        op = e['op']
        t = e.get('t')
        for v, s in self.eval(e['rhs'], st):
            for l, s2 in self.lv(e['lhs'], s):
                if op == '=':
                    vs = [(v, s2)]
                else:
                    vs = self.binop(op, load(s2, l), v, s2, t)
                    tl, tr = norm_type(t), norm_type(e['rhs'].get('t'))
                    if tl != tr and (tl in self.WID or tl in self.SW) and (tr in self.WID or tr in self.SW):
                        vs = [(v2 if isnum(v2) else self.intcast(v2, tl, {'e': e['rhs']}, s3), s3) for v2, s3 in vs]
                for v2, s3 in vs:
                    for v3, s4 in self.conv(v2, t, s3):
                        s5 = s4.copy()
                        self.store(s5, l, v3)
                        out.append((v3, s5))
        return out

    def conv(self, v, t, st):
        """value stored into type t: booleans are concretised (forked)"""
        if t and t.replace('const ', '') == 'bool' and not isconst(v):
            return [(C(r), s) for r, s in self.truth(st, v)]
        return [(v, st)]

    def store(self, st, loc, v):
        if self.on_store:
            self.on_store(self, st, loc, v)
        save(st, loc, v)

    def e_cast(self, e, st):
        ck = e['ck']
        out = []
        for v, s in self.eval(e['e'], st):
            if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
                out += [(C(r), s2) for r, s2 in self.truth(s, v)]
            elif ck == 'IntegralCast' or ck == 'FloatingToIntegral':
                out.append((self.intcast(v, e.get('t'), e, s), s))
            elif ck == 'Dynamic':
                out += self.dyncast(v, e, s)
            else:
                out.append((v, s))
        return out

    WID = {'unsigned int': 32, 'unsigned long': 64, 'unsigned short': 16, 'unsigned char': 8, 'unsigned long long': 64}
    SW = {'int': 32, 'long': 64, 'short': 16, 'signed char': 8, 'char': 8, 'long long': 64}

    def intcast(self, v, t, e, st):
        if v[0] == 'e' and t in self.p.enums:
            return v
        if isnum(v):
            x = cval(v)
            if v[0] == 'e' and (t in self.WID or t in self.SW):
                return C(x)
            if t in self.p.enums:
                for n, val in self.p.enums[t].items():
                    if val == x:
                        return ('e', t, n, x)
            if isinstance(x, float):
                x = int(x)
            if t in self.WID:
                return C(x % (1 << self.WID[t]))
            if t in self.SW:
                w = self.SW[t]
                x %= (1 << w)
                return C(x - (1 << w) if x >= 1 << (w - 1) else x)
            return v
        if self.cast_hook:
            r = self.cast_hook(self, v, t, e, st)
            if r is not None:
                return r
        return v

    def dyncast(self, v, e, st):
        if v == NULL or v == C(None) or v == C(0):
            return [(NULL, st)]
        t = e.get('t', '').rstrip('*& ').replace('const ', '').strip()
        cls = self.class_of(v, st)
        if cls:
            return [(v if t in self.p.bases(cls) else NULL, st)]
        if self.dyn_hook:
            r = self.dyn_hook(self, v, t, st)
            if r is not None:
                return r
        atom = T('isa', v, t)
        return [(v if r else NULL, s) for r, s in self.decide_atom(st, atom)]

    def isa_class(self, ptr, st):
        """class a successful dynamic_cast established for the object (for virtual calls only)"""
        if ptr[0] == 'p' and ptr[1][0] == 'd' and not ptr[2]:
            ptr = ptr[1][1]
        best = None
        for k, v in st.facts.items():
            if v is True and k[0] == 'b' and k[1][0] == 't' and k[1][1] == 'isa' and k[1][2] == ptr:
                if best is None or best in self.p.bases(k[1][3]):
                    best = k[1][3]
        return best

    def class_of(self, v, st):
        """dynamic class of object pointed to by / held in v, when known"""
        if v[0] == 'p':
            o = load(st, (v[1], v[2]))
            if isinstance(o, Obj) and o.cls:
                return o.cls
            return self.dynclass(v) or self.dynclass(o)
        if isinstance(v, Obj) and v.cls:
            return v.cls
        if v[0] == 't' and str(v[1]).startswith('new:'):
            return v[1][4:]
        return self.dynclass(v)

    def e_ilist(self, e, st):
        t = (e.get('t') or '').replace('const ', '')
        out = []
        rec = self.p.records.get(t)
        for vs, s in self.evals(e['args'], st):
            if rec is not None:
                names = [f['n'] for f in rec['fields']]
                out.append((Obj(t, None, {('f', n): v for n, v in zip(names, vs)}), s))
            elif t.endswith(']') or 'initializer_list' in t or 'std::array' in t:
                out.append((('seq', tuple(('one', v) for v in vs)), s))
            elif len(vs) == 1:
                out.append((vs[0], s))
            elif len(vs) == 0:
                out.append((C(0), s))
            else:
                out.append((('seq', tuple(('one', v) for v in vs)), s))
        return out

    # -------------------------------------------------- lvalues
    def lv(self, e, st):
        k = e['k']
        if k == 'ref':
            if e['id'] in st.env:
                return [(st.env[e['id']], st)]
            if 'g' in e:
                root = ('g', e['g'])
                if root not in st.store and e['g'] in self.p.globals and 'init' in self.p.globals[e['g']] and 'const' in e.get('t', ''):
                    try:
                        rs = self.eval(self.p.globals[e['g']]['init'], st)
                        if len(rs) == 1 and rs[0][0][0] in ('c', 'e', 'seq', 'o'):
                            s = rs[0][1].copy()
                            s.store[root] = rs[0][0]
                            return [((root, ()), s)]
                    except Limit:
                        raise
                return [((root, ()), st)]
            return [((('v', 0, e['id'], e['n']), ()), st)]
        if k == 'mem':
            out = []
            if e.get('arrow'):
                for v, s in self.eval(e['b'], st):
                    r, p = deref(v)
                    out.append(((r, p + (('f', e['f']),)), s))
            else:
                for (r, p), s in self.lv(e['b'], st):
                    out.append(((r, p + (('f', e['f']),)), s))
            if e['f'] in self.ref_fields:       # reference members stored as ('rf', location)
                for i, (l, s) in enumerate(out):
                    v = load(s, l)
                    if v[0] == 'rf':
                        out[i] = (v[1], s)
            return out
        if k == 'idx':
            out = []
            for i, s in self.eval(e['i'], st):
                bt = e['b'].get('t', '')
                if bt.endswith(']'):
                    for (r, p), s2 in self.lv(e['b'], s):
                        out.append(((r, p + (('i', i),)), s2))
                else:
                    for b, s2 in self.eval(e['b'], s):
                        out.append((self.ptr_idx(b, i), s2))
            return out
        if k == 'un' and e['op'] == '*':
            return [(deref(v), s) for v, s in self.eval(e['e'], st)]
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            out = []
            for _, s in self.eval(e, st):
                out += self.lv(e['e'], s)
            return out
        if k == 'asg':
            out = []
            for _, s in self.eval(e, st):
                out += self.lv(e['lhs'], s)
            return out
        if k == 'cond':
            out = []
            for c, s in self.cond(e['c'], st):
                out += self.lv(e['a'] if c else e['b'], s)
            return out
        if k == 'cast':
            if e['ck'] in ('BaseToDerived', 'Dynamic') and not e.get('t', '').endswith('*'):
                return self.lv(e['e'], st)
        if k == 'call':
            return self.call(e, st, want_lv=True)
        if k == 'bin' and e['op'] == ',':
            out = []
            for _, s in self.eval(e['lhs'], st):
                out += self.lv(e['rhs'], s)
            return out
        # temporaries
        out = []
        for v, s in self.eval(e, st):
            if v[0] == 't':
                out.append(((('t', v), ()), s))
            else:
                s = s.copy()
                root = ('h', self.site_id(e, s))
                s.store[root] = v
                out.append(((root, ()), s))
        return out

    def site_id(self, e, st):
        if self.fresh:
            st.ghost['#fresh'] = n = st.ghost.get('#fresh', 0) + 1
            return (e.get('l'), id(e) % 1000003, len(st.stack), n)
        return (e.get('l'), id(e) % 1000003, len(st.stack))

    def ptr_idx(self, b, i):
        r, p = deref(b) if b[0] != 'p' else (b[1], b[2])
        if b[0] == 'p':
            if p and p[-1][0] == 'i':      # pointer to an element
                return (r, p[:-1] + (('i', add(p[-1][1], i)),))
            return (r, p + (('i', i),))
        if b[0] == 't' and (b[1] == 'lin' or b[1] == 'begin'):
            r, p = deref(add(b, i))
            return (r, p)
        return (('d', b), (('i', i),))

    # -------------------------------------------------- calls
    def e_call(self, e, st):
        out = []
        for r, s in self.call(e, st, want_lv=False):
            out.append((self.note(r, e.get('t')), s))
        return out

    def e_icall(self, e, st):
        out = []
        if e['f']['k'] == 'bin' and e['f'].get('op') in ('->*', '.*'):      # through a pointer to member
            f = e['f']
            obj = self.eval(f['lhs'], st) if f['op'] == '->*' else [(('p', l[0], l[1]), s) for l, s in self.lv(f['lhs'], st)]
            for o, s in obj:
                for m, s2 in self.eval(f['rhs'], s):
                    if m[0] != 'fnp' or o[0] != 'p':
                        raise Unsupported('call through a pointer to member')
                    fn = self.p.fns.get(m[1])
                    if fn is None:
                        raise Unsupported('call through a pointer to member')
                    for args, s3 in self.bind_args(fn['params'], e['args'], s2):
                        out += self.call_fn(fn, s3, o, args, e)
            return out
        for f, s in self.eval(e['f'], st):
            for vs, s2 in self.evals(e['args'], s):
                if isinstance(f, Closure):
                    out += self.call_closure(f, e['args'], s2, e, vals=vs)
                elif f[0] == 'fnp' and f[1] in self.p.fns:
                    out += self.call_fn(self.p.fns[f[1]], s2, None, [('v', v) for v in vs], e)
                else:
                    out.append((self.note(T('icall', f) + vs, e.get('t')), s2))
        return out

    def call(self, e, st, want_lv=False):
        """returns [(value|loc, st)]"""
        self.sites += 1
        if e.get('opr') == '=' and len(e['args']) == 1 and e.get('obj', {}).get('q') == 'std::tie':
            out = []
            for v, s in self.eval(e['args'][0], st):
                n = len(e['obj']['args'])
                if isinstance(v, Obj):
                    parts = [v.fields.get(('f', ('first', 'second')[i] if v.cls == 'pair' and n == 2 else str(i))) for i in range(n)]
                else:
                    parts = [None] * n
                ss = [s.copy()]
                for a, x in zip(e['obj']['args'], parts):
                    nx = []
                    for s1 in ss:
                        for l, s2 in self.lv(a, s1):
                            s2 = s2.copy()
                            self.store(s2, l, x if x is not None else T('part', v, C(len(nx))))
                            nx.append(s2)
                    ss = nx
                out += [(NULL, s1) for s1 in ss]
            return out
        # receiver
        if 'obj' in e and not e.get('static'):
            objs = []
            if e.get('arrow') and 'opr' not in e:
                for v, s in self.eval(e['obj'], st):
                    objs.append((deref(v), v, s))
            else:
                for l, s in self.lv(e['obj'], st):
                    objs.append((l, ('p', l[0], l[1]), s))
        else:
            objs = [(None, None, st)]
        out = []
        for loc, ptr, s in objs:
            if loc is not None and loc[0] == NULLROOT and 'virt' in e and e['q'].startswith('PetriEngine'):
                self.nulls.append((s, e.get('l')))      # member call through a null pointer: the path ends here
                continue
            out += self.call1(e, s, loc, ptr, want_lv)
        return out

    def wrap(self, rs, want_lv, e):
        """rs: [(value, st)] -> locs when requested"""
        if not want_lv:
            return rs
        out = []
        for v, s in rs:
            if isinstance(v, tuple) and v and v[0] == 'LV':
                out.append((v[1], s))
            elif v[0] == 't':
                out.append(((('t', v), ()), s))
            else:
                s = s.copy()
                root = ('h', self.site_id(e, s))
                s.store[root] = v
                out.append(((root, ()), s))
        return out

    def unlv(self, rs):
        return [(load(s, v[1]), s) if isinstance(v, tuple) and v and v[0] == 'LV' else (v, s) for v, s in rs]

    def fin(self, rs, want_lv, e):
        return self.wrap(rs, True, e) if want_lv else self.unlv(rs)

    def call1(self, e, st, loc, ptr, want_lv):
        q, name = e['q'], e['name']
        # closures
        if loc is not None and name == 'operator()':
            cv = load(st, loc)
            if isinstance(cv, Closure):
                return self.fin(self.call_closure(cv, e['args'], st, e), want_lv, e)
            if cv[0] == 'fnp' and cv[1] in self.p.fns:
                f = self.p.fns[cv[1]]
                out = []
                for args, s in self.bind_args(f['params'], e['args'], st):
                    out += self.call_fn(f, s, None, args, e)
                return self.fin(out, want_lv, e)
            fo = functional(cv)
            if fo is not None and len(e['args']) == 2:
                out = []
                for (a, b), s in self.evals(e['args'], st):
                    if fo[1]:
                        a, b = self.intcast(a, fo[1], e, s), self.intcast(b, fo[1], e, s)
                    out += [(v, s2) for v, s2 in self.binop(fo[0], a, b, s, e=e)]
                return self.fin(out, want_lv, e)
        h = self.hooks.get(q) or self.name_hooks.get(name) or ('<' in q and self.hooks.get(plain_name(q))) or None
        if h is not None:
            r = h(self, e, st, loc, ptr)
            if r is not None:
                return self.fin(r, want_lv, e)
        key = e['fn']
        fn = None
        if e.get('virt') and not e.get('nonvirt') and ptr is not None:
            cls = self.class_of(ptr, st)
            if cls is None:
                cls = self.isa_class(ptr, st)
            if cls:
                k2, m = self.p.dispatch(cls, key)
                if k2:
                    key = k2
                    fn = self.p.fns.get(key)
            else:
                fn = None
                k2 = self.virt_fallback(e, st, ptr)
                if k2:
                    key = k2
                    fn = self.p.fns.get(k2)
        else:
            fn = self.p.fns.get(key)
        if key != e['fn'] and fn is not None:
            h = self.hooks.get(fn['q'])
            if h is not None:
                r = h(self, e, st, loc, ptr)
                if r is not None:
                    return self.fin(r, want_lv, e)
        if fn is not None and fn['q'] not in self.opaque and fn['key'] not in self.opaque:
            depth = len(st.stack)
            if depth < self.max_depth and st.stack.count(fn['key']) < self.rec:
                out = []
                for args, s in self.bind_args(fn['params'], e['args'], st):
                    out += self.call_fn(fn, s, ptr, args, e)
                return self.fin(out, want_lv, e)
        if q.startswith('std::') or q.startswith('__') or '::' not in q or e.get('cls', '').startswith('std::'):
            r = self.std_call(e, st, loc, ptr)
            if r is not None:
                return self.fin(r, want_lv, e)
        if self.fresh and name == 'operator=' and len(e['args']) == 1 and loc is not None and e.get('cls') in self.p.records and not self.p.byq.get(q) and \
                (e['args'][0].get('t') or '').replace('const ', '') == e.get('cls'):
            # memberwise assignment generated by the compiler
            out = []
            for v, s in self.eval(e['args'][0], st):
                s = s.copy()
                self.store(s, loc, v)
                out.append((('LV', loc), s))
            return self.fin(out, want_lv, e)
        return self.fin(self.opaque_call(e, st, loc, ptr), want_lv, e)

    def virt_fallback(self, e, st, ptr):
        return None

    def opaque_call(self, e, st, loc, ptr):
        self.opaque_seen[e['fn']] = self.opaque_seen.get(e['fn'], 0) + 1
        OPAQUE.add(self.short(e['fn']))
        out = []
        for vs, s in self.evals(e['args'], st):
            if ptr is not None:
                recv = load(s, loc)
                recv = recv if recv[0] in ('t',) else ptr
                v = T('call', self.short(e['fn']), recv) + vs
                if not e['fn'].endswith(' const'):
                    s = s.copy()
                    s.ev('call', self.short(e['fn']), recv, vs, e.get('l'))
                out.append((self.note(v, e.get('t')), s))
            else:
                v = T('call', self.short(e['fn'])) + vs
                if e.get('t') == 'void':
                    s = s.copy()
                    s.ev('call', self.short(e['fn']), None, vs, e.get('l'))
                out.append((self.note(v, e.get('t')), s))
        return out

    @staticmethod
    def short(fn):
        return fn.split('(')[0] if not fn.startswith('(') else fn

    def bind_args(self, params, args, st):
        """-> [([('l',loc)|('v',val)], st)]"""
        outs = [((), st)]
        for i, a in enumerate(args):
            ref = i < len(params) and params[i]['t'].endswith('&')
            t = params[i]['t'] if i < len(params) else None
            nxt = []
            for vs, s in outs:
                if ref:
                    for l, s2 in self.lv(a, s):
                        nxt.append((vs + (('l', l),), s2))
                else:
                    ti, ta = (norm_type(x) if x else x for x in (t, a.get('t')))
                    fwd = ti != ta and (ti in self.WID or ti in self.SW) and (ta in self.WID or ta in self.SW)   # conversion inside a forwarding constructor
                    for v, s2 in self.eval(a, s):
                        if fwd:
                            v = self.intcast(v, ti, {'e': a}, s2)
                        for v3, s3 in self.conv(v, t, s2):
                            nxt.append((vs + (('v', v3),), s3))
            outs = nxt
        return [(list(vs), s) for vs, s in outs]

    def call_closure(self, cl, argexprs, st, e, vals=None):
        node = cl.node
        if 'generic' in node:
            cand = [g for g in node['generic'] if g['fn'] == e.get('fn')] or node['generic']
            if not cand:
                return [(T('unk', 'generic-lambda'), st)]
            node = cand[0]
        params, body = node['params'], node['body']
        if vals is not None:
            bound = [(('v', v),) for v in vals]
            outs = [([('v', v) for v in vals], st)]
        else:
            outs = self.bind_args(params, argexprs, st)
        res = []
        for args, s in outs:
            res += self.enter(dict(params=params, body=body, key='lambda@%s' % node.get('fn', node.get('l')), ret=''), s, cl.this, args, e, base_env=cl.env)
        return res

    def call_fn(self, fn, st, ptr, args, e):
        self.inlined.add(fn['key'])
        return self.enter(fn, st, ptr if not fn.get('static') else None, args, e)

    def enter(self, fn, st, this, args, e, base_env=None):
        saved_env, saved_this, saved_stack = st.env, st.this, st.stack
        s = st.copy()
        s.stack = saved_stack + (fn['key'],)
        s.this = this
        env = dict(base_env) if base_env else {}
        depth = len(s.stack)
        site = e.get('l', 0) if e else 0
        for p, a in zip(fn['params'], args):
            if a[0] == 'l':
                env[p['id']] = a[1]
            else:
                v = a[1]
                if p['t'].endswith('&'):
                    # value passed to a reference parameter: temporary
                    if v[0] == 't':
                        env[p['id']] = (('t', v), ())
                    else:
                        root = ('v', depth, p['id'], p['n'])
                        s.store[root] = v
                        env[p['id']] = (root, ())
                else:
                    root = ('v', depth, p['id'], p['n'])
                    s.store[root] = v
                    env[p['id']] = (root, ())
        s.env = env
        outs = []
        for inits_s in (self.run_inits(fn, s) if fn.get('ctor') else [s]):
            outs += self.exec(fn['body'], inits_s)
        res = []
        reflike = fn.get('ret', '').endswith('&')
        for o, s2 in outs:
            if o[0] == 'next':
                v = C(None)
            elif o[0] == 'return':
                v = o[1]
            else:
                raise Unsupported('outcome %s from function' % (o,))
            s2 = s2.copy()
            # drop frame-local roots
            for r in [r for r in s2.store if r[0] == 'v' and r[1] >= depth]:
                if not self._escapes(v, r):
                    del s2.store[r]
            s2.env, s2.this, s2.stack = saved_env, saved_this, saved_stack
            res.append((v, s2))
        return self.dedupe(res)

    def _escapes(self, v, r):
        if isinstance(v, tuple) and v and v[0] == 'LV':
            return v[1][0] == r
        return isinstance(v, tuple) and len(v) > 1 and v[0] == 'p' and v[1] == r

    def run_inits(self, fn, st):
        sts = [st]
        loc = deref(st.this)
        for i in fn.get('inits', []):
            nxt = []
            for s in sts:
                if 'f' in i:
                    fl = (loc[0], loc[1] + (('f', i['f']),))
                    ftype = self.field_type(fn.get('cls'), i['f'])
                    if ftype.endswith('&'):
                        for l, s2 in self.lv(i['e'], s):
                            # reference member: value seen through
                            s2 = s2.copy()
                            if ftype in SCALAR_REFS:
                                self.ref_fields = tuple(set(self.ref_fields) | {i['f']})
                                save(s2, fl, ('rf', l))
                            else:
                                save(s2, fl, load(s2, l))
                            nxt.append(s2)
                    else:
                        for v, s2 in self.eval(i['e'], s):
                            for v3, s3 in self.conv(v, ftype, s2):
                                s3 = s3.copy()
                                save(s3, fl, v3)
                                nxt.append(s3)
                elif 'base' in i or 'deleg' in i:
                    e = i['e']
                    if e and e.get('k') == 'ctor' and e['fn'] in self.p.fns:
                        f2 = self.p.fns[e['fn']]
                        for args, s2 in self.bind_args(f2['params'], e['args'], s):
                            for _, s3 in self.call_fn(f2, s2, s.this, args, e):
                                nxt.append(s3)
                    else:
                        base = i.get('base')
                        nxt += self.default_fields(base, s, loc) if base else [s]
                else:
                    nxt.append(s)
            sts = nxt
        return sts

    def field_type(self, cls, f):
        for c in self.p.bases(cls) if cls else []:
            r = self.p.records.get(c)
            if r:
                for x in r['fields']:
                    if x['n'] == f:
                        return x['t']
        return ''

    def default_fields(self, cls, st, loc):
        sts = [st]
        for c in reversed(self.p.bases(cls)):
            r = self.p.records.get(c)
            if not r:
                continue
            for f in r['fields']:
                nxt = []
                for s in sts:
                    if 'init' in f:
                        for v, s2 in self.eval(f['init'], s):
                            s2 = s2.copy()
                            save(s2, (loc[0], loc[1] + (('f', f['n']),)), v)
                            nxt.append(s2)
                    elif is_container(f['t']):
                        s2 = s.copy()
                        save(s2, (loc[0], loc[1] + (('f', f['n']),)), empty_container(f['t']))
                        nxt.append(s2)
                    elif is_smart(f['t'].replace('const ', '')):
                        s2 = s.copy()
                        save(s2, (loc[0], loc[1] + (('f', f['n']),)), NULL)
                        nxt.append(s2)
                    else:
                        nxt.append(s)
                sts = nxt
        return sts

    def e_ctor(self, e, st):
        return self.construct(e, st, None)

    def construct(self, e, st, target):
        """construct object of class e.cls; returns value"""
        cls = (e.get('t') or '').replace('const ', '').split('[')[0]
        q = e['q']
        h = self.hooks.get('ctor:' + cls) or self.hooks.get(q)
        if h is not None:
            r = h(self, e, st, None, None)
            if r is not None:
                return self.unlv(r)
        if (e.get('copy') or e.get('move')) and len(e['args']) >= 1 and e['fn'] not in self.p.fns:
            return self.eval(e['args'][0], st)
        if cls.startswith('std::') or cls.startswith('__gnu'):
            return self.std_ctor(cls, e, st)
        if self.herbrand(cls):
            return [(self.note(T('new:' + cls, *vs), cls + ' *'), s) for vs, s in self.evals(e['args'], st)]
        fn = self.p.fns.get(e['fn'])
        if fn is None:
            # implicit / defaulted
            if len(e['args']) == 1 and not e.get('list') and (e.get('copy') or e.get('move')):
                return self.eval(e['args'][0], st)
            if e['args'] and not e.get('list') and cls in self.p.records and not [f for f in self.ctors(cls) if f.get('ctor') and not f.get('implicit')]:
                # inherited constructor
                out = []
                for v, s in self.make_obj(cls, e['args'], st, e):
                    o = s.store.get(v[1]) if v[0] == 'p' else None
                    if o is None:
                        break
                    out.append((o, s))
                else:
                    return out
            s = st.copy()
            root = ('h', self.site_id(e, st))
            s.store[root] = Obj(cls, None, {})
            out = []
            for vs, s2 in self.evals(e['args'], s):
                for s3 in self.default_fields(cls, s2, (root, ())):
                    out.append((s3.store[root] if not vs else T('mk:' + cls, *vs), s3))
            return out
        if st.stack.count(fn['key']) >= self.rec or len(st.stack) >= self.max_depth:
            return [(T('mk:' + cls, *vs), s) for vs, s in self.evals(e['args'], st)]
        out = []
        for args, s in self.bind_args(fn['params'], e['args'], st):
            s = s.copy()
            root = ('h', self.site_id(e, s))
            s.store[root] = Obj(cls, None, {})
            for _, s2 in self.call_fn(fn, s, ('p', root, ()), args, e):
                out.append((s2.store.get(root, Obj(cls, None, {})), s2))
        return out

    def e_new(self, e, st):
        cls = e['of'].replace('const ', '')
        if 'n' in e:
            out = []
            for n, s in self.eval(e['n'], st):
                root = ('h', self.site_id(e, s))
                s = s.copy()
                s.store[root] = T('newarray', e['l'])
                out.append((('p', root, ()), s))
            return out
        init = e.get('init')
        vals = self.construct(init, st, None) if init and init['k'] == 'ctor' else (self.eval(init, st) if init else [(Obj(cls, None, {}), st)])
        out = []
        for v, s in vals:
            if v[0] == 't' and str(v[1]).startswith('new:'):
                out.append((v, s))
                continue
            s = s.copy()
            root = ('h', self.site_id(e, s), 'new')
            s.store[root] = v
            out.append((('p', root, ()), s))
        return out

    def range_ctor(self, cls, vs, st):
        from . import seqlib, maplib
        pb, pe = seqlib.it_pos(vs[0]), seqlib.it_pos(vs[1])
        if pb is None or pe is None or pb[0] != pe[0] or not seqlib.conc(load(st, pb[0])):
            return T('container', *vs)
        xs = seqlib.items(load(st, pb[0]))[pb[1]:pe[1]]
        kind = cls.replace('const ', '').split('<')[0]
        if kind.endswith('set'):
            tmp, loc = st.copy(), (('h', 'range'), ())
            tmp.store[('h', 'range')] = ('seq', ())
            for k in xs:
                if maplib.lookup(self, tmp, loc, kind, k) is None:
                    maplib.add_entry(self, tmp, loc, kind, k, k)
            return load(tmp, loc)
        return seqlib.seq(xs)

    # -------------------------------------------------- standard library model
    def std_ctor(self, cls, e, st):
        args = [a for a in e['args'] if not (a.get('t') or '').replace('const ', '').startswith('std::allocator<')] if self.fresh else e['args']
        if cls.startswith(('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::weak_ptr')):
            if not args:
                return [(NULL, st)]
            return self.eval(args[0], st)
        if is_container(cls):
            if not args:
                return [(empty_container(cls), st)]
            out = []
            for vs, s in self.evals(args, st):
                if len(vs) >= 1 and vs[0][0] == 'seq':
                    out.append((vs[0], s))
                elif len(args) == 1 and (e.get('copy') or e.get('move')):
                    out.append((vs[0], s))
                elif len(vs) == 1 and self.fresh and isnum(vs[0]) and 0 <= cval(vs[0]) <= 64 and zero_value(self.p, first_targ(cls)) is not None and cls.replace('const ', '').startswith('std::vector'):
                    z = zero_value(self.p, first_targ(cls))
                    out.append((('seq', tuple(('one', z) for _ in range(int(cval(vs[0]))))), s))
                elif len(vs) >= 1 and isnum(vs[0]) and 0 <= cval(vs[0]) <= 16 and len(vs) >= 2 and not is_iter_type(args[0].get('t')):
                    out.append((('seq', tuple(('one', vs[1]) for _ in range(int(cval(vs[0]))))), s))
                elif len(vs) == 2 and self.fresh and self.std_hook is not None and cls.replace('const ', '').startswith(('std::vector<', 'std::deque<', 'std::list<', 'std::set<', 'std::unordered_set<')):
                    out.append((self.range_ctor(cls, vs, s), s))
                else:
                    out.append((T('container', *vs), s))
            return out
        if cls.startswith('std::pair') or cls.startswith('std::tuple'):
            out = []
            for vs, s in self.evals(args, st):
                if len(vs) == 2 and cls.startswith('std::pair'):
                    out.append((Obj('pair', None, {('f', 'first'): vs[0], ('f', 'second'): vs[1]}), s))
                elif len(vs) == 1:
                    out.append((vs[0], s))
                else:
                    out.append((Obj('tuple', None, {('f', str(i)): v for i, v in enumerate(vs)}), s))
            return out
        if not args:
            if 'basic_string<' in cls:
                return [(C(''), st)]
            return [(T('default', cls), st)]
        if len(args) == 1 or 'basic_string<' in cls or cls.startswith('std::function') or cls.startswith('std::optional'):
            return self.eval(args[0], st)
        return [(T('mk:' + cls, *vs), s) for vs, s in self.evals(args, st)]

    IDENT = {'std::move', 'std::forward', 'std::static_pointer_cast', 'std::as_const', 'std::ref', 'std::cref', 'std::const_pointer_cast', 'std::addressof'}

    def std_call(self, e, st, loc, ptr):
        q, name = e['q'], e['name']
        args = e['args']
        ccls = e.get('cls', '')
        if q in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const'):
            return [(('LV', l), s) for l, s in self.lv(args[0], st)]
        if q in ('std::static_pointer_cast', 'std::const_pointer_cast'):
            return self.eval(args[0], st)
        if q == 'std::dynamic_pointer_cast':
            t = e.get('t', '')
            inner = t[t.find('<') + 1:t.rfind('>')]
            out = []
            for v, s in self.eval(args[0], st):
                out += self.dyncast(v, {'t': inner}, s)
            return out
        if q in ('std::make_shared', 'std::make_unique'):
            t = e.get('t', '')
            inner = t[t.find('<') + 1:t.rfind('>')].split(', std::default_delete')[0].replace('const ', '')
            if inner.endswith('[]') and len(args) == 1 and self.fresh:
                z = zero_value(self.p, inner[:-2].strip())
                out = []
                for v, s in self.eval(args[0], st):
                    if z is None or not isnum(v) or not 0 <= cval(v) <= 64:
                        return self.make_obj(inner, args, st, e)
                    s = s.copy()
                    root = ('h', self.site_id(e, s), 'mk')
                    s.store[root] = ('seq', tuple(('one', z) for _ in range(int(cval(v)))))
                    out.append((('p', root, ()), s))
                return out
            if self.fresh and not args and is_container(inner):
                s = st.copy()
                root = ('h', self.site_id(e, s), 'mk')
                s.store[root] = empty_container(inner)
                return [(('p', root, ()), s)]
            return self.make_obj(inner, args, st, e)
        if q == 'std::make_pair':
            return [(Obj('pair', None, {('f', 'first'): a, ('f', 'second'): b}), s) for (a, b), s in self.evals(args, st)]
        if q in ('std::make_tuple', 'std::forward_as_tuple'):
            return [(Obj('tuple', None, {('f', str(i)): v for i, v in enumerate(vs)}), s) for vs, s in self.evals(args, st)]
        if q in ('std::min', 'std::max') and len(args) == 2:
            out = []
            for (a, b), s in self.evals(args, st):
                for r, s2 in self.decide_int(s, '<' if q == 'std::min' else '>', a, b):
                    out.append((a if r else b, s2))
            return out
        if q == 'std::get':
            t = e['fn']
            idx = t[t.find('<') + 1:].split(',')[0].rstrip('UL').strip()
            for l, s in self.lv(args[0], st):
                n = {'0': 'first', '1': 'second'}.get(idx, idx) if 'pair' in args[0].get('t', '') else idx
                return [(('LV', (l[0], l[1] + (('f', n),))), s)]
        if name in ('__builtin_unreachable', '__assert_fail', 'abort', 'exit', '__assert_perror_fail') or q in ('std::terminate', 'std::abort', 'std::exit'):
            s = st.copy()
            s.ev('abort', name, e.get('l'))
            self.aborted.append(s)
            return []
        if q.startswith('std::numeric_limits') and name in ('max', 'min', 'lowest', 'infinity'):
            t = q[q.find('<') + 1:q.rfind('>')] if '<' in q else first_targ(ccls or e['fn'])
            t = t.strip()
            if t in self.WID:
                return [(C((1 << self.WID[t]) - 1 if name == 'max' else 0), st)]
            if t in self.SW:
                w = self.SW[t]
                return [(C((1 << (w - 1)) - 1 if name == 'max' else -(1 << (w - 1))), st)]
            if t in ('double', 'float') and name == 'infinity':
                return [(C(INF), st)]
        if name == '__builtin_expect':
            return self.eval(args[0], st)
        if name in ('strcmp',) and len(args) == 2:
            out = []
            for (a, b), s in self.evals(args, st):
                for r, s2 in self.decide_eq(s, a, b):
                    if r:
                        out.append((C(0), s2))
                    else:
                        out.append((C(1), s2))
            return out
        if q in ('std::swap',) and len(args) == 2:
            out = []
            for a, s in self.lv(args[0], st):
                for b, s2 in self.lv(args[1], s):
                    s2 = s2.copy()
                    va, vb = load(s2, a), load(s2, b)
                    save(s2, a, vb)
                    save(s2, b, va)
                    out.append((NULL, s2))
            return out
        alg = STD_ALG.get(q)
        if alg:
            r = alg(self, e, st)
            if r is not None:
                return r
        if 'opr' in e:
            return self.std_op(e, st, loc, ptr)
        if loc is not None:
            return self.std_method(e, st, loc, ptr)
        if q in ('std::begin', 'std::end', 'std::size', 'std::empty') and len(args) == 1:
            out = []
            for l, s in self.lv(args[0], st):
                e2 = dict(e)
                e2['name'] = name
                e2['args'] = []
                e2['cls'] = args[0].get('t', '').replace('const ', '')
                out += self.std_method(e2, s, l, ('p', l[0], l[1])) or []
            return out
        return None

    def ctors(self, cls):
        cache = self.p.__dict__.setdefault('_ctors', None)
        if cache is None:
            cache = self.p._ctors = {}
            for f in self.p.fns.values():
                if f.get('ctor'):
                    k = f['key'].split('(')[0]
                    while k.endswith('>'):      # template arguments of the constructor itself
                        d, i = 0, len(k) - 1
                        while i >= 0:
                            d += (k[i] == '>') - (k[i] == '<')
                            if d == 0:
                                break
                            i -= 1
                        k = k[:i]
                    cache.setdefault(k.rsplit('::', 1)[0], []).append(f)
        return cache.get(cls, [])

    def make_obj(self, cls, args, st, e):
        h = self.hooks.get('ctor:' + cls)
        if h is not None:
            r = h(self, e, st, None, None)
            if r is not None:
                return r
        if self.herbrand(cls):
            return [(self.note(T('new:' + cls, *vs), cls + ' *'), s) for vs, s in self.evals(args, st)]
        rec = self.p.records.get(cls)
        if rec is None:
            return [(T('mkp:' + cls, *vs), s) for vs, s in self.evals(args, st)]
        # pick a constructor by arity
        cands = self.ctors(cls)
        cands = [f for f in cands if f.get('ctor') and len(f['params']) >= len(args) and all('def' in q for q in f['params'][len(args):])]
        if len(cands) > 1:
            cands = best_overload(cands, args)
        s = st.copy()
        root = ('h', self.site_id(e, s), 'mk')
        s.store[root] = Obj(cls, None, {})
        out = []
        if len(cands) == 1 and (args or not cands[0].get('implicit')):
            fn = cands[0]
            full = list(args) + [q['def'] for q in fn['params'][len(args):]]
            for a, s2 in self.bind_args(fn['params'], full, s):
                for _, s3 in self.call_fn(fn, s2, ('p', root, ()), a, e):
                    out.append((('p', root, ()), s3))
            return out
        if not args:
            return [(('p', root, ()), s2) for s2 in self.default_fields(cls, s, (root, ()))]
        if not cands:
            # inherited constructor
            for b in self.p.bases(cls)[1:]:
                rb = self.p.records.get(b)
                if rb is None:
                    break
                bc = self.ctors(b)
                bc = [f for f in bc if f.get('ctor') and not f.get('implicit') and len(f['params']) >= len(args)
                      and all('def' in q for q in f['params'][len(args):])
                      and not (len(f['params']) == 1 and norm_type(f['params'][0]['t']) == b)]
                if len(bc) > 1:
                    bc = best_overload(bc, args)
                if len(bc) == 1:
                    full = list(args) + [q['def'] for q in bc[0]['params'][len(args):]]
                    for s1 in self.default_fields(cls, s, (root, ())):
                        for a, s2 in self.bind_args(bc[0]['params'], full, s1):
                            for _, s3 in self.call_fn(bc[0], s2, ('p', root, ()), a, e):
                                out.append((('p', root, ()), s3))
                    return out
        return [(T('mkp:' + cls, *vs), s2) for vs, s2 in self.evals(args, s)]

    def std_op(self, e, st, loc, ptr):
        op = e['opr']
        args = e['args']
        ccls = e.get('cls', '')
        if loc is not None:
            if op in ('->',) and not args:
                v = load(st, loc)
                return [(v, st)]
            if op == '*' and not args:
                v = load(st, loc)
                return [(('LV', deref(v)), st)]
            if op in ('++', '--'):
                old = load(st, loc)
                new = add(old, C(1), 1 if op == '++' else -1)
                s = st.copy()
                save(s, loc, new)
                if args:
                    return [(old, s)]
                return [(('LV', loc), s)]
            if op == '[]' and len(args) == 1 and self.std_hook is not None and ccls.replace('const ', '').startswith(('std::map<', 'std::unordered_map<')):
                r = self.std_hook(self, dict(e, name='operator[]'), st, loc, ptr)
                if r is not None:
                    return r
            if op == '[]' and len(args) == 1:
                out = []
                for i, s in self.eval(args[0], st):
                    v = load(s, loc)
                    if is_smart(ccls):
                        out.append((('LV', self.ptr_idx(v, i)), s))
                    elif is_itcls(ccls):
                        out.append((('LV', deref(add(v, i))), s))
                    elif getattr(self, 'traps', False) and isnum(i) and isinstance(v, tuple) and v and v[0] == 'seq' and all(q[0] == 'one' for q in v[1]) and not 0 <= cval(i) < len(v[1]):
                        self.aborted.append(s)      # an element that does not exist: the path ends here
                    else:
                        out.append((('LV', (loc[0], loc[1] + (('i', i),))), s))
                return out
            if op == '=' and len(args) == 1:
                out = []
                for v, s in self.eval(args[0], st):
                    s = s.copy()
                    self.store(s, loc, v)
                    out.append((('LV', loc), s))
                return out
            if op == 'bool':
                return [(load(st, loc), st)]
            if op in ('+', '-') and len(args) == 1:
                return [(r, s2) for v, s in self.eval(args[0], st) for r, s2 in self.binop(op, load(s, loc), v, s)]
            if op in ('+=', '-=') and len(args) == 1:
                out = []
                for v, s in self.eval(args[0], st):
                    old = load(s, loc)
                    if isconst(old) and isinstance(cval(old), str):
                        if isnum(v):
                            v = C(chr(int(cval(v)) % 256))
                        elif not (isconst(v) and isinstance(cval(v), str)):
                            if cval(old) or (args[0].get('t') or '').replace('const ', '').strip() == 'char':
                                raise Unsupported('text appended: ' + show(v)[:60])
                    for r, s2 in ([(C(cval(old) + cval(v)), s)] if isconst(old) and isinstance(cval(old), str) and isconst(v) else [(v, s)] if isconst(old) and cval(old) == '' else self.binop(op[0], old, v, s)):
                        s2 = s2.copy()
                        self.store(s2, loc, r)
                        out.append((('LV', loc), s2))
                return out
            if op in ('==', '!=') and len(args) == 1:
                out = []
                for v, s in self.eval(args[0], st):
                    out += [(C(r), s2) for r, s2 in self.decide(s, op, load(s, loc), v)]
                return out
            if op == '<<' and len(args) == 1:
                out = []
                for v, s in self.eval(args[0], st):
                    s = s.copy()
                    s.ev('out', ptr, v)
                    out.append((('LV', loc), s))
                return out
        else:
            if op in ('==', '!=', '<', '<=', '>', '>=') and len(args) == 2:
                out = []
                for (a, b), s in self.evals(args, st):
                    if op in ('<', '<=', '>', '>=') and any(x[0] in ('o', 'seq') or (x[0] == 'c' and isinstance(x[1], str)) for x in (a, b)):
                        out.append((self.note(T('op' + op, a, b), 'bool'), s))
                        continue
                    out += [(C(r), s2) for r, s2 in self.decide(s, op, a, b)]
                return out
            if op == '<<' and len(args) == 2:
                out = []
                for l, s in self.lv(args[0], st):
                    for v, s2 in self.eval(args[1], s):
                        s2 = s2.copy()
                        s2.ev('out', ('p', l[0], l[1]), v)
                        out.append((('LV', l), s2))
                return out
            if op in ('+', '-') and len(args) == 2:
                return [(r, s2) for (a, b), s in self.evals(args, st) for r, s2 in self.binop(op, a, b, s)]
        return None

    def size_of(self, st, loc):
        v = load(st, loc)
        if v[0] == 'seq':
            if all(p[0] == 'one' for p in v[1]):
                return C(len(v[1]))
            return T('size', v)
        if v[0] == 'c' and isinstance(v[1], str):
            return C(len(v[1]))
        return T('size', v)

    def std_method(self, e, st, loc, ptr):
        name, args = e['name'], e['args']
        cls = e.get('cls', '')
        if self.std_hook is not None:
            r = self.std_hook(self, e, st, loc, ptr)
            if r is not None:
                return r
        if name in ('operator=', 'operator[]', 'operator==', 'operator!=') and 'opr' not in e and len(args) == 1:
            return self.std_op(dict(e, opr=name[8:]), st, loc, ptr)
        v = load(st, loc)
        if name == 'get' and not args:
            return [(v, st)]
        if name == 'operator bool':
            return [(v, st)]
        if name in ('size', 'length') and not args:
            return [(self.size_of(st, loc), st)]
        if name == 'empty' and not args:
            return [(C(r), s) for r, s in self.decide_int(st, '==', self.size_of(st, loc), C(0))]
        if name in ('begin', 'cbegin') and not args:
            return [(T('begin', loc), st)]
        if name in ('end', 'cend') and not args:
            return [(add(T('begin', loc), self.size_of(st, loc)), st)]
        if name == 'rbegin' or name == 'rend':
            return [(T(name, loc), st)]
        if name in ('c_str', 'data', 'str', 'release', 'lock') and not args:
            if name == 'data' and is_container(cls):
                return [(T('begin', loc), st)]
            return [(v, st)]
        if name in ('at',) and len(args) == 1:
            return [(('LV', (loc[0], loc[1] + (('i', i),))), s) for i, s in self.eval(args[0], st)]
        if name == 'front' and not args:
            return [(('LV', (loc[0], loc[1] + (('i', C(0)),))), st)]
        if name == 'back' and not args:
            n = self.size_of(st, loc)
            return [(('LV', (loc[0], loc[1] + (('i', add(n, C(1), -1)),))), st)]
        if name in ('push_back', 'emplace_back', 'push', 'emplace', 'insert', 'push_front', 'emplace_front') and (v[0] == 'seq' or is_container(cls)):
            out = []
            for vs, s in self.evals(args, st):
                if name == 'insert' and len(vs) == 3:
                    item = ('range', vs[1], vs[2])
                elif name == 'insert' and len(vs) == 2:
                    item = ('one', vs[1])
                elif len(vs) == 1:
                    item = ('one', vs[0])
                elif len(vs) == 0:
                    item = ('one', T('default', cls))
                else:
                    item = ('one', self.emplace_val(cls, vs))
                cur = load(s, loc)
                s = s.copy()
                if cur[0] == 'seq':
                    self.store(s, loc, ('seq', cur[1] + (item,)))
                else:
                    self.store(s, loc, ('seq', (('base', cur), item)))
                s.ev('push', ptr if cur[0] != 't' else cur, item)
                if name == 'emplace_back' or name == 'emplace':
                    out.append((item[1] if item[0] == 'one' else NULL, s))
                else:
                    out.append((T('ins', e.get('l')), s))
            return out
        if name == 'clear' and not args:
            s = st.copy()
            self.store(s, loc, ('seq', ()))
            s.ev('clear', ptr)
            return [(NULL, s)]
        if name in ('reserve', 'shrink_to_fit'):
            return [(NULL, s) for vs, s in self.evals(args, st)]
        if name == 'pop_back' and v[0] == 'seq' and v[1] and v[1][-1][0] == 'one':
            s = st.copy()
            self.store(s, loc, ('seq', v[1][:-1]))
            return [(NULL, s)]
        if name == 'reset' and is_smart(cls):
            out = []
            for vs, s in self.evals(args, st):
                s = s.copy()
                self.store(s, loc, vs[0] if vs else NULL)
                out.append((NULL, s))
            return out
        if name == 'count' and len(args) == 1:
            return [(self.note(T('count', load(s, loc), a), 'unsigned long'), s) for a, s in self.eval(args[0], st)]
        if name == 'find' and len(args) == 1 and is_container(cls):
            return [(T('find', loc, a), s) for a, s in self.eval(args[0], st)]
        if name == 'swap' and len(args) == 1:
            out = []
            for l2, s in self.lv(args[0], st):
                s = s.copy()
                a, b = load(s, loc), load(s, l2)
                self.store(s, loc, b)
                self.store(s, l2, a)
                out.append((NULL, s))
            return out
        return None

    def emplace_val(self, cls, vs):
        inner = first_targ(cls)
        if inner.startswith('std::pair') and len(vs) == 2:
            return Obj('pair', None, {('f', 'first'): vs[0], ('f', 'second'): vs[1]})
        if inner.startswith('std::tuple') and len(vs) > 1:
            return Obj('tuple', None, {('f', str(i)): v for i, v in enumerate(vs)})
        return T('mk:' + inner, *vs)

    # -------------------------------------------------- statements
    def exec(self, n, st):
        """-> [(outcome, st)]; outcome ('next',)|('break',)|('continue',)|('return',v)"""
        if n is None:
            return [(('next',), st)]
        k = n['k']
        return getattr(self, 's_' + k, self.s_unknown)(n, st)

    def s_unknown(self, n, st):
        raise Unsupported('statement %s line %s' % (n['k'], n.get('l')))

    def s_block(self, n, st):
        return self.run_list(n['s'], st)

    def run_list(self, stmts, st):
        cur = [st]
        out = []
        for x in stmts:
            nxt = []
            for s in cur:
                for o, s2 in self.exec(x, s):
                    if o[0] == 'next':
                        nxt.append((o, s2))
                    else:
                        out.append((o, s2))
            cur = [s for _, s in self.dedupe(nxt)]
            if not cur:
                break
        res = out + [(('next',), s) for s in cur]
        if self.raii:
            vs = [v for x in stmts if x and x['k'] == 'decl' for v in x['v'] if not v.get('static')]
            for v in reversed(vs):
                d = self.dtor(v['t'])
                if d is None:
                    continue
                nres = []
                for o, s in res:
                    l = s.env.get(v['id'])
                    if l is None or ('dtor', l) in s.ghost:
                        nres.append((o, s))
                        continue
                    for _, s2 in self.call_fn(d, s, ('p', l[0], l[1]), [], {'l': x.get('l', 0)}):
                        s2 = s2.copy()
                        s2.env = dict(s2.env)
                        s2.env.pop(v['id'], None)
                        nres.append((o, s2))
                res = nres
        return res

    def dtor(self, t):
        """user-written destructor of a class type"""
        cls = t.replace('const ', '').strip()
        if cls not in self.p.records:
            return None
        f = self.p.fns.get('%s::~%s()' % (cls, cls.split('::')[-1].split('<')[0]))
        return f if f and f.get('body') and not f.get('implicit') and f['body'].get('s') else None

    def s_expr(self, n, st):
        return [(('next',), s) for _, s in self.eval(n['e'], st)]

    def s_decl(self, n, st):
        sts = [st]
        for v in n['v']:
            nxt = []
            for s in sts:
                nxt += self.declare(v, s)
            sts = nxt
        return [(('next',), s) for s in sts]

    def declare(self, v, st):
        root = ('v', len(st.stack), v['id'], v['n'])
        out = []
        t = v['t']
        if t.endswith('&') and 'init' in v:
            for l, s in self.lv(v['init'], st):
                s = s.copy()
                s.env = dict(s.env)
                s.env[v['id']] = l
                out.append(s)
            return out
        if v.get('static'):
            root = ('g', 'static:%s:%s' % (v['n'], v['id']))
            if root in st.store:
                s = st.copy()
                s.env = dict(s.env)
                s.env[v['id']] = (root, ())
                return [s]
        vals = self.eval(v['init'], st) if 'init' in v else [(empty_container(t) if is_container(t) else T('undef', v['n'], v['id']), st)]
        for x, s in vals:
            for x2, s2 in self.conv(x, t, s) if 'init' in v else [(x, s)]:
                s2 = s2.copy()
                s2.env = dict(s2.env)
                s2.env[v['id']] = (root, ())
                s2.store[root] = self.note(x2, t)
                out.append(s2)
        return out

    def s_if(self, n, st):
        sts = [st]
        if 'init' in n:
            sts = [s for _, s in self.exec(n['init'], st)]
        if 'var' in n:
            sts = [s2 for s in sts for s2 in self.declare(n['var'], s)]
        out = []
        for s in sts:
            for c, s2 in self.cond(n['c'], s):
                if c:
                    out += self.exec(n['a'], s2)
                elif n.get('b'):
                    out += self.exec(n['b'], s2)
                else:
                    out.append((('next',), s2))
        return out

    def s_return(self, n, st):
        if n['e'] is None:
            return [(('return', NULL), st)]
        out = []
        if self.ret_is_ref(st):
            for l, s in self.lv(n['e'], st):
                out.append((('return', ('LV', l)), s))
            return out
        rt = self.ret_type(st)
        for v, s in self.eval(n['e'], st):
            for v2, s2 in self.conv(v, rt, s):
                out.append((('return', v2), s2))
        return out

    def ret_type(self, st):
        f = self.p.fns.get(st.stack[-1]) if st.stack else None
        return f['ret'] if f else None

    def ret_is_ref(self, st):
        t = self.ret_type(st)
        return bool(t) and t.endswith('&')

    def s_break(self, n, st): return [(('break',), st)]
    def s_continue(self, n, st): return [(('continue',), st)]

    def s_label(self, n, st):
        return self.exec(n['s'], st)

    def s_try(self, n, st):
        return self.exec(n['b'], st)

    def s_case(self, n, st): return self.exec(n['s'], st)
    def s_default(self, n, st): return self.exec(n['s'], st)

    def s_switch(self, n, st):
        sts = [st]
        if 'init' in n:
            sts = [s for _, s in self.exec(n['init'], st)]
        if 'var' in n:
            sts = [s2 for s in sts for s2 in self.declare(n['var'], s)]
        body = n['b']['s'] if n['b']['k'] == 'block' else [n['b']]
        # flatten labels
        flat = []

        def add_stmt(x):
            labels = []
            while x and x['k'] in ('case', 'default'):
                labels.append(x)
                x = x['s']
            flat.append((labels, x))
        for x in body:
            add_stmt(x)
        out = []
        for s in sts:
            for v, s2 in self.eval(n['c'], s):
                for idx, s3 in self.switch_targets(v, flat, s2):
                    if idx is None:
                        out.append((('next',), s3))
                        continue
                    for o, s4 in self.run_list([x for _, x in flat[idx:]], s3):
                        out.append((('next',) if o[0] == 'break' else o, s4))
        return out

    def switch_targets(self, v, flat, st):
        res = []
        rest = [st]
        default = None
        for i, (labels, _) in enumerate(flat):
            for lab in labels:
                if lab['k'] == 'default':
                    default = i
                    continue
                nxt = []
                if 'hi' in lab:
                    for s in rest:
                        for a, s2 in self.decide_int(s, '>=', v, C(lab['iv'])):
                            if not a:
                                nxt.append(s2)
                                continue
                            for b, s3 in self.decide_int(s2, '<=', v, C(lab['hi'])):
                                if b:
                                    res.append((i, s3))
                                else:
                                    nxt.append(s3)
                    rest = nxt
                    continue
                for s in rest:
                    cv = C(lab['iv'])
                    if lab['v'] and lab['v']['k'] == 'enum':
                        cv = ('e', lab['v']['of'], lab['v']['n'], lab['v']['v'])
                    for r, s2 in self.decide_eq(s, v, cv):
                        if r:
                            res.append((i, s2))
                        else:
                            nxt.append(s2)
                rest = nxt
        for s in rest:
            res.append((default, s))
        return res

    # -------------------------------------------------- loops
    def s_for(self, n, st):
        out = []
        for o, s in self.exec(n['init'], st) if n['init'] else [(('next',), st)]:
            out += self.loop(n, s, n['c'], n['inc'], n['b'])
        return out

    def s_while(self, n, st):
        return self.loop(n, st, n['c'], None, n['b'], var=n.get('var'))

    def s_do(self, n, st):
        return self.loop(n, st, n['c'], None, n['b'], post=True)

    def s_rfor(self, n, st):
        out = []
        for l, s in self.lv(n['range'], st):
            l = self.rfor_container(n, l, s)
            v = load(s, l)
            text = isconst(v) and isinstance(cval(v), str)
            if v[0] == 't' and (n['range'].get('t') or '').replace('const ', '').strip().startswith(('std::basic_string', 'std::string')):
                raise Unsupported('range over the characters of ' + show(v)[:60])
            if text or v[0] == 'seq' and all(p[0] == 'one' for p in v[1]):
                cur = [s]
                for i in range(len(cval(v) if text else v[1])):
                    nxt = []
                    for s1 in cur:
                        el = (l[0], l[1] + (('i', C(i)),))
                        if text:
                            el = (('v', len(s1.stack), 'char', n.get('l'), i), ())
                            s1 = s1.copy()
                            s1.store[el[0]] = C(ord(cval(v)[i]))
                        for o, s2 in self.rfor_body(n, s1, el):
                            if o[0] in ('next', 'continue'):
                                nxt.append(s2)
                            elif o[0] == 'break':
                                out.append((('next',), s2))
                            else:
                                out.append((o, s2))
                    cur = nxt
                out += [(('next',), s1) for s1 in cur]
                continue
            r = self.rfor_iter(n, s, l) if self.unroll else None
            if r is not None:
                out += r
                continue
            out += self.loop(n, s, None, None, n['b'], rng=l)
        return out

    def rfor_iter(self, n, st, l):
        """a repository class with iterators of its own used as a range"""
        t = (n['range'].get('t') or '').replace('const ', '').rstrip('& ')
        if t not in self.p.records or t.startswith('std::'):
            return None
        e = {'l': n.get('l')}
        roots = []
        s = st
        cls = None
        for nm in ('begin', 'end'):
            fs = [f for f in self.p.method(t, nm) if not f['params']]
            if not fs:
                return None
            rs = self.unlv(self.call_fn(fs[0], s, ('p', l[0], l[1]), [], e))
            if len(rs) != 1 or not isinstance(rs[0][0], Obj) or rs[0][0].cls not in self.p.records:
                return None
            v, s = rs[0]
            cls = v.cls
            s = s.copy()
            root = ('v', len(s.stack), n.get('l'), 'range-' + nm)
            s.store[root] = v
            roots.append(root)
        ops = {}
        for nm in ('operator!=', 'operator++', 'operator*'):
            fs = [f for f in self.p.method(cls, nm) if len(f['params']) == (1 if nm == 'operator!=' else 0)]
            if not fs:
                return None
            ops[nm] = fs[0]
        it = ('p', roots[0], ())
        out, cur = [], [s]
        for i in range(self.unroll + 1):
            nxt = []
            for s in cur:
                by = ('l', (roots[1], ())) if ops['operator!=']['params'][0]['t'].endswith('&') else ('v', load(s, (roots[1], ())))
                rs = [(c, q2) for v, q in self.unlv(self.call_fn(ops['operator!='], s, it, [by], e)) for c, q2 in self.truth(q, v)]
                if len(rs) != 1:
                    return None
                c, s = rs[0]
                if not c:
                    out.append((('next',), s))
                    continue
                for v, s1 in self.call_fn(ops['operator*'], s, it, [], e):
                    s1 = s1.copy()
                    if isinstance(v, tuple) and v[0] == 'LV':
                        eloc = v[1]
                    else:
                        eloc = (('v', len(s1.stack), n.get('l'), 'range-item'), ())
                        s1.store[eloc[0]] = v
                    for o, s2 in self.rfor_body(n, s1, eloc):
                        if o[0] in ('next', 'continue'):
                            nxt += [s3 for _, s3 in self.call_fn(ops['operator++'], s2, it, [], e)]
                        elif o[0] == 'break':
                            out.append((('next',), s2))
                        else:
                            out.append((o, s2))
            cur = nxt
            if not cur:
                return out
        return None

    def rfor_container(self, n, l, st):
        """a repository class used as a range: the container its begin() refers to"""
        t = (n['range'].get('t') or '').replace('const ', '').rstrip('& ')
        for _ in range(3):
            if t not in self.p.records or t.startswith('std::'):
                return l
            fs = [f for f in self.p.method(t, 'begin') if not f['params']]
            if not fs:
                return l
            rs = self.call_fn(fs[0], st, ('p', l[0], l[1]), [], {'l': n.get('l')})
            if len(rs) != 1 or rs[0][0][0] != 't' or rs[0][0][1] != 'begin':
                return l
            return rs[0][0][2]
        return l

    def rfor_body(self, n, st, eloc):
        s = st.copy()
        s.env = dict(s.env)
        v = n['var']
        if v['t'].endswith('&'):
            s.env[v['id']] = eloc
        else:
            root = ('v', len(s.stack), v['id'], v['n'])
            s.store[root] = load(s, eloc)
            s.env[v['id']] = (root, ())
        sts = [s]
        for b in n.get('binds', []):
            sts = [s2 for s1 in sts for s2 in self.declare(b, s1)]
        return [x for s1 in sts for x in self.exec(n['b'], s1)]

    def loop_unrolled(self, n, st, cond, inc, body, var, post=False):
        out, cur = [], [st]
        for i in range(self.unroll + 1):
            nxt = []
            for s in cur:
                hs = self.declare(var, s) if var else [s]
                for h in hs:
                    rs = self.cond(cond, h) if cond and not (post and i == 0) else [(True, h)]
                    if len(rs) != 1 and not self.unroll_forks:
                        return None
                    for c, s1 in rs:
                        if not c:
                            out.append((('next',), s1))
                            continue
                        for o, s2 in self.exec(body, s1):
                            if o[0] in ('next', 'continue'):
                                nxt += [s3 for _, s3 in self.eval(inc, s2)] if inc is not None else [s2]
                            elif o[0] == 'break':
                                out.append((('next',), s2))
                            else:
                                out.append((o, s2))
            cur = nxt
            if not cur:
                return out
            if self.unroll_forks and len(cur) > 200:
                return None
        return None

    def loop(self, n, st, cond, inc, body, var=None, post=False, rng=None):
        if self.unroll and rng is None and (not post or self.fresh):
            r = self.loop_unrolled(n, st, cond, inc, body, var, post)
            if r is not None:
                return r
        key = (tuple(x.split('(')[0][-40:] for x in st.stack), n.get('l'), n['k'])
        changed = {}     # leaf (root,path) -> 'fin'|'w'|'seq'
        fins = {}
        L = Loop(key, (st.stack[-1] if st.stack else '', n.get('l')))
        if rng is not None:
            L.range = rng
            rv = load(st, rng)
            iv = T('iv', key, rng if rv[0] != 't' else rv)
        ev0 = st.events

        def wsym(leaf):
            return T('w', key, leaf)

        def hval(leaf):
            """value of a widened leaf at the loop head"""
            old = load(st, leaf)
            if is_ptr(old):
                self.note(wsym(leaf), 'long')
                return add(old, wsym(leaf))
            return wsym(leaf)

        for attempt in range(60):
            L.iters = []
            # build head
            head = st.copy()
            for leaf, kind in changed.items():
                if kind == 'w':
                    w = wsym(leaf)
                    old = load(st, leaf)
                    t = self.ty.get(old) if old[0] == 't' else None
                    if t:
                        self.note(w, t)
                    elif isnum(old):
                        pass
                    save(head, leaf, hval(leaf))
                elif kind == 'seq':
                    base = load(st, leaf)
                    parts = base[1] if base[0] == 'seq' else (('base', base),)
                    save(head, leaf, ('seq', parts + (('star', key),)))
            if L_changed_events(changed):
                head.events = ev0 + (('star', key),)
            for k in [k for k in head.facts if any(isinstance(x, tuple) and len(x) > 2 and x[0] == 't' and x[1] in ('w', 'iv') and x[2] == key for x in subterms(k[1]))]:
                del head.facts[k]
            heads = {}
            work = []

            def push(h):
                k = self.headkey(h, changed)
                if k not in heads:
                    heads[k] = h
                    work.append(h)
            push(head)
            exits = []
            redo = False
            while work and not redo:
                h = work.pop()
                if len(heads) > self.max_heads:
                    raise Limit('loop %s too many head states' % (key,))
                # condition
                conts = []
                if rng is not None:
                    e = h.copy()
                    exits.append((('next',), e))
                    conts = [h]
                elif post:
                    conts = [h]
                else:
                    hs = [h]
                    if var:
                        hs = self.declare(var, h)
                    for h1 in hs:
                        for c, s in (self.cond(cond, h1) if cond else [(True, h1)]):
                            if c:
                                conts.append(s)
                            else:
                                exits.append((('next',), s))
                for s in conts:
                    if rng is not None:
                        self.purge(s, iv)
                        res = self.rfor_body(n, s, (rng[0], rng[1] + (('i', iv),)))
                    else:
                        res = self.exec(body, s)
                    if self.on_iter:
                        res = [(o, s3) for o, s2 in res for s3 in self.on_iter(self, key, n, h, o, s2)]
                    for o, s2 in res:
                        rec = dict(head=h, out=o, st=s2)
                        if o[0] in ('next', 'continue'):
                            ends = []
                            if post:
                                for c, s3 in self.cond(cond, s2):
                                    if c:
                                        ends.append(s3)
                                    else:
                                        exits.append((('next',), s3))
                                        L.iters.append(dict(head=h, out=('last',), st=s3))
                            elif inc is not None:
                                ends = [s3 for _, s3 in self.eval(inc, s2)]
                            else:
                                ends = [s2]
                            for s3 in ends:
                                L.iters.append(dict(head=h, out=('next',), st=s3))
                                r = self.reenter(st, h, s3, changed, fins, key)
                                if r is None:
                                    redo = True
                                    break
                                push(r)
                        elif o[0] == 'break':
                            L.iters.append(rec)
                            exits.append((('next',), s2))
                        else:
                            L.iters.append(rec)
                            exits.append((o, s2))
                        if redo:
                            break
                    if redo:
                        break
            if not redo:
                break
        else:
            raise Limit('loop %s does not converge' % (key,))
        # ---- classify widened leaves
        for leaf, kind in changed.items():
            if kind != 'w':
                continue
            w = wsym(leaf)
            isp = is_ptr(load(st, leaf))
            diffs, ok, muls = set(), True, set()
            nn = 0
            for it in L.iters:
                if it['out'][0] != 'next':
                    continue
                nn += 1
                new = load(it['st'], leaf)
                c, m = lin_of(new) if not isinstance(new, Obj) and new[0] in ('t', 'c', 'e') else (0, {})
                if isp:
                    d = add(pnum(new), pnum(hval(leaf)), -1) if is_ptr(new) else None
                    if d is None or contains(d, w):
                        ok = False
                    else:
                        diffs.add(d)
                    continue
                if m.get(w) == 1:
                    m2 = dict(m)
                    del m2[w]
                    d = mk_lin(c, m2)
                    if contains(d, w):
                        ok = False
                    diffs.add(d)
                elif new[0] == 't' and new[1] == 'mul' and (new[2] == w) != (new[3] == w):
                    o = new[3] if new[2] == w else new[2]
                    if contains(o, w):
                        ok = False
                    muls.add(o)
                elif new[0] == 't' and new[1] == 'lin' and m.get(w):
                    muls.add(C(m[w])) if len(m) == 1 and c == 0 else None
                    ok = ok and len(m) == 1 and c == 0
                else:
                    ok = False
            if ok and nn:
                init = C(0) if isp else load(st, leaf)
                if diffs and not muls:
                    if len(diffs) == 1 and isnum(next(iter(diffs))):
                        L.ind[w] = (init, cval(next(iter(diffs))))
                    else:
                        L.folds[w] = ('+', init, frozenset(diffs))
                elif muls and not (diffs - {C(0)}):
                    L.folds[w] = ('*', init, frozenset(muls | ({C(1)} if diffs else set())))
        self.loops.setdefault(key, []).append(L)
        L.pre = st
        L.changed = changed
        # ---- exit states
        itev = frozenset(self.iter_events(it, ev0, key) for it in L.iters if it['out'][0] == 'next')
        itseq = {}
        for leaf, kind in changed.items():
            if kind == 'seq':
                base = load(st, leaf)
                parts = base[1] if base[0] == 'seq' else (('base', base),)
                n0 = len(parts) + 1
                contrib = set()
                for it in L.iters:
                    if it['out'][0] == 'next':
                        cur = load(it['st'], leaf)
                        contrib.add(cur[1][n0:] if cur[0] == 'seq' else ('?',))
                itseq[leaf] = frozenset(contrib)
        out = []
        for o, s in exits:
            s = s.copy()
            if rng is not None:
                if o[0] == 'next' and not any(it['st'] is s for it in L.iters):
                    pass
            # fill in star bodies
            if s.events[len(ev0):len(ev0) + 1] == (('star', key),):
                s.events = ev0 + (('loop', key, itev),) + s.events[len(ev0) + 1:]
            for leaf, contrib in itseq.items():
                cur = load(s, leaf)
                if cur[0] == 'seq':
                    np = tuple(('loop', key, contrib) if p == ('star', key) else p for p in cur[1])
                    if np != cur[1]:
                        save(s, leaf, ('seq', np))
            for w, (op, init, ds) in L.folds.items():
                leaf = w[3]
                cur = load(s, leaf)
                if cur == w:
                    save(s, leaf, self.note(T('fold' + op, key, init, ds), self.ty.get(w)))
            out.append((o, s))
        return self.dedupe(out)

    def iter_events(self, it, ev0, key):
        evs = it['st'].events
        i = len(ev0)
        if evs[i:i + 1] == (('star', key),):
            i += 1
        return evs[i:]

    def purge(self, st, iv):
        for k in [k for k in st.facts if contains(k[1], iv)]:
            del st.facts[k]

    def headkey(self, h, changed):
        return (tuple((leaf, load(h, leaf)) for leaf, k in sorted(changed.items(), key=lambda x: _key(x[0])) if k == 'fin'),
                frozenset(h.ghost.items()))

    def reenter(self, st0, head, s, changed, fins, key):
        """next loop-head state from iteration end s, or None when `changed` grew"""
        grew = False
        # events
        i = len(st0.events)
        star = s.events[i:i + 1] == (('star', key),)
        if len(s.events) > i + (1 if star else 0) and not L_changed_events(changed):
            changed[EVLEAF] = 'ev'
            return None
        for root, v in s.store.items():
            if root[0] == 'v' and root not in head.store:
                continue     # local to the body
            if root[0] == 'h' and root not in head.store:
                continue
            old = head.store.get(root)
            if old is None:
                old = default_root(root)
            if v == old:
                continue
            for leaf in diff(root, (), old, v):
                new = load(s, leaf)
                kind = changed.get(leaf)
                if kind is None:
                    # is an ancestor already tracked?
                    init = load(st0, leaf)
                    if new[0] == 'seq' or init[0] == 'seq':
                        changed[leaf] = 'seq' if new[0] == 'seq' and (init[0] == 'seq' or new[1][:1] == (('base', init),)) else 'w'
                    elif (isconst(new) or self._ptrc(new)) and (isconst(init) or init[0] == 't' and init[1] == 'undef' or self._ptrc(init)) and not (isnum(new) and isnum(init) and not self._finval(new, init)):
                        changed[leaf] = 'fin'
                        fins[leaf] = set()
                    else:
                        changed[leaf] = 'w'
                    grew = True
                elif kind == 'fin':
                    if not (isconst(new) or self._ptrc(new)) or len(fins[leaf]) > 6:
                        changed[leaf] = 'w'
                        grew = True
                    else:
                        fins[leaf].add(new)
        if grew:
            return None
        nh = head.copy()
        nh.ghost = dict(s.ghost)
        for leaf, kind in changed.items():
            if kind == 'fin':
                save(nh, leaf, load(s, leaf))
            # w / seq: stay at the widened symbol
        # facts established before the loop and still about unchanged things survive
        return nh

    def _ptrc(self, v):
        return v[0] in ('p', 'cl')

    def _finval(self, a, b):
        return isinstance(cval(a), bool) or a[0] == 'e' or isinstance(cval(b), bool)

    # -------------------------------------------------- top level
    def run(self, fn, this=None, args=(), st=None):
        """abstract run of fn from st; args: values (params by ref get a root holding it)"""
        self.thrown, self.aborted, self.nulls = [], [], []
        st = st.copy() if st else State()
        bound = []
        for p, a in zip(fn['params'], args):
            if isinstance(a, tuple) and a and a[0] == 'L':
                bound.append(('l', a[1]))
            else:
                bound.append(('v', a))
            if isinstance(a, tuple):
                self.note(a, p['t'])
        return self.unlv(self.enter(fn, st, this, bound, None)) if not fn['ret'].endswith('&') else self.enter(fn, st, this, bound, None)


EVLEAF = (('events',), ())


def L_changed_events(changed):
    return EVLEAF in changed


def diff(root, path, a, b):
    """leaf locations where values a and b differ"""
    if a == b:
        return
    if isinstance(a, Obj) or isinstance(b, Obj):
        oa = a if isinstance(a, Obj) else None
        ob = b if isinstance(b, Obj) else None
        ba = oa.base if oa else a
        bb = ob.base if ob else b
        if ba == bb or (oa and ob and oa.cls == ob.cls and oa.base == ob.base):
            keys = set(oa.fields if oa else ()) | set(ob.fields if ob else ())
            for k in keys:
                va = get_step(a, k)
                vb = get_step(b, k)
                yield from diff(root, path + (k,), va, vb)
            return
    yield (root, path)


def norm_type(t):
    t = (t or '').replace('const ', '').replace(' const', '').strip()
    while t.endswith('&') or t.endswith(' '):
        t = t[:-1]
    return t


def best_overload(cands, args):
    """constructors whose parameter types agree best with the argument types"""
    best, bs = [], -1
    for f in cands:
        sc = 0
        for q, a in zip(f['params'], args):
            pt, at = norm_type(q['t']), norm_type(a.get('t'))
            if pt == at:
                sc += 4
                if q['t'].rstrip().endswith('&&') == bool(a.get('k') == 'call' and a.get('q') in ('std::move', 'std::forward')):
                    sc += 1
            elif pt.split('<')[0] == at.split('<')[0]:
                sc += 2
            elif pt in WIDTHS and at in WIDTHS:
                sc += 1
            else:
                sc -= 4
        if sc > bs:
            best, bs = [f], sc
        elif sc == bs:
            best.append(f)
    return best


WIDTHS = ('bool', 'char', 'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'double', 'float', 'unsigned char', 'signed char', 'long long', 'unsigned long long')


def is_container(t):
    t = (t or '').replace('const ', '').strip()
    return t.startswith(('std::vector', 'std::set', 'std::unordered_set', 'std::list', 'std::deque', 'std::stack',
                         'std::queue', 'std::map', 'std::unordered_map', 'std::multiset', 'std::priority_queue', 'std::array', 'std::initializer_list', 'std::__cxx11::list')) and not t.endswith('*') and '>::' not in t


def empty_container(t):
    return ('seq', ())


def is_smart(t):
    return t.startswith(('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr'))


def is_itcls(t):
    return 'iterator' in t


def is_iter_type(t):
    return bool(t) and ('iterator' in t or t.endswith('*'))


PLAIN = {}


def plain_name(q):
    r = PLAIN.get(q)
    if r is None:
        d, o = 0, []
        for i, ch in enumerate(q):
            if ch == '<' and not q[:i].endswith('operator'):
                d += 1
            elif ch == '>' and d:
                d -= 1
            elif not d:
                o.append(ch)
        r = PLAIN[q] = ''.join(o)
    return r


def second_targ(t):
    i = t.find('<')
    a = first_targ(t)
    r = t[i + 1:]
    r = r[r.find(a) + len(a):].lstrip(' ,')
    return first_targ('<' + r) if i >= 0 else ''


def zero_value(p, t):
    """value-initialised object of type t, or None if unknown"""
    t = (t or '').replace('const ', '').strip()
    if t == 'bool':
        return FALSE
    if t in WIDTHS or t in Interp.WID or t in Interp.SW:
        return C(0)
    if t.endswith('*') or is_smart(t):
        return NULL
    if t.startswith('std::basic_string<') or t == 'std::string':
        return C('')
    if is_container(t):
        return empty_container(t)
    if t.startswith('std::pair<'):
        a, b = zero_value(p, first_targ(t)), zero_value(p, second_targ(t))
        if a is None or b is None:
            return None
        return Obj('pair', None, {('f', 'first'): a, ('f', 'second'): b})
    r = p.records.get(t)
    if r is not None and not r.get('bases'):
        fs = {}
        for x in r['fields']:
            if 'init' in x:
                return None
            v = zero_value(p, x['t'])
            if v is None:
                return None
            fs[('f', x['n'])] = v
        return Obj(t, None, fs)
    return None


def first_targ(t):
    i = t.find('<')
    if i < 0:
        return ''
    d, j = 0, i + 1
    while j < len(t):
        ch = t[j]
        if ch == '<':
            d += 1
        elif ch == '>':
            if d == 0:
                break
            d -= 1
        elif ch == ',' and d == 0:
            break
        j += 1
    return t[i + 1:j].strip()


# ------------------------------------------------------------------ <algorithm> as synthetic loops
def _alg_loop(interp, e, st, mode):
    args = e['args']
    out = []
    for (b, en), s in interp.evals(args[:2], st):
        for f, s1 in interp.eval(args[2], s):
            # element range: begin(c)+lo .. begin(c)+hi
            loc = None
            c, m = lin_of(b)
            bs = [a for a in m if a[0] == 't' and a[1] == 'begin' and m[a] == 1]
            if bs and add(en, b, -1) == interp.size_of(s1, bs[0][2]) and c == 0 and len(m) == 1:
                rng = bs[0][2]
            else:
                rng = (('t', T('range', b, en)), ())
            locs = _conc_range(interp, s1, b, en)
            pn = {'id': -1000 - e.get('l', 0), 'n': '__elem', 't': 'auto &'}
            call = {'k': 'icall_v', 'f': f, 'arg': {'k': 'ref', 'id': pn['id'], 'n': '__elem', 't': ''}, 'l': e.get('l'), 'fnk': None}
            ret = lambda v: {'k': 'return', 'e': {'k': 'bool', 'v': v}, 'l': e.get('l')}
            if mode == 'any':
                body = {'k': 'if', 'c': call, 'a': {'k': 'vret', 'v': TRUE}, 'l': e.get('l')}
                final = TRUE, FALSE
            elif mode == 'all':
                body = {'k': 'if', 'c': {'k': 'un', 'op': '!', 'e': call}, 'a': {'k': 'vret', 'v': FALSE}, 'l': e.get('l')}
                final = FALSE, TRUE
            elif mode == 'none':
                body = {'k': 'if', 'c': call, 'a': {'k': 'vret', 'v': FALSE}, 'l': e.get('l')}
                final = FALSE, TRUE
            else:
                body = {'k': 'expr', 'e': call, 'l': e.get('l')}
                final = None, f
            n = {'k': 'rfor', 'var': pn, 'b': body, 'l': e.get('l'), 'range': None}
            v = load(s1, rng)
            if locs is None and v[0] == 'seq' and all(p[0] == 'one' for p in v[1]):
                locs = [(rng[0], rng[1] + (('i', C(i)),)) for i in range(len(v[1]))]
            if locs is not None:
                cur = [s1]
                for l in locs:
                    nx = []
                    for q in cur:
                        for o, q2 in interp.rfor_body(n, q, l):
                            if o[0] == 'vret':
                                out.append((o[1], q2))
                            else:
                                nx.append(q2)
                    cur = nx
                out += [(final[1], q) for q in cur]
                continue
            for o, s2 in interp.loop(n, s1, None, None, body, rng=rng):
                if o[0] == 'vret':
                    out.append((o[1], s2))
                else:
                    out.append((final[1], s2))
    return out


def _conc_range(interp, st, b, en):
    """element locations of [b,en) when it is a known part of a container of known contents"""
    from . import seqlib
    if not interp.fresh:
        return None
    try:
        locs = seqlib.ptr_range(interp, st, b, en)
    except (Unsupported, TypeError, IndexError, KeyError):
        return None
    if locs:
        v = load(st, (locs[0][0], locs[0][1][:-1]))
        if v[0] == 'c' and isinstance(v[1], str):
            return locs if len(v[1]) > cval(locs[-1][1][-1][1]) else None
        if v[0] != 'seq' or any(p[0] != 'one' for p in v[1]) or len(v[1]) < cval(locs[-1][1][-1][1]) + 1:
            return None
    return locs


def _alg_accumulate(interp, e, st):
    args = e['args']
    out = []
    for (b, en), s in interp.evals(args[:2], st):
        for init, s1 in interp.eval(args[2], s):
            fs = interp.eval(args[3], s1) if len(args) > 3 else [(None, s1)]
            for f, s2 in fs:
                c, m = lin_of(b)
                bs = [a for a in m if a[0] == 't' and a[1] == 'begin' and m[a] == 1]
                if bs and add(en, b, -1) == interp.size_of(s2, bs[0][2]) and c == 0 and len(m) == 1:
                    rng = bs[0][2]
                else:
                    rng = (('t', T('range', b, en)), ())
                acc = ('v', len(s2.stack), -2000 - e.get('l', 0), '__acc')
                s2 = s2.copy()
                s2.store[acc] = init
                s2.env = dict(s2.env)
                s2.env[acc[2]] = (acc, ())
                pn = {'id': -1000 - e.get('l', 0), 'n': '__elem', 't': 'auto &'}
                body = {'k': 'accstep', 'f': f, 'acc': acc, 'elem': pn['id'], 'l': e.get('l')}
                n = {'k': 'rfor', 'var': pn, 'b': body, 'l': e.get('l'), 'range': None}
                locs = _conc_range(interp, s2, b, en)
                if locs is not None:
                    cur = [s2]
                    for l in locs:
                        cur = [q2 for q in cur for o, q2 in interp.rfor_body(n, q, l)]
                    out += [(load(q, (acc, ())), q) for q in cur]
                    continue
                for o, s3 in interp.loop(n, s2, None, None, body, rng=rng):
                    out.append((load(s3, (acc, ())), s3))
    return out


def _s_accstep(self, n, st):
    acc = (n['acc'], ())
    out = []
    ra = {'k': 'ref', 'id': n['acc'][2], 'n': '__acc', 't': ''}
    re_ = {'k': 'ref', 'id': n['elem'], 'n': '__elem', 't': ''}
    f = n['f']
    if f is None:
        rs = [(add(load(st, acc), v), s) for v, s in self.eval(re_, st)]
    elif isinstance(f, Closure):
        rs = self.unlv(self.call_closure(f, [ra, re_], st, {'l': n.get('l'), 'fn': None}))
    else:
        fo = functional(f)
        if fo is not None:
            rs = []
            for v, s in self.eval(re_, st):
                a = load(s, acc)
                if fo[1]:
                    a, v = self.intcast(a, fo[1], n, s), self.intcast(v, fo[1], n, s)
                rs += self.binop(fo[0], a, v, s, e=n)
        else:
            rs = [(T('icall', f, load(s, acc), v), s) for v, s in self.eval(re_, st)]
    for v, s in rs:
        s = s.copy()
        save(s, acc, v)
        out.append((('next',), s))
    return out


Interp.s_accstep = _s_accstep


def _s_vret(self, n, st):
    return [(('vret', n['v']), st)]


def _e_icall_v(self, e, st):
    f = e['f']
    if isinstance(f, Closure):
        return self.unlv(self.call_closure(f, [e['arg']], st, {'l': e.get('l'), 'fn': None}))
    if f[0] == 'fnp' and f[1] in self.p.fns:
        fn = self.p.fns[f[1]]
        out = []
        for args, s in self.bind_args(fn['params'], [e['arg']], st):
            out += self.call_fn(fn, s, None, args, e)
        return self.unlv(out)
    return [(T('icall', f, v), s) for v, s in self.eval(e['arg'], st)]


Interp.s_vret = _s_vret
Interp.e_icall_v = _e_icall_v
STD_ALG = {
    'std::any_of': lambda i, e, s: _alg_loop(i, e, s, 'any'),
    'std::all_of': lambda i, e, s: _alg_loop(i, e, s, 'all'),
    'std::none_of': lambda i, e, s: _alg_loop(i, e, s, 'none'),
    'std::accumulate': lambda i, e, s: _alg_accumulate(i, e, s),
    'std::for_each': lambda i, e, s: _alg_loop(i, e, s, 'each'),
}
