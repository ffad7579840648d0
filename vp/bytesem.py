"""Abstract semantics of byte-level code: memory is blocks of byte cells, a cell is a number, one byte of a symbolic value or a byte of a pointer.

A symbolic value ranges over an interval; a test the interval does not decide splits it (the caller restarts with each part), so a finished set
of runs covers every value.  Reading or writing outside a block, using an unset cell and reaching a failing assertion are Wrong; anything the
semantics does not know is Unknown."""
import re


class Wrong(Exception):
    pass


class Unknown(Exception):
    pass


class Split(Exception):
    def __init__(self, name, cuts):
        self.name, self.cuts = name, cuts      # cuts: first values of the parts after the first


class Sym:
    __slots__ = ('n', 'c')

    def __init__(self, n, c=0):
        self.n, self.c = n, c

    def __eq__(self, o):
        return isinstance(o, Sym) and (self.n, self.c) == (o.n, o.c)

    def __hash__(self):
        return hash((self.n, self.c))

    def __repr__(self):
        return self.n + ('%+d' % self.c if self.c else '')


class Part:
    """the low n bytes of a symbolic value that needs more"""
    def __init__(self, s, n):
        self.s, self.n = s, n

    def __repr__(self):
        return 'low %d bytes of %r' % (self.n, self.s)

    def __eq__(self, o):
        return isinstance(o, Part) and (self.s, self.n) == (o.s, o.n)


class Ptr:
    __slots__ = ('b', 'o')

    def __init__(self, b, o=0):
        self.b, self.o = b, o

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.b is o.b and (self.b is None or self.o == o.o)

    def __repr__(self):
        return 'null' if self.b is None else '&%s[%d]' % (self.b.name, self.o)


NULL = Ptr(None)


class Raw:
    """bytes read as a pointer that are not one"""
    def __init__(self, cells):
        self.cells = cells


class Block:
    __slots__ = ('name', 'size', 'val', 'cells', 'dead')

    def __init__(self, name, size, cells=None):
        self.name, self.size, self.val, self.dead = name, size, None, False
        self.cells = cells if cells is not None else [None] * size


class Obj:
    def __init__(self, cls):
        self.cls, self.f = cls, {}


SIZES = {'bool': 1, 'char': 1, 'unsigned char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'long long': 8,
         'unsigned long long': 8, 'std::byte': 1}
_CLEAN = {}


def clean(t):
    r = _CLEAN.get(t)
    if r is None:
        r = re.sub(r'\b(const|volatile|restrict|__restrict)\b', '', t or '')
        r = re.sub(r'\s+', ' ', r).strip()
        _CLEAN[t] = r
    return r


def isptr(t):
    return clean(t).endswith('*')


def sizeof(t):
    t = clean(t)
    if t.endswith('*'):
        return 8
    m = re.fullmatch(r'(.*?) ?\[(\d+)\]', t)
    if m:
        return sizeof(m.group(1)) * int(m.group(2))
    if t not in SIZES:
        raise Unknown('size of ' + t)
    return SIZES[t]


def pointee(t):
    t = clean(t)
    if t.endswith('*'):
        return t[:-1].strip()
    m = re.fullmatch(r'(.*?) ?\[(\d+)\]', t)
    if m:
        return m.group(1)
    raise Unknown('pointer type ' + t)


class Clo:
    def __init__(self, node, env):
        self.node, self.env = node, env


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Machine:
    def __init__(self, prog, iv):
        self.p, self.iv = prog, iv
        self.glob = {}
        self.steps = 0
        self.limit = 40000000
        self.used = set()
        self.depth = 0

    # ---- intervals
    def rng(self, s):
        lo, hi = self.iv[s.n]
        return lo + s.c, hi + s.c

    def norm(self, v):
        if isinstance(v, Sym):
            lo, hi = self.rng(v)
            if lo == hi:
                return lo
        return v

    def splitall(self, s):
        lo, hi = self.iv[s.n]
        if hi - lo > 260:
            raise Unknown('an operation on %r' % s)
        raise Split(s.n, list(range(lo + 1, hi + 1)))

    def cut(self, s, at):
        """decide s < at, splitting where the interval does not"""
        lo, hi = self.rng(s)
        if hi < at:
            return True
        if lo >= at:
            return False
        raise Split(s.n, [at - s.c])

    def wrap(self, v, t):
        t = clean(t)
        if isinstance(v, (Ptr, Raw)):
            return v
        if v is None:
            raise Wrong('an unset value is used')
        if t == 'bool':
            return int(self.truth(v))
        if t.endswith('*'):
            if v == 0:
                return NULL
            raise Unknown('number as pointer')
        if t not in SIZES:
            raise Unknown('type ' + t)
        n = SIZES[t]
        signed = not t.startswith('unsigned') and t not in ('std::byte',)
        if isinstance(v, int):
            m = 1 << (8 * n)
            v %= m
            return v - m if signed and v >= m >> 1 else v
        if isinstance(v, Sym):
            lo, hi = self.rng(v)
            top = (1 << (8 * n - (1 if signed else 0))) - 1
            if lo >= 0 and hi <= top or signed and -top - 1 <= lo and hi <= top:
                return v
            if lo < 0 or v.c:
                raise Unknown('overflow of %r' % v)
            if hi > top and lo <= top:
                raise Split(v.n, [top + 1])
            return Part(v, n)
        if isinstance(v, Part):
            return v if v.n <= n else Part(v.s, n)
        raise Unknown('value %r' % (v,))

    # ---- memory
    def load(self, b, o, n, t=None):
        if isinstance(b, Obj):
            raise Unknown('object as bytes')
        if b is None:
            raise Wrong('null pointer read')
        if b.dead:
            raise Wrong('freed memory read')
        if o == 0 and b.val is not None and b.val[1] == n:
            return b.val[0]
        if o < 0 or o + n > b.size:
            raise Wrong('%d bytes at offset %d of the %d bytes of %s read' % (n, o, b.size, b.name))
        self.flush(b)
        c = b.cells[o:o + n]
        if n == 8 and any(isinstance(x, tuple) and x[0] == 'P' for x in c) or isptr(t or ''):
            if all(isinstance(x, tuple) and x[0] == 'P' and x[2] == k and x[1] is c[0][1] for k, x in enumerate(c)):
                return c[0][1]
            if all(x == 0 for x in c):
                return NULL
            return Raw(c)
        return self.number(c, t)

    def number(self, c, t=None):
        if any(x is None for x in c):
            raise Wrong('memory that is not set is read')
        if all(isinstance(x, int) for x in c):
            v = sum(x << (8 * k) for k, x in enumerate(c))
            return self.wrap(v, t) if t and clean(t) in SIZES else v
        if isinstance(c[0], tuple) and c[0][0] == 'b':
            s = c[0][1]
            j = 0
            while j < len(c) and c[j] == ('b', s, j):
                j += 1
            if all(x == 0 for x in c[j:]):
                lo, hi = self.rng(s)
                return self.norm(s) if hi < 256 ** j else Part(s, j)
        raise Wrong('bytes of different values are read as one')

    def cellsof(self, v, n):
        v = self.norm(v)
        if isinstance(v, int):
            v %= 1 << (8 * n)
            return [(v >> (8 * k)) & 255 for k in range(n)]
        if isinstance(v, Ptr):
            if n != 8:
                raise Unknown('pointer in %d bytes' % n)
            return [0] * 8 if v.b is None else [('P', v, k) for k in range(8)]
        if isinstance(v, Raw):
            return list(v.cells)
        if isinstance(v, Sym):
            lo, hi = self.rng(v)
            if lo < 0:
                raise Unknown('negative value stored')
            return [('b', v, k) if 256 ** k <= hi else 0 for k in range(n)]
        if isinstance(v, Part):
            return [('b', v.s, k) if k < v.n else 0 for k in range(n)]
        raise Unknown('stored value')

    def flush(self, b):
        if b.val is not None:
            b.cells[0:b.val[1]] = self.cellsof(*b.val)
            b.val = None

    def store(self, b, o, n, v):
        if isinstance(b, Obj):
            raise Unknown('object as bytes')
        if b is None:
            raise Wrong('null pointer written')
        if b.dead:
            raise Wrong('freed memory written')
        if o < 0 or o + n > b.size:
            raise Wrong('%d bytes at offset %d of the %d bytes of %s written' % (n, o, b.size, b.name))
        if o == 0 and n == b.size and n <= 8:
            b.val = (self.norm(v), n)
            return
        self.flush(b)
        b.cells[o:o + n] = self.cellsof(v, n)

    def new(self, t, name):
        t = clean(t)
        if t in self.p.records:
            return self.newobj(t)
        return Block(name, sizeof(t))

    def newobj(self, cls):
        o = Obj(cls)
        r = self.p.records.get(cls)
        if r is None or r['bases']:
            raise Unknown('class ' + cls)
        for f in r['fields']:
            o.f[f['n']] = self.new(f['t'], f['n'])
        return o

    def copyobj(self, dst, src):
        for k, v in src.f.items():
            if isinstance(v, Obj):
                self.copyobj(dst.f[k], v)
            else:
                d = dst.f[k]
                d.val = v.val
                d.cells = list(v.cells)

    # ---- values
    def truth(self, v):
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Ptr):
            return v.b is not None
        if isinstance(v, Raw):
            if all(x == 0 for x in v.cells):
                return False
            if any(isinstance(x, int) and x != 0 or isinstance(x, tuple) and x[0] == 'P' for x in v.cells):
                return True
            raise Unknown('bytes compared with null')
        if isinstance(v, Sym):
            return not self.eq(v, 0)
        if v is None:
            raise Wrong('an unset value is used')
        raise Unknown('test of %r' % (v,))

    def eq(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, int) and isinstance(b, Sym):
            a, b = b, a
        if isinstance(a, Sym) and isinstance(b, int):
            return not self.cut(a, b) and self.cut(a, b + 1)
        if isinstance(a, Sym) and isinstance(b, Sym) and a.n == b.n:
            return a.c == b.c
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a == b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Raw) and isinstance(y, Ptr) and y.b is None:
                return not self.truth(x)
            if isinstance(x, Ptr) and y == 0:
                return x.b is None
            if isinstance(x, Raw) and y == 0:
                return not self.truth(x)
        raise Unknown('comparison')

    def lt(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, int) and isinstance(b, int):
            return a < b
        if isinstance(a, Sym) and isinstance(b, int):
            return self.cut(a, b)
        if isinstance(a, int) and isinstance(b, Sym):
            return not self.cut(b, a + 1)
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.n == b.n:
                return a.c < b.c
            (al, ah), (bl, bh) = self.rng(a), self.rng(b)
            if ah < bl:
                return True
            if al >= bh:
                return False
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b is b.b:
            return a.o < b.o
        raise Unknown('comparison')

    def arith(self, op, a, b, t):
        a, b = self.norm(a), self.norm(b)
        if a is None or b is None:
            raise Wrong('an unset value is used')
        if op in ('==', '!='):
            return int(self.eq(a, b) == (op == '=='))
        if op == '<':
            return int(self.lt(a, b))
        if op == '>':
            return int(self.lt(b, a))
        if op == '<=':
            return int(not self.lt(b, a))
        if op == '>=':
            return int(not self.lt(a, b))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == '-' and isinstance(a, Ptr) and isinstance(b, Ptr):
                raise Unknown('pointer difference')
            if op == '+' and isinstance(b, Ptr):
                a, b = b, a
            if op not in '+-' or not isinstance(a, Ptr):
                raise Unknown('pointer arithmetic')
            k = self.concrete(b) * sizeof(pointee(t))
            return Ptr(a.b, a.o + (k if op == '+' else -k))
        if isinstance(a, Sym) and isinstance(b, int) and op in '+-':
            return self.norm(self.wrap(Sym(a.n, a.c + (b if op == '+' else -b)), t))
        if isinstance(b, Sym) and isinstance(a, int) and op == '+':
            return self.norm(self.wrap(Sym(b.n, b.c + a), t))
        if isinstance(a, Sym) and isinstance(b, Sym) and a.n == b.n and op == '-':
            return self.wrap(a.c - b.c, t)
        if b == 0 and op in ('|', '^', '<<', '>>') or b == 1 and op in ('*', '/'):
            return a
        if a == 0 and op in ('|', '^', '+'):
            return b
        if (a == 0 or b == 0) and op in ('*', '&') and not isinstance(a, Raw) and not isinstance(b, Raw):
            return 0
        if isinstance(a, Sym) and b == 255 and op == '&':
            return self.wrap(self.wrap(a, 'unsigned char'), t)
        if isinstance(a, Sym) and b == 65535 and op == '&':
            return self.wrap(self.wrap(a, 'unsigned short'), t)
        for x in (a, b):
            if isinstance(x, Sym):
                self.splitall(x)
            if not isinstance(x, int):
                raise Unknown('arithmetic on %r' % (x,))
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        elif op in '/%':
            if b == 0:
                raise Wrong('division by zero')
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            r = q if op == '/' else a - q * b
        elif op == '&':
            r = a & b
        elif op == '|':
            r = a | b
        elif op == '^':
            r = a ^ b
        elif op == '<<':
            r = a << b if 0 <= b < 64 else self.oops('shift')
        elif op == '>>':
            r = a >> b if 0 <= b < 64 else self.oops('shift')
        else:
            raise Unknown('operator ' + op)
        return self.wrap(r, t)

    def oops(self, why):
        raise Unknown(why)

    def concrete(self, v):
        v = self.norm(v)
        if isinstance(v, Sym):
            self.splitall(v)
        if v is None:
            raise Wrong('an unset value is used')
        if not isinstance(v, int):
            raise Unknown('value %r' % (v,))
        return v

    # ---- expressions
    def ev(self, e, env):
        self.steps += 1
        if self.steps > self.limit:
            raise Unknown('too many steps')
        return getattr(self, 'e_' + e['k'], self.e_unknown)(e, env)

    def e_unknown(self, e, env):
        raise Unknown('expression ' + e['k'])

    def e_int(self, e, env):
        return e['v']

    def e_bool(self, e, env):
        return int(e['v'])

    def e_null(self, e, env):
        return NULL

    def e_str(self, e, env):
        return NULL

    def e_this(self, e, env):
        return env['this']

    def rd(self, lv, t):
        if isinstance(lv, Obj):
            return lv
        b, o = lv
        t = clean(t)
        if '[' in t:
            return Ptr(b, o)
        return self.load(b, o, sizeof(t), t)

    def e_ref(self, e, env):
        if 'cv' in e and e['id'] not in env:
            return e['cv']
        t = e['t'].rstrip('& ') if e['t'].rstrip().endswith('&') else e['t']
        return self.rd(self.lv(e, env), t)

    def e_mem(self, e, env):
        return self.rd(self.lv(e, env), e['t'])

    e_idx = e_mem

    def lv(self, e, env):
        k = e['k']
        if k == 'ref':
            r = env.get(e['id'])
            if r is None:
                g = e.get('g')
                if g is None:
                    raise Unknown('variable ' + e['n'])
                r = self.global_(g)
            if isinstance(r, Clo):
                raise Unknown('function object')
            return r if isinstance(r, Obj) or isinstance(r, tuple) else (r, 0)
        if k == 'mem':
            b = self.obj(e['b'], env)
            f = b.f.get(e['f'])
            if f is None:
                raise Unknown('field ' + e['f'])
            return f if isinstance(f, Obj) else (f, 0)
        if k == 'idx':
            p = self.ev(e['b'], env)
            i = self.concrete(self.ev(e['i'], env))
            if isinstance(p, Raw) or not isinstance(p, Ptr):
                raise Unknown('index of something that is no pointer')
            return (p.b, p.o + i * sizeof(e['t']))
        if k == 'un' and e['op'] == '*':
            p = self.ev(e['e'], env)
            if isinstance(p, Obj):
                return p
            if not isinstance(p, Ptr):
                raise Unknown('dereference')
            return (p.b, p.o)
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            self.ev(e, env)
            return self.lv(e['e'], env)
        if k == 'asg':
            self.ev(e, env)
            return self.lv(e['lhs'], env)
        if k == 'cond':
            return self.lv(e['a' if self.truth(self.ev(e['c'], env)) else 'b'], env)
        if k == 'cast':
            return self.lv(e['e'], env)
        r = self.ev(e, env)
        if isinstance(r, (Obj, tuple)):
            return r
        b = Block('a temporary', sizeof(e['t']))
        self.store(b, 0, b.size, r)
        return (b, 0)

    def obj(self, e, env):
        r = self.ev(e, env)
        if isinstance(r, Obj):
            return r
        raise Unknown('object expression')

    def global_(self, g):
        if g in self.glob:
            return self.glob[g]
        d = self.p.globals.get(g)
        if d is None or not d.get('init'):
            raise Unknown('global ' + g)
        t = clean(d['t'])
        b = Block(g, sizeof(t))
        self.init(b, 0, t, d['init'], {})
        self.glob[g] = b
        return b

    def init(self, b, o, t, e, env):
        if e['k'] == 'ilist' and '[' in t:
            n = sizeof(t) // sizeof(pointee(t))
            for i in range(n):
                if i < len(e['args']):
                    self.init(b, o + i * sizeof(pointee(t)), pointee(t), e['args'][i], env)
                else:
                    for k in range(sizeof(pointee(t))):
                        self.store(b, o + i * sizeof(pointee(t)) + k, 1, 0)
            return
        if e['k'] == 'ilist' and len(e['args']) <= 1:
            e = e['args'][0] if e['args'] else {'k': 'int', 'v': 0, 't': t}
        if e['k'] == 'zero':
            e = {'k': 'int', 'v': 0, 't': t}
        v = self.ev(e, env)
        self.store(b, o, sizeof(t), self.wrap(v, t))

    def e_lambda(self, e, env):
        loc = {'this': env.get('this')}
        for k, v in env.items():
            if isinstance(v, Clo):
                loc[k] = v
        for c in e['caps']:
            if 'id' not in c:
                continue
            if c.get('init') is not None:
                raise Unknown('capture with an initialiser')
            v = env.get(c['id'])
            if v is None:
                raise Unknown('capture')
            if c.get('ref') or isinstance(v, (Clo, tuple)):
                loc[c['id']] = v
            else:
                loc[c['id']] = snapshot(v, None, False)
        return Clo(e, loc)

    def e_zero(self, e, env):
        return 0

    def e_cast(self, e, env):
        v = self.ev(e['e'], env)
        ck = e.get('ck')
        if ck in ('IntegralCast', 'IntegralToBoolean', 'PointerToBoolean', 'FunctionalCast', 'NoOp', 'BooleanToSignedIntegral'):
            if isinstance(v, Obj):
                return v
            if clean(e['t']) == 'bool':
                return int(self.truth(v))
            return self.norm(self.wrap(v, e['t']))
        if isinstance(v, (Ptr, Obj, Raw)) and (isptr(e['t']) or isinstance(v, Obj)):
            return v
        if isinstance(v, (int, Sym, Part)) and clean(e['t']) in SIZES and ck and 'Float' not in ck:
            return self.norm(self.wrap(v, e['t']))
        raise Unknown('cast %s' % ck)

    def e_un(self, e, env):
        op = e['op']
        if op == '&':
            r = self.lv(e['e'], env)
            return r if isinstance(r, Obj) else Ptr(*r)
        if op == '*':
            return self.rd(self.lv(e, env), e['t'])
        if op in ('++', '--'):
            lv = self.lv(e['e'], env)
            t = e['e']['t'] if 't' in e['e'] else e['t']
            t = t.rstrip('& ') if t.rstrip().endswith('&') else t
            old = self.rd(lv, t)
            new = self.arith('+' if op == '++' else '-', old, 1, t)
            self.store(lv[0], lv[1], sizeof(t), new)
            return old if e.get('post') else new
        if op == '__extension__':
            return self.ev(e['e'], env)
        v = self.norm(self.ev(e['e'], env))
        if op == '!':
            return int(not self.truth(v))
        if op == '+':
            return v
        v = self.concrete(v)
        if op == '-':
            return self.wrap(-v, e['t'])
        if op == '~':
            return self.wrap(~v, e['t'])
        raise Unknown('operator ' + op)

    def e_bin(self, e, env):
        op = e['op']
        if op == '&&':
            return int(self.truth(self.ev(e['lhs'], env)) and self.truth(self.ev(e['rhs'], env)))
        if op == '||':
            return int(self.truth(self.ev(e['lhs'], env)) or self.truth(self.ev(e['rhs'], env)))
        a = self.ev(e['lhs'], env)
        b = self.ev(e['rhs'], env)
        if op == ',':
            return b
        return self.arith(op, a, b, e['t'])

    def e_asg(self, e, env):
        op = e['op']
        t = e['lhs'].get('t') or e['t']
        t = t.rstrip('& ') if t.rstrip().endswith('&') else t
        v = self.ev(e['rhs'], env)
        lv = self.lv(e['lhs'], env)
        if isinstance(lv, Obj):
            if op != '=' or not isinstance(v, Obj):
                raise Unknown('assignment')
            self.copyobj(lv, v)
            return lv
        if op != '=':
            old = self.rd(lv, t)
            if isptr(t):
                v = self.arith(op, old, v, t)
            else:
                wide = 'unsigned long' if clean(t).startswith('unsigned') or clean(t) == 'bool' else 'long'
                v = self.arith(op, old, v if not isinstance(v, int) or wide == 'long' or op in ('<<', '>>') else v % (1 << 64), wide)
        v = self.norm(self.wrap(v, t))
        self.store(lv[0], lv[1], sizeof(t), v)
        return v

    def e_cond(self, e, env):
        return self.ev(e['a' if self.truth(self.ev(e['c'], env)) else 'b'], env)

    def e_ctor(self, e, env, into=None):
        f = self.p.fns.get(e['fn'])
        cls = clean(e['t']) if clean(e['t']) in self.p.records else e['cls']
        o = into if into is not None else self.newobj(cls)
        if f is None or f.get('body') is None and not f.get('inits'):
            a = e['args']
            if len(a) == 1:
                s = self.ev(a[0], env)
                if isinstance(s, Obj) and s.cls == cls:
                    if s is not o:
                        self.copyobj(o, s)
                    return o
            if not a:
                self.defaults(o, {})
                return o
            raise Unknown('constructor ' + e['fn'])
        self.call(f, e['args'], env, o)
        return o

    def defaults(self, o, done):
        for fd in self.p.records[o.cls]['fields']:
            if fd['n'] not in done and fd.get('init') and not isinstance(o.f[fd['n']], Obj):
                self.init(o.f[fd['n']], 0, clean(fd['t']), fd['init'], {'this': o})

    def e_call(self, e, env):
        n, q = e['name'], e['q']
        if n == 'operator()' and e.get('obj') is not None:
            o = e['obj']
            cl = env.get(o.get('id')) if o['k'] == 'ref' else self.ev(o, env)
            if isinstance(cl, Clo):
                node = cl.node
                if 'generic' in node:
                    c = [g for g in node['generic'] if g['fn'] == e.get('fn')]
                    if not c:
                        raise Unknown('generic lambda')
                    node = c[0]
                r = self.call(dict(params=node['params'], body=node['body'], key='lambda', ret='', env=cl.env), e['args'], env, cl.env.get('this'))
                return r
        f = self.p.fns.get(e['fn'])
        if f is not None and f.get('body') is not None:
            this = None
            if e.get('obj') is not None and not e.get('static'):
                this = self.obj(e['obj'], env)
            r = self.call(f, e['args'], env, this)
            if isinstance(r, tuple):
                return self.rd(r, f['ret'].rstrip('& '))
            return r
        if e.get('opr') == '=' and e.get('obj') is not None:
            v = self.ev(e['args'][0], env)
            lv = self.lv(e['obj'], env)
            if isinstance(lv, Obj) and isinstance(v, Obj) and lv.cls == v.cls:
                self.copyobj(lv, v)
                return lv
            raise Unknown('assignment')
        if q == '__assert_fail':
            raise Wrong('the assertion %s fails' % (e['args'][0].get('v') or ''))
        if q in ('abort', 'std::abort', 'std::terminate'):
            raise Wrong('the program stops')
        if q.startswith('std::numeric_limits<'):
            t = q[len('std::numeric_limits<'):q.rindex('>')]
            s = sizeof(t)
            sg = not clean(t).startswith('unsigned')
            if n == 'max':
                return (1 << (8 * s - sg)) - 1
            if n == 'min':
                return -(1 << (8 * s - 1)) if sg else 0
            return 0
        a = [self.ev(x, env) for x in e['args']]
        base = q.split('::')[-1].split('<')[0]
        if base in ('memcpy', 'memmove'):
            k = self.concrete(a[2])
            if k:
                c = self.getcells(a[1], k)
                self.putcells(a[0], c)
            return a[0]
        if base == 'memset':
            k = self.concrete(a[2])
            if k:
                self.putcells(a[0], [self.concrete(a[1]) & 255] * k)
            return a[0]
        if base in ('malloc', 'calloc'):
            k = self.concrete(a[0]) * (self.concrete(a[1]) if base == 'calloc' else 1)
            return Ptr(Block('an allocation', k, [0 if base == 'calloc' else None] * k))
        if base == 'free':
            if isinstance(a[0], Ptr) and a[0].b is not None:
                if a[0].b.dead:
                    raise Wrong('memory is freed twice')
                if a[0].o:
                    raise Wrong('a pointer into a block is freed')
                a[0].b.dead = True
            elif isinstance(a[0], Raw):
                raise Wrong('something that is no pointer is freed')
            return 0
        if q in ('std::min', 'std::max') and len(a) == 2:
            return a[0] if self.lt(a[0], a[1]) == (n == 'min') else a[1]
        if q in ('std::fill_n',) and len(a) == 3 and isinstance(a[0], Ptr):
            s = sizeof(pointee(e['args'][0]['t']))
            for i in range(self.concrete(a[1])):
                self.store(a[0].b, a[0].o + i * s, s, a[2])
            return a[0]
        if q in ('std::fill',) and len(a) == 3 and isinstance(a[0], Ptr):
            s = sizeof(pointee(e['args'][0]['t']))
            for o in range(a[0].o, a[1].o, s):
                self.store(a[0].b, o, s, a[2])
            return 0
        if q in ('std::move', 'std::forward', 'std::addressof', 'std::as_const'):
            return a[0]
        raise Unknown('call of ' + q)

    def getcells(self, p, k):
        if not isinstance(p, Ptr):
            raise Unknown('copy from something that is no pointer')
        if p.b is None:
            raise Wrong('null pointer read')
        if isinstance(p.b, Obj):
            raise Unknown('object as bytes')
        if p.b.dead:
            raise Wrong('freed memory read')
        if p.o < 0 or p.o + k > p.b.size:
            raise Wrong('%d bytes at offset %d of the %d bytes of %s read' % (k, p.o, p.b.size, p.b.name))
        self.flush(p.b)
        return p.b.cells[p.o:p.o + k]

    def putcells(self, p, c):
        if not isinstance(p, Ptr):
            raise Unknown('copy to something that is no pointer')
        if p.b is None:
            raise Wrong('null pointer written')
        if isinstance(p.b, Obj):
            raise Unknown('object as bytes')
        if p.b.dead:
            raise Wrong('freed memory written')
        if p.o < 0 or p.o + len(c) > p.b.size:
            raise Wrong('%d bytes at offset %d of the %d bytes of %s written' % (len(c), p.o, p.b.size, p.b.name))
        self.flush(p.b)
        p.b.cells[p.o:p.o + len(c)] = c

    # ---- calls
    def call(self, f, args, env, this):
        vals = []
        for prm, a in zip(f['params'], args):
            if prm['t'].rstrip().endswith('&'):
                vals.append(('lv', self.lv(a, env)))
            else:
                vals.append(('v', self.ev(a, env)))
        return self.enter(f, vals, this)

    def enter(self, f, vals, this):
        if f['key'] != 'lambda':
            self.used.add(f['key'])
        self.depth += 1
        if self.depth > 60:
            raise Unknown('recursion')
        loc = {**f['env']} if f.get('env') else {'this': this}
        if len(vals) < len(f['params']):
            raise Unknown('default argument')
        for prm, (k, v) in zip(f['params'], vals):
            if k == 'lv':
                loc[prm['id']] = v
            elif isinstance(v, Obj) and not isptr(prm['t']):
                o = Obj(v.cls)
                o = self.newobj(v.cls)
                self.copyobj(o, v)
                loc[prm['id']] = o
            else:
                b = Block(prm['n'], sizeof(prm['t']))
                self.store(b, 0, b.size, self.wrap(v, prm['t']))
                loc[prm['id']] = b
        try:
            if f.get('ctor'):
                done = set()
                for i in f.get('inits', []):
                    if 'f' not in i:
                        raise Unknown('base class constructor')
                    done.add(i['f'])
                    fb = this.f[i['f']]
                    if isinstance(fb, Obj):
                        if i['e']['k'] == 'ctor':
                            self.e_ctor(i['e'], loc, fb)
                        else:
                            self.copyobj(fb, self.ev(i['e'], loc))
                    else:
                        t = [x['t'] for x in self.p.records[this.cls]['fields'] if x['n'] == i['f']][0]
                        self.init(fb, 0, clean(t), i['e'], loc)
                self.defaults(this, done)
            isref = f['ret'].rstrip().endswith('&')
            try:
                self.ex(f['body'], loc, isref)
            except Return as r:
                return r.v
            return 0
        finally:
            self.depth -= 1

    # ---- statements
    def ex(self, s, env, isref=False):
        if s is None:
            return
        k = s['k']
        self.steps += 1
        if self.steps > self.limit:
            raise Unknown('too many steps')
        if k == 'block':
            for x in s['s']:
                self.ex(x, env, isref)
        elif k == 'expr':
            self.ev(s['e'], env)
        elif k == 'decl':
            for v in s['v']:
                t = clean(v['t'])
                if v.get('init') is not None and v['init']['k'] == 'lambda':
                    env[v['id']] = self.ev(v['init'], env)
                elif t.endswith('&'):
                    env[v['id']] = self.lv(v['init'], env)
                elif t in self.p.records:
                    e = v.get('init')
                    if e is None:
                        raise Unknown('declaration of ' + t)
                    r = self.ev(e, env)
                    if not isinstance(r, Obj):
                        raise Unknown('declaration of ' + t)
                    if e['k'] not in ('ctor', 'call'):
                        o = self.newobj(t)
                        self.copyobj(o, r)
                        r = o
                    env[v['id']] = r
                else:
                    b = Block(v['n'], sizeof(t))
                    if v.get('init') is not None:
                        self.init(b, 0, t, v['init'], env)
                    env[v['id']] = b
        elif k == 'if':
            if s.get('init'):
                self.ex(s['init'], env, isref)
            if s.get('var'):
                raise Unknown('declaration in a condition')
            if self.truth(self.ev(s['c'], env)):
                self.ex(s.get('a'), env, isref)
            else:
                self.ex(s.get('b'), env, isref)
        elif k in ('for', 'while'):
            if s.get('init'):
                self.ex(s['init'], env, isref)
            if k == 'while' and s.get('var'):
                raise Unknown('declaration in a condition')
            while s.get('c') is None or self.truth(self.ev(s['c'], env)):
                try:
                    self.ex(s.get('b'), env, isref)
                except Break:
                    break
                except Continue:
                    pass
                if k == 'for' and s.get('inc') is not None:
                    self.ev(s['inc'], env)
        elif k == 'do':
            while True:
                try:
                    self.ex(s['b'], env, isref)
                except Break:
                    break
                except Continue:
                    pass
                if not self.truth(self.ev(s['c'], env)):
                    break
        elif k == 'switch':
            self.switch(s, env, isref)
        elif k in ('case', 'default'):
            self.ex(s.get('s'), env, isref)
        elif k == 'break':
            raise Break()
        elif k == 'continue':
            raise Continue()
        elif k == 'return':
            e = s.get('e')
            if e is None:
                raise Return(0)
            raise Return(self.lv(e, env) if isref else self.ev(e, env))
        else:
            raise Unknown('statement ' + k)

    def labels(self, s):
        out = []
        while s is not None and s['k'] in ('case', 'default'):
            out.append(s)
            s = s.get('s')
        return out

    def switch(self, s, env, isref):
        v = self.ev(s['c'], env)
        body = s['b']['s'] if s['b']['k'] == 'block' else [s['b']]
        at = None
        for i, x in enumerate(body):
            for l in self.labels(x):
                if l['k'] == 'case' and at is None:
                    c = l['iv'] if 'iv' in l else self.concrete(self.ev(l['v'], env))
                    if self.eq(v, c):
                        at = i
        if at is None:
            for i, x in enumerate(body):
                if any(l['k'] == 'default' for l in self.labels(x)):
                    at = i
        if at is None:
            return
        try:
            for x in body[at:]:
                self.ex(x, env, isref)
        except Break:
            pass


def snapshot(o, memo=None, deep=True):
    """a copy of an object and of every block reachable from it"""
    memo = {} if memo is None else memo
    if id(o) in memo:
        return memo[id(o)]
    if isinstance(o, Obj):
        n = Obj(o.cls)
        memo[id(o)] = n
        n.f = {k: snapshot(v, memo, deep) for k, v in o.f.items()}
        return n
    n = Block(o.name, o.size, [])
    n.dead = o.dead
    memo[id(o)] = n
    pm = {}

    def ptr(v):
        if deep and isinstance(v, Ptr) and v.b is not None:
            if id(v) not in pm:
                pm[id(v)] = Ptr(snapshot(v.b, memo), v.o)
            return pm[id(v)]
        return v
    n.cells = [('P', ptr(c[1]), c[2]) if isinstance(c, tuple) and c[0] == 'P' else c for c in o.cells]
    n.val = (ptr(o.val[0]), o.val[1]) if o.val is not None else None
    return n
