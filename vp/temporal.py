"""Finite-model semantics of the query operators, used to compare rewrite rules extracted from the source.

A formula is a nested tuple:
  ('atom',k) ('true',) ('false',) ('dead',) ('not',x) ('and',(..)) ('or',(..)) ('EX'|'AX'|'EF'|'AF'|'EG'|'AG',x)
  ('EU'|'AU',a,b) ('X'|'F'|'G',x) ('U',a,b) ('E'|'A',x) ('cmp',op,n1,n2) with numbers ('num',k) ('int',v)
CTL operators are interpreted over finite maximal paths (a deadlocked state has no successor), path operators over
structures in which every state has exactly one successor (ultimately periodic words)."""
import itertools

CTL = ('EX', 'AX', 'EF', 'AF', 'EG', 'AG', 'EU', 'AU', 'dead')
LTL = ('X', 'F', 'G', 'U', 'E', 'A')


class Struct:
    """states 0..n-1; a formula denotes, per state, a truth table over the valuations of the atoms (big-integer bit sets)"""

    def __init__(self, n, succ):
        self.n, self.succ = n, succ

    def EX(self, v):
        return [_or(v[j] for j in s) for s in self.succ]

    def AX(self, v, full):
        return [_and((v[j] for j in s), full) for s in self.succ]

    def until(self, A, a, b, full):
        z = b
        for _ in range(self.n + 1):
            nx = self.AX(z, full) if A else self.EX(z)
            z2 = [z[i] | (a[i] & nx[i] if self.succ[i] else 0) for i in range(self.n)]
            if z2 == z:
                return z
            z = z2
        return z


def _or(xs):
    r = 0
    for x in xs:
        r |= x
    return r


def _and(xs, full):
    r = full
    for x in xs:
        r &= x
    return r


_cache = {}


def structs(n, functional):
    k = (n, functional)
    if k not in _cache:
        rng = [(i,) for i in range(n)] if functional else [tuple(j for j in range(n) if m >> j & 1) for m in range(1 << n)]
        _cache[k] = [Struct(n, s) for s in itertools.product(rng, repeat=n)]
    return _cache[k]


class Unknown(Exception):
    pass


class Eval:
    def __init__(self, S, env, full):
        self.S, self.env, self.full, self.memo = S, env, full, {}

    def __call__(self, f):
        r = self.memo.get(f)
        if r is None:
            r = self.memo[f] = self.ev(f)
        return r

    def neg(self, v):
        return [self.full ^ x for x in v]

    def ev(self, f):
        S, full, k = self.S, self.full, f[0]
        n = S.n
        if k == 'atom':
            return self.env[f[1]]
        if k == 'true':
            return [full] * n
        if k == 'false':
            return [0] * n
        if k == 'dead':
            return [0 if s else full for s in S.succ]
        if k == 'not':
            return self.neg(self(f[1]))
        if k == 'and':
            vs = [self(x) for x in f[1]]
            return [_and((v[i] for v in vs), full) for i in range(n)]
        if k == 'or':
            vs = [self(x) for x in f[1]]
            return [_or(v[i] for v in vs) for i in range(n)]
        if k in ('EX', 'X'):
            return S.EX(self(f[1]))
        if k == 'AX':
            return S.AX(self(f[1]), full)
        if k in ('EF', 'F'):
            return S.until(False, [full] * n, self(f[1]), full)
        if k == 'AF':
            return S.until(True, [full] * n, self(f[1]), full)
        if k in ('EG', 'G'):
            return self.neg(S.until(True, [full] * n, self.neg(self(f[1])), full))
        if k == 'AG':
            return self.neg(S.until(False, [full] * n, self.neg(self(f[1])), full))
        if k in ('EU', 'U'):
            return S.until(False, self(f[1]), self(f[2]), full)
        if k == 'AU':
            return S.until(True, self(f[1]), self(f[2]), full)
        if k == 'E':
            return [_or(self(f[1]))] * n
        if k == 'A':
            return [_and(self(f[1]), full)] * n
        if k == 'cmp':
            a, b = num(f[2], self.env), num(f[3], self.env)
            r = {'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b, '>': a > b, '>=': a >= b}[f[1]]
            return [full if r else 0] * n
        raise Unknown(k)


_tables = {}


def var_table(i, nvars):
    """truth table of variable i of nvars"""
    r = _tables.get((i, nvars))
    if r is None:
        blk = ((1 << (1 << i)) - 1) << (1 << i)
        w, size = 2 << i, 1 << nvars
        r = blk
        while w < size:
            r |= r << w
            w *= 2
        _tables[(i, nvars)] = r
    return r


def num(f, env):
    if f[0] == 'int':
        return f[1]
    if f[0] == 'num':
        return env[f[1]]
    raise Unknown(f[0])


def ops(f, out):
    if isinstance(f, tuple):
        if f and isinstance(f[0], str):
            out.add(f[0])
        for x in f[1:] if f and isinstance(f[0], str) else f:
            if isinstance(x, tuple) and not (f and f[0] in ('atom', 'num')):
                ops(x, out)
    return out


def leaves(f, bools, nums):
    if not isinstance(f, tuple) or not f:
        return
    if f[0] == 'atom':
        if f[1] not in bools:
            bools.append(f[1])
    elif f[0] == 'num':
        if f[1] not in nums:
            nums.append(f[1])
    else:
        for x in (f[1:] if isinstance(f[0], str) else f):
            if isinstance(x, tuple):
                leaves(x, bools, nums)


def counterexample(result, spec, defs, cons, only0=False, numcons=(), nvals=(-2, -1, 0, 1, 2)):
    """defs: ordered [(atom, formula)]; cons: [(f, g, only0)]; numcons: [fn(env)->bool].
    -> None when result == spec in every structure considered (restricted to the initial state 0 when only0),
    else a description"""
    allf = (result, spec) + tuple(f for _, f in defs) + tuple(x for c in cons for x in c[:2])
    o = set()
    for f in allf:
        ops(f, o)
    if o & set(CTL) and o & set(LTL):
        raise Unknown('mixes branching and linear operators')
    functional = bool(o & set(LTL))
    bools, nums = [], []
    for f in allf:
        leaves(f, bools, nums)
    defd = [a for a, _ in defs]
    base = [b for b in bools if b not in defd]
    temporal = bool(o & (set(CTL) | set(LTL)))
    if len(base) > (7 if temporal else 12):
        raise Unknown('too many independent sub-formulas (%d)' % len(base))
    sizes = [1] if not temporal else [2]
    if temporal and len(base) <= 4:
        sizes.append(3)
    if functional and len(base) <= 2:
        sizes.append(4)
    count = 0
    for n in sizes:
        nv = n * len(base)
        full = (1 << (1 << nv)) - 1
        atoms = {a: [var_table(i * n + j, nv) for j in range(n)] for i, a in enumerate(base)}
        for S in structs(n, functional):
            for vals in itertools.product(nvals, repeat=len(nums)) if nums else ((),):
                env = dict(atoms)
                env.update(zip(nums, vals))
                if numcons and not all(c(env) for c in numcons):
                    continue
                E = Eval(S, env, full)
                for a, f in defs:
                    env[a] = E(f)
                valid = full
                for f, g, z in cons:
                    x, y = E(f), E(g)
                    for i in range(1 if z else n):
                        valid &= full ^ x[i] ^ y[i]
                    if not valid:
                        break
                if not valid:
                    continue
                count += 1
                x, y = E(result), E(spec)
                for i in range(1 if only0 else n):
                    if (x[i] ^ y[i]) & valid:
                        return 'states %d, successors %s' % (n, [list(q) for q in S.succ])
    if not count:
        return False     # no model satisfies the constraints: infeasible path
    return None


def table_constraints(*fs):
    """atoms named by truth tables over one list of valuations: a state satisfies exactly the atoms some valuation satisfies"""
    tabs = []

    def walk(f):
        if isinstance(f, tuple):
            if len(f) == 2 and f[0] == 'atom':
                if isinstance(f[1], tuple) and f[1] and all(isinstance(x, bool) for x in f[1]) and f not in tabs:
                    tabs.append(f)
                return
            for x in f:
                walk(x)
    for f in fs:
        walk(f)
    if len(tabs) < 2 or len(set(len(t[1]) for t in tabs)) != 1:
        return []
    pats = set(zip(*[t[1] for t in tabs]))
    if len(pats) == 1 << len(tabs):
        return []
    cl = tuple(('and', tuple(t if b else ('not', t) for t, b in zip(tabs, p))) for p in sorted(pats))
    return [(('or', cl), ('true',), False)]


def pretty(f, names=None):
    k = f[0]
    if k in ('atom', 'num'):
        return (names or {}).get(f[1], str(f[1]))[:40] if names else str(f[1])[:24]
    if k == 'int':
        return str(f[1])
    if k in ('true', 'false', 'dead'):
        return k
    if k in ('and', 'or'):
        return '(' + (' %s ' % k).join(pretty(x, names) for x in f[1]) + ')' if f[1] else k + '()'
    if k == 'cmp':
        return '(%s %s %s)' % (pretty(f[2], names), f[1], pretty(f[3], names))
    return '%s(%s)' % (k, ', '.join(pretty(x, names) for x in f[1:]))
