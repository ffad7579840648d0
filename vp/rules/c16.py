"""C16: the compact encoding of markings loses nothing and is unique"""
import time
from ..rule import *
from ..engine import Unsupported
from ..bytesem import *

LEVEL = 'exhaustive-abstraction'
MIN_OBLIGATIONS = 100
EXPLANATION = ('Byte-level abstract interpretation of AlignedEncoder and binarywrapper_t: token counts are intervals that are split wherever the code distinguishes values, so that each pattern of marked places is analysed for all token counts; '
               'getType, encode, size and decode are followed through every storage form, place-index width and token width, with every access checked against the block it is made in.')
TUS = ['src/PetriEngine/Structures/AlignedEncoder.cpp', 'src/PetriEngine/Structures/binarywrapper.cpp']
SRC = 'src/PetriEngine/Structures/AlignedEncoder.cpp'
MAX = (1 << 32) - 1
A = 'AlignedEncoder'
U32 = 'unsigned int'


def patterns(n, deep):
    """sets of marked places"""
    if n <= (6 if deep else 4):
        return [tuple(i for i in range(n) if m >> i & 1) for m in range(1 << n)]
    b = (n + 7) // 8
    b2 = (2 * n + 7) // 8
    ks = {0, 1, 2, n - 1, n, b - 1, b, b + 1}
    for ps in (1, 2):
        for ts in (1, 2, 4):
            # where one storage form becomes smaller than another
            for x in ((b - ps) // ps, b2 // (ps + ts), (b2 - ps) // (ps + ts), (b2 - b) // ts, (n * ts - ps) // (ps + ts), (n * ts - b) // ts, (b - ps) // ps):
                ks |= {x, x + 1} if not deep else {x - 1, x, x + 1, x + 2}
    if n <= 17 and deep:
        ks = set(range(n + 1))
    out = []
    for k in sorted(k for k in ks if 0 <= k <= n):
        ps = (tuple(range(k)), tuple(range(n - k, n)), tuple(sorted({(i * n) // k for i in range(k)})) if k else ())
        for p in ps if deep or n < 60 else ps[1:]:
            if p not in out:
                out.append(p)
    return out


def assignments(marked, n, deep):
    """the symbolic token counts of the marked places: which are the same"""
    k = len(marked)
    if k == 0:
        return [()]
    out = [('a',) * k]
    if k > 1:
        out += [('a',) + ('b',) * (k - 1), ('b',) * (k - 1) + ('a',)]
    if n > 60 and not deep:
        return out[:2]
    if k > 2:
        out.append(tuple('abc'[i % 3] for i in range(k)))
    return out


class Encoder:
    def __init__(self, p, iv, n):
        self.M, self.p, self.n = Machine(p, iv), p, n

    def fn(self, name):
        return self.p.fn(A + '::' + name)

    def new(self):
        o = self.M.newobj(A)
        self.M.enter(self.p.fn(A + '::' + A, 2), [('v', self.n), ('v', 0)], o)
        return o

    def marking(self, vals):
        b = Block('the marking', 4 * self.n)
        for i, v in enumerate(vals):
            self.M.store(b, 4 * i, 4, v)
        self.M.flush(b)
        return b

    def gettype(self, o, total, active, same, val):
        f = self.fn('getType')
        t = [x['t'] for x in f['params']]
        if len(t) != 4:
            raise Unknown('parameters of getType')
        return self.M.enter(f, [('v', total), ('v', active), ('v', int(same)), ('v', val)], o)

    def encode(self, o, vals, type_):
        return self.M.concrete(self.M.enter(self.fn('encode'), [('v', Ptr(self.marking(vals))), ('v', type_)], o))

    def bytes(self, o, k):
        pad = self.M.enter(self.fn('scratchpad'), [], o)
        p = self.M.enter(self.p.fn('ptrie::binarywrapper_t::raw'), [], pad)
        room = self.M.concrete(self.M.enter(self.p.fn('ptrie::binarywrapper_t::size'), [], pad))
        if k > room:
            raise Wrong('the encoding takes %d bytes, the scratchpad has %d' % (k, room))
        return self.M.getcells(p, k)


DIRTY = {}


def prepared(p, n):
    """a new encoder, and one that has encoded a marking that fills all of its scratchpad"""
    if n not in DIRTY:
        E = Encoder(p, {}, n)
        fresh = E.new()
        dirty = E.new()
        vals = [MAX - (i & 1) for i in range(n)]
        E.encode(dirty, vals, E.gettype(dirty, MAX, n, False, MAX))
        DIRTY.clear()
        DIRTY[n] = (fresh, dirty)
    return DIRTY[n]


def one(p, n, marked, asg, iv):
    E = Encoder(p, iv, n)
    M = E.M
    vals = [0] * n
    for i, s in zip(marked, asg):
        vals[i] = M.norm(Sym(s))
    fresh, dirty = [snapshot(x) for x in prepared(p, n)]
    top = M.norm(Sym('a')) if marked else 0
    same = len(set(asg)) <= 1
    t = M.norm(E.gettype(fresh, M.norm(Sym('sum')), len(marked), same, top))
    k = E.encode(fresh, vals, t)
    if k < 1:
        raise Wrong('the encoding has %d bytes' % k)
    c = E.bytes(fresh, k)
    k2 = E.encode(dirty, vals, t)
    c2 = E.bytes(dirty, k2)
    if None in c or None in c2:
        raise Wrong('byte %d of the encoding is not set' % (c if None in c else c2).index(None))
    if c != c2:
        i = [i for i in range(max(k, k2)) if c[i:i + 1] != c2[i:i + 1]][0]
        raise Wrong('the encoding depends on what was encoded before: byte %d is %s on a new encoder and %s after another marking' % (i, show(c[i:i + 1]), show(c2[i:i + 1])))
    src = Block('the encoding', k, list(c))
    s = M.concrete(M.enter(E.fn('size'), [('v', Ptr(src))], fresh))
    if s != k:
        raise Wrong('encode gives %d bytes, size says %d' % (k, s))
    dst = Block('the destination', 4 * n, [0xCD] * (4 * n))
    M.enter(E.fn('decode'), [('v', Ptr(dst)), ('v', Ptr(src))], dirty)
    for i in range(n):
        try:
            got = M.norm(M.load(dst, 4 * i, 4))
        except Wrong:
            got = 'something else'
        if got != vals[i]:
            raise Wrong('place %d has %r tokens, the decoded marking %r' % (i, vals[i], got))
    M.flush(src)
    if src.cells != c:
        raise Wrong('decode changes the encoding')
    return M


def show(c):
    return 'missing' if not c else repr(c[0])


def explore(p, n, marked, asg, stop, box=None):
    """all token counts: (runs, problem)"""
    names = sorted(set(asg))
    todo = [{s: (1, MAX) for s in names}]
    todo[0]['sum'] = (0, MAX)
    todo[0].update(box or {})
    runs = 0
    used = set()
    while todo:
        if time.time() > stop or runs > 4000:
            raise Unknown('too many cases')
        iv = todo.pop()
        if 'a' in iv:     # a is the largest count
            iv = {s: (lo, min(hi, iv['a'][1])) if s in 'bc' else (lo, hi) for s, (lo, hi) in iv.items()}
            low = max(lo for s, (lo, hi) in iv.items() if s != 'sum')
            iv['a'] = (max(iv['a'][0], low), iv['a'][1])
        if any(lo > hi for lo, hi in iv.values()):
            continue
        runs += 1
        try:
            used |= one(p, n, marked, asg, iv).used
        except Split as ex:
            lo, hi = iv[ex.name]
            starts = [lo] + [c for c in ex.cuts if lo < c <= hi]
            if len(starts) < 2:
                raise Unknown('a case distinction that splits nothing')
            for x, y in zip(starts, [c - 1 for c in starts[1:]] + [hi]):
                todo.append({**iv, ex.name: (x, y)})
        except Wrong as ex:
            return runs, used, '%s (with %s)' % (ex, ', '.join('%s in %d..%d' % (s, *iv[s]) for s in names) or 'no tokens')
    return runs, used, None


LARGE = [(4200, tuple(range(4200 - 258, 4200)), [{'a': (1, 120)}, {'a': (121, 65535)}, {'a': (65536, MAX)}]),
         (65536, (0, 255, 256, 65535), [{'a': (1, 120)}, {'a': (121, 255)}, {'a': (256, 65535)}, {'a': (65536, MAX)}])]


def sizes(deep):
    r = list(range(1, 18)) + [32, 33, 65, 255, 256, 300] + ([31, 64] if deep else [])
    return r + ([18, 19, 20, 23, 24, 25, 40, 63, 128, 254, 257, 511, 512, 520] if deep else [])


def run(ctx):
    deep = ctx.tier == 'thorough'
    p = ctx.program(TUS)
    ctx.rule('For every marking: with the type getType selects for it, encode writes inside the scratchpad, gives the same bytes whatever was encoded before, size of those bytes is the number encode returned, and decode of exactly those bytes gives the marking back; no byte outside a block is touched.')
    for f in ('getType', 'encode', 'decode', 'size', 'scratchpad', A):
        p.fn(A + '::' + f)
    jobs = []
    for n in sizes(deep):
        ps = patterns(n, deep)
        if n == 300 and not deep:
            ps = ps[::3]
        step = max(1, len(ps) // (1 if n < 60 else 8 if n < 200 else 40)) if n >= 60 else len(ps)
        for i in range(0, len(ps), step):
            jobs.append((n, ps[i:i + step]))
    # place numbers and counts of marked places that need two and four bytes
    for n, m, boxes in LARGE:
        for b in boxes:
            jobs.insert(0, (n, [m], b))
    jobs.sort(key=lambda j: -j[0] * len(j[1]))

    def go(job):
        n, ps = job[:2]
        box = job[2] if len(job) > 2 else None
        for m in ps:
            def each(m=m):
                total = 0
                for a in (assignments(m, n, deep) if box is None else assignments(m, n, deep)[:1]):
                    runs, used, bad = explore(p, n, m, a, time.time() + 250, box)
                    total += runs
                    ctx.functions |= used
                    ctx.paths += runs
                    if bad:
                        name = '%d places, %d marked (%s%s)' % (n, len(m), ','.join(map(str, m[:6])), ',...' if len(m) > 6 else '')
                        ctx.bad(name, bad, SRC)
                        return
                ctx.ok('%d places, %d marked (%s%s)' % (n, len(m), ','.join(map(str, m[:6])), ',...' if len(m) > 6 else ''), '%d interval cases' % total, SRC)

            def guarded():
                try:
                    each()
                except Unknown as ex:
                    raise Unsupported(str(ex))
            ctx.attempt('%d places, %d marked' % (n, len(m)), guarded, SRC)
    ctx.parallel(jobs, go)
