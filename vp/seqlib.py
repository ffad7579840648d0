"""Library containers and algorithms over sequences of known length (bounded-shape mode of the interpreter)."""
from .engine import *


def conc(v):
    return v[0] == 'seq' and all(p[0] == 'one' for p in v[1])


def items(v):
    return [p[1] for p in v[1]]


def seq(xs):
    return ('seq', tuple(('one', x) for x in xs))


def it_pos(v):
    """iterator value -> (container location, concrete index) or None"""
    if v[0] == 't' and v[1] in ('begin', 'lin'):
        l = deref(v)
    elif v[0] == 'p':
        l = (v[1], v[2])
    else:
        return None
    if not l[1] or l[1][-1][0] != 'i' or not isnum(l[1][-1][1]):
        return None
    return (l[0], l[1][:-1]), int(cval(l[1][-1][1]))


def ptr_pos(v):
    """a raw pointer to the first element of an array"""
    if v[0] == 't' and v[1] == 'lin':
        l = deref(v)
        v = ('p', l[0], l[1])
        if l[1] and l[1][-1][0] == 'i' and isnum(l[1][-1][1]):
            return (l[0], l[1][:-1]), int(cval(l[1][-1][1]))
        return None
    return ((v[1], v[2]), 0) if v[0] == 'p' and not (v[2] and v[2][-1][0] == 'i') else None


def elem_type(t):
    """element type named by an iterator/container type"""
    t = (t or '').replace('const ', '').strip()
    a = first_targ(t)
    a = a.replace('const', '').strip()
    while a.endswith('*') or a.endswith('&') or a.endswith(' '):
        a = a[:-1]
    return a


def call_cmp(I, f, locs, st, e, raw=False):
    """call comparator f on element locations -> [(bool, st)]; raw: [(value, st)]"""
    if isinstance(f, Closure):
        node = f.node
        if 'generic' in node:
            g = [x for x in node['generic']]
            if not g:
                raise Unsupported('generic comparator without instance')
        rs = I.unlv(_enter_closure(I, f, [('l', l) for l in locs], st, e))
    elif f[0] == 'fnp' and f[1] in I.p.fns:
        rs = I.unlv(I.call_fn(I.p.fns[f[1]], st, None, [('l', l) for l in locs], e))
    else:
        cls = getattr(f, 'cls', None)
        rs = None
        if cls:
            for fn in I.p.method(cls, 'operator()'):
                if len(fn['params']) == len(locs):
                    root = ('h', I.site_id(e, st), 'cmp')
                    s = st.copy()
                    s.store[root] = f
                    rs = I.unlv(I.call_fn(fn, s, ('p', root, ()), [('l', l) for l in locs], e))
                    break
        fo = functional(f) if cls is None else None
        if fo is not None:
            a, b = load(st, locs[0]), load(st, locs[1])
            if fo[1]:
                a, b = I.intcast(a, fo[1], e, st), I.intcast(b, fo[1], e, st)
            rs = I.binop(fo[0], a, b, st, e=e)
        if rs is None:
            raise Unsupported('comparator')
    if raw:
        return rs
    return [(r, s2) for v, s in rs for r, s2 in I.truth(s, v)]


def _enter_closure(I, cl, args, st, e):
    node = cl.node
    if 'generic' in node:
        node = node['generic'][0]
    fn = dict(params=node['params'], body=node['body'], key='lambda@%s' % node.get('fn', node.get('l')), ret='')
    a2 = []
    for q, a in zip(node['params'], args):
        if a[0] == 'l' and not q['t'].endswith('&'):
            a = ('v', load(st, a[1]))
        a2.append(a)
    return I.enter(fn, st, cl.this, a2, e, base_env=cl.env)


def less(I, la, lb, t, st, e, cmp=None, eq=False):
    """element at la < element at lb -> [(bool, st)]"""
    if cmp is not None:
        return call_cmp(I, cmp, [la, lb], st, e)
    a, b = load(st, la), load(st, lb)
    cls = t if t in I.p.records else (getattr(a, 'cls', None) or getattr(b, 'cls', None))
    op = 'operator==' if eq else 'operator<'
    if cls and cls in I.p.records and not cls.startswith('std::'):
        fs = [f for f in I.p.method(cls, op) if len(f['params']) == 1]
        if fs:
            rs = I.unlv(I.call_fn(fs[0], st, ('p', la[0], la[1]), [('l', lb)], e))
            return [(r, s2) for v, s in rs for r, s2 in I.truth(s, v)]
    if isinstance(a, Obj) and isinstance(b, Obj) and ('f', 'first') in a.fields and not eq:
        out = []
        for r, s in I.decide(st, '<', a.fields[('f', 'first')], b.fields[('f', 'first')]):
            if r:
                out.append((True, s))
                continue
            for r2, s2 in I.decide(s, '==', a.fields[('f', 'first')], b.fields[('f', 'first')]):
                if not r2:
                    out.append((False, s2))
                else:
                    out += I.decide(s2, '<', a.fields[('f', 'second')], b.fields[('f', 'second')])
        return out
    if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], str) and isinstance(b[1], str):
        return [((a[1] == b[1]) if eq else (a[1] < b[1]), st)]
    return I.decide(st, '==' if eq else '<', a, b)


def tmp_loc(I, st, v, e):
    s = st.copy()
    root = ('h', I.site_id(e, s), 'tmp')
    s.store[root] = v
    return (root, ()), s


def rng(I, st, b, e):
    pb, pe = it_pos(b), it_pos(e)
    if pb is None or pe is None or pb[0] != pe[0]:
        raise Unsupported('range of unknown extent')
    v = load(st, pb[0])
    if not conc(v) and not (isconst(v) and isinstance(cval(v), str)):
        raise Unsupported('range of an unknown container')
    return pb[0], pb[1], pe[1]


def at(loc, i):
    return (loc[0], loc[1] + (('i', C(i)),))


def it(loc, i):
    return add(T('begin', loc), C(i))


def alg_bound(kind):
    def h(I, e, st, loc, ptr):
        out = []
        for vs, s in I.evals(e['args'], st):
            c, lo, hi = rng(I, s, vs[0], vs[1])
            t = elem_type(e['args'][0].get('t'))
            xl, s = tmp_loc(I, s, vs[2], e)
            cmp = vs[3] if len(vs) > 3 else None
            live = [s]
            for i in range(lo, hi):
                nx = []
                for q in live:
                    if kind == 'lower':
                        rs = less(I, at(c, i), xl, t, q, e, cmp)
                    elif kind == 'upper':
                        rs = [(not r, q2) for r, q2 in less(I, xl, at(c, i), t, q, e, cmp)]
                    else:
                        rs = [(not r, q2) for r, q2 in less(I, at(c, i), xl, t, q, e, None, eq=True)]
                    for r, q2 in rs:
                        if r:
                            nx.append(q2)
                        else:
                            out.append((it(c, i), q2))
                live = nx
            out += [(it(c, hi), q) for q in live]
        return out
    return h


def alg_find_if(neg=False):
    def h(I, e, st, loc, ptr):
        out = []
        for vs, s in I.evals(e['args'], st):
            c, lo, hi = rng(I, s, vs[0], vs[1])
            live = [s]
            for i in range(lo, hi):
                nx = []
                for q in live:
                    for r, q2 in call_cmp(I, vs[2], [at(c, i)], q, e):
                        if r != neg:
                            out.append((it(c, i), q2))
                        else:
                            nx.append(q2)
                live = nx
            out += [(it(c, hi), q) for q in live]
        return out
    return h


def alg_sort(I, e, st, loc, ptr):
    """insertion sort on the symbolic order (forks on undecided comparisons)"""
    out = []
    for vs, s in I.evals(e['args'], st):
        c, lo, hi = rng(I, s, vs[0], vs[1])
        t = elem_type(e['args'][0].get('t'))
        cmp = vs[2] if len(vs) > 2 else None
        live = [s]
        for i in range(lo + 1, hi):
            nx = []
            for q in live:
                work = [(i, q)]
                while work:
                    j, w = work.pop()
                    if j == lo:
                        nx.append(w)
                        continue
                    for r, w2 in less(I, at(c, j), at(c, j - 1), t, w, e, cmp):
                        if r:
                            w2 = w2.copy()
                            a, b = load(w2, at(c, j)), load(w2, at(c, j - 1))
                            save(w2, at(c, j), b)
                            save(w2, at(c, j - 1), a)
                            work.append((j - 1, w2))
                        else:
                            nx.append(w2)
            live = nx
        out += [(NULL, q) for q in live]
    return out


def alg_unique(I, e, st, loc, ptr):
    out = []
    for vs, s in I.evals(e['args'], st):
        c, lo, hi = rng(I, s, vs[0], vs[1])
        t = elem_type(e['args'][0].get('t'))
        live = [((lo,) if hi > lo else (), s)]
        for i in range(lo + 1, hi):
            nx = []
            for keep, q in live:
                for r, q2 in (less(I, at(c, keep[-1]), at(c, i), t, q, e, None, eq=True) if len(vs) < 3 else call_cmp(I, vs[2], [at(c, keep[-1]), at(c, i)], q, e)):
                    nx.append((keep if r else keep + (i,), q2))
            live = nx
        for keep, q in live:
            q = q.copy()
            vsq = items(load(q, c))
            new = vsq[:lo] + [vsq[k] for k in keep]
            new += [T('moved')] * (hi - len(new)) + vsq[hi:]
            save(q, c, seq(new))
            out.append((it(c, lo + len(keep)), q))
    return out


def alg_equal(I, e, st, loc, ptr):
    out = []
    for vs, s in I.evals(e['args'], st):
        c, lo, hi = rng(I, s, vs[0], vs[1])
        t = elem_type(e['args'][0].get('t'))
        four = len(e['args']) >= 4 and it_pos(vs[3]) is not None
        cmp = vs[4] if four and len(vs) > 4 else (vs[3] if not four and len(vs) > 3 else None)
        d = it_pos(vs[2])
        if hi == lo and not four:
            out.append((TRUE, s))
            continue
        if d is None:
            raise Unsupported('equal on an unknown range')
        if four and it_pos(vs[3])[1] - d[1] != hi - lo:
            out.append((FALSE, s))
            continue
        live = [s]
        for i in range(hi - lo):
            nx = []
            for q in live:
                for r, q2 in (call_cmp(I, cmp, [at(c, lo + i), at(d[0], d[1] + i)], q, e) if cmp is not None else less(I, at(c, lo + i), at(d[0], d[1] + i), t, q, e, None, eq=True)):
                    if r:
                        nx.append(q2)
                    else:
                        out.append((FALSE, q2))
            live = nx
        out += [(TRUE, q) for q in live]
    return out


def alg_reverse(I, e, st, loc, ptr):
    out = []
    for vs, s in I.evals(e['args'], st):
        c, lo, hi = rng(I, s, vs[0], vs[1])
        xs = items(load(s, c))
        s = s.copy()
        save(s, c, seq(xs[:lo] + xs[lo:hi][::-1] + xs[hi:]))
        out.append((NULL, s))
    return out


def alg_distance(I, e, st, loc, ptr):
    return [(add(vs[1], vs[0], -1), s) for vs, s in I.evals(e['args'], st)]


def alg_next(sign):
    def h(I, e, st, loc, ptr):
        return [(add(vs[0], vs[1] if len(vs) > 1 else C(1), sign), s) for vs, s in I.evals(e['args'], st)]
    return h


def alg_back_inserter(I, e, st, loc, ptr):
    return [(T('backins', l), s) for l, s in I.lv(e['args'][0], st)]


def alg_copy(cond):
    def h(I, e, st, loc, ptr):
        out = []
        for vs, s in I.evals(e['args'], st):
            c, lo, hi = rng(I, s, vs[0], vs[1])
            d = vs[2]
            live = [((), s)]
            for i in range(lo, hi):
                nx = []
                for got, q in live:
                    v = load(q, at(c, i))
                    if not cond:
                        nx.append((got + (v,), q))
                        continue
                    for r, q2 in call_cmp(I, vs[3], [at(c, i)], q, e):
                        nx.append((got + (v,) if r else got, q2))
                live = nx
            for got, q in live:
                q = q.copy()
                if d[0] == 't' and d[1] == 'backins':
                    cur = load(q, d[2])
                    if not conc(cur):
                        raise Unsupported('copy into unknown container')
                    save(q, d[2], seq(items(cur) + list(got)))
                    out.append((d, q))
                else:
                    p = it_pos(d) or ptr_pos(d)
                    if p is None:
                        raise Unsupported('copy to unknown place')
                    for k, v in enumerate(got):
                        save(q, at(p[0], p[1] + k), v)
                    out.append((it(p[0], p[1] + len(got)), q))
        return out
    return h


def ptr_range(I, st, b, e):
    """element locations of [b,e) for iterators or raw pointers into a concrete sequence"""
    pb, pe = it_pos(b), it_pos(e)
    if pb is not None and pe is not None and pb[0] == pe[0]:
        return [at(pb[0], i) for i in range(pb[1], pe[1])]

    def norm(v):
        if v[0] == 't' and v[1] == 'lin':
            l = deref(v)
            v = ('p', l[0], l[1])
        if v[0] != 'p':
            return None
        if v[2] and v[2][-1][0] == 'i':
            return (v[1], v[2][:-1]), v[2][-1][1]
        return (v[1], v[2]), C(0)
    pb, pe = norm(b), norm(e)
    if pb is None or pe is None or pb[0] != pe[0] or not isnum(pb[1]) or not isnum(pe[1]):
        raise Unsupported('range of unknown extent')
    return [at(pb[0], i) for i in range(int(cval(pb[1])), int(cval(pe[1])))]


def alg_fill(I, e, st, loc, ptr):
    out = []
    for vs, s in I.evals(e['args'], st):
        s = s.copy()
        for l in ptr_range(I, s, vs[0], vs[1]):
            save(s, l, vs[2])
        out.append((NULL, s))
    return out


def alg_fill_n(I, e, st, loc, ptr):
    out = []
    for vs, s in I.evals(e['args'], st):
        s = s.copy()
        if not isnum(vs[1]):
            raise Unsupported('fill of unknown extent')
        for i in range(int(cval(vs[1]))):
            save(s, I.ptr_idx(vs[0], C(i)), vs[2])
        out.append((NULL, s))
    return out


def alg_count(cond):
    def h(I, e, st, loc, ptr):
        out = []
        for vs, s in I.evals(e['args'], st):
            c, lo, hi = rng(I, s, vs[0], vs[1])
            t = elem_type(e['args'][0].get('t'))
            xl = None
            if not cond:
                xl, s = tmp_loc(I, s, vs[2], e)
            live = [(0, s)]
            for i in range(lo, hi):
                live = [(n + (1 if r else 0), q2) for n, q in live for r, q2 in (call_cmp(I, vs[2], [at(c, i)], q, e) if cond else less(I, at(c, i), xl, t, q, e, None, eq=True))]
            out += [(C(n), q) for n, q in live]
        return out
    return h


def alg_extreme(most):
    def h(I, e, st, loc, ptr):
        out = []
        for vs, s in I.evals(e['args'], st):
            c, lo, hi = rng(I, s, vs[0], vs[1])
            t = elem_type(e['args'][0].get('t'))
            cmp = vs[2] if len(vs) > 2 else None
            live = [(lo, s)]
            for i in range(lo + 1, hi):
                live = [(i if r else b, q2) for b, q in live for r, q2 in (less(I, at(c, b), at(c, i), t, q, e, cmp) if most else less(I, at(c, i), at(c, b), t, q, e, cmp))]
            out += [(it(c, b), q) for b, q in live]
        return out
    return h


def alg_remove(cond):
    def h(I, e, st, loc, ptr):
        out = []
        for vs, s in I.evals(e['args'], st):
            c, lo, hi = rng(I, s, vs[0], vs[1])
            t = elem_type(e['args'][0].get('t'))
            xl = None
            if not cond:
                xl, s = tmp_loc(I, s, vs[2], e)
            live = [((), s)]
            for i in range(lo, hi):
                live = [(k if r else k + (i,), q2) for k, q in live for r, q2 in (call_cmp(I, vs[2], [at(c, i)], q, e) if cond else less(I, at(c, i), xl, t, q, e, None, eq=True))]
            for k, q in live:
                q = q.copy()
                vals = [load(q, at(c, i)) for i in k]
                for j, v in enumerate(vals):
                    save(q, at(c, lo + j), v)
                for j in range(lo + len(vals), hi):
                    save(q, at(c, j), T('moved-from'))
                out.append((it(c, lo + len(vals)), q))
        return out
    return h


def deliver(q, d, got):
    """write values to an output iterator -> (iterator behind them, st)"""
    q = q.copy()
    if d[0] == 't' and d[1] == 'backins':
        cur = load(q, d[2])
        if not conc(cur):
            raise Unsupported('output into unknown container')
        save(q, d[2], seq(items(cur) + list(got)))
        return d, q
    p = it_pos(d) or ptr_pos(d)
    if p is None:
        raise Unsupported('output to unknown place')
    for k, v in enumerate(got):
        save(q, at(p[0], p[1] + k), v)
    return it(p[0], p[1] + len(got)), q


def alg_transform(I, e, st, loc, ptr):
    out = []
    for vs, s in I.evals(e['args'], st):
        c, lo, hi = rng(I, s, vs[0], vs[1])
        c2 = None
        if len(vs) == 5:
            p2 = it_pos(vs[2])
            if p2 is None:
                raise Unsupported('transform of an unknown range')
            c2 = p2
        live = [((), s)]
        for i in range(lo, hi):
            live = [(got + (v,), q2) for got, q in live for v, q2 in call_cmp(I, vs[-1], [at(c, i)] + ([at(c2[0], c2[1] + i - lo)] if c2 else []), q, e, raw=True)]
        out += [deliver(q, vs[-2], got) for got, q in live]
    return out


def alg_setop(kind):
    """std::set_intersection and the like of sorted ranges of numbers"""
    def h(I, e, st, loc, ptr):
        out = []
        for vs, s in I.evals(e['args'], st):
            if len(vs) != 5:
                raise Unsupported('set operation with a comparison')
            ab = []
            for k in (0, 2):
                c, lo, hi = rng(I, s, vs[k], vs[k + 1])
                xs = items(load(s, c))[lo:hi]
                if not all(isnum(x) for x in xs) or [cval(x) for x in xs] != sorted({cval(x) for x in xs}):
                    raise Unsupported('set operation on these ranges')
                ab.append([cval(x) for x in xs])
            a, b = ab
            r = sorted({'intersection': set(a) & set(b), 'union': set(a) | set(b), 'difference': set(a) - set(b)}[kind])
            out.append(deliver(s, vs[4], [C(x) for x in r]))
        return out
    return h


def alg_iota(I, e, st, loc, ptr):
    out = []
    for vs, s in I.evals(e['args'], st):
        c, lo, hi = rng(I, s, vs[0], vs[1])
        s = s.copy()
        for i in range(lo, hi):
            save(s, at(c, i), add(vs[2], C(i - lo)))
        out.append((NULL, s))
    return out


ALGS = {'std::fill': alg_fill, 'std::fill_n': alg_fill_n, 'std::lower_bound': alg_bound('lower'), 'std::upper_bound': alg_bound('upper'), 'std::find': alg_bound('find'),
        'std::find_if': alg_find_if(), 'std::find_if_not': alg_find_if(True), 'std::sort': alg_sort, 'std::stable_sort': alg_sort,
        'std::unique': alg_unique, 'std::equal': alg_equal, 'std::reverse': alg_reverse, 'std::distance': alg_distance, 'std::next': alg_next(1), 'std::prev': alg_next(-1),
        'std::back_inserter': alg_back_inserter, 'std::copy': alg_copy(False), 'std::copy_if': alg_copy(True),
        'std::count': alg_count(False), 'std::count_if': alg_count(True), 'std::max_element': alg_extreme(True), 'std::min_element': alg_extreme(False),
        'std::remove': alg_remove(False), 'std::remove_if': alg_remove(True), 'std::iota': alg_iota, 'std::transform': alg_transform,
        'std::set_intersection': alg_setop('intersection'), 'std::set_union': alg_setop('union'), 'std::set_difference': alg_setop('difference')}


def method(I, e, st, loc, ptr):
    name, args = e['name'], e['args']
    cls = e.get('cls', '')
    if not is_container(cls):
        return None
    v = load(st, loc)
    if not conc(v):
        return None
    kind = cls.replace('const ', '').split('<')[0]
    if name == 'pop_back' or (name == 'pop' and kind == 'std::stack'):
        if not v[1]:
            raise Unsupported('pop of an empty container')
        s = st.copy()
        save(s, loc, ('seq', v[1][:-1]))
        return [(NULL, s)]
    if name == 'pop_front' or (name == 'pop' and kind == 'std::queue'):
        if not v[1]:
            raise Unsupported('pop of an empty container')
        s = st.copy()
        save(s, loc, ('seq', v[1][1:]))
        return [(NULL, s)]
    if name == 'top' and kind == 'std::stack':
        return [(('LV', at(loc, len(v[1]) - 1)), st)]
    if name == 'emplace_back' and not args and zero_value(I.p, first_targ(cls)) is not None:
        s = st.copy()
        save(s, loc, seq(items(v) + [zero_value(I.p, first_targ(cls))]))
        return [(('LV', at(loc, len(v[1]))), s)]
    if name == 'emplace_back' and first_targ(cls) in I.p.records and not (len(args) == 1 and first_targ(cls) in (args[0].get('t') or '')):
        out = []
        for q, s in I.make_obj(first_targ(cls), args, st, e):
            if q[0] != 'p':
                return None
            s = s.copy()
            xs = items(load(s, loc))
            save(s, loc, seq(xs + [load(s, deref(q))]))
            out.append((('LV', at(loc, len(xs))), s))
        return out
    if name in ('insert', 'emplace') and kind in ('std::vector', 'std::deque', 'std::list') and len(args) >= 2:
        out = []
        for vs, s in I.evals(args, st):
            p = it_pos(vs[0])
            if p is None or p[0] != loc:
                raise Unsupported('insert at an unknown position')
            cur = load(s, loc)
            if not conc(cur):
                raise Unsupported('insert into unknown container')
            xs = items(cur)
            if len(vs) == 3:
                c2, lo, hi = rng(I, s, vs[1], vs[2])
                new = items(load(s, c2))[lo:hi]
            elif len(vs) == 2:
                new = [vs[1]]
            else:
                raise Unsupported('emplace')
            s = s.copy()
            save(s, loc, seq(xs[:p[1]] + new + xs[p[1]:]))
            out.append((it(loc, p[1]), s))
        return out
    if name in ('push_front', 'emplace_front') and len(args) == 1:
        out = []
        for x, s in I.eval(args[0], st):
            s = s.copy()
            save(s, loc, seq([x] + items(load(s, loc))))
            out.append((NULL, s))
        return out
    if name == 'erase' and kind in ('std::vector', 'std::deque', 'std::list'):
        out = []
        for vs, s in I.evals(args, st):
            p = it_pos(vs[0])
            if p is None or p[0] != loc:
                raise Unsupported('erase at an unknown position')
            xs = items(load(s, loc))
            hi = p[1] + 1
            if len(vs) == 2:
                p2 = it_pos(vs[1])
                if p2 is None or p2[0] != loc:
                    raise Unsupported('erase at an unknown position')
                hi = p2[1]
            s = s.copy()
            save(s, loc, seq(xs[:p[1]] + xs[hi:]))
            out.append((it(loc, p[1]), s))
        return out
    if name == 'resize' and len(args) >= 1:
        out = []
        for vs, s in I.evals(args, st):
            if not isnum(vs[0]):
                raise Unsupported('resize to unknown size')
            xs = items(load(s, loc))
            n = int(cval(vs[0]))
            t = first_targ(cls)
            fill = vs[1] if len(vs) > 1 else (C(False) if t == 'bool' else C(0) if t in WIDTHS else seq([]) if is_container(t) else NULL if t.rstrip().endswith('*') or t.startswith(('std::shared_ptr', 'std::unique_ptr')) else None)
            if n > len(xs) and fill is None:
                if t not in I.p.records:
                    raise Unsupported('resize of ' + t)
                tl, s = tmp_loc(I, s, Obj(t, None, {}), e)
                ss = I.default_fields(t, s, tl)
                s = ss[0]
                fill = load(s, tl)
            s = s.copy()
            save(s, loc, seq((xs + [fill] * n)[:n]))
            out.append((NULL, s))
        return out
    return None


def install(I, rec=3, unroll=40):
    I.fresh = True
    I.rec = rec
    I.unroll = unroll
    I.std_hook = method
    I.hooks.update(ALGS)
    return I


def deque_hooks(I, cls='light_deque'):
    """the repository's own deque modelled as a sequence (its implementation is judged separately)"""
    def h(name):
        def g(I, e, st, loc, ptr):
            if loc is None and ptr is not None:
                loc = deref(ptr)
            if loc is None:
                return None
            v = load(st, loc)
            if not conc(v):
                return None
            xs = v[1]
            if name in ('push_back', 'emplace_back'):
                out = []
                for a, s in I.eval(e['args'][0], st):
                    s = s.copy()
                    save(s, loc, ('seq', load(s, loc)[1] + (('one', a),)))
                    out.append((NULL, s))
                return out
            if name == 'empty':
                return [(C(not xs), st)]
            if name == 'size':
                return [(C(len(xs)), st)]
            if name in ('front', 'back'):
                if not xs:
                    raise Unsupported('%s of an empty deque' % name)
                return [(('LV', at(loc, 0 if name == 'front' else len(xs) - 1)), st)]
            if name in ('pop_front', 'pop_back'):
                if not xs:
                    raise Unsupported('%s of an empty deque' % name)
                s = st.copy()
                save(s, loc, ('seq', xs[1:] if name == 'pop_front' else xs[:-1]))
                return [(NULL, s)]
            if name == 'clear':
                s = st.copy()
                save(s, loc, ('seq', ()))
                return [(NULL, s)]
            if name in ('begin', 'end'):
                return [(it(loc, 0 if name == 'begin' else len(xs)), st)]
            return None
        return g
    for n in ('push_back', 'emplace_back', 'empty', 'size', 'front', 'back', 'pop_front', 'pop_back', 'clear', 'begin', 'end'):
        I.hooks[cls + '::' + n] = h(n)
