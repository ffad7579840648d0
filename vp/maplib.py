"""Concrete models of std::map / unordered_map / set with constant keys, and of constant strings."""
from .engine import *
from . import seqlib
from .seqlib import conc, items, seq, at, it, it_pos

MAPS = ('std::map', 'std::unordered_map')
SETS = ('std::set', 'std::unordered_set')


def kind_of(cls):
    return cls.replace('const ', '').strip().split('<')[0]


def key_of(I, st, k):
    """hashable constant for a key value"""
    if isconst(k):
        return ('c', cval(k))
    if k[0] == 'e':
        return k
    if k[0] == 'p':
        v = load(st, (k[1], k[2]))
        if isconst(v) and isinstance(cval(v), str):
            return ('s', cval(v))        # shared strings are hashed and compared by content
        return k
    if k[0] == 'o' and ('f', 'first') in k.fields:
        return ('pair', key_of(I, st, k.fields[('f', 'first')]), key_of(I, st, k.fields[('f', 'second')]))
    raise Unsupported('key ' + show(k)[:60])


def pair(k, v):
    return Obj('pair', None, {('f', 'first'): k, ('f', 'second'): v})


def mk_map(kvs):
    return seq([pair(k, v) for k, v in kvs])


def entry_key(I, st, kind, x):
    return key_of(I, st, x.fields[('f', 'first')] if kind in MAPS else x)


def lookup(I, st, loc, kind, k):
    kk = key_of(I, st, k)
    for i, x in enumerate(items(load(st, loc))):
        if entry_key(I, st, kind, x) == kk:
            return i
    return None


def add_entry(I, st, loc, kind, k, x):
    """-> index (st already a private copy)"""
    xs = items(load(st, loc))
    pos = len(xs)
    if kind in ('std::map', 'std::set'):
        kk = key_of(I, st, k)
        pos = len([1 for y in xs if entry_key(I, st, kind, y) < kk])
    save(st, loc, seq(xs[:pos] + [x] + xs[pos:]))
    return pos


def method(I, e, st, loc, ptr):
    cls = e.get('cls', '') or ''
    name, args = e.get('name', ''), e['args']
    v = load(st, loc) if loc is not None else None
    if v is not None and isconst(v) and isinstance(cval(v), str):
        return string_method(I, e, st, loc, cval(v), name, args)
    kind = kind_of(cls)
    if kind not in MAPS + SETS or v is None or not conc(v):
        return seqlib.method(I, e, st, loc, ptr)
    out = []
    if name in ('find', 'count', 'contains', 'at', 'operator[]') and len(args) == 1:
        for k, s in I.eval(args[0], st):
            i = lookup(I, s, loc, kind, k)
            n = len(items(load(s, loc)))
            if name == 'find':
                out.append((it(loc, n if i is None else i), s))
            elif name == 'count':
                out.append((C(0 if i is None else 1), s))
            elif name == 'contains':
                out.append((C(i is not None), s))
            else:
                if i is None:
                    if name == 'at':
                        I.thrown.append(s)
                        continue
                    t = second_targ(cls)
                    s = s.copy()
                    z = zero_value(I.p, t)
                    if z is None:
                        raise Unsupported('operator[] of ' + cls)
                    i = add_entry(I, s, loc, kind, k, pair(k, z))
                l = at(loc, i)
                out.append((('LV', (l[0], l[1] + (('f', 'second'),))), s))
        return out
    if name in ('emplace', 'insert', 'try_emplace', 'insert_or_assign') and kind in MAPS:
        for vs, s in I.evals(args, st):
            if len(vs) == 1 and vs[0][0] == 'o' and ('f', 'first') in vs[0].fields:
                k, x = vs[0].fields[('f', 'first')], vs[0].fields[('f', 'second')]
            elif len(vs) == 2:
                k, x = vs
            else:
                raise Unsupported('map ' + name)
            i = lookup(I, s, loc, kind, k)
            new = i is None
            s = s.copy()
            if new:
                i = add_entry(I, s, loc, kind, k, pair(k, x))
            elif name == 'insert_or_assign':
                l = at(loc, i)
                save(s, (l[0], l[1] + (('f', 'second'),)), x)
            out.append((pair(it(loc, i), C(new)), s))
        return out
    if name in ('emplace', 'insert') and kind in SETS and len(args) == 1:
        for k, s in I.eval(args[0], st):
            i = lookup(I, s, loc, kind, k)
            new = i is None
            if new:
                s = s.copy()
                i = add_entry(I, s, loc, kind, k, k)
            out.append((pair(it(loc, i), C(new)), s))
        return out
    if name == 'insert' and kind in SETS and len(args) == 2:
        for vs, s in I.evals(args, st):
            c2, lo, hi = seqlib.rng(I, s, vs[0], vs[1])
            s = s.copy()
            for k in items(load(s, c2))[lo:hi]:
                if lookup(I, s, loc, kind, k) is None:
                    add_entry(I, s, loc, kind, k, k)
            out.append((NULL, s))
        return out
    if name == 'merge' and len(args) == 1:
        for l2, s in I.lv(args[0], st):
            v2 = load(s, l2)
            if not conc(v2):
                raise Unsupported('merge of an unknown container')
            s = s.copy()
            rest = []
            for x in items(v2):
                k = x.fields[('f', 'first')] if kind in MAPS else x
                if lookup(I, s, loc, kind, k) is None:
                    add_entry(I, s, loc, kind, k, x)
                else:
                    rest.append(x)
            save(s, l2, seq(rest))
            out.append((NULL, s))
        return out
    if name == 'erase' and len(args) == 1:
        for k, s in I.eval(args[0], st):
            p = it_pos(k)
            xs = items(load(s, loc))
            if p is not None and p[0] == loc:
                i = p[1]
            else:
                i = lookup(I, s, loc, kind, k)
            if i is None:
                out.append((C(0), s))
                continue
            s = s.copy()
            save(s, loc, seq(xs[:i] + xs[i + 1:]))
            out.append((it(loc, i) if p is not None else C(1), s))
        return out
    if name in ('lower_bound', 'upper_bound') and len(args) == 1 and kind in ('std::map', 'std::set'):
        for k, s in I.eval(args[0], st):
            ks = [x.fields[('f', 'first')] if kind in MAPS else x for x in items(load(s, loc))]
            if not all(isconst(x) and not isinstance(cval(x), str) for x in ks + [k]):
                raise Unsupported(name + ' with an unknown key')
            n = [i for i, x in enumerate(ks) if (cval(x) >= cval(k) if name == 'lower_bound' else cval(x) > cval(k))]
            out.append((it(loc, n[0] if n else len(ks)), s))
        return out
    if name == 'erase' and len(args) == 2:
        for vs, s in I.evals(args, st):
            c2, lo, hi = seqlib.rng(I, s, vs[0], vs[1])
            if c2 != loc:
                raise Unsupported('erase of a range of another container')
            s = s.copy()
            xs = items(load(s, loc))
            save(s, loc, seq(xs[:lo] + xs[hi:]))
            out.append((it(loc, lo), s))
        return out
    return seqlib.method(I, e, st, loc, ptr)


def string_method(I, e, st, loc, v, name, args):
    if name in ('size', 'length'):
        return [(C(len(v)), st)]
    if name == 'empty':
        return [(C(not v), st)]
    if name in ('c_str', 'data', 'str'):
        return [(C(v), st)]
    if name in ('begin', 'cbegin', 'end', 'cend') and not args and loc is not None:
        return [(it(loc, 0 if 'begin' in name else len(v)), st)]
    if name in ('back', 'front') and v:
        return [(C(ord(v[-1] if name == 'back' else v[0])), st)]
    out = []
    for vs, s in I.evals(args, st):
        if not all(isconst(x) for x in vs):
            return None
        cs = [cval(x) for x in vs]
        if name == 'substr':
            a = cs[0] if cs else 0
            if a > len(v) or a < 0:
                I.thrown.append(s)
                continue
            n = cs[1] if len(cs) > 1 and cs[1] >= 0 else len(v)
            out.append((C(v[a:a + n]), s))
        elif name == 'compare' and len(cs) == 1 and isinstance(cs[0], str):
            out.append((C((v > cs[0]) - (v < cs[0])), s))
        elif name in ('find', 'rfind') and isinstance(cs[0], str):
            r = v.find(cs[0]) if name == 'find' else v.rfind(cs[0])
            out.append((C(r if r >= 0 else (1 << 64) - 1), s))
        elif name in ('append', 'operator+=') and isinstance(cs[0], str):
            s = s.copy()
            save(s, loc, C(v + cs[0]))
            out.append((('LV', loc), s))
        else:
            return None
    return out


def install(I, **kw):
    seqlib.install(I, **kw)
    I.std_hook = method
    return I
