"""Shared vocabulary for rules about the PQL syntax tree."""
from .rule import *

NS = 'PetriEngine::PQL::'
VISIT = NS + 'Visitor::visit'
RESULT = NS + 'Condition::Result'


def results(prog):
    en = prog.enums.get(RESULT)
    if not en or set(en) != {'RUNKNOWN', 'RFALSE', 'RTRUE'}:
        raise AnchorError('enum Condition::Result changed shape')
    return {n: ('e', RESULT, n, v) for n, v in en.items()}


def getter_field(prog, cls, name):
    """field path read by a trivial getter"""
    fs = prog.method(cls, name)
    if not fs:
        raise AnchorError('getter vanished: %s::%s' % (cls, name))
    I = Interp(prog)
    q = T('q')
    I.dynclass = lambda v: cls if v in (q, T('*', q)) else None
    rs = I.run(fs[0], q, [])
    for v, s in rs:
        if v[0] == 'LV':
            v = load(s, v[1])
        path = []
        while v[0] == 't' and v[1] == 'sel':
            path.insert(0, v[3])
            v = v[2]
        if v == T('*', q) and path:
            return tuple(path)
        if v[0] == 'c':      # boolean getter: forked on the field
            for k in s.facts:
                if k[0] == 'b' and k[1][0] == 't' and k[1][1] == 'sel' and k[1][2] == T('*', q):
                    return (k[1][3],)
    raise AnchorError('getter is not a plain field read: %s::%s' % (cls, name))


def accessor(prog, cls, name, *args, dyn=None, el=None):
    """term denoted by el-><name>(args) for an element of dynamic class cls"""
    fs = [f for f in prog.method(cls, name) if len(f['params']) == len(args)]
    if not fs:
        raise AnchorError('accessor vanished: %s::%s' % (cls, name))
    f = [x for x in fs if x.get('const')] or fs
    I = Interp(prog)
    el = el or T('el')
    I.dynclass = lambda v: cls if v in (el, T('*', el)) else None
    for v, s in I.run(f[0], el, list(args)):
        if v[0] == 'LV':
            v = load(s, v[1])
        return v
    raise AnchorError('accessor has no result: %s::%s' % (cls, name))


def is_expr_visit(e):
    t = (e['args'][1].get('t') or '') if len(e['args']) > 1 else ''
    return 'Expr' in t and 'Condition' not in t


def visit_child(I, e, st):
    """evaluate Visitor::visit(visitor, child): [(visitor_loc, child pointer term, st)]"""
    a0, a1 = e['args'][0], e['args'][1]
    out = []
    t0 = a0.get('t') or ''
    if t0.rstrip().endswith('*'):
        vs = [(deref(v), s) for v, s in I.eval(a0, st)]
    else:
        vs = I.lv(a0, st)
    for vl, s in vs:
        for c, s2 in I.eval(a1, s):
            t1 = (a1.get('t') or '')
            if not t1.rstrip().endswith('*') and 'shared_ptr' not in t1 and 'unique_ptr' not in t1:
                # element passed by reference
                for l, s3 in I.lv(a1, s):
                    c = ('p', l[0], l[1])
                    if l[0][0] == 'd' and not l[1]:
                        c = l[0][1]
                    break
            if c[0] == 'p' and c[1][0] == 'd' and not c[2]:
                c = c[1][1]
            out.append((vl, c, s2))
    return out


def elem_of(term):
    """(container term, index) if term is container[index]"""
    if term[0] == 't' and term[1] == 'sel' and term[3][0] == 'i':
        return term[2], term[3][1]
    return None


def covered(I, st, container, visited):
    """which operands of `container` the path has visited: True (all, on a path that left
    the loop normally), False (provably not all) or None (unknown)"""
    consts = set()
    res = None
    size = T('size', container)
    for idx in visited:
        r = index_range(I, idx)
        if r is None:
            continue
        if r[0] == 'all':
            return True if r[1] == container else None
        if r[0] == 'const':
            consts.add(r[1])
        if r[0] == 'from':
            lo = r[1]
            w = r[2]
            L = find_loop(I, w)
            if isnum(lo):
                missing = [i for i in range(int(cval(lo))) if i not in consts]
                if missing:
                    res = False
                elif entails(I, st, '>=', w, size) or True:
                    # upper bound: the loop must run until size
                    res = True if upper_ok(I, L, w, r, size) else (None if res is None else res)
    if res is None and not visited:
        return None
    return res


def upper_ok(I, L, w, r, size):
    """every 'next' exit of the loop implies index >= size"""
    c = add(r[1], L.ind[w][0], -1)    # index = w + c
    idx = add(w, c)
    ok = True
    for it in L.iters:
        h = it['head']
    # the loop condition must fail only when idx >= size: check on body-entry facts
    for it in L.iters:
        form, k, sign = norm_cmp(idx, size)
        f = it['st'].facts.get(('i', form))
        if f is None:
            return False
        lo, hi, ex = f
        # inside the body idx < size must be the only restriction
        if sign > 0:
            if hi + k != -1:
                return False
        else:
            if lo - k != 1:
                return False
    return ok
