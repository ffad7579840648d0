"""C01: P/T firing rule with weighted and inhibitor arcs."""
from ..pql import *

LEVEL = 'other'
MIN_OBLIGATIONS = 40
EXPLANATION = ('Abstract interpretation of the enabledness tests, the token updates and the successor enumeration. Every iteration over the '
               'arcs of a transition is classified by the abstract cases inhibitor x (marking <,=,> weight); a ghost bit carried through the '
               'loop fixpoint records whether a disabling arc was met, and the verdict on every exit path is compared with it. Token updates '
               'are compared with marking -/+ weight as terms; loop index ranges are compared with the arc ranges of the net encoding. Independently of the code shape, the same functions, the whole enumeration and the deadlock test are interpreted on bounded nets with symbolic weights, inhibitors, players and markings.')
TUS = ['src/PetriEngine/SuccessorGenerator.cpp', 'src/PetriEngine/PetriNet.cpp', 'src/PetriEngine/Stubborn/StubbornSet.cpp',
       'src/PetriEngine/Stubborn/ReachabilityStubbornSet.cpp', 'src/PetriEngine/Synthesis/GameSuccessorGenerator.cpp', 'src/PetriEngine/ReducingSuccessorGenerator.cpp']
PN = 'PetriEngine::'
from . import c01b
MAX32 = (1 << 32) - 1


def fsel(b, *names):
    for n in names:
        b = T('sel', b, ('f', n))
    return b


def at(b, i):
    return T('sel', b, ('i', i))


def inv_indices(v, net, key=None):
    out = set()
    cont = fsel(net, '_invariants')
    for x in subterms(v):
        if isinstance(x, tuple) and len(x) == 4 and x[0] == 't' and x[1] == 'sel' and x[2] == cont and x[3][0] == 'i':
            i = x[3][1]
            if key is None or any(isinstance(y, tuple) and len(y) > 2 and y[0] == 't' and y[1] in ('w', 'iv') and y[2] == key for y in subterms(i)):
                out.add(i)
    return out


def fact_terms(st):
    return tuple(k[1] for k in st.facts)


def arc_cases(I, st, net, m, idx):
    """abstract cases of an arc possible in st: set of (inhibitor, rel)"""
    inv = at(fsel(net, '_invariants'), idx)
    inh, tok = fsel(inv, 'inhibitor'), fsel(inv, 'tokens')
    mk = m(fsel(inv, 'place'))
    out = []
    for b in (False, True):
        f = st.facts.get(('b', inh))
        if f is not None and f != b:
            continue
        for rel in ('<', '==', '>'):
            ss = [s for r, s in I.decide(st, rel, mk, tok) if r]
            for s in ss:
                s = s.copy()
                s.facts[('b', inh)] = b
                out.append((b, rel, s))
    return out


def enabled_case(b, rel):
    return (rel == '<') if b else rel != '<'


def arc_iter(net, m, extra=None):
    """on_iter hook: carries ghost 'arcs' in {clean,dirty}"""
    def hook(I, key, n, head, o, st):
        ids = inv_indices(fact_terms(st), net, key)
        if not ids:
            if extra:
                return extra(I, key, n, head, o, st)
            return [st]
        outs = [st]
        for i in ids:
            nxt = []
            for s in outs:
                cases = arc_cases(I, s, net, m, i)
                en = [c for c in cases if enabled_case(c[0], c[1])]
                dis = [c for c in cases if not enabled_case(c[0], c[1])]
                if en:
                    s1 = s.copy() if dis else s
                    nxt.append(s1)
                if dis:
                    s2 = s.copy()
                    s2.ghost['arcs'] = 'dirty'
                    s2.ghost['witness'] = 'arc with inhibitor=%s and marking %s weight' % (dis[0][0], dis[0][1])
                    nxt.append(s2)
            outs = nxt
        return outs
    return hook


def check_range(ctx, I, name, where, net, lo, hi, required=True):
    """every arc loop runs exactly over [lo,hi)"""
    found = False
    for key, ls in I.loops.items():
        L = ls[-1]
        ids = set()
        for it in L.iters:
            ids |= inv_indices(fact_terms(it['st']), net, key)
        for i in ids:
            r = index_range(I, i)
            if r is None or r[0] != 'from':
                ctx.und(name + ':range', 'loop over arcs not understood: ' + show(i)[:80], where)
                continue
            w = r[2]
            idx = add(w, add(r[1], L.ind[w][0], -1))
            los = lo(key) if callable(lo) else lo
            his = hi(key) if callable(hi) else hi
            if r[1] == los:
                ctx.ok(name + ':from', '', where)
            elif known(r[1], allow=ws_of(r[1])):
                ctx.bad(name + ':from', 'arcs are visited from index %s, must be from %s' % (show(r[1])[:100], show(los)[:100]), where)
            else:
                ctx.und(name + ':from', show(r[1])[:100], where)
            # body entry facts must include idx < hi (or idx != hi), as the only bound
            form, k, sign = norm_cmp(idx, his)
            ok = True
            for it in L.iters:
                f = it['st'].facts.get(('i', form))
                if f is None:
                    ok = None
                    break
                up = (f[1] + k) if sign > 0 else -(f[0] - k)
                ex = {(e + k) if sign > 0 else -(e - k) for e in f[2]}
                if not (up == -1 or (up == INF and ex == {0})):
                    ok = False
            if ok is None:
                b = bound_of(I, L, idx)
                if b is not None and known(b, allow=ws_of(b)) and b != his:
                    ctx.bad(name + ':upto', 'arcs are visited up to %s, must be up to %s' % (show(b)[:100], show(his)[:100]), where)
                else:
                    ctx.und(name + ':upto', 'upper end not understood', where)
            else:
                ctx.check(name + ':upto', ok, 'the loop over arcs stops short of / runs past %s' % show(his)[:100], where)
            found = True
    if required and not found:
        ctx.und(name + ':range', 'no loop over arcs found', where)
    return found


def ws_of(v):
    return {x for x in subterms(v) if isinstance(x, tuple) and len(x) > 2 and x[0] == 't' and x[1] == 'w'}


def trans_last(ctx, I, L, w, net, pl, nm, where):
    """the loop with counter w over the transitions listed under place pl ends at placeToPtrs[pl+1]"""
    pt = fsel(net, '_placeToPtrs')
    want = at(pt, add(pl, C(1)))
    seen = set()
    for it in L.iters:
        b = None
        for k, f in it['st'].facts.items():
            if k[0] != 'i':
                continue
            c, m = lin_of(k[1])
            if w not in m or abs(m[w]) != 1 or len(m) != 2:
                continue
            o = [a for a in m if a != w][0]
            if not (o[0] == 't' and o[1] == 'sel' and o[2] == pt and m[o] == -m[w]):
                continue
            lo, hi, ex = f[0] + c, f[1] + c, {x + c for x in f[2]}
            if m[w] < 0:
                lo, hi, ex = -hi, -lo, {-x for x in ex}
            if hi != INF:
                b = add(o, C(hi + 1))
            elif len(ex) == 1:
                b = add(o, C(list(ex)[0]))     # w != o+x
        if b is not None:
            seen.add(b)
    if seen == {want}:
        ctx.ok(nm + ':last', '', where)
    elif len(seen) == 1:
        ctx.bad(nm + ':last', 'the transitions of place p are visited up to %s, must be up to %s' % (show(list(seen)[0])[:100], show(want)[:100]), where)
    else:
        ctx.und(nm + ':last', 'end of the transition loop not understood', where)


def trans_loops(ctx, I, net, nm, where):
    """the loops over the transitions of a place in I: start and end"""
    pt = fsel(net, '_placeToPtrs')
    n = 0
    for key, ls in I.loops.items():
        L = ls[-1]
        for w, (init, step) in L.ind.items():
            if init[0] == 't' and init[1] == 'sel' and init[2] == pt:
                n += 1
                ctx.check(nm + ':step', step == 1, 'advances by %s transitions' % step, where)
                trans_last(ctx, I, L, w, net, init[3][1], nm, where)
                pl = init[3][1]
                r = index_range(I, pl)
                if r and r[0] == 'from':
                    ctx.check(nm + ':first-place', r[1] == C(0), 'places are visited from %s' % show(r[1])[:60], where)
            elif step == 1 and contains(init, pt) and lin_of(init)[1] and known(init, allow=ws_of(init)):
                ctx.bad(nm + ':start', 'transitions of place p are enumerated from %s' % show(init)[:100], where)
    if not n:
        ctx.und(nm + ':start', 'no loop over the transitions of a place found', where)


def bound_of(I, L, idx):
    """bound b such that the body is entered only with idx < b"""
    for it in L.iters:
        for k, f in it['st'].facts.items():
            if k[0] != 'i':
                continue
            c, m = lin_of(k[1])
            ci, mi = lin_of(idx)
            w = [a for a in mi if a[0] == 't' and a[1] == 'w']
            if w and w[0] in m and abs(m[w[0]]) == 1:
                sg = m[w[0]]
                # sg*idx + rest in f
                rest = add(k[1], mul(C(sg), idx), -1)
                if sg < 0 and f[0] == 1:
                    return rest
                if sg > 0 and f[1] == -1:
                    return neg(rest)
    return None


def run(ctx):
    ctx.rule('enabled(t,m) iff every non-inhibitor input arc has m>=w and every inhibitor arc has m<w')
    ctx.rule('firing subtracts every non-inhibitor input weight and adds every output weight, rejects token overflow, touches nothing else')
    ctx.rule('the enumeration of successors visits every enabled transition once and skips none')
    p = ctx.program(TUS)
    # the bounded analysis does not depend on how loops are written; where it settles a function, an objection
    # of the loop-shape analysis below (which is unbounded, but knows fewer shapes) is not a violation by itself
    c01b.run(ctx, p)
    sure = c01b.settled(ctx.obls)
    plain_bad = ctx.bad

    def bad(name, detail, site=''):
        if any(name == g or name.startswith(g + ':') for g in sure) and not name.endswith((':restart', ':continue', ':mode', ':wrap')):
            ctx.und(name, 'loop shape not understood: ' + detail, site)
        else:
            plain_bad(name, detail, site)
    ctx.bad = bad
    this, t = T('this'), T('t')
    nthis = T('*', this)

    def parent_marking(cls):
        def m(pl):
            return at(T('*', fsel(T('*', fsel(nthis, '_parent')), '_marking')), pl)
        return m

    # ---------------------------------------------------------------- enabledness predicates
    preds = [(PN + 'SuccessorGenerator::checkPreset', fsel(nthis, '_net'), parent_marking(None), [t]),
             (PN + 'StubbornSet::checkPreset', fsel(nthis, '_net'), parent_marking(None), [t]),
             (PN + 'PetriNet::fireable', nthis, lambda pl: at(T('*', T('m')), pl), [T('m'), t])]
    for q, net, m, args in preds:
        f = p.fn(q)
        nm = q.replace(PN, '')

        def go():
            I = Interp(p)
            I.on_iter = arc_iter(net, m)
            rs = I.run(f, this, args)
            ctx.note_interp(I, len(rs))
            for v, s in rs:
                if v not in (TRUE, FALSE):
                    ctx.und(nm + ':verdict', show(v), site(f))
                    continue
                d = s.ghost.get('arcs') == 'dirty'
                if d:
                    ctx.check(nm + ':disabled', v == FALSE, 'reports enabled although it met a %s' % s.ghost.get('witness'), site(f))
                else:
                    if v == TRUE:
                        ctx.ok(nm + ':enabled', '', site(f))
                    else:
                        ctx.bad(nm + ':enabled', 'reports disabled although no disabling arc was met (%s)' % facts_str(s)[-200:], site(f))
            tr = at(fsel(net, '_transitions'), t)
            check_range(ctx, I, nm, site(f), net, fsel(tr, 'inputs'), fsel(tr, 'outputs'))
        ctx.attempt(nm, go, site(f))

    # ---------------------------------------------------------------- token updates
    wr = T('write')
    for q, sign in ((PN + 'SuccessorGenerator::consumePreset', -1), (PN + 'SuccessorGenerator::producePostset', 1)):
        f = p.fn(q)
        nm = q.replace(PN, '')
        net = fsel(nthis, '_net')

        def go():
            I = Interp(p)
            I.cast_hook = strict_cast
            base = fsel(wr, '_marking')
            if sign > 0:
                def wraps(I, op, a, b, t, st):
                    if op == '+' and (width(t) or 64) <= 32 and not isnum(a) and not isnum(b):
                        r = add(a, b)
                        both = any(contains(r, fsel(x, 'tokens')) for x in [y[2] for y in subterms(r) if isinstance(y, tuple) and len(y) == 4 and y[1] == 'sel' and y[3] == ('f', 'tokens')])
                        if both and consistent(I, st, [('>=', r, C(MAX32 + 1))]):
                            ctx.bad(nm + ':wrap', 'the sum of tokens and weight is computed in 32 bits, where 2^32 tokens become few', site(f))
                I.on_arith = wraps

            def it_hook(I, key, n, head, o, st):
                return [st]
            I.on_iter = it_hook
            rs = I.run(f, this, [wr, t])
            ctx.note_interp(I, len(rs))
            n = 0
            for key, ls in I.loops.items():
                L = ls[-1]
                for it in L.iters:
                    n += judge_update(ctx, I, L, key, it, net, base, sign, nm, site(f))
            if not n:
                ctx.und(nm, 'no arc loop found', site(f))
            tr = at(fsel(net, '_transitions'), t)
            if sign < 0:
                lo, hi = fsel(tr, 'inputs'), fsel(tr, 'outputs')
            else:
                lo, hi = fsel(tr, 'outputs'), fsel(at(fsel(net, '_transitions'), add(t, C(1))), 'inputs')
            upd_range(ctx, I, nm, site(f), net, lo, hi)
        ctx.attempt(nm, go, site(f))

    # ---------------------------------------------------------------- _fire
    f = p.fn(PN + 'SuccessorGenerator::_fire')

    def go_fire():
        I = Interp(p)
        I.opaque.add(PN + 'SuccessorGenerator::checkPreset')

        def rec(kind):
            def h(I, e, st, loc, ptr):
                out = []
                for vs, s in I.evals(e['args'], st):
                    s = s.copy()
                    s.ghost['seq'] = s.ghost.get('seq', ()) + ((kind,) + vs,)
                    out.append((NULL, s))
                return out
            return h
        I.hooks['memcpy'] = rec('copy')
        I.hooks['std::memcpy'] = rec('copy')
        I.hooks['std::copy'] = rec('copy3')
        I.hooks['std::copy_n'] = rec('copyn')
        I.hooks[PN + 'SuccessorGenerator::consumePreset'] = rec('consume')
        I.hooks[PN + 'SuccessorGenerator::producePostset'] = rec('produce')
        rs = I.run(f, this, [wr, t])
        ctx.note_interp(I, len(rs))
        for v, s in rs:
            seq = s.ghost.get('seq', ())
            kinds = [x[0] for x in seq]
            src = fsel(T('*', fsel(nthis, '_parent')), '_marking')
            np = fsel(nthis, '_net', '_nplaces')
            where = site(f)
            for k in ('consume', 'produce'):
                xs = [x for x in seq if x[0] == k]
                if not xs:
                    ctx.und('_fire:' + k, 'no call', where)
                    continue
                ctx.check('_fire:%s' % k, len(xs) == 1 and xs[0][2] == t, '%s is applied %d times, to %s' % (k, len(xs), show(xs[0][2])), where)
            cp = [x for x in seq if x[0].startswith('copy')]
            if len(cp) != 1:
                ctx.und('_fire:copy', 'the marking is copied in a way not understood', where)
            else:
                c = cp[0]
                ctx.check('_fire:copy-first', kinds.index(c[0]) == 0 if 'consume' in kinds else None, 'tokens are moved before the parent marking is copied', where)
                if c[0] == 'copy':
                    ctx.check('_fire:copy-dst', c[1] == fsel(wr, '_marking'), show(c[1]), where)
                    ctx.check('_fire:copy-src', c[2] == src, 'copies from %s' % show(c[2]), where)
                    ctx.check('_fire:copy-size', c[3] == mul(C(4), np), 'copies %s bytes' % show(c[3]), where)
                elif c[0] == 'copyn':
                    ctx.check('_fire:copy-src', c[1] == src, show(c[1]), where)
                    ctx.check('_fire:copy-size', c[2] == np, show(c[2]), where)
                else:
                    ctx.check('_fire:copy-src', c[1] == src, show(c[1]), where)
                    ctx.check('_fire:copy-size', add(c[2], c[1], -1) == np, show(c[2]), where)
            tc = load(s, (('d', this), (('f', '_suc_tcounter'),)))
            ctx.check('_fire:resume', tc == add(t, C(1)), 'enumeration resumes at %s after firing t' % show(tc), where)
    ctx.attempt('_fire', go_fire, site(f))

    # fired(): the transition just fired
    f = p.fn(PN + 'SuccessorGenerator::fired')

    def go_fired():
        I = Interp(p)
        tc = fsel(nthis, '_suc_tcounter')
        for v, s in I.run(f, this, []):
            if consistent(I, s, [('<', tc, C(MAX32))]):
                ctx.check('fired', v == add(tc, C(-1)), 'reports transition %s' % show(v), site(f))
        ctx.note_interp(I, 2)
    ctx.attempt('fired', go_fired, site(f))

    # ---------------------------------------------------------------- enumeration
    for f in [x for x in p.byq.get(PN + 'SuccessorGenerator::_next', [])]:
        enumeration(ctx, p, f)
    for mode, want in (('next_ctrl', True), ('next_env', False)):
        game_next(ctx, p, mode, want)

    # ---------------------------------------------------------------- deadlocked
    deadlock(ctx, p)
    arcs_lookup(ctx, p)
    construct_enabled(ctx, p)
    # preset/postset
    for q, lo, hi in (('preset', ('inputs', 0), ('outputs', 0)), ('postset', ('outputs', 0), ('inputs', 1))):
        f = p.fn(PN + 'PetriNet::' + q)

        def go():
            I = Interp(p)
            for v, s in I.run(f, this, [t]):
                for fldn, (fn, d) in (('first', lo), ('second', hi)):
                    x = get_step(v, ('f', fldn))
                    want = ('p', ('d', this), (('f', '_invariants'), ('i', fsel(at(fsel(nthis, '_transitions'), add(t, C(d))), fn))))
                    if is_ptr(x):
                        ctx.check('PetriNet::%s:%s' % (q, fldn), pnum(x) == pnum(want), 'arc range %s is %s' % (fldn, show(x)), site(f))
                    else:
                        ctx.und('PetriNet::%s:%s' % (q, fldn), show(x)[:100], site(f))
            ctx.note_interp(I, 1)
        ctx.attempt('PetriNet::' + q, go, site(f))


def marking_leafs(st, base):
    v = st.store.get(('d', base))
    if isinstance(v, Obj):
        return {k: x for k, x in v.fields.items() if k[0] == 'i'}
    return {}


def iter_ids(it, net, key, base):
    ids = inv_indices(fact_terms(it['st']), net, key)
    v = it['st'].store.get(('d', base))
    if v is not None:
        ids |= inv_indices(v, net, key)
    return ids


def upd_range(ctx, I, name, where, net, lo, hi):
    for key, ls in I.loops.items():
        L = ls[-1]
        for w, (init, step) in L.ind.items():
            if step != 1:
                continue
            # the index used for invariants
            ids = set()
            for it in L.iters:
                for x in [it['st'].store.get(r) for r in it['st'].store if r[0] == 'd'] + [fact_terms(it['st'])]:
                    ids |= {i for i in inv_indices(x, net, key) if contains(i, w)}
            for idx in ids:
                start = subst(idx, w, init)
                ctx.check(name + ':from', start == lo if known(start) else None, 'arcs are visited from %s, must be from %s' % (show(start)[:100], show(lo)[:100]), where)
                form, k, sign = norm_cmp(idx, hi)
                ok = True
                for it in L.iters:
                    f = it['st'].facts.get(('i', form))
                    if f is None:
                        ok = None
                        break
                    up = (f[1] + k) if sign > 0 else -(f[0] - k)
                    ex = {(e + k) if sign > 0 else -(e - k) for e in f[2]}
                    if not (up == -1 or (up == INF and ex == {0})):
                        ok = False
                if ok is None:
                    b = bound_of(I, L, idx)
                    if b is not None and known(b) and b != hi:
                        ctx.bad(name + ':upto', 'arcs are visited up to %s, must be up to %s' % (show(b)[:100], show(hi)[:100]), where)
                    else:
                        ctx.und(name + ':upto', 'upper end not understood', where)
                else:
                    ctx.check(name + ':upto', ok, 'stops short of / runs past %s' % show(hi)[:100], where)


def judge_update(ctx, I, L, key, it, net, base, sign, name, where):
    ids = iter_ids(it, net, key, base)
    if not ids or it['out'][0] not in ('next', 'last'):
        return 0
    st, head = it['st'], it['head']
    n = 0
    for i in ids:
        inv = at(fsel(net, '_invariants'), i)
        loc = (('d', base), (('i', fsel(inv, 'place')),))
        old, new = load(head, loc), load(st, loc)
        tok, inh = fsel(inv, 'tokens'), fsel(inv, 'inhibitor')
        touched = [k for k, x in marking_leafs(st, base).items() if marking_leafs(head, base).get(k) != x]
        other = [k for k in touched if k != loc[1][0]]
        if other:
            ctx.bad(name + ':frame', 'an arc changes the tokens of %s' % show(other[0][1])[:100], where)
        raw = new
        truncated = False
        while raw[0] == 't' and raw[1] == 'trunc':
            truncated = True
            raw = raw[3]
        d = add(raw, old, -1)
        for b in (False, True):
            if st.facts.get(('b', inh)) not in (None, b):
                continue
            if sign < 0:
                want = C(0) if b else neg(tok)
            else:
                if b:
                    continue
                want = tok
            n += 1
            if d == want or entails(I, st, '==', d, want):
                ctx.ok(name + ':update:inhibitor=%s' % b, '', where)
            elif known(d, allow=ws_of(d)):
                ctx.bad(name + ':update:inhibitor=%s' % b, 'tokens change by %s, must change by %s' % (show(d)[:100], show(want)[:100]), where)
            else:
                ctx.und(name + ':update', show(d)[:100], where)
        if sign > 0:
            nv = add(old, tok)
            ctx.check(name + ':overflow', not consistent(I, st, [('>=', nv, C(MAX32 + 1))]), 'a token count of 2^32 or more is stored instead of being rejected', where)
    return n


def enumeration(ctx, p, f):
    """_next(): one call visits every remaining transition in order and returns the first enabled one"""
    this = T('this')
    nthis = T('*', this)
    net = fsel(nthis, '_net')
    where = site(f)
    nm = '_next'
    pred = T('pred')

    def go():
        I = Interp(p)
        pc = (('d', this), (('f', '_suc_pcounter'),))
        tc = (('d', this), (('f', '_suc_tcounter'),))

        def chk(I, e, st, loc, ptr):
            out = []
            for (a,), s in I.evals(e['args'], st):
                s = s.copy()
                s.ghost['asked'] = a
                out.append((I.note(T('enabled', a), 'bool'), s))
            return out

        def fire(I, e, st, loc, ptr):
            out = []
            for vs, s in I.evals(e['args'], st):
                s = s.copy()
                s.ghost['fired'] = vs[1]
                save(s, tc, add(vs[1], C(1)))
                out.append((NULL, s))
            return out

        def predh(I, e, st, loc, ptr):
            out = []
            for vs, s in I.evals(e['args'], st):
                out.append((I.note(T('wanted', vs[0]), 'bool'), s))
            return out
        I.hooks[PN + 'SuccessorGenerator::checkPreset'] = chk
        I.hooks[PN + 'SuccessorGenerator::_fire'] = fire
        I.name_hooks['operator()'] = lambda I, e, st, loc, ptr: predh(I, e, st, loc, ptr) if loc is not None and load(st, loc) == pred else None

        def it_hook(I, key, n, head, o, st):
            # iteration of the transition loop: the head value of the counter is the transition
            h = load(head, tc)
            hp = load(head, pc)
            placeloop = hp[0] == 't' and hp[1] == 'w' and hp[2] == key
            if h[0] == 't' and h[1] == 'w' and h[2] == key and o[0] in ('next', 'continue') and not placeloop:
                en = st.facts.get(('b', T('enabled', h)))
                wa = st.facts.get(('b', T('wanted', h)))
                if not (en is False or wa is False):
                    ctx.bad(nm + ':skip', 'a transition that is enabled and wanted can be passed over (asked about %s)' % show(st.ghost.get('asked') or C(None))[:80], where)
                else:
                    ctx.ok(nm + ':skip', '', where)
            if h[0] == 't' and h[1] == 'w' and h[2] == key and o[0] == 'break' and not placeloop:
                hi = at(fsel(net, '_placeToPtrs'), add(hp, C(1)))
                nxt = load(st, tc)
                ctx.check(nm + ':all-transitions', entails(I, st, '>=', nxt, hi) or entails(I, st, '==', nxt, hi),
                          'the enumeration leaves a place before its last transition', where)
            if placeloop and o[0] in ('next', 'continue'):
                # place loop: a place is skipped without entering its transitions
                ent = any(contains(k[1], fsel(net, '_placeToPtrs')) for k in st.facts)
                mk = at(T('*', fsel(T('*', fsel(nthis, '_parent')), '_marking')), hp)
                if not ent:
                    pos = consistent(I, st, [('>', mk, C(0))])
                    zero = consistent(I, st, [('==', hp, C(0))])
                    if pos or zero:
                        ctx.bad(nm + ':place-skip', 'transitions listed under %s are skipped' % ('place 0' if zero else 'a marked place'), where)
                    else:
                        ctx.ok(nm + ':place-skip', '', where)
                end = load(st, tc)
                ctx.check(nm + ':rewind', end == C(MAX32), 'the transition counter is %s when moving to the next place' % show(end)[:80], where)
            return [st]
        I.on_iter = it_hook
        st0 = State()
        rs = I.run(f, this, [T('write'), pred])
        ctx.note_interp(I, len(rs))
        for v, s in rs:
            if v == TRUE:
                x = s.ghost.get('fired')
                ctx.check(nm + ':fires', x is not None, 'returns true without firing', where)
                if x is not None:
                    en = s.facts.get(('b', T('enabled', x)))
                    wa = s.facts.get(('b', T('wanted', x)))
                    ctx.check(nm + ':fires-enabled', en is True, 'fires a transition not known to be enabled', where)
                    ctx.check(nm + ':fires-wanted', wa is True, 'fires a transition the caller did not select', where)
                    ctx.check(nm + ':resume', load(s, tc) == add(x, C(1)), 'resumes at %s' % show(load(s, tc))[:80], where)
            elif v == FALSE:
                ctx.check(nm + ':exhausted', entails(I, s, '>=', load(s, pc), fsel(net, '_nplaces')), 'stops before the last place', where)
        # transition loop bounds
        for key, ls in I.loops.items():
            L = ls[-1]
            for w, (init, step) in L.ind.items():
                if w[3] == tc or w[3][1] == tc[1]:
                    ctx.check(nm + ':step', step == 1, 'advances by %s transitions' % step, where)
                    hp = None
                    for it in L.iters:
                        hp = load(it['head'], pc)
                    pt = fsel(net, '_placeToPtrs')
                    trans_last(ctx, I, L, w, net, hp, nm, where)
                elif w[3][1] == pc[1]:
                    ctx.check(nm + ':place-step', step == 1, 'advances by %s places' % step, where)
            for w, v in [(T('w', key, leaf), k) for leaf, k in L.changed.items() if leaf == tc]:
                pass
        # where the transition loop of a place starts
        for key, ls in I.loops.items():
            for L in ls:
                if any(w[3] == tc for w in L.ind):
                    hp = load(L.pre, pc)
                    s0 = load(L.pre, tc)
                    want = at(fsel(net, '_placeToPtrs'), hp)
                    old_w = s0[0] == 't' and s0[1] in ('w', 'sel') and not contains(s0, fsel(net, '_placeToPtrs'))
                    if s0 == want or old_w:
                        ctx.ok(nm + ':start', '', where)
                    elif known(s0, allow=ws_of(s0)):
                        ctx.bad(nm + ':start', 'transitions of place p are enumerated from %s' % show(s0)[:100], where)
                    else:
                        ctx.und(nm + ':start', show(s0)[:100], where)
    ctx.attempt(nm, go, where)


def game_next(ctx, p, name, want):
    cls = PN + 'Synthesis::GameSuccessorGenerator'
    f = p.fn(cls + '::' + name)
    this = T('this')
    where = site(f)

    def go():
        I = Interp(p)
        x = T('x')

        def nx(I, e, st, loc, ptr):
            out = []
            for vs, s in I.evals(e['args'][1:], st):
                cl = vs[0]
                if not isinstance(cl, Closure):
                    return [(T('r'), s)]
                pid = cl.node['params'][0]['id'] if 'params' in cl.node else None
                s = s.copy()
                root = ('v', 99, 'x')
                s.store[root] = x
                s.env = dict(s.env)
                s.env[-77] = (root, ())
                for r, s2 in I.unlv(I.call_closure(cl, [{'k': 'ref', 'id': -77, 'n': 'x', 't': ''}], s, {'l': 0, 'fn': None})):
                    for tv, s3 in I.truth(s2, r):
                        s3 = s3.copy()
                        s3.ghost['pred'] = tv
                        out.append((T('r'), s3))
            return out
        I.hooks[PN + 'SuccessorGenerator::_next'] = nx
        rs = I.run(f, this, [T('write')])
        ctx.note_interp(I, len(rs))
        ctl = at(fsel(T('*', this), '_net', '_controllable'), x)
        en = p.enums.get(cls + '::mode_t') or {}
        for v, s in rs:
            c = s.facts.get(('b', ctl))
            if c is None or 'pred' not in s.ghost:
                ctx.und(name + ':player', facts_str(s)[:120], where)
                continue
            ctx.check('%s:player:controllable=%s' % (name, c), s.ghost['pred'] == (c == want), 'a %scontrollable transition is %s' % ('' if c else 'un', 'offered' if s.ghost['pred'] else 'withheld'), where)
            lm0 = fsel(T('*', this), '_last_mode')
            lm = load(s, (('d', this), (('f', '_last_mode'),)))
            pc = load(s, (('d', this), (('f', '_suc_pcounter'),)))
            tc = load(s, (('d', this), (('f', '_suc_tcounter'),)))
            mine = 'CTRL' if want else 'ENV'
            other = 'ENV' if want else 'CTRL'
            if lm[0] == 'e':
                ctx.check(name + ':mode', lm[2] == mine, 'records mode ' + lm[2], where)
            if other in en:
                was = consistent(I, s, [('==', lm0, ('e', cls + '::mode_t', other, en[other]))])
                wasmine = consistent(I, s, [('==', lm0, ('e', cls + '::mode_t', mine, en[mine]))])
                reset = pc == C(0) and tc == C(MAX32)
                kept = pc == fsel(T('*', this), '_suc_pcounter')
                if was and not wasmine:
                    ctx.check(name + ':restart', reset, 'switching player does not restart the enumeration', where)
                elif wasmine and not was:
                    ctx.check(name + ':continue', kept, 'continuing the same player restarts the enumeration', where)
    ctx.attempt(name, go, where)


def deadlock(ctx, p):
    f = p.fn(PN + 'PetriNet::deadlocked')
    this, mm = T('this'), T('m')
    net = T('*', this)
    where = site(f)
    nm = 'deadlocked'
    m = lambda pl: at(T('*', mm), pl)

    def go():
        I = Interp(p)
        I.opaque.discard('x')

        def tindex(st, key):
            cont = fsel(net, '_transitions')
            out = set()
            for x in subterms(fact_terms(st)):
                if isinstance(x, tuple) and len(x) == 4 and x[0] == 't' and x[1] == 'sel' and x[2] == cont:
                    if any(isinstance(y, tuple) and len(y) > 2 and y[0] == 't' and y[1] in ('w', 'iv') and y[2] == key for y in subterms(x[3][1])):
                        out.add(x[3][1])
            return out

        def outer(I, key, n, head, o, st):
            if tindex(st, key):
                d = st.ghost.get('arcs') == 'dirty'
                if o[0] in ('next', 'continue'):
                    if not d:
                        ctx.bad(nm + ':missed', 'an enabled transition does not end the search', where)
                    else:
                        ctx.ok(nm + ':missed', '', where)
                if o[0] == 'return':
                    if o[1] == FALSE:
                        ctx.check(nm + ':found', not d, 'a transition with a disabling %s counts as enabled' % st.ghost.get('witness'), where)
                st = st.copy()
                st.ghost.pop('arcs', None)
                st.ghost.pop('witness', None)
                return [st]
            # place loop
            pt = fsel(net, '_placeToPtrs')
            ws = [T('w', key, leaf) for leaf in ()]
            if o[0] in ('next', 'continue'):
                ent = any(contains(k[1], pt) for k in st.facts)
                if not ent:
                    for x in subterms(fact_terms(st)):
                        if isinstance(x, tuple) and len(x) == 4 and x[0] == 't' and x[1] == 'w' and x[2] == key:
                            pos = consistent(I, st, [('>', at(T('*', mm), x), C(0))])
                            zero = consistent(I, st, [('==', x, C(0))])
                            ctx.check(nm + ':place-skip', not (pos or zero), 'transitions listed under %s are not considered' % ('place 0' if zero else 'a marked place'), where)
                            break
            return [st]
        I.on_iter = arc_iter(net, m, outer)
        rs = I.run(f, this, [mm])
        ctx.note_interp(I, len(rs))
        np, nt = fsel(net, '_nplaces'), fsel(net, '_ntransitions')
        for v, s in rs:
            if entails(I, s, '==', np, C(0)) and v in (TRUE, FALSE):
                emp = [(v, r) for r in (True, False) if consistent(I, s, [('==' if r else '!=', nt, C(0))])]
                for vv, r in emp:
                    ctx.check(nm + ':no-places', (vv == TRUE) == r, 'net without places and %s transitions' % ('no' if r else 'some'), where)
            elif v == TRUE:
                ws = [k[1] for k in s.facts]
                done = any(entails(I, s, '>=', w, np) for x in ws for w in ws_of(x))
                ctx.check(nm + ':exhausted', True if done else None, 'reports a deadlock before all places are considered', where)
        trans_loops(ctx, I, net, nm, where)
        # arc range per transition
        for key, ls in I.loops.items():
            L = ls[-1]
            ids = set()
            for it in L.iters:
                ids |= inv_indices(fact_terms(it['st']), net, key)
            for i in ids:
                r = index_range(I, i)
                if r is None or r[0] != 'from':
                    ctx.und(nm + ':range', show(i)[:100], where)
                    continue
                lo = r[1]
                if lo[0] == 't' and lo[1] == 'sel' and lo[3] == ('f', 'inputs'):
                    ctx.ok(nm + ':from', '', where)
                    tr = lo[2]
                    hi = fsel(tr, 'outputs')
                    form, k, sign = norm_cmp(i, hi)
                    ok = all(('i', form) in it['st'].facts for it in L.iters)
                    b = bound_of(I, L, i)
                    ctx.check(nm + ':upto', True if ok else (False if b is not None and known(b, allow=ws_of(b)) else None), 'arcs of a transition are inspected up to %s' % (show(b)[:80] if b else '?'), where)
                elif known(lo, allow=ws_of(lo)):
                    ctx.bad(nm + ':from', 'arcs are inspected from %s' % show(lo)[:100], where)
                else:
                    ctx.und(nm + ':from', show(lo)[:100], where)
    ctx.attempt(nm, go, where)


def arcs_lookup(ctx, p):
    this = T('this')
    net = T('*', this)
    t, pl = T('t'), T('pl')
    for q, args in (('inArc', [pl, t]), ('outArc', [t, pl])):
        f = p.fn(PN + 'PetriNet::' + q)
        where = site(f)

        def go():
            I = Interp(p)

            def h(I, key, n, head, o, st):
                for i in inv_indices(fact_terms(st), net, key):
                    inv = at(fsel(net, '_invariants'), i)
                    same = consistent(I, st, [('==', fsel(inv, 'place'), pl)])
                    inh = st.facts.get(('b', fsel(inv, 'inhibitor')))
                    if o[0] in ('next', 'continue'):
                        ctx.check(q + ':passed-over', not (same and inh is not True), 'an arc between the place and the transition is passed over', where)
                    elif o[0] == 'return' and same:
                        only = not consistent(I, st, [('!=', fsel(inv, 'place'), pl)])
                        if not only:
                            ctx.bad(q + ':foreign', 'answers with the arc of another place', where)
                        v = o[1]
                        if inh is True and q == 'inArc':
                            ctx.check(q + ':inhibitor', v == C(0), 'an inhibitor arc counts as consuming %s' % show(v)[:60], where)
                        elif inh is False or q == 'outArc':
                            ctx.check(q + ':weight', v == fsel(inv, 'tokens') if known(v, allow=ws_of(v)) else None, 'weight reported as %s' % show(v)[:60], where)
                        elif inh is None and q == 'inArc':
                            ctx.check(q + ':inhibitor', v == C(0) if known(v, allow=ws_of(v)) else None, 'the weight of an inhibitor arc is reported as consumption', where)
                    elif o[0] == 'return':
                        ctx.bad(q + ':foreign', 'answers with the arc of another place', where)
                return [st]
            I.on_iter = h
            rs = I.run(f, this, args)
            ctx.note_interp(I, len(rs))
            tr = at(fsel(net, '_transitions'), t)
            if q == 'inArc':
                lo, hi = fsel(tr, 'inputs'), fsel(tr, 'outputs')
            else:
                lo, hi = fsel(tr, 'outputs'), fsel(at(fsel(net, '_transitions'), add(t, C(1))), 'inputs')
            check_range(ctx, I, q, where, net, lo, hi)
        ctx.attempt(q, go, where)


def construct_enabled(ctx, p):
    for f in p.byq.get(PN + 'StubbornSet::constructEnabled', []):
        this = T('this')
        net = fsel(T('*', this), '_net')
        where = site(f)
        nm = 'constructEnabled'

        def go():
            I = Interp(p)

            def chk(I, e, st, loc, ptr):
                return [(I.note(T('enabled', a), 'bool'), s) for (a,), s in I.evals(e['args'], st)]
            I.hooks[PN + 'StubbornSet::checkPreset'] = chk
            stores = []

            def on_store(I, st, loc, v):
                if any(s == ('f', '_enabled') for s in loc[1]) or '_enabled' in show(loc[0])[:200]:
                    st.ghost['set'] = (loc[1][-1][1] if loc[1] and loc[1][-1][0] == 'i' else None, v)
            I.on_store = on_store

            def it_hook(I, key, n, head, o, st):
                ens = [k[1][2] for k in st.facts if k[0] == 'b' and k[1][0] == 't' and k[1][1] == 'enabled' and any(isinstance(y, tuple) and len(y) > 2 and y[0] == 't' and y[1] == 'w' and y[2] == key for y in subterms(k[1]))]
                if ens:
                    tt = ens[0]
                    en = st.facts[('b', T('enabled', tt))]
                    mark = st.ghost.get('set')
                    if o[0] in ('next', 'continue'):
                        if en:
                            ctx.check(nm + ':recorded', mark is not None and mark[0] == tt and mark[1] == TRUE, 'an enabled transition is not recorded as enabled', where)
                        else:
                            ctx.check(nm + ':disabled', mark is None or mark[1] != TRUE, 'a disabled transition is recorded as enabled', where)
                    st = st.copy()
                    st.ghost.pop('set', None)
                else:
                    pt = fsel(net, '_placeToPtrs')
                    if o[0] in ('next', 'continue') and not any(contains(k[1], pt) for k in st.facts):
                        for x in subterms(fact_terms(st)):
                            if isinstance(x, tuple) and len(x) == 4 and x[0] == 't' and x[1] == 'w' and x[2] == key:
                                mk = at(T('*', fsel(T('*', fsel(T('*', this), '_parent')), '_marking')), x)
                                pos = consistent(I, st, [('>', mk, C(0))])
                                zero = consistent(I, st, [('==', x, C(0))])
                                ctx.check(nm + ':place-skip', not (pos or zero), 'transitions listed under %s are skipped' % ('place 0' if zero else 'a marked place'), where)
                                break
                return [st]
            I.on_iter = it_hook
            args = [T('cb')] if f['params'] else []
            rs = I.run(f, this, args)
            ctx.note_interp(I, len(rs))
            trans_loops(ctx, I, net, nm, where)
        ctx.attempt(nm, go, where)
