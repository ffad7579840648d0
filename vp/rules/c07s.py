"""Set machinery of the stubborn sets: closure step, place sets, lookup tables, extraction."""
import itertools
from ..trees import *
from ..netmodel import *

PE = 'PetriEngine::'
SS = PE + 'StubbornSet'
SL = ('h', 'S')
SP = ('p', SL, ())


def sub(*path):
    return (SL, tuple(('f', x) for x in path))


class M:
    """a StubbornSet object over a bounded net.  pre/post: per place list of (transition, direction); inh: per place list of transitions"""
    def __init__(self, ctx, p, nplaces, trans, pre, post, inh, cls=SS, enabled=None, seen=None, unproc=(), order=(), stub=None, hasinh=True):
        self.ctx, self.p = ctx, p
        I = self.I = Interp(p)
        seqlib.install(I)
        seqlib.deque_hooks(I)
        I.rec = 6
        I.max_depth = 80
        I.ref_fields = ('_net',)
        st = self.st = State()
        self.nt = max(len(trans), 1 + max([t for x in pre + post for t, _ in x] + [t for x in inh for t in x] + [0]))
        self.m = lay_net(I, st, nplaces, trans + [([], [])] * (self.nt - len(trans)))
        self.pre, self.post, self.inh = pre, post, inh
        arcs, places = [], []
        for q in range(nplaces):
            a = len(arcs)
            arcs += pre[q]
            b = len(arcs)
            arcs += post[q]
            places.append((a, b))
        places.append((len(arcs), len(arcs)))
        F = lambda c, **kw: Obj(c, None, {('f', k): v for k, v in kw.items()})
        st.store[('h', 'arcs')] = seq([F(SS + '::trans_t', index=C(t), direction=C(d)) for t, d in arcs])
        st.store[('h', 'places')] = seq([F(SS + '::place_t', pre=C(a), post=C(b)) for a, b in places])
        st.store[('h', 'seen')] = seq([C(x) for x in (seen or [0] * nplaces)])

        def flags(nm, vs):
            out = []
            for i in range(self.nt):
                if vs is not None and vs[i] is not None:
                    out.append(C(bool(vs[i])))
                else:
                    t = T(nm, C(i))
                    I.note(t, 'bool')
                    out.append(t)
            st.store[('h', nm)] = seq(out)
        flags('enabled', enabled)
        flags('stubborn', stub)
        st.store[('h', 'dep')] = seq([T('dep', C(i)) for i in range(self.nt)])
        P = lambda n: ('p', ('h', n), ())
        st.store[SL] = F(cls, _net=('rf', (NETL, ())), _enabled=P('enabled'), _stubborn=P('stubborn'), _dependency=P('dep'), _places_seen=P('seen'), _places=P('places'),
                         _arcs=P('arcs'), _unprocessed=seq([C(x) for x in unproc]), _ordering=seq([C(x) for x in order]),
                         _netContainsInhibitorArcs=C(hasinh), _inhibpost=seq([seq([C(t) for t in x]) for x in inh]), _parent=('p', PARENT, ()),
                         _nenabled=C(len(order)), _done=C(False), _current=C(0), _queries=seq([]))

        def add_hook(I, e, st, loc, ptr):
            out = []
            for v, s in I.eval(e['args'][0], st):
                s = s.copy()
                s.ghost['add'] = s.ghost.get('add', frozenset()) | {v}
                out.append((NULL, s))
            return out
        self.add_hook = add_hook

    def fn(self, name, pick=None):
        fs = [f for f in self.p.byq.get(name, []) if pick is None or pick(f)]
        if not fs:
            raise AnchorError('no function ' + name)
        return fs[0]

    def run(self, f, args=(), this=SP):
        rs = self.I.run(f, this, list(args), self.st)
        self.ctx.note_interp(self.I, len(rs))
        return rs


def added(s):
    out = set()
    for v in s.ghost.get('add', frozenset()):
        if not isnum(v):
            raise Unsupported('transition ' + show(v))
        out.add(int(cval(v)))
    return out


def closure_fns(p):
    fs = [f for f in p.byq.get(SS + '::closure', []) if f.get('body') is not None or True]
    return [f for f in fs if 'nullptr' in str(f.get('params', [{}])[0].get('t', '')) or 'nullptr_t' in str(f.get('targs', ''))] or fs


def closure(ctx, p):
    pre = [[(1, 1), (2, 1)], [(3, 1)], [(0, 1), (4, 1)]]
    post = [[(0, -1), (5, -1), (2, 0)], [(0, 0), (6, -1), (7, 0)], [(8, 0), (9, -1), (10, -1)]]
    inh = [[11], [12, 13], [14]]
    for f in closure_fns(p):
        w = site(f)
        arg = [NULL] if f['params'] else []
        # --- enabled transition
        for nin, nout, hasinh, seenv in [(2, 2, True, 0), (1, 1, True, 3), (2, 1, False, 0), (0, 2, True, 0), (2, 0, True, 4), (3, 3, True, 0)]:
            nm = 'closure:enabled[%d,%d,%s,%d]' % (nin, nout, hasinh, seenv)

            def go():
                ins = [Arc(i) for i in range(nin)]
                outs = [Arc(i) for i in range(3 - nout, 3)]
                x = M(ctx, p, 3, [(ins, outs)], pre, post, inh if hasinh else [[], [], []], enabled=[True] + [None] * 14, unproc=[0], seen=[seenv] * 3, hasinh=hasinh, stub=[True] + [None] * 14)
                x.I.hooks[SS + '::addToStub'] = x.add_hook
                rs = x.run(f, arg)
                if not rs:
                    ctx.und(nm, 'no path', w)
                for _, s in rs:
                    got = added(s) | {0}
                    for a in ins:
                        if consistent(x.I, s, [('<', a.direction, C(0))]):
                            miss = {t for t, _ in post[a.place]} - got
                            ctx.check(nm + ':conflict', not miss, 'the transitions competing for an input place are not all added (missing %s)' % sorted(miss), w)
                    for a in outs:
                        if hasinh and not (seenv & 4) and consistent(x.I, s, [('>', a.direction, C(0))]):
                            miss = set(inh[a.place]) - got
                            ctx.check(nm + ':inhibited', not miss, 'transitions inhibited by an output place are not all added', w)
                    ctx.check(nm + ':done', load(s, sub('_unprocessed')) == seq([]), 'unprocessed transitions are left', w)
            ctx.attempt(nm, go, w)
        # --- disabled transition
        for kinds in itertools.product((False, True), repeat=2):
            for s0, s1 in itertools.product((0, 1, 2, 3), repeat=2):
                nm = 'closure:disabled[%s,%d,%d]' % (kinds, s0, s1)

                def go():
                    ins = [Arc(0, kinds[0]), Arc(1, kinds[1])]
                    x = M(ctx, p, 3, [(ins, [Arc(2)])], pre, post, inh, enabled=[False] + [None] * 14, unproc=[0], seen=[s0, s1, 0], stub=[True] + [None] * 14)
                    x.I.hooks[SS + '::addToStub'] = x.add_hook
                    rs = x.run(f, arg)
                    if not rs:
                        ctx.und(nm, 'no path', w)
                    for _, s in rs + [(None, a) for a in x.I.aborted]:
                        got = added(s) | {0}

                        def covered(i):
                            if kinds[i]:
                                return bool((s0, s1)[i] & 2) or {t for t, d in post[i] if d < 0} <= got
                            return bool((s0, s1)[i] & 1) or {t for t, d in pre[i]} <= got
                        for dis in ([0], [1], [0, 1]):
                            cs = []
                            for i, a in enumerate(ins):
                                d = i in dis
                                cs.append(('>=' if a.inhibitor == d else '<', x.m[i], a.tokens))
                            if not consistent(x.I, s, cs):
                                continue
                            ctx.check(nm + ':enabling', any(covered(i) for i in dis), 'no disabling input arc has its %s covered (disabling arcs: %s)' % (
                                'enabling transitions', dis), w)
                ctx.attempt(nm, go, w)
        # --- every queued transition is processed
        nm = 'closure:all processed'

        def go():
            x = M(ctx, p, 3, [([Arc(0, False, -1)], []), ([Arc(1, False, -1)], []), ([Arc(2, False, -1)], [])], pre, post, inh, enabled=[True] * 15, unproc=[0, 1, 2])
            x.I.hooks[SS + '::addToStub'] = x.add_hook
            for _, s in x.run(f, arg):
                got = added(s)
                for q in range(3):
                    ctx.check(nm, {t for t, _ in post[q]} <= got, 'a queued transition is not closed', w)
        ctx.attempt(nm, go, w)


def sets(ctx, p):
    pre = [[(1, 1), (2, 1)], [(3, 1), (4, 1), (0, 1)]]
    post = [[(0, -1), (5, 0), (6, -1)], [(7, -1), (8, 0)]]
    inh = [[9, 10], [11]]
    want = {'presetOf': lambda q: {t for t, d in pre[q]}, 'postsetOf': lambda q: {t for t, d in post[q] if d < 0}, 'inhibitorPostsetOf': lambda q: set(inh[q])}
    bits = {'presetOf': 1, 'postsetOf': 2, 'inhibitorPostsetOf': 4}
    for name in want:
        f = p.byq.get(SS + '::' + name, [None])[0]
        if f is None:
            ctx.und(name, 'function not found')
            continue
        w = site(f)
        for q in (0, 1):
            for seen in range(8):
                for mk in ((False, True) if len(f['params']) > 1 else (None,)):
                    nm = '%s[%d,%d,%s]' % (name, q, seen, mk)

                    def go():
                        sv = [0, 0]
                        sv[q] = seen
                        x = M(ctx, p, 2, [], pre, post, inh, seen=sv)
                        x.I.hooks[SS + '::addToStub'] = x.add_hook

                        def cl(I, e, st, loc, ptr):
                            s = st.copy()
                            s.ghost['closed'] = s.ghost.get('add', frozenset())
                            return [(NULL, s)]
                        x.I.hooks[SS + '::closure'] = cl
                        for _, s in x.run(f, [C(q)] + ([C(mk)] if mk is not None else [])):
                            got = added(s)
                            already = bool(seen & bits[name])
                            if not already:
                                miss = want[name](q) - got
                                ctx.check(nm + ':members', not miss, 'transitions of the place are not added (missing %s)' % sorted(miss), w)
                            fl = load(s, (('h', 'seen'), (('i', C(q)),)))
                            if isnum(fl):
                                fv = int(cval(fl))
                                new = fv & ~seen
                                okf = all((new & b) == 0 or want[k](q) <= got for k, b in bits.items())
                                ctx.check(nm + ':flag', okf and load(s, (('h', 'seen'), (('i', C(1 - q)),))) == C(0), 'a place is marked as covered although its transitions were not added', w)
                            else:
                                ctx.und(nm + ':flag', show(fl)[:60], w)
                            if mk and not already:
                                ctx.check(nm + ':closed', s.ghost.get('closed') == s.ghost.get('add', frozenset()), 'the added transitions are not closed', w)
                    ctx.attempt(nm, go, w)
    f = p.byq.get(SS + '::addToStub', [None])[0]
    for was in (False, True):
        nm = 'addToStub[%s]' % was

        def go():
            x = M(ctx, p, 2, [], pre, post, inh, stub=[None] * 4 + [was] + [None] * 7, unproc=[3])
            for _, s in x.run(f, [C(4)]):
                ctx.check(nm + ':member', load(s, (('h', 'stubborn'), (('i', C(4)),))) == TRUE, 'the transition is not in the set', site(f))
                u = items_of(load(s, sub('_unprocessed')))
                ctx.check(nm + ':queued', C(3) in u and (was or C(4) in u), 'the transition is not queued for closing', site(f))
                for i in range(12):
                    if i != 4:
                        ctx.check(nm + ':others', load(s, (('h', 'stubborn'), (('i', C(i)),))) == T('stubborn', C(i)), 'another transition is changed', site(f))
        ctx.attempt(nm, go, site(f))
    f = p.byq.get(SS + '::postPresetOf', [None])[0]
    for kinds in itertools.product((False, True), repeat=2):
        nm = 'postPresetOf[%s,%s]' % kinds

        def go():
            x = M(ctx, p, 2, [([Arc(0, kinds[0]), Arc(1, kinds[1])], [])], pre, post, inh, seen=[0, 0])
            x.I.hooks[SS + '::addToStub'] = x.add_hook
            for _, s in x.run(f, [C(0), C(False)]):
                got = added(s)
                for q in (0, 1):
                    need = want['presetOf' if kinds[q] else 'postsetOf'](q)
                    ctx.check(nm, need <= got, 'transitions that can disable the given transition are not added (missing %s)' % sorted(need - got), site(f))
        ctx.attempt(nm, go, site(f))


def items_of(v):
    if v[0] != 'seq':
        raise Unsupported('unknown sequence')
    return [x[1] for x in v[1]]


def tables(ctx, p):
    f = p.byq.get(SS + '::constructPrePost', [None])[0]
    if f is None:
        ctx.und('constructPrePost', 'function not found')
        return
    w = site(f)
    A = Arc
    nets = []
    for d0, d1, d2 in itertools.product((-1, 0, 1), repeat=3):
        nets.append((2, [([A(0, False, d0), A(1, True, 0)], [A(0, False, d1), A(1, False, d2)]), ([A(1, False, -1)], [A(0, False, 1)]), ([], [A(1, False, d1)]), ([A(0, False, d2), A(1, False, d0)], [])]))
    nets.append((3, [([A(0, True, 0), A(2, True, 0)], []), ([A(0, True, 0), A(1, False, -1)], [A(2, False, 1)]), ([A(2, False, -1)], [A(0, False, 1), A(1, False, 1)])]))
    nets.append((1, []))
    nets.append((2, [([], [])]))
    for n, (np, trans) in enumerate(nets):
        nm = 'constructPrePost[%d]' % n

        def go():
            x = M(ctx, p, np, trans, [[] for _ in range(np)], [[] for _ in range(np)], [[] for _ in range(np)])
            rs = x.run(f)
            if not rs:
                ctx.und(nm, 'no path', w)
            for _, s in rs:
                pl = load(s, sub('_places'))
                ar = load(s, sub('_arcs'))
                ih = load(s, sub('_inhibpost'))

                def num(v):
                    if not isnum(v):
                        raise Unsupported('table entry ' + show(v)[:50])
                    return int(cval(v))

                def ent(i, fld):
                    return num(load(s, (lambda d: (d[0], d[1] + (('f', fld),)))(x.I.ptr_idx(pl, C(i)))))
                for q in range(np):
                    a, b, c = ent(q, 'pre'), ent(q, 'post'), ent(q + 1, 'pre')

                    def arc(i, fld):
                        d = x.I.ptr_idx(ar, C(i))
                        return num(load(s, (d[0], d[1] + (('f', fld),))))
                    pres = {arc(i, 'index') for i in range(a, b)}
                    posts = {(arc(i, 'index'), (arc(i, 'direction') > 0) - (arc(i, 'direction') < 0)) for i in range(b, c)}
                    inhs = {num(v) for v in items_of(items_of(ih)[q])}
                    wpre = {t for t, (i, o) in enumerate(trans) for y in o if y.place == q and int(cval(y.direction)) > 0}
                    wpost = {(t, int(cval(y.direction))) for t, (i, o) in enumerate(trans) for y in i if y.place == q and not y.inhibitor}
                    winh = {t for t, (i, o) in enumerate(trans) for y in i if y.place == q and y.inhibitor}
                    ctx.check(nm + ':preset', wpre <= pres, 'the producers of a place are not all listed (missing %s)' % sorted(wpre - pres), w)
                    ctx.check(nm + ':postset', wpost <= posts, 'the consumers of a place are not all listed (missing %s)' % sorted(wpost - posts), w)
                    ctx.check(nm + ':inhibitors', winh <= inhs, 'the transitions inhibited by a place are not all listed', w)
                    nt = len(trans)
                    ctx.check(nm + ':valid', all(0 <= t < nt for t in pres | {t for t, _ in posts} | inhs), 'a listed transition does not exist', w)
        ctx.attempt(nm, go, w)
    f = p.byq.get(SS + '::checkForInhibitor', [None])[0]
    if f:
        for n, (np, trans) in enumerate(nets):
            nm = 'checkForInhibitor[%d]' % n

            def go():
                x = M(ctx, p, np, trans, [[] for _ in range(np)], [[] for _ in range(np)], [[] for _ in range(np)], hasinh=False)
                for _, s in x.run(f):
                    has = any(y.inhibitor for i, o in trans for y in i)
                    v = load(s, sub('_netContainsInhibitorArcs'))
                    ctx.check(nm, (v == TRUE or not has) if isconst(v) else None, 'inhibitor arcs of the net are overlooked', site(f))
            ctx.attempt(nm, go, site(f))


def extraction(ctx, p):
    f = p.byq.get(SS + '::next', [None])[0]
    w = site(f)
    for order in ([], [0], [2, 0], [1, 2, 0]):
        nm = 'next%s' % order

        def go():
            x = M(ctx, p, 1, [([], []), ([], []), ([], [])], [[]], [[]], [[]], order=order)
            rs = x.run(f)
            if not rs:
                ctx.und(nm, 'no path', w)
            for r, s in rs:
                rest = [int(cval(v)) for v in items_of(load(s, sub('_ordering')))]
                left = list(order)
                val = int(cval(r)) if isnum(r) else None
                if val is None:
                    ctx.und(nm, show(r)[:60], w)
                    continue
                for i in order:
                    both = consistent_b(s, [(T('stubborn', C(i)), True), (T('enabled', C(i)), True)])
                    if i == val:
                        ctx.check(nm + ':member', not (consistent_b(s, [(T('stubborn', C(i)), False)]) or consistent_b(s, [(T('enabled', C(i)), False)])),
                                  'a transition outside the set (or not enabled) is returned', w)
                        ctx.check(nm + ':once', i not in rest, 'the returned transition stays queued', w)
                    elif i not in rest:
                        ctx.check(nm + ':skip', not both, 'an enabled transition of the set is skipped', w)
                if val not in order:
                    ctx.check(nm + ':end', val == (1 << 32) - 1 and not rest, 'the enumeration ends before all enabled transitions of the set are returned', w)
        ctx.attempt(nm, go, w)
    # reset
    f = p.byq.get(SS + '::reset', [None])[0]
    if f:
        def go(np, nt):
            x = M(ctx, p, np, [([], [])] * nt, [[]] * np, [[]] * np, [[]] * np, order=[1, 0], seen=[3] * np)
            for _, s in x.run(f):
                for i in range(nt):
                    ctx.check('reset:enabled', load(s, (('h', 'enabled'), (('i', C(i)),))) in (FALSE, C(0)), 'enabledness of the previous marking is kept', site(f))
                    ctx.check('reset:stubborn', load(s, (('h', 'stubborn'), (('i', C(i)),))) in (FALSE, C(0)), 'the set of the previous marking is kept', site(f))
                for i in range(np):
                    ctx.check('reset:seen', load(s, (('h', 'seen'), (('i', C(i)),))) in (FALSE, C(0)), 'places seen in the previous marking stay marked as covered', site(f))
                ctx.check('reset:ordering', load(s, sub('_ordering')) == seq([]), 'the queue of the previous marking is kept', site(f))
        ctx.attempt('reset', lambda: go(2, 3), site(f))
        ctx.attempt('reset', lambda: go(3, 2), site(f))
    # prepare
    for cls in (PE + 'ReachabilityStubbornSet',):
        f = p.byq.get(cls + '::prepare', [None])[0]
        if f is None:
            ctx.und('prepare', 'not found')
            continue
        w = site(f)
        for n in (0, 1, 2, 3):
            for nq in (1, 2, 3):
                nm = 'prepare[%d,%d]' % (n, nq)

                def go():
                    x = M(ctx, p, 1, [([], []), ([], []), ([], [])], [[]], [[]], [[]], cls=cls, seen=[7], order=[0, 1])
                    qs = [('p', ('h', 'q%d' % i), ()) for i in range(nq)]
                    for i in range(nq):
                        x.st.store[('h', 'q%d' % i)] = Obj(NS + 'Condition', None, {})
                    save(x.st, sub('_queries'), seq(qs))
                    newp = ('h', 'newparent')
                    x.st.store[newp] = Obj(PE + 'Structures::State', None, {('f', '_marking'): ('p', ('h', 'newmark'), ())})
                    save(x.st, sub('_interesting'), ('p', ('h', 'itv'), ()))
                    x.st.store[('h', 'itv')] = Obj(PE + 'InterestingTransitionVisitor', None, {('f', 'negated'): FALSE})

                    def log(s, *ev):
                        s = s.copy()
                        s.ghost['log'] = s.ghost.get('log', ()) + (ev,)
                        return s

                    def ce(I, e, st, loc, ptr):
                        s = log(st, 'enabled', load(st, sub('_parent')))
                        save(s, sub('_ordering'), seq([C(i) for i in range(n)]))
                        return [(NULL, s)]

                    def cl(I, e, st, loc, ptr):
                        return [(NULL, log(st, 'closure'))]

                    def rs_(I, e, st, loc, ptr):
                        return [(NULL, log(st, 'reset'))]

                    def ev(I, e, st, loc, ptr):
                        return [(T('res'), log(s, 'eval', v)) for v, s in I.eval(e['args'][0], st)]

                    def vs(I, e, st, loc, ptr):
                        out = []
                        for a, s in I.eval(e['args'][1], st):
                            out.append((NULL, log(s, 'visit', a)))
                        return out
                    I = x.I
                    I.hooks[SS + '::constructEnabled'] = ce
                    I.hooks[SS + '::closure'] = cl
                    I.hooks[SS + '::reset'] = rs_
                    I.hooks[NS + 'evaluateAndSet'] = ev
                    I.hooks[VISIT] = vs
                    rs = x.run(f, [('p', newp, ())])
                    if not rs:
                        ctx.und(nm, 'no path', w)
                    for r, s in rs:
                        lg = s.ghost.get('log', ())
                        kinds = [e[0] for e in lg]
                        ctx.check(nm + ':reset', 'reset' in kinds and 'enabled' in kinds and kinds.index('reset') < kinds.index('enabled'), 'the set of the previous marking is not cleared first', w)
                        ctx.check(nm + ':marking', load(s, sub('_parent')) == ('p', newp, ()) and ('enabled', ('p', newp, ())) in lg, 'the set is computed for another marking', w)
                        if n == 0:
                            continue
                        stub = [load(s, (('h', 'stubborn'), (('i', C(i)),))) for i in range(n)]
                        if all(v == TRUE for v in stub):
                            ctx.ok(nm + ':all')
                            ctx.check(nm + ':result', r == TRUE if isconst(r) else None, 'reports that there is nothing to fire', w)
                            continue
                        vis = [e[1] for e in lg if e[0] == 'visit']
                        evs = [e[1] for e in lg if e[0] == 'eval']
                        ctx.check(nm + ':queries', all(q in vis for q in qs), 'a query does not contribute its interesting transitions', w)
                        ok = all(q not in vis or ('eval', q) in lg[:lg.index(('visit', q))] for q in qs)
                        ctx.check(nm + ':evaluated', ok, 'a query is examined with the values of an earlier marking', w)
                        li = max([i for i, e in enumerate(lg) if e[0] == 'visit'], default=-1)
                        ctx.check(nm + ':closed', any(e[0] == 'closure' for e in lg[li + 1:]), 'the set is not closed', w)
                        ctx.check(nm + ':result', r == TRUE if isconst(r) else None, 'reports that there is nothing to fire', w)
                ctx.attempt(nm, go, w)


def consistent_b(s, conds):
    for t, v in conds:
        f = s.facts.get(('b', t))
        if f is not None and f != v:
            return False
    return True


def generator(ctx, p):
    R = PE + 'ReducingSuccessorGenerator'
    G = ('h', 'G')
    for name in ('prepare', 'next'):
        f = p.byq.get(R + '::' + name, [None])[0]
        if f is None:
            ctx.und('ReducingSuccessorGenerator::' + name, 'not found')
            continue
        nm = 'reducing generator:' + name
        w = site(f)

        def go():
            I = Interp(p)
            seqlib.install(I)
            st = State()
            st.store[('h', 'stub')] = Obj(PE + 'ReachabilityStubbornSet', None, {})
            st.store[G] = Obj(R, None, {('f', '_stubSet'): ('p', ('h', 'stub'), ()), ('f', '_current'): C(77), ('f', '_parent'): T('oldparent')})

            def prep(I, e, st, loc, ptr):
                out = []
                for v, s in I.eval(e['args'][0], st):
                    s = s.copy()
                    s.ghost['prep'] = v
                    out.append((I.note(T('some'), 'bool'), s))
                return out

            def nxt(I, e, st, loc, ptr):
                s = st.copy()
                s.ghost['n'] = s.ghost.get('n', 0) + 1
                return [(I.note(T('next', C(s.ghost['n'])), 'unsigned int'), s)]

            def fire(I, e, st, loc, ptr):
                out = []
                for v, s in I.eval(e['args'][1], st):
                    s = s.copy()
                    s.ghost['fire'] = s.ghost.get('fire', ()) + (v,)
                    out.append((NULL, s))
                return out
            for c in (SS, PE + 'ReachabilityStubbornSet'):
                I.hooks[c + '::prepare'] = prep
                I.hooks[c + '::next'] = nxt
                I.hooks[c + '::reset'] = lambda I, e, st, loc, ptr: [(NULL, st)]
            I.hooks[PE + 'SuccessorGenerator::_fire'] = fire
            I.hooks[PE + 'SuccessorGenerator::reset'] = lambda I, e, st, loc, ptr: [(NULL, st)]
            I.hooks[PE + 'SuccessorGenerator::checkPreset'] = lambda I, e, st, loc, ptr: [(TRUE, st)]
            arg = ('p', ('h', 'arg'), ())
            st.store[('h', 'arg')] = Obj(PE + 'Structures::State', None, {})
            rs = I.run(f, ('p', G, ()), [arg], st)
            ctx.note_interp(I, len(rs))
            if not rs:
                ctx.und(nm, 'no path', w)
            for r, s in rs:
                if name == 'prepare':
                    ctx.check(nm + ':marking', load(s, (G, (('f', '_parent'),))) == arg and s.ghost.get('prep') == arg, 'successors are computed for another marking', w)
                    ctx.check(nm + ':result', r == T('some') or r == TRUE or (isconst(r) and s.facts.get(('b', T('some'))) == bool(cval(r))), 'the presence of successors is misreported', w)
                else:
                    n1 = T('next', C(1))
                    end = consistent(I, s, [('==', n1, C((1 << 32) - 1))])
                    fired = s.ghost.get('fire', ())
                    if end:
                        ctx.check(nm + ':end', r == FALSE and not fired, 'a successor is produced after the set is exhausted', w)
                        ctx.check(nm + ':only', not consistent(I, s, [('!=', n1, C((1 << 32) - 1))]), 'the enumeration stops although the set has more transitions', w)
                    else:
                        ctx.check(nm + ':fires', r == TRUE and fired == (n1,), 'the transition taken from the set is not the one fired', w)
                        ctx.check(nm + ':current', load(s, (G, (('f', '_current'),))) == n1, 'the fired transition is misreported', w)
        ctx.attempt(nm, go, w)
