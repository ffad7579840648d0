"""Firing rule on bounded nets: arcs, weights, inhibitors and markings symbolic, independent of how the loops are written."""
import itertools
from ..rule import *
from ..netmodel import *
from ..smallmodel import term, holds, Unk

PN = 'PetriEngine::'
MAX32 = (1 << 32) - 1
SG = PN + 'SuccessorGenerator'
GEN, WR, WM = ('h', 'gen'), ('h', 'write'), ('h', 'wmarking')
F = lambda c, **kw: Obj(c, None, {('f', k): v for k, v in kw.items()})
P = lambda r: ('p', r, ())


def mk(p):
    I = Interp(p)
    seqlib.install(I)
    seqlib.deque_hooks(I)
    I.max_depth = 60
    I.rec = 6
    I.ref_fields = ('_net',)
    I.fresh = True

    def memcpy(I, e, st, loc, ptr):
        out = []
        for (d, s, n), s1 in I.evals(e['args'], st):
            if d[0] != 'p' or s[0] != 'p' or not isnum(n) or cval(n) % 4:
                raise Unsupported('memcpy %s %s %s' % (show(d)[:80], show(s)[:80], show(n)[:80]))
            s1 = s1.copy()
            vs = [load(s1, deref(padd(s, i))) for i in range(int(cval(n)) // 4)]
            for i, v in enumerate(vs):
                save(s1, deref(padd(d, i)), v)
            out.append((d, s1))
        return out
    I.hooks['memcpy'] = I.hooks['std::memcpy'] = I.hooks['memmove'] = memcpy
    return I


def padd(ptr, i):
    r, q = deref(ptr)
    if q and q[-1][0] == 'i':
        return ('p', r, q[:-1] + (('i', add(q[-1][1], C(i))),))
    return ('p', r, q + (('i', C(i)),))


class Net:
    def __init__(self, I, nplaces, trans, ptrs=None):
        self.st = State()
        self.n, self.trans = nplaces, trans
        self.m = lay_net(I, self.st, nplaces, trans, ptrs)
        self.ctl = [T('ctl', C(i)) for i in range(len(trans))]
        for c in self.ctl:
            I.note(c, 'bool')
        net = self.st.store[NETL]
        flds = dict(net.fields)
        flds[('f', '_controllable')] = seq(self.ctl)
        net = Obj(net.cls, None, flds)
        self.st.store[NETL] = net
        self.w = [I.note(T('w', C(i)), 'unsigned int') for i in range(nplaces)]
        self.st.store[WM] = seq(self.w)
        self.st.store[WR] = F(PN + 'Structures::State', _marking=P(WM))

    def gen(self, cls=SG, **kw):
        d = dict(_net=('rf', (NETL, ())), _parent=P(PARENT), _suc_pcounter=C(0), _suc_tcounter=C(MAX32))
        d.update(kw)
        self.st.store[GEN] = F(cls, **d)

    def envs(self, mvals, wvals, only=None, cap=6000, ctl=False):
        """assignments of marking and weights; only: transitions whose weights vary (others 1)"""
        arcs = [(t, a) for t, (i, o) in enumerate(self.trans) for a in i + o]
        var = [a for t, a in arcs if only is None or t in only]
        dims = [mvals] * self.n + [wvals] * len(var) + ([(False, True)] * len(self.ctl) if ctl else [])
        tot = 1
        for d in dims:
            tot *= len(d)
        if tot <= cap:
            it = itertools.product(*dims)
        else:
            import random
            r = random.Random(7)
            it = (tuple(r.choice(d) for d in dims) for _ in range(cap))
        for x in it:
            env = {w: 7 + i for i, w in enumerate(self.w)}
            for _, a in arcs:
                env[a.tokens] = 1
            for i, m in enumerate(self.m):
                env[m] = x[i]
            for i, a in enumerate(var):
                env[a.tokens] = x[self.n + i]
            if ctl:
                for i, c in enumerate(self.ctl):
                    env[c] = x[self.n + len(var) + i]
            yield env

    def enabled(self, t, env):
        for a in self.trans[t][0]:
            if (env[self.m[a.place]] >= env[a.tokens]) == bool(a.inhibitor):
                return False
        return True

    def fire(self, t, env, consume=True, produce=True, base=None):
        m = [env[x] for x in (base or self.m)]
        if consume:
            for a in self.trans[t][0]:
                if not a.inhibitor:
                    m[a.place] -= env[a.tokens]
        if produce:
            for a in self.trans[t][1]:
                m[a.place] += env[a.tokens]
        return m


class Over(Exception):
    pass


def matching(I, rs, env):
    """results (value, state) of the paths this assignment takes; None if a path condition is not understood"""
    out = []
    for v, s in rs:
        h = holds(s.facts, env)
        if h is None:
            raise Unk('path condition ' + facts_str(s)[:100])
        if h:
            out.append((v, s))
    return out


def shapes(maxn=3):
    """input arc lists of the middle transition"""
    out = []
    for n in range(maxn + 1):
        for inh in itertools.product((False, True), repeat=n):
            out.append([(i, b) for i, b in enumerate(inh)])
    out += [[(0, False), (0, True)], [(0, True), (0, False)], [(1, False), (0, True), (1, True)]]
    for n in (5, 9):
        out.append([(i % 3, bool((i * 7 // 3) % 2)) for i in range(n)])
        out.append([(i % 3, False) for i in range(n - 1)] + [(2, True)])
        out.append([(i % 3, i == n - 1) for i in range(n)])
    return out


def build(I, ins, outs, inh_out=False):
    tr = [([Arc(0), Arc(1, True)], [Arc(2), Arc(0)]), ([Arc(i, b) for i, b in ins], [Arc(i) for i in outs]), ([Arc(2), Arc(0, True)], [Arc(1)])]
    return Net(I, 3, tr)


def describe(net, env, t=None):
    s = 'marking %s' % [env[m] for m in net.m]
    if t is not None:
        s += ', inputs %s outputs %s' % ([('inh ' if a.inhibitor else '') + 'p%d:%d' % (a.place, env[a.tokens]) for a in net.trans[t][0]], ['p%d:%d' % (a.place, env[a.tokens]) for a in net.trans[t][1]])
    return s


def enabledness(ctx, p, q, args, cls):
    f = p.fn(q)
    where = site(f)
    nm = 'bounded:' + q.replace(PN, '')
    for ins in shapes():
        def go():
            I = mk(p)
            net = build(I, ins, [0, 2])
            net.gen(cls)
            rs = I.run(f, P(NETL) if cls.endswith('PetriNet') else P(GEN), args, net.st)
            ctx.note_interp(I, len(rs))
            name = '%s/%s' % (nm, ''.join(('i' if b else 'n') + str(i) for i, b in ins) or '-')
            small = len(ins) <= 3
            for env in net.envs((0, 1, 2) if small else (0, 1, 2), (1, 2), only=(1,), cap=4000 if small else 1500):
                got = matching(I, rs, env)
                want = net.enabled(1, env)
                if not got:
                    ctx.check(name, False if (I.thrown or I.aborted) else None, 'no answer for ' + describe(net, env, 1), where)
                    return
                for v, s in got:
                    try:
                        b = bool(term(v, env))
                    except Unk:
                        ctx.und(name, show(v)[:80], where)
                        return
                    if b != want:
                        ctx.bad(name, 'reports %s for %s' % ('enabled' if b else 'disabled', describe(net, env, 1)), where)
                        return
            ctx.ok(name, '', where)
        ctx.attempt(nm, go, where)


def update(ctx, p, q, consume, produce):
    f = p.fn(q)
    where = site(f)
    nm = 'bounded:' + q.replace(PN, '')
    lists = shapes() if consume else [[]]
    outss = [[], [0], [1, 2], [2, 0, 1], [1, 1], [i % 3 for i in range(6)]] if produce else [[0, 2]]
    for ins, outs in itertools.product(lists, outss):
        if consume and produce and (len(ins) > 2 and len(outs) > 2):
            continue

        def go():
            I = mk(p)
            net = build(I, ins, outs)
            net.gen()
            whole = consume and produce
            rs = I.run(f, P(GEN), [('L', (WR, ())), C(1)], net.st)
            ctx.note_interp(I, len(rs))
            name = '%s/%s/%s' % (nm, ''.join(('i' if b else 'n') + str(i) for i, b in ins), outs)
            base = net.m if whole else net.w
            extra = [([], None)]
            # assignments: the marking that is written to
            vals = (0, 1, 5, MAX32 - 2, MAX32 - 1, MAX32) if produce else (0, 1, 5, MAX32)
            wv = (1, 2, MAX32) if produce else (1, 2)
            for env in net.envs(vals, wv, only=(1,), cap=1200):
                if not whole:
                    for i in range(3):
                        env[net.w[i]] = env[net.m[i]]
                        env[net.m[i]] = 3
                if whole and not net.enabled(1, env):
                    continue
                after = net.fire(1, env, consume, False, base)
                if min(after) < 0:
                    continue
                want = net.fire(1, env, consume, produce, base)
                got = matching(I, rs, env)
                thr = [s for s in I.thrown if holds(s.facts, env)]
                ab = [s for s in I.aborted if holds(s.facts, env)]
                if max(want) > MAX32:
                    if got or not thr:
                        ctx.check(name, False if got or ab else None, 'a token count of %d is not refused (%s)' % (max(want), describe(net, env, 1)), where)
                        return
                    continue
                if max(want) == MAX32 and thr and produce and outs:
                    continue
                if not got:
                    ctx.check(name, False if (thr or ab) else None, 'firing fails for %s' % describe(net, env, 1), where)
                    return
                for v, s in got:
                    try:
                        res = [term(load(s, (WM, (('i', C(i)),))), env) for i in range(3)]
                    except Unk as u:
                        ctx.und(name, 'written value %s' % u, where)
                        return
                    if res != want:
                        ctx.bad(name, 'writes %s instead of %s for %s' % (res, want, describe(net, env, 1)), where)
                        return
                    keep = [term(load(s, (MARK, (('i', C(i)),))), env) for i in range(3)]
                    if keep != [env[m] for m in net.m]:
                        ctx.bad(name, 'changes the parent marking', where)
                        return
            ctx.ok(name, '', where)
        ctx.attempt(nm, go, where)


NETS = [
    # (places, transitions (inputs, outputs), ptrs)
    (3, [([], [0]), ([(0, 0)], [1]), ([(1, 0), (2, 0)], [0]), ([(2, 0), (0, 1)], [])], [0, 2, 3, 4]),
    (2, [([(1, 1)], [1]), ([(0, 0), (1, 0)], [1]), ([(0, 0)], [0, 0]), ([(1, 0), (0, 1)], [0])], [0, 3, 4]),
    (3, [([(2, 0), (1, 1)], [0])], [0, 0, 0, 1]),
    (3, [([(1, 0)], [2]), ([(1, 0)], [0])], [0, 0, 2, 2]),
    (1, [], [0, 0]),
    (1, [([], [0]), ([(0, 0)], []), ([(0, 0), (0, 1)], [])], [0, 3]),
    (4, [([(3, 0)], [0]), ([(3, 0), (0, 0)], [1])], [0, 0, 0, 0, 2]),
]


def nets(I):
    for n, tr, ptrs in NETS:
        yield Net(I, n, [([Arc(i, bool(b)) for i, b in ins], [Arc(o) for o in outs]) for ins, outs in tr], ptrs)


def enumerate_(ctx, p, cls, fname, player, k):
    nm = 'bounded:' + fname
    fs = [f for f in p.method(cls, fname)]
    prep = [f for f in p.method(cls, 'prepare') if f['params'] and '*' in f['params'][0].get('t', '')] or p.method(cls, 'prepare')
    where = site(fs[0]) if fs else ''

    def go():
        I = mk(p)
        net = list(nets(I))[k]
        net.gen(cls, **({'_last_mode': T('lastmode')} if player is not None else {}))
        name = '%s/net%d' % (nm, k)
        pargs = [P(PARENT)] + [C(0), C(MAX32)][:max(0, len(prep[0]['params']) - 1)]
        sts = [s for _, s in I.run(prep[0], P(GEN), pargs, net.st)]
        nt = len(net.trans)
        if not sts:
            ctx.und(name, 'prepare has no path', where)
            return
        # paths: (state, fired list, done)
        live, done, crash = [(s, ()) for s in sts], [], []
        for _ in range(nt + 2):
            nxt = []
            for s, fired in live:
                rs = I.run(fs[0], P(GEN), [('L', (WR, ()))], s)
                crash += [(x, fired) for x in I.thrown + I.aborted]
                for v, s1 in rs:
                    for tv, s2 in I.truth(s1, v):
                        if tv:
                            fi = [load_term(x, y) for x, y in I.run(p.fn(SG + '::fired'), P(GEN), [], s2)]
                            wm = tuple(load(s2, (WM, (('i', C(i)),))) for i in range(net.n))
                            nxt.append((s2, fired + ((fi[0] if len(fi) == 1 else None, wm),)))
                        else:
                            done.append((s2, fired))
            live = nxt
            if not live:
                break
        ctx.note_interp(I, len(done))
        over = live
        for env in net.envs((0, 1, 2), (1, 2), cap=500, ctl=player is not None):
            want = {t for t in range(nt) if net.enabled(t, env) and (player is None or env[net.ctl[t]] == player)}
            hit = False
            for s, fired in done + over:
                h = holds(s.facts, env, free=('lastmode',))
                if h is None:
                    raise Unk('path condition ' + facts_str(s)[:100])
                if not h:
                    continue
                hit = True
                ts = []
                for ft, wm in fired:
                    if ft is None or not isnum(ft):
                        raise Unk('fired ' + str(ft))
                    ts.append(int(cval(ft)))
                if sorted(ts) != sorted(want) or (s, fired) in over:
                    ctx.bad(name, 'produces transitions %s, enabled are %s (%s)' % (ts, sorted(want), describe(net, env)), where)
                    return
                for t, (_, wm) in zip(ts, fired):
                    res = [term(x, env) for x in wm]
                    if res != net.fire(t, env):
                        ctx.bad(name, 'successor by transition %d is %s instead of %s (%s)' % (t, res, net.fire(t, env), describe(net, env, t)), where)
                        return
            if not hit:
                ctx.check(name, False if any(holds(s.facts, env, free=('lastmode',)) for s, _ in crash) else None, 'no result for ' + describe(net, env), where)
                return
        ctx.ok(name, '', where)
    ctx.attempt(nm, go, where)


def load_term(v, s):
    return v


def deadlocks(ctx, p, k):
    f = p.fn(PN + 'PetriNet::deadlocked')
    where = site(f)
    nm = 'bounded:deadlocked'

    def go():
        I = mk(p)
        net = list(nets(I))[k]
        rs = I.run(f, P(NETL), [P(MARK)], net.st)
        ctx.note_interp(I, len(rs))
        name = '%s/net%d' % (nm, k)
        for env in net.envs((0, 1, 2), (1, 2), cap=1500):
            want = not any(net.enabled(t, env) for t in range(len(net.trans)))
            got = matching(I, rs, env)
            if not got:
                ctx.check(name, False if (I.thrown or I.aborted) else None, 'no answer for ' + describe(net, env), where)
                return
            for v, s in got:
                if bool(term(v, env)) != want:
                    ctx.bad(name, 'reports %s although %s (%s)' % ('a deadlock' if not want else 'no deadlock', 'a transition is enabled' if not want else 'no transition is enabled', describe(net, env)), where)
                    return
        ctx.ok(name, '', where)
    ctx.attempt(nm, go, where)


def lookups(ctx, p):
    for q, side in (('inArc', 0), ('outArc', 1)):
        for f in p.byq.get(PN + 'PetriNet::' + q, []):
            where = site(f)
            for ins in shapes():
                if len({i for i, _ in ins}) != len(ins):
                    continue

                def go():
                    I = mk(p)
                    outs = [i for i, _ in ins] if side else [0, 2]
                    net = build(I, ins if not side else [(1, False)], outs)
                    for pl in range(3):
                        rs = I.run(f, P(NETL), [C(pl), C(1)] if side == 0 else [C(1), C(pl)], net.st)
                        ctx.note_interp(I, len(rs))
                        name = 'bounded:%s/%s/p%d' % (q, ''.join(('i' if b else 'n') + str(i) for i, b in ins), pl)
                        arcs = [a for a in net.trans[1][side] if a.place == pl and not a.inhibitor]
                        good = None
                        for v, s in rs:
                            good = True
                            if v != (arcs[0].tokens if arcs else C(0)):
                                good = False
                                ctx.bad(name, 'reports weight %s' % show(v)[:60], where)
                                break
                        if good is not False:
                            ctx.check(name, good, 'no path', where)
                ctx.attempt('bounded:' + q, go, where)


def stub_enabled(ctx, p, k):
    for f in p.byq.get(PN + 'StubbornSet::constructEnabled', []):
        where = site(f)
        nm = 'bounded:constructEnabled'

        def go():
            I = mk(p)
            net = list(nets(I))[k]
            nt = len(net.trans)
            en = ('h', 'enabled')
            net.st.store[en] = seq([C(False)] * nt)
            SET = ('h', 'S')
            net.st.store[SET] = F(PN + 'ReachabilityStubbornSet', _net=('rf', (NETL, ())), _parent=P(PARENT), _enabled=P(en), _ordering=seq([]), _nenabled=C(0), _stubborn=P(('h', 'stub')))
            net.st.store[('h', 'stub')] = seq([C(False)] * nt)
            I.hooks['memset'] = lambda I, e, st, loc, ptr: [(NULL, s) for v, s in I.evals(e['args'], st)]
            calls = 'called'
            rs = I.run(f, P(SET), [NULL] if f['params'] else [], net.st)
            ctx.note_interp(I, len(rs))
            name = '%s/net%d' % (nm, k)
            for env in net.envs((0, 1, 2), (1, 2), cap=800):
                got = matching(I, rs, env)
                if not got:
                    ctx.und(name, 'no path', where)
                    return
                for v, s in got:
                    fl = [bool(term(load(s, (en, (('i', C(t)),))), env)) for t in range(nt)]
                    want = [net.enabled(t, env) for t in range(nt)]
                    if fl != want:
                        ctx.bad(name, 'records %s as enabled, enabled are %s (%s)' % (fl, want, describe(net, env)), where)
                        return
            ctx.ok(name, '', where)
        if f['params'] and 'nullptr' not in str(f['params'][0].get('t', '')):
            continue
        ctx.attempt(nm, go, where)


def run(ctx, p):
    jobs = [('en', SG + '::checkPreset', [C(1)], SG), ('en', PN + 'StubbornSet::checkPreset', [C(1)], PN + 'StubbornSet'), ('en', PN + 'PetriNet::fireable', [P(MARK), C(1)], PN + 'PetriNet'),
            ('up', SG + '::consumePreset', True, False), ('up', SG + '::producePostset', False, True), ('up', SG + '::_fire', True, True), ('look',)]
    g = PN + 'Synthesis::GameSuccessorGenerator'
    for k in range(len(NETS)):
        jobs += [('next', SG, 'next', None, k), ('next', g, 'next_ctrl', True, k), ('next', g, 'next_env', False, k), ('dead', k), ('stub', k)]

    def one(j):
        {'en': enabledness, 'up': update, 'look': lookups, 'next': enumerate_, 'dead': deadlocks, 'stub': stub_enabled}[j[0]](ctx, p, *j[1:])
    ctx.parallel(jobs, one)


GROUPS = {'SuccessorGenerator::checkPreset': ['SuccessorGenerator::checkPreset'], 'StubbornSet::checkPreset': ['StubbornSet::checkPreset'], 'PetriNet::fireable': ['PetriNet::fireable'],
          'SuccessorGenerator::consumePreset': ['SuccessorGenerator::consumePreset'], 'SuccessorGenerator::producePostset': ['SuccessorGenerator::producePostset'],
          '_fire': ['SuccessorGenerator::_fire'], '_next': ['next', 'next_ctrl', 'next_env'], 'next_ctrl': ['next_ctrl'], 'next_env': ['next_env'], 'fired': ['next'],
          'deadlocked': ['deadlocked'], 'inArc': ['inArc'], 'outArc': ['outArc'], 'constructEnabled': ['constructEnabled']}


def settled(obls):
    """groups whose bounded analysis is complete and without objection"""
    st = {}
    for name, status, _, _ in obls:
        if name.startswith('bounded:'):
            g = name[8:].split('/')[0]
            st[g] = st.get(g, True) and status == 'ok'
    return {k for k, v in GROUPS.items() if all(st.get(g) for g in v)}
