"""C06: classification of queries (the tests that gate algorithms and reductions) and extraction of reachability predicates."""
from ..trees import *

LEVEL = 'other'
MIN_OBLIGATIONS = 300
EXPLANATION = ('Inductive analysis of every classification visitor: the visitor is abstracted to its context (its fields besides the verdict); starting from the '
               'context the entry function creates, every condition class over opaque sub-formulas is interpreted in every reachable context, each sub-formula '
               'answering both ways; the verdict on every path is compared with the definition of the predicate, and the contexts in which sub-formulas are '
               'visited (and siblings follow) are propagated until no new (context, required context) pair appears. Dispatch on the node type is interpreted, not assumed.')
TUS = ['src/PetriEngine/PQL/PredicateCheckers.cpp', 'src/PetriEngine/PQL/PrepareForReachability.cpp', 'src/PetriEngine/PQL/PlaceUseVisitor.cpp']
T3, F3, U3 = True, False, None


def k_or(xs):
    r = False
    for x in xs:
        if x is True:
            return True
        if x is None:
            r = None
    return r


def k_not(x):
    return None if x is None else not x


# --- definitions: spec(node, ctx, v) -> (lower, upper); v(child, ctx) -> three-valued -------------------------------

def both(x):
    return x, x


def walk(node, ctx, v):
    return both(k_or([v(k, ctx) for k in node.kids if not (isinstance(k, Leaf) and k.expr)]))


def s_temporal(n, ctx, v):
    if n.cls in UNARY or n.cls in BINARY or n.cls in PATHQ:
        return both(True)
    if n.tag == ':uncompiled' and n.cls in ('LivenessCondition', 'KSafeCondition', 'QuasiLivenessCondition', 'StableMarkingCondition'):
        return False, True
    return walk(n, ctx, v)


def s_contains(*target, loose=()):
    def s(n, ctx, v):
        if n.cls in target:
            return both(True)
        w = walk(n, ctx, v)
        if n.cls in loose:
            return w[0], True
        return w
    return s


def s_nested_dl(n, ctx, v):
    if n.cls == 'DeadlockCondition':
        return both(ctx)
    if n.cls in LOGICAL:
        return walk(n, True, v)
    return walk(n, ctx, v)


def s_notreach(n, ctx, v):
    """ctx: inside the quantifier"""
    if n.cls in ('EFCondition', 'AGCondition'):
        return both(True) if ctx else both(v(n.kids[0], True))
    if n.cls in ('ECondition', 'ACondition'):
        want = 'FCondition' if n.cls == 'ECondition' else 'GCondition'
        if ctx or n.kids[0].cls != want:
            return both(True)
        return both(v(n.kids[0].kids[0], True))
    if n.cls in UNARY or n.cls in BINARY or n.cls in PATHQ or n.cls == 'PathSelectCondition':
        return both(True)
    if n.cls in LOGICAL:
        return walk(n, ctx, v) if ctx else both(True)
    if n.cls == 'NotCondition':
        return both(v(n.kids[0], ctx))
    if n.cls in ('LivenessCondition', 'QuasiLivenessCondition', 'StableMarkingCondition', 'KSafeCondition'):
        if n.kids:
            return both(v(n.kids[0], ctx))
        return both(ctx) if n.cls == 'KSafeCondition' else both(True)
    if n.cls in SHALLOW and ctx and n.kids:
        return False, v(n.kids[0], ctx)
    return both(not ctx)


def s_loop(n, ctx, v):
    """ctx: odd number of negations (an A at the top negates, too)"""
    if n.cls in ('ECondition', 'GCondition', 'FCondition', 'XCondition', 'EXCondition', 'EGCondition', 'AXCondition', 'AFCondition',
                 'AUCondition', 'DeadlockCondition') or n.cls in PATHQ:
        return both(True)
    if n.cls in ('LivenessCondition', 'StableMarkingCondition') and not n.kids:
        return both(True)
    if n.cls in ('ACondition', 'NotCondition'):
        return both(v(n.kids[0], not ctx))
    if n.cls in ('UntilCondition', 'EUCondition') and ctx and n.cls == 'UntilCondition':
        return both(True)
    if n.cls == 'EUCondition' and ctx:
        w = walk(n, ctx, v)
        return w[0], True
    return walk(n, ctx, v)


PREDS = [
    # entry function, visitor, definition, initial context, the verdict is negated
    ('isTemporal', 'IsTemporalVisitor', s_temporal, None, False, 'a path quantifier or temporal operator occurs'),
    ('isReachability', 'IsNotReachabilityVisitor', s_notreach, False, True, 'one EF/AG (E F / A G) over a state formula, possibly negated'),
    ('isLoopSensitive', 'IsLoopSensitiveVisitor', s_loop, False, False, 'an operator whose truth depends on idling occurs'),
    ('containsNext', 'ContainsNextVisitor', s_contains('XCondition', 'EXCondition', 'AXCondition', loose=PATHQ), None, False, 'a next operator occurs'),
    ('containsUpperBounds', 'ContainsUpperBoundsVisitor', s_contains('UpperBoundsCondition', 'UnfoldedUpperBoundsCondition'), None, False, 'an upper-bounds query occurs'),
    ('containsDeadlock', 'ContainsDeadlockVisitor', s_contains('DeadlockCondition'), None, False, 'a deadlock proposition occurs'),
    ('hasNestedDeadlock', 'NestedDeadlockVisitor', s_nested_dl, False, False, 'a deadlock proposition occurs below a conjunction/disjunction'),
    (None, 'ContainsFireabilityVisitor', s_contains('FireableCondition', 'UnfoldedFireableCondition'), None, False, 'a fireability proposition occurs'),
]
VIS = ('h', 'vis')


class Runner:
    def __init__(self, ctx, p, vis, spec):
        self.ctx, self.p, self.vis, self.spec = ctx, p, NS + vis, spec
        self.F = Fields(p)
        self.nleaf = 0
        self.found = getter_field(p, self.vis, 'getReturnValue')
        self.outs = {}        # context -> contexts it may be left in by a sub-formula

    def fresh(self, expr=False):
        self.nleaf += 1
        return Leaf(self.nleaf, expr)

    def sigma(self, st, loc):
        o = load(st, loc)
        if not isinstance(o, Obj):
            raise Unsupported('visitor object')
        o = set_step(o, self.found[0], C(False))
        return o

    def interp(self, lay):
        I = Interp(self.p)
        seqlib.install(I)
        I.rec = 8
        I.max_depth = 90

        def hook(I, e, st, loc, ptr):
            out = []
            for vl, c, s in visit_child(I, e, st):
                if c not in lay.ptr or not isinstance(lay.ptr[c], Leaf):
                    return None
                leaf = lay.ptr[c]
                if leaf.expr:
                    out.append((NULL, s))
                    continue
                sg = self.sigma(s, vl)
                f0 = load(s, (vl[0], vl[1] + self.found))
                for so in self.outs.get(sg, ()) or [sg]:
                    if so is sg and sg not in self.outs:
                        pass
                    for r in (False, True):
                        s2 = s.copy()
                        ch = dict(s2.ghost.get('choice', ()))
                        if ch.get((leaf.i, sg), r) != r:
                            continue
                        ch[(leaf.i, sg)] = r
                        s2.ghost['choice'] = tuple(sorted(ch.items(), key=lambda kv: (kv[0][0], repr(kv[0][1]))))
                        save(s2, vl, so)
                        save(s2, (vl[0], vl[1] + self.found), C(True) if r else f0)
                        out.append((NULL, s2))
            return out
        I.hooks[VISIT] = hook

        def unwrap(v):
            return v[1][1] if v[0] == 'p' and v[1][0] == 'd' and not v[2] else v

        def dyn(I, v, t, st):
            v = unwrap(v)
            if v in lay.ptr and isinstance(lay.ptr[v], Leaf):
                if t in (NS + 'Condition', NS + 'Expr'):
                    return [(v, st)]
                raise Refine(lay.ptr[v])
            return None
        I.dyn_hook = dyn

        def vf(e, st, ptr):
            v = unwrap(ptr)
            if v in lay.ptr and isinstance(lay.ptr[v], Leaf):
                raise Refine(lay.ptr[v])
            return None
        I.virt_fallback = vf
        return I

    def entry(self, fn):
        """context created by the entry function, and how it maps the verdict"""
        if fn is None:
            I = Interp(self.p)
            st = State()
            st.store[VIS] = Obj(self.vis, None, {})
            I.default_fields(self.vis, st, (VIS, ()))
            return self.sigma(st, (VIS, ())), None
        fs = [f for f in self.p.byq.get(NS + fn, []) if f.get('body')]
        if not fs:
            raise AnchorError('entry function vanished: ' + fn)
        sig, maps = None, set()
        for f in fs:
            lay = Lay(self.p, self.F)
            leaf = self.fresh()
            lay.ptr[leaf.term] = leaf
            I = self.interp(lay)
            rs = I.run(f, None, [leaf.term])
            for v, s in rs:
                ch = s.ghost.get('choice', ())
                if len(ch) != 1 or not isconst(v):
                    raise Unsupported('entry function %s' % fn)
                ((_, sg), r), = ch
                sig = sg if sig is None else sig
                if sg != sig:
                    raise Unsupported('entry functions disagree')
                maps.add((r, bool(cval(v))))
            self.ctx.note_interp(I, len(rs))
        return sig, maps

    def run_shape(self, sg, node):
        """-> [(found, {(leaf, ctx): bool}, out context, contexts of visits)] ; refines opaque children on demand"""
        key = accept_fn(self.p, self.vis, NS + node.cls)
        if key is None or key not in self.p.fns:
            raise AnchorError('no _accept for ' + node.cls)
        f = self.p.fns[key]
        lay = Lay(self.p, self.F)
        st = State()
        ptr = lay.put(st, node)
        st.store[VIS] = sg
        I = self.interp(lay)
        try:
            rs = I.run(f, ('p', VIS, ()), [ptr], st)
        except Refine as r:
            out = []
            for c in CONDS:
                for sh in shapes(c, self.fresh, 1):
                    out += self.run_shape(sg, replace(node, r.leaf, sh))
            return out
        self.ctx.note_interp(I, len(rs))
        out = []
        for _, s in rs:
            fv = load(s, (VIS, self.found))
            if not isconst(fv):
                raise Unsupported('verdict ' + show(fv)[:60])
            out.append((node, bool(cval(fv)), dict(s.ghost.get('choice', ())), self.sigma(s, (VIS, ())), f))
        return out


def nice(o, found):
    return {k[1]: show(v) for k, v in o.fields.items() if k != found[0]} if isinstance(o, Obj) else str(o)


def predicate(ctx, p, job):
    fn, vis, spec, ctx0, negd, meaning = job
    name = fn or vis
    R = Runner(ctx, p, vis, spec)
    sg0, maps = R.entry(fn)
    if maps is not None:
        want = {(False, negd), (True, not negd)}
        ctx.check(name + ':entry', maps == want, 'the entry function maps the verdict of the visitor the wrong way round: %s' % sorted(maps))
    R.outs = {}
    pairs = [(sg0, ctx0)]
    chain = {(sg0, ctx0): ''}
    bad_done = set()
    rounds = 0
    while True:
        rounds += 1
        changed = False
        todo = list(pairs)
        results = {}
        i = 0
        while i < len(todo):
            sg, cx = todo[i]
            i += 1
            if len(todo) > 24:
                raise Limit('too many contexts')
            for c in CONDS:
                for sh in shapes(c, R.fresh):
                    nm = '%s:%r%s' % (name, sh if not sh.kids else sh.cls.replace('Condition', '') + '/%d' % len(sh.kids), '' if cx is None else '@%s' % cx)
                    try:
                        rs = R.run_shape(sg, sh)
                    except (Limit, Unsupported, AnchorError) as ex:
                        results.setdefault(nm, []).append(('und', str(ex), None))
                        continue
                    if not rs:
                        results.setdefault(nm, []).append(('ok', 'rejects (throws)', None))
                    for node, found, ch, so, f in rs:
                        # which contexts does the definition ask the children to be judged in
                        asked = {}

                        def v(k, c2, pick=None):
                            if not isinstance(k, Leaf):
                                return R.spec(k, c2, v)[0]
                            asked.setdefault(k.i, set()).add(c2)
                            rv = [r for (l, s2), r in ch.items() if l == k.i]
                            return rv[0] if len(rv) == 1 else (None if not rv else None)
                        lo, hi = R.spec(node, cx, v)
                        st = 'ok'
                        d = ''
                        if found and hi is False or (found and hi is None):
                            st, d = 'bad', 'answers "%s" although it does not follow' % meaning
                        elif not found and (lo is True or lo is None):
                            st, d = 'bad', 'misses "%s"' % meaning if lo else 'answers without examining every sub-formula'
                        ex = chain[(sg, cx)]
                        results.setdefault(nm, []).append((st, '%s for %s%s [sub-formulas: %s]' % (
                            d, node, (' met in context ' + ex) if ex else '', ','.join('?%d=%s' % (k[0], r) for k, r in ch.items())) if d else '', f))
                        for (l, s2), r in ch.items():
                            for c2 in asked.get(l, ()):
                                if (s2, c2) not in chain:
                                    chain[(s2, c2)] = ('%s > ' % ex if ex else '') + repr(node)
                                    pairs.append((s2, c2))
                                    todo.append((s2, c2))
                        if not found and so not in R.outs.setdefault(sg, {sg}):
                            R.outs[sg].add(so)
                            changed = True
                            if (so, cx) not in chain:
                                chain[(so, cx)] = ('%s > ' % ex if ex else '') + 'after ' + repr(node)
                                pairs.append((so, cx))
                                todo.append((so, cx))
        if not changed or rounds > 6:
            break
    for nm, rs in results.items():
        bad = [r for r in rs if r[0] == 'bad']
        und = [r for r in rs if r[0] == 'und']
        f = next((r[2] for r in rs if r[2]), None)
        if bad:
            ctx.bad(nm, bad[0][1], site(bad[0][2]))
        elif und:
            ctx.und(nm, und[0][1], site(f) if f else '')
        else:
            ctx.ok(nm, '', site(f) if f else '')
    # once found, always found
    for c in CONDS:
        for sh in shapes(c, R.fresh, 2):
            nm = '%s:sticky:%s' % (name, sh.cls)

            def go():
                sg = set_step(sg0, R.found[0], C(True))
                rs = R.run_shape(sg, sh)
                okk = all(r[1] for r in rs)
                ctx.check(nm, okk, 'a positive verdict reached earlier is taken back', site(rs[0][4]) if rs else '')
            ctx.attempt(nm, go)


REACHV = 'PrepareForReachabilityVisitor'


def prepare(ctx, p):
    """prepareForReachability: the predicate searched for and whether the query is its negation"""
    F = Fields(p)
    cnt = [0]

    def fresh(expr=False):
        cnt[0] += 1
        return Leaf(cnt[0], expr)
    vis = NS + REACHV
    inv = getter_field(p, NS + 'Condition', 'isInvariant')
    ret = getter_field(p, vis, 'getReturnValue')

    def interp(lay, ctxs):
        I = Interp(p)
        seqlib.install(I)
        I.rec = 8
        I.max_depth = 90

        def hook(I, e, st, loc, ptr):
            out = []
            for vl, c, s in visit_child(I, e, st):
                if c not in lay.ptr or not isinstance(lay.ptr[c], Leaf):
                    return None
                o = set_step(load(s, vl), ret[0], NULL)
                if o not in ctxs:
                    ctxs.append(o)
                s2 = s.copy()
                save(s2, (vl[0], vl[1] + ret), T('prep', c, ctxs.index(o)))
                out.append((NULL, s2))
            return out
        I.hooks[VISIT] = hook

        def unwrap(v):
            return v[1][1] if v[0] == 'p' and v[1][0] == 'd' and not v[2] else v

        def dyn(I, v, t, st):
            v = unwrap(v)
            if v in lay.ptr and isinstance(lay.ptr[v], Leaf):
                if t in (NS + 'Condition', NS + 'Expr'):
                    return [(v, st)]
                raise Refine(lay.ptr[v])
        I.dyn_hook = dyn

        def vf(e, st, ptr):
            v = unwrap(ptr)
            if v in lay.ptr and isinstance(lay.ptr[v], Leaf):
                raise Refine(lay.ptr[v])
        I.virt_fallback = vf
        return I
    ctxs = []
    for f in [f for f in p.byq.get(NS + 'prepareForReachability', []) if f.get('body')]:
        lay = Lay(p, F)
        leaf = fresh()
        st = State()
        lay.put(st, leaf)
        I = interp(lay, ctxs)
        for v, s in I.run(f, None, [leaf.term], st):
            ctx.check('prepare:entry', v == T('prep', leaf.term, 0), 'the entry function does not return the visitor\'s result: ' + show(v)[:80], site(f))
        ctx.note_interp(I)
    if not ctxs:
        raise AnchorError('prepareForReachability creates no visitor')
    pols = {0: False}
    todo = [0]
    while todo:
        ci = todo.pop(0)
        if len(pols) > 8:
            raise Limit('contexts')
        negd = pols[ci]

        def judge(node, f):
            nm = 'prepare:%r@%s' % (node.cls, negd)
            lay = Lay(p, F)
            st = State()
            ptr = lay.put(st, node)
            st.store[VIS] = ctxs[ci]
            I = interp(lay, ctxs)
            try:
                rs = I.run(f, ('p', VIS, ()), [ptr], st)
            except Refine as r:
                for c in CONDS:
                    for sh in shapes(c, fresh, 1):
                        judge(replace(node, r.leaf, sh), f)
                return
            ctx.note_interp(I, len(rs))
            inner, kind = None, None
            if node.cls == 'EFCondition' or node.cls == 'ECondition' and node.kids[0].cls == 'FCondition':
                kind = 'ef'
            if node.cls == 'AGCondition' or node.cls == 'ACondition' and node.kids[0].cls == 'GCondition':
                kind = 'ag'
            if kind:
                inner = node.kids[0] if node.cls in ('EFCondition', 'AGCondition') else node.kids[0].kids[0]
            for _, s in rs:
                v = load(s, (VIS, ret))
                where = site(f)
                if kind == 'ef':
                    ok = v == inner.term
                    ctx.check(nm + ':predicate', ok, 'the predicate to search for is %s, must be the operand of the quantifier' % show(v)[:80], where)
                    iv = load(s, (('d', inner.term), inv))
                    ctx.check(nm + ':invariant', iv == C(negd), 'the query is %sthe predicate\'s reachability, but is marked invariant=%s' % ('the negation of ' if negd else '', show(iv)), where)
                elif kind == 'ag':
                    o = load(s, (v[1], v[2])) if v[0] == 'p' else None
                    ok = isinstance(o, Obj) and o.cls == NS + 'NotCondition' and get_step(o, F.of('NotCondition', 'getCond')[0]) == inner.term
                    cond = get_step(o, F.of('NotCondition', 'getCond')[0]) if isinstance(o, Obj) and o.cls == NS + 'NotCondition' else None
                    sure = o is not None and (cond is None or known(cond)) or o is None and known(v)
                    ctx.check(nm + ':predicate', ok if ok or sure else None, 'the predicate to search for is not the negated operand', where)
                    iv = get_step(o, inv[0]) if ok else None
                    if ok:
                        ctx.check(nm + ':invariant', iv == C(not negd), 'marked invariant=%s' % show(iv), where)
                elif node.cls == 'NotCondition' or node.cls in SHALLOW and node.kids:
                    if v[0] == 't' and v[1] == 'prep' and v[2] == node.kids[0].term:
                        ci2 = v[3]
                        want = negd != (node.cls == 'NotCondition')
                        if ci2 in pols:
                            ctx.check(nm + ':polarity', pols[ci2] == want, 'the polarity of the sub-formula is wrong', where)
                        else:
                            pols[ci2] = want
                            todo.append(ci2)
                            ctx.ok(nm + ':polarity', '', where)
                    else:
                        ctx.check(nm + ':result', False if known(v) else None, 'returns %s' % show(v)[:80], where)
                else:
                    ctx.check(nm + ':none', True if v == NULL or v == C(None) else (False if known(v) else None),
                              'is treated as a reachability query (result %s)' % show(v)[:80], where)
            if I.nulls:
                ctx.bad(nm + ':null', 'calls a member through a null pointer (line %s) for %r' % (I.nulls[0][1], node), site(f))
            elif not rs:
                ctx.ok(nm, 'rejected with an exception', site(f))
        for c in CONDS:
            key = accept_fn(p, vis, NS + c)
            if key is None or key not in p.fns:
                ctx.und('prepare:' + c, 'no accept')
                continue
            for sh in shapes(c, fresh, 2):
                if sh.tag == ':uncompiled':
                    continue        # outside the contract: queries are compiled first
                ctx.attempt('prepare:%s' % c, lambda: judge(sh, p.fns[key]), site(p.fns[key]))


def dispatch(ctx, p):
    """Visitor::visit / visit_expr hand every node over as its own class"""
    for root, fam, base in (('visit', CONDS, 'Condition'), ('visit_expr', EXPRS, 'Expr')):
        for q in (NS + 'Visitor::' + root,):
            cands = [f for f in p.byq.get(q, []) if len(f['params']) == 2 and f['params'][1]['t'].replace('const ', '').replace(' ', '') == NS + base + '*'
                     and not f['params'][1]['t'].startswith('const')]
            seen = 0
            for f in cands:
                seen += 1
                for c in fam:
                    nm = 'dispatch:%s:%s' % (f['params'][0]['t'].split('::')[-1].rstrip(' *'), c)

                    def go():
                        I = Interp(p)
                        seqlib.install(I)
                        I.rec = 4
                        I.max_depth = 90
                        hits = []

                        def hook(I, e, st, loc, ptr):
                            hits.append(e['fn'])
                            return [(NULL, st)]
                        I.name_hooks['_accept'] = hook
                        st = State()
                        st.store[('h', 'k')] = Obj(NS + c, None, {})
                        rs = I.run(f, T('visitor'), [T('visitor'), ('p', ('h', 'k'), ())], st)
                        ctx.note_interp(I, len(rs))
                        hs = set(hits)
                        if not rs or not hs:
                            ctx.und(nm, 'dispatch not understood', site(f))
                            return
                        okk = len(hs) == 1 and (NS + c + ' *') in list(hs)[0]
                        ctx.check(nm, okk, 'a %s is handed to %s' % (c, sorted(h.split('_accept')[-1] for h in hs)), site(f))
                    ctx.attempt(nm, go, site(f))
            if not seen:
                ctx.und('dispatch:' + root, 'no instantiation found')


def run(ctx):
    for j in PREDS:
        ctx.rule('%s is true exactly when %s' % (j[0] or j[1], j[5]))
    ctx.rule('prepareForReachability yields the predicate and polarity of EF/AG queries and nothing for others')
    ctx.rule('visiting a node calls the handler of its own class')
    p = ctx.program(TUS)
    jobs = [('pred', j) for j in PREDS] + [('prepare', None), ('dispatch', None)]

    def one(job):
        kind, j = job
        if kind == 'pred':
            ctx.attempt(j[0] or j[1], lambda: predicate(ctx, p, j))
        elif kind == 'prepare':
            ctx.attempt('prepare', lambda: prepare(ctx, p))
        else:
            ctx.attempt('dispatch', lambda: dispatch(ctx, p))
    ctx.parallel(jobs, one)
