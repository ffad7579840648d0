"""C03: arithmetic expressions evaluate to their mathematical value in the marking."""
from ..pql import *
from . import c03b

LEVEL = 'other'
MIN_OBLIGATIONS = 20
EXPLANATION = ('Abstract interpretation of every expression-evaluation method over Herbrand terms: loops that accumulate are '
               'recognised as folds (initial value, per-element contribution, index range) and compared with the sum/product/'
               'difference the node denotes; constructor-time flattening of sums and products is checked to account every operand exactly once. Independently of the code shape, bounded expression trees (all pairs and selected triples of operand kinds under every operator) '
               'are built by interpreting the constructors and evaluated by interpreting the visitor, with symbolic literals and token counts.')

TUS = ['src/PetriEngine/PQL/Evaluation.cpp', 'src/PetriEngine/PQL/Expressions.cpp']
EV = NS + 'ExprEvalVisitor'


def inverse(op, new, w):
    """new = w op delta -> delta"""
    if op == '+':
        d = add(new, w, -1)
        return None if contains(d, w) else d
    if new == w:
        return C(1)
    if new[0] == 't' and new[1] == 'mul':
        o = new[3] if new[2] == w else new[2] if new[3] == w else None
        return None if o is None or contains(o, w) else o
    c, m = lin_of(new)
    if c == 0 and set(m) == {w}:
        return C(m[w])
    return None


def fold_contribs(I, L, w, op):
    """{(container, index): [(delta, state)]} of one accumulating loop; None when not understood"""
    out = []
    for it in L.iters:
        if it['out'][0] not in ('next', 'last'):
            return None
        d = inverse(op, load(it['st'], w[3]), w)
        if d is None:
            return None
        out.append((d, it['st']))
    return out


def check_fold(ctx, I, st, v, op, init, parts, name, where, zero_ok=True):
    """v must be  init op fold over parts;  parts: {container term: f(element term)->contribution}"""
    u = unfold(I, v, op)
    if u is None:
        ctx.und(name, 'accumulation not understood: ' + show(v)[:120], where)
        return
    got0, chain = u
    if got0 != init:
        if known(got0):
            ctx.bad(name + ':initial', 'accumulation starts from %s, must start from %s' % (show(got0), show(init)), where)
        else:
            ctx.und(name + ':initial', show(got0), where)
    else:
        ctx.ok(name + ':initial', '', where)
    todo = dict(parts)
    unit = C(0) if op == '+' else C(1)
    for L, w in chain:
        cs = fold_contribs(I, L, w, op)
        if cs is None:
            ctx.und(name + ':loop', 'loop not understood', where)
            return
        # which container does the loop walk?
        hit = None
        for cont, f in list(parts.items()):
            for d, s in cs:
                for x in subterms(d):
                    if isinstance(x, tuple) and len(x) == 4 and x[0] == 't' and x[1] == 'sel' and x[3][0] == 'i' and x[2] == cont[0]:
                        hit = (cont, x[3][1])
        if hit is None:
            ds = {d for d, _ in cs}
            if all(known(d) for d in ds) and ds != {unit}:
                ctx.bad(name + ':foreign', 'adds a contribution %s that is not an operand' % [show(d)[:80] for d in ds], where)
            else:
                ctx.und(name + ':loop', 'container not found', where)
            continue
        cont, idx = hit
        if cont not in todo:
            ctx.bad(name + ':twice', 'operands in %s are accounted twice' % show(cont[0]), where)
            continue
        f = todo.pop(cont)
        lo = cont[1]
        r = index_range(I, idx)
        if r is None:
            ctx.und(name + ':range', show(idx), where)
        elif r[0] == 'all':
            ctx.check(name + ':range', lo == 0, 'covers index 0 although it is accounted separately', where)
        elif r[0] == 'from' and isnum(r[1]):
            ctx.check(name + ':from', cval(r[1]) == lo, 'operands are accounted from index %s, must be from %s' % (cval(r[1]), lo), where)
            if not upper_ok(I, L, r[2], r, T('size', cont[0])):
                up = upper_slack(I, L, r, T('size', cont[0]))
                if up is None:
                    ctx.und(name + ':upto', 'upper end of the loop not understood', where)
                else:
                    ctx.bad(name + ':upto', 'the loop leaves out / runs past the last %s operand(s)' % up, where)
            else:
                ctx.ok(name + ':upto', '', where)
        else:
            ctx.und(name + ':range', str(r), where)
        el = T('sel', cont[0], ('i', idx))
        want = f(el)
        for d, s in cs:
            if d == want or entails(I, s, '==', d, want):
                ctx.ok(name + ':contribution', '', where)
            elif d == unit or known(d, allow=set(L.ind)):
                ctx.bad(name + ':contribution', 'an operand contributes %s, must contribute %s (%s)' % (show(d)[:120], show(want)[:120], facts_str(s)[:120]), where)
            else:
                ctx.und(name + ':contribution', show(d)[:100], where)
    for cont in todo:
        ctx.bad(name + ':missing', 'operands in %s are never accounted' % show(cont[0]), where)


def upper_slack(I, L, r, size):
    w = r[2]
    idx = add(w, add(r[1], L.ind[w][0], -1))
    form, k, sign = norm_cmp(idx, size)
    sl = set()
    for it in L.iters:
        f = it['st'].facts.get(('i', form))
        if f is None:
            return None
        b = (f[1] + k) if sign > 0 else -(f[0] - k)
        if b in (INF, -INF):
            return None
        sl.add(b)
    if len(sl) == 1:
        b = sl.pop()      # idx - size <= b  in the body
        return -1 - b if b != -1 else None
    return None


def run(ctx):
    ctx.rule('value(e1+..+en)=sum, value(e1*..*en)=product, value(e1-e2-..-en)=e1-sum, value(-e)=-value(e), value(place)=tokens, no narrowing on the way')
    ctx.rule('flattening a sum/product keeps the multiset of operands')
    p = ctx.program(TUS)
    # bounded trees do not depend on how the code is written; where they settle a construct, an objection of the
    # (unbounded) loop-shape analysis below is not a violation by itself
    c03b.run(ctx, p)
    sure = c03b.settled(ctx.obls)
    plain_bad = ctx.bad

    def bad(name, detail, site=''):
        if any(name == g or name.startswith(g + ':') for g in sure):
            ctx.und(name, 'shape not understood: ' + detail, site)
        else:
            plain_bad(name, detail, site)
    ctx.bad = bad
    el, this = T('el'), T('this')
    valf = getter_field(p, EV, 'value')

    def mk(cls, vis=EV):
        I = Interp(p)
        I.cast_hook = strict_cast

        def hook(I, e, st, loc, ptr):
            out = []
            for vl, c, s in visit_child(I, e, st):
                s2 = s.copy()
                off = load(s2, (vl[0], vl[1] + (('f', '_offset'),)))
                s2.ghost['offs'] = s2.ghost.get('offs', frozenset()) | {(c, off)}
                save(s2, (vl[0], vl[1] + valf), I.note(T('val', c), 'long'))
                out.append((NULL, s2))
            return out
        I.hooks[VISIT] = hook
        I.dynclass = lambda v: cls if v in (el, T('*', el)) else (vis if v in (this, T('*', this)) else None)
        return I

    ctxp = T('sel', T('*', this), ('f', '_context'))
    M = accessor(p, 'PetriEngine::PQL::EvaluationContext', 'marking', el=T('cc'))
    M = subst(M, T('*', T('cc')), ctxp)

    def mark_at(I, i):
        return load(State(), I.ptr_idx(M, i))

    def one(cn, judge):
        cls = NS + cn
        key = accept_fn(p, EV, cls)
        if key is None or key not in p.fns:
            raise AnchorError('ExprEvalVisitor does not evaluate ' + cn)
        f = p.fns[key]

        def go():
            I = mk(cls)
            rs = I.run(f, this, [el])
            ctx.note_interp(I, len(rs))
            for _, s in rs:
                judge(I, s, load(s, (('d', this), valf)), site(f))
            if not rs:
                ctx.und(cn, 'no path', site(f))
        ctx.attempt(cn, go, site(f))

    exprs = accessor(p, NS + 'PlusExpr', 'expressions')
    ids = accessor(p, NS + 'PlusExpr', 'places')
    const = accessor(p, NS + 'PlusExpr', 'constant')

    def j_ident(I, s, v, where):
        off = accessor(p, NS + 'UnfoldedIdentifierExpr', 'offset')
        if v == mark_at(I, off):
            ctx.ok('UnfoldedIdentifierExpr:value', '', where)
            return
        base = mark_at(I, off)
        rest = add(v[3][1], base[3][1], -1) if v[0] == 't' and v[1] == 'sel' and v[2] == base[2] else None
        if rest is None:
            if known(v):
                ctx.bad('UnfoldedIdentifierExpr:value', 'a place evaluates to %s, not to its token count' % show(v)[:100], where)
            else:
                ctx.und('UnfoldedIdentifierExpr:value', show(v)[:100], where)
            return
        # traces of a hyper property are laid out one after the other
        okk = rest[0] == 't' and rest[1] == 'mul' and T('sel', T('*', this), ('f', '_offset')) in rest[2:] and 'laces' in show(rest)
        ctx.check('UnfoldedIdentifierExpr:value', okk, 'reads place index + %s' % show(rest), where)
    one('UnfoldedIdentifierExpr', j_ident)

    def comm(op):
        def j(I, s, v, where):
            nm = 'PlusExpr' if op == '+' else 'MultiplyExpr'
            check_fold(ctx, I, s, v, op, const, {
                (ids, 0): lambda e: mark_at(I, T('sel', e, ('f', 'first'))),
                (exprs, 0): lambda e: T('val', e)}, nm, where)
        return j
    one('PlusExpr', comm('+'))
    one('MultiplyExpr', comm('*'))

    sub_ex = accessor(p, NS + 'SubtractExpr', 'expressions')

    def j_sub(I, s, v, where):
        first = T('val', T('sel', sub_ex, ('i', C(0))))
        check_fold(ctx, I, s, v, '+', first, {(sub_ex, 1): lambda e: neg(T('val', e))}, 'SubtractExpr', where)
    one('SubtractExpr', j_sub)

    def simple(nm, want):
        def j(I, s, v, where):
            if v == want or entails(I, s, '==', v, want):
                ctx.ok(nm + ':value', '', where)
            elif known(v):
                ctx.bad(nm + ':value', 'evaluates to %s, must be %s' % (show(v)[:100], show(want)), where)
            else:
                ctx.und(nm + ':value', show(v)[:100], where)
        return j
    one('MinusExpr', simple('MinusExpr', neg(T('val', accessor(p, NS + 'MinusExpr', 'operator[]', C(0))))))
    one('LiteralExpr', simple('LiteralExpr', accessor(p, NS + 'LiteralExpr', 'value')))
    one('IdentifierExpr', simple('IdentifierExpr', T('val', accessor(p, NS + 'IdentifierExpr', 'compiled'))))

    ps_child = accessor(p, NS + 'PathSelectExpr', 'child')
    ps_off = accessor(p, NS + 'PathSelectExpr', 'offset')

    def j_ps(I, s, v, where):
        simple('PathSelectExpr', T('val', ps_child))(I, s, v, where)
        offs = dict(s.ghost.get('offs', ()))
        if ps_child in offs:
            ctx.check('PathSelectExpr:trace', offs[ps_child] == ps_off, 'the operand is evaluated with trace offset %s' % show(offs[ps_child]), where)
        end = load(s, (('d', this), (('f', '_offset'),)))
        ctx.check('PathSelectExpr:restore', end == T('sel', T('*', this), ('f', '_offset')), 'the trace offset is left at %s' % show(end), where)
    one('PathSelectExpr', j_ps)

    # upper bounds
    f = p.fn(NS + 'UnfoldedUpperBoundsCondition::value')

    def go_ub():
        I = Interp(p)
        I.cast_hook = strict_cast
        m = T('m')
        for v, s in I.run(f, el, [m]):
            pl = T('sel', T('*', el), ('f', '_places'))
            check_fold(ctx, I, s, v, '+', C(0), {(pl, 0): lambda e: T('sel', T('*', m), ('i', T('sel', e, ('f', '_place'))))}, 'bounds', site(f))
        ctx.note_interp(I, 1)
    ctx.attempt('bounds', go_ub, site(f))

    # evaluate(Expr*)
    for f in p.byq.get(NS + 'evaluate', []):
        if 'Expr' not in f['params'][0]['t']:
            continue

        def go_ev():
            I = mk(None)
            rs = I.run(f, None, [el, T('ctx')])
            for v, s in rs:
                simple('evaluate', T('val', el))(I, s, v, site(f))
            ctx.note_interp(I, len(rs))
        ctx.attempt('evaluate', go_ev, site(f))

    # flattening
    f = p.fn(NS + 'CommutativeExpr::handle')
    for cn, op in (('PlusExpr', '+'), ('MultiplyExpr', '*')):
        def go_h():
            I = Interp(p)
            I.cast_hook = strict_cast
            e = T('e')
            I.dynclass = lambda v: NS + cn if v in (this, T('*', this)) else None

            def evh(I, x, st, loc, ptr):
                return [(I.note(T('val', a), 'long'), s) for a, s in I.eval(x['args'][0], st)]
            I.hooks[NS + 'evaluate'] = evh
            rs = I.run(f, this, [e])
            ctx.note_interp(I, len(rs))
            for _, s in rs:
                judge_handle(ctx, p, I, s, this, e, op, 'flatten/' + cn, site(f), NS + cn)
        ctx.attempt('flatten/' + cn, go_h, site(f))


def judge_handle(ctx, p, I, s, this, e, op, name, where, cls):
    c0 = T('sel', T('*', this), ('f', '_constant'))
    dc = inverse(op, load(s, (('d', this), (('f', '_constant'),))), c0)
    pushes = {}
    for fn in ('_exprs', '_ids'):
        v = load(s, (('d', this), (('f', fn),)))
        base = T('sel', T('*', this), ('f', fn))
        if v == base:
            pushes[fn] = []
        elif v[0] == 'seq' and v[1][0] == ('base', base):
            pushes[fn] = list(v[1][1:])
        else:
            ctx.und(name, '%s = %s' % (fn, show(v)[:80]), where)
            return
    rec = [ev for ev in s.events if ev[0] == 'call' and ev[1].endswith('::handle')]
    unit = C(0) if op == '+' else C(1)
    if dc is None:
        ctx.und(name, 'constant not understood', where)
        return
    acc = []
    if dc != unit:
        acc.append(('const', dc))
    acc += [('expr', x) for x in pushes['_exprs']] + [('id', x) for x in pushes['_ids']] + [('rec', x[3][0]) for x in rec]
    isid = T('isa', e, NS + 'IdentifierExpr')
    if len(acc) == 1:
        k, x = acc[0]
        if k == 'const':
            if x == T('val', e):
                pf = [v for k, v in s.facts.items() if k[0] == 'b' and 'placeFree' in show(k[1]) and contains(k[1], T('*', e))]
                ctx.check(name + ':const', True if pf == [True] else False if pf == [False] else None, 'an operand that depends on the marking is folded into the constant', where)
            elif x == T('sel', T('*', e), ('f', '_constant')):
                em = [consistent(I, s, [('>', T('size', T('sel', T('*', e), ('f', g))), C(0))]) for g in ('_ids', '_exprs')]
                ctx.check(name + ':nested-const', not any(em), 'a nested node with further operands is reduced to its constant', where)
            else:
                ctx.bad(name + ':const', 'operand folded into the constant as %s' % show(x), where)
            return
        if k == 'expr':
            ctx.check(name + ':expr', x == ('one', e), 'keeps %s instead of the operand' % show(x), where)
            return
        if k == 'id':
            ok = x[0] == 'one' and isinstance(x[1], Obj) and x[1].fields.get(('f', 'first')) is not None
            fst = x[1].fields[('f', 'first')] if ok else None
            want = accessor(p, NS + 'UnfoldedIdentifierExpr', 'offset', el=e)
            ctx.check(name + ':place', (fst == want) if ok else None, 'place recorded as %s' % (show(fst) if ok else show(x)), where)
            return
        if k == 'rec':
            ctx.check(name + ':compiled', x == accessor(p, NS + 'IdentifierExpr', 'compiled', el=e), 'continues with %s' % show(x), where)
            return
    if not acc:
        # nothing accounted: fine only if this path knows the operand is the unit
        ctx.bad(name + ':lost', 'an operand is dropped (%s)' % facts_str(s)[:160], where)
        return
    # splice of a nested node of the same operator
    kinds = sorted(a[0] for a in acc)
    ctxf = T('sel', T('*', e), ('f', '_constant'))
    if 'const' in kinds:
        cs = [x for k, x in acc if k == 'const']
        ctx.check(name + ':splice-const', cs == [ctxf], 'nested constant folded as %s' % show(cs[0]), where)
    rng = {k: x for k, x in acc if k in ('expr', 'id')}
    for k, fn in (('expr', '_exprs'), ('id', '_ids')):
        x = rng.get(k)
        src = (('d', e), (('f', fn),))
        if x is None:
            ctx.bad(name + ':splice-' + k, 'the nested %s are dropped' % fn, where)
        elif x[0] == 'range':
            ok = x[1] == T('begin', src) and add(x[2], x[1], -1) == T('size', T('sel', T('*', e), ('f', fn)))
            ctx.check(name + ':splice-' + k, ok, 'splices %s..%s' % (show(x[1]), show(x[2])), where)
        else:
            ctx.und(name + ':splice-' + k, show(x), where)
    if 'const' not in kinds:
        ctx.bad(name + ':splice-const', 'the nested constant is dropped', where)
    # only legal when the operators agree
    tid = typeid(p, cls)
    ok = None
    for k, v in s.facts.items():
        if k[0] == 'i' and k[1][0] == 't' and k[1][1] == 'call' and str(k[1][2]).endswith('::type') and contains(k[1], T('*', e)):
            ok = v[0] <= tid <= v[1] and tid not in v[2]
            if ok and (v[0] != tid or v[1] != tid):
                ok = False
    ctx.check(name + ':splice-same-op', ok, 'a nested node of another operator is spliced into this one', where)


def typeid(p, cls):
    I = Interp(p)
    el = T('tt')
    I.dynclass = lambda v: cls
    for f in p.method(cls, 'type'):
        for v, s in I.run(f, el, []):
            if isnum(v):
                return cval(v)
    raise AnchorError('type id of ' + cls)
