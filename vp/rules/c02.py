"""C02: three-valued evaluation of state formulas is exact Kleene semantics."""
from ..pql import *

LEVEL = 'other'
MIN_OBLIGATIONS = 30
EXPLANATION = ('Abstract interpretation of every _accept of the evaluation visitors over the finite domain '
               '{true,false,unknown} for sub-formula results (loops over operands solved to a fixpoint with the '
               'set of operand results seen so far), intervals of linear forms for comparisons; each abstract '
               'path is compared with the Kleene/state-formula table of the node.')

TUS = ['src/PetriEngine/PQL/Evaluation.cpp', 'src/LTL/Stubborn/LTLEvalAndSetVisitor.cpp']

T_, F_, U_ = 'RTRUE', 'RFALSE', 'RUNKNOWN'
# result of a node as a function of its only operand
UNARY = {
    'NotCondition': {T_: F_, F_: T_, U_: U_},
    'EFCondition': {T_: T_, F_: U_, U_: U_}, 'AFCondition': {T_: T_, F_: U_, U_: U_},
    'FCondition': {T_: T_, F_: U_, U_: U_},
    'EGCondition': {T_: U_, F_: F_, U_: U_}, 'AGCondition': {T_: U_, F_: F_, U_: U_},
    'GCondition': {T_: U_, F_: F_, U_: U_},
}
EVAL_ONLY = {
    'ECondition': {T_: T_, F_: U_, U_: U_}, 'ACondition': {T_: U_, F_: F_, U_: U_},
    'AllPaths': {T_: U_, F_: F_, U_: U_}, 'ExistPath': {T_: T_, F_: U_, U_: U_},
}
UNKNOWNS = ['EXCondition', 'AXCondition', 'XCondition']
CMP = {'LessThanCondition': '<', 'LessThanOrEqualCondition': '<=', 'EqualCondition': '==', 'NotEqualCondition': '!='}
SHALLOW = ['FireableCondition', 'UnfoldedFireableCondition', 'KSafeCondition', 'QuasiLivenessCondition', 'LivenessCondition', 'StableMarkingCondition']


def run(ctx):
    ctx.rule('for every path through the evaluation of a node: result == Kleene/state semantics of the operand results on that path')
    ctx.rule('the recorded verdict (setSatisfied) equals the returned verdict')
    p = ctx.program(TUS)
    R = results(p)
    evalf = getter_field(p, NS + 'Condition', 'getSatisfied')
    visitors = [(NS + 'EvaluateVisitor', False), (NS + 'EvaluateAndSetVisitor', True)]
    if 'LTL::LTLEvalAndSetVisitor' in p.records:
        visitors.append(('LTL::LTLEvalAndSetVisitor', True))
    rvf = getter_field(p, NS + 'EvaluateVisitor', 'get_return_value')
    valf = getter_field(p, NS + 'ExprEvalVisitor', 'value')

    el, this = T('el'), T('this')

    def setup(cls, vis, sets):
        I = Interp(p)

        def hook(I, e, st, loc, ptr):
            out = []
            for vl, c, s in visit_child(I, e, st):
                if is_expr_visit(e):
                    s2 = s.copy()
                    save(s2, (vl[0], vl[1] + valf), I.note(T('val', c), 'long'))
                    out.append((NULL, s2))
                    continue
                for n, r in R.items():
                    s2 = s.copy()
                    save(s2, (vl[0], vl[1] + rvf), r)
                    if (sets and vl[0] == ('d', this)) or 'AndSet' in (e['args'][0].get('t') or ''):
                        cl = deref(c)
                        save(s2, (cl[0], cl[1] + evalf), r)
                    s2.ghost['seen'] = s2.ghost.get('seen', frozenset()) | {(c, n)}
                    out.append((NULL, s2))
            return out
        I.hooks[VISIT] = hook
        I.dynclass = lambda v: cls if v in (el, T('*', el)) else (vis if v in (this, T('*', this)) else None)
        I.cast_hook = trunc_hook
        I.opaque.add('PetriEngine::PetriNet::deadlocked')
        return I

    for vis, sets in visitors:
        vn = vis.split('::')[-1]
        classes = list(UNARY) + ['AndCondition', 'OrCondition', 'UntilCondition', 'EUCondition', 'AUCondition', 'CompareConjunction',
                                 'BooleanCondition', 'DeadlockCondition', 'UnfoldedUpperBoundsCondition'] + list(CMP) + UNKNOWNS + SHALLOW
        if not sets:
            classes += list(EVAL_ONLY)
        for cn in classes:
            cls = NS + cn
            if cls not in p.records:
                raise AnchorError('class vanished: ' + cls)
            key = accept_fn(p, vis, cls)
            if key is None:
                continue
            f = p.fns.get(key)
            if f is None:
                raise AnchorError('no body for ' + key)
            name = '%s/%s' % (vn, cn)
            if cn == 'LTLEvalAndSetVisitor':
                continue

            def go():
                I = setup(cls, vis, sets)
                rs = I.run(f, this, [el])
                ctx.note_interp(I, len(rs))
                if not rs:
                    ctx.und(name, 'no terminating path', site(f))
                    return
                for v, s in rs:
                    judge(ctx, p, I, s, name, cn, cls, el, this, rvf, evalf, sets, R, f, vn)
            ctx.attempt(name, go, site(f))


def judge(ctx, p, I, s, name, cn, cls, el, this, rvf, evalf, sets, R, f, vn):
    rv = load(s, (('d', this), rvf))
    rec = load(s, (('d', el), evalf))
    ltl = vn == 'LTLEvalAndSetVisitor'
    own = ltl and f['cls'].endswith('LTLEvalAndSetVisitor')
    if own:
        rv = rec       # this visitor communicates through the recorded verdict only
    seen = s.ghost.get('seen', frozenset())
    where = site(f)

    def ex(want, why):
        if rv[0] != 'e':
            ctx.und(name + ':result', 'result not determined: ' + show(rv), where)
            return
        ctx.check('%s:%s' % (name, why), rv[2] == want, 'operand results %s (%s) give %s, must give %s'
                  % (sorted(x[1] for x in seen), facts_str(s), rv[2], want), where)

    tab = UNARY.get(cn) or EVAL_ONLY.get(cn)
    if tab:
        if len(seen) != 1:
            child = {c for c, _ in seen}
            # not visited at all although the result depends on it?
            if not seen and rv[0] == 'e':
                ctx.check(name + ':unvisited', rv[2] == U_, 'result %s without evaluating the operand' % rv[2], where)
            else:
                ctx.und(name, 'operand visited several times', where)
            return
        (c, n), = seen
        ex(tab[n], 'operand=' + n)
    elif cn in ('AndCondition', 'OrCondition'):
        cont = accessor(p, cls, 'getOperands')
        dom = F_ if cn == 'AndCondition' else T_
        idt = T_ if cn == 'AndCondition' else F_
        ns = {n for _, n in seen}
        if dom in ns:
            ex(dom, 'dominated')
        else:
            idxs = []
            for c, _ in seen:
                eo = elem_of(c)
                if eo and eo[0] == cont:
                    idxs.append(eo[1])
            cov = covered(I, s, cont, idxs) if seen else True
            if not seen:
                if rv[0] == 'e' and rv[2] != idt:
                    ex(idt, 'empty')
                else:
                    ctx.ok(name + ':empty', '', where)
            elif cov is True:
                ex(U_ if U_ in ns else idt, 'all=' + ','.join(sorted(ns)))
            elif cov is False:
                if rv[0] == 'e' and rv[2] != U_:
                    ctx.bad(name + ':coverage', 'verdict %s although some operands are never evaluated' % rv[2], where)
                else:
                    ctx.und(name + ':coverage', 'some operands skipped', where)
            elif U_ in ns and rv[0] == 'e' and rv[2] == U_:
                ctx.ok(name + ':early-unknown', '', where)
            else:
                ctx.und(name + ':coverage', 'operand coverage not understood', where)
    elif cn in ('UntilCondition', 'EUCondition', 'AUCondition'):
        try:
            c0 = accessor(p, cls, 'operator[]', C(0))
            c1 = accessor(p, cls, 'operator[]', C(1))
        except AnchorError:
            c0, c1 = T('call', NS + 'UntilCondition::operator[]', T('*', el), C(0)), T('call', NS + 'UntilCondition::operator[]', T('*', el), C(1))
        m = {}
        for c, n in seen:
            m['0' if c == c0 else '1' if c == c1 else '?'] = n
        if '?' in m:
            ctx.und(name, 'unknown operand', where)
            return
        p0, q1 = m.get('0'), m.get('1')
        want = None
        if q1 == T_:
            want = T_
        elif q1 == F_ and p0 == F_:
            want = F_
        elif q1 == F_ and p0 in (T_, U_):
            want = U_
        elif q1 == U_:
            want = U_
        if want is None:
            if rv[0] == 'e' and rv[2] != U_:
                ctx.bad(name + ':partial', 'verdict %s from operands %s only' % (rv[2], m), where)
            else:
                ctx.ok(name + ':partial', '', where)
        else:
            ex(want, 'q=%s,p=%s' % (q1, p0))
        return
    elif cn in CMP:
        e0 = accessor(p, cls, 'operator[]', C(0))
        e1 = accessor(p, cls, 'operator[]', C(1))
        a, b = T('val', e0), T('val', e1)
        if rv[0] != 'e':
            ctx.und(name, 'result not determined', where)
            return
        for rel in ('<', '==', '>'):
            if not consistent(I, s, [(rel, a, b)]):
                continue
            truth = {'<': rel == '<', '<=': rel in ('<', '=='), '==': rel == '==', '!=': rel != '=='}[CMP[cn]]
            ctx.check('%s:lhs%srhs' % (name, rel), rv[2] == (T_ if truth else F_),
                      'left operand %s right operand evaluates to %s' % (rel, rv[2]), where)
        if sets:
            for ei, v in ((e0, a), (e1, b)):
                ev = load(s, (('d', ei), getter_field(p, NS + 'Expr', 'getEval')))
                if ev[0] == 't' and ev[1] in ('val', 'trunc'):
                    ctx.check(name + ':setEval', ev == v, 'operand %s records the value %s' % (show(ei), show(ev)), where)
                elif ev == T('sel', T('*', ei), *getter_field(p, NS + 'Expr', 'getEval')):
                    ctx.bad(name + ':setEval', 'the value of operand %s is not recorded' % show(ei), where)
                else:
                    ctx.und(name + ':setEval', show(ev)[:80], where)
    elif cn == 'CompareConjunction':
        if sets and seen:
            (c, n), = seen if len(seen) == 1 else (((None, None)),)
            if c == el:
                ex(n, 'delegated=' + n)
            else:
                ctx.und(name, 'delegation not understood', where)
        else:
            judge_cc(ctx, p, I, s, name, cls, el, rv, where)
    elif cn == 'BooleanCondition':
        b = T('sel', T('*', el), ('f', 'value'))
        fact = s.facts.get(('b', b))
        if fact is None:
            ctx.und(name, 'value not consulted', where)
        else:
            ex(T_ if fact else F_, 'value=%s' % fact)
    elif cn == 'DeadlockCondition':
        dl = [(k[1], v) for k, v in s.facts.items() if k[0] == 'b' and k[1][0] == 't' and k[1][1] == 'call' and 'deadlocked' in str(k[1][2])]
        if dl:
            ex(T_ if dl[0][1] else F_, 'deadlocked=%s' % dl[0][1])
        else:
            if rv[0] == 'e' and rv[2] == T_:
                ctx.bad(name + ':nonet', 'reports a deadlock without asking the net', where)
            else:
                ctx.ok(name + ':nonet', '', where)
            return
    elif cn == 'UnfoldedUpperBoundsCondition':
        if sets and seen:
            if len(seen) == 1 and next(iter(seen))[0] == el:
                ex(next(iter(seen))[1], 'delegated')
            else:
                ctx.und(name, 'delegation not understood', where)
        else:
            mx = T('sel', T('*', el), getter_field(p, cls, 'getMax')[0])
            bd0 = T('sel', T('*', el), getter_field(p, cls, 'getBound')[0])
            bd = load(s, (('d', el), getter_field(p, cls, 'getBound')))
            for rel in ('<', '==', '>'):
                if consistent(I, s, [(rel, mx, bd)]) and rv[0] == 'e':
                    ctx.check('%s:max%sbound' % (name, rel), rv[2] == (T_ if rel != '>' else U_), 'max %s bound gives %s' % (rel, rv[2]), where)
            fb = load(s, (('d', el), (('f', '_bound'),)))
            val = [x for k in s.facts for x in subterms(k[1]) if isinstance(x, tuple) and len(x) > 2 and x[0] == 't' and x[1] == 'call' and '::value' in str(x[2])]
            if fb == bd0 and not val:
                ctx.bad(name + ':records-bound', 'the token count of the current marking is not recorded', where)
            elif not val:
                ctx.und(name + ':records-bound', 'token count not found', where)
            else:
                for rel in ('<', '>'):
                    if consistent(I, s, [(rel, bd0, val[0])]):
                        want = val[0] if rel == '<' else bd0
                        ctx.check('%s:records-bound:%s' % (name, rel), fb == want, 'old bound %s current token count, but records %s' % (rel, show(fb)), where)
    elif cn in UNKNOWNS:
        ex(U_, 'next')
        return
    elif cn in SHALLOW:
        comp = accessor(p, cls, 'getCompiled') if p.method(cls, 'getCompiled') else None
        if len(seen) == 1:
            (c, n), = seen
            if comp is None or c == comp or True:
                ex(n, 'compiled=' + n)
        else:
            ctx.und(name, 'compiled formula not visited once', where)
        return
    # recorded verdict
    if sets and rv[0] == 'e' and not own:
        if rec[0] == 'e':
            ctx.check(name + ':recorded', rec[2] == rv[2], 'records %s but returns %s' % (rec[2], rv[2]), where)
        elif rec[0] == 't' and rec[1] == 'sel':
            ctx.bad(name + ':recorded', 'the verdict %s is not recorded on the node' % rv[2], where)
        else:
            ctx.und(name + ':recorded', show(rec), where)


def judge_cc(ctx, p, I, s, name, cls, el, rv, where):
    """conjunction of bounds: exit with 'all inside' only if every constraint holds"""
    cont = accessor(p, cls, 'constraints')
    negd = T('sel', T('*', el), getter_field(p, cls, 'isNegated')[0])
    ng = s.facts.get(('b', negd))
    if ng is None or rv[0] != 'e':
        ctx.und(name, 'negation flag not consulted', where)
        return
    inner = (rv[2] == T_) != ng     # truth of the conjunction claimed on this path
    bad_elem = None
    # constraints mentioned in facts
    idx = set()
    for k in s.facts:
        for x in subterms(k[1]):
            if isinstance(x, tuple) and len(x) == 4 and x[0] == 't' and x[1] == 'sel' and x[2] == cont:
                idx.add(x[3][1])
    viol = any(violates(I, s, cont, i) for i in idx)
    if viol:
        ctx.check(name + ':broken', inner is False, 'a violated bound is reported as %s (negated=%s)' % (rv[2], ng), where)
        return
    # no violated bound on this path: must have seen them all, and every iteration must have checked both bounds
    if not inner:
        ctx.bad(name + ':spurious', 'the conjunction is reported broken on a path that found no violated bound (%s)' % facts_str(s), where)
        return
    ok = True
    for L in [l for ls in I.loops.values() for l in ls]:
        for it in L.iters:
            if it['out'][0] != 'next':
                continue
            st = it['st']
            ids = set()
            for k in st.facts:
                for x in subterms(k[1]):
                    if isinstance(x, tuple) and len(x) == 4 and x[0] == 't' and x[1] == 'sel' and x[2] == cont:
                        ids.add(x[3][1])
            if not ids:
                ok = None
                continue
            for i in ids:
                if violates(I, st, cont, i) is not False:
                    # the iteration continues although a bound may be broken
                    fin = [load(st, l) for l, kd in L.changed.items() if kd == 'fin']
                    if FALSE in fin:
                        continue
                    ctx.bad(name + ':unchecked', 'iteration continues without having established both bounds', where)
                    return
    if ok is None:
        ctx.und(name + ':loop', 'loop shape not understood', where)
    else:
        ctx.ok(name + ':all-inside', '', where)


def violates(I, s, cont, i):
    """True: some bound of constraint i is violated on s; False: both are established; None: open"""
    c = T('sel', cont, ('i', i))
    up, lo = T('sel', c, ('f', '_upper')), T('sel', c, ('f', '_lower'))
    res = [None, None]
    for k, v in s.facts.items():
        if k[0] != 'i':
            continue
        cst, m = lin_of(k[1])
        if len(m) != 2:
            continue
        for j, bnd in ((0, up), (1, lo)):
            if bnd in m:
                other = [a for a in m if a != bnd][0]
                sg = m[other]
                if not (other[0] == 't' and other[1] == 'sel' and other[3][0] == 'i' and contains(other[3][1], T('sel', c, ('f', '_place')))):
                    continue
                # value of other - bnd in [l,h]
                l, h, _ = v
                if sg < 0:
                    l, h = -h, -l
                if j == 0:
                    res[0] = True if l >= 1 else (False if h <= 0 else None)
                else:
                    res[1] = True if h <= -1 else (False if l >= 0 else None)
    if True in res:
        return True
    if res == [False, False]:
        return False
    return None
