"""C11: a query that is written, as XML or binary, and read again keeps its meaning."""
import xml.etree.ElementTree as ET
from ..qio import *
from ..xmldom import N
from ..pql import VISIT
from . import c10

LEVEL = 'other'
MIN_OBLIGATIONS = 100
EXPLANATION = ('Abstract interpretation of both writers (XMLPrinter, BinaryPrinter) over query trees of every node class with symbolic integer constants, the output recorded '
               'as a sequence of text or typed byte fields, followed by abstract interpretation of the matching reader (QueryXMLParser, QueryBinaryParser) on exactly that '
               'output. On every path the tree read back must mean what the written tree means; a field read with another width than it was written is a violation.')
TUS = ['src/PetriParse/QueryXMLParser.cpp', 'src/PetriParse/QueryBinaryParser.cpp', 'src/PetriEngine/PQL/XMLPrinter.cpp', 'src/PetriEngine/PQL/BinaryPrinter.cpp',
       'src/PetriEngine/PQL/Expressions.cpp', 'src/PetriEngine/PQL/Evaluation.cpp']
XP, BP, QB = NS + 'XMLPrinter', NS + 'BinaryPrinter', 'QueryBinaryParser'
OUT = ('h', 'out')
PR = ('h', 'printer')
PLACES = ['pa', 'pb', 'pc']


def visits(I, V):
    def hook(I, e, st, loc, ptr):
        out = []
        for vl, c, s in visit_child(I, e, st):
            if c == NULL:
                I.nulls.append((s, e.get('l')))
                continue
            if c[0] == 't' and c[1] == 'global' and c[2].endswith(('::TRUE_CONSTANT', '::FALSE_CONSTANT')):
                c = ('p', ('h', 'const', 'TRUE' in c[2]), ())
            o = load(s, (c[1], c[2])) if c[0] == 'p' else None
            cls = getattr(o, 'cls', None)
            if cls is None:
                raise Unsupported('visit of ' + show(c)[:60])
            key = accept_fn(I.p, V, cls)
            if key is None or key not in I.p.fns:
                raise AnchorError('no handler for ' + cls)
            out += I.call_fn(I.p.fns[key], s, ('p', vl[0], vl[1]), [('v', c)], e)
        return out
    I.hooks[VISIT] = hook


def put(s, *recs):
    s = s.copy()
    s.ghost['out'] = s.ghost.get('out', ()) + recs
    return s


def writer(p, V):
    I = c10.interp(p)
    I.ref_fields = tuple(I.ref_fields) + ('os',)
    visits(I, V)

    def shl(I, e, st, loc, ptr):
        args = e['args'] if loc is None else [None] + list(e['args'])
        if len(args) != 2 and loc is not None:
            return None
        out = []
        for l, s in (I.lv(args[0], st) if args[0] is not None else [(loc, st)]):
            if not (l and l[0] == OUT):
                return None
            a = args[1]
            if 'std::endl' in str(a.get('fn', '')) + str(a.get('q', '')) or 'endl' in str(a.get('n', '')):
                out.append((('LV', l), put(s, '\n')))
                continue
            for v, s2 in I.eval(a, s):
                if v[0] == 'p' and is_string_type(str(a.get('t'))):
                    v = load(s2, (v[1], v[2]))
                if isnum(v) and not isinstance(cval(v), str):
                    t = (a.get('t') or '').replace('const ', '')
                    ch = a.get('char') or t in ('char', 'signed char', 'unsigned char')
                    r = chr(int(cval(v))) if ch else str(int(cval(v)))
                elif isconst(v):
                    r = str(cval(v))
                elif v[0] == 't' and v[1] in ('undef', 'unk'):
                    raise Unsupported('output of ' + show(v)[:40])
                else:
                    r = ('num', v)
                out.append((('LV', l), put(s2, r)))
        return out
    for n in ('std::operator<<', 'std::basic_ostream<char>::operator<<', 'std::basic_ostream<>::operator<<', 'std::ostream::operator<<'):
        I.hooks[n] = shl

    def write(I, e, st, loc, ptr):
        if not (loc and loc[0] == OUT):
            return None
        out = []
        for vs, s in I.evals(e['args'], st):
            if not isnum(vs[1]):
                raise Unsupported('length of a write')
            n = int(cval(vs[1]))
            v = vs[0]
            if isconst(v) and isinstance(cval(v), str):
                t = cval(v) + '\0'
                if n > len(t):
                    raise Bad('%d bytes of a text of %d are written' % (n, len(t)))
                out.append((('LV', loc), put(s, *[('ch', c) for c in t[:n]])))
                continue
            x = peel(e['args'][0])
            if x.get('k') == 'un' and x.get('op') == '&' and v[0] == 'p':
                t = x['e'].get('t', '')
                val = load(s, (v[1], v[2]))
                if n == 1 and isnum(val) and size_of(I, t) == 1 and t.replace('const ', '').strip() != 'bool':
                    out.append((('LV', loc), put(s, ('ch', chr(int(cval(val)) & 255)))))
                    continue
                if isconst(val) and isinstance(cval(val), str):
                    if n != 1:
                        raise Unsupported('write of text by address')
                    out.append((('LV', loc), put(s, ('ch', cval(val)[0]))))
                    continue
                if isinstance(val, Obj):
                    raise Unsupported('write of an object')
                m = size_of(I, t)
                if m is None:
                    raise Unsupported('write of ' + t)
                if n > m:
                    raise Bad('%d bytes of a field of %d are written' % (n, m))
                if n < m:
                    val = val if isnum(val) and -(1 << (8 * n - 1)) <= cval(val) < 1 << (8 * n - 1) else T('trunc', 8 * n, val)
                out.append((('LV', loc), put(s, ('val', val, n))))
                continue
            if v[0] == 'p':
                lc = load(s, (v[1], v[2]))
                if isconst(lc) and isinstance(cval(lc), str) and n == 1:
                    out.append((('LV', loc), put(s, ('ch', (cval(lc) + '\0')[0]))))
                    continue
            if v[0] == 't' and v[1] == 'begin' or v[0] == 'p':
                raise Unsupported('write from ' + show(v)[:50])
            raise Unsupported('write of ' + show(v)[:50])
        return out
    I.hooks['std::basic_ostream<char>::write'] = I.hooks['std::basic_ostream<>::write'] = I.hooks['std::ostream::write'] = write
    return I


def peel(x):
    while x.get('k') in ('cast', 'paren', 'mat') and 'e' in x:
        x = x['e']
    return x


def size_of(I, t):
    t = (t or '').replace('const ', '').strip()
    if t in WIDTH:
        return max(1, WIDTH[t] // 8)
    if t == 'double':
        return 8
    if t == 'float':
        return 4
    if t in I.p.enums:
        return 4
    if t.endswith('*'):
        return 8
    return None


def reader(p):
    I = c10.interp(p)

    def take(s, n):
        """value of the next n bytes"""
        q = s.ghost.get('in', ())
        if not q:
            raise Bad('the reader reads past the end of what was written')
        r = q[0]
        if r[0] == 'ch':
            if n == 1:
                s.ghost['in'] = q[1:]
                return C(ord(r[1]))
            raise Bad('%d bytes are read where text was written' % n)
        if r[2] != n:
            raise Bad('%d bytes are read where a field of %d bytes was written' % (n, r[2]))
        s.ghost['in'] = q[1:]
        return r[1]

    def conv(v, t):
        t = (t or '').replace('const ', '').strip()
        w = WIDTH.get(t)
        if w is None or v[0] == 'e':
            return v
        if t == 'bool':
            return C(bool(cval(v))) if isnum(v) else v
        return c10.clamp(v, w, not t.startswith('unsigned')) if isnum(v) else v

    def rd(I, e, st, loc, ptr):
        if not (loc and loc[0] == ('h', 'in')):
            return None
        out = []
        for vs, s in I.evals(e['args'], st):
            s = s.copy()
            if not isnum(vs[1]):
                raise Unsupported('length of a read')
            n = int(cval(vs[1]))
            x = peel(e['args'][0])
            if x.get('k') == 'un' and x.get('op') == '&':
                t = x['e'].get('t', '')
                l = deref(vs[0])
                m = size_of(I, t)
                if m is None:
                    raise Unsupported('read into ' + t)
                if n > m:
                    raise Bad('%d bytes are read into a field of %d bytes' % (n, m))
                v = take(s, n)
                save(s, l, I.note(conv(v, t), t))
                out.append((('LV', loc), s))
                continue
            l = seq_base(vs[0])
            if l is None:
                raise Unsupported('read into ' + show(vs[0])[:50])
            sq = load(s, l)
            if not seqlib.conc(sq):
                raise Unsupported('read into a buffer of unknown size')
            items, k = list(seqlib.items(sq)), 0
            t = x.get('t', '') or ''
            while n > 0:
                w = s.ghost['in'][0][2] if s.ghost.get('in') and s.ghost['in'][0][0] == 'val' else 1
                if k >= len(items):
                    raise Bad('more is read than the buffer holds')
                if w > n:
                    raise Bad('part of a field is read')
                items[k] = take(s, w)
                k += 1
                n -= w
            save(s, l, seqlib.seq(items))
            out.append((('LV', loc), s))
        return out
    for n in ('std::basic_istream<char>::read', 'std::basic_istream<>::read', 'std::istream::read'):
        I.hooks[n] = rd

    def getline(I, e, st, loc, ptr):
        if len(e['args']) != 3:
            return None
        out = []
        for l0, s in I.lv(e['args'][0], st):
            if l0[0] != ('h', 'in'):
                return None
            for l, s2 in I.lv(e['args'][1], s):
                for d, s3 in I.eval(e['args'][2], s2):
                    s3 = s3.copy()
                    d = chr(int(cval(d))) if isnum(d) else cval(d)
                    txt = ''
                    while True:
                        q = s3.ghost.get('in', ())
                        if not q:
                            raise Bad('the reader reads past the end of what was written')
                        if q[0][0] != 'ch':
                            raise Bad('text is read where a field of %d bytes was written' % q[0][2])
                        s3.ghost['in'] = q[1:]
                        if q[0][1] == d:
                            break
                        txt += q[0][1]
                    save(s3, l, C(txt))
                    out.append((('LV', l0), s3))
        return out
    I.hooks['std::getline'] = getline
    return I


def seq_base(v):
    """location of the container whose first element v points to"""
    if v[0] == 't' and v[1] == 'begin':
        return v[2]
    if v[0] == 'p' and v[2] and isinstance(v[2][-1], tuple) and v[2][-1][0] in ('i', 'e', 'idx'):
        return (v[1], v[2][:-1])
    try:
        r = seqlib.ptr_pos(v)
        if r and r[1] == C(0):
            return r[0]
    except Exception:
        pass
    return None


# ---------------------------------------------------------------- trees
def trees(I):
    k, k2, c = sym(I, 'k', 'long'), sym(I, 'k2', 'long'), sym(I, 'c', 'long')
    lo, up, lo2, up2 = [sym(I, x, 'unsigned int') for x in ('lo', 'up', 'lo2', 'up2')]
    U = lambda i: Q('UnfoldedIdentifierExpr', name=PLACES[i], off=i)
    L = lambda v: Q('LiteralExpr', v=v if isinstance(v, tuple) else C(v))
    ID = lambda i: (i, PLACES[i])
    le = lambda x, y: Q('LessThanOrEqualCondition', [x, y])
    out = []
    for o in CMPN:
        out += [Q(o, [U(0), U(1)]), Q(o, [U(2), L(k)]), Q(o, [L(k), U(0)])]
    ex = [L(0), L(1), L(-1), L((1 << 31) - 1), L(1 << 31), L((1 << 32) + 1), L(-(1 << 31) - 1), Q('IdentifierExpr', [U(1)], name='pb'), Q('MinusExpr', [U(0)]),
          Q('MinusExpr', [L(k)]), Q('SubtractExpr', [U(0), U(1)]), Q('SubtractExpr', [U(1), L(k), U(0)]), Q('SubtractExpr', [L(k), U(2)])]
    for cl in ('PlusExpr', 'MultiplyExpr'):
        for ids in ([], [ID(1)], [ID(2), ID(0)], [ID(0), ID(0), ID(1)]):
            for ks in ([], [U(2)], [Q('MinusExpr', [U(1)]), Q('SubtractExpr', [U(0), L(2)])]):
                for cst in (C(0), C(1), C(-2), c):
                    if cst == c and len(ids) + len(ks) > 3:
                        continue
                    ex.append(Q(cl, ks, ids=ids, const=cst))
    ex += [Q('SubtractExpr', [Q('PlusExpr', [U(0)], ids=[ID(1)], const=C(1)), Q('MultiplyExpr', [U(2)], ids=[ID(1)], const=C(1))]),
           Q('MultiplyExpr', [Q('PlusExpr', [U(0)], ids=[], const=C(3)), Q('MinusExpr', [U(1)])], ids=[ID(2)], const=C(1)),
           Q('PlusExpr', [Q('MultiplyExpr', [], ids=[ID(2), ID(1)], const=C(2)), Q('MinusExpr', [Q('PlusExpr', [], ids=[ID(2), ID(1)], const=C(0))])], ids=[], const=C(0))]
    many = [Q('MinusExpr', [U(0)]), U(2), Q('SubtractExpr', [U(0), L(2)]), Q('MinusExpr', [U(1)])]
    for n in (3, 4):
        ex += [Q('SubtractExpr', many[:n])] + [Q(cl, many[:n], ids=ids, const=C(2)) for cl in ('PlusExpr', 'MultiplyExpr') for ids in ([], [ID(0), ID(1), ID(2), ID(1)])]
    for x in ex:
        out.append(le(x, U(2)))
        if x.kids or 'ids' in x.kw:
            out.append(Q('LessThanCondition', [U(1), x]))
    a, b, d = le(U(0), L(1)), Q('EqualCondition', [U(1), L(2)]), Q('LessThanCondition', [L(0), U(2)])
    conds = [Q('BooleanCondition', v=True), Q('BooleanCondition', v=False), Q('DeadlockCondition')]
    MX = C(MAXU)
    ub = lambda pls, mx, off: Q('UnfoldedUpperBoundsCondition', places=[(i, PLACES[i], m) for i, m in pls], max=mx, offset=off)
    cj = []
    for neg in (False, True):
        cj += [Q('CompareConjunction', cons=[(0, 'pa', C(1), C(2))], neg=neg), Q('CompareConjunction', cons=[(1, 'pb', C(0), C(2))], neg=neg),
               Q('CompareConjunction', cons=[(2, 'pc', C(3), MX)], neg=neg), Q('CompareConjunction', cons=[(0, 'pa', C(0), C(0)), (2, 'pc', C(MAXU - 1), MX)], neg=neg),
               Q('CompareConjunction', cons=[(0, 'pa', lo, up)], neg=neg), Q('CompareConjunction', cons=[(1, 'pb', C(0), up)], neg=neg), Q('CompareConjunction', cons=[(0, 'pa', C(0), C(1)), (1, 'pb', lo, up), (2, 'pc', C(2), C(2))], neg=neg),
               Q('CompareConjunction', cons=[], neg=neg)]
    conds += cj

    def one(x, y, z):
        r = [Q('NotCondition', [x]), Q('AndCondition', [x]), Q('AndCondition', [x, y]), Q('AndCondition', [x, y, z]), Q('OrCondition', [x]), Q('OrCondition', [x, y]),
             Q('OrCondition', [x, y, z])]
        r += [Q(t, [x]) for t in TEMP1] + [Q(t, [x, y]) for t in TEMP2] + [Q(t, [y, x]) for t in TEMP2]
        return r
    conds += [Q('AndCondition', []), Q('OrCondition', [])]
    conds += one(a, b, d)
    for t in ('FireableCondition', 'KSafeCondition', 'LivenessCondition', 'QuasiLivenessCondition', 'StableMarkingCondition'):
        kids = [cj[4]] if t != 'KSafeCondition' else [L(3), Q('AGCondition', [cj[4]])]
        conds.append(Q(t, kids, **({'name': 'ta'} if t == 'FireableCondition' else {})))
    for x in [cj[1], cj[11], Q('DeadlockCondition'), Q('AndCondition', [b, d]), Q('OrCondition', [d, b]), Q('NotCondition', [b]), Q('BooleanCondition', v=True)] + [Q(t, [d]) for t in TEMP1] + [Q(t, [b, d]) for t in TEMP2]:
        conds += one(x, a, b)
    e = [a, b, d, Q('NotCondition', [b]), Q('EXCondition', [a]), cj[1]]
    conds += [Q(t, e[:n]) for t in ('AndCondition', 'OrCondition') for n in (4, 5, 6)]
    for neg in (False, True):
        conds.append(Q('CompareConjunction', cons=[(0, 'pa', C(0), C(3)), (1, 'pb', C(2), MX), (2, 'pc', C(1), C(5))], neg=neg))
    for x in (Q('NotCondition', [Q('AndCondition', [a, Q('NotCondition', [d])])]), Q('AGCondition', [Q('OrCondition', [a, Q('EFCondition', [b])])]), Q('OrCondition', [Q('AndCondition', [cj[9], b]), Q('AUCondition', [a, d])])):
        conds += one(x, b, cj[0])
    inf = C(float('inf'))
    bounds = [ub([(1, inf)], inf, C(0)), ub([(2, C(3)), (0, inf)], inf, C(0)), ub([(0, C(1)), (1, C(2)), (2, C(4))], C(7), C(2))]
    bounds = bounds + [Q('UpperBoundsCondition', [x], places=['x']) for x in bounds[:1]] + [Q('EFCondition', [x]) for x in bounds] + [Q('EFCondition', [Q('UpperBoundsCondition', [bounds[1]], places=['x'])])]
    tr = [Q('PathSelectCondition', [a], trace=C('t1')), Q('AllPaths', [b], trace=C('t1')), Q('ExistPath', [a], trace=C('t2')),
          le(Q('PathSelectExpr', [U(0)], trace=C('t1')), L(2)), Q('ExistPath', [Q('AllPaths', [Q('PathSelectCondition', [a], trace=C('y'))], trace=C('y'))], trace=C('x')),
          Q('UnfoldedFireableCondition', [], name='ta'), Q('NotCondition', [Q('UnfoldedFireableCondition', [], name='tb')])]
    return out + conds, bounds, tr


def limits(q):
    """a bound that excludes nothing is never kept in a conjunction of bounds: ranges of the symbols of q"""
    out = {}

    def go(x):
        for _, _, lo, up in x.kw.get('cons', ()) if x.cls == 'CompareConjunction' else ():
            if lo[0] == 't':
                out[lo] = (1, MAXU, frozenset())
            elif lo == C(0) and up[0] == 't':
                out[up] = (0, MAXU - 1, frozenset())
        for y in x.kids:
            go(y)
    go(q)
    return out


def run_writer(p, V, q, call):
    I = writer(p, V)
    W = World(p, I)
    W.st.store[OUT] = T('ostream')
    root = W.put(q)
    for v, r in limits(q).items():
        W.st.facts[('i', v)] = r
    rs = call(I, W, root)
    return I, W, rs


# ---------------------------------------------------------------- XML
def text_of(out):
    """document text and the numbers that its private characters stand for"""
    nums, t = [], ''
    for r in out:
        if isinstance(r, str):
            t += r
        else:
            t += chr(0xE000 + len(nums))
            nums.append(r[1])
    return t, nums


def to_nodes(el, nums):
    name = el.tag.split('}')[-1]
    kids = [to_nodes(c, nums) for c in el]
    tx = el.text or ''
    for c in el:
        if (c.tail or '').strip():
            raise Bad('text between elements: %s' % c.tail.strip()[:30])
    if kids and tx.strip():
        raise Bad('text besides elements in <%s>' % name)
    if tx.strip() and 0xE000 <= ord(tx.strip()[0]) < 0xF8FF:
        if len(tx.strip()) != 1:
            raise Unk('text with a number in it')
        tx = T('numtext', nums[ord(tx.strip()) - 0xE000])
    n = N(name, *kids, text=tx if not kids else None)
    n.attrs = dict(el.attrib)
    return n


def xml_trip(ctx, p, q, style):
    nm = 'xml%s:%r' % (style[0], q)
    where = handler(p, XP, q)
    tabs, size, nl = style[1:]

    def go():
        def call(I, W, root):
            W.st.store[PR] = Obj(XP, None, {('f', 'os'): ('rf', (OUT, ())), ('f', 'tabs'): C(tabs), ('f', 'tab_size'): C(size), ('f', 'print_newlines'): C(nl)})
            W.st.store[('h', 'qname')] = C('q1')
            fs = [f for f in p.fns.values() if f['q'] == XP + '::print' and len(f['params']) == 2]
            if not fs:
                raise AnchorError('XMLPrinter::print not found')
            return I.run(fs[0], ('p', PR, ()), [('L', (root[1], root[2])), ('L', (('h', 'qname'), ()))], W.st)
        try:
            I, W, rs = run_writer(p, XP, q, call)
        except Bad as ex:
            ctx.bad(nm, str(ex), where)
            return
        ctx.note_interp(I, len(rs))
        if I.thrown or I.aborted or I.nulls:
            ctx.bad(nm, 'the query cannot be written', where)
            return
        if not rs:
            ctx.und(nm, 'no path', where)
        for _, s in rs:
            t, nums = text_of(s.ghost.get('out', ()))
            try:
                root = to_nodes(ET.fromstring('<property-set>' + t + '</property-set>'), nums)
            except ET.ParseError as ex:
                ctx.bad(nm, 'what is written is no XML: %s (%s)' % (ex, t[:80].replace('\n', ' ')), where)
                continue
            except Bad as ex:
                ctx.bad(nm, str(ex), where)
                continue
            J = c10.interp(p)
            J.types = dict(getattr(I, 'types', {})) if hasattr(J, 'types') else None
            rr = c10.read(J, p, root, (), facts=s.facts)
            ctx.note_interp(J, len(rr))
            if J.thrown or J.aborted or J.nulls:
                ctx.bad(nm, 'what is written is refused when it is read: %s' % ' '.join(t.split())[60:200], where)
                continue
            for v, s2 in rr:
                try:
                    qs = c10.queries(s2)
                    if v != C(True) or len(qs) != 1 or text(qs[0]['id']) != 'q1':
                        ctx.bad(nm, 'the query is read as %d queries named %s' % (len(qs), [show(x['id']) for x in qs]), where)
                        continue
                    got = Decode(s2, {}).ptr(qs[0]['query'])
                    want = meaning(q)
                    got, want = bounds_as_ef(got), bounds_as_ef(want)
                    r = differ(got, want, s2.facts, DOMS)
                    ctx.check(nm, r is None, 'read back, the query %s' % r, where)
                except Bad as ex:
                    ctx.bad(nm, str(ex), where)
                except Unk as ex:
                    ctx.und(nm, 'result not understood: %s' % ex, where)
    ctx.attempt(nm, go, where)


def bounds_as_ef(f):
    """a bound query is asked of all reachable markings, with or without the EF around it"""
    if f[0] == 'EF' and f[1][0] == 'ub':
        return f[1]
    return f


DOMS = {T('sym', x): UDOM for x in ('lo', 'up', 'lo2', 'up2')}


def handler(p, V, q):
    try:
        return site(p.fns[accept_fn(p, V, NS + q.cls)])
    except Exception:
        return 'src/PetriEngine/PQL/' + V.split('::')[-1] + '.cpp'


# ---------------------------------------------------------------- binary
def bin_meaning(q):
    if q.cls == 'UnfoldedUpperBoundsCondition':
        return ('ubx', tuple((o, x, m) for o, x, m in q.kw['places']), q.kw['max'], q.kw['offset'])
    if q.cls == 'UpperBoundsCondition':
        return bin_meaning(q.kids[0])
    if q.cls == 'EFCondition' and q.kids[0].cls in ('UnfoldedUpperBoundsCondition', 'UpperBoundsCondition'):
        return ('EF', bin_meaning(q.kids[0]))
    return meaning(q)


class DecodeB(Decode):
    def ptr(self, v, depth=0):
        o = load(self.st, (v[1], v[2])) if v[0] == 'p' else None
        if (getattr(o, 'cls', None) or '').endswith('::UnfoldedUpperBoundsCondition'):
            g = lambda f: get_step(o, ('f', f))
            if not seqlib.conc(g('_places')):
                raise Unk('places')
            pl = []
            for x in seqlib.items(g('_places')):
                n = self.place(get_step(x, ('f', '_name')), get_step(x, ('f', '_place')))[1]
                pl.append((int(cval(get_step(x, ('f', '_place')))), n, get_step(x, ('f', '_max'))))
            return ('ubx', tuple(pl), g('_max'), g('_offset'))
        return Decode.ptr(self, v, depth)


def bin_out(p, q):
    """abstract output of the binary writer: [(records, state)]"""
    def call(I, W, root):
        W.st.store[PR] = Obj(BP, None, {('f', 'os'): ('rf', (OUT, ()))})
        key = accept_fn(p, BP, NS + q.cls)
        if key is None or key not in p.fns:
            raise AnchorError('no handler for ' + q.cls)
        return I.run(p.fns[key], ('p', PR, ()), [root], W.st)
    return run_writer(p, BP, q, call)


def chars(s):
    return tuple(('ch', c) for c in s) + (('ch', '\0'),)


def bin_trip(ctx, p, qs):
    nm = 'binary:%s' % ' ; '.join(map(repr, qs))
    where = handler(p, BP, qs[0])

    def go():
        recs, facts, leaf = (), {}, {}
        alts = [((), {})]
        for i, q in enumerate(qs):
            try:
                I, W, rs = bin_out(p, q)
            except Bad as ex:
                ctx.bad(nm, str(ex), where)
                return
            ctx.note_interp(I, len(rs))
            if I.thrown or I.aborted or I.nulls:
                ctx.bad(nm, 'the query cannot be written', where)
                return
            if not rs:
                ctx.und(nm, 'no path', where)
                return
            alts = [(r0 + chars('q%d' % i) + s.ghost.get('out', ()), {**f0, **s.facts}) for r0, f0 in alts for _, s in rs]
        head = (('val', C(len(qs)), 4), ('val', C(len(PLACES)), 4))
        for i in (2, 0, 1):
            head += (('val', C(i), 4),) + chars(PLACES[i])
        fs = [f for f in p.fns.values() if f['q'] == QB + '::parse' and len(f['params']) == 2]
        if not fs:
            raise AnchorError('QueryBinaryParser::parse not found')
        for recs, facts in alts:
            J = reader(p)
            st = State()
            c10.setup(st)
            st.facts = dict(facts)
            st.store[('h', 'names')] = seqlib.seq([])
            st.store[c10.PARSER] = Obj(QB, None, {('f', 'queries'): seqlib.seq([]), ('f', '_string_set'): ('rf', (('h', 'names'), ()))})
            st.store[('h', 'only')] = seqlib.seq([])
            st.store[('h', 'in')] = T('istream')
            st.ghost['in'] = head + recs
            try:
                rr = J.run(fs[0], ('p', c10.PARSER, ()), [('L', (('h', 'in'), ())), ('L', (('h', 'only'), ()))], st)
            except Bad as ex:
                ctx.bad(nm, str(ex), where)
                continue
            ctx.note_interp(J, len(rr))
            if J.thrown or J.aborted or J.nulls:
                ctx.bad(nm, 'what is written is refused when it is read', where)
                continue
            for v, s2 in rr:
                try:
                    if s2.ghost.get('in'):
                        ctx.bad(nm, '%d fields that were written are not read' % len(s2.ghost['in']), where)
                        continue
                    got = c10.queries(s2)
                    if v != C(True) or len(got) != len(qs) or [text(x['id']) for x in got] != ['q%d' % i for i in range(len(qs))]:
                        ctx.bad(nm, 'the queries are read as %d queries named %s' % (len(got), [show(x['id']) for x in got]), where)
                        continue
                    for q, g in zip(qs, got):
                        a, b = DecodeB(s2, {}, PLACES).ptr(g['query']), bin_meaning(q)
                        if 'ubx' in str(a) or 'ubx' in str(b):
                            ctx.check(nm, a == b, 'read back, the bound query is %s, not %s' % (a, b), where)
                            continue
                        r = differ(a, b, s2.facts, DOMS)
                        ctx.check(nm, r is None, 'read back, the query %s' % r, where)
                except Bad as ex:
                    ctx.bad(nm, str(ex), where)
                except Unk as ex:
                    ctx.und(nm, 'result not understood: %s' % ex, where)
    ctx.attempt(nm, go, where)


def run(ctx):
    ctx.rule('reading what XMLPrinter writes for a query gives a query of the same meaning and name, in compact and indented style')
    ctx.rule('reading what BinaryPrinter writes gives a query of the same meaning; every field is read with the width it was written with and nothing is left over')
    p = ctx.program(TUS)
    I = base_interp(p)
    ts, bounds, tr = trees(I)
    jobs = [('x', q, ('', 0, 0, False)) for q in ts + bounds + tr] + [('x', q, ("'", 1, 1, True)) for q in bounds + tr + ts[::5]]
    jobs += [('b', [q]) for q in ts + bounds] + [('b', [ts[i], ts[-1 - i]]) for i in range(0, 12, 3)]

    def go(j):
        if j[0] == 'x':
            xml_trip(ctx, p, j[1], j[2])
        else:
            bin_trip(ctx, p, j[1])
    ctx.parallel(jobs, go)
