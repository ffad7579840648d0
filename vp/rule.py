"""Obligation bookkeeping and helpers shared by the property rules."""
import os, json, time, sys, traceback, signal, threading
from . import engine
from .engine import *
from .engine import _key
from .prog import Program, AnchorError, VERIF, REPO


START = time.time()
DEADLINE, STEP = 600, 150       # seconds: whole check, one obligation group


class TimeUp(BaseException):
    pass


def time_up(sig, frame):
    raise TimeUp()


# functions the rules leave open on purpose
LEFT_OPEN = {'memset', 'PetriEngine::SuccessorGenerator::checkPreset', 'PetriEngine::PQL::UnfoldedUpperBoundsCondition::value', 'PetriEngine::PetriNet::deadlocked', 'PetriEngine::PQL::CommutativeExpr::handle',
             'PetriEngine::PQL::Expr::placeFree', 'PetriEngine::PQL::Expr::type', 'PetriEngine::PQL::Condition::getPath', 'PetriEngine::PQL::Condition::getQuantifier',
             'PetriEngine::PQL::SimpleQuantifierCondition::operator[]'}


class Ctx:
    armed = False

    def __init__(self, pid):
        self.pid = pid
        self.obls = []           # (name, status, detail, site)
        self.functions = set()
        self.sites = 0
        self.paths = 0
        self.units = []
        self.notes = []
        self.rules = []

    def program(self, srcs):
        p = Program(srcs)
        self.units += [s for s in srcs if s not in self.units]
        return p

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ok(self, name, detail='', site=''):
        self.obls.append((name, 'ok', detail, site))

    def bad(self, name, detail, site=''):
        self.obls.append((name, 'violated', detail, site))

    def und(self, name, detail, site=''):
        self.obls.append((name, 'undecided', detail, site))

    def check(self, name, cond, detail='', site=''):
        if cond is None:
            self.und(name, detail, site)
        elif cond:
            self.ok(name, '', site)
        else:
            self.bad(name, detail, site)

    def note_interp(self, I, nres=0):
        self.functions |= I.inlined
        self.sites += I.sites
        self.paths += nres

    def parallel(self, jobs, fn, procs=8):
        """fn(job) for every job, in forked workers; obligations are merged in job order"""
        import multiprocessing as mp
        jobs = list(jobs)
        n = min(procs, os.cpu_count() or 1, len(jobs))
        if n <= 1 or os.environ.get('VP_SERIAL'):
            for j in jobs:
                fn(j)
            return
        mpc = mp.get_context('fork')
        nxt = mpc.Value('i', 0)

        def work(conn):
            out = []
            while True:
                with nxt.get_lock():
                    i = nxt.value
                    nxt.value += 1
                if i >= len(jobs):
                    break
                self.obls, self.functions, self.sites, self.paths, self.notes = [], set(), 0, 0, []
                fn(jobs[i])
                out.append((i, self.obls, self.functions, self.sites, self.paths, self.notes))
            conn.send(out)
            conn.close()
        sys.stdout.flush()
        ps = []
        for _ in range(n):
            a, b = mpc.Pipe(False)
            pr = mpc.Process(target=work, args=(b,))
            pr.start()
            b.close()
            ps.append((pr, a))
        res = []
        for pr, a in ps:
            try:
                res += a.recv()
            except EOFError:
                pass
            pr.join()
        if len(res) != len(jobs):
            self.und('worker', 'a worker process ended early')
        for i, o, f, si, pa, no in sorted(res, key=lambda r: r[0]):
            self.obls += o
            self.functions |= f
            self.sites += si
            self.paths += pa
            self.notes += no

    def attempt(self, name, fn, site=''):
        """run an obligation group; engine limits make it undecided, not violated"""
        top = not Ctx.armed and threading.current_thread() is threading.main_thread()
        n, before = len(self.obls), set(engine.OPAQUE)
        engine.OPAQUE.clear()
        try:
            return self._attempt(name, fn, site, top)
        finally:
            open_ = engine.OPAQUE - LEFT_OPEN
            engine.OPAQUE.update(before)
            if open_:
                # a result that depends on code the analysis cannot see is no violation
                for i in range(n, len(self.obls)):
                    o = self.obls[i]
                    if o[1] == 'violated':
                        self.obls[i] = (o[0], 'undecided', 'depends on %s, which is not known: %s' % (', '.join(sorted(open_))[:120], o[2]), o[3])

    def _attempt(self, name, fn, site, top):
        try:
            if top:
                left = DEADLINE - (time.time() - START)
                if left < 5:
                    self.und(name, 'analysis gave up: out of time', site)
                    return None
                Ctx.armed = True
                signal.signal(signal.SIGALRM, time_up)
                signal.setitimer(signal.ITIMER_REAL, min(STEP, left), 2)
            try:
                return fn()
            finally:
                if top:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    Ctx.armed = False
        except TimeUp:
            if not top:
                raise
            self.und(name, 'analysis gave up: out of time', site)
        except (Limit, Unsupported) as ex:
            self.und(name, 'analysis gave up: %s' % ex, site)
        except AnchorError as ex:
            self.und(name, 'anchor not found: %s' % ex, site)
        except RecursionError:
            self.und(name, 'analysis gave up: recursion', site)
        except Exception as ex:  # defensive: shape the rule does not know -> undecided
            if os.environ.get('VP_DEBUG'):
                traceback.print_exc()
            self.und(name, 'analysis gave up: %r' % ex, site)
        return None


def site(fn):
    f = fn['file']
    if f.startswith(REPO + '/'):
        f = f[len(REPO) + 1:]
    return '%s:%s %s' % (f, fn['line'], fn['key'].split('(')[0])


def fld(base_ptr, *names):
    r, p = deref(base_ptr)
    return (r, p + tuple(('f', n) for n in names))


def facts_str(st):
    return '; '.join('%s:%s' % (show(k[1]), v) for k, v in list(st.facts.items())[:8])


def find_loop(I, term):
    """the Loop that an 'iv'/'w' term belongs to"""
    if term[0] == 't' and term[1] in ('iv', 'w'):
        ls = I.loops.get(term[2])
        if ls:
            return ls[-1]
    return None


def index_range(I, idx, exit_st=None):
    """(lo, covers) description of a loop index term.
    -> ('all', container) | ('from', lo, w) | ('const', n) | None"""
    if isnum(idx):
        return ('const', cval(idx))
    if idx[0] == 't' and idx[1] == 'iv':
        return ('all', idx[3])
    c, m = lin_of(idx)
    ws = [a for a in m if a[0] == 't' and a[1] == 'w' and m[a] == 1]
    if len(ws) == 1:
        w = ws[0]
        L = find_loop(I, w)
        if L and w in L.ind:
            init, step = L.ind[w]
            if step == 1:
                m2 = dict(m)
                del m2[w]
                return ('from', add(init, mk_lin(c, m2)), w)
            if step == -1:
                return ('down', add(init, mk_lin(c, m2 := {k: v for k, v in m.items() if k != w})), w)
    return None


def holds_ge(I, st, a, b):
    """does st entail a >= b ?"""
    r = I.decide_int(st, '>=', a, b)
    return len(r) == 1 and r[0][0]


def entails(I, st, op, a, b):
    r = I.decide(st, op, a, b)
    return len(r) == 1 and r[0][0]


def consistent(I, st, conds):
    """is the conjunction of (op,a,b) tests possible in st ? (relative to the domain)"""
    sts = [st]
    for op, a, b in conds:
        sts = [s for x in sts for r, s in I.decide(x, op, a, b) if r]
    return bool(sts)


def accept_fn(prog, visitor, elem_cls, roots=('PetriEngine::PQL::MutatingVisitor', 'PetriEngine::PQL::Visitor')):
    """the _accept implementation that runs when `visitor` meets an `elem_cls`"""
    for root in roots:
        if root not in prog.bases(visitor):
            continue
        best = None
        for c in prog.bases(visitor):
            r = prog.records.get(c)
            if not r:
                continue
            for m in r['methods']:
                if m['name'] == '_accept' and ('(%s *' % elem_cls in m['key'] or '(const %s *' % elem_cls in m['key']):
                    return m['key']
    return None


WIDTH = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32,
         'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}


def width(t):
    return WIDTH.get((t or '').replace('const ', '').rstrip('& ').strip())


def trunc_hook(I, v, t, e, st):
    """a narrowing integer conversion of a non-constant is a different value"""
    w0, w1 = width((e.get('e') or {}).get('t')), width(t)
    if w0 and w1 and w1 < w0:
        return T('trunc', w1, v)
    return None


def strict_cast(I, v, t, e, st):
    """narrowing, or unsigned -> signed of the same width, of a non-constant is a different value"""
    t0 = ((e.get('e') or {}).get('t') or '').replace('const ', '').rstrip('& ').strip()
    w0, w1 = width(t0), width(t)
    if w0 and w1 and (w1 < w0 or (w1 == w0 and w1 < 64 and t0.startswith('unsigned') != (t or '').startswith('unsigned'))):
        return T('trunc' if (t or '').replace('const ', '').startswith('unsigned') else 'strunc', w1, v)
    return None


OPAQUE_OPS = ('unk', 'icall', 'undef', 'call', 'w', 'default', 'container')


def known(v, allow=()):
    """the term is built from understood operations only"""
    for x in subterms(v):
        if isinstance(x, tuple) and len(x) > 1 and x[0] == 't' and x[1] in OPAQUE_OPS and x not in allow and not (x[1] == 'call' and x[2] in allow):
            return False
    return True


def unfold(I, v, op):
    """v = init op (op over loops of contributions) -> (init, [(Loop, leaf)]) in source order"""
    chain = []
    while v[0] == 't' and v[1] == 'fold' + op:
        key, init, ds = v[2], v[3], v[4]
        L = None
        for cand in I.loops.get(key, []):
            for w, (o, i0, d0) in cand.folds.items():
                if o == op and i0 == init and d0 == ds:
                    L = (cand, w)
        if L is None:
            return None
        chain.insert(0, L)
        v = init
    return v, chain


def elem_index(I, L, container, st):
    """index term of `container` used by this iteration's loop"""
    if L.range is not None:
        iv = [x for x in subterms(tuple(k[1] for k in st.facts))]
    return None
