"""Loads the resolved program of a set of translation units of /repo (via the
clang-based extractor in /verif/tool) and offers look-up helpers."""
import os, sys, json, subprocess, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class AnchorError(Exception):
    """Something the rule needs has vanished / cannot be parsed: the check can
    give no answer (exit 2), it is neither a pass nor a violation."""


def ensure_tool():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    exe = os.path.join(BUILD, 'extract-' + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + '.tmp%d' % os.getpid()
    inc = '/usr/lib/llvm-18/include'
    lib = '/usr/lib/llvm-18/lib'
    cmd = ['clang++', '-std=c++17', '-O1', '-fno-rtti', '-I' + inc, src, '-o', tmp,
           lib + '/libclang-cpp.so.18.1', lib + '/libLLVM.so.18.1']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise AnchorError('cannot build the extractor: ' + r.stdout.decode()[-2000:])
    os.replace(tmp, exe)
    return exe


def flags():
    return ['-std=gnu++17', '-w', '-I' + REPO + '/include', '-I' + VERIF + '/stubs',
            '-I' + REPO + '/src', '-I' + REPO + '/src/PetriEngine/PQL',
            '-isystem', '/usr/include/rapidxml', '-DVERIFYPN_VERSION="4.4.2"']


def extract(srcs):
    exe = ensure_tool()
    import tempfile
    out = {}
    with tempfile.TemporaryDirectory(prefix='vpx') as td:
        def one(i_s):
            i, s = i_s
            path = s if os.path.isabs(s) else os.path.join(REPO, s)
            if not os.path.exists(path):
                raise AnchorError('source file vanished: ' + s)
            o = os.path.join(td, '%d.json' % i)
            r = subprocess.run([exe, REPO + '/', o, path, '--'] + flags(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if not os.path.exists(o):
                raise AnchorError('cannot parse %s: %s' % (s, r.stdout.decode()[-1500:]))
            d = json.load(open(o))
            if d['errors'] or r.returncode:
                raise AnchorError('errors parsing %s: %s' % (s, r.stdout.decode()[:1500]))
            return s, d
        with cf.ThreadPoolExecutor(8) as ex:
            for s, d in ex.map(one, enumerate(srcs)):
                out[s] = d
    return out


class Program:
    def __init__(self, srcs):
        self.units = list(srcs)
        self.fns = {}       # key -> function
        self.byq = {}       # qualified name -> [function]
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.sub = {}       # record -> direct subclasses
        off = 0
        for s, d in extract(srcs).items():
            off += 10_000_000
            for f in d['functions']:
                if f['key'] in self.fns:
                    continue
                _shift(f, off)
                self.fns[f['key']] = f
                self.byq.setdefault(f['q'], []).append(f)
            for r in d['records']:
                if r['name'] not in self.records:
                    _shift(r, off)
                    self.records[r['name']] = r
            for g in d['globals']:
                if g['g'] not in self.globals:
                    _shift(g, off)
                    self.globals[g['g']] = g['d']
            for k, v in d['enums'].items():
                self.enums.setdefault(k, v)
        for r in self.records.values():
            for b in r['bases']:
                self.sub.setdefault(b, []).append(r['name'])
        self.allmeth = {}
        for r in self.records.values():
            for m in r['methods']:
                self.allmeth[m['key']] = (r['name'], m)

    # ---- hierarchy
    def bases(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            r = self.records.get(c)
            if r:
                todo.extend(r['bases'])
        return out

    def subclasses(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo.extend(self.sub.get(c, []))
        return out

    def overrides_closure(self, key):
        """keys of methods that `key` (transitively) overrides, incl. itself"""
        out, todo = set(), [key]
        while todo:
            k = todo.pop()
            if k in out:
                continue
            out.add(k)
            m = self.allmeth.get(k)
            if m:
                todo.extend(m[1].get('over', []))
        return out

    def dispatch(self, cls, key):
        """final overrider of virtual method `key` in dynamic class `cls`"""
        for c in self.bases(cls):
            r = self.records.get(c)
            if not r:
                continue
            for m in r['methods']:
                if m['key'] == key or key in self.overrides_closure(m['key']):
                    return m['key'], m
        return None, None

    def method(self, cls, name, pred=None, inherited=True):
        """functions named `name` that class `cls` provides (nearest class first)"""
        out = []
        for c in (self.bases(cls) if inherited else [cls]):
            r = self.records.get(c)
            if not r:
                continue
            for m in r['methods']:
                if m['name'] == name:
                    f = self.fns.get(m['key'])
                    if f is not None and (pred is None or pred(f)):
                        out.append(f)
        return out

    def fn(self, q, nparams=None, pred=None, need=True):
        fs = [f for f in self.byq.get(q, []) if (nparams is None or len(f['params']) == nparams)
              and (pred is None or pred(f))]
        if not fs:
            if need:
                raise AnchorError('function vanished: ' + q)
            return None
        return fs[0]


_IDK = ('id',)


def _shift(n, off):
    """make variable/lambda ids unique across translation units"""
    if isinstance(n, dict):
        for k, v in n.items():
            if k == 'id' and isinstance(v, int):
                n[k] = v + off
            elif isinstance(v, (dict, list)):
                _shift(v, off)
    elif isinstance(n, list):
        for x in n:
            if isinstance(x, (dict, list)):
                _shift(x, off)


def walk(n):
    """all dict nodes below n"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in x if isinstance(v, (dict, list)))
