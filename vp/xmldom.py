"""An XML document as the code sees it through rapidxml: elements with a name, attributes, text and child elements.

The tree is fixed; the accessors of rapidxml are given their documented meaning on it (an element with text has a nameless data child)."""
from .trees import *

NODE, ATTR, DOC = 'rapidxml::xml_node<>', 'rapidxml::xml_attribute<>', 'rapidxml::xml_document<>'


class N:
    """element; text is a Python string, or a term for text that stands for any number"""

    def __init__(self, tag, *kids, text=None, **attrs):
        self.name, self.kids, self.text = tag, list(kids), text
        self.attrs = {k.rstrip('_').replace('_', '-'): v for k, v in attrs.items()}

    def __repr__(self):
        a = ''.join(' %s=%r' % x for x in self.attrs.items())
        b = '' if self.text is None else (self.text if isinstance(self.text, str) else show(self.text))
        return '<%s%s>%s%s' % (self.name, a, b, ''.join(map(repr, self.kids)))


class Dom:
    """registers the nodes of a document and installs the accessors"""

    def __init__(self, I, root, flags=('0',)):
        self.I, self.nodes, self.par, self.flags = I, [], {}, flags
        self.attrs = []
        self.root = self.reg(root, None, 0)
        self.doc = None
        h = I.hooks
        for b in ('rapidxml::xml_base<>', NODE, ATTR):
            h[b + '::name'] = self.h_name
            h[b + '::value'] = self.h_value
            h[b + '::parent'] = self.h_parent
            h[b + '::name_size'] = lambda I, e, st, loc, ptr: [(C(len(self.get(ptr)[0])), st)]
        for nm, fn in (('first_node', self.h_first), ('next_sibling', self.h_next), ('last_node', self.h_last), ('previous_sibling', self.h_prev), ('parent', self.h_parent),
                       ('first_attribute', self.h_attr)):
            h[NODE + '::' + nm] = fn
        h[ATTR + '::next_attribute'] = self.h_nextattr
        h[NODE + '::type'] = lambda I, e, st, loc, ptr: [(C(1 if self.at(ptr).name else 2), st)]
        h['ctor:rapidxml::xml_document<char>'] = lambda I, e, st, loc, ptr: [(Obj('rapidxml::xml_document<char>', None, {}), st)]
        h[DOC + '::parse'] = self.h_parse
        h[DOC + '::clear'] = lambda I, e, st, loc, ptr: [(NULL, st)]

    def reg(self, n, par, pos):
        i = len(self.nodes)
        self.nodes.append(n)
        self.par[i] = (par, pos)
        n.sub = []
        ks = list(n.kids)
        if not isinstance(n, Data) and n.text is not None and not (isinstance(n.text, str) and not n.text.strip()):
            ks.insert(0, Data(n.text))
        for j, k in enumerate(ks):
            n.sub.append(self.reg(k, i, j))
        return i

    def ptr(self, i):
        return NULL if i is None else ('p', ('xml', i), ())

    def idx(self, ptr):
        if ptr is not None and ptr[0] == 'p' and ptr[1][0] == 'xml' and not ptr[2]:
            return ptr[1][1]
        return None

    def at(self, ptr):
        i = self.idx(ptr)
        if i is None:
            raise Unsupported('xml node ' + show(ptr)[:40])
        return self.nodes[i]

    def get(self, ptr):
        if ptr is not None and ptr[0] == 'p' and ptr[1][0] == 'xmlattr':
            return self.attrs[ptr[1][1]][:2]
        n = self.at(ptr)
        v = n.text if n.text is not None else ''
        return (n.name, v)

    def need(self, ptr, st):
        if ptr == NULL:
            self.I.nulls.append((st, 'xml'))
            return True
        return False

    def h_name(self, I, e, st, loc, ptr):
        if self.need(ptr, st):
            return []
        return [(C(self.get(ptr)[0]), st)]

    def h_value(self, I, e, st, loc, ptr):
        if self.need(ptr, st):
            return []
        v = self.get(ptr)[1]
        return [(C(v) if isinstance(v, str) else v, st)]

    def filt(self, I, e, st):
        """optional name filter of an accessor"""
        args = e.get('args') or []
        if not args:
            return [(None, st)]
        out = []
        for v, s in I.eval(args[0], st):
            if v == NULL or v == C(0):
                out.append((None, s))
            elif isconst(v) and isinstance(cval(v), str):
                out.append((cval(v), s))
            else:
                raise Unsupported('xml filter ' + show(v)[:40])
        return out

    def pick(self, ids, name):
        for i in ids:
            if name is None or self.nodes[i].name == name:
                return self.ptr(i)
        return NULL

    def h_first(self, I, e, st, loc, ptr):
        if self.need(ptr, st):
            return []
        if self.idx(ptr) is None:
            if self.doc is not None and loc is not None and loc == self.doc:
                return [(self.pick([self.root], nm), s) for nm, s in self.filt(I, e, st)]
            raise Unsupported('first_node of ' + show(ptr)[:40] if ptr else 'first_node')
        n = self.at(ptr)
        return [(self.pick(n.sub, nm), s) for nm, s in self.filt(I, e, st)]

    def h_last(self, I, e, st, loc, ptr):
        if self.need(ptr, st):
            return []
        n = self.at(ptr)
        return [(self.pick(n.sub[::-1], nm), s) for nm, s in self.filt(I, e, st)]

    def sib(self, ptr):
        par, pos = self.par[self.idx(ptr)]
        return ([self.root] if par is None else self.nodes[par].sub), pos

    def h_next(self, I, e, st, loc, ptr):
        if self.need(ptr, st):
            return []
        self.at(ptr)
        l, pos = self.sib(ptr)
        return [(self.pick(l[pos + 1:], nm), s) for nm, s in self.filt(I, e, st)]

    def h_prev(self, I, e, st, loc, ptr):
        if self.need(ptr, st):
            return []
        self.at(ptr)
        l, pos = self.sib(ptr)
        return [(self.pick(l[:pos][::-1], nm), s) for nm, s in self.filt(I, e, st)]

    def h_parent(self, I, e, st, loc, ptr):
        if self.need(ptr, st):
            return []
        self.at(ptr)
        return [(self.ptr(self.par[self.idx(ptr)][0]), st)]

    def aptr(self, n, names, k):
        if k >= len(names):
            return NULL
        self.attrs.append((names[k], n.attrs[names[k]], n, k))
        return ('p', ('xmlattr', len(self.attrs) - 1), ())

    def h_attr(self, I, e, st, loc, ptr):
        if self.need(ptr, st):
            return []
        n = self.at(ptr)
        names = list(n.attrs)
        out = []
        for nm, s in self.filt(I, e, st):
            ks = [k for k, x in enumerate(names) if nm is None or x == nm]
            out.append((self.aptr(n, names, ks[0]) if ks else NULL, s))
        return out

    def h_nextattr(self, I, e, st, loc, ptr):
        if self.need(ptr, st):
            return []
        _, _, n, k = self.attrs[ptr[1][1]]
        names = list(n.attrs)
        out = []
        for nm, s in self.filt(I, e, st):
            ks = [j for j in range(k + 1, len(names)) if nm is None or names[j] == nm]
            out.append((self.aptr(n, names, ks[0]) if ks else NULL, s))
        return out

    def h_parse(self, I, e, st, loc, ptr):
        fn = e.get('fn', '')
        fl = fn[fn.find('parse<') + 6:].split('>')[0] if 'parse<' in fn else ''
        if fl not in self.flags:
            raise Unsupported('xml parse flags ' + fl)
        out = []
        for vs, s in I.evals(e['args'], st):
            self.doc = loc
            out.append((NULL, s))
        return out


class Data(N):
    def __init__(self, text):
        N.__init__(self, '', text=text)
        self.kids = []

    def __repr__(self):
        return ''

