"""Bounded abstract layouts of a PetriNet object (array encoding) with symbolic arc attributes and marking."""
from .pql import *
from . import seqlib
from .seqlib import seq

NETL = ('h', 'net')
MARK = ('h', 'marking')
PARENT = ('h', 'parent')
NETP = ('p', NETL, ())


class Arc:
    def __init__(self, place, inhibitor=False, direction=None, tokens=None, name=None):
        self.place, self.inhibitor, self.direction, self.tokens, self.name = place, inhibitor, direction, tokens, name


def lay_net(I, st, nplaces, trans, ptrs=None, net_cls='PetriEngine::PetriNet'):
    """trans: list of (inputs, outputs) of Arc.  Unset direction/tokens become symbols ('dir',k)/('tok',k)."""
    invs, trs, k = [], [], 0
    def put(a):
        nonlocal k
        if a.direction is None:
            a.direction = T('dir', C(k))
            I.note(a.direction, "int")
        elif isinstance(a.direction, int):
            a.direction = C(a.direction)
        if a.tokens is None:
            a.tokens = T('tok', C(k))
            I.note(a.tokens, "unsigned int")
        elif isinstance(a.tokens, int):
            a.tokens = C(a.tokens)
        invs.append(Obj('PetriEngine::Invariant', None, {('f', 'place'): C(a.place), ('f', 'tokens'): a.tokens,
                                                         ('f', 'inhibitor'): C(bool(a.inhibitor)), ('f', 'direction'): a.direction}))
        k += 1
    for ins, outs in trans:
        i = len(invs)
        for a in ins:
            put(a)
        o = len(invs)
        for a in outs:
            put(a)
        trs.append(Obj('PetriEngine::TransPtr', None, {('f', 'inputs'): C(i), ('f', 'outputs'): C(o)}))
    trs.append(Obj('PetriEngine::TransPtr', None, {('f', 'inputs'): C(len(invs)), ('f', 'outputs'): C(len(invs))}))
    st.store[NETL] = Obj(net_cls, None, {('f', '_invariants'): seq(invs), ('f', '_transitions'): seq(trs), ('f', '_ntransitions'): C(len(trans)),
                                         ('f', '_nplaces'): C(nplaces), ('f', '_ninvariants'): C(len(invs)),
                                         ('f', '_placeToPtrs'): seq([C(x) for x in (ptrs or [0] * (nplaces + 1))])})
    ms = []
    for p in range(nplaces):
        m = T('m', C(p))
        I.note(m, "unsigned int")
        ms.append(m)
    st.store[MARK] = seq(ms)
    st.store[PARENT] = Obj('PetriEngine::Structures::State', None, {('f', '_marking'): ('p', MARK, ())})
    return ms
