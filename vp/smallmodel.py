"""Evaluation of abstract results (terms and path facts) under an assignment of the input symbols."""
from .engine import *


class Unk(Exception):
    pass


def _n(x):
    return x if isinstance(x, float) else int(x)


def term(v, env):
    if isinstance(v, Obj):
        raise Unk('object')
    if v in env:
        return env[v]
    if v[0] == 'c':
        return v[1]
    if v[0] == 't':
        op = v[1]
        if op == 'lin':
            r = v[2]
            for a, k in v[3]:
                r += k * _n(term(a, env))
            return r
        if op == 'trunc':
            return int(term(v[3], env)) & ((1 << v[2]) - 1)
        if op == 'strunc':
            x = int(term(v[3], env)) & ((1 << v[2]) - 1)
            return x - (1 << v[2]) if x >> (v[2] - 1) else x
        if op in ('*', 'mul'):
            r = 1
            try:
                for a in v[2:]:
                    r *= _n(term(a, env))
                return r
            except Unk:
                pass
    raise Unk(show(v)[:200])


def holds(facts, env, free=()):
    """are the path facts consistent with env?  free: names of terms that are independent of env.
    -> True / False / None (a fact is not understood)"""
    r = True
    for k, f in facts.items():
        t = k[1]
        try:
            x = term(t, env)
        except Unk:
            if t[0] == 't' and t[1] in free:
                continue
            r = None if r else r
            continue
        if k[0] == 'b':
            if bool(x) != f:
                return False
        else:
            lo, hi, ex = f
            if x < lo or x > hi or x in ex:
                return False
    return r
