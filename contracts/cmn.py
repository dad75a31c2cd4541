"""Helpers of the contracts."""
import os
from logic import b_and, b_not, fresh_var, mk_exists
from values import Map, Rec


def val(r, n):
    return r.fields[n][1]


def upd(r, **kw):
    out = dict(r.fields)
    for n, v in kw.items():
        out[n] = (True, v)
    return Rec(out, r.cls)


def subset(m, keep, elem=None):
    return Map(m.ksort, lambda k: b_and(m.dom(k), keep(k, m.elem(k))), elem or m.elem, m.before)


def mapped(m, f):
    return Map(m.ksort, m.dom, lambda k: f(k, m.elem(k)), m.before)


def nonempty(m):
    k = fresh_var(m.ksort, 'k')
    return mk_exists(k, m.dom(k))


def parts(*fs):
    want = os.environ.get('PART')
    return [(f.__name__, f) for f in fs if not want or f.__name__ == want]
