"""Unification: entries are keyed by abbreviated names and are sums of the original entries."""
from logic import Str, b_and, eqt, fresh_var, mk_existss, mk_sums
from values import Map, Rec
from shapes import MEMMAP
import cmn
from cmn import mapped, upd, val

LEVELS = {'sections': 'archives', 'archives': 'object_files', 'object_files': 'symbols', 'symbols': None}


def chain(t, levels, names):
    """variables for original entries below the memory type t, the condition that they have these abbreviated names, the last one"""
    e, g, ks = t, True, ()
    for level, n in zip(levels, names):
        m = val(e, level)
        k = fresh_var(Str, 'o')
        e = m.elem(k)
        g = b_and(g, m.dom(k), eqt(val(e, 'abbrev_name'), n))
        ks += (k,)
    return ks, g, e


def unified(t, level, path=(), names=()):
    sublevel = LEVELS[level]
    path = path + (level,)

    def dom(n):
        ks, g, e = chain(t, path, names + (n,))
        return mk_existss(ks, g)

    def elem(n):
        ks, g, e = chain(t, path, names + (n,))
        out = dict(abbrev_name=(True, n), size=(True, mk_sums(ks, g, val(e, 'size'))), size_diff=(True, mk_sums(ks, g, val(e, 'size_diff'))))
        if sublevel:
            out[sublevel] = (True, unified(t, sublevel, path, names + (n,)))
        return Rec(out)
    return Map(Str, dom, elem)


def unify(P):
    P.engine('unify', order=False)
    a = P.arg(MEMMAP, 'memory_map')
    m = P.st.heap[a.rid]
    P.call('memorymap', 'unify', a)
    want = upd(m, memory_types=mapped(val(m, 'memory_types'), lambda k, t: upd(t, sections=unified(t, 'sections'))))
    P.equal('the unified map', P.val(a), want)


PARTS = cmn.parts(unify)
