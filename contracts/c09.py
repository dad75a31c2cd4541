"""Sorting keeps all entries and orders every level by the requested value."""
import z3

from spec import BOOL, INT, M, R, STR
from logic import b_and, b_implies, b_ite, eqt, fresh_var, lift, b_not, b_or
from values import Map, Rec
from shapes import MEMMAP, SUMMARY
import cmn
import c16
from cmn import mapped, upd, val

DOWN = {'memory_types': 'sections', 'sections': 'archives', 'archives': 'object_files', 'object_files': 'symbols', 'symbols': None}
SUM = {'entries': 'memory_types', 'memory_types': 'sections', 'sections': None}


def ordered(P, m, level, down, hyps, key, reverse):
    """obligations: the dict is ordered by the key, and so are the dicts in its entries"""
    a, b = fresh_var(m.ksort, 'a'), fresh_var(m.ksort, 'b')
    hy = hyps + (m.dom(a), m.dom(b), b_not(eqt(a, b)))
    if m.before is None:
        P.prove(f'{level} have a known order', False, hyps)
        return
    ka, kb = key(level, m.elem(a)), key(level, m.elem(b))
    P.prove(f'{level} are ordered by the value', b_implies(m.before(a, b), b_ite(reverse, lift(ka) >= lift(kb), lift(ka) <= lift(kb))), hy)
    P.prove(f'the order of {level} is total', b_or(m.before(a, b), m.before(b, a)), hy)
    P.prove(f'the order of {level} is strict', b_not(b_and(m.before(a, b), m.before(b, a))), hy)
    if down[level]:
        ordered(P, val(m.elem(a), down[level]), down[level], down, hyps + (m.dom(a),), key, reverse)


def sort(P):
    P.engine('sort')
    a = P.arg(MEMMAP, 'memory_map')
    o = P.arg(R(sort_diff=BOOL, sort_reverse=BOOL), 'args')
    m = P.st.heap[a.rid]
    f = P.st.heap[o.rid].fields
    P.call('memorymap', 'sort', a, o)
    got = P.val(a)
    P.equal('the entries of the map', got, m)

    def key(level, e):
        n = 'used' if level == 'memory_types' else 'size'
        return b_ite(f['sort_diff'][1], val(e, n + '_diff'), val(e, n))
    ordered(P, val(got, 'memory_types'), 'memory_types', DOWN, (), key, f['sort_reverse'][1])
    P.unchanged('the options', o)


def get_summary_sorted(P):
    P.engine('get_summary_sorted')
    a = P.arg(SUMMARY, 'entries')
    o = P.arg(R(sort_diff=BOOL, sort_reverse=BOOL), 'args')
    m = P.st.heap[a.rid]
    f = P.st.heap[o.rid].fields
    r = P.call('memorymap', 'get_summary_sorted', a, o)
    got = P.val(r)
    P.equal('the entries of the summary', got, m)

    def key(level, e):
        return b_ite(f['sort_diff'][1], val(e, 'size_diff'), val(e, 'size'))
    ordered(P, got, 'entries', SUM, (), key, f['sort_reverse'][1])
    P.unchanged('the options', o)


KEYS = [n + d for n in ('used', 'pct', 'remain', 'total') for d in ('', '_diff')]


def sort_dict_by_key(P):
    P.engine('sort_dict_by_key')
    a = P.arg(M(R(**{k: INT for k in KEYS})), 'dictionary')
    key, rev = z3.Const('key', STR), z3.Const('reverse', BOOL)
    P.assume(b_or(*[eqt(key, k) for k in KEYS]))
    m = P.st.heap[a.rid]
    got = P.val(P.call('memorymap', 'sort_dict_by_key', a, P.eng.literal_cases(key, KEYS), rev))
    P.equal('the entries', got, m)

    def value(level, e):
        out = val(e, KEYS[0])
        for k in KEYS[1:]:
            out = b_ite(eqt(key, k), val(e, k), out)
        return out
    ordered(P, got, 'entries', {'entries': None}, (), value, rev)
    P.unchanged('the dictionary', a)


def summary_table(P):
    c16.summary_table(P, sorting=True)


def rows_sorted(P):
    c16.rows_sorted(P)


PARTS = cmn.parts(sort, get_summary_sorted, sort_dict_by_key, summary_table, rows_sorted)
