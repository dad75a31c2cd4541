"""diff: union of both trees, current values, exact differences."""
from logic import b_and, b_ite, b_or, lift
from values import Map, Rec
from shapes import MEMMAP


def g(x, n):
    return x.fields[n][1]


LEVELS = {'memory_types': 'sections', 'sections': 'archives', 'archives': 'object_files', 'object_files': 'symbols', 'symbols': None}


def union(cur, ref, incur, inref, level):
    """expected difference of two dicts; incur: the current one exists"""
    def dom(k):
        return b_or(b_and(incur, cur.dom(k)), b_and(inref, ref.dom(k)))

    def elem(k):
        c, r = cur.elem(k), ref.elem(k)
        ic, ir = b_and(incur, cur.dom(k)), b_and(inref, ref.dom(k))

        def cv(n):
            return b_ite(ic, g(c, n), 0)

        def rv(n):
            return b_ite(ir, g(r, n), 0)
        out = {}
        for n in c.fields:
            if n in ('size', 'used'):
                v = cv(n)
            elif n in ('size_diff', 'used_diff'):
                v = lift(cv(n[:-5])) - lift(rv(n[:-5]))
            elif n == 'abbrev_name':
                v = b_ite(ic, g(c, n), g(r, n))
            else:
                v = union(g(c, n), g(r, n), ic, ir, n)
            out[n] = (True, v)
        return Rec(out)
    return Map(cur.ksort, dom, elem, None)


def expected(c, r):
    out = dict(c.fields)
    out['target_diff'] = (True, g(r, 'target'))
    out['project_path_diff'] = (True, g(r, 'project_path'))
    out['image_size_diff'] = (True, lift(g(c, 'image_size')) - lift(g(r, 'image_size')))
    out['memory_types'] = (True, union(g(c, 'memory_types'), g(r, 'memory_types'), True, True, 'memory_types'))
    return Rec(out)


def diff(P):
    P.engine('diff', order=False)
    cur, ref = P.arg(MEMMAP, 'cur'), P.arg(MEMMAP, 'ref')
    c, r = P.st.heap[cur.rid], P.st.heap[ref.rid]
    res = P.call('memorymap', 'diff', cur, ref)
    P.equal('the difference', P.val(res), expected(c, r))
    P.unchanged('the current map', cur)
    P.unchanged('the reference map', ref)


PARTS = [('diff', diff)]
