"""Pruning of a memory map: remove_unused, ignore_flash_size, trim."""
from spec import BOOL, Null, R, STR
from logic import b_and, b_implies, b_ite, b_not, b_or, eqt, fresh_var, mk_exists, mk_sums
from values import Map, Rec
from shapes import MEMMAP


def subset(m, keep, elem=None):
    return Map(m.ksort, lambda k: b_and(m.dom(k), keep(k, m.elem(k))), elem or m.elem, m.before)


def val(r, n):
    return r.fields[n][1]


def upd(r, **kw):
    out = dict(r.fields)
    for n, v in kw.items():
        out[n] = (True, v)
    return Rec(out, r.cls)


def nonempty(m):
    k = fresh_var(m.ksort, 'k')
    return mk_exists(k, m.dom(k))


def mapped(m, f):
    return Map(m.ksort, m.dom, lambda k: f(k, m.elem(k)), m.before)


def remove_unused(P):
    P.engine('remove_unused')
    a = P.arg(MEMMAP, 'memory_map')
    m = P.st.heap[a.rid]
    P.call('memorymap', 'remove_unused', a)

    def kept(k, t):
        secs = subset(val(t, 'sections'), lambda n, s: nonempty(val(s, 'archives')))
        j = fresh_var(secs.ksort, 's')
        used = mk_sums((j,), secs.dom(j), val(secs.elem(j), 'size'))
        return upd(t, sections=secs, used=used)
    types = subset(val(m, 'memory_types'), lambda k, t: b_not(eqt(val(t, 'used'), 0)))
    P.equal('the used types with their non-empty sections', P.val(a), upd(m, memory_types=mapped(types, kept)), order=True)


def ignore_flash_size(P):
    eng = P.engine('ignore_flash_size')
    a = P.arg(MEMMAP, 'memory_map')
    m = P.st.heap[a.rid]
    P.call('memorymap', 'ignore_flash_size', a)

    def flash(k, t):
        is_flash = eng.strpred('contains', eng.ufun('lower', [k], STR), 'flash')
        return upd(t, size=b_ite(is_flash, 0, val(t, 'size')))
    P.equal('the size of the flash types is zero', P.val(a), upd(m, memory_types=mapped(val(m, 'memory_types'), flash)), order=True)


def trim(P):
    P.engine('trim')
    a = P.arg(MEMMAP, 'memory_map')
    o = P.arg(R(diff=BOOL, show_unchanged=BOOL, archives=BOOL, files=BOOL, archive_details=Null(STR)), 'args')
    m = P.st.heap[a.rid]
    f = P.st.heap[o.rid].fields
    P.call('memorymap', 'trim', a, o)
    allitems = b_or(b_not(f['diff'][1]), f['show_unchanged'][1])
    det = f['archive_details'][1]
    none, name = det.alts[0][0], det.alts[1][1]
    details = b_and(b_not(none), b_not(eqt(name, '')))
    only_archives = b_and(b_not(details), f['archives'][1])
    only_files = b_and(b_not(details), b_not(f['archives'][1]), f['files'][1])

    def changed(k, e, n='size_diff'):
        return b_or(allitems, b_not(eqt(val(e, n), 0)))

    def obj(k, e):
        return upd(e, symbols=subset(val(e, 'symbols'), lambda k, x: b_and(b_not(only_files), changed(k, x))))

    def arch(k, e):
        return upd(e, object_files=mapped(subset(val(e, 'object_files'), lambda k, x: b_and(b_not(only_archives), changed(k, x))), obj))

    def sec(k, e):
        return upd(e, archives=mapped(subset(val(e, 'archives'), lambda k, x: b_and(
            b_implies(details, eqt(val(x, 'abbrev_name'), name)), changed(k, x))), arch))

    def typ(k, e):
        return upd(e, sections=mapped(subset(val(e, 'sections'), changed), sec))
    types = mapped(subset(val(m, 'memory_types'), lambda k, x: changed(k, x, 'used_diff')), typ)
    P.equal('the changed entries of the requested depth', P.val(a), upd(m, memory_types=types), order=True)
    P.unchanged('the options', o)


import os
PARTS = [('remove_unused', remove_unused), ('ignore_flash_size', ignore_flash_size), ('trim', trim)]
PARTS = [p for p in PARTS if not os.environ.get('PART') or p[0] == os.environ['PART']]
