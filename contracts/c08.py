"""Summaries: every item of the map is counted once, in the entry of its name."""
from spec import BOOL, Null, R, STR
from logic import Str, b_and, b_ite, b_not, b_or, eqt, fresh_var, lift, mk_existss, mk_sums
from values import Map, Rec
from shapes import MEMMAP
import cmn
from cmn import mapped, upd, val


def items(m, levels, fixed=()):
    """(variables, condition, keys, entries) of an item of the map; the first keys may be fixed"""
    e, g, ks, keys, es = m, True, (), (), ()
    for i, level in enumerate(levels):
        d = val(e, level)
        if i < len(fixed):
            k = fixed[i]
        else:
            k = fresh_var(Str, 'i')
            ks += (k,)
        e = d.elem(k)
        g = b_and(g, d.dom(k))
        keys += (k,)
        es += (e,)
    return ks, g, keys, es


def check(P, fname, levels, name, wanted, abbrev, args, what):
    a = P.arg(MEMMAP, 'memory_map')
    o = P.arg(R(diff=BOOL, show_unchanged=BOOL, unify=BOOL, **args), 'args')
    m = P.st.heap[a.rid]
    f = P.st.heap[o.rid].fields
    r = P.call('memorymap', fname, a, o)
    opt = {n: x[1] for n, x in f.items()}

    def match(q, fixed=()):
        ks, g, keys, es = items(m, levels, fixed)
        return ks, b_and(g, wanted(opt, keys, es), eqt(name(opt, keys, es), q)), keys, es

    def total(q, field, fixed=()):
        ks, g, keys, es = match(q, fixed)
        return mk_sums(ks, g, val(es[-1], field))

    def entry(q):
        def typ(t, ti):
            def sec(s, si):
                return Rec(dict(abbrev_name=(True, val(si, 'abbrev_name')), size=(True, total(q, 'size', (t, s))), size_diff=(True, total(q, 'size_diff', (t, s)))))
            return Rec(dict(size=(True, total(q, 'size', (t,))), size_diff=(True, total(q, 'size_diff', (t,))), sections=(True, mapped(val(ti, 'sections'), sec))))
        return Rec(dict(size=(True, total(q, 'size')), size_diff=(True, total(q, 'size_diff')), memory_types=(True, mapped(val(m, 'memory_types'), typ))))

    def dom(q):
        ks, g, keys, es = match(q)
        return b_and(mk_existss(ks, g), b_or(b_not(opt['diff']), opt['show_unchanged'], b_not(eqt(total(q, 'size_diff'), 0))))
    got = P.val(r)

    def strip(x):
        return Rec({n: v for n, v in x.fields.items() if n != 'abbrev_name'})
    P.equal(what, Map(Str, got.dom, lambda q: strip(got.elem(q))), Map(Str, dom, entry))
    q = fresh_var(Str, 'q')
    ks, g, keys, es = match(q)
    P.prove('the short name of an entry is that of one of its items', mk_existss(ks, b_and(g, eqt(val(got.elem(q), 'abbrev_name'), abbrev(P.eng, keys, es)))), (dom(q),))
    P.unchanged('the map', a, order=False)
    P.unchanged('the options', o)
    return m, opt


def archives(P):
    P.engine('get_archives_summary', order=False)
    check(P, 'get_archives_summary', ('memory_types', 'sections', 'archives'), lambda o, k, e: k[2], lambda o, k, e: True,
          lambda eng, k, e: val(e[2], 'abbrev_name'), {}, 'the archives')


def files(P):
    eng = P.engine('get_object_files_summary', order=False)
    check(P, 'get_object_files_summary', ('memory_types', 'sections', 'archives', 'object_files'),
          lambda o, k, e: b_ite(o['unify'], val(e[3], 'abbrev_name'), eng.concat([k[2], ':', k[3]])), lambda o, k, e: True,
          lambda eng, k, e: eng.ufun('os.path.basename', [k[3]], STR), {}, 'the object files')


def symbols(P):
    eng = P.engine('get_symbols_summary', order=False)
    levels = ('memory_types', 'sections', 'archives', 'object_files', 'symbols')

    def wanted(o, k, e):
        return eqt(val(e[2], 'abbrev_name'), o['archive_details'])
    m, opt = check(P, 'get_symbols_summary', levels,
                   lambda o, k, e: b_ite(o['unify'], val(e[4], 'abbrev_name'), eng.concat([k[2], ':', k[3], ':', k[4]])), wanted,
                   lambda eng, k, e: k[4], dict(archive_details=STR), 'the symbols of the archive')
    ks, g, keys, es = items(m, levels)
    some = mk_existss(ks, b_and(g, wanted(opt, keys, es)))
    P.prove('a summary is only returned for a known archive', some)
    P.raises_only('only an unknown archive is an error', b_not(some))


PARTS = cmn.parts(archives, files, symbols)
