from spec import BOOL, L, M, Null, R, STR
from logic import b_and, b_ite, b_not, b_or, eqt, fresh_var, lift, mk_exists
from values import Map
from shapes import SUMMARY


def subset(m, keep):
    return Map(m.ksort, lambda k: b_and(m.dom(k), keep(k, m.elem(k))), m.elem, m.before)


def changed(P):
    P.engine('rem_summary_unchanged')
    s = P.arg(SUMMARY, 'entries')
    a = P.arg(R(diff=BOOL, show_unchanged=BOOL), 'args')
    args = P.st.heap[a.rid]
    m = P.st.heap[s.rid]
    r = P.call('memorymap', 'rem_summary_unchanged', s, a)
    d, sh = args.fields['diff'][1], args.fields['show_unchanged'][1]
    want = subset(m, lambda k, e: b_or(b_not(d), sh, b_not(eqt(e.fields['size_diff'][1], 0))))
    P.equal('the entries with a difference', P.val(r), want, order=True)
    P.unchanged('the summary', s)


PARTS = [('rem_summary_unchanged', changed)]


def filtered(P):
    eng = P.engine('get_summary_filtered')
    s = P.arg(SUMMARY, 'entries')
    a = P.arg(R(filter=Null(L(STR)), abbrev=BOOL), 'args')
    m = P.st.heap[s.rid]
    f = P.st.heap[a.rid].fields
    r = P.call('memorymap', 'get_summary_filtered', s, a)
    isnone, pats = f['filter'][1].alts[0][0], f['filter'][1].alts[1][1].segs[0]
    ab = f['abbrev'][1]

    def keep(k, e):
        name = b_ite(ab, e.fields['abbrev_name'][1], k)
        p = fresh_var(pats.sorts[0], 'p')
        return b_or(isnone, mk_exists(p, b_and(pats.dom((p,)), eng.ufun('fnmatch', [name, eng.concat(['*', pats.elem((p,)), '*'])], BOOL))))
    P.equal('the entries matching a pattern', P.val(r), subset(m, keep), order=True)
    P.unchanged('the summary', s)


PARTS = [('rem_summary_unchanged', changed), ('get_summary_filtered', filtered)]
