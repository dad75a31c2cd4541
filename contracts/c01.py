"""Output sections are cut at the ends of memory regions: one step of the worklist, for an arbitrary section."""
import ast

from spec import INT, L, R, STR, mk
from logic import Str, b_and, b_implies, b_not, b_or, eqt, fresh_var, mk_existss, mk_forall, valid, LAST
from engine import Out
from values import Ref, Seq, value_eq
import cmn
import steps
from cmn import val

SYM = R(name=STR, address=INT, size=INT)
ISEC = R(name=STR, address=INT, size=INT, fill=INT, archive=STR, object_file=STR, symbols=L(SYM))
OSEC = R(name=STR, address=INT, size=INT, input_sections=L(ISEC))
REGION = R(name=STR, origin=INT, length=INT, attrs=STR, type=R(name=STR))

ASSUMPTIONS = ['precondition: sizes and fills are not negative, input sections lie inside their output section (unless empty), symbols inside '
               'their input section; proved to be kept for the rest that is cut off']


def every(seq, f):
    out = []

    def add(d, ks, x):
        c = b_implies(d, f(x))
        for k in ks:
            c = mk_forall(k, c)
        out.append(c)
    steps.items(seq, add)
    return b_and(*out)


def end(x):
    return val(x, 'address') + val(x, 'size')


def wellformed(s):
    def isec(i):
        e = end(i) + val(i, 'fill')

        def sym(y):
            return b_and(val(y, 'size') >= 0, val(y, 'address') >= val(i, 'address'), end(y) <= end(i))
        return b_and(val(i, 'size') >= 0, val(i, 'fill') >= 0,
                     b_or(eqt(val(i, 'size') + val(i, 'fill'), 0), b_and(val(i, 'address') >= val(s, 'address'), e <= end(s))),
                     every(val(i, 'symbols'), sym))
    return b_and(val(s, 'size') >= 0, every(val(s, 'input_sections'), isec))


def split_map_sections(P):
    eng = P.engine('_split_map_sections', order=True)
    a, g = P.arg(L(OSEC), 'sections'), P.arg(L(REGION), 'regions')
    secs, regs = P.st.heap[a.rid], P.st.heap[g.rid].segs[0]
    P.assume(every(secs, wellformed))
    seen = {}

    def rule(eng, st, fr, n):
        if seen:
            raise steps.Unsupported('more than one while loop')
        lists = steps.local_lists(eng, st, fr)
        used = [x.id for x in ast.walk(n.test) if isinstance(x, ast.Name) and x.id in lists]
        if len(used) != 1 or n.orelse:
            raise steps.Unsupported('a while loop that is not over a worklist')
        W = lists.pop(used[0])
        rids = {r.rid for r in lists.values()} - {W.rid}
        if len(rids) != 1:
            raise steps.Unsupported('lists of the function other than the worklist and the result')
        D = Ref(rids.pop())
        # on entry
        P.out = st
        P.equal('the worklist has the sections', st.heap[W.rid], secs)
        P.equal('the result is empty', st.heap[D.rid], Seq())
        # the loop is left only if the worklist is empty
        s = st.copy()
        s.shares = s.poison = ()
        sec = mk(OSEC, 'section')
        todo, done = mk(L(OSEC), 'todo'), mk(L(OSEC), 'done')
        s.heap[W.rid], s.heap[D.rid] = Seq(), done
        s, c = eng.cond(s, fr, n.test)
        P.add(f'{P.label}: the loop ends if the worklist is empty', valid(s.pc, b_not(c), final=True), str(c))
        s = s.copy()
        s.heap[W.rid] = Seq(todo.segs + (steps.one(sec),))
        s, c = eng.cond(s, fr, n.test)
        P.add(f'{P.label}: the loop goes on while the worklist is not empty', valid(s.pc, c, final=True), str(c))
        s = s.copy()
        steps.forget(s, fr, steps.assigned(n.body))
        wf = wellformed(sec)
        s = s.assume(wf)
        o = steps.body_once(eng, s, fr, n)
        A = o.state
        P.add(f'{P.label}: no iteration raises an exception', not o.exits)
        seen['A'] = A
        P.out = A
        newW, newD = steps.added(todo, A.heap[W.rid]), steps.added(done, A.heap[D.rid])
        if newW is None or newD is None:
            P.add(f'{P.label}: the section is replaced by its parts, nothing else is changed', False)
        else:
            step(P, A, sec, newW, newD, regs)
        for r in range(1, max(st.heap) + 1):
            if r in eng.inputs:
                P.equal('the inputs are not modified', A.heap[r], s.heap[r])
        P.add(f'{P.label}: no object is changed that is also in the result', not A.poison, str(A.poison)[:300])
        # after the loop: the worklist is empty, the result has all parts
        f = st.copy()
        f.heap[W.rid], f.heap[D.rid] = Seq(), mk(L(OSEC), 'all')
        steps.forget(f, fr, steps.assigned(n.body) - set(used) - {k for k, v in lists.items()})
        seen['D'] = D
        seen['all'] = f.heap[D.rid]
        return Out(f)
    eng.while_rule = rule
    r = P.call('memorymap', '_split_map_sections', a, g)
    if 'D' not in seen:
        P.add(f'{P.label}: the sections are cut by a worklist', False)
        return
    P.add(f'{P.label}: the result of the loop is returned', isinstance(r, Ref) and eng.resolve(P.out, r).rid == seen['D'].rid and P.out.heap[seen['D'].rid] is seen['all'])
    P.unchanged('the list of sections', a)
    P.unchanged('the regions', g)


def step(P, A, sec, newW, newD, regs):
    both = Seq(newD.segs + newW.segs)

    def contains(r, addr):
        return b_and(val(r, 'origin') <= addr, addr < val(r, 'origin') + val(r, 'length'))
    i, j = fresh_var(regs.sorts[0], 'i'), fresh_var(regs.sorts[0], 'j')

    def first(i, addr):
        """region i is the first that contains the address"""
        return b_and(regs.dom((i,)), contains(regs.elem((i,)), addr),
                     b_not(mk_existss((j,), b_and(regs.dom((j,)), regs.before((j,), (i,)), contains(regs.elem((j,)), addr)))))
    addr = val(sec, 'address')
    none = b_not(mk_existss((i,), b_and(regs.dom((i,)), contains(regs.elem((i,)), addr))))
    rend = val(regs.elem((i,)), 'origin') + val(regs.elem((i,)), 'length')
    fits = end(sec) <= rend
    # kept as it is
    for what, hyp in (('it is in no region', (none,)), ('it fits into the first region that contains it', (first(i, addr), fits))):
        P.prove(f'nothing is left to do if {what}', b_and(*[b_not(g.dom(tuple(fresh_var(s, 'q') for s in g.sorts))) for g in newW.segs]), hyp)
        P.equal(f'the section is kept if {what}', newD, Seq([steps.one(sec)]), hyp)
    # cut
    hyp = (first(i, addr), b_not(fits))
    if len(newD.segs) != 1 or len(newW.segs) != 1 or newD.segs[0].sorts or newW.segs[0].sorts:
        P.add(f'{P.label}: a section is cut into one part and the rest', False, f'{len(newD.segs)} and {len(newW.segs)} parts')
        return
    p, q = newD.segs[0].elem(()), newW.segs[0].elem(())
    P.prove('a part is done', newD.segs[0].dom(()), hyp)
    P.prove('the rest is to be done', newW.segs[0].dom(()), hyp)
    for n in ('name', 'address', 'size'):
        P.prove(f'the {n} of the part', eqt(val(p, n), rend - addr if n == 'size' else val(sec, n)), hyp)
        P.prove(f'the {n} of the rest', eqt(val(q, n), {'name': val(sec, 'name'), 'address': rend, 'size': end(sec) - rend}[n]), hyp)
    for what, x in (('the part', p), ('the rest', q)):
        steps.has(P, what, x, OSEC.fields, hyp)

        def isec(d, ks, y):
            steps.has(P, f'an input section of {what}', y, ISEC.fields, hyp + (d,))
            steps.items(val(y, 'symbols'), lambda d2, ks2, z: steps.has(P, f'a symbol of {what}', z, SYM.fields, hyp + (d, d2)))
        steps.items(val(x, 'input_sections'), isec)
    # the result
    k = fresh_var(regs.sorts[0], 'k')
    P.prove('a part does not extend past the end of the first region it starts in',
            b_implies(b_and(newD.segs[0].dom(()), first(k, val(p, 'address'))), end(p) <= val(regs.elem((k,)), 'origin') + val(regs.elem((k,)), 'length')))
    P.prove('the rest is smaller (termination)', b_and(val(q, 'size') < val(sec, 'size'), val(q, 'size') >= 0), (newW.segs[0].dom(()),))
    # the invariant of the rest, item by item
    g = newW.segs[0].dom(())

    def inside(part, lo, hi, what, cond):
        def isec(d, ks, x):
            e = end(x) + val(x, 'fill')
            h = (cond, d)
            P.prove(f'{what}: sizes and fills are not negative', b_and(val(x, 'size') >= 0, val(x, 'fill') >= 0), h)
            P.prove(f'{what}: input sections lie inside of it', b_or(eqt(val(x, 'size') + val(x, 'fill'), 0), b_and(val(x, 'address') >= lo, e <= hi)), h)

            def sym(d2, ks2, y):
                P.prove(f'{what}: symbols lie inside their input section', b_and(val(y, 'size') >= 0, val(y, 'address') >= val(x, 'address'), end(y) <= end(x)), h + (d2,))
            steps.items(val(x, 'symbols'), sym)
        steps.items(val(part, 'input_sections'), isec)
    inside(q, val(q, 'address'), end(q), 'the rest', g)
    inside(p, val(p, 'address'), end(p), 'the part', newD.segs[0].dom(()))
    # conservation
    ar, ob, nm = fresh_var(Str, 'archive'), fresh_var(Str, 'object'), fresh_var(Str, 'name')

    def own(x):
        return b_and(eqt(val(x, 'archive'), ar), eqt(val(x, 'object_file'), ob))

    def cond(c, t):
        from logic import b_ite
        return b_ite(c, t, 0)

    def measure(f):
        return lambda s: steps.total(val(s, 'input_sections'), f)
    for n, f in (('sizes of input sections', lambda x: cond(own(x), val(x, 'size'))), ('fill of input sections', lambda x: cond(own(x), val(x, 'fill'))),
                 ('sizes of symbols', lambda x: cond(own(x), steps.total(val(x, 'symbols'), lambda y: cond(eqt(val(y, 'name'), nm), val(y, 'size')))))):
        steps.prove_sums(P, f'the {n} are kept, per archive and object file', A, steps.total(both, measure(f)), measure(f)(sec))


PARTS = cmn.parts(split_map_sections)
