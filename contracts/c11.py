"""Symbols of the ELF file are put into the input section that contains them: one arbitrary symbol, and one arbitrary step to the next section."""
import ast

import z3

from spec import INT, L, R, STR, mk
from logic import Idx, Unsupported, b_and, b_implies, b_not, b_or, eqt, fresh_var, lift, mk_existss, mk_forall
from engine import Out
from values import Rec, Ref, Seg, Seq, ite
import cmn
import steps
from c12 import symbol_table
from cmn import upd, val

SYM = R(name=STR, address=INT, size=INT)
ISEC = R(name=STR, address=INT, size=INT, fill=INT, archive=STR, object_file=STR)
OSEC = R(name=STR, address=INT, size=INT, input_sections=L(ISEC))
ESYM = R('Elf_Sym', name=STR, st_value=INT, st_size=INT, type=INT)
OBJECT, FUNC = 1, 2

ASSUMPTIONS = ['precondition: sizes are not negative and input sections do not overlap (ensured by the map file parser)',
               'the first item of a sorted list with some items exists (lists are finite)',
               'symbols are added one after the other, input sections are passed one after the other (induction)']


def no_elf(P):
    P.engine('_add_symbols_to_sections without an ELF file')
    a = P.arg(L(OSEC), 'sections')
    s0 = P.st.heap[a.rid]
    P.call('memorymap', '_add_symbols_to_sections', None, a)

    def isec(x):
        return upd(x, symbols=Seq([steps.one(Rec({n: (True, val(x, n)) for n in ('name', 'address', 'size')}))]))
    P.equal('every input section is a symbol', P.out.heap[a.rid], update(s0, lambda ks, x: isec(x)), order=True)


def update(s, f):
    """the sections with the input sections replaced by f(keys, input section)"""
    g = s.segs[0]

    def osec(ks):
        x = g.elem(ks)
        h = val(x, 'input_sections').segs[0]
        return upd(x, input_sections=Seq([Seg(h.sorts, h.dom, lambda js: f(tuple(ks) + tuple(js), h.elem(js)), h.before)]))
    return Seq([Seg(g.sorts, g.dom, osec, g.before)])


def with_elf(P):
    eng = P.engine('_add_symbols_to_sections')
    e, a = P.arg(R('Elf', symbols=L(ESYM)), 'elf'), P.arg(L(OSEC), 'sections')
    s0 = P.st.heap[a.rid]
    esyms = val(P.st.heap[e.rid], 'symbols').segs[0]
    S = {}
    two = lambda n: (fresh_var(Idx, n), fresh_var(Idx, n))

    def dom(ks):
        return b_and(s0.segs[0].dom(ks[:1]), val(s0.segs[0].elem(ks[:1]), 'input_sections').segs[0].dom(ks[1:]))

    def sec(ks):
        return val(s0.segs[0].elem(ks[:1]), 'input_sections').segs[0].elem(ks[1:])

    def path(ks):
        return Ref(a.rid, (('s', 0, tuple(ks[:1])), ('f', 'input_sections'), ('s', 0, tuple(ks[1:]))))

    def start(ks):
        return val(sec(ks), 'address')

    def end(ks):
        return val(sec(ks), 'address') + val(sec(ks), 'size')

    def same(x, y):
        return b_and(*[eqt(p, q) for p, q in zip(x, y)])

    def lt(x, y):
        """input section x is before y in the order of the addresses (and of the list)"""
        o = s0.segs[0]
        inner = lambda k: val(o.elem((k,)), 'input_sections').segs[0]
        listed = b_or(o.before(x[:1], y[:1]), b_and(eqt(x[0], y[0]), inner(x[0]).before(x[1:], y[1:])))
        return b_or(start(x) < start(y), b_and(eqt(start(x), start(y)), listed))

    def every(f, *names):
        ks = tuple(fresh_var(Idx, 'q') for _ in range(2 * len(names)))
        c = f(*[ks[2 * i:2 * i + 2] for i in range(len(names))])
        for k in ks:
            c = mk_forall(k, c)
        return c
    P.assume(every(lambda x: b_implies(dom(x), val(sec(x), 'size') >= 0), 'x'),
             every(lambda x, y: b_implies(b_and(dom(x), dom(y), lt(x, y), val(sec(x), 'size') > 0, val(sec(y), 'size') > 0), end(x) <= start(y)), 'x', 'y'))

    def rest(c):
        """the list of the input sections behind c"""
        g = Seg((Idx, Idx), lambda ks: b_and(dom(ks), lt(c, ks)), sec, lt)
        g.behind = c
        return Seq([g])

    def first(st, cond):
        w = two('w')
        return st.assume(dom(w), cond(w), every(lambda q: b_implies(b_and(dom(q), cond(q)), b_or(same(q, w), lt(w, q))), 'q')), w

    def pop(eng, st, fr, f, args, kwargs, n):
        if not isinstance(f.self_, Ref) or kwargs or len(args) != 1 or not isinstance(args[0], int) or args[0] != 0:
            raise Unsupported('pop')
        r = eng.resolve(st, f.self_)
        if r.path or r.rid in eng.inputs:
            raise Unsupported('pop of another list')
        st = st.copy()
        if 'L' not in S:
            # the list of all input sections
            S['L'] = r
            got = st.heap[r.rid]
            P.out = st
            empty = update(s0, lambda ks, x: upd(x, symbols=Seq()))
            P.equal('all input sections start without symbols', st.heap[a.rid], empty)
            linked = {a.rid}
            for _ in st.shares:
                for x, y in st.shares:
                    if x[0] in linked or y[0] in linked:
                        linked |= {x[0], y[0]}
            P.add(f'{P.label}: the list has the input sections themselves', r.rid in linked and not st.poison)
            P.equal('the list has all input sections, ordered by address', got, Seq([Seg((Idx, Idx), dom, lambda ks: upd(sec(ks), symbols=Seq()), lt)]), order=True)
            eng.oblige(st, mk_existss(two_q(), dom), eng.name(fr, n, 'the list is not empty'))
            st, w = first(st, lambda q: True)
            st.shares = st.poison = ()
            S['state'] = lambda old, c0, c: old
        else:
            if r.rid != S['L'].rid or not hasattr(st.heap[r.rid].segs[0], 'behind'):
                raise Unsupported('pop of another list')
            c = st.heap[r.rid].segs[0].behind
            eng.oblige(st, mk_existss(two_q(), lambda q: b_and(dom(q), lt(c, q))), eng.name(fr, n, 'the list is not empty'))
            st, w = first(st, lambda q: lt(c, q))
        st = st.copy()
        st.heap[r.rid] = rest(w)
        return st, path(w)

    def two_q():
        return two('q')

    def mk_existss(q, f):
        from logic import mk_existss as m
        return m(q, f(q))

    def current(eng, st, fr):
        """the variable with the current input section, and its keys"""
        out = []
        for x, v in st.frames[fr.fid].items():
            if isinstance(v, Ref):
                r = eng.resolve(st, v)
                if r.rid == a.rid and len(r.path) == 3:
                    out.append((x, r.path[0][2] + r.path[2][2]))
        if len(out) != 1:
            raise Unsupported('variables with input sections')
        return out[0]

    def placeholder(x):
        return Rec({n: (True, val(x, n)) for n in ('name', 'address', 'size')})

    def passed(old, c0, c, extra=lambda ks: []):
        """the input sections after those from c0 to c were passed"""
        def f(ks, x):
            o = val(x, 'symbols')
            k = tuple(fresh_var(Idx, 'q') for g in o.segs for _ in g.sorts)
            none = b_not(mk_existss(k, lambda k: o.segs[0].dom(k)))
            ph = Seg((), lambda _: b_and(b_or(same(c0, ks), lt(c0, ks)), lt(ks, c), none), lambda _: placeholder(x), lambda p, q: False)
            return upd(x, symbols=Seq(list(o.segs) + [ph] + extra(ks)))
        return update(old, f)

    def before(c, bound):
        return every(lambda q: b_implies(b_and(dom(q), lt(q, c)), end(q) <= bound), 'q')

    def while_rule(eng, st, fr, n):
        if 'sym' not in S or 'while' in S or n.orelse:
            raise Unsupported('while loop')
        S['while'] = True
        var, c0 = current(eng, st, fr)
        addr = val(S['sym'], 'st_value')
        P.out = st
        old = st.heap[a.rid]
        P.equal('the sections at the first step', old, S['old'])
        P.prove('the sections before the first are behind the symbol', before(c0, addr))
        c = two('c')
        s = st.copy()
        steps.forget(s, fr, steps.assigned(n.body))
        s.heap[a.rid] = passed(S['old'], c0, c)
        s.heap[S['L'].rid] = rest(c)
        s.frames[fr.fid][var] = path(c)
        s = s.assume(dom(c), b_or(same(c0, c), lt(c0, c)), before(c, addr))
        s, t = eng.cond(s, fr, n.test)
        o = steps.body_once(eng, s.assume(t), fr, n)
        for x in o.exits:
            P.out = x.state
            P.prove('an exception while sections are passed: the symbol is behind all input sections', every(lambda q: b_implies(dom(q), end(q) <= addr), 'q'))
        if o.state is None:
            raise Unsupported('loop without end')
        A = P.out = o.state
        v2, c2 = current(eng, A, fr)
        g = A.heap[S['L'].rid].segs[0]
        ok = v2 == var and getattr(g, 'behind', None) == c2
        P.add(f'{P.label}: the next section is taken from the list', ok)
        if ok:
            P.prove('the next section is behind the section', b_and(dom(c2), lt(c, c2)))
            P.prove('the sections before the next end before the symbol', before(c2, addr))
            P.equal('sections that are passed get a symbol of their own only if they have none', A.heap[a.rid], passed(S['old'], c0, c2))
            S['passed'] = True
        P.add(f'{P.label}: no object is changed through another reference', not A.poison)
        f = s.assume(b_not(t))
        S['c0'] = c0
        return Out(f)

    def for_rule(eng, st, fr, n, it):
        if 'L' not in S or 'sym' in S:
            return None
        if n.orelse or not isinstance(it, Ref):
            raise Unsupported('loop over the symbols')
        P.out = st
        key = lambda ks: val(esyms.elem(ks), 'st_value')
        less = lambda p, q: b_or(key(p) < key(q), b_and(eqt(key(p), key(q)), esyms.before(p, q)))
        sized = Seg((Idx,), lambda ks: b_and(esyms.dom(ks), b_or(eqt(val(esyms.elem(ks), 'type'), FUNC), eqt(val(esyms.elem(ks), 'type'), OBJECT)),
                                             b_not(eqt(val(esyms.elem(ks), 'st_size'), 0))), esyms.elem, less)
        P.equal('the sized functions and objects in the order of their addresses', eng.deref(st, it, whole=True), Seq([sized]), order=True)
        var, w = current(eng, st, fr)
        P.prove('the first section', every(lambda q: b_implies(dom(q), b_or(same(q, w), lt(w, q))), 'q'))
        P.prove('no section is before the first one', before(w, fresh_var(z3.IntSort(), 'any')))
        k = fresh_var(Idx, 'k')
        sym = S['sym'] = esyms.elem((k,))
        addr, size = val(sym, 'st_value'), val(sym, 'st_size')
        c0, bound = two('c'), fresh_var(z3.IntSort(), 'bound')
        any_ = mk(L(R(name=STR, address=INT, size=INT, input_sections=L(R(symbols=L(SYM))))), 'any')
        S['old'] = old = update(s0, lambda ks, x: upd(x, symbols=val(val(any_.segs[0].elem(ks[:1]), 'input_sections').segs[0].elem(ks[1:]), 'symbols')))
        s = st.copy()
        steps.forget(s, fr, steps.assigned([n]))
        s.heap[a.rid], s.heap[S['L'].rid] = old, rest(c0)
        s.frames[fr.fid][var] = path(c0)
        s = s.assume(sized.dom((k,)), dom(c0), before(c0, bound), bound <= addr, size >= 0)
        s = eng.assign(s, fr, n.target, Ref(it.rid, it.path + (('s', 0, (k,)),)))
        o = steps.body_once(eng, s, fr, n)
        if 'c0' not in S or not S.get('passed'):
            raise Unsupported('sections are not passed by a while loop')
        for x in o.exits:
            P.out = x.state
            _, c = current(eng, x.state, fr)
            P.prove('an exception: the symbol crosses the end of the first input section that ends behind its address', b_and(dom(c), before(c, addr), end(c) > addr, addr + size > end(c)))
        if o.state is None:
            raise Unsupported('loop without end')
        A = P.out = o.state
        v2, c = current(eng, A, fr)
        inside = lambda q: b_and(dom(q), start(q) <= addr, addr < end(q))
        P.add(f'{P.label}: the next symbol starts with the current section', v2 == var and getattr(A.heap[S['L'].rid].segs[0], 'behind', None) == c)
        q = two('q')
        P.prove('the invariant for the next symbol', b_and(dom(c), before(c, addr)))
        P.prove('an input section that contains the symbol is the current one', b_implies(inside(q), same(q, c)))
        P.prove('the symbol does not cross the end of the input section', b_implies(inside(q), addr + size <= end(q)))
        name = ite(eqt(val(sym, 'type'), FUNC), eng.concat([val(sym, 'name'), '()']), val(sym, 'name'))
        entry = Rec(dict(name=(True, name), address=(True, addr), size=(True, size)))
        P.equal('the symbol is added to the input section that contains it and to no other', A.heap[a.rid],
                passed(old, c0, c, lambda ks: [Seg((), lambda _: inside(ks), lambda _: entry, lambda p, q: False)]))
        P.equal('the symbols are not modified', A.heap[e.rid], P.st.heap[e.rid])
        P.add(f'{P.label}: no object is changed through another reference (symbol)', not A.poison)
        f = st.copy()
        steps.forget(f, fr, steps.assigned([n]) | {var})
        f.heap[a.rid] = S['all'] = update(s0, lambda ks, x: upd(x, symbols=val(val(any_.segs[0].elem(ks[:1]), 'input_sections').segs[0].elem(ks[1:]), 'symbols')))
        f.heap[S['L'].rid] = rest(two('c'))
        return Out(f)
    eng.externals['method.pop'] = pop
    eng.for_rule, eng.while_rule = for_rule, while_rule
    P.call('memorymap', '_add_symbols_to_sections', e, a)
    P.add(f'{P.label}: the symbols are added by a loop over the symbols', 'all' in S)
    nothing = b_not(mk_existss(two('q'), dom))
    P.equal('without input sections nothing is changed', P.out.heap[a.rid], update(s0, lambda ks, x: x), (nothing,))
    if 'all' in S:
        P.equal('nothing is changed behind the loop', P.out.heap[a.rid], S['all'], (b_not(nothing),))


PARTS = cmn.parts(no_elf, with_elf, symbol_table)
