"""Linker memory regions are cut into pieces of the chip memory types."""
import ast

from spec import INT, L, M, R, STR, mk
from logic import Str, b_and, b_implies, b_not, b_or, eqt, fresh_var, is_z3, mk_existss, sort_of, valid
from engine import Out
from values import Ref, Seq
import cmn
import steps
from cmn import val

INFO = dict(name=STR, primary_address=INT, secondary_address=INT, length=INT)
REGION = R(name=STR, origin=INT, length=INT, attrs=STR)
PIECE = R(name=STR, origin=INT, length=INT, attrs=STR, type=R(**INFO))
ASSUMPTIONS = ['precondition: the lengths of regions are not negative']


def filter_memory_regions(P):
    from values import Seg
    P.engine('_filter_memory_regions')
    a = P.arg(L(REGION), 'regions')
    g = P.st.heap[a.rid].segs[0]
    r = P.call('memorymap', '_filter_memory_regions', a)
    P.equal('all regions but the default one', P.val(r), Seq([Seg(g.sorts, lambda ks: b_and(g.dom(ks), b_not(eqt(val(g.elem(ks), 'name'), '*default*'))), g.elem, g.before)]), order=True)
    P.unchanged('the list of regions', a)


def split_memory_regions(P):
    eng = P.engine('_split_memory_regions')
    a, t = P.arg(L(REGION), 'regions'), P.arg(M(R(**INFO)), 'types')
    regs, types = P.st.heap[a.rid].segs[0], P.st.heap[t.rid]
    S = {}

    def covers(x, o):
        """the address is in a window of the memory type"""
        p, s, n = val(x, 'primary_address'), val(x, 'secondary_address'), val(x, 'length')
        return b_or(b_and(p <= o, o < p + n), b_and(b_not(eqt(s, 0)), s <= o, o < s + n))

    def inside(x, o, n):
        """the range is in one window of the memory type"""
        p, s, m = val(x, 'primary_address'), val(x, 'secondary_address'), val(x, 'length')
        return b_or(b_and(p <= o, o + n <= p + m), b_and(b_not(eqt(s, 0)), s <= o, o + n <= s + m))

    def same(x, y):
        return b_and(*[eqt(val(x, n), val(y, n)) for n in INFO])

    def for_rule(eng, st, fr, n, it):
        if not steps.has_while(n):
            return None
        if S or n.orelse:
            raise steps.Unsupported('more than one loop over the regions')
        if not isinstance(it, Ref) or eng.resolve(st, it).rid != a.rid:
            raise steps.Unsupported('the loop is not over the regions')
        D = {r.rid for r in steps.local_lists(eng, st, fr).values()}
        if len(D) != 1:
            raise steps.Unsupported('lists of the function other than the result')
        D = S['D'] = Ref(D.pop())
        P.out = st
        P.equal('the result is empty', st.heap[D.rid], Seq())
        k = fresh_var(regs.sorts[0], 'i')
        S['reg'] = regs.elem((k,))
        s = st.copy()
        S['done'] = mk(L(PIECE), 'done')
        s.heap[D.rid] = S['done']
        steps.forget(s, fr, steps.assigned([n]))
        s = s.assume(regs.dom((k,)), val(S['reg'], 'length') >= 0)
        s = eng.assign(s, fr, n.target, Ref(a.rid, (('s', 0, (k,)),)))
        o = steps.body_once(eng, s, fr, n)
        P.add(f'{P.label}: no iteration raises an exception', not o.exits)
        P.add(f'{P.label}: every region is processed by the inner loop', 'mine' in S)
        if 'mine' in S:
            # what the inner loop added stays, nothing is added behind it
            P.out = o.state
            P.add(f'{P.label}: the pieces are kept', steps.added(Seq(S['done'].segs + S['mine'].segs), o.state.heap[D.rid]) is not None and
                  len(o.state.heap[D.rid].segs) == len(S['done'].segs + S['mine'].segs))
            P.equal('the memory types are not modified', o.state.heap[t.rid], types)
            P.add(f'{P.label}: no object is changed that is also in the result', not o.state.poison, str(o.state.poison)[:300])
        f = st.copy()
        f.heap[D.rid] = S['all'] = mk(L(PIECE), 'all')
        steps.forget(f, fr, steps.assigned([n]))
        return Out(f)

    def while_rule(eng, st, fr, n):
        if 'reg' not in S or 'mine' in S or n.orelse:
            raise steps.Unsupported('while loop')
        reg, D = S['reg'], S['D']
        names = steps.assigned(n.body)
        loc = st.frames[fr.fid]
        role = {'origin': set(), 'length': set()}
        for v in names:
            x = loc.get(v)
            for r in role:
                if is_z3(x) and sort_of(x) == sort_of(val(reg, r)) and valid(st.pc, eqt(x, val(reg, r))):
                    role[r].add(v)
        if any(len(v) != 1 for v in role.values()):
            raise steps.Unsupported('the variables of the loop')
        vo, vl = role['origin'].pop(), role['length'].pop()
        P.out = st
        P.equal('no piece is added before the loop', st.heap[D.rid], S['done'])
        # an arbitrary iteration
        s = st.copy()
        S['mine'] = mk(L(PIECE), 'mine')
        before = Seq(S['done'].segs + S['mine'].segs)
        s.heap[D.rid] = before
        steps.forget(s, fr, names)
        o, l = fresh_var(INT, 'o'), fresh_var(INT, 'l')
        s.frames[fr.fid].update({vo: o, vl: l})
        end = val(reg, 'origin') + val(reg, 'length')
        s = s.assume(o >= val(reg, 'origin'), l >= 0, eqt(o + l, end))
        s, c = eng.cond(s, fr, n.test)
        if c is not True:
            raise steps.Unsupported('condition of the loop')
        out = steps.body_once(eng, s, fr, n, ('break',))
        P.add(f'{P.label}: no step raises an exception', all(x.kind == 'break' for x in out.exits))
        k = fresh_var(Str, 'k')
        covered = mk_existss((k,), b_and(types.dom(k), covers(types.elem(k), o)))
        final = []
        for goes_on, A in steps.ends(eng, out):
            P.out = A
            what = 'goes on' if goes_on else 'ends'
            new = steps.added(before, A.heap[D.rid])
            if new is None or len(new.segs) > 1 or any(g.sorts for g in new.segs):
                P.add(f'{P.label}: at most one piece is added', False)
                continue
            o2, l2 = A.frames[fr.fid][vo], A.frames[fr.fid][vl]
            P.prove(f'the invariant of the loop is kept ({what})', b_and(o2 >= val(reg, 'origin'), l2 >= 0, eqt(o2 + l2, end)))
            if goes_on:
                P.prove('the loop goes on only if something is left', l2 > 0)
                P.prove('the rest gets smaller (termination)', l2 < l)
            else:
                P.prove('the loop ends only if nothing is left or no memory type covers the address', b_or(eqt(l2, 0), b_and(b_not(covered), eqt(o2, o))))
            g = new.segs[0] if new.segs else None
            there = g.dom(()) if g else False
            P.prove(f'a piece is added if a memory type covers the address ({what})', b_implies(covered, there))
            if g:
                x = g.elem(())
                h = (there,)
                steps.has(P, f'the piece ({what})', x, PIECE.fields, h)
                for f in ('name', 'attrs'):
                    P.prove(f'the {f} of the piece ({what})', eqt(val(x, f), val(reg, f)), h)
                P.prove(f'the piece starts where the last one ended ({what})', eqt(val(x, 'origin'), o), h)
                P.prove(f'the length of the piece is taken from the rest ({what})', b_and(eqt(o2, o + val(x, 'length')), eqt(l2, l - val(x, 'length')), val(x, 'length') >= 0), h)
                P.prove(f'the piece is inside a window of its memory type ({what})',
                        mk_existss((k,), b_and(types.dom(k), same(val(x, 'type'), types.elem(k)), inside(types.elem(k), o, val(x, 'length')))), h + (covered,))
                dd = b_or(*[mk_existss(ks, b_and(y.dom(ks), same(val(y.elem(ks), 'type'), val(x, 'type')), eqt(val(y.elem(ks), 'origin') + val(y.elem(ks), 'length'), o)))
                            for y in before.segs for ks in [tuple(fresh_var(q, 'e') for q in y.sorts)]])
                P.prove(f'a piece outside of all memory types is empty and gets the type of a piece that ends there ({what})', b_and(eqt(val(x, 'length'), 0), dd), h + (b_not(covered),))
            behind = b_or(*[mk_existss(ks, b_and(y.dom(ks), eqt(val(y.elem(ks), 'origin') + val(y.elem(ks), 'length'), o)))
                            for y in before.segs for ks in [tuple(fresh_var(q, 'e') for q in y.sorts)]])
            P.prove(f'an empty region behind a piece is added ({what})', b_implies(b_and(eqt(l, 0), behind), there))
            for r in A.heap:
                if r in eng.inputs:
                    P.equal('the inputs are not modified', A.heap[r], s.heap[r])
            if A.poison:
                P.add(f'{P.label}: no object is changed that is also in the result', False)
            if not goes_on:
                final.append(A)
        # after the loop: the pieces of this region behind those of the earlier ones
        f = st.copy()
        f.heap[D.rid] = before
        steps.forget(f, fr, names)
        return Out(f)
    eng.for_rule, eng.while_rule = for_rule, while_rule
    r = P.call('memorymap', '_split_memory_regions', a, t)
    P.add(f'{P.label}: the result of the loop is returned', 'all' in S and isinstance(r, Ref) and eng.resolve(P.out, r).rid == S['D'].rid and P.out.heap[S['D'].rid] is S['all'])
    P.unchanged('the regions', a)
    P.unchanged('the memory types', t)


PARTS = cmn.parts(filter_memory_regions, split_memory_regions)
