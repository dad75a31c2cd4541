"""Memory type totals: sizes of the memory types, and the placement of the output sections (one arbitrary section)."""
from spec import INT, L, M, R, STR, mk
from logic import Str, b_and, b_implies, b_ite, b_not, b_or, eqt, fresh_var, lift, mk_existss, mk_forall, mk_sums
from engine import Out
from shapes import ARCHIVE, TYPE
from values import Map, Rec, Ref, ite
import cmn
import steps
from cmn import upd, val

INFO = dict(name=STR, primary_address=INT, secondary_address=INT, length=INT)
REGION = R(name=STR, origin=INT, length=INT, attrs=STR, type=R(**INFO))
SECTION = R(name=STR, address=INT, size=INT, abbrev_name=STR, archives=M(R(**ARCHIVE)))
EXT_TYPES, EXT_SECTIONS = ('External RAM', 'SPI DRAM'), ('.ext_ram.bss', '.ext_ram_noinit')
ASSUMPTIONS = ['precondition: the memory type of every region is one of the chip (ensured by _split_memory_regions)',
               'precondition: different output sections do not share their archives (ensured by _add_archives_to_sections)',
               'sections are added one after the other (induction over the list of sections)']


def get_mem_type_map(P):
    eng = P.engine('_get_mem_type_map')
    t, g, s = P.arg(M(R(**INFO)), 'types'), P.arg(L(REGION), 'regions'), P.arg(L(SECTION), 'sections')
    types, regs, secs = P.st.heap[t.rid], P.st.heap[g.rid].segs[0], P.st.heap[s.rid].segs[0]
    i, j, k = fresh_var(regs.sorts[0], 'i'), fresh_var(regs.sorts[0], 'j'), fresh_var(Str, 'k')

    def alias(r):
        return val(val(r, 'type'), 'name')

    def known(n):
        return mk_existss((k,), b_and(types.dom(k), eqt(val(types.elem(k), 'name'), n)))
    P.assume(mk_forall(i, b_implies(regs.dom((i,)), known(alias(regs.elem((i,)))))))
    S = {}

    def sizes(q):
        """the total length of the regions of a memory type, without those that are the same memory again"""
        ri, rj = regs.elem((i,)), regs.elem((j,))
        ty = val(ri, 'type')
        off = b_ite(eqt(val(ty, 'secondary_address'), 0), lift(0), absv(val(ty, 'primary_address') - val(ty, 'secondary_address')))
        d = absv(val(rj, 'origin') - val(ri, 'origin'))
        again = mk_existss((j,), b_and(regs.dom((j,)), regs.before((j,), (i,)), eqt(alias(rj), alias(ri)), eqt(val(rj, 'length'), val(ri, 'length')), b_or(eqt(d, 0), eqt(d, off))))
        return mk_sums((i,), b_and(regs.dom((i,)), eqt(alias(ri), q), b_not(again)), val(ri, 'length'))

    def for_rule(eng, st, fr, n, it):
        if not isinstance(it, Ref) or eng.resolve(st, it).rid != s.rid:
            return None
        if S or n.orelse:
            raise steps.Unsupported('more than one loop over the sections')
        maps = {}
        for v in st.frames[fr.fid].values():
            if isinstance(v, Ref):
                r = eng.resolve(st, v)
                if not r.path and r.rid not in eng.inputs and isinstance(st.heap[r.rid], Map):
                    e = st.heap[r.rid].elem(fresh_var(Str, 'q'))
                    if isinstance(e, Rec) and 'sections' in e.fields:
                        maps[r.rid] = r
        if len(maps) != 1:
            raise steps.Unsupported('the memory map of the function')
        D = S['D'] = list(maps.values())[0]
        # before the sections are added
        P.out = st
        S['st'] = st
        P.equal('the memory types before sections are added', st.heap[D.rid],
                Map(Str, known, lambda q: Rec(dict(size=(True, sizes(q)), size_diff=(True, 0), used=(True, 0), used_diff=(True, 0),
                                                  sections=(True, Map(Str, lambda x: False, lambda x: None))))))
        # an arbitrary section, added to an arbitrary map with these memory types
        key = fresh_var(secs.sorts[0], 'n')
        sec = secs.elem((key,))
        any_ = mk(M(R(**TYPE)), 'map')
        mm = Map(Str, known, any_.elem)
        x = st.copy()
        x.heap[D.rid] = mm
        steps.forget(x, fr, steps.assigned([n]))
        x = x.assume(secs.dom((key,)))
        x = eng.assign(x, fr, n.target, Ref(s.rid, (('s', 0, (key,)),)))
        o = steps.body_once(eng, x, fr, n)
        P.add(f'{P.label}: no section raises an exception', not o.exits)
        A = P.out = o.state
        step(P, eng, A, A.heap[D.rid], mm, sec, types, regs, alias)
        f = st.copy()
        f.heap[D.rid] = S['all'] = mk(M(R(**TYPE)), 'all')
        steps.forget(f, fr, steps.assigned([n]))
        return Out(f)
    eng.for_rule = for_rule
    r = P.call('memorymap', '_get_mem_type_map', t, g, s)
    P.add(f'{P.label}: the memory map is returned', 'all' in S and isinstance(r, Ref) and eng.resolve(P.out, r).rid == S['D'].rid and P.out.heap[S['D'].rid] is S['all'])
    P.unchanged('the memory types of the chip', t)
    P.unchanged('the regions', g)


def absv(x):
    return b_ite(x < 0, -x, x)


def step(P, eng, A, got, mm, sec, types, regs, alias):
    i, j, k = fresh_var(regs.sorts[0], 'i'), fresh_var(regs.sorts[0], 'j'), fresh_var(Str, 'k')
    addr, size, name = val(sec, 'address'), val(sec, 'size'), val(sec, 'name')

    def isext(n):
        return b_or(*[eqt(n, e) for e in EXT_TYPES])

    def org(i):
        return val(regs.elem((i,)), 'origin')

    def inside(i):
        return b_and(regs.dom((i,)), org(i) <= addr, addr < org(i) + val(regs.elem((i,)), 'length'))

    def below(i):
        return b_and(regs.dom((i,)), org(i) <= addr)
    somewhere = mk_existss((i,), inside(i))
    under = mk_existss((i,), below(i))
    haveext = mk_existss((k,), b_and(types.dom(k), isext(val(types.elem(k), 'name'))))
    ext = b_and(haveext, b_or(*[eng.strpred('startswith', name, x) for x in EXT_SECTIONS]))

    def added(m, key, n, ab):
        """the map with the section added"""
        def tree(old, new, sub):
            def item(x, y):
                z = upd(x, size=val(x, 'size') + val(y, 'size'))
                return upd(z, **{sub[0]: tree(val(x, sub[0]), val(y, sub[0]), sub[1:])}) if sub else z
            return Map(Str, lambda q: b_or(old.dom(q), new.dom(q)),
                       lambda q: ite(b_and(old.dom(q), new.dom(q)), item(old.elem(q), new.elem(q)), ite(new.dom(q), new.elem(q), old.elem(q))))

        def of_type(x):
            ss = val(x, 'sections')
            fresh = Rec(dict(abbrev_name=(True, ab), size=(True, size), size_diff=(True, 0), archives=(True, val(sec, 'archives'))))

            def of_section(q):
                y = ss.elem(q)
                again = upd(y, size=val(y, 'size') + size, archives=tree(val(y, 'archives'), val(sec, 'archives'), ('object_files', 'symbols')))
                return ite(eqt(q, n), ite(ss.dom(q), again, fresh), y)
            return upd(x, used=val(x, 'used') + size, sections=Map(Str, lambda q: b_or(ss.dom(q), eqt(q, n)), of_section))
        return Map(Str, m.dom, lambda q: ite(eqt(q, key), of_type(m.elem(q)), m.elem(q)))
    # the type that was changed
    first = fresh_var(Str, 't')
    fst = b_and(types.dom(k), isext(val(types.elem(k), 'name')), eqt(val(types.elem(k), 'name'), first))
    k2 = fresh_var(Str, 'k')
    fst = mk_existss((k,), b_and(fst, b_not(mk_existss((k2,), b_and(types.dom(k2), isext(val(types.elem(k2), 'name')), types.before(k2, k))))))
    ab = val(sec, 'abbrev_name')
    P.equal('an external RAM section is added to the external RAM type', got, added(mm, first, name, ab), (ext, fst))
    # the first region in the order of the origins (then of the list) that contains the address
    lt = lambda a, b: b_or(org(a) < org(b), b_and(eqt(org(a), org(b)), regs.before((a,), (b,))))
    here = b_and(inside(i), b_not(mk_existss((j,), b_and(inside(j), lt(j, i)))))
    P.equal('a section inside a region is added to the type of that region', got, added(mm, alias(regs.elem((i,))), name, ab), (b_not(ext), here))
    last = b_and(below(i), b_not(mk_existss((j,), b_and(below(j), lt(i, j)))))
    over = eng.concat([name, '_overflow'])
    e2 = eng.call(A, P.fn('memorymap', '_abbrev'), [over])[1]
    P.equal('a section outside of all regions is added as overflow to the type of the nearest region below', got, added(mm, alias(regs.elem((i,))), over, e2),
            (b_not(ext), b_not(somewhere), last))
    P.equal('a section below all regions is left out', got, mm, (b_not(ext), b_not(under)))


PARTS = cmn.parts(get_mem_type_map)
