"""Archives, object files and symbols of an output section are exact sums."""
from spec import INT, L, R, STR
from logic import Idx, Obj, Str, b_and, eqt, fresh_var, mk_existss, mk_sums
from values import Map, Rec, Seq, Seg
import cmn
from cmn import upd, val

ISEC = R(name=STR, address=INT, size=INT, fill=INT, archive=STR, object_file=STR, symbols=L(R(name=STR, address=INT, size=INT)))
OSEC = R(name=STR, address=INT, size=INT, input_sections=L(ISEC))


def add_archives(P):
    P.engine('_add_archives_to_sections', order=False)
    eng = P.eng
    a = P.arg(L(OSEC), 'sections')
    seg = P.st.heap[a.rid].segs[0]
    P.call('memorymap', '_add_archives_to_sections', a)

    def elem(ks):
        s = seg.elem(ks)
        isecs = val(s, 'input_sections').segs[0]

        def over(cond, what, syms=False):
            """(some input section with the condition, total of what over them)"""
            i = fresh_var(Idx, 'i')
            e = isecs.elem((i,))
            if not syms:
                g = b_and(isecs.dom((i,)), cond(e))
                return mk_existss((i,), g), mk_sums((i,), g, what(e))
            j = fresh_var(Idx, 'j')
            y = val(e, 'symbols').segs[0]
            g = b_and(isecs.dom((i,)), cond(e), y.dom((j,)), syms(y.elem((j,))))
            return mk_existss((i, j), g), mk_sums((i, j), g, what(y.elem((j,))))

        def base(p):
            return eng.ufun('os.path.basename', [p], STR)

        def ina(A):
            return lambda e: eqt(val(e, 'archive'), A)

        def ino(A, O):
            return lambda e: b_and(eqt(val(e, 'archive'), A), eqt(val(e, 'object_file'), O))

        def size(e):
            return val(e, 'size')

        def sym(A, O, S):
            return over(ino(A, O), size, lambda y: eqt(val(y, 'name'), S))

        def symbols(A, O):
            return Map(Str, lambda S: sym(A, O, S)[0], lambda S: Rec(dict(abbrev_name=(True, S), size=(True, sym(A, O, S)[1]), size_diff=(True, 0))))

        def objects(A):
            return Map(Str, lambda O: over(ino(A, O), size)[0],
                       lambda O: Rec(dict(abbrev_name=(True, base(O)), size=(True, over(ino(A, O), size)[1]), size_diff=(True, 0), symbols=(True, symbols(A, O)))))
        archives = Map(Str, lambda A: over(ina(A), size)[0],
                       lambda A: Rec(dict(abbrev_name=(True, base(A)), size=(True, over(ina(A), size)[1]), size_diff=(True, 0), object_files=(True, objects(A)))))
        return upd(s, archives=archives, abbrev_name=eng.concat(['.', eng.ufun('item/-1', [eng.ufun("split/'.'", [val(s, 'name')], Obj)], STR)]))
    want = Seq([Seg(seg.sorts, seg.dom, elem, seg.before)])
    P.equal('the archives of each section', P.val(a), want)


PARTS = cmn.parts(add_archives)
