"""Dependencies of archives: exactly the cross references between different archives of the map."""
from spec import BOOL, INT, L, L1, M, Null, R, STR, T
from logic import Idx, Str, b_and, b_implies, b_ite, b_not, b_or, eqt, fresh_var, lift, mk_existss, mk_forall
from values import Choice, Map, Rec, Ref, Seg, Seq
import cmn
from cmn import upd, val

ELF = R(cls='Elf', symbols=L(R(cls='Elf_Sym', name=STR, st_info=INT, st_shndx=INT)))
CRT = M(L1(T(STR, STR)))
SIZES = M(R(abbrev_name=STR, size=INT, size_diff=INT))
STT_OBJECT, STT_FUNC, SHN_ABS = 1, 2, 0xFFF1


def defining(crt, s):
    return crt.elem(s).segs[0].elem(()).items[0]


def refers(crt, s, r):
    """the archive r is in the references to the symbol s"""
    i = fresh_var(Idx, 'i')
    g = crt.elem(s).segs[1]
    return mk_existss((i,), b_and(g.dom((i,)), eqt(g.elem((i,)).items[0], r)))


def filter_crt(P):
    P.engine('_filter_crt', order=False)
    c, a, e = P.arg(CRT, 'crt'), P.arg(SIZES, 'archives'), P.arg(Null(ELF), 'elf')
    crt, archives = P.st.heap[c.rid], P.st.heap[a.rid]
    none, elf = e.alts[0][0], P.st.heap[e.alts[1][1].rid]
    r = P.call('deps', '_filter_crt', c, a, e)
    syms = val(elf, 'symbols').segs[0]

    def present(s):
        i = fresh_var(Idx, 'i')
        x = syms.elem((i,))
        t = val(x, 'st_info') % 16
        return mk_existss((i,), b_and(syms.dom((i,)), eqt(val(x, 'name'), s), b_or(eqt(t, STT_FUNC), eqt(t, STT_OBJECT)), b_not(eqt(val(x, 'st_shndx'), SHN_ABS))))

    def other(s, x):
        return b_and(archives.dom(x), b_not(eqt(x, defining(crt, s))))

    def refs(s):
        first, rest = crt.elem(s).segs
        return Seq([first, Seg(rest.sorts, lambda ks: b_and(rest.dom(ks), other(s, rest.elem(ks).items[0])), rest.elem, rest.before)])

    def used(s):
        i = fresh_var(Idx, 'i')
        return mk_existss((i,), refs(s).segs[1].dom((i,)))
    P.equal('the references between archives of the map', P.val(r),
            Map(Str, lambda s: b_and(crt.dom(s), present(s), archives.dom(defining(crt, s)), used(s)), refs))
    P.prove('an ELF file is required', b_not(none))
    P.raises_only('only a missing ELF file is an error', none)
    P.unchanged('the cross reference table', c, order=False)
    P.unchanged('the archives', a, order=False)


def deps(P, name, reverse):
    P.engine(name, order=False)
    c, a = P.arg(CRT, 'crt'), P.arg(SIZES, 'archives')
    crt, archives = P.st.heap[c.rid], P.st.heap[a.rid]
    # as returned by _filter_crt
    s, i = fresh_var(Str, 's'), fresh_var(Idx, 'i')
    g = crt.elem(s).segs[1]
    x = g.elem((i,)).items[0]
    P.assume(mk_forall(s, b_implies(crt.dom(s), b_and(archives.dom(defining(crt, s)), mk_existss((i,), g.dom((i,))),
             mk_forall(i, b_implies(g.dom((i,)), b_and(archives.dom(x), b_not(eqt(x, defining(crt, s))))))))))
    r = P.call('deps', name, c, a)
    got = P.val(r)

    def used(s, d, u):
        """the symbol s of the archive d is used by the archive u"""
        return b_and(crt.dom(s), eqt(defining(crt, s), d), refers(crt, s, u))

    def info(x, **kw):
        return Rec(dict(abbrev_name=(True, P.eng.ufun('os.path.basename', [x], STR)), size=(True, val(archives.elem(x), 'size')), **{n: (True, v) for n, v in kw.items()}))

    def pair(a, b):
        return (a, b) if reverse else (b, a)
    a, b = fresh_var(Str, 'a'), fresh_var(Str, 'b')

    def some(a, b=None):
        v = fresh_var(Str, 'v')
        w = fresh_var(Str, 'w') if b is None else b
        return mk_existss((v,) if b is not None else (v, w), used(v, *pair(a, w)))

    def without(x, n):
        return Rec({k: y for k, y in x.fields.items() if k != n})

    def strip(x):
        return upd(x, archives=cmn.mapped(val(x, 'archives'), lambda k, y: without(y, 'symbols')))
    want = Map(Str, lambda a: some(a), lambda a: info(a, archives=Map(Str, lambda b: some(a, b), lambda b: info(b))))
    P.equal('the dependencies', cmn.mapped(got, lambda k, x: strip(x)), want)
    P.members('the symbols', val(val(got.elem(a), 'archives').elem(b), 'symbols'), Str, lambda v: used(v, *pair(a, b)), (some(a, b),))
    P.unchanged('the cross reference table', c, order=False)


def get_archives_deps(P):
    deps(P, 'get_archives_deps', False)


def get_archives_revdeps(P):
    deps(P, 'get_archives_revdeps', True)


def get_archives_dependencies(P):
    """the callees are used through their contracts: unknown results, recorded arguments"""
    P.engine('get_archives_dependencies', order=False)
    mf = P.arg(R(cls='MapFile', cross_reference_table=Null(CRT)), 'map_file')
    mm, e, args = P.arg(SIZES, 'memmap'), P.arg(Null(ELF), 'elf'), P.arg(R(dep_reverse=BOOL), 'args')
    v = val(P.st.heap[mf.rid], 'cross_reference_table')
    res = {n: P.arg(SIZES, n) for n in ('get_archives_summary', '_filter_crt', 'get_archives_revdeps', 'get_archives_deps')}
    calls = {n: P.stub('memorymap' if n == 'get_archives_summary' else 'deps', n, x) for n, x in res.items()}
    r = P.call('deps', 'get_archives_dependencies', mf, mm, e, args)

    def table(x):
        x = [a for _, a in x.alts if a is not None] if isinstance(x, Choice) else [x]
        return len(x) == 1 and isinstance(x[0], Ref) and x[0].rid == mf.rid and x[0].path[:1] == (('f', 'cross_reference_table'),)
    P.same_args('get_archives_summary', calls['get_archives_summary'], mm, args)
    P.same_args('_filter_crt', calls['_filter_crt'], table, res['get_archives_summary'], e)
    P.same_args('get_archives_revdeps', calls['get_archives_revdeps'], res['_filter_crt'], res['get_archives_summary'])
    P.same_args('get_archives_deps', calls['get_archives_deps'], res['_filter_crt'], res['get_archives_summary'])
    rev = val(P.st.heap[args.rid], 'dep_reverse')
    alts = r.alts if isinstance(r, Choice) else [(True, r)]
    for n, c in (('get_archives_revdeps', rev), ('get_archives_deps', b_not(rev))):
        P.prove(f'the result is that of {n}', b_or(*[g for g, x in alts if isinstance(x, Ref) and x.rid == res[n].rid]), (c,))
    P.raises_only('only a missing table is an error', v.alts[0][0])
    P.prove('the table is required', b_not(v.alts[0][0]))


PARTS = cmn.parts(get_archives_dependencies, filter_crt, get_archives_deps, get_archives_revdeps)
