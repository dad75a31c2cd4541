"""Image size and selection of output sections."""
import z3
from spec import BOOL, INT, L, M, Null, R, STR
from logic import FACTS, Idx, Str, b_and, b_implies, b_ite, b_not, b_or, eqt, fresh_var, lift, mk_exists, mk_sums
from values import Choice, Map, Rec, Seg, Seq
import cmn
from cmn import upd, val

SHDR = R(cls='Elf_Shdr', sh_size=INT, sh_flags=INT, sh_type=INT, name=STR)
ELF = R(cls='Elf', shdrs=L(SHDR))
ISEC = R(name=STR, address=INT, size=INT, fill=INT, archive=STR, object_file=STR)
OSEC = R(name=STR, address=INT, size=INT, input_sections=L(ISEC))
SHF_ALLOC, SHT_NOBITS = 2, 8

ASSUMPTIONS = ['the section headers of an ELF file have different names (precondition of _get_elf_sections_headers)']


def alloc(h):
    f = val(h, 'sh_flags')
    return b_and(b_not(eqt(val(h, 'sh_size'), 0)), eqt((f / 2) % 2, 1))


def headers(P):
    P.engine('_get_elf_sections_headers', order=False)
    a = P.arg(Null(ELF), 'elf')
    none, elf = a.alts[0][0], P.st.heap[a.alts[1][1].rid]
    seg = val(elf, 'shdrs').segs[0]
    # the names are different: the header is a function of the name
    inv = z3.Function('header_of', Str, Idx)
    i = z3.Const('i', Idx)
    FACTS.append((('elf.shdrs/.name', 'header_of'), z3.ForAll([i], b_implies(seg.dom((i,)), inv(val(seg.elem((i,)), 'name')) == i))))
    r = P.call('memorymap', '_get_elf_sections_headers', a)
    v = P.val(r) if not isinstance(r, Choice) else Choice([(g, P.val(x)) for g, x in r.alts])
    want = Choice([(none, None), (b_not(none), Map(Str, lambda n: b_and(seg.dom((inv(n),)), eqt(val(seg.elem((inv(n),)), 'name'), n), alloc(seg.elem((inv(n),)))),
                                                     lambda n: seg.elem((inv(n),)), None))])
    P.equal('the allocated headers by name', v, want)
    # hence every allocated header is in the dict, under its name (the dict is a bijection)
    j = fresh_var(Idx, 'j')
    h = seg.elem((j,))
    m = want.alts[1][1]
    n = val(h, 'name')
    P.prove('every allocated header is found by its name', b_implies(b_and(seg.dom((j,)), alloc(h)), b_and(m.dom(n), eqt(inv(n), j))))
    P.unchanged('the ELF object', a.alts[1][1])


def image_size(P):
    P.engine('_get_image_size', order=False)
    a = P.arg(Null(M(SHDR)), 'elf_sections')
    none, hdrs = a.alts[0][0], P.st.heap[a.alts[1][1].rid]
    b = P.arg(L(OSEC), 'sections')
    seg = P.st.heap[b.rid].segs[0]
    r = P.call('memorymap', '_get_image_size', a, b)
    n = fresh_var(Str, 'n')
    i = fresh_var(Idx, 'i')
    eng = P.eng
    k = fresh_var(Str, 'k')
    empty = b_not(mk_exists(k, hdrs.dom(k)))
    with_elf = mk_sums((n,), b_and(hdrs.dom(n), b_not(eqt(val(hdrs.elem(n), 'sh_type'), SHT_NOBITS))), val(hdrs.elem(n), 'sh_size'))
    name = val(seg.elem((i,)), 'name')
    noload = b_or(*[eng.strpred('endswith', name, x) for x in ('.bss', 'noinit')])
    without = mk_sums((i,), b_and(seg.dom((i,)), b_not(noload)), val(seg.elem((i,)), 'size'))
    P.equal('the image size', r, b_ite(b_or(none, empty), without, with_elf))
    P.unchanged('the headers', a.alts[1][1])
    P.unchanged('the sections', b)


def filtered(P):
    P.engine('_filter_map_sections')
    a = P.arg(L(OSEC), 'sections')
    e = P.arg(Null(M(SHDR)), 'elf_sections')
    none, hdrs = e.alts[0][0], P.st.heap[e.alts[1][1].rid]
    seg = P.st.heap[a.rid].segs[0]
    r = P.call('memorymap', '_filter_map_sections', a, e)
    eng = P.eng
    k = fresh_var(Str, 'k')
    empty = b_not(mk_exists(k, hdrs.dom(k)))

    def keep(ks):
        s = seg.elem(ks)
        name = val(s, 'name')
        ends = lambda *xs: b_or(*[eng.strpred('endswith', name, x) for x in xs])
        has = lambda x: eng.strpred('contains', name, x)
        gap = ends('dummy', 'reserved_for_iram', 'noload')
        by_name = b_or(ends('.text', '.data', '.bss', '.rodata', 'noinit', '.vectors'), has('.flash'), has('.eh_frame'))
        return b_and(b_not(eqt(val(s, 'size'), 0)), b_not(gap), b_ite(b_or(none, empty), by_name, hdrs.dom(name)))

    def elem(ks):
        s = seg.elem(ks)
        g = val(s, 'input_sections').segs[0]
        g2 = Seg(g.sorts, lambda js: b_and(g.dom(js), b_not(eqt(val(g.elem(js), 'size'), 0))), g.elem, g.before)
        return upd(s, input_sections=Seq([g2]))
    want = Seq([Seg(seg.sorts, lambda ks: b_and(seg.dom(ks), keep(ks)), elem, seg.before)])
    P.equal('the selected sections without empty input sections', P.val(r), want, order=True)
    P.unchanged('the headers', e.alts[1][1])


PARTS = cmn.parts(headers, image_size, filtered)
