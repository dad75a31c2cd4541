"""Input sections of LTO objects are expanded by symbols: one arbitrary input section, and one arbitrary symbol for it."""
import z3

from spec import INT, L, M, Null, R, STR, mk
from logic import Str, Unsupported, b_and, b_implies, b_ite, b_not, b_or, eqt, consistent, fresh_var, is_z3, lift, mk_existss, valid
from engine import Handler, Iter, Out, PyFn
from logic import Obj as OBJ
from values import Choice, Empty, Lost, Map, ite, Rec, Ref, Seg, Seq, Tup, get, put, is_leaf
import cmn
from bytesem import Bytes, at, cut, install, length, number, zero
from c10 import FORMS, N, U, method, uleb
import steps
from cmn import upd, val

ISEC = R(name=STR, address=INT, size=INT, fill=INT, archive=STR, object_file=STR)
OSEC = R(name=STR, address=INT, size=INT, input_sections=L(ISEC))
ESYM = R('Elf_Sym', name=STR, st_value=INT, st_size=INT, type=INT, cu_name=Null(STR))
PROJ = R(build_dir=STR, build_component_info=M(R(dir=STR, file=STR)))

ASSUMPTIONS = ['precondition: the symbols are found by their address; sizes are not negative; a symbol that starts in an input section ends in it '
               '(the linker does not cut symbols)',
               'Dwarf_CU.get_DIEs in add_cus_to_symbols by its contract: the entries of the unit with the requested tags, by their offset (proved on its own, '
               'by induction on the tree of entries: a child by the contract of the walk; each entry has a positive size and its tree lies behind its start)',
               'precondition of get_DIEs: the abbreviation of a code is found under the code (codes are sequential)',
               'Elf.get_fmt (struct.unpack_from): some function of format, data and offset; the next record is behind it',
               'records of tables (symbols, units, abbreviations, attributes) are read one after the other (induction)',
               'precondition: an abstract origin is an entry of the file, and each unit has an entry with a name; a location is a single address or begins with '
               'another operation; string sections exist and texts end with a zero byte',
               'symbols, input sections and output sections are processed one after the other (induction)']


def expand(P, case):
    eng = P.engine(f'_expand_input_sections ({case})')
    e, a = P.arg(R('Elf', x=INT), 'elf'), P.arg(R('MapFile', sections=L(OSEC)), 'map')
    p, y = P.arg(PROJ, 'proj'), P.arg(M(ESYM, INT), 'symbols')
    syms, proj = P.st.heap[y.rid], P.st.heap[p.rid]
    eng.contracts[('elf', 'add_cus_to_symbols')] = lambda eng, st, args, kw: (st, y)
    secs = val(P.st.heap[a.rid], 'sections').segs[0]
    S = {}

    def symbols(st, fam):
        """the symbols of the loop: those with a component, in the order of their addresses"""
        k, j = fresh_var(z3.IntSort(), 'k'), fresh_var(z3.IntSort(), 'j')
        comps = val(proj, 'build_component_info')
        path = lambda x: z3.Function('pathlib.Path', Str, OBJ)(x)
        posix = lambda x: z3.Function('Path.as_posix', OBJ, Str)(x)
        x = syms.elem(k)
        cu, nocu = val(x, 'cu_name').alts[1][1], val(x, 'cu_name').alts[0][0]

        def match(c):
            return b_and(comps.dom(c), b_not(eqt(val(comps.elem(c), 'file'), '')),
                         eng.strpred('startswith', posix(path(cu)), eng.concat([posix(path(val(comps.elem(c), 'dir'))), '/'])))
        c, d = fresh_var(Str, 'c'), fresh_var(Str, 'd')
        usable = b_and(syms.dom(k), b_not(eqt(val(x, 'st_size'), 0)), b_not(nocu), b_not(eqt(cu, '')), mk_existss((c,), match(c)))
        P.out = st
        P.prove('the symbols of the loop are those of components', eqt(fam.dom((k,)), usable))
        P.prove('the symbols of the loop are in the order of their addresses', eqt(fam.before((k,), (j,)), k < j), (fam.dom((k,)), fam.dom((j,)), b_not(eqt(k, j))))
        it = fam.value((k,))
        P.prove('the address of the symbol', eqt(it.items[0], k), (usable,))
        sym = P.val(it.items[1], st)
        length = lambda c: eng.ufun('len', [posix(path(val(comps.elem(c), 'dir')))], z3.IntSort())
        longest = b_and(match(c), b_not(mk_existss((d,), b_and(match(d), length(d) > length(c)))),
                        b_not(mk_existss((d,), b_and(match(d), eqt(length(d), length(c)), comps.before(d, c)))))
        rel = posix(z3.Function('Path.relative_to', OBJ, Str, OBJ)(path(val(comps.elem(c), 'file')), posix(path(val(proj, 'build_dir')))))
        P.prove('a symbol has an archive', sym.fields['archive_path'][0], (usable,))
        P.prove('the archive is that of the component with the longest directory', eqt(val(sym, 'archive_path'), rel), (usable, longest))
        for n in ('name', 'st_value', 'st_size'):
            P.prove(f'{n} of the symbol', eqt(val(sym, n), val(x, n)), (usable,))
        P.equal('the unit of the symbol', val(sym, 'cu_name'), val(x, 'cu_name'), (usable,))

    def the_isec(eng, st, fr):
        out = [x for x, v in st.frames[fr.fid].items() if isinstance(v, Ref) and eng.resolve(st, v).rid == a.rid and len(eng.resolve(st, v).path) == 4]
        if len(out) != 1:
            raise Unsupported('variables with input sections')
        return out[0], eng.resolve(st, st.frames[fr.fid][out[0]])

    def sym_rule(eng, st, fr, n, it):
        if S.get('sym') or n.orelse or len(it.fams) != 1:
            raise Unsupported('loop over the symbols')
        S['sym'] = True
        fam, D, isec = it.fams[0], S['D'], S['x']
        var, ref = the_isec(eng, st, fr)
        P.out = st
        P.equal('the input section at the first symbol', P.val(ref, st), isec)
        P.add(f'{P.label}: the list at the first symbol', st.heap[D.rid] is S['before'])
        a0, E = val(isec, 'address'), val(isec, 'address') + val(isec, 'size')
        if case == 'no symbol':
            symbols(st, fam)
            # one symbol
            addr = fresh_var(z3.IntSort(), 'a')
            k = fresh_var(z3.IntSort(), 'k')
            s = st.copy()
            steps.forget(s, fr, steps.assigned([n]))
            cur = upd(isec, address=addr, size=E - addr)
            s.heap[a.rid] = put(s.heap[a.rid], ref.path, lambda _: cur)
            more = s.heap[D.rid] = mk(L(ISEC), 'more')
            item = fam.value((k,))
            sym = P.val(item.items[1], st)
            size, at = val(sym, 'st_size'), val(sym, 'st_value')
            s = s.assume(fam.dom((k,)), a0 <= addr, addr <= E, eqt(at, k), size > 0, b_implies(b_and(addr <= k, k < E), k + size <= E))
            s = eng.assign(s, fr, n.target, item)
            o = steps.body_once(eng, s, fr, n, ('break',))
            P.add(f'{P.label}: no symbol raises an exception', not any(x.kind == 'raise' for x in o.exits))
            hit = b_and(addr <= k, k < E)
            for goes_on, A in steps.ends(eng, o):
                P.out = A
                if not goes_on:
                    P.prove('the loop is left only for symbols behind the input section', k >= E)
                new = steps.added(more, A.heap[D.rid])
                if new is None:
                    P.add(f'{P.label}: input sections are added to the list', False)
                    continue
                part = lambda g, **kw: Seg((), lambda _: g, lambda _: Rec({q: (True, v) for q, v in kw.items()}), lambda p, q: False)
                cu = P.val(item.items[1], st).fields['cu_name'][1].alts[1][1]
                ofile = z3.Function('Path.name', OBJ, Str)(z3.Function('pathlib.Path', Str, OBJ)(cu))
                gap = part(b_and(addr < k, k < E), name=val(isec, 'name'), address=addr, size=k - addr, archive='(exe)', object_file=val(isec, 'object_file'), fill=0)
                own = part(hit, name=val(sym, 'name'), address=k, size=size, archive=val(sym, 'archive_path'), object_file=ofile, fill=0)
                P.equal('the gap and the symbol become input sections', new, Seq([gap, own]))
                got = P.val(ref, A)
                P.equal('the rest of the input section', got, upd(isec, address=b_ite(hit, k + size, addr), size=b_ite(hit, E - k - size, E - addr)))
                P.prove('the rest is inside of the input section', b_and(val(got, 'size') >= 0, val(got, 'address') >= a0))
                P.equal('nothing else is changed', A.heap[a.rid], put(s.heap[a.rid], ref.path, lambda _: got))
                P.add(f'{P.label}: no object is changed through another reference', A.poison == s.poison)
            return Out(st)
        # some symbols were found
        f = st.copy()
        steps.forget(f, fr, steps.assigned([n]))
        addr = fresh_var(z3.IntSort(), 'a')
        S['rest'] = upd(isec, address=addr, size=E - addr)
        S['last'] = mk(ISEC, 'last')
        f.heap[a.rid] = put(f.heap[a.rid], ref.path, lambda _: S['rest'])
        f.heap[D.rid] = Seq(S['before'].segs + mk(L(ISEC), 'more').segs + (steps.one(S['last']),))
        return Out(f.assume(a0 < addr, addr <= E, eqt(val(S['last'], 'fill'), 0)))

    def isec_rule(eng, st, fr, n, it):
        if S.get('x') is not None or n.orelse:
            raise Unsupported('loop over the input sections')
        new = {r.rid: r for r in steps.local_lists(eng, st, fr).values() if not st.heap[r.rid].segs}
        if len(new) != 1:
            raise Unsupported('the new list of input sections')
        D = S['D'] = list(new.values())[0]
        src = eng.resolve(st, it)
        i = fresh_var(secs.sorts[0], 'i')
        lst = P.val(src, st).segs[0]
        P.out = st
        P.equal('the input sections', P.val(src, st), val(secs.elem((S['k'],)), 'input_sections'), order=True)
        x = S['x'] = lst.elem((i,))
        before = S['before'] = mk(L(ISEC), 'before')
        s = st.copy()
        steps.forget(s, fr, steps.assigned([n]))
        s.heap[D.rid] = before
        s = s.assume(lst.dom((i,)), val(x, 'size') >= 0)
        s = eng.assign(s, fr, n.target, Ref(src.rid, src.path + (('s', 0, (i,)),)))
        o = steps.body_once(eng, s, fr, n)
        P.add(f'{P.label}: no input section raises an exception', not o.exits)
        A = P.out = o.state
        added = steps.added(before, A.heap[D.rid])
        exe = eqt(val(x, 'archive'), '(exe)')
        if added is None:
            P.add(f'{P.label}: input sections are added behind the others', False)
        else:
            P.equal('an input section with an archive is kept', added, Seq([steps.one(x)]), (b_not(exe),))
            if case == 'no symbol':
                P.equal('an input section without symbols is kept', added, Seq([steps.one(x)]), (exe,))
            elif S.get('last') is not None:
                r = val(S['rest'], 'size')
                more = mk(L(ISEC), 'more').segs[0]
                P.equal('the rest is kept with the fill', added, Seq([more, steps.one(S['last']), steps.one(S['rest'])]), (exe, r > 0), order=True)
                P.equal('the fill belongs to the last input section if nothing is left', added,
                        Seq([more, steps.one(upd(S['last'], fill=val(S['last'], 'fill') + val(x, 'fill')))]), (exe, b_not(r > 0)), order=True)
            else:
                P.add(f'{P.label}: input sections are expanded by a loop over the symbols', False)
        f = st.copy()
        steps.forget(f, fr, steps.assigned([n]))
        f.heap[D.rid] = S['all'] = mk(L(ISEC), 'all')
        f.shares = ()
        return Out(f)

    def osec_rule(eng, st, fr, n, it):
        if S.get('k') is not None or n.orelse:
            raise Unsupported('loop over the sections')
        k = S['k'] = fresh_var(secs.sorts[0], 's')
        P.out = st
        P.equal('the sections', P.val(it, st), val(P.st.heap[a.rid], 'sections'), order=True)
        s = st.copy()
        steps.forget(s, fr, steps.assigned([n]))
        src = eng.resolve(st, it)
        s = s.assume(secs.dom((k,)))
        s = eng.assign(s, fr, n.target, Ref(src.rid, src.path + (('s', 0, (k,)),)))
        o = steps.body_once(eng, s, fr, n)
        P.add(f'{P.label}: no section raises an exception', not o.exits)
        A = P.out = o.state
        q = fresh_var(secs.sorts[0], 'q')
        got = val(A.heap[a.rid], 'sections').segs[0]
        own = got.elem((k,))
        if 'all' not in S:
            P.add(f'{P.label}: the input sections are processed by a loop', False)
        else:
            P.equal('the section gets the new list', own, upd(secs.elem((k,)), input_sections=S['all']), order=True)
            P.equal('other sections are not changed', got.elem((q,)), secs.elem((q,)), (secs.dom((q,)), b_not(eqt(q, k))))
            P.prove('no section is added or removed', eqt(got.dom((q,)), secs.dom((q,))))
            S['done'] = True
        f = st.copy()
        steps.forget(f, fr, steps.assigned([n]))
        f.heap[a.rid] = mk(R('MapFile', sections=L(OSEC)), 'done')
        return Out(f)

    def for_rule(eng, st, fr, n, it):
        if isinstance(it, Iter):
            return sym_rule(eng, st, fr, n, it) if S.get('x') is not None else None
        if not isinstance(it, Ref) or eng.resolve(st, it).rid != a.rid:
            return None
        return (osec_rule if len(eng.resolve(st, it).path) == 1 else isec_rule)(eng, st, fr, n, it)
    eng.for_rule = for_rule
    P.call('memorymap', '_expand_input_sections', a, p, e)
    P.add(f'{P.label}: all sections are processed', 'done' in S)


def no_symbol(P):
    expand(P, 'no symbol')


def symbols(P):
    expand(P, 'symbols')


def without_files(P):
    """without ELF file or project description nothing is changed"""
    for what in ('ELF file', 'project description'):
        P.engine(f'_expand_input_sections without {what}')
        e, a = P.arg(R('Elf', x=INT), 'elf'), P.arg(R('MapFile', sections=L(OSEC)), 'map')
        p = P.arg(PROJ, 'proj')
        P.call('memorymap', '_expand_input_sections', a, None if what[0] == 'p' else p, None if what[0] == 'E' else e)
        P.unchanged('the map file', a)


ATTR = R(value=INT, form=INT)
DIE = R(tag=INT, attrs=M(ATTR, INT))
UDIE = R(tag=INT, attrs=M(ATTR, INT), cu=OBJ)
FSYM = R('Elf_Sym', name=STR, st_value=INT, st_size=INT, st_shndx=INT, type=INT, cu_name=Null(STR))
SUBPROGRAM, VARIABLE, UNIT, LOW_PC, LOCATION, ORIGIN, NAME, ABS = 0x2e, 0x34, 0x11, 0x11, 0x02, 0x31, 0x03, 0xfff1
FIRST = z3.Function('_die_offset', OBJ, INT)
TEXT = z3.Function('text of an attribute', OBJ, INT, INT, STR)
PLACE = z3.Function('location', OBJ, INT, INT, INT)
PLACED = z3.Function('location is an address', OBJ, INT, INT, z3.BoolSort())


def units(P):
    """Elf.add_cus_to_symbols: symbols by address, with the name of the unit of the entry for that address"""
    eng = P.engine('add_cus_to_symbols')
    e = P.arg(R('Elf', CUs=L(OBJ), symbols=L(FSYM)), 'elf')
    E = P.st.heap[e.rid]
    cus, syms = val(E, 'CUs').segs[0], val(E, 'symbols').segs[0]
    S = {}

    def args(a, kw, *names):
        return [dict(zip(names, a), **kw)[n] for n in names]

    def get_dies(eng, st, cu):
        def f(eng, st, a, kw):
            tags, = args(a, kw, 'filter_tags')
            P.out = st
            t = P.val(tags, st)
            q = z3.Int('tag')
            ok = isinstance(t, Seq) and all(not g.sorts for g in t.segs)
            got = b_or(*[eqt(q, g.elem(())) for g in t.segs]) if ok else False
            P.prove('entries of units, functions and variables are read', got, (b_or(*[eqt(q, x) for x in (UNIT, SUBPROGRAM, VARIABLE)]),))
            st = st.copy()
            return st, eng.alloc(st, mk(M(DIE, INT), 'dies', (cu,)))
        return st, Handler(f)

    def the(fn, none=None):
        def attr(eng, st, cu):
            def f(eng, st, a, kw):
                x, = args(a, kw, 'attr')
                x = P.val(x, st)
                v = fn(cu, val(x, 'form'), val(x, 'value'))
                return st, v if none is None else Choice([(b_not(none(cu, val(x, 'form'), val(x, 'value'))), None), (none(cu, val(x, 'form'), val(x, 'value')), v)])
            return st, Handler(f)
        return attr
    eng.opaque = {'get_DIEs': get_dies, 'get_attr_str': the(TEXT), 'get_attr_eval': the(PLACE, PLACED), '_die_offset': lambda eng, st, cu: (st, FIRST(cu))}

    def dicts(eng, st, fr):
        """the dicts that the function created"""
        out = []
        for f in st.frames.values():
            for v in f.values():
                if isinstance(v, Ref):
                    r = eng.resolve(st, v)
                    if not r.path and r.rid not in eng.inputs and isinstance(st.heap[r.rid], (Empty, Map)) and r.rid not in [x.rid for x in out]:
                        out.append(r)
        return out

    def over(eng, st, fr, n, it, seg, what, bind, sch, name, want):
        """a loop that fills a dict: one arbitrary iteration with an arbitrary dict"""
        if what in S or n.orelse:
            raise Unsupported(what)
        k = fresh_var(seg.sorts[0], 'i')

        def run(s, quiet):
            n0, m0 = len(eng.obligations), len(P.obligations)
            s = s.copy()
            steps.forget(s, fr, steps.assigned([n]))
            s = s.assume(seg.dom((k,)))
            s = eng.assign(s, fr, n.target, bind(k))
            o = steps.body_once(eng, s, fr, n)
            if quiet:
                del eng.obligations[n0:], P.obligations[m0:]
            return s, o
        # the dict that is changed
        D = [r for r in dicts(eng, st, fr) if isinstance(st.heap[r.rid], Empty)]
        s0, o = run(st, True)
        D = [r for r in D if o.state is not None and o.state.heap.get(r.rid) is not s0.heap[r.rid]]
        if len(D) != 1:
            raise Unsupported(f'{what}: the dict')
        D = S[what] = D[0]
        s = st.copy()
        old = s.heap[D.rid] = mk(M(sch, INT), name)
        s, o = run(s, False)
        P.add(f'{P.label}: {what}: no exception', not o.exits)
        P.out = o.state
        P.equal(what, o.state.heap[D.rid], want(k, old, s))
        P.unchanged('the file', e)
        f = st.copy()
        steps.forget(f, fr, steps.assigned([n]))
        f.heap[D.rid] = mk(M(sch, INT), 'all ' + name)
        return Out(f)

    def with_unit(cu):
        d = mk(M(DIE, INT), 'dies', (cu,))
        return Map(INT, d.dom, lambda q: Rec(dict(d.elem(q).fields, cu=(True, cu))), d.before)

    def unit_rule(eng, st, fr, n, it):
        from library import joined
        cu = lambda k: cus.elem((k,))
        return over(eng, st, fr, n, it, cus, 'the entries of all units', cu, UDIE, 'entries', lambda k, old, s: joined(old, with_unit(cu(k))))

    def symbol_rule(eng, st, fr, n, it):
        src = eng.resolve(st, it)

        def want(k, old, s):
            x = syms.elem((k,))
            ok = b_and(b_not(eqt(val(x, 'st_size'), 0)), b_or(eqt(val(x, 'type'), 1), eqt(val(x, 'type'), 2)), b_not(eqt(val(x, 'st_shndx'), ABS)))
            own = lambda q: b_and(ok, eqt(q, val(x, 'st_value')))
            return Map(INT, lambda q: b_or(own(q), old.dom(q)), lambda q: ite(own(q), x, old.elem(q)))
        return over(eng, st, fr, n, it, syms, 'functions and objects by address', lambda k: Ref(src.rid, src.path + (('s', 0, (k,)),)), FSYM, 'symbols', want)

    def die_rule(eng, st, fr, n, it):
        if 'names' in S or n.orelse or len(it.fams) != 1:
            raise Unsupported('loop over the entries')
        S['names'] = True
        A, D = S['the entries of all units'], S['functions and objects by address']
        dies = st.heap[A.rid]
        fam = it.fams[0]
        k, q = fresh_var(fam.sorts[0], 'k'), fresh_var(fam.sorts[0], 'q')
        P.out = st
        P.prove('the loop runs over all entries', eqt(fam.dom((q,)), dies.dom(q)))
        P.prove('the entries are in their order', eqt(fam.before((k,), (q,)), dies.before(k, q)), (dies.dom(k), dies.dom(q), b_not(eqt(q, k))))
        x = dies.elem(k)
        attr = lambda a: (val(x, 'attrs').dom(a), val(x, 'attrs').elem(a))
        oc, origin = attr(ORIGIN)
        src = b_ite(oc, val(origin, 'value'), k)
        cu = val(dies.elem(src), 'cu')
        top = dies.elem(FIRST(cu))
        s = st.copy()
        steps.forget(s, fr, steps.assigned([n]))
        old = s.heap[D.rid] = mk(M(FSYM, INT), 'symbols now')
        s = s.assume(dies.dom(k), b_implies(oc, dies.dom(src)), dies.dom(FIRST(cu)), val(top, 'attrs').dom(NAME), dies.dom(FIRST(val(x, 'cu'))))
        s = eng.assign(s, fr, n.target, fam.value((k,)))
        o = steps.body_once(eng, s, fr, n)
        P.add(f'{P.label}: no entry raises an exception', not o.exits)
        P.out = o.state
        tag = val(x, 'tag')
        nm = val(top, 'attrs').elem(NAME)
        (lc, low), (pc, loc) = attr(LOW_PC), attr(LOCATION)
        spot = lambda f: f(val(x, 'cu'), val(loc, 'form'), val(loc, 'value'))
        has = b_or(b_and(eqt(tag, SUBPROGRAM), lc), b_and(eqt(tag, VARIABLE), pc, spot(PLACED)))
        addr = b_ite(eqt(tag, SUBPROGRAM), val(low, 'value'), spot(PLACE))
        want = Map(INT, old.dom, lambda q: ite(b_and(has, eqt(q, addr)), upd(old.elem(q), cu_name=TEXT(cu, val(nm, 'form'), val(nm, 'value'))), old.elem(q)), old.before)
        P.equal('the symbol at the address gets the name of the unit', o.state.heap[D.rid], want, order=True)
        P.equal('the entries', o.state.heap[A.rid], dies)
        P.unchanged('the file', e)
        f = st.copy()
        steps.forget(f, fr, steps.assigned([n]))
        S['final'] = f.heap[D.rid] = mk(M(FSYM, INT), 'symbols then')
        return Out(f)

    def for_rule(eng, st, fr, n, it):
        if isinstance(it, Iter):
            return die_rule(eng, st, fr, n, it) if 'functions and objects by address' in S and 'the entries of all units' in S else None
        r = eng.resolve(st, it) if isinstance(it, Ref) else None
        if r is None or r.rid != e.rid:
            return None
        return {'CUs': unit_rule, 'symbols': symbol_rule}[r.path[0][1]](eng, st, fr, n, it)
    eng.for_rule = for_rule
    node, mod, _ = eng.member('Elf', 'add_cus_to_symbols')
    out, v = eng.call(P.st, PyFn(node, None, mod), [e])
    P.out = out.state
    P.add(f'{P.label}: no exception', not out.exits)
    P.add(f'{P.label}: all entries are processed, the symbols are returned', 'final' in S and P.val(v, out.state) is S['final'])


# DWARF 5, 7.5.6 and 7.7.1
STRP, LINE_STRP, STRING, EXPRLOC, OP_ADDR = 0x0e, 0x1f, 0x08, 0x18, 0x03
DECODED = z3.Function('bytes/text', Bytes, STR)
DATA = z3.Function('data of the section', STR, Bytes)
HAS = z3.Function('section exists', STR, z3.BoolSort())


def unrolled(P):
    """a loop that is left after a number of iterations that is known for the input at hand"""
    def rule(eng, st, fr, n):
        if n.orelse:
            raise Unsupported('while/else')
        exits = []
        for _ in range(4):
            st, c = eng.cond(st, fr, n.test)
            if c is False or valid(st.pc, b_not(c)):
                return Out(st, exits)
            if c is not True and not valid(st.pc, c):
                raise Unsupported('loop with an unknown number of iterations')
            o = steps.body_once(eng, st, fr, n, ('break', 'return'))
            exits += [x for x in o.exits if x.kind != 'break']
            left = [x.state for x in o.exits if x.kind == 'break']
            if o.state is None or left and not consistent(list(o.state.pc)):
                if len(left) != 1:
                    raise Unsupported('ends of a loop')
                return Out(left[0], exits)
            left = [s for s in left if consistent(list(s.pc))]
            if left:
                raise Unsupported('ends of a loop')
            st = o.state
        raise Unsupported('loop with many iterations')
    P.eng.while_rule = rule


def locations(P):
    """Dwarf_CU.get_attr_eval and get_attr_str: texts from the file's string sections, addresses of variables"""
    for what in ('text in .debug_str', 'text in .debug_line_str', 'text', 'address', 'other expression', *[f'form {x:#04x}' for x in FORMS if x not in (STRP, LINE_STRP, STRING, EXPRLOC)]):
        for fn in ('get_attr_eval', 'get_attr_str'):
            if fn == 'get_attr_str' and 'text' not in what:
                continue
            eng = P.engine(f'{fn}: {what}')
            install(eng)
            unrolled(P)
            elf = mk(R('Elf', _byteorder=STR, ehdr=R('Elf_Ehdr', e_ident=Bytes)), 'elf')
            cu = P.give(Rec({'_elf': (True, elf)}, 'Dwarf_CU'))
            form = {'text in .debug_str': STRP, 'text in .debug_line_str': LINE_STRP, 'text': STRING, 'address': EXPRLOC, 'other expression': EXPRLOC}.get(what) or int(what[5:], 16)
            raw = mk(INT if 'in .' in what else Bytes, 'value')
            ident = val(val(elf, 'ehdr'), 'e_ident')
            size = z3.If(eqt(at(ident, 4), 1), lift(4), lift(8))
            P.assume(length(ident) >= 16)
            name = what.split()[-1]
            if what == 'address':
                P.assume(eqt(length(raw), 1 + size), eqt(at(raw, 0), OP_ADDR))
            elif what == 'other expression':
                P.assume(length(raw) > 0, b_not(eqt(at(raw, 0), OP_ADDR)))
            elif 'in .' in what:
                P.assume(HAS(lift(name)))
            attr = P.give(Rec({'attr': (True, mk(INT, 'attr')), 'form': (True, form), 'offset': (True, mk(INT, 'offset')), 'value': (True, raw), 'size': (True, mk(INT, 'size'))}))

            def lookup_shdr(eng, st, args, kw):
                n = lift(dict(zip(('self', 'name'), args), **kw)['name'])
                st = st.copy()
                r = eng.alloc(st, Rec({'data': (True, DATA(n))}, 'Elf_Shdr'))
                return st, Choice([(b_not(HAS(n)), None), (HAS(n), r)])
            eng.contracts[('elf', 'lookup_shdr')] = lookup_shdr
            eng.externals['method.decode'] = lambda eng, st, fr, f, args, kw, n: (st, DECODED(f.self_))
            a0 = P.st.heap[attr.rid]
            r = method(P, cu, fn, attr)
            if 'in .' in what:
                want = DECODED(cut(DATA(lift(name)), raw, zero(DATA(lift(name)), raw)))
            elif what == 'text':
                want = DECODED(raw)
            elif what == 'address':
                want = number(cut(raw, lift(1), 1 + size), val(elf, '_byteorder'), z3.BoolVal(False))
            else:
                want = None
            P.equal('the value', P.val(r, P.out), want, (b_or(eqt(at(ident, 4), 1), eqt(at(ident, 4), 2)),) if what == 'address' else ())
            P.raises_only('no exception', False)
            got = P.out.heap[attr.rid]
            P.equal('the attribute', Rec({n: x for n, x in got.fields.items() if n in a0.fields}), a0)
            for n in ('evaluated', 'string'):
                if n in got.fields:
                    P.equal(f'the remembered value ({n})', got.fields[n][1], want, (lift(got.fields[n][0]),))
            # the remembered value is used
            old = mk(STR, 'old')
            P.st = P.st.copy()
            P.st.heap[attr.rid] = upd(a0, **{'evaluated' if fn == 'get_attr_eval' else 'string': old})
            r = method(P, cu, fn, attr)
            P.equal('a remembered value', P.val(r, P.out), old)


AATTR = R('Dwarf_Abbrev_Attr', attr=INT, form=INT)
ENTRY = R('Dwarf_Abbrev_Entry', code=INT, tag=INT, children=INT, attrs=L(AATTR))
DATTR = R(attr=INT, form=INT, offset=INT, value=OBJ, size=INT)
ENTRYREC = R(offset=INT, parent=Null(INT), level=INT, code=INT, tag=INT, size=INT, attrs=M(DATTR, INT))
VALUE = z3.Function('attribute value', INT, INT, INT, OBJ)      # attribute, form, offset
BEHIND = z3.Function('behind the attribute', INT, INT, INT, INT)
ATTRS_END = z3.Function('behind the attributes', INT, INT)      # of the entry at an offset
SIZE = z3.Function('size of the entry', INT, INT)               # with its children
CHAIN = z3.Function('end of the siblings', INT, INT)            # from the entry at an offset
IN = z3.Function('entries of the tree', INT, INT, z3.BoolSort())         # requested entries of the tree at an offset
INCHAIN = z3.Function('entries of the siblings', INT, INT, z3.BoolSort())
WANTED = z3.Function('requested tag', INT, z3.BoolSort())


def entries(P):
    """Dwarf_CU.get_DIEs: every requested entry of the unit, with its tag and attributes; entries follow each other without a gap

    The definition of the tree: an entry ends behind its attributes, or, with children, behind the chain of siblings that starts there;
    a chain ends with the entry of code 0."""
    cases = [(f, w, c) for f, w in ((True, True), (True, False), (False, True)) for c in ('null entry', 'no children', 'children')]
    for filtered, asked, case in cases:
        eng = P.engine(f'get_DIEs {"with" if filtered else "without"} tags, {"" if asked else "not "}requested, {case}')
        install(eng)
        eng.prune = True
        d = mk(Bytes, 'data')
        table = mk(M(ENTRY, INT), 'table')
        elf = mk(R('Elf', _byteorder=STR), 'elf')
        cu = P.give(Rec({'_elf': (True, elf), '_die': (True, None), '_data': (True, d), '_die_offset': (True, mk(INT, 'first entry')),
                         'abbrev_table': (True, table)}, 'Dwarf_CU'))
        tags = P.arg(L(INT), 'tags') if filtered else None
        uleb(P)
        S = {}
        code = lambda o: U(d, o, N(d, o))
        tag = lambda o: b_ite(eqt(code(o), 0), lift(0), val(table.elem(code(o)), 'tag'))
        q = fresh_var(INT, 'q')

        def wanted(t):
            if not filtered:
                return True
            g = P.st.heap[tags.rid].segs[0]
            i = fresh_var(g.sorts[0], 'i')
            return mk_existss((i,), b_and(g.dom((i,)), eqt(g.elem((i,)), t)))

        def own(o, q):
            return b_and(eqt(q, o), wanted(tag(o)))

        def size(o):
            """the definition of the size of an entry and of a chain"""
            e = table.elem(code(o))
            a = ATTRS_END(o)
            return (eqt(SIZE(o), b_ite(eqt(code(o), 0), N(d, o), b_ite(eqt(val(e, 'children'), 0), a - o, CHAIN(a) - o))),)

        def tree(o, q):
            e = table.elem(code(o))
            return eqt(IN(o, q), b_or(own(o, q), b_and(b_not(eqt(code(o), 0)), b_not(eqt(val(e, 'children'), 0)), INCHAIN(ATTRS_END(o), q))))

        def chain(o, q):
            return (eqt(CHAIN(o), b_ite(eqt(code(o), 0), o + SIZE(o), CHAIN(o + SIZE(o)))),
                    eqt(INCHAIN(o, q), b_or(IN(o, q), b_and(b_not(eqt(code(o), 0)), INCHAIN(o + SIZE(o), q)))))

        def record(o):
            return mk(R(tag=INT, attrs=M(DATTR, INT)), 'entry', (o,))

        def entries_in(st):
            return get(st.heap[S['D'].rid], S['D'].path)

        def set_entries(st, v):
            st.heap[S['D'].rid] = put(st.heap[S['D'].rid], S['D'].path, lambda _: v) if S['D'].path else v

        def get_attr_value(eng, st, args, kw):
            a = dict(zip(('self', 'abbrev_attr', 'data', 'offset'), args), **kw)
            x = P.val(a['abbrev_attr'], st)
            P.out = st
            P.prove('attributes are read from the data of the unit', eqt(a['data'], d))
            ks = (val(x, 'attr'), val(x, 'form'), lift(a['offset']))
            return st, Tup([VALUE(*ks), BEHIND(*ks)])
        eng.contracts[('elf', 'get_attr_value')] = get_attr_value

        def recursive(eng, st, f, args, kw):
            names = [x.arg for x in f.node.args.args]
            a = dict(zip(names, args), **kw)
            if len(names) < 1:
                raise Unsupported('arguments of the walk')
            D = dict_of(eng, st)
            if 'o' not in S:
                # the walk starts at the first entry; here: any entry
                P.out = st
                P.prove('the walk starts at the first entry', eqt(lift(a[names[0]]), mk(INT, 'first entry')))
                P.add(f'{P.label}: the walk starts without entries', isinstance(entries_in(st), Empty))
                o = S['o'] = fresh_var(INT, 'o')
                e = table.elem(code(o))
                s = st.copy()
                old = S['old'] = mk(M(ENTRYREC, INT), 'earlier')
                set_entries(s, old)
                s = s.assume(*size(o), tree(o, q), b_implies(b_not(eqt(code(o), 0)), b_and(table.dom(code(o)), eqt(val(e, 'code'), code(o)))))
                zero_, kids = eqt(code(o), 0), b_not(eqt(val(e, 'children'), 0))
                s = s.assume(wanted(tag(o)) if asked else b_not(wanted(tag(o))), zero_ if case == 'null entry' else b_not(zero_), kids if case == 'children' else True if zero_ is True else
                             b_implies(b_not(zero_), b_not(kids)))
                more = [mk(Null(INT), 'parent'), mk(INT, 'level')][:len(names) - 1]
                out, v = eng.call(s, f, [o] + more)
                P.raises = out.exits
                P.raises_only('no entry raises an exception', False)
                A = P.out = out.state
                got, new = P.val(v, A), entries_in(A)
                P.equal('the code', val(got, 'code'), code(o))
                P.equal('the size', val(got, 'size'), SIZE(o))
                P.equal('the tag', val(got, 'tag'), tag(o))
                P.prove('exactly the requested entries of the tree are added', eqt(new.dom(q), b_or(old.dom(q), IN(o, q))), (b_not(eqt(q, o)),))
                P.prove('the entry itself is added if it is requested', new.dom(o), (wanted(tag(o)),))
                P.prove('the entry itself is not added otherwise', eqt(new.dom(o), old.dom(o)), (b_not(wanted(tag(o))),))
                P.prove('the tag of the entry in the result', eqt(val(new.elem(o), 'tag'), tag(o)), (wanted(tag(o)),))
                r = st.copy()
                S['all'] = mk(M(ENTRYREC, INT), 'all')
                set_entries(r, S['all'])
                return r, None
            # a child, by its contract
            o = lift(a[names[0]])
            S['child'] = o
            s = st.copy()
            old = entries_in(st)
            new = mk(M(ENTRYREC, INT), 'more', (o,))
            set_entries(s, Map(INT, lambda k: b_or(old.dom(k), IN(o, k)), lambda k: ite(IN(o, k), new.elem(k), old.elem(k))))
            r = eng.alloc(s, Rec(dict(mk(ENTRYREC, 'child', (o,)).fields, code=(True, code(o)), size=(True, SIZE(o)))))
            return s, r
        eng.nested['get_DIE'] = recursive

        def dict_of(eng, st):
            """the dict with the entries: the only empty dict at the start of the walk"""
            if 'D' not in S:
                rs = [eng.resolve(st, v) for f in st.frames.values() for v in f.values() if isinstance(v, Ref)]
                ds = {(r.rid, r.path): r for r in rs if isinstance(eng.deref(st, r), Empty)}
                if len(ds) != 1:
                    raise Unsupported('the dict with the entries')
                S['D'] = list(ds.values())[0]
            return S['D']

        def counter(eng, st, fr, n):
            """the variable with the offset"""
            names = [x for x in steps.assigned([n]) if x in st.frames[fr.fid] and is_leaf(st.frames[fr.fid][x]) and not isinstance(st.frames[fr.fid][x], Lost)]
            if len(names) != 1:
                raise Unsupported('variables of the loop')
            return names[0]

        def the_entry(eng, st, fr):
            rs = [eng.resolve(st, v) for v in st.frames[fr.fid].values() if isinstance(v, Ref)]
            rs = {(r.rid, r.path): r for r in rs if isinstance(eng.deref(st, r), Rec) and 'attrs' in eng.deref(st, r).fields and not eng.deref(st, r).cls}
            if len(rs) != 1:
                raise Unsupported('the entry')
            return list(rs.values())[0]

        def write(st, r, v):
            st.heap[r.rid] = put(st.heap[r.rid], r.path, lambda _: v) if r.path else v

        def for_rule(eng, st, fr, n, it):
            r = eng.resolve(st, it) if isinstance(it, Ref) else None
            if r is None or 'attrs' in S or not r.path or r.path[-1] != ('f', 'attrs') or n.orelse or r.rid != cu.rid:
                return None
            o = S['o']
            S['attrs'] = True
            seg = val(table.elem(code(o)), 'attrs').segs[0]
            P.out = st
            P.equal('the attributes of the abbreviation', P.val(it, st), val(table.elem(code(o)), 'attrs'), order=True)
            off, die = counter(eng, st, fr, n), the_entry(eng, st, fr)
            P.prove('the first attribute is behind the code', eqt(lift(st.frames[fr.fid][off]), o + N(d, o)))
            P.add(f'{P.label}: there are no attributes before the first', isinstance(val(P.val(die, st), 'attrs'), Empty))
            i, f = fresh_var(seg.sorts[0], 'i'), fresh_var(INT, 'f')
            s = st.copy()
            steps.forget(s, fr, steps.assigned([n]))
            s.frames[fr.fid][off] = f
            now = mk(M(DATTR, INT), 'attributes now')
            write(s, die, upd(P.val(die, st), attrs=now))
            x = seg.elem((i,))
            s = s.assume(seg.dom((i,)))
            s = eng.assign(s, fr, n.target, Ref(r.rid, r.path + (('s', 0, (i,)),)))
            before = s
            out = steps.body_once(eng, s, fr, n, ('break',))
            P.raises, rest = out.exits, [y for y in out.exits if y.kind == 'raise']
            P.add(f'{P.label}: no attribute raises an exception', not rest)
            last = eqt(val(x, 'attr'), 0)
            ks = (val(x, 'attr'), val(x, 'form'), f)
            own_ = Rec({'attr': (True, ks[0]), 'form': (True, ks[1]), 'offset': (True, f), 'value': (True, VALUE(*ks)), 'size': (True, BEHIND(*ks) - f)})
            for goes_on, A in steps.ends(eng, out):
                P.out = A
                P.prove('the attributes end with the first of number 0', b_not(last) if goes_on else last)
                P.prove('the next attribute is behind this one', eqt(lift(A.frames[fr.fid][off]), BEHIND(*ks) if goes_on else f))
                got = val(P.val(die, A), 'attrs')
                P.equal('the attribute is added', got, Map(INT, lambda k: b_or(eqt(k, ks[0]), now.dom(k)), lambda k: ite(eqt(k, ks[0]), own_, now.elem(k))) if goes_on else now)
                P.equal('the rest of the entry', upd(P.val(die, A), attrs=now), P.val(die, before))
                if not die.path:
                    P.equal('the entries', entries_in(A), entries_in(before))
            e = st.copy()
            steps.forget(e, fr, steps.assigned([n]))
            e.frames[fr.fid][off] = ATTRS_END(o)
            write(e, die, upd(P.val(die, st), attrs=mk(M(DATTR, INT), 'attributes', (o,))))
            return Out(e.assume(ATTRS_END(o) >= o + N(d, o)))
        eng.for_rule = for_rule

        def while_rule(eng, st, fr, n):
            if 'children' in S or n.orelse:
                raise Unsupported('loop over the children')
            S['children'] = True
            o = S['o']
            A0 = ATTRS_END(o)
            loc = st.frames[fr.fid]
            die = the_entry(eng, st, fr)
            names = [x for x in sorted(steps.assigned([n])) if x in loc and not isinstance(loc[x], Lost)]
            off = [x for x in names if is_z3(loc[x]) and loc[x].sort() == INT and valid(st.pc, eqt(loc[x], A0))]
            if len(off) != 1 or not all(is_leaf(loc[x]) for x in names):
                raise Unsupported('variables of the loop')
            off = off[0]
            more = [x for x in names if x != off]
            base = entries_in(st)
            m = mk(M(ENTRYREC, INT), 'now')
            now = Map(INT, m.dom, lambda k: ite(eqt(k, o), base.elem(k), m.elem(k)))

            def inv(x, D):
                return b_and(x >= A0, eqt(CHAIN(x), CHAIN(A0)), eqt(b_or(D.dom(q), INCHAIN(x, q)), b_or(base.dom(q), INCHAIN(A0, q))), b_implies(base.dom(q), D.dom(q)),
                             b_implies(base.dom(o), D.dom(o)), b_implies(b_not(base.dom(o)), b_not(D.dom(o))))
            behind = lambda x, k: b_and(b_implies(IN(x, k), k >= x), b_implies(INCHAIN(x, k), k >= x))

            def iteration(f, D, values, *facts):
                """head and ends of the iteration for the child at offset f"""
                s = st.copy()
                steps.forget(s, fr, steps.assigned([n]))
                s.frames[fr.fid].update(values, **{off: f})
                set_entries(s, D)
                s = s.assume(inv(f, D), SIZE(f) > 0, *chain(f, q), *chain(f, o), behind(f, q), behind(f, o), behind(f + SIZE(f), q), *facts)
                if not values and more:
                    c = True   # only to see what an iteration does with these variables
                else:
                    s, c = eng.cond(s, fr, n.test)
                    P.out = s
                    P.prove('the loop goes on to the end of the children', c)
                out = steps.body_once(eng, s, fr, n, ('break',))
                P.add(f'{P.label}: no child raises an exception', not any(y.kind == 'raise' for y in out.exits))
                ends = []
                for goes_on, A in steps.ends(eng, out):
                    if not goes_on or not values and more:
                        ends.append((goes_on, A))
                        continue
                    A, c = eng.cond(A, fr, n.test)
                    ends += [(g, A.assume(x)) for g, x in ((True, c), (False, b_not(c))) if x is not False and consistent(list(A.assume(x).pc))]
                return ends
            P.out = st
            P.prove('at the first child', inv(A0, base))
            f = fresh_var(INT, 'f')
            if more:
                # other variables: as before the loop, or as an earlier child (not the last) left them
                p = fresh_var(INT, 'p')
                n0, m0 = len(eng.obligations), len(P.obligations)
                left = [A for g, A in iteration(p, now, {}) if g]
                del eng.obligations[n0:], P.obligations[m0:]
                vals = {x: left[0].frames[fr.fid][x] for x in more} if len(left) == 1 else {}
                if not vals or not all(is_leaf(v) and not isinstance(v, Lost) for v in vals.values()):
                    raise Unsupported('variables of the loop')
                ends = [(A0, e) for e in iteration(A0, base, {x: loc[x] for x in more})]
                ends += [(f, e) for e in iteration(f, now, vals, b_not(eqt(code(p), 0)))]
            else:
                ends = [(f, e) for e in iteration(f, now, {})]
            P.add(f'{P.label}: the children end', any(not g for _, (g, _) in ends))
            for y, (goes_on, A) in ends:
                P.out = A
                D, x = entries_in(A), lift(A.frames[fr.fid][off])
                P.prove('the children end with the entry of code 0', b_not(eqt(code(y), 0)) if goes_on else eqt(code(y), 0))
                if goes_on:
                    P.prove('at the next child', inv(x, D))
                else:
                    P.prove('behind the last child', b_and(eqt(x, CHAIN(A0)), x > A0, eqt(D.dom(q), b_or(base.dom(q), INCHAIN(A0, q)))))
                P.equal('the entry is not changed', D.elem(o), base.elem(o), (base.dom(o),))
            e = st.copy()
            steps.forget(e, fr, steps.assigned([n]))
            e.frames[fr.fid][off] = CHAIN(A0)
            set_entries(e, Map(INT, lambda k: b_or(base.dom(k), INCHAIN(A0, k)), lambda k: ite(eqt(k, o), base.elem(k), mk(ENTRYREC, 'then', (lift(k),)))))
            return Out(e.assume(CHAIN(A0) > A0, b_not(INCHAIN(A0, o))))
        eng.while_rule = while_rule
        node, mod, _ = eng.member('Dwarf_CU', 'get_DIEs')
        out, v = eng.call(P.st, PyFn(node, None, mod), [cu, tags])
        P.raises = out.exits
        P.out = out.state
        P.raises_only('no exception', False)
        P.add(f'{P.label}: the entries are returned', 'all' in S and P.val(v, out.state) is S['all'])
        P.add(f'{P.label}: attributes and children are read', case == 'null entry' or 'attrs' in S and (case == 'no children') == ('children' not in S))


ITEM = z3.Function('size of the item', INT, INT)
LIST_END = z3.Function('behind the list', INT, INT)


def item_loop(P, d, start, ref, item, last, data_ok=True):
    """a loop that reads items of a list behind each other: one arbitrary iteration at an arbitrary offset

    item(offset): the new item, or None if the last one is not kept; last(offset): the list ends here"""
    S = {}

    def rule(eng, st, fr, n):
        if S or n.orelse:
            raise Unsupported('loop over a list')
        loc = st.frames[fr.fid]
        names = [x for x in steps.assigned([n]) if x in loc and (type(loc[x]) is int or is_z3(loc[x]) and loc[x].sort() == INT)]
        if len(names) != 1:
            raise Unsupported('variables of the loop')
        off = names[0]
        S['done'] = True
        P.out = st
        P.prove('the list starts at its offset', eqt(lift(st.frames[fr.fid][off]), start))
        r = eng.resolve(st, ref(eng, st))
        read = lambda s: get(s.heap[r.rid], r.path)
        S['first'] = read(st)
        f = fresh_var(INT, 'f')
        s = st.copy()
        steps.forget(s, fr, steps.assigned([n]))
        s.frames[fr.fid][off] = f
        now = Seq(S['first'].segs + mk(L(R(x=INT)), 'items').segs)
        s.heap[r.rid] = put(s.heap[r.rid], r.path, lambda _: now)
        s, c = eng.cond(s.assume(f >= start), fr, n.test)
        P.out = s
        if c is True:
            P.add(f'{P.label}: the loop goes on to the end of the list', True)
        else:
            P.prove('the loop goes on to the end of the list', eqt(c, b_not(last(f))))
            s = s.assume(c)
        out = steps.body_once(eng, s, fr, n, ('break',))
        P.add(f'{P.label}: no item raises an exception', not any(y.kind == 'raise' for y in out.exits))
        ends = steps.ends(eng, out)
        P.add(f'{P.label}: the list ends and goes on', {g for g, _ in ends} == ({True, False} if c is True else {True}))
        for goes_on, A in ends:
            P.out = A
            P.prove('the list ends where it should', b_not(last(f)) if goes_on else last(f))
            new = steps.added(now, read(A))
            if new is None:
                P.add(f'{P.label}: items are added to the list', False)
                continue
            kept = goes_on or item(f, False) is not None
            P.equal('the item is added', new, Seq([steps.one(item(f, goes_on))] if kept else []))
            if goes_on or kept:
                P.prove('the next item is behind this one', eqt(lift(A.frames[fr.fid][off]), f + ITEM(f)))
        e = st.copy()
        steps.forget(e, fr, steps.assigned([n]))
        e.frames[fr.fid][off] = LIST_END(start)
        S['list'] = Seq(S['first'].segs + mk(L(R(x=INT)), 'all items').segs)
        S['end'] = e
        e.heap[r.rid] = put(e.heap[r.rid], r.path, lambda _: S['list'])
        return Out(e)
    P.eng.while_rule = rule
    return S


def abbreviations(P):
    """Dwarf_Abbrev_Entry and Dwarf_CU.abbrev_table: the attributes of an abbreviation, the abbreviations of a unit"""
    u = lambda d, o: U(d, o, N(d, o))
    eng = P.engine('Dwarf_Abbrev_Entry')
    install(eng)
    uleb(P)
    d, o = mk(Bytes, 'data'), mk(INT, 'offset')
    elf = P.arg(R('Elf', _byteorder=STR), 'elf')
    o1 = o + N(d, o)
    o2 = o1 + N(d, o1)

    def attribute(f):
        o2 = f + N(d, f)
        return u(d, f), u(d, o2)

    def new(fields, cls):
        def f(eng, st, args, kw):
            a = dict(zip(('elf', 'data', 'offset'), args), **kw)
            P.out = st
            P.prove('an item is read from the data at hand', eqt(a['data'], d))
            st = st.copy()
            return st, eng.alloc(st, Rec({n: (True, v) for n, v in fields(lift(a['offset'])).items()}, cls))
        return Handler(f)
    afields = lambda f: {'attr': attribute(f)[0], 'form': attribute(f)[1], 'offset': f, 'size': ITEM(f)}
    eng.globals['Dwarf_Abbrev_Attr'] = new(afields, 'Dwarf_Abbrev_Attr')
    x = P.give(Rec({}, 'Dwarf_Abbrev_Entry'))
    S = item_loop(P, d, o2 + 1, lambda eng, st: eng.read(st, Ref(x.rid, (('f', 'attrs'),))),
                  lambda f, goes_on: Rec({n: (True, v) for n, v in afields(f).items()}, 'Dwarf_Abbrev_Attr'), lambda f: b_and(*[eqt(y, 0) for y in attribute(f)]))
    method(P, x, '__init__', elf, d, o)
    got = P.out.heap[x.rid]
    P.raises_only('no exception', False)
    P.equal('the code', val(got, 'code'), u(d, o))
    P.equal('the tag', val(got, 'tag'), u(d, o1))
    P.equal('whether it has children', val(got, 'children'), number(cut(d, o2, o2 + 1), val(P.st.heap[elf.rid], '_byteorder'), z3.BoolVal(False)))
    P.equal('the offset', val(got, 'offset'), o)
    P.equal('the size', val(got, 'size'), LIST_END(o2 + 1) - o)
    P.add('Dwarf_Abbrev_Entry: the attributes are those of the list', S.get('list') is not None and val(got, 'attrs') is S['list'])
    P.add('Dwarf_Abbrev_Entry: no other attributes', isinstance(S.get('first'), Seq) and not S['first'].segs)

    eng = P.engine('abbrev_table')
    install(eng)
    uleb(P)
    elf = mk(R('Elf', _byteorder=STR), 'elf')
    d = DATA(lift('.debug_abbrev'))
    P.assume(HAS(lift('.debug_abbrev')))

    def lookup_shdr(eng, st, args, kw):
        n = lift(dict(zip(('self', 'name'), args), **kw)['name'])
        st = st.copy()
        r = eng.alloc(st, Rec({'data': (True, DATA(n))}, 'Elf_Shdr'))
        return st, Choice([(b_not(HAS(n)), None), (HAS(n), r)])
    eng.contracts[('elf', 'lookup_shdr')] = lookup_shdr
    efields = lambda f: {'code': u(d, f), 'offset': f, 'size': ITEM(f)}
    eng.globals['Dwarf_Abbrev_Entry'] = new(efields, 'Dwarf_Abbrev_Entry')
    start = mk(INT, 'start')
    x = P.give(Rec({'_elf': (True, elf), '_abbrev_table': (True, None), 'debug_abbrev_offset': (True, start)}, 'Dwarf_CU'))
    S = item_loop(P, d, start, lambda eng, st: eng.read(st, Ref(x.rid, (('f', '_abbrev_table'),))),
                  lambda f, goes_on: Rec({n: (True, v) for n, v in efields(f).items()}, 'Dwarf_Abbrev_Entry') if goes_on else None, lambda f: eqt(u(d, f), 0))
    r = method(P, x, 'abbrev_table')
    P.raises_only('no exception', False)
    first = S.get('first')
    P.add('abbrev_table: the table starts with no abbreviation for code 0', isinstance(first, Seq) and len(first.segs) == 1 and not first.segs[0].sorts and first.segs[0].elem(()) is None)
    P.add('abbrev_table: the table is the list', S.get('list') is not None and P.val(r, P.out) is S['list'])


VALUES = z3.Function('values of the record', STR, Bytes, INT, OBJ)


def compile_units(P):
    """Elf.CUs: the units of .debug_info behind each other; the length of a unit does not include the field with the length"""
    eng = P.engine('CUs')
    install(eng)
    name = lift('.debug_info')
    P.assume(HAS(name))
    e = P.give(Rec({'_CUs': (True, None)}, 'Elf'))

    def lookup_shdr(eng, st, args, kw):
        n = lift(dict(zip(('self', 'name'), args), **kw)['name'])
        st = st.copy()
        r = eng.alloc(st, Rec({'data': (True, DATA(n))}, 'Elf_Shdr'))
        return st, Choice([(b_not(HAS(n)), None), (HAS(n), r)])
    eng.contracts[('elf', 'lookup_shdr')] = lookup_shdr
    FIELD, LEN = z3.Function('length field', INT, Bytes), z3.Function('length of the unit', INT, INT)

    def fields(f):
        return {'offset': f, 'unit_length': FIELD(f), 'length': LEN(f), 'size': ITEM(f)}

    def new(eng, st, args, kw):
        a = dict(zip(('elf', 'data', 'offset'), args), **kw)
        P.out = st
        P.prove('a unit is read from the data at hand', eqt(a['data'], DATA(name)))
        P.add(f'{P.label}: a unit gets the file', isinstance(a['elf'], Ref) and eng.resolve(st, a['elf']).rid == e.rid and not eng.resolve(st, a['elf']).path)
        f = lift(a['offset'])
        st = st.copy()
        # proved for Dwarf_CU.__init__ in C10
        st = st.assume(eqt(ITEM(f), length(FIELD(f)) + LEN(f)))
        return st, eng.alloc(st, Rec({n: (True, v) for n, v in fields(f).items()}, 'Dwarf_CU'))
    eng.globals['Dwarf_CU'] = Handler(new)
    S = item_loop(P, DATA(name), lift(0), lambda eng, st: eng.read(st, Ref(e.rid, (('f', '_CUs'),))),
                  lambda f, goes_on: Rec({n: (True, v) for n, v in fields(f).items()}, 'Dwarf_CU'), lambda f: f >= length(DATA(name)))
    r = method(P, e, 'CUs')
    P.raises_only('no exception', False)
    P.add('CUs: the units are those of the list', S.get('list') is not None and P.val(r, P.out) is S['list'] and not S['first'].segs)


def symbol_table(P):
    """Elf.symbols: the records of all symbol tables in their order; Elf_Sym: the members of a record"""
    SHDR = R('Elf_Shdr', sh_type=INT, sh_size=INT, sh_link=INT, data=Bytes)
    eng = P.engine('symbols')
    install(eng)
    base = mk(R('Elf', shdrs=L(SHDR), _sym_fmt=STR), 'elf')
    e = P.give(Rec(dict(base.fields, _symbols=(True, None)), 'Elf'))
    shdrs = val(base, 'shdrs').segs[0]
    S = {}

    def get_fmt(eng, st, args, kw):
        a = dict(zip(('self', 'fmt', 'data', 'offset'), args), **kw)
        o = lift(a.get('offset', 0))
        return st, Tup([VALUES(lift(a['fmt']), a['data'], o), o + ITEM(o)])
    eng.contracts[('elf', 'get_fmt')] = get_fmt

    def fields(link, values):
        return {'_strndx': (True, link), 'values': (True, values)}

    def new(eng, st, args, kw):
        a = dict(zip(('elf', 'sh_link', 'values'), args), **kw)
        st = st.copy()
        return st, eng.alloc(st, Rec(fields(lift(a['sh_link']), a['values']), 'Elf_Sym'))
    eng.globals['Elf_Sym'] = Handler(new)
    lst = lambda eng, st: eng.read(st, Ref(e.rid, (('f', '_symbols'),)))

    def for_rule(eng, st, fr, n, it):
        r = eng.resolve(st, it) if isinstance(it, Ref) else None
        if r is None or r.rid != e.rid or r.path != (('f', 'shdrs'),) or 'k' in S or n.orelse:
            return None
        k = S['k'] = fresh_var(shdrs.sorts[0], 'k')
        x = shdrs.elem((k,))
        P.out = st
        P.equal('the sections', P.val(it, st), val(base, 'shdrs'), order=True)
        first = get(st.heap[e.rid], (('f', '_symbols'),))
        P.add(f'{P.label}: there are no symbols at first', isinstance(first, Seq) and not first.segs)
        s = st.copy()
        steps.forget(s, fr, steps.assigned([n]))
        before = Seq(mk(L(R(x=INT)), 'before').segs)
        s.heap[e.rid] = put(s.heap[e.rid], (('f', '_symbols'),), lambda _: before)
        s = eng.assign(s.assume(shdrs.dom((k,))), fr, n.target, Ref(r.rid, r.path + (('s', 0, (k,)),)))
        table = b_or(eqt(val(x, 'sh_type'), 2), eqt(val(x, 'sh_type'), 11))
        for g in (True, False):
            loop = item_loop(P, None, lift(0), lst, lambda f, goes_on: Rec(fields(val(x, 'sh_link'), VALUES(val(base, '_sym_fmt'), val(x, 'data'), f)), 'Elf_Sym'),
                             lambda f: f >= val(x, 'sh_size'))
            o = steps.body_once(eng, s.assume(table if g else b_not(table)), fr, n)
            P.add(f'{P.label}: no section raises an exception', not o.exits)
            P.out = o.state
            got = get(o.state.heap[e.rid], (('f', '_symbols'),))
            if g:
                P.add(f'{P.label}: the symbols of a symbol table are added', loop.get('list') is not None and got is loop['list'] and loop['first'] is before)
            else:
                P.equal('other sections add no symbols', got, before)
        f = st.copy()
        steps.forget(f, fr, steps.assigned([n]))
        S['all'] = Seq(mk(L(R(x=INT)), 'all').segs)
        f.heap[e.rid] = put(f.heap[e.rid], (('f', '_symbols'),), lambda _: S['all'])
        return Out(f)
    eng.for_rule = for_rule
    eng.prune = True
    r = method(P, e, 'symbols')
    P.raises_only('no exception', False)
    P.add('symbols: the symbols of all tables are returned', 'all' in S and P.val(r, P.out) is S['all'])
    # the members of a record (System V ABI, symbol table)
    for bits, order in ((32, ('name', 'value', 'size', 'info', 'other', 'shndx')), (64, ('name', 'info', 'other', 'shndx', 'value', 'size'))):
        eng = P.engine(f'Elf_Sym, {bits} bit')
        install(eng)
        e = P.arg(R('Elf', ehdr=R('Elf_Ehdr', e_ident=Bytes)), 'elf')
        ident = val(val(P.st.heap[e.rid], 'ehdr'), 'e_ident')
        P.assume(length(ident) >= 16, eqt(at(ident, 4), bits // 32))
        x = P.give(Rec({}, 'Elf_Sym'))
        vs = {n: mk(INT, n) for n in order}
        method(P, x, '__init__', e, mk(INT, 'link'), Tup([vs[n] for n in order]))
        got = P.out.heap[x.rid]
        P.raises_only('no exception', False)
        for n in order:
            P.equal(f'st_{n}', val(got, f'st_{n}'), vs[n])
        P.equal('the section with the names', val(got, '_strndx'), mk(INT, 'link'))
    eng = P.engine('Elf_Sym.type')
    x = P.arg(R('Elf_Sym', st_info=INT), 'symbol')
    info = val(P.st.heap[x.rid], 'st_info')
    P.assume(info >= 0, info < 256)
    P.equal('the lower four bits', method(P, x, 'type'), info % 16)


def without_debug(P):
    """a file without debug information has no units; what was read before is not read again"""
    for what, name, cls in (('CUs', '.debug_info', 'Elf'), ('abbrev_table', '.debug_abbrev', 'Dwarf_CU')):
        eng = P.engine(f'{what} without {name}')
        fields = {'_' + what: (True, None), 'debug_abbrev_offset': (True, mk(INT, 'start')), '_elf': (True, mk(R('Elf', x=INT), 'elf'))}
        x = P.give(Rec({n: v for n, v in fields.items() if n == '_' + what or cls == 'Dwarf_CU'}, cls))
        eng.contracts[('elf', 'lookup_shdr')] = lambda eng, st, args, kw: (st, None)
        r = method(P, x, what)
        P.raises_only('no exception', False)
        got = P.val(r, P.out)
        P.add(f'{P.label}: nothing is read', isinstance(got, Seq) and [g.elem(()) for g in got.segs if not g.sorts] == ([None] if cls == 'Dwarf_CU' else []) and
              all(not g.sorts for g in got.segs))
    for what, cls in (('CUs', 'Elf'), ('symbols', 'Elf'), ('abbrev_table', 'Dwarf_CU')):
        P.engine(f'{what} again')
        old = mk(L(R(x=INT)), 'old')
        x = P.give(Rec({'_' + what: (True, old)}, cls))
        r = method(P, x, what)
        P.raises_only('no exception', False)
        P.add(f'{P.label}: the same list', P.val(r, P.out) is old)


PARTS = cmn.parts(no_symbol, symbols, without_files, units, locations, entries, abbreviations, compile_units, symbol_table, without_debug)
