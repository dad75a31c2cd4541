"""Reports: exactly the entries of the memory map with their names and values."""
import z3

from engine import Handler, StarV, at_position, length
from logic import Idx, Obj, Str, b_and, b_implies, b_ite, b_not, b_or, eqt, fresh_var, is_z3, lift, mk_existss, mk_sums, witnesses
from spec import BOOL, INT, L, M, Null, R, STR, mk, same_value
from values import Choice, Map, Rec, Ref, Seg, Seq, Tup
from shapes import MEMMAP, SUMMARY
import cmn
from cmn import mapped, nonempty, upd, val

ASSUMPTIONS = ['json.dumps() writes the value it is given', 'log.print(text, markup=False) prints the text as it is; with markup, text passed through rich.markup.escape() is printed as it is',
               'memorymap.sort() reorders only (C09), memorymap.trim() removes as decided in C07']
DATA = z3.Function('json text', INT, Str)


class Printer:
    """records what is printed; the output is a ghost counter, so that a lost or repeated print is noticed"""
    def __init__(self, P):
        self.P, self.dumped, self.printed = P, [], []
        self.world = P.give(Rec({'prints': (True, z3.IntVal(0))}, 'World'))
        P.eng.externals['json.dumps'] = self.dumps
        P.eng.on_print = self.print

    def dumps(self, eng, st, fr, f, args, kwargs, n):
        self.dumped.append((st, args[0], kwargs))
        return st, DATA(z3.IntVal(len(self.dumped) - 1))

    def print(self, eng, st, args, kwargs):
        self.printed.append((st, args, kwargs))
        st = st.copy()
        st.heap[self.world.rid] = upd(st.heap[self.world.rid], prints=val(st.heap[self.world.rid], 'prints') + 1)
        return st

    def json(self, name, check):
        """obligations: exactly one JSON text is printed on every path, verbatim; check(state, value, i) for each"""
        P = self.P
        out = P.out
        P.prove(f'{name}: one text is printed', eqt(val(out.heap[self.world.rid], 'prints'), 1))
        P.add(f'{P.label}: {name} is printed', bool(self.printed))
        for i, (st, args, kw) in enumerate(self.printed):
            x = args[0] if len(args) == 1 else None
            ok = is_z3(x) and x.decl().name() == 'json text'
            P.add(f'{P.label}: {name}: JSON is printed verbatim ({i + 1})', ok and kw == {'markup': False}, repr((args, kw))[:300])
            if ok:
                s, v, _ = self.dumped[x.arg(0).as_long()]
                P.out = s
                check(s, v, i)
        P.out = out


def same(P, name, got, want):
    if same_value(got, want):
        P.add(f'{P.label}: {name}', True)
        return
    alts = got.alts if isinstance(got, Choice) else [(True, got)]
    P.prove(name, b_or(*[g for g, x in alts if same_value(x, want)]))


# ------------------------------------------------------------------ which report
SELECT = ('archives', 'archive_details', 'archive_dependencies', 'files')
GETTERS = {'archives': 'get_archives_', 'archive_details': 'get_symbols_', 'archive_dependencies': 'get_archives_dependencies_', 'files': 'get_object_files_', None: 'get_summary_'}


def report(P, mod, what, order=False, select=SELECT, **kinds):
    """arguments of show() that request this report; of several options the first in SELECT counts"""
    P.engine(f'{mod}.show {what or "summary"}', order=order)
    mm, mf, elf = P.arg(MEMMAP, 'memmap'), P.arg(R(cls='MapFile', fn=STR), 'map_file'), P.arg(Null(R(cls='Elf')), 'elf')
    args = P.arg(R(**{n: BOOL for n in SELECT if n != 'archive_details'}, archive_details=Null(STR), **kinds), 'args')
    opt = P.st.heap[args.rid]
    for n in select[:select.index(what)] if what else select:
        opt = upd(opt, **{n: Choice([(z3.Const('no details', z3.BoolSort()), None), (z3.Not(z3.Const('no details', z3.BoolSort())), '')]) if n == 'archive_details' else False})
    if what == 'archive_details':
        x = z3.Const('archive_details', Str)
        P.assume(b_not(eqt(x, '')))
        opt = upd(opt, archive_details=x)
    elif what:
        opt = upd(opt, **{what: True})
    P.st.heap[args.rid] = opt
    return mm, mf, elf, args


def not_called(P, calls):
    out = P.out
    for n, cs in calls.items():
        for st, a in cs:
            P.out = st
            P.prove(f'{n} is not called', False)
    P.out = out


def dot(P):
    """DOT is for dependencies only: an error for other reports, and nothing else"""
    P.engine('format_dot.show', order=False)
    mm, mf, elf = P.arg(MEMMAP, 'memmap'), P.arg(R(cls='MapFile', fn=STR), 'map_file'), P.arg(Null(R(cls='Elf')), 'elf')
    args = P.arg(R(**{n: BOOL for n in SELECT if n != 'archive_details'}, archive_details=Null(STR)), 'args')
    world = P.give(Rec({'shown': (True, z3.IntVal(0))}, 'World'))
    want = val(P.st.heap[args.rid], 'archive_dependencies')

    def f(eng, st, a):
        st = st.copy()
        st.heap[world.rid] = upd(st.heap[world.rid], shown=val(st.heap[world.rid], 'shown') + 1)
        return st, None
    c = P.stub('format_dot', 'show_archives_dependencies', f)
    P.call('format_dot', 'show', mm, mf, elf, args)
    P.prove('other reports are not available', want)
    P.raises_only('an error only for other reports', b_not(want))
    P.prove('the report is shown', eqt(val(P.out.heap[world.rid], 'shown'), 1))
    by = {'memmap': mm, 'map_file': mf, 'elf': elf, 'args': args}
    P.add(f'{P.label}: show_archives_dependencies is called with the expected arguments',
          bool(c) and all(set(a) == set(by) and all(same_value(a[n], x) for n, x in by.items()) for _, a in c), repr([a for _, a in c])[:300])
    P.unchanged('the memory map', mm, order=False)
    P.unchanged('the options', args, order=False)


# ------------------------------------------------------------------ JSON
def raw(P):
    P.engine('format_raw.show', order=False)
    mm, mf, elf = P.arg(MEMMAP, 'memmap'), P.arg(R(cls='MapFile', fn=STR), 'map_file'), P.arg(Null(R(cls='Elf')), 'elf')
    args = P.arg(R(archive_dependencies=BOOL), 'args')
    deps = P.arg(SUMMARY, 'deps')
    pr = Printer(P)
    c = P.stub('deps', 'get_archives_dependencies', deps)
    P.call('format_raw', 'show', mm, mf, elf, args)
    dep = val(P.st.heap[args.rid], 'archive_dependencies')

    def check(st, v, i):
        alts = v.alts if isinstance(v, Choice) else [(True, v)]
        which = b_or(*[g for g, x in alts if same_value(x, mm)])
        P.prove(f'the memory map is printed ({i + 1})', b_implies(b_not(dep), which))
        P.prove(f'the dependencies are printed ({i + 1})', b_implies(dep, b_or(*[g for g, x in alts if same_value(x, deps)])))
        P.unchanged('the memory map', mm)
    pr.json('the map or the dependencies', check)
    P.same_args('get_archives_dependencies', c, mf, mm, elf, args)


def json_summaries(P):
    for what in ('files', 'archives', 'archive_details'):
        callee = GETTERS[what] + 'summary'
        mm, mf, elf, args = report(P, 'format_json', what, abbrev=BOOL)
        s1, s2, deps = P.arg(SUMMARY, 'summary'), P.arg(SUMMARY, 'sorted'), P.arg(SUMMARY, 'deps')
        pr = Printer(P)
        cs = {g: P.stub('memorymap', g, s1) for g in ('get_archives_summary', 'get_symbols_summary', 'get_object_files_summary')}
        c2 = P.stub('memorymap', 'get_summary_sorted', s2)
        other = {'get_archives_dependencies': P.stub('deps', 'get_archives_dependencies', deps), 'sort': P.stub('memorymap', 'sort', None)}
        P.call('format_json', 'show', mm, mf, elf, args)
        P.same_args(callee, cs[callee], mm, args)
        P.same_args('get_summary_sorted', c2, s1, args)
        not_called(P, dict({g: c for g, c in cs.items() if g != callee}, **other))

        def check(st, v, i):
            same(P, f'the sorted summary is printed ({i + 1})', v, s2)
            P.unchanged('the summary', s2)
        pr.json('the summary', check)
    mm, mf, elf, args = report(P, 'format_json', 'archive_dependencies', abbrev=BOOL)
    deps = P.arg(SUMMARY, 'deps')
    pr = Printer(P)
    c = P.stub('deps', 'get_archives_dependencies', deps)
    P.call('format_json', 'show', mm, mf, elf, args)
    P.same_args('get_archives_dependencies', c, mf, mm, elf, args)

    def check(st, v, i):
        same(P, f'the dependencies are printed ({i + 1})', v, deps)
        P.unchanged('the dependencies', deps)
    pr.json('the dependencies', check)


def json_summary(P):
    mm, mf, elf, args = report(P, 'format_json', None, abbrev=BOOL)
    pr = Printer(P)
    m, abbrev = P.st.heap[mm.rid], val(P.st.heap[args.rid], 'abbrev')
    c = P.stub('memorymap', 'sort', None)
    P.call('format_json', 'show', mm, mf, elf, args)
    P.same_args('sort', c, mm, args)
    types = val(m, 'memory_types')

    def parts(t):
        secs = val(t, 'sections')

        def named(k, q):
            return b_and(secs.dom(k), eqt(b_ite(abbrev, val(secs.elem(k), 'abbrev_name'), k), q))

        def size(q):
            k = fresh_var(Str, 'k')
            return Rec({'size': (True, mk_sums((k,), named(k, q), val(secs.elem(k), 'size')))})

        def dom(q):
            k = fresh_var(Str, 'k')
            return mk_existss((k,), named(k, q))
        return Map(Str, dom, size)

    def layout(ks):
        t = types.elem(ks[0])
        return Rec({'name': (True, ks[0]), 'total': (True, val(t, 'size')), 'used': (True, val(t, 'used')),
                    'free': (True, b_ite(eqt(val(t, 'size'), 0), 0, val(t, 'size') - val(t, 'used'))), 'parts': (True, parts(t))})

    def check(st, v, i):
        got = P.val(v, st)
        want = Rec({'version': (True, '1.2'), 'total_size': (True, val(m, 'image_size')), 'layout': (True, Seq([Seg((Str,), lambda ks: types.dom(ks[0]), layout)]))})
        P.equal(f'the summary ({i + 1})', got, want)
    pr.json('the summary', check)
    P.unchanged('the memory map', mm, order=False)


# ------------------------------------------------------------------ trees
COLOR = {n: z3.Function(n, INT, INT, z3.BoolSort(), Str) for n in ('color_diff', 'color_size')}
ESC = z3.Function('rich.markup.escape', Str, Str)


def stub_colors(P):
    for n in COLOR:
        def f(eng, st, a, n=n):
            ps = list(a.values())
            return st, COLOR[n](*[lift(x) for x in (ps + [False])[:3]])
        P.stub('format_table', n, f)


class Trees:
    """the abstract Rich tree: a label and children"""
    def __init__(self, P):
        P.eng.externals['rich.tree.Tree'] = self.new
        P.eng.externals['rich.markup.escape'] = lambda eng, st, fr, f, args, kw, n: (st, ESC(lift(args[0])))
        P.eng.handlers[('Tree', 'add')] = Handler(self.add, True)
        self.shown = []
        P.eng.on_print = self.print
        self.world = P.give(Rec({'prints': (True, z3.IntVal(0))}, 'World'))

    def node(self, eng, st, label):
        kids = eng.new(st, lambda rid: Seq([]))
        return eng.new(st, lambda rid: Rec({'label': (True, label), 'children': (True, eng.embed(st, kids, (rid, (('f', 'children'),))))}, 'Tree'))

    def new(self, eng, st, fr, f, args, kw, n):
        st = st.copy()
        return st, self.node(eng, st, lift(args[0]))

    def add(self, eng, st, args, kw):
        from library import method
        self_, label = args
        st = st.copy()
        x = self.node(eng, st, lift(label))
        r = eng.resolve(st, self_)
        kids = eng.read(st, Ref(r.rid, r.path + (('f', 'children'),)))
        st, _ = method(eng, st, None, kids, 'append', [x], {}, None)
        return st, x

    def print(self, eng, st, args, kw):
        self.shown.append((st, args, kw))
        st = st.copy()
        st.heap[self.world.rid] = upd(st.heap[self.world.rid], prints=val(st.heap[self.world.rid], 'prints') + 1)
        return st

    def check(self, P, name, want):
        out = P.out
        P.prove(f'{name} is printed once', eqt(val(out.heap[self.world.rid], 'prints'), 1))
        for i, (st, args, kw) in enumerate(self.shown):
            P.add(f'{P.label}: {name} is printed ({i + 1})', len(args) == 1 and not kw)
            P.out = st
            P.equal(f'{name} ({i + 1})', P.val(args[0], st), want)
        P.out = out


def tree(P):
    mm, mf, elf, args = report(P, 'format_tree', None, select=('archive_dependencies',), abbrev=BOOL, diff=BOOL)
    eng = P.eng
    tr = Trees(P)
    stub_colors(P)
    ct, cs = P.stub('memorymap', 'trim', None), P.stub('memorymap', 'sort', None)
    m, abbrev, diff = P.st.heap[mm.rid], val(P.st.heap[args.rid], 'abbrev'), val(P.st.heap[args.rid], 'diff')
    P.call('format_tree', 'show', mm, mf, elf, args)
    P.same_args('trim', ct, mm, args)
    P.same_args('sort', cs, mm, args)

    def node(label, kids):
        return Rec({'label': (True, label), 'children': (True, kids)}, 'Tree')

    def cd(n, x, what):
        return COLOR[n](val(x, what), val(x, what + '_diff'), diff)

    def level(mp, below):
        def elem(ks):
            x = mp.elem(ks[0])
            nm = b_ite(abbrev, val(x, 'abbrev_name'), ks[0]) if below else ks[0]
            kids = level(val(x, below[0]), below[1:]) if below else Seq([])
            return node(eng.concat([ESC(nm), ' ', cd('color_diff', x, 'size')]), kids)
        return Seq([Seg((Str,), lambda ks: mp.dom(ks[0]), elem)])

    def mtype(ks):
        t = val(m, 'memory_types').elem(ks[0])
        used, size = cd('color_diff', t, 'used'), cd('color_size', t, 'size')
        return node(b_ite(eqt(val(t, 'size'), 0), eng.concat([ks[0], ' ', used]), eng.concat([ks[0], ' ', used, ' / ', size])),
                    level(val(t, 'sections'), ('archives', 'object_files', 'symbols')))
    types = val(m, 'memory_types')
    tr.check(P, 'the tree', node(lift('Memory Types'), Seq([Seg((Str,), lambda ks: types.dom(ks[0]), mtype)])))
    P.unchanged('the memory map', mm, order=False)


def colors(P):
    """color_diff and color_size: the size, and for a diff the difference, with markup between"""
    for n in COLOR:
        P.engine(f'format_table.{n}', order=False)
        size, dif, flag = (z3.Const(x, s) for x, s in (('size', INT), ('size_diff', INT), ('diff', BOOL)))
        v = P.call('format_table', n, size, dif, flag)
        sizes, signed, zero = P.eng.concat([size]), P.eng.ufun("format/f'+6'", [dif], Str), P.eng.ufun("format/f'6'", [dif], Str)
        for g, t in leaves(v):
            shown = plain(t)
            one = [sizes]
            alts = [b_not(flag)] if shown == [sizes.get_id()] else [b_and(flag, b_not(eqt(dif, 0)))] if shown == [sizes.get_id(), signed.get_id()] \
                else [b_and(flag, eqt(dif, 0))] if shown in ([sizes.get_id(), signed.get_id()], [sizes.get_id(), zero.get_id()]) else [False]
            P.prove(f'shows the size, and the difference if it is a diff ({ast_name(t)})', b_or(*alts), [g])


def ast_name(t):
    return str(t)[:60].replace('\n', ' ')


def leaves(v, g=True):
    if isinstance(v, Choice):
        return [y for c, x in v.alts for y in leaves(x, b_and(g, c))]
    if is_z3(v) and z3.is_app_of(v, z3.Z3_OP_ITE):
        return leaves(v.arg(1), b_and(g, v.arg(0))) + leaves(v.arg(2), b_and(g, b_not(v.arg(0))))
    return [(g, v)]


def plain(t):
    """the computed parts of a text, without markup and blanks"""
    import re
    from engine import CATS
    if not is_z3(t):
        return [t]
    out = []
    for p in CATS[t.get_id()][1] if t.get_id() in CATS else (t,):
        if isinstance(p, str):
            p = re.sub(r'\[/?[a-z_]*\]', '', p).strip()
            if p:
                out.append(p)
        else:
            out.append(p.get_id())
    return out


# ------------------------------------------------------------------ tables
class Tables:
    """the abstract Rich table: headers and rows of cells"""
    def __init__(self, P):
        ex = P.eng.externals
        ex['rich.table.Table'] = self.new
        ex['rich.markup.escape'] = lambda eng, st, fr, f, args, kw, n: (st, ESC(lift(args[0])))
        ex['rich.text.Text.from_markup'] = lambda eng, st, fr, f, args, kw, n: (st, eng.ufun('plain text', [lift(args[0])], Str))
        P.eng.handlers[('Table', 'add_column')] = Handler(self.add_column, True)
        P.eng.handlers[('Table', 'add_row')] = Handler(self.add_row, True)

    def new(self, eng, st, fr, f, args, kw, n):
        st = st.copy()
        cols, rows = eng.new(st, lambda rid: Seq([])), eng.new(st, lambda rid: Seq([]))
        return st, eng.new(st, lambda rid: Rec({'columns': (True, eng.embed(st, cols, (rid, (('f', 'columns'),)))), 'rows': (True, eng.embed(st, rows, (rid, (('f', 'rows'),))))}, 'Table'))

    def put(self, eng, st, self_, field, x):
        from library import method
        r = eng.resolve(st, self_)
        st, _ = method(eng, st, None, eng.read(st, Ref(r.rid, r.path + (('f', field),))), 'append', [x], {}, None)
        return st, None

    def add_column(self, eng, st, args, kw):
        st = st.copy()
        head = args[1] if len(args) > 1 else kw.get('header', '')
        return self.put(eng, st, args[0], 'columns', eng.new(st, lambda rid: Rec({'header': (True, lift(head))}, 'Column')))

    def add_row(self, eng, st, args, kw):
        st = st.copy()
        cells = args[1:]
        if len(cells) == 1 and isinstance(cells[0], StarV):
            x = cells[0].v
        else:
            x = eng.new(st, lambda rid: Seq([Seg((), lambda ks: True, lambda ks, c=c: lift(c), lambda a, b: False) for c in cells]))
        return self.put(eng, st, args[0], 'rows', x)


def column(P, sort, heads):
    """the selected column of a table (0 is the name), and whether it exists: a number (negative: from the end) or a header"""
    n = len(heads) - 1
    num, isnum = P.eng.ufun('int', [sort], INT), P.eng.ufun('int?', [sort], z3.BoolSort())
    texts = [P.eng.ufun('plain text', [lift(h)], Str) for h in heads]
    byname = z3.IntVal(0)
    for i in reversed(range(1, n + 1)):
        byname = b_ite(b_and(eqt(texts[i], sort), b_not(eqt(texts[0], sort)) if i else True), z3.IntVal(i), byname)
    col = b_ite(isnum, b_ite(num > 0, num, num + n + 1), byname)
    return col, b_ite(isnum, b_and(b_not(eqt(num, 0)), num >= -n, num <= n), b_not(eqt(byname, 0)))


HEADS = ['Memory Type/Section', r'Used \[bytes]', r'Used \[%]', r'Remain \[bytes]', r'Total \[bytes]']


def share(eng, x, t, what):
    """share of the memory type in percent, now and in the reference"""
    def div(x, y):
        return eng.ufun('op/Div', [x, y], INT)
    size, size_d, use, use_d = val(t, 'size'), val(t, 'size_diff'), val(x, what), val(x, what + '_diff')
    return b_ite(eqt(size, 0), z3.IntVal(0), div(use, size) * 100), b_ite(eqt(size - size_d, 0), z3.IntVal(0), div(use - use_d, size - size_d) * 100)


def types_of(P, mm, ref, st):
    """the memory type a reference to its sections belongs to"""
    r = P.eng.resolve(st, ref)
    return Ref(r.rid, r.path[:-1])


def sorted_before(ks, a, b):
    return z3.Function(f'sorted{len(ks)}<', *[Str] * (len(ks) + 2), BOOL)(*ks, lift(a), lift(b))


def summary_table(P, sorting=False):
    P.engine('format_table.get_summary_table', order=sorting)
    eng = P.eng
    mm, args = P.arg(MEMMAP, 'memmap'), P.arg(R(abbrev=BOOL, diff=BOOL, sort=STR, sort_diff=BOOL, sort_reverse=BOOL), 'args')
    Tables(P)
    stub_colors(P)
    ct = P.stub('memorymap', 'trim', None)
    opt, m = P.st.heap[args.rid], P.st.heap[mm.rid]
    abbrev, diff = val(opt, 'abbrev'), val(opt, 'diff')
    def by_key(eng, st, a):
        """the contract of sort_dict_by_key: the same entries in another order"""
        ref = list(a.values())[0]
        if not sorting:
            return st, ref
        st = st.copy()
        got, r = P.val(ref, st), eng.resolve(st, ref)
        ks = [x[1] for x in r.path if x[0] == 'k']
        return st, eng.alloc(st, Map(Str, got.dom, got.elem, lambda a, b: sorted_before(ks, a, b)))
    cs = P.stub('memorymap', 'sort_dict_by_key', by_key)
    v = P.call('format_table', 'get_summary_table', mm, args)
    out = P.out
    got = P.val(v)
    heads = val(got, 'columns')
    P.add(f'{P.label}: the columns are fixed', all(not s.sorts for s in heads.segs))
    hs = [val(s.elem(()), 'header') for s in heads.segs]
    P.add(f'{P.label}: the headers name the values', len(hs) == 5 and all(eqt(x, y) is True for x, y in zip(hs, HEADS)), str(hs))
    col, ok = column(P, val(opt, 'sort'), HEADS)
    P.prove('the column exists', ok)
    P.raises_only('an error only for an unknown column', b_not(ok))
    if sorting:
        P.add(f'{P.label}: types and sections are sorted', len(cs) >= 2)
        for i, (st, a) in enumerate(cs):
            a = list(a.values())
            P.out = st
            key = lift('used')
            for j, k in enumerate(['used', 'pct', 'remain', 'total']):
                for d, suf in ((True, '_diff'), (False, '')):
                    g = b_and(eqt(col, j + 1), val(opt, 'sort_diff') if d else b_not(val(opt, 'sort_diff')))
                    P.prove(f'sorted by the value of column {j + 1}{suf} ({i + 1})', b_implies(g, eqt(a[1], k + suf)))
            P.prove(f'sorted in the requested direction ({i + 1})', eqt(a[2], val(opt, 'sort_reverse')))
            got = P.val(a[0], st)
            k = fresh_var(Str, 'entry')
            x = got.elem(k)
            P.prove(f'every entry has the value to sort by ({i + 1})', b_and(*[b_implies(got.dom(k), x.fields[n + d][0]) if n + d in x.fields else False
                                                                              for n in ('used', 'pct', 'remain', 'total') for d in ('', '_diff')]))
            if 'archives' in x.fields:
                t, what, shown = P.val(types_of(P, mm, a[0], st), st), 'size', ('used', 'pct')
            else:
                t, what, shown = x, 'used', ('used', 'pct', 'remain', 'total')
            now, ref = share(eng, x, t, what)
            want = {'used': (val(x, what), val(x, what + '_diff')), 'pct': (now, now - ref), 'total': (val(t, 'size'), val(t, 'size_diff')),
                    'remain': (val(t, 'size') - val(t, 'used'), val(t, 'size_diff') - val(t, 'used_diff'))}
            for n in shown:
                for d, w in zip(('', '_diff'), want[n]):
                    P.prove(f'{n}{d} is the shown value ({i + 1})', b_implies(b_and(got.dom(k), b_not(eqt(val(t, 'size'), 0))), eqt(val(x, n + d), w)))
        P.out = out
        grp = ((-1, 1, lambda a, b: sorted_before([], a[0], b[0])),)
        types = val(m, 'memory_types')

        def name(s, i):
            return Seg(s.sorts, s.dom, lambda ks: s.elem(ks).segs[0].elem(()), s.before, s.mixed)
        rows = val(P.val(v), 'rows')
        P.equal('the rows are in the sorted order, sections below their memory type', Seq([name(s, 0) for s in rows.segs]), Seq([
            Seg((Str,), lambda ks: types.dom(ks[0]), lambda ks: ks[0], lambda a, b: sorted_before([], a[0], b[0]), grp),
            Seg((Str, Str), lambda ks: b_and(types.dom(ks[0]), val(types.elem(ks[0]), 'sections').dom(ks[1])),
                lambda ks: eng.concat(['   ', ESC(b_ite(abbrev, val(val(types.elem(ks[0]), 'sections').elem(ks[1]), 'abbrev_name'), ks[1]))]),
                lambda a, b: b_or(sorted_before([], a[0], b[0]), b_and(eqt(a[0], b[0]), sorted_before([a[0]], a[1], b[1]))), grp)]), order=True)
        return
    P.same_args('trim', ct, mm, args)

    def cd(n, x, y):
        return COLOR[n](x, y, diff)

    def rnd(x):
        return eng.ufun('round', [x, 2], INT)

    def pct(x, t, what):
        """share of the memory type, now and its difference to the reference"""
        now, ref = share(eng, x, t, what)
        return cd('color_diff', rnd(now), rnd(now - ref))

    def cells(*xs):
        return Seq([Seg((), lambda ks: True, lambda ks, x=x: lift(x), lambda a, b: False) for x in xs])
    types = val(m, 'memory_types')

    def trow(ks):
        t = types.elem(ks[0])
        z = eqt(val(t, 'size'), 0)
        rest = cd('color_size', val(t, 'size') - val(t, 'used'), val(t, 'size_diff') - val(t, 'used_diff'))
        return cells(ks[0], cd('color_diff', val(t, 'used'), val(t, 'used_diff')), b_ite(z, lift(''), pct(t, t, 'used')), b_ite(z, lift(''), rest),
                     b_ite(z, lift(''), cd('color_size', val(t, 'size'), val(t, 'size_diff'))))

    def srow(ks):
        t = types.elem(ks[0])
        x = val(t, 'sections').elem(ks[1])
        z = eqt(val(t, 'size'), 0)
        return cells(eng.concat(['   ', ESC(b_ite(abbrev, val(x, 'abbrev_name'), ks[1]))]), cd('color_diff', val(x, 'size'), val(x, 'size_diff')),
                     b_ite(z, lift(''), pct(x, t, 'size')), '', '')
    want = Seq([Seg((Str,), lambda ks: types.dom(ks[0]), trow), Seg((Str, Str), lambda ks: b_and(types.dom(ks[0]), val(types.elem(ks[0]), 'sections').dom(ks[1])), srow)])
    P.equal('the rows', val(got, 'rows'), want)


def first_key(m):
    any_ = nonempty(m)

    def fact(ts):
        j = fresh_var(m.ksort, 'j')
        return b_implies(any_, b_and(m.dom(ts[0]), b_not(mk_existss((j,), b_and(m.dom(j), m.before(j, ts[0]))))))
    return witnesses((m.ksort,), fact, 'first')[0]


def detail_tables(P):
    for name, callee, title in (('get_object_files_table', 'get_object_files_summary', 'Object File'), ('get_archives_table', 'get_archives_summary', 'Archive File'),
                                ('get_symbols_table', 'get_symbols_summary', 'Symbol')):
        P.engine(f'format_table.{name}')
        mm, args = P.arg(MEMMAP, 'memmap'), P.arg(R(abbrev=BOOL, diff=BOOL, archive_details=STR), 'args')
        s1, s2, rows = P.arg(SUMMARY, 'summary'), P.arg(SUMMARY, 'filtered'), P.arg(L(L(STR)), 'rows')
        Tables(P)
        c1, c2 = P.stub('memorymap', callee, s1), P.stub('memorymap', 'get_summary_filtered', s2)
        c3 = P.stub('format_table', '_get_table_sorted', rows)
        v = P.call('format_table', name, mm, args)
        got = P.val(v)
        P.same_args(callee, c1, mm, args)
        P.same_args('get_summary_filtered', c2, s1, args)
        fields = P.st.heap[args.rid]
        m2 = P.st.heap[s2.rid]
        out = P.out
        P.add(f'{P.label}: the rows are sorted', bool(c3))
        for st, a in c3:
            P.out = st
            a = list(a.values())
            same(P, 'the filtered summary is shown', a[0], s2)
            same(P, 'the rows are made with the options', a[2], args)
            t = P.val(a[1], st)
            P.equal('the table has its columns when the column to sort by is looked up', val(t, 'columns'), val(got, 'columns'), order=True)
        P.out = out
        any_ = nonempty(m2)
        first = first_key(m2)
        types = val(m2.elem(first), 'memory_types')

        def head(x):
            return Rec({'header': (True, lift(x))}, 'Column')

        def unit(x):
            return Seg((), lambda ks: True, lambda ks: head(x), lambda a, b: False)
        grp = ((-1, 1, lambda a, b: types.before(a[0], b[0])),)

        def secs(ks):
            return val(types.elem(ks[0]), 'sections')
        cols = [unit(title), unit('Total Size'),
                Seg((Str,), lambda ks: b_and(any_, types.dom(ks[0])), lambda ks: head(ks[0]), lambda a, b: types.before(a[0], b[0]), grp),
                Seg((Str, Str), lambda ks: b_and(any_, types.dom(ks[0]), secs(ks).dom(ks[1])),
                    lambda ks: head(ESC(b_ite(val(fields, 'abbrev'), val(secs(ks).elem(ks[1]), 'abbrev_name'), ks[1]))),
                    lambda a, b: b_or(types.before(a[0], b[0]), b_and(eqt(a[0], b[0]), secs(a).before(a[1], b[1]))), grp)]
        P.equal('the columns', val(got, 'columns'), Seq(cols), order=True)
        P.equal('the rows', val(got, 'rows'), P.st.heap[rows.rid], order=True)


DEPS = M(R(abbrev_name=STR, size=INT, archives=M(R(abbrev_name=STR, size=INT, symbols=L(STR)))))


def joined(sep, seq):
    from engine import Family
    from library import listterm
    return listterm('join/' + sep, [Family(s.sorts, s.dom, s.elem, s.before) for s in seq.segs], Str)


def dependency_table(P):
    P.engine('format_table.get_archives_dependencies_table')
    eng = P.eng
    mm, mf, elf = P.arg(MEMMAP, 'memmap'), P.arg(R(cls='MapFile', fn=STR), 'map_file'), P.arg(Null(R(cls='Elf')), 'elf')
    args = P.arg(R(abbrev=BOOL, dep_reverse=BOOL, dep_symbols=BOOL), 'args')
    d1, d2 = P.arg(DEPS, 'deps'), P.arg(DEPS, 'filtered')
    Tables(P)
    c1, c2 = P.stub('deps', 'get_archives_dependencies', d1), P.stub('memorymap', 'get_summary_filtered', d2)
    v = P.call('format_table', 'get_archives_dependencies_table', mm, mf, elf, args)
    got = P.val(v)
    P.same_args('get_archives_dependencies', c1, mf, mm, elf, args)
    P.same_args('get_summary_filtered', c2, d1, args)
    opt, d = P.st.heap[args.rid], P.st.heap[d2.rid]

    def nm(x, k):
        return ESC(b_ite(val(opt, 'abbrev'), val(x, 'abbrev_name'), k))

    def row(ks):
        a, deps_ = d.elem(ks[0]), val(d.elem(ks[0]), 'archives')
        b = deps_.elem(ks[1])
        j = fresh_var(Str, 'j')
        isfirst = b_not(mk_existss((j,), b_and(deps_.dom(j), deps_.before(j, ks[1]))))
        cells = [(True, b_ite(isfirst, nm(a, ks[0]), lift(''))), (True, b_ite(isfirst, eng.concat([val(a, 'size')]), lift(''))),
                 (True, nm(b, ks[1])), (True, eng.concat([val(b, 'size')])), (val(opt, 'dep_symbols'), ESC(joined('\n', val(b, 'symbols'))))]
        return Seq([Seg((), lambda ks, c=c: c, lambda ks, x=x: lift(x), lambda a, b: False) for c, x in cells])
    want = Seq([Seg((Str, Str), lambda ks: b_and(d.dom(ks[0]), val(d.elem(ks[0]), 'archives').dom(ks[1])), row,
                    lambda a, b: b_or(d.before(a[0], b[0]), b_and(eqt(a[0], b[0]), val(d.elem(a[0]), 'archives').before(a[1], b[1]))))])
    P.equal('the rows', val(got, 'rows'), want, order=True)
    rev = val(opt, 'dep_reverse')
    heads = [(True, 'Archive'), (True, 'Archive Size'), (True, b_ite(rev, lift('Dependents'), lift('Dependencies'))),
             (True, b_ite(rev, lift('Dependents Sizes'), lift('Dependencies Sizes'))), (val(opt, 'dep_symbols'), 'Symbols')]
    cols = Seq([Seg((), lambda ks, c=c: c, lambda ks, x=x: Rec({'header': (True, lift(x))}, 'Column'), lambda a, b: False) for c, x in heads])
    P.equal('the headers name the values', val(got, 'columns'), cols, order=True)


def dependency_tree(P):
    mm, mf, elf, args = report(P, 'format_tree', 'archive_dependencies', order=True, select=('archive_dependencies',), abbrev=BOOL, dep_reverse=BOOL, dep_symbols=BOOL)
    eng = P.eng
    d1 = P.arg(DEPS, 'deps')
    tr = Trees(P)
    c1 = P.stub('deps', 'get_archives_dependencies', d1)
    P.call('format_tree', 'show', mm, mf, elf, args)
    P.same_args('get_archives_dependencies', c1, mf, mm, elf, args)
    opt, d = P.st.heap[args.rid], P.st.heap[d1.rid]

    def node(label, kids):
        return Rec({'label': (True, lift(label)), 'children': (True, kids)}, 'Tree')

    def lab(x, k):
        return eng.concat([ESC(b_ite(val(opt, 'abbrev'), val(x, 'abbrev_name'), k)), ' ', val(x, 'size')])

    def dep(ds):
        def f(ks):
            x = ds.elem(ks[0])
            s = val(x, 'symbols').segs[0]
            return node(lab(x, ks[0]), Seq([Seg(s.sorts, lambda js: b_and(val(opt, 'dep_symbols'), s.dom(js)), lambda js: node(ESC(s.elem(js)), Seq([])), s.before)]))
        return f

    def arch(ks):
        ds = val(d.elem(ks[0]), 'archives')
        return node(lab(d.elem(ks[0]), ks[0]), Seq([Seg((Str,), lambda ks: ds.dom(ks[0]), dep(ds), lambda a, b: ds.before(a[0], b[0]))]))
    title = b_ite(val(opt, 'dep_reverse'), lift('Archive reverse dependencies'), lift('Archive dependencies'))
    tr.check(P, 'the tree', node(title, Seq([Seg((Str,), lambda ks: d.dom(ks[0]), arch, lambda a, b: d.before(a[0], b[0]))])))


def wrappers(P):
    """the table of the requested report is printed, once"""
    for mod in ('format_table', 'format_csv'):
        for what in SELECT + (None,):
            mm, mf, elf, args = report(P, mod, what, abbrev=BOOL, diff=BOOL)
            table = P.arg(R(cls='Table'), 'table')
            pr = Printer(P)
            stub_colors(P)
            cs = {g: P.stub('format_table', g, table) for g in (x + 'table' for x in GETTERS.values())}
            if mod == 'format_csv':
                def f(eng, st, a):
                    return pr.print(eng, st, list(a.values()), {}), None
                P.stub('format_csv', 'show_table', f)
            P.call(mod, 'show', mm, mf, elf, args)
            getter = GETTERS[what] + 'table'
            P.same_args(getter, cs.pop(getter), *((mm, mf, elf, args) if what == 'archive_dependencies' else (mm, args)))
            not_called(P, cs)
            P.raises_only('no error', False)
            P.prove('one table is printed', eqt(val(P.out.heap[pr.world.rid], 'prints'), 1))
            P.unchanged('the memory map', mm, order=False)
            P.unchanged('the options', args, order=False)
            out = P.out
            for st, a, kw in pr.printed:
                P.out = st
                P.add(f'{P.label}: only the table is printed', len(a) == 1 and not kw, repr((a, kw)))
                same(P, 'the table is printed', a[0], table)
            P.out = out


def rows_sorted(P):
    """_get_table_sorted: one row per entry, its cells in the order of the columns, sorted by the selected column"""
    P.engine('format_table._get_table_sorted')
    eng = P.eng
    summ = P.arg(SUMMARY, 'summary')
    args = P.arg(R(abbrev=BOOL, diff=BOOL, sort=STR, sort_diff=BOOL, sort_reverse=BOOL), 'args')
    table = P.arg(R(cls='Table', columns=L(R(cls='Column', header=STR)), rows=L(L(STR))), 'table')
    Tables(P)
    stub_colors(P)
    opt, m = P.st.heap[args.rid], P.st.heap[summ.rid]
    v = P.call('format_table', '_get_table_sorted', summ, table, args)
    got = P.val(v)
    diff, abbrev, sort = val(opt, 'diff'), val(opt, 'abbrev'), val(opt, 'sort')

    def cell(x):
        return Rec({'info': (True, COLOR['color_diff'](val(x, 'size'), val(x, 'size_diff'), diff)), 'size': (True, val(x, 'size')), 'size_diff': (True, val(x, 'size_diff'))})

    def columns(e):
        """the cells of an entry: the total, then every memory type followed by its sections"""
        types = val(e, 'memory_types')

        def secs(t):
            return val(types.elem(t), 'sections')
        grp = ((-1, 1, lambda a, b: types.before(a[0], b[0])),)
        return [Seg((), lambda ks: True, lambda ks: cell(e), lambda a, b: False),
                Seg((Str,), lambda ks: types.dom(ks[0]), lambda ks: cell(types.elem(ks[0])), lambda a, b: types.before(a[0], b[0]), grp),
                Seg((Str, Str), lambda ks: b_and(types.dom(ks[0]), secs(ks[0]).dom(ks[1])), lambda ks: cell(secs(ks[0]).elem(ks[1])),
                    lambda a, b: b_or(types.before(a[0], b[0]), b_and(eqt(a[0], b[0]), secs(a[0]).before(a[1], b[1]))), grp)]
    # the selected column: a number (negative: from the end) or the first header with this text
    heads = val(P.st.heap[table.rid], 'columns').segs[0]

    def named(k):
        return eqt(eng.ufun('plain text', [val(heads.elem(k), 'header')], Str), sort)
    k1 = (fresh_var(Idx, 'k'),)
    found = mk_existss(k1, b_and(heads.dom(k1), named(k1)))

    def fact(ts):
        j = (fresh_var(Idx, 'j'),)
        return b_implies(found, b_and(heads.dom(ts), named(ts), b_not(mk_existss(j, b_and(heads.dom(j), heads.before(j, ts), named(j))))))
    w = witnesses((Idx,), fact, 'column')
    j = (fresh_var(Idx, 'j'),)
    number, isnum = eng.ufun('int', [sort], INT), eng.ufun('int?', [sort], z3.BoolSort())
    col = b_ite(isnum, number, mk_sums(j, b_and(heads.dom(j), heads.before(j, w)), z3.IntVal(1)))
    index = b_ite(col > 0, col - 1, col)

    def key(k):
        segs = columns(m.elem(k))
        p = b_ite(index >= 0, index, length(segs) + index)
        return b_ite(val(opt, 'sort_diff'), at_position(segs, p, lambda x: val(x, 'size_diff')), at_position(segs, p, lambda x: val(x, 'size')))

    def outside(k):
        n = length(columns(m.elem(k)))
        return b_not(b_and(index >= -n, index < n))

    def before(a, b):
        a, b = a[0], b[0]
        return b_or(b_ite(val(opt, 'sort_reverse'), key(a) > key(b), key(a) < key(b)), b_and(eqt(key(a), key(b)), m.before(a, b)))

    def row(ks):
        e = m.elem(ks[0])
        name = Seg((), lambda ks2: True, lambda ks2: ESC(b_ite(abbrev, val(e, 'abbrev_name'), ks[0])), lambda a, b: False)
        return Seq([name] + [Seg(s.sorts, s.dom, lambda ks2, s=s: val(s.elem(ks2), 'info'), s.before, s.mixed) for s in columns(e)])
    P.prove('the column exists', b_and(b_or(isnum, found), b_not(eqt(col, 0))))
    k2 = fresh_var(Str, 'k')
    P.raises_only('an error only for an unknown column', b_or(b_not(b_or(isnum, found)), eqt(col, 0), mk_existss((k2,), b_and(m.dom(k2), outside(k2)))))
    P.equal('the rows', got, Seq([Seg((Str,), lambda ks: m.dom(ks[0]), row, before)]), order=True)
    P.unchanged('the summary', summ)
    P.unchanged('the table', table)


PARTS = cmn.parts(dot, raw, json_summaries, json_summary, tree, colors, summary_table, detail_tables, dependency_table, dependency_tree, wrappers, rows_sorted)
