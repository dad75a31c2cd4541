"""A memory map is built from the files that belong to the link map, from the objects passed by the caller, and by applying the
steps under the other contracts to each other's results."""
import ast

import z3

from engine import Exit, Handler
from logic import Idx, Obj, Str, b_and, b_implies, b_ite, b_not, b_or, eqt, fresh_var, is_z3, lift
from spec import BOOL, INT, L, M, Null, Opt, R, STR, mk
from values import Choice, Map, Rec, Ref, Seg, Seq, Tup
import cmn
from cmn import upd, val

ASSUMPTIONS = ['a project description is a JSON object; it has the keys target and app_elf if it names the executable of the map',
               'MapFile() raises MapFileException only, Elf() raises OSError, ValueError or Elf_Exception only',
               'the chip description files of the package are mappings with primary_address and length']
E = ('Exception', 'BaseException')
OSERR, VALERR, FATAL = ('OSError',) + E, ('ValueError',) + E, ('FatalError',) + E
MAPERR, ELFERR, MEMERR = ('MapFileException',) + FATAL, ('Elf_Exception',) + FATAL, ('MemMapException',) + FATAL
MAP = R(cls='MapFile', target=STR, memory_regions=Obj, sections=Obj)
PROJ = R(target=STR, app_elf=STR)
ELF = R(cls='Elf')


def fail(eng, st, *classes):
    """exits with the exceptions; the state in which none was raised, and whether it was"""
    k = fresh_var(INT, 'raised')
    for i, c in enumerate(classes):
        eng.raised.append(Exit('raise', st.assume(k == i + 1), 'callee', None, c))
    return st.assume(k == 0)


def enc(st, v):
    """a value as an abstract object; objects are compared by identity"""
    if isinstance(v, Choice):
        out = None
        for g, x in reversed(v.alts):
            x = enc(st, x)
            out = x if out is None else b_ite(g, x, out)
        return out
    if v is None:
        return z3.Const('None', Obj)
    if isinstance(v, Ref):
        return z3.Const(f'object {v.rid}{v.path}', Obj)
    v = lift(v)
    return v if v.sort() == Obj else z3.Function(f'as object/{v.sort()}', v.sort(), Obj)(v)


def same(P, name, st, got, want, hyps=()):
    P.out = st
    P.prove(name, eqt(enc(st, got), enc(st, want)), hyps)


def join(eng, *xs):
    return eng.ufun('os.path.join', [lift(x) for x in xs], STR)


def get(P):
    eng = P.engine('get', order=False)
    fn, symbols = z3.Const('input_fn', Str), z3.Const('load_symbols', BOOL)
    dwarf = mk(Null(BOOL), 'use_dwarf')
    mf, elf = P.arg(Null(MAP), 'map_file'), P.arg(Null(ELF), 'elf')
    nomap, noelf = mf.alts[0][0], elf.alts[0][0]
    # what the callees return
    proj, found = P.arg(Null(PROJ), 'proj_desc'), P.arg(Null(ELF), 'found_elf')
    config = P.arg(Null(R(COMPILER_LTO_LINKTIME=Opt(BOOL))), 'sdkconfig')
    made = P.arg(MAP, 'new_map')
    OSEC = R(name=STR, size=INT, input_sections=L(R(name=STR, size=INT, symbols=Opt(L(STR)))))
    filtered = P.arg(L(OSEC), 'filtered')
    types, regions, split, sections, hdrs, image, result = (z3.Const(n, INT if n == 'image_size' else Obj) for n in
                                                            ('memory_types', 'regions', 'split_regions', 'split_sections', 'headers', 'image_size', 'type_map'))
    world = P.give(Rec({'symbols': (True, z3.Const('no symbols', Obj)), 'archives': (True, z3.BoolVal(False)), 'warned': (True, z3.BoolVal(False))}, 'World'))
    sec0 = {r.rid: val(P.st.heap[r.rid], 'sections') for r in (made, mf.alts[1][1])}
    EXPAND = z3.Function('expanded', Obj, Obj, Obj, Obj)
    new_maps, validated, unreadable = [], [], []

    def setw(st, **kw):
        st = st.copy()
        st.heap[world.rid] = upd(st.heap[world.rid], **kw)
        return st

    def mapfile(eng, st, fr, f, args, kwargs, n):
        new_maps.append((st, args[0]))
        s = fail(eng, st, MAPERR)
        unreadable.append(b_not(s.pc[-1]))
        return s, made

    def validate(eng, st, args, kwargs):
        validated.append((st, args[0]))
        k = fresh_var(BOOL, 'invalid')
        eng.raised.append(Exit('raise', st.assume(k), 'callee', None, MAPERR))
        return st.assume(z3.Not(k)), None

    def expand(eng, st, a):
        vs = a['map_file']
        for g, r in (vs.alts if isinstance(vs, Choice) else [(True, vs)]):
            if r is None:
                eng.oblige(st, b_not(g), 'the map file is there')
                continue
            st = st.copy()
            x = st.heap[r.rid]
            old = val(x, 'sections')
            st.heap[r.rid] = upd(x, sections=b_ite(g, EXPAND(old, enc(st, a['proj_desc']), enc(st, a['elf'])), old))
        return st, None

    def add_symbols(eng, st, a):
        return setw(st, symbols=enc(st, a['elf'])), None

    def add_archives(eng, st, a):
        return setw(st, archives=z3.BoolVal(True)), None
    eng.externals['.mapfile.MapFile'] = mapfile
    eng.handlers[('MapFile', 'validate')] = Handler(validate, True)
    eng.on_log = lambda eng, st, what: setw(st, warned=z3.BoolVal(True)) if what == 'warn' else st
    c = {}
    for n, r in [('get_proj_desc', proj), ('_load_json_file', config), ('get_elf', found), ('_expand_input_sections', expand),
                 ('_get_memory_types', lambda eng, st, a: (fail(eng, st, MEMERR), types)), ('_get_elf_sections_headers', hdrs), ('_filter_memory_regions', regions),
                 ('_split_memory_regions', split), ('_filter_map_sections', filtered), ('_get_image_size', image), ('_add_symbols_to_sections', add_symbols),
                 ('_split_map_sections', sections), ('_add_archives_to_sections', add_archives), ('_get_mem_type_map', result)]:
        c[n] = P.stub('memorymap', n, r)
    r = P.call('memorymap', 'get', fn, symbols, dwarf, mf, elf)
    out = P.out
    path = eng.ufun('os.path.abspath', [fn], STR)
    noproj, pd = proj.alts[0][0], P.st.heap[proj.alts[1][1].rid]
    the_map = b_ite(nomap, enc(out, made), enc(out, mf.alts[1][1]))
    the_elf = b_ite(noelf, enc(out, found), enc(out, elf.alts[1][1]))
    map_target = b_ite(nomap, val(P.st.heap[made.rid], 'target'), val(P.st.heap[mf.alts[1][1].rid], 'target'))
    target = b_ite(b_and(b_not(noproj), b_not(eqt(val(pd, 'target'), ''))), val(pd, 'target'), map_target)
    noconf, conf = config.alts[0][0], P.st.heap[config.alts[1][1].rid]
    lc, lv = conf.fields['COMPILER_LTO_LINKTIME']
    dw = b_ite(dwarf.alts[0][0], b_and(b_not(noconf), lc, lv), dwarf.alts[1][1])
    s0 = b_ite(nomap, sec0[made.rid], sec0[mf.alts[1][1].rid])
    secs = b_ite(dw, EXPAND(s0, enc(out, proj), the_elf), s0)
    regs = b_ite(nomap, val(P.st.heap[made.rid], 'memory_regions'), val(P.st.heap[mf.alts[1][1].rid], 'memory_regions'))
    want = Rec({'version': (True, eng.const(eng.mod('memorymap'), 'VERSION')), 'target': (True, target), 'target_diff': (True, ''), 'image_size': (True, image),
                'image_size_diff': (True, 0), 'project_path': (True, path), 'project_path_diff': (True, ''), 'memory_types': (True, result)})
    P.equal('the memory map', P.val(r), want)
    P.prove('a target is known', b_not(eqt(target, '')))
    P.prove('archives are added', val(out.heap[world.rid], 'archives'))

    def once(n):
        P.add(f'get: {n} is called', bool(c[n]), f'{len(c[n])} calls')
        return c[n]

    def check(n, **want):
        for i, (st, a) in enumerate(once(n)):
            for p, w in want.items():
                same(P, f'{n} gets the right {p} ({i + 1})', st, a.get(p), w)
    check('get_proj_desc', map_fn=path)
    check('_load_json_file', fn=join(eng, eng.ufun('os.path.dirname', [path], STR), 'config', 'sdkconfig.json'))
    check('get_elf', map_fn=path)
    for i, (st, a) in enumerate(c['get_elf']):
        if a.get('proj_desc') is not None:
            same(P, f'get_elf gets the right proj_desc ({i + 1})', st, a['proj_desc'], proj)
    check('_expand_input_sections', map_file=the_map, proj_desc=proj, elf=the_elf)
    check('_get_memory_types', target=target)
    check('_get_elf_sections_headers', elf=the_elf)
    check('_filter_memory_regions', memory_regions=regs)
    check('_split_memory_regions', memory_regions=regions, memory_types=types)
    check('_filter_map_sections', sections=secs, elf_sections=hdrs)
    check('_get_image_size', elf_sections=hdrs, sections=filtered)
    check('_add_symbols_to_sections', elf=the_elf, osections=filtered)
    check('_split_map_sections', sections=filtered, regions=split)
    check('_add_archives_to_sections', sections=sections)
    check('_get_mem_type_map', memory_types=types)
    for i, (st, a) in enumerate(c['_get_mem_type_map']):
        vs = list(a.values())
        same(P, f'_get_mem_type_map gets the right regions ({i + 1})', st, vs[1], split)
        same(P, f'_get_mem_type_map gets the right sections ({i + 1})', st, vs[2], sections)
        P.prove(f'the sections have archives ({i + 1})', val(st.heap[world.rid], 'archives'))
    # symbols are there when the sections are split
    for i, (st, a) in enumerate(c['_split_map_sections']):
        P.out = st
        w = val(st.heap[world.rid], 'symbols')
        P.prove(f'symbols were added from the ELF file ({i + 1})', eqt(w, the_elf), (symbols,))
        before = P.st.heap[filtered.rid]
        after = st.heap[filtered.rid]

        def bare(s):
            g = val(s, 'input_sections').segs[0]
            return upd(s, input_sections=Seq([Seg(g.sorts, g.dom, lambda ks: upd(g.elem(ks), symbols=Seq()), g.before)]))
        seg = before.segs[0]
        P.equal(f'without symbols their lists are empty ({i + 1})', after, Seq([Seg(seg.sorts, seg.dom, lambda ks: bare(seg.elem(ks)), seg.before)]), hyps=(z3.Not(symbols),))
        P.equal(f'the sections are not changed otherwise ({i + 1})', after, before, hyps=(symbols,))
    for i, (st, v) in enumerate(new_maps):
        P.out = st
        P.prove(f'a map file is parsed only if none was passed ({i + 1})', nomap)
        P.prove(f'the given map file is parsed ({i + 1})', b_or(eqt(v, path), eqt(v, fn)))
    P.add('get: the map file is validated', len(validated) >= 1)
    for i, (st, v) in enumerate(validated):
        same(P, f'the used map file is validated ({i + 1})', st, v, the_map)
    P.out = out
    for i, x in enumerate(P.raises):
        P.add(f'get: problems are reported as MemMapException ({i + 1})', x.exc[0] == 'MemMapException', x.exc[0])
        if x.value != 'callee':
            P.out = x.state
            P.prove(f'an error only if the map file cannot be read or the target is not known ({i + 1})', b_or(eqt(target, ''), b_and(nomap, b_or(*unreadable))))
    P.out = out
    # what is not passed
    node = P.fn('memorymap', 'get').node
    ps = [a.arg for a in node.args.args]
    try:
        ds = dict(zip(ps[len(ps) - len(node.args.defaults):], map(ast.literal_eval, node.args.defaults)))
    except ValueError:
        ds = {}
    P.add('get: symbols are loaded unless the caller says otherwise, and nothing is passed by default', ds == {'load_symbols': True, 'use_dwarf': None, 'map_file': None, 'elf': None}, str(ds))
    P.add('get: exceptions are possible', len(P.raises) >= 3, f'{len(P.raises)}')


def get_proj_desc(P):
    eng = P.engine('get_proj_desc', order=False)
    fn = z3.Const('map_fn', Str)
    data = P.arg(Null(R(target=Opt(STR), app_elf=Opt(STR))), 'data')
    calls = P.stub('memorymap', '_load_json_file', data)
    r = P.call('memorymap', 'get_proj_desc', fn)
    none, d = data.alts[0][0], P.st.heap[data.alts[1][1].rid]
    c, v = d.fields['app_elf']

    def stem(x):
        return eng.ufun('os.path.splitext/0', [eng.ufun('os.path.basename', [lift(x)], STR)], STR)
    belongs = b_and(b_not(none), eqt(stem(fn), b_ite(c, stem(v), stem(''))))
    P.prove('the description is used exactly if it names the executable of the map', eqt(enc(P.out, r), b_ite(belongs, enc(P.out, data.alts[1][1]), enc(P.out, None))))
    out = P.out
    for i, (st, a) in enumerate(calls):
        same(P, f'the description next to the map is read ({i + 1})', st, a['fn'], join(eng, eng.ufun('os.path.dirname', [fn], STR), 'project_description.json'))
    P.out = out
    P.unchanged('the description', data.alts[1][1], order=False)
    P.add('get_proj_desc: no exception', not P.raises)


def get_elf(P):
    eng = P.engine('get_elf', order=False)
    fn = z3.Const('map_fn', Str)
    given, own, elf = P.arg(Null(PROJ), 'given'), P.arg(Null(PROJ), 'own'), P.arg(Null(ELF), 'elf')
    cp, cl = P.stub('memorymap', 'get_proj_desc', own), P.stub('memorymap', '_load_elf_file', elf)
    r = P.call('memorymap', 'get_elf', fn, given)
    out = P.out
    g0, o0 = given.alts[0][0], own.alts[0][0]
    app = b_ite(g0, val(P.st.heap[own.alts[1][1].rid], 'app_elf'), val(P.st.heap[given.alts[1][1].rid], 'app_elf'))
    path = join(eng, eng.ufun('os.path.dirname', [fn], STR), app)
    there = b_and(b_not(b_and(g0, o0)), eng.ufun('os.path.isfile', [path], BOOL))
    P.prove('the ELF file of the description, if it exists', eqt(enc(out, r), b_ite(there, enc(out, elf), enc(out, None))))
    for i, (st, a) in enumerate(cp):
        same(P, f'the description of the map ({i + 1})', st, a['map_fn'], fn)
    for i, (st, a) in enumerate(cl):
        same(P, f'the file next to the map ({i + 1})', st, a['fn'], path)
    P.add('get_elf: the file is read', bool(cl))
    P.add('get_elf: no exception', not P.raises)


def load_json_file(P):
    eng = P.engine('_load_json_file', order=False)
    fn = z3.Const('fn', Str)
    FILE, DATA = z3.Function('file', Str, Obj), z3.Function('json', Obj, Obj)
    ks = []

    def open_(eng, st, fr, f, args, kwargs, n):
        s = fail(eng, st, OSERR)
        ks.append(s.pc[-1])
        return s, FILE(lift(args[0]))

    def load(eng, st, fr, f, args, kwargs, n):
        s = fail(eng, st, OSERR, VALERR)
        ks.append(s.pc[-1])
        return s, DATA(args[0])
    eng.externals['open'], eng.externals['json.load'] = open_, load
    r = P.call('memorymap', '_load_json_file', fn)
    P.prove('the content of the file, or None if it cannot be read', eqt(enc(P.out, r), b_ite(b_and(*ks), DATA(FILE(fn)), enc(P.out, None))))
    P.add('_load_json_file: the file is read', len(ks) == 2)
    P.add('_load_json_file: a missing or malformed file is no error', not P.raises, str([x.exc[0] for x in P.raises]))


def load_elf_file(P):
    eng = P.engine('_load_elf_file', order=False)
    fn = z3.Const('fn', Str)
    made, ks = P.arg(ELF, 'made'), []

    def elf(eng, st, fr, f, args, kwargs, n):
        s = fail(eng, st, OSERR, VALERR, ELFERR)
        ks.append((s.pc[-1], st, args[0]))
        return s, made
    eng.externals['.elf.Elf'] = elf
    r = P.call('memorymap', '_load_elf_file', fn)
    P.add('_load_elf_file: the file is read', len(ks) == 1)
    P.prove('the ELF object, or None if it cannot be read', eqt(enc(P.out, r), b_ite(ks[0][0], enc(P.out, made), enc(P.out, None))))
    P.add('_load_elf_file: a missing or malformed file is no error', not P.raises, str([x.exc[0] for x in P.raises]))
    same(P, 'the given file is read', ks[0][1], ks[0][2], fn)


def get_memory_types(P):
    """addresses and lengths are evaluated, names and secondary addresses get defaults"""
    eng = P.engine('_get_memory_types', order=False)
    target = z3.Const('target', Str)
    # the scalars of the file: numbers, or texts represented by numbers
    INFO = R(primary_address=INT, length=INT, secondary_address=Opt(INT), name=Opt(STR))
    data = P.arg(M(INFO), 'chip')
    FILE, NUM, TXT = z3.Function('file', Str, Obj), z3.Function('eval', Str, INT), z3.Function("str", INT, Str)
    ks, opened = [], []

    def evaluated(t):
        """the text of a number stands for the number"""
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return b_ite(t.arg(0), evaluated(t.arg(1)), evaluated(t.arg(2)))
        if t.decl().eq(TXT):
            x = t.arg(0)
            if z3.is_int_value(x):
                return x
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                return b_ite(x.arg(0), evaluated(TXT(x.arg(1))), evaluated(TXT(x.arg(2))))
        return NUM(t)

    def open_(eng, st, fr, f, args, kwargs, n):
        s = fail(eng, st, OSERR)
        ks.append(s.pc[-1])
        opened.append((st, args[0]))
        return s, FILE(lift(args[0]))

    def load(eng, st, fr, f, args, kwargs, n):
        opened.append((st, args[0]))
        return fail(eng, st, OSERR, VALERR, ('YAMLError',) + E), data
    eng.externals.update({'open': open_, 'yaml.safe_load': load, 'eval': lambda eng, st, fr, f, args, kwargs, n: (st, evaluated(lift(args[0]))),
                          'str': lambda eng, st, fr, f, args, kwargs, n: (st, TXT(lift(args[0])))})
    eng.globals['__file__'] = z3.Const('__file__', Str)
    before = P.st.heap[data.rid]
    r = P.call('memorymap', '_get_memory_types', target)
    out = P.out
    path = join(eng, eng.ufun('os.path.dirname', [eng.globals['__file__']], STR), 'chip_info', eng.concat([target, '.yaml']))
    P.add('_get_memory_types: the chip description is read', len(opened) == 2)
    for (st, v), w in zip(opened, (path, FILE(path))):
        same(P, 'the description of the target', st, v, w)
    P.out = out

    def num(x):
        return NUM(TXT(x))

    def info(k, x):
        c, s = x.fields['secondary_address']
        d, nm = x.fields['name']
        return Rec({'primary_address': (True, num(val(x, 'primary_address'))), 'length': (True, num(val(x, 'length'))),
                    'secondary_address': (True, b_ite(c, num(s), 0)), 'name': (True, b_ite(d, nm, k))})
    P.equal('the memory types of the chip', P.val(r), cmn.mapped(before, info))
    for i, x in enumerate(P.raises):
        P.add(f'_get_memory_types: problems are reported as MemMapException ({i + 1})', x.exc[0] == 'MemMapException', x.exc[0])
    P.add('_get_memory_types: exceptions are possible', len(P.raises) >= 2)


PARTS = cmn.parts(get_memory_types, get, get_proj_desc, get_elf, load_json_file, load_elf_file)
