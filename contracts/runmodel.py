"""main._run against the contracts of its callees.

A memory map is an abstract value: loaded from files, compared, unified, with unused items removed, with flash sizes
ignored. The two removals are idempotent and commute (C07: one depends on the used sizes only, the other changes the
sizes only), hence they are flags of the abstract value. The world is a ghost object: what was shown on the console,
what was written into the output file. Every callee may raise any exception; the report is then incomplete."""
import ast

import z3

from engine import Exit, Handler
from logic import Obj, Str, b_and, b_ite, b_not, b_or, eqt, fresh_var, is_z3, lift
from spec import BOOL, INT, Null, R, STR, mk
from values import Choice, Rec, Ref

MM = z3.DeclareSort('MemMap')
Text = z3.DeclareSort('Text')
File = z3.DeclareSort('File')
LOAD = z3.Function('load', Str, BOOL, INT, Obj, Obj, MM)
FLAGS = z3.Function('flags', MM, BOOL, BOOL, MM)         # the map with: unused items removed, flash sizes ignored
DIFF = z3.Function('diff', MM, MM, MM)
UNIFY = z3.Function('unify', MM, MM)
TARGET = z3.Function('target', MM, Str)
TARGET_DIFF = z3.Function('target_diff', MM, Str)
MAPF = z3.Function('map_file', Str, Obj)
ELF = z3.Function('elf', Str, Obj)
NOELF = z3.Function('elf=None', Str, BOOL)
NONE = z3.Const('None', Obj)
OFI, OFB, OFS = z3.Function('obj/int', INT, Obj), z3.Function('obj/bool', BOOL, Obj), z3.Function('obj/str', Str, Obj)
EMPTY, NOFILE = z3.Const('empty', Text), z3.Const('the file as before', File)
MORE = z3.Function('print', Text, Text)
WROTE = z3.Function('written', Str, Text, File)
FORMATS = ('format_table', 'format_json', 'format_raw', 'format_csv', 'format_tree', 'format_dot')

# options with the values _run looks at
KINDS = {'input_file': STR, 'format': STR, 'archive_details': Null(STR), 'diff': Null(STR), 'output_file': Null(STR), 'use_dwarf': Null(BOOL),
         'force_terminal': Null(BOOL)}
FLAG_OPTIONS = ('archives', 'archive_dependencies', 'dep_symbols', 'dep_reverse', 'files', 'no_abbrev', 'unify', 'show_unused', 'show_unchanged',
                'use_flash_size', 'debug', 'sort_diff', 'sort_reverse', 'quiet', 'no_color')


def options(mod):
    """names and kinds of the options, from the decorators of main"""
    kinds = dict(KINDS, **{n: BOOL for n in FLAG_OPTIONS})
    node = mod.funcs.get('main')
    for d in node.decorator_list if node is not None else []:
        if not isinstance(d, ast.Call) or ast.unparse(d.func) not in ('click.option', 'click.argument'):
            continue
        kw = {k.arg: k.value for k in d.keywords}
        if ast.unparse(kw.get('expose_value', ast.Constant(True))) == 'False':
            continue
        names = [a.value for a in d.args if isinstance(a, ast.Constant)]
        plain = [n for n in names if n.isidentifier()]
        longs = [n for n in names if n.startswith('--')]
        name = plain[0] if plain else longs[0].split('/')[0][2:].replace('-', '_')
        kinds.setdefault(name, BOOL if 'is_flag' in kw else Obj)
    return kinds


def enc(v):
    """a leaf as an abstract object"""
    if isinstance(v, Choice):
        out = None
        for g, x in reversed(v.alts):
            x = enc(x)
            out = x if out is None else b_ite(g, x, out)
        return out
    if v is None:
        return NONE
    v = lift(v)
    return v if v.sort() == Obj else {INT: OFI, BOOL: OFB, STR: OFS}[v.sort()](v)


def text(eng, st, v, what):
    """a leaf that is not None"""
    if not isinstance(v, Choice):
        return lift(v)
    eng.oblige(st, b_not(b_or(*[g for g, x in v.alts if x is None])), f'{what} is not None')
    out = None
    for g, x in reversed(v.alts):
        if x is not None:
            out = lift(x) if out is None else b_ite(g, lift(x), out)
    return out


def tri(eng, st, v):
    """None, false or true"""
    if isinstance(v, Choice):
        out = None
        for g, x in reversed(v.alts):
            x = tri(eng, st, x)
            out = x if out is None else b_ite(g, x, out)
        return out
    return z3.IntVal(0) if v is None else b_ite(eng.truth(st, v), z3.IntVal(2), z3.IntVal(1))


class Model:
    def __init__(self, P, label):
        self.P = P
        eng = self.eng = P.engine(label, order=False)
        mod = eng.mod('main')
        kinds = options(mod)
        self.names = sorted(kinds)
        self.args = P.arg(R(**{n: kinds[n] for n in self.names}), 'args')
        self.arg0 = {n: P.st.heap[self.args.rid].fields[n][1] for n in self.names}
        self.world = P.give(Rec({'shown': (True, EMPTY), 'file': (True, NOFILE), 'warnings': (True, z3.IntVal(0)), 'writes': (True, z3.IntVal(0)),
                                 'tobuf': (True, z3.BoolVal(False)), 'silent': (True, z3.BoolVal(False))}, 'World'))
        self.buffers, self.ks = [], []
        fmts = self.formats(mod)
        P.assume(b_or(*[eqt(self.arg0['format'], x) for x in fmts]))
        self.classes = self.exceptions(mod)
        eng.on_log = self.on_log
        ex = eng.externals
        ex['esp_pylib.logger.log.set_verbosity'] = self.verbosity
        ex['esp_pylib.logger.log.set_console_options'] = self.console
        ex['.main._OutputBuffer'] = self.buffer
        ex['.mapfile.MapFile'] = self.mapfile
        eng.handlers[('_OutputBuffer', 'getvalue')] = Handler(self.getvalue, True)
        self.calls = {}
        for m, n, f in [('memorymap', 'get_elf', self.get_elf), ('memorymap', 'get', self.get), ('memorymap', 'remove_unused', self.flag(1)),
                        ('memorymap', 'ignore_flash_size', self.flag(2)), ('memorymap', 'diff', self.diff), ('memorymap', 'unify', self.unify),
                        ('main', '_write_output_file', self.write)]:
            self.calls[n] = P.stub(m, n, f)
        self.args_at_show = []
        for m in FORMATS:
            self.calls[m] = P.stub(m, 'show', self.show(m))

    def formats(self, mod):
        """the names the command line accepts"""
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call) and ast.unparse(n.func) == 'click.option' and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value == '--format':
                for k in n.keywords:
                    if k.arg == 'type' and isinstance(k.value, ast.Call) and ast.unparse(k.value.func) == 'click.Choice':
                        return ast.literal_eval(k.value.args[0])
        return ['table', 'text', 'tree', 'csv', 'json2', 'raw', 'dot']

    def exceptions(self, mod):
        """one class for each way the handlers can tell exceptions apart"""
        from logic import Unsupported
        out = {('MemMapException', 'Exception', 'BaseException'), ('MapFileException', 'Exception', 'BaseException'), ('SystemExit', 'BaseException'),
               ('KeyboardInterrupt', 'BaseException'), ('%other', 'Exception', 'BaseException'), ('%base', 'BaseException'), ('OSError', 'Exception', 'BaseException')}
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.ExceptHandler) and n.type is not None:
                for t in n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]:
                    try:
                        out.add(self.eng.exc_class(mod, t))
                    except Unsupported:
                        pass
        return sorted(out)

    # ---------------------------------------------------------- the world
    def w(self, st, name):
        return st.heap[self.world.rid].fields[name][1]

    def setw(self, st, **kw):
        st = st.copy()
        x = st.heap[self.world.rid]
        st.heap[self.world.rid] = Rec({n: (True, kw.get(n, v)) for n, (_, v) in x.fields.items()}, x.cls)
        return st

    def may_raise(self, eng, st, spoil=True):
        """exits for all exceptions; the state in which none was raised"""
        k = fresh_var(INT, 'raised')
        self.ks.append(k)
        st2 = self.output(st, fresh_var(Text, 'partial')) if spoil else st
        for i, c in enumerate(self.classes):
            eng.raised.append(Exit('raise', st2.assume(k == i + 1), 'callee', None, c))
        return st.assume(k == 0)

    def output(self, st, text):
        """the text shown so far becomes text"""
        tob = self.w(st, 'tobuf')
        st = self.setw(st, shown=b_ite(tob, self.w(st, 'shown'), text))
        for r in self.buffers:
            if r.rid not in st.heap:
                continue
            x = st.heap[r.rid]
            st.heap[r.rid] = Rec({'data': (True, b_ite(tob, text, x.fields['data'][1]))}, x.cls)
        return st

    def current(self, st):
        out = self.w(st, 'shown')
        for r in self.buffers:
            if r.rid in st.heap:
                out = b_ite(self.w(st, 'tobuf'), st.heap[r.rid].fields['data'][1], out)
        return out

    def on_log(self, eng, st, what):
        if what == 'warn':
            return self.setw(st, warnings=self.w(st, 'warnings') + 1)
        if what == 'print':
            return self.output(st, MORE(self.current(st)))
        return st

    def verbosity(self, eng, st, fr, f, args, kwargs, n):
        return st, None

    def console(self, eng, st, fr, f, args, kwargs, n):
        from logic import Unsupported
        v = kwargs.get('file')
        alts = v.alts if isinstance(v, Choice) else [(True, v)]
        t = False
        for g, x in alts:
            if x is None:
                continue
            if not isinstance(x, Ref) or not any(x.rid == b.rid for b in self.buffers):
                raise Unsupported('console file')
            t = b_or(t, g)
        return self.setw(st, tobuf=lift(t), silent=lift(eng.truth(st, kwargs.get('quiet')))), None

    def buffer(self, eng, st, fr, f, args, kwargs, n):
        from logic import Unsupported
        if args or kwargs or self.buffers:
            raise Unsupported('output buffer')
        st = st.copy()
        r = eng.alloc(st, Rec({'data': (True, EMPTY)}, '_OutputBuffer'))
        self.buffers.append(r)
        return st, r

    def getvalue(self, eng, st, args, kwargs):
        r = eng.resolve(st, args[0])
        return st, st.heap[r.rid].fields['data'][1]

    # ---------------------------------------------------------- the callees
    def mapfile(self, eng, st, fr, f, args, kwargs, n):
        return self.may_raise(eng, st), MAPF(text(eng, st, args[0], 'the map file name'))

    def get_elf(self, eng, st, a):
        fn = text(eng, st, a['map_fn'], 'the map file name')
        return self.may_raise(eng, st), Choice([(NOELF(fn), None), (z3.Not(NOELF(fn)), ELF(fn))])

    def elf_of(self, fn):
        return b_ite(NOELF(fn), NONE, ELF(fn))

    def memmap(self, eng, st, m):
        st = st.copy()
        return st, eng.alloc(st, Rec({'%map': (True, m), 'target': (True, TARGET(m)), 'target_diff': (True, TARGET_DIFF(m))}))

    def content(self, eng, st, v):
        """the abstract map a value refers to"""
        if isinstance(v, Choice):
            out = None
            for g, x in reversed(v.alts):
                x = self.content(eng, st, x)
                out = x if out is None else b_ite(g, x, out)
            return out
        return eng.deref(st, v).fields['%map'][1]

    def load(self, fn, symbols, dwarf, map_file=None, elf=None):
        """what is not passed is created from the files of the project (C18)"""
        return FLAGS(LOAD(fn, lift(symbols), dwarf, MAPF(fn) if map_file is None else map_file, self.elf_of(fn) if elf is None else elf), False, False)

    def get(self, eng, st, a):
        fn = text(eng, st, a['input_fn'], 'the map file name')
        mf, elf = enc(a.get('map_file')), enc(a.get('elf'))
        mf = b_ite(eqt(mf, NONE), MAPF(fn), mf)
        elf = b_ite(eqt(elf, NONE), self.elf_of(fn), elf)
        m = self.load(fn, eng.truth(st, a['load_symbols']) if 'load_symbols' in a else True, tri(eng, st, a.get('use_dwarf')), mf, elf)
        return self.memmap(eng, self.may_raise(eng, st), m)

    def update(self, eng, st, v, f):
        if isinstance(v, Choice):
            for g, x in v.alts:
                st = self.update(eng, st, x, lambda m, g=g: b_ite(g, f(m), m))
            return st
        r = eng.resolve(st, v)
        st = st.copy()
        eng.write(st, r, lambda x: Rec({n: (c, f(y) if n == '%map' else y) for n, (c, y) in x.fields.items()}), mutate=True)
        return st

    def flag(self, i):
        def set_flag(m):
            if z3.is_app_of(m, z3.Z3_OP_ITE):
                return b_ite(m.arg(0), set_flag(m.arg(1)), set_flag(m.arg(2)))
            if m.decl().name() == 'flags':
                xs = [m.arg(0), m.arg(1), m.arg(2)]
            else:
                xs = [m, z3.BoolVal(False), z3.BoolVal(False)]
            xs[i] = z3.BoolVal(True)
            return FLAGS(*xs)

        def f(eng, st, a):
            return self.update(eng, self.may_raise(eng, st), a['memory_map'], set_flag), None
        return f

    def diff(self, eng, st, a):
        m = DIFF(self.content(eng, st, a['memory_map_cur']), self.content(eng, st, a['memory_map_ref']))
        return self.memmap(eng, self.may_raise(eng, st), FLAGS(m, False, False))

    def unify(self, eng, st, a):
        return self.update(eng, self.may_raise(eng, st), a['memory_map'], lambda m: FLAGS(UNIFY(m), False, False)), None

    def rendered(self, fmt, text, m, mf, elf, args):
        names = sorted(args)
        f = z3.Function(f'report/{fmt}/{",".join(names)}', Text, MM, Obj, Obj, *[Obj] * len(names), Text)
        return f(text, m, mf, elf, *[enc(args[n]) for n in names])

    def show(self, fmt):
        def f(eng, st, a):
            from logic import Unsupported
            if set(a) != {'memmap', 'map_file', 'elf', 'args'}:
                a = dict(zip(('memmap', 'map_file', 'elf', 'args'), a.values()))
            r = eng.resolve(st, a['args'])
            x = eng.deref(st, r, whole=True)
            if any(c is not True for c, _ in x.fields.values()):
                raise Unsupported('options that may be missing')
            text = self.rendered(fmt, self.current(st), self.content(eng, st, a['memmap']), enc(a['map_file']), enc(a['elf']), {n: v for n, (_, v) in x.fields.items()})
            return self.output(self.may_raise(eng, st), text), None
        return f

    def write(self, eng, st, a):
        fn, data = a['fn'], a['data']
        after = self.setw(st, file=WROTE(text(eng, st, fn, 'the output file name'), data), writes=self.w(st, 'writes') + 1)
        # failing to write is an exception too
        self.may_raise(eng, self.setw(after, file=fresh_var(File, 'file')), spoil=False)
        return after, None

    # ---------------------------------------------------------- what is expected
    def truth(self, n):
        return self.eng.truth(self.P.st, self.arg0[n])

    def final_args(self):
        """the options the report is made with"""
        a = dict(self.arg0)
        t = self.truth
        a['force_terminal'] = self.ite(t('output_file'), False, a['force_terminal'])
        a['no_abbrev'] = b_and(a['no_abbrev'], b_not(t('unify')))
        a['diff'] = self.ite(b_and(t('archive_dependencies'), t('diff')), None, a['diff'])
        a['abbrev'] = b_not(a['no_abbrev'])
        detailed = b_or(t('archive_details'), t('archives'), t('files'), eqt(a['format'], 'raw'))
        a['use_dwarf'] = self.ite(t('use_dwarf'), detailed, a['use_dwarf'])
        return a

    def ite(self, c, x, y):
        return b_ite(c, enc(x), enc(y))

    def final_map(self):
        t = self.truth
        symbols = b_or(t('archive_details'), eqt(self.arg0['format'], 'raw'))
        detailed = b_or(symbols, t('archives'), t('files'))
        dwarf = b_ite(t('use_dwarf'), b_ite(detailed, z3.IntVal(2), z3.IntVal(1)), tri(self.eng, self.P.st, self.arg0['use_dwarf']))

        def one(fn):
            m = self.load(fn, symbols, dwarf)
            return FLAGS(m.arg(0), lift(b_not(t('show_unused'))), lift(b_not(t('use_flash_size'))))
        cur = one(self.arg0['input_file'])
        ref = self.arg0['diff'].alts[1][1]
        m = b_ite(b_and(t('diff'), b_not(t('archive_dependencies'))), FLAGS(DIFF(cur, one(ref)), False, False), cur)
        return b_ite(t('unify'), FLAGS(UNIFY(m), False, False), m)

    def final_report(self):
        fn = self.arg0['input_file']
        out = None
        for fmt, names in (('format_dot', ('dot',)), ('format_tree', ('tree',)), ('format_csv', ('csv',)), ('format_raw', ('raw',)),
                           ('format_json', ('json2',)), ('format_table', ('table', 'text'))):
            x = self.rendered(fmt, EMPTY, self.final_map(), MAPF(fn), self.elf_of(fn), self.final_args())
            out = x if out is None else b_ite(b_or(*[eqt(self.arg0['format'], n) for n in names]), x, out)
        return out

    def text(self, st, v):
        return text(self.eng, st, v, 'the name')
