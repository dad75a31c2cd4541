"""The output file: written once, with the whole report, after everything else succeeded."""
import ast
import os

import z3

from engine import REPO, Builtin, Exit
from logic import Obj, Str, b_and, b_ite, b_not, b_or, eqt, fresh_var, lift, unlit, is_z3
from spec import INT, STR
from values import Rec
import cmn
from runmodel import NOFILE, WROTE, Model

ASSUMPTIONS = ['the formatters and memorymap functions do not write files (checked syntactically: no other module contains a call that can)',
               'pathlib.Path.write_text truncates the file and writes the text with the given encoding and error handler',
               'writing itself is not interrupted: no crash consistency of the file system is claimed']
LENIENT = ('backslashreplace', 'replace', 'ignore', 'xmlcharrefreplace', 'namereplace', 'surrogatepass')


def failure(P, name, x):
    """obligation: the exit is a failure of the program"""
    ok = True
    if x.exc and x.exc[0] == 'SystemExit' and isinstance(x.value, tuple):
        c = x.value[1]
        ok = isinstance(c, (int, str)) and not isinstance(c, bool) and c not in (0, '')
    P.add(f'{P.label}: {name}', ok, '' if ok else f'exit code {x.value}')


def run(P):
    m = Model(P, '_run')
    P.call('main', '_run', m.args)
    out = P.out
    want, fn = m.truth('output_file'), m.arg0['output_file'].alts[1][1]
    report = m.final_report()
    P.prove('the output file has the report', m.w(out, 'file') == b_ite(want, WROTE(fn, report), NOFILE))
    P.prove('it is written once, and only if requested', m.w(out, 'writes') == z3.If(want, 1, 0))
    for i, (st, a) in enumerate(m.calls['_write_output_file']):
        P.out = st
        P.prove(f'the report is complete when the file is written ({i + 1})', b_and(a['data'] == report, want))
        P.prove(f'the requested file is written ({i + 1})', eqt(m.text(st, a['fn']), fn))
    n = 0
    for i, x in enumerate(P.raises):
        P.out = x.state
        writing = m.w(x.state, 'writes')
        P.prove(f'a failure before writing leaves the file as it was ({i + 1}, {x.exc[0]})', b_or(lift(writing) == 1, m.w(x.state, 'file') == NOFILE))
        P.prove(f'a failure is not followed by writing ({i + 1}, {x.exc[0]})', lift(writing) <= 1)
        failure(P, f'a failure ends the program with a failure ({i + 1}, {x.exc[0]})', x)
        n += 1
    P.add('_run: exceptions of all callees are considered', n >= 50, f'{n} exits')


def write_output_file(P):
    eng = P.engine('_write_output_file', order=False)
    File = z3.DeclareSort('File')
    written = z3.Function('written_text', Obj, Str, File)
    none = z3.Const('the file as before', File)
    fs = P.give(Rec({'file': (True, none)}, 'World'))
    fn, data = z3.Const('fn', Str), z3.Const('data', Str)
    calls = []

    def file(st, f=None):
        if f is None:
            return st.heap[fs.rid].fields['file'][1]
        st = st.copy()
        st.heap[fs.rid] = Rec({'file': (True, f)}, 'World')
        return st

    def fail(eng, st, *classes):
        k = fresh_var(INT, 'raised')
        for i, c in enumerate(classes):
            eng.raised.append(Exit('raise', st.assume(k == i + 1), 'callee', None, c))
        return st.assume(k == 0)
    oserr, valerr = ('OSError', 'Exception', 'BaseException'), ('UnicodeEncodeError', 'UnicodeError', 'ValueError', 'Exception', 'BaseException')

    def mkdir(eng, st, fr, f, args, kwargs, n):
        e = kwargs.get('exist_ok', args[2] if len(args) > 2 else False)
        P.add('_write_output_file: an existing directory is not an error', e is True, repr(e))
        return fail(eng, st, oserr), None

    def write_text(eng, st, fr, f, args, kwargs, n):
        a = dict(zip(('data', 'encoding', 'errors', 'newline'), args), **kwargs)
        calls.append((st, f.self_, a))
        e = a.get('errors')
        lenient = (unlit(e) if is_z3(e) else e) in LENIENT
        fail(eng, file(st, fresh_var(File, 'file')), oserr, *([] if lenient else [valerr]))
        return file(st, written(f.self_, lift(a['data']))), None

    def path_of(v):
        return v if is_z3(v) and v.sort() == Obj else eng.ufun('pathlib.Path', [v], Obj)
    handles = {}

    def open_(eng, st, fr, f, args, kwargs, n):
        from logic import Unsupported
        if f.self_ is not None:
            args = [f.self_] + list(args)
        a = dict(zip(('file', 'mode', 'buffering', 'encoding', 'errors', 'newline'), args), **kwargs)
        mode = a.get('mode', 'r')
        if (unlit(mode) if is_z3(mode) else mode) not in ('w', 'wt', 'tw') or 'buffering' in a:
            raise Unsupported('mode of open()')
        st = fail(eng, st, oserr)
        h = z3.Const(f'handle!{len(handles)}', Obj)
        handles[h.get_id()] = (h, path_of(a['file']), {k: v for k, v in a.items() if k in ('encoding', 'errors', 'newline')})
        return file(st, written(path_of(a['file']), lift(''))), h

    def write(eng, st, fr, f, args, kwargs, n):
        from logic import Unsupported
        if not is_z3(f.self_) or f.self_.get_id() not in handles:
            raise Unsupported('write')
        _, p, kw = handles.pop(f.self_.get_id())          # once
        f = Builtin(f.name, p)
        return write_text(eng, st, fr, f, args, kw, n)[0], z3.IntVal(0)

    def makedirs(eng, st, fr, f, args, kwargs, n):
        return mkdir(eng, st, fr, f, [None, None] + list(args[2:]), kwargs, n)
    eng.externals['method.mkdir'] = mkdir
    eng.externals['os.makedirs'] = makedirs
    eng.externals['method.write_text'] = write_text
    eng.externals['open'] = eng.externals['method.open'] = eng.externals['io.open'] = open_
    eng.externals['method.write'] = write
    P.call('main', '_write_output_file', fn, data)
    path = eng.ufun('pathlib.Path', [fn], Obj)
    P.prove('the file has the text', file(P.out) == written(path, data))
    P.add('_write_output_file: the text is written in the encoding it was rendered for',
          bool(calls) and all(isinstance(a.get('encoding'), Builtin) and a['encoding'].name == '.main._OutputBuffer.encoding' and 'newline' not in a for _, _, a in calls),
          repr([a.get('encoding') for _, _, a in calls]))
    P.add('_write_output_file: a failure is possible (the exits are not vacuous)', len(P.raises) >= 2)
    for i, x in enumerate(P.raises):
        ok = x.exc[0] == 'SystemExit'
        P.add(f'_write_output_file: a failure to write is reported ({i + 1})', ok, '' if ok else f'{x.exc[0]} escapes')
        failure(P, f'a failure to write ends the program with a failure ({i + 1})', x)


WRITERS = {'write_text', 'write_bytes', 'touch', 'unlink', 'rename', 'replace', 'mkdir', 'rmdir', 'remove', 'makedirs', 'truncate', 'symlink_to', 'system', 'Popen'}


def frame(P):
    """no other module can write files"""
    P.label = 'frame'
    d = os.path.join(REPO, 'esp_idf_size')
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.py') or fn == 'main.py':
            continue
        with open(os.path.join(d, fn), encoding='utf-8') as f:
            tree = ast.parse(f.read())
        bad = []
        for n in ast.walk(tree):
            if not isinstance(n, ast.Call):
                continue
            name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
            if name == 'open':
                mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
                if mode is not None and not (isinstance(mode, ast.Constant) and isinstance(mode.value, str) and not set(mode.value) & set('wax+')):
                    bad.append(ast.unparse(n))
            elif name == 'replace':
                pass      # of a text
            elif name in WRITERS:
                if isinstance(n.func, ast.Attribute):
                    bad.append(ast.unparse(n))
        P.add(f'frame: {fn} does not write files', not bad, '; '.join(bad)[:300])


PARTS = cmn.parts(run, write_output_file, frame)
