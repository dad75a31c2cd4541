"""C15 C16 C19 (and the tables of C09, C20, C14): the command line and the formats."""
import copy
import csv
import io
import json
import os
import re
import shutil
import sys
import tempfile
import types

import gen
import project
from case_tree import KIDS, check_diff, ordered, summ, unify_tree
from core import Skip, case, eq, fn, need

SCRATCH = tempfile.mkdtemp(prefix='verif-cli-')
import atexit  # noqa: E402
atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))


def cli(argv):
    from click.testing import CliRunner
    main = fn('main', 'main')
    r = CliRunner().invoke(main, argv)
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        raise r.exception
    return r.exit_code, r.stdout, r.stderr


# ------------------------------------------------------------------ rendering one memory map
def g_report(rng):
    diff = rng.random() < 0.5
    unify = rng.random() < 0.2
    mm = gen.memmap(rng, diff=diff, maxkids=3, unified=unify)
    if diff and rng.random() < 0.7:
        # as produced by a comparison: previous totals are not negative
        for t in mm['memory_types'].values():
            t['size_diff'] = rng.choice([0, t['size'], -7, 3]) if t['size'] else -5
            t['used_diff'] = min(t['used_diff'], t['used'])
    arcs = [a['abbrev_name'] for t in mm['memory_types'].values() for s in t['sections'].values()
            for a in s['archives'].values() if any(o['symbols'] for o in a['object_files'].values())]
    kind = rng.choice(['summary', 'summary', 'archives', 'files', 'symbols'])
    if kind == 'symbols' and not arcs:
        kind = 'summary'
    col = rng.choice(['1', '1', '2', '3', '4', '-1', '-2', '-4', 'Used [%]', 'Remain [bytes]', 'Total [bytes]', 'Total Size', 'name'])
    return {'map': mm, 'kind': kind, 'fmt': rng.choice(['table', 'csv', 'json2', 'raw', 'tree']),
            'args': {'diff': 'ref.map' if diff else None, 'show_unchanged': rng.random() < 0.5, 'abbrev': rng.random() < 0.6,
                     'archives': kind == 'archives', 'files': kind == 'files', 'archive_dependencies': False,
                     'archive_details': rng.choice(arcs) if kind == 'symbols' else None, 'unify': unify,
                     'sort': col, 'sort_diff': rng.random() < 0.3, 'sort_reverse': rng.random() < 0.7, 'filter': None,
                     'dep_reverse': False, 'dep_symbols': False}, 'colsel': rng.randint(0, 9)}


def render(fmt, mm, mf, elf, args):
    mod = {'table': 'format_table', 'csv': 'format_csv', 'json2': 'format_json', 'raw': 'format_raw', 'tree': 'format_tree',
           'dot': 'format_dot'}[fmt]
    show = fn(mod, 'show', 4)
    from esp_pylib.logger import Verbosity
    from esp_pylib.logger import log as esp_log
    buf = io.StringIO()
    esp_log.set_verbosity(Verbosity.NORMAL)
    esp_log.set_console_options(file=buf, no_color=False, force_terminal=False, width=10000, highlight=True, quiet=False)
    old = sys.stderr
    sys.stderr = io.StringIO()
    try:
        show(mm, mf, elf, args)
    finally:
        sys.stderr = old
        esp_log.set_console_options(file=None, no_color=False, force_terminal=False, width=10000, highlight=True, quiet=False)
        esp_log.set_verbosity(Verbosity.SILENT)
    return buf.getvalue()


def rows_of_table(text):
    head, rows = None, []
    for line in text.split('\n'):
        if line.startswith('┃'):
            head = [c.strip() for c in line.strip('┃').split('┃')]
        elif line.startswith('│'):
            rows.append([c[1:].rstrip() for c in line[1:-1].split('│')])
    return head, rows


def rows_of_csv(text):
    lines = [x for x in text.split('\n') if x.strip()]
    rows = list(csv.reader(lines))
    return rows[0], rows[1:]


def shown(v, d, diff):
    """the text of a value and its difference"""
    if not diff:
        return f'{v}'
    return f'{v} {d:+}' if d else f'{v} {d}'


def norm(s):
    return ' '.join(s.split())


def near(got, want, what):
    """percentages: numbers compared after rounding to two digits"""
    g, w = got.split(), want.split()
    need(len(g) == len(w), what, got, 'expected', want)
    for a, b in zip(g, w):
        need(abs(float(a) - float(b)) < 0.0101, what, 'got', got, 'expected', want)


def changed(a, d):
    return not a['diff'] or a['show_unchanged'] or d != 0


def check_summary_rows(mm, a, head, rows, indent, text=''):
    eq(head, ['Memory Type/Section', 'Used [bytes]', 'Used [%]', 'Remain [bytes]', 'Total [bytes]'], 'columns')
    types_ = {t: v for t, v in mm['memory_types'].items() if changed(a, v['used_diff'])}
    diff = a['diff']
    pos = 0
    order = []
    left = dict(types_)
    sortcol = a['sort']
    try:
        sortcol = int(sortcol)
    except ValueError:
        sortcol = head.index(sortcol)
    key = ['used', 'pct', 'remain', 'total'][sortcol - 1 if sortcol > 0 else sortcol]

    def pct(n, d):
        return n / d * 100 if d else 0

    def val(kind, t, s=None):
        x = t if s is None else s
        used, used_d = (t['used'], t['used_diff']) if s is None else (s['size'], s['size_diff'])
        p = pct(used, t['size'])
        return {'used': (used, used_d), 'pct': (p, p - pct(used - used_d, t['size'] - t['size_diff'])),
                'remain': ((t['size'] - used if t['size'] else 0), t['size_diff'] - t['used_diff']) if s is None else (0, 0),
                'total': (t['size'], t['size_diff']) if s is None else (0, 0)}[kind]

    while pos < len(rows):
        name = rows[pos][0]
        need(name in left, 'unexpected or repeated row', rows[pos])
        t = left.pop(name)
        order.append(t)
        eq(norm(rows[pos][1]), shown(t['used'], t['used_diff'], diff), f'used of {name}')
        if t['size']:
            v = val('pct', t)
            near(norm(rows[pos][2]), f'{round(v[0], 2)} {round(v[1], 2)}' if diff else f'{round(v[0], 2)}', f'percentage of {name}')
            v = val('remain', t)
            eq(norm(rows[pos][3]), shown(v[0], v[1], diff), f'remain of {name}')
            eq(norm(rows[pos][4]), shown(t['size'], t['size_diff'], diff), f'total of {name}')
        else:
            eq([x.strip() for x in rows[pos][2:]], ['', '', ''], f'values of {name}')
        pos += 1
        secs = {k: s for k, s in t['sections'].items() if changed(a, s['size_diff'])}
        got, sorder = [], []
        for _ in range(len(secs)):
            need(pos < len(rows), 'rows missing for', name)
            c = rows[pos][0]
            if indent:
                need(c.startswith('   '), 'section row expected', rows[pos])
                c = c[3:]
            got.append((c, norm(rows[pos][1])))
            sorder.append(rows[pos])
            pos += 1
        want = [(s['abbrev_name'] if a['abbrev'] else k, shown(s['size'], s['size_diff'], diff)) for k, s in secs.items()]
        eq(sorted(got), sorted(want), f'section rows of {name}')
        if t['size']:
            w2 = sorted((s['abbrev_name'] if a['abbrev'] else k, shown(s['size'], s['size_diff'], diff), val('pct', t, s)) for k, s in secs.items())
            for r, (n, _, v) in zip(sorted(sorder, key=lambda r: (r[0].strip(), norm(r[1]))), w2):
                near(norm(r[2]), f'{round(v[0], 2)} {round(v[1], 2)}' if diff else f'{round(v[0], 2)}', f'percentage of {name} {n}')
        if key == 'used' or key == 'pct':
            idx = 1 if a['sort_diff'] else 0
            if key == 'used':
                ordered([int(r[1].split()[idx]) if diff or not idx else 0 for r in sorder], a['sort_reverse'], f'sections of {name}') \
                    if diff or not idx else None
            elif t['size'] and not a['sort_diff']:
                ordered([int(r[1].split()[0]) for r in sorder], a['sort_reverse'], f'sections of {name} by percentage')
    need(not left, 'memory types without row:', list(left))
    if a['sort_diff'] and not diff:
        return
    vals = [val(key, t)[1 if a['sort_diff'] else 0] for t in order]
    for x, y in zip(vals, vals[1:]):
        need(x >= y - 1e-9 if a['sort_reverse'] else x <= y + 1e-9, f'memory types not ordered by {key}:', vals)


def check_entry_rows(mm, a, kind, head, rows, colsel):
    s = summ(mm, {'archives': 'archives', 'files': 'files', 'symbols': 'symbols'}[kind], a['unify'], a['archive_details'])
    s = {k: v for k, v in s.items() if changed(a, v['size_diff'])}
    diff = a['diff']
    cols = []
    if s:
        cols = [t2 for t, v in mm['memory_types'].items()
                for t2 in [t] + [(x['abbrev_name'] if a['abbrev'] else n) for n, x in v['sections'].items()]]
    eq(head[1:], ['Total Size'] + cols, 'columns')
    want = []
    for k, v in s.items():
        r = [v['abbrev_name'] if a['abbrev'] else k, (v['size'], v['size_diff'])]
        for t in v['memory_types'].values():
            r.append((t['size'], t['size_diff']))
            for x in t['sections'].values():
                r.append((x['size'], x['size_diff']))
        want.append([r[0]] + [shown(x, y, diff) for x, y in r[1:]])
    eq(sorted([r[0]] + [norm(c) for c in r[1:]] for r in rows), sorted(want), 'rows')
    if not rows or (a['sort_diff'] and not diff):
        return
    c = a['sort']
    try:
        c = int(c)
    except ValueError:
        c = head.index(c)
    if c < 0:
        c += len(head)
    ordered([int(r[c].split()[1 if a['sort_diff'] else 0]) for r in rows], a['sort_reverse'], f'rows by column {c}')


def check_tree(mm, a, text):
    got = []
    for line in text.rstrip('\n').split('\n')[1:]:
        m = re.match(r'^((?:[│├└ ](?:   |── ))*)', line)
        depth = len(m.group(1)) // 4
        need(depth > 0, 'tree line', line)
        got.append((depth, norm(line[len(m.group(1)):])))
    diff = a['diff']
    want = []
    pos = [0]

    def take(depth):
        """subtrees at this depth, in the order shown"""
        out = []
        while pos[0] < len(got) and got[pos[0]][0] == depth:
            txt = got[pos[0]][1]
            pos[0] += 1
            out.append((txt, take(depth + 1)))
        return out
    tree = take(1)
    eq(pos[0], len(got), 'tree structure')

    def expect(d, level):
        out = []
        for k, v in d.items():
            dd = v['used_diff'] if level == 'memory_types' else v['size_diff']
            if not changed(a, dd):
                continue
            if level == 'memory_types':
                txt = f'{k} {shown(v["used"], v["used_diff"], diff)}'
                if v['size']:
                    txt += f' / {shown(v["size"], v["size_diff"], diff)}'
            else:
                if level == 'archives' and a['archive_details'] and v['abbrev_name'] != a['archive_details']:
                    continue
                nm = k if level == 'symbols' or not a['abbrev'] else v['abbrev_name']
                txt = f'{nm} {shown(v["size"], v["size_diff"], diff)}'
            sub = KIDS[level]
            kids = expect(v[sub], sub) if sub else []
            if not a['archive_details'] and ((level == 'archives' and a['archives']) or
                                             (level == 'object_files' and a['files'] and not a['archives'])):
                kids = []
            out.append((txt, kids))
        return out

    def canon(t):
        return sorted((x, canon(y)) for x, y in t)
    eq(canon(tree), canon(expect(mm['memory_types'], 'memory_types')), 'tree')
    if a['sort_diff'] and not diff:
        return

    def num(txt, level):
        # the values are the last words
        w = txt.split(' / ')[0].split() if level == 'memory_types' else txt.split()
        return int(w[-1]) if (a['sort_diff'] or not diff) else int(w[-2])

    def check_order(t, level):
        ordered([num(x, level) for x, _ in t], a['sort_reverse'], f'tree level {level}')
        for _, y in t:
            if KIDS[level]:
                check_order(y, KIDS[level])
    check_order(tree, 'memory_types')


def nt(mm):
    return {t: v for t, v in mm['memory_types'].items()}


@case('C16', 'C09', gen=g_report)
def report(inp):
    mm, a, fmt, kind = inp['map'], copy.deepcopy(inp['args']), inp['fmt'], inp['kind']
    need_sort = fmt in ('table', 'csv')
    if kind != 'summary' and need_sort:
        # columns: Total Size, memory types and sections
        heads = ['Total Size']
        entries = summ(mm, kind, a['unify'], a['archive_details'])
        for t, v in mm['memory_types'].items():
            # without entries there are no columns of memory types
            if not any(changed(a, e['size_diff']) for e in entries.values()):
                break
            heads.append(t)
            heads += [(x['abbrev_name'] if a['abbrev'] else n) for n, x in v['sections'].items()]
        k = inp['colsel'] % len(heads)
        c = a['sort']
        a['sort'] = heads[k] if c == 'name' else str(k + 1) if inp['colsel'] % 2 else str(k - len(heads))
        if a['sort'] == heads[k]:
            try:
                int(a['sort'])
                return None
            except ValueError:
                pass
    elif need_sort and a['sort'] in ('name', 'Total Size'):
        a['sort'] = 'Used [bytes]'
    if not need_sort:
        a['sort'] = '1'
    a2 = copy.deepcopy(a)
    # the tool has no way to say that nothing matches
    out = render(fmt, copy.deepcopy(mm), None, None, a2)
    if fmt == 'raw':
        eq(json.loads(out), mm, 'raw report')
        return None
    if fmt == 'json2':
        got = json.loads(out)
        if kind == 'summary':
            eq(got['total_size'], mm['image_size'], 'total_size')
            eq(sorted(x['name'] for x in got['layout']), sorted(mm['memory_types']), 'memory types')
            ordered([mm['memory_types'][x['name']]['used_diff' if a['sort_diff'] else 'used'] for x in got['layout']],
                    a['sort_reverse'], 'layout')
            for x in got['layout']:
                t = mm['memory_types'][x['name']]
                parts = {}
                for n, s in t['sections'].items():
                    nm = s['abbrev_name'] if a['abbrev'] else n
                    parts.setdefault(nm, {'size': 0})['size'] += s['size']
                eq(x, {'name': x['name'], 'total': t['size'], 'used': t['used'], 'free': t['size'] - t['used'] if t['size'] else 0,
                       'parts': parts}, 'memory type')
        else:
            want = summ(mm, {'archives': 'archives', 'files': 'files', 'symbols': 'symbols'}[kind], a['unify'], a['archive_details'])
            want = {k: v for k, v in want.items() if changed(a, v['size_diff'])}
            eq(got, want, f'{kind} report')
            k = 'size_diff' if a['sort_diff'] else 'size'
            ordered([v[k] for v in got.values()], a['sort_reverse'], 'entries')
        return None
    if fmt == 'tree':
        check_tree(mm, a, out)
        return None
    head, rows = rows_of_table(out) if fmt == 'table' else rows_of_csv(out)
    if kind == 'summary':
        # --archives and the like are not set, so trimming only depends on the differences
        check_summary_rows(mm, a, head, rows, fmt == 'table')
    else:
        check_entry_rows(mm, a, kind, head, rows, inp['colsel'])
    return None


# ------------------------------------------------------------------ dependency reports
def g_depreport(rng):
    from case_tree import g_deps
    x = g_deps(rng)
    x['fmt'] = rng.choice(['table', 'csv', 'json2', 'raw', 'tree', 'dot'])
    x['symbols'] = rng.random() < 0.5
    x['abbrev'] = rng.random() < 0.5
    x['filter'] = rng.choice([None, None, ['lib'], ['a', 'exe']])
    return x


@case('C14', 'C16', gen=g_depreport)
def dependency_report(inp):
    import fnmatch
    from case_split import FakeSym
    mf = types.SimpleNamespace(cross_reference_table={k: [tuple(r) for r in v] for k, v in inp['crt'].items()})
    elf = types.SimpleNamespace(symbols=[FakeSym(d) for d in inp['elf']])
    a = {'dep_reverse': inp['reverse'], 'diff': None, 'show_unchanged': False, 'unify': False, 'archive_dependencies': True,
         'archives': False, 'files': False, 'archive_details': None, 'abbrev': inp['abbrev'], 'dep_symbols': inp['symbols'],
         'filter': inp['filter'], 'sort': '1', 'sort_diff': False, 'sort_reverse': True}
    sizes = {}
    for t in inp['map']['memory_types'].values():
        for s in t['sections'].values():
            for n, x in s['archives'].items():
                sizes[n] = sizes.get(n, 0) + x['size']
    good = {d['name'] for d in inp['elf'] if d['type'] in (1, 2) and d['shndx'] != 0xfff1}
    rel = {}
    for sym, refs in inp['crt'].items():
        de = refs[0][0]
        for r in {r[0] for r in refs[1:]}:
            if sym in good and r != de and r in sizes and de in sizes:
                x, y = (de, r) if inp['reverse'] else (r, de)
                rel.setdefault(x, {}).setdefault(y, []).append(sym)
    out = render(inp['fmt'], copy.deepcopy(inp['map']), mf, elf, a)
    fmt = inp['fmt']

    def lab(n):
        return gen.basename(n) if inp['abbrev'] else n
    if fmt in ('json2', 'raw'):
        got = json.loads(out)
        eq({x: {y: (yi['abbrev_name'], yi['size'], sorted(yi['symbols'])) for y, yi in xi['archives'].items()} for x, xi in got.items()},
           {x: {y: (gen.basename(y), sizes[y], sorted(ss)) for y, ss in d.items()} for x, d in rel.items()}, 'dependencies')
        eq({x: (xi['abbrev_name'], xi['size']) for x, xi in got.items()}, {x: (gen.basename(x), sizes[x]) for x in rel}, 'archives')
        return None
    if fmt == 'tree':
        names = {f'{lab(x)} {sizes[x]}' for x in rel}
        lines = [re.sub(r'^[│├└─ ]+', '', x) for x in out.rstrip('\n').split('\n')[1:]]
        eq(out.split('\n')[0].strip(), 'Archive reverse dependencies' if inp['reverse'] else 'Archive dependencies', 'root of the tree')
        want = []
        for x, d in rel.items():
            want.append(f'{lab(x)} {sizes[x]}')
            for y, ss in d.items():
                want.append(f'{lab(y)} {sizes[y]}')
                if inp['symbols']:
                    want += ss
        eq(sorted(lines), sorted(want), 'tree lines')
        return None
    flt = inp['filter']
    rel = {x: d for x, d in rel.items() if flt is None or any(fnmatch.fnmatch(lab(x), f'*{p}*') for p in flt)}
    if fmt == 'dot':
        edges, nodes = [], []
        txt = out
        need(re.match(r'\s*strict digraph\b[^{]*\{', out) and out.rstrip().endswith('}'), 'not a graph', out[:50])
        for m in re.finditer(r'^"([^"]*)" -> "([^"]*)"(?: \[label="([^"]*)"\])?$', txt, re.M):
            edges.append((m.group(1), m.group(2), tuple(sorted(m.group(3).split('\n'))) if m.group(3) else ()))
        for m in re.finditer(r'^"([^"]*)" \[shape=(\w+), label="([^"]*) \((\d+)\)"', txt, re.M):
            nodes.append((m.group(1), m.group(3), int(m.group(4)), m.group(2)))
        want = []
        for x, d in rel.items():
            for y, ss in d.items():
                u, v = (y, x) if inp['reverse'] else (x, y)
                want.append((u, v, tuple(sorted(ss)) if inp['symbols'] else ()))
        eq(sorted(edges), sorted(want), 'edges')
        ns = set(rel) | {y for d in rel.values() for y in d}
        eq(sorted(nodes), sorted((n, lab(n), sizes[n], 'box' if n in rel else 'ellipse') for n in ns), 'nodes')
        return None
    if fmt == 'table' and inp['symbols']:
        return None   # cells of several lines
    if fmt == 'csv' and inp['symbols']:
        rows = list(csv.reader(io.StringIO(out)))
        rows = [r for r in rows if r]
        if rows and len(rows[0]) == 1:
            rows = rows[1:]   # title
        head, rows = rows[0], rows[1:]
    else:
        head, rows = rows_of_table(out) if fmt == 'table' else rows_of_csv(out)
    dep = 'Dependents' if inp['reverse'] else 'Dependencies'
    eq(list(head), ['Archive', 'Archive Size', dep, f'{dep} Sizes'] + ['Symbols'] * inp['symbols'], 'columns')
    got, cur = [], None
    for r in rows:
        if r[0]:
            cur = (r[0], int(r[1]))
        got.append(cur + (r[2], int(r[3])) + ((tuple(sorted(r[4].split('\n'))),) if inp['symbols'] else ()))
    want = [(lab(x), sizes[x], lab(y), sizes[y]) + ((tuple(sorted(ss)),) if inp['symbols'] else ()) for x, d in rel.items() for y, ss in d.items()]
    eq(sorted(got), sorted(want), 'rows')
    return None


# ------------------------------------------------------------------ C20: filter in table and csv reports
def g_filtered(rng):
    x = g_report(rng)
    while x['kind'] == 'summary':
        x = g_report(rng)
    x['fmt'] = rng.choice(['table', 'csv'])
    x['args'].update(sort='1', filter=rng.choice([None, ['lib'], ['main', 'x'], ['*.obj'], ['[!l]'], ['zz'], ['foo', 'net']]))
    return x


@case('C20', gen=g_filtered)
def filtered_report(inp):
    import fnmatch
    mm, a = inp['map'], copy.deepcopy(inp['args'])
    s = summ(mm, {'archives': 'archives', 'files': 'files', 'symbols': 'symbols'}[inp['kind']], a['unify'], a['archive_details'])
    want = []
    for k, v in s.items():
        nm = v['abbrev_name'] if a['abbrev'] else k
        if changed(a, v['size_diff']) and (a['filter'] is None or any(fnmatch.fnmatch(nm, f'*{p}*') for p in a['filter'])):
            want.append((nm, shown(v['size'], v['size_diff'], a['diff'])))
    out = render(inp['fmt'], copy.deepcopy(mm), None, None, a)
    head, rows = rows_of_table(out) if inp['fmt'] == 'table' else rows_of_csv(out)
    eq(sorted((r[0], norm(r[1])) for r in rows), sorted(want), 'rows')


# ------------------------------------------------------------------ C19
def g_cli(rng):
    t = rng.choice(project.CHIPS)
    a = project.project(rng, target=t, crt=True, nsec=6)
    b = project.project(rng, target=t if rng.random() < 0.85 else None, crt=True, nsec=6)
    if rng.random() < 0.5:
        b = copy.deepcopy(a)
        for s in b['osecs'][:]:
            if rng.random() < 0.3:
                b['osecs'].remove(s)
                b['elf'] = None
        b['text_seed'] += 1
    return {'a': a, 'b': b, 'unused': rng.random() < 0.4, 'flash': rng.random() < 0.4, 'unify': rng.random() < 0.4,
            'noabbrev': rng.random() < 0.4, 'deps': rng.random() < 0.25,
            'fmt': rng.choice(['raw', 'raw', 'raw', 'table', 'text', 'csv', 'tree', 'json2']),
            'view': rng.choice([[], ['--archives'], ['--files']])}


def setup2(inp):
    for n in ('a', 'b'):
        shutil.rmtree(os.path.join(SCRATCH, n), ignore_errors=True)
    return (project.write(inp['a'], os.path.join(SCRATCH, 'a')), project.write(inp['b'], os.path.join(SCRATCH, 'b')))


def prune_map(full, unused, flash):
    out = copy.deepcopy(full)
    if not unused:
        out['memory_types'] = {}
        for t, v in full['memory_types'].items():
            if v['used']:
                v = copy.deepcopy(v)
                v['sections'] = {k: s for k, s in v['sections'].items() if s['archives']}
                v['used'] = sum(s['size'] for s in v['sections'].values())
                out['memory_types'][t] = v
    if not flash:
        for t, v in out['memory_types'].items():
            if 'flash' in t.lower():
                v['size'] = 0
    return out


@case('C19', 'C05', 'C06', 'C07', gen=g_cli)
def compared(inp):
    ma, mb = setup2(inp)
    opts = (['--show-unused'] if inp['unused'] else []) + (['--use-flash-size'] if inp['flash'] else [])

    def raw(argv):
        code, out, err = cli(argv + ['--format', 'raw'])
        eq(code, 0, f'exit code of {argv} {err}')
        # warnings are printed to the console too
        i = out.index('{')
        return json.loads(out[i:])
    fa = raw([ma, '--show-unused', '--use-flash-size', '-q'] if False else [ma, '--show-unused', '--use-flash-size'])
    fb = raw([mb, '--show-unused', '--use-flash-size'])
    pa, pb = prune_map(fa, inp['unused'], inp['flash']), prune_map(fb, inp['unused'], inp['flash'])
    eq(raw([ma] + opts), pa, 'map of the first project')
    eq(raw([mb] + opts), pb, 'map of the second project')
    d = raw([ma, '--diff', mb] + opts)
    check_diff(pa, pb, d)
    if inp['unify']:
        u = raw([ma, '--diff', mb, '--unify'] + opts)
        for k in d:
            if k != 'memory_types':
                eq(u[k], d[k], k)
        eq(sorted(u['memory_types']), sorted(d['memory_types']), 'memory types')
        for t, v in d['memory_types'].items():
            eq({k: x for k, x in u['memory_types'][t].items() if k != 'sections'}, {k: x for k, x in v.items() if k != 'sections'}, t)
            eq(u['memory_types'][t]['sections'], unify_tree([v['sections']], 'sections'), f'unified sections of {t}')


@case('C19', gen=g_cli)
def conflicts(inp):
    ma, mb = setup2(inp)
    f = ['--format', inp['fmt']]
    c1, o1, e1 = cli([ma, '--unify'] + f + inp['view'])
    c2, o2, e2 = cli([ma, '--unify', '--no-abbrev'] + f + inp['view'])
    eq(c1, 0, 'exit code')
    eq(c2, 0, 'exit code')
    need('--no-abbrev' in o2 + e2, 'no warning about --no-abbrev')
    need('--no-abbrev' not in o1 + e1, 'unexpected warning about --no-abbrev')

    def body(o):
        return '\n'.join(x for x in o.split('\n') if 'WARNING' not in x and 'will be ignored' not in x).strip()
    eq(body(o2), body(o1), 'report with --unify --no-abbrev against --unify')
    if inp['fmt'] in ('raw', 'table', 'csv', 'tree', 'json2', 'text') and inp['a']['elf'] and inp['a']['crt']:
        c1, o1, e1 = cli([ma, '--archive-dependencies'] + f)
        c2, o2, e2 = cli([ma, '--archive-dependencies', '--diff', mb] + f)
        eq(c2, c1, 'exit code')
        if c1 == 0:
            need('--diff' in o2 + e2, 'no warning about --diff')
            need('--diff' not in o1 + e1, 'unexpected warning about --diff')
            eq(sorted(body(o2)), sorted(body(o1)), 'dependencies with --diff against those without')


def g_composed(rng):
    x = g_cli(rng)
    view = rng.choice([[], [], ['--archives'], ['--files'], ['--archive-details', rng.choice(gen.ARCHIVES)], ['--archive-dependencies'],
                       ['--archive-dependencies']])
    fmt = rng.choice(['raw', 'raw', 'table', 'text', 'csv', 'tree', 'json2', 'dot'] + ['dot'] * 3 * ('--archive-dependencies' in view))
    f = lambda p: rng.random() < p
    x.update(view=view, fmt=fmt, diff=f(0.5), dep_symbols=f(0.3), dep_reverse=f(0.3), lto=rng.choice([None, None, True, False]),
             unchanged=f(0.5), sort_diff=f(0.3), sort_reverse=f(0.3), filter=rng.choice([None, None, ['lib'], ['a', 'o*']]),
             sort=rng.choice(['1', '1', '1', '2', '-1', 'Total Size']), unify=f(0.3))
    return x


@case('C19', gen=g_composed)
def composed(inp):
    """The command prints the report of the map that the separate steps produce for the same options."""
    get, unused, flash = fn('memorymap', 'get', 5), fn('memorymap', 'remove_unused', 1), fn('memorymap', 'ignore_flash_size', 1)
    differ, uni = fn('memorymap', 'diff', 2), fn('memorymap', 'unify', 1)
    Map, get_elf = fn('mapfile', 'MapFile', 1), fn('memorymap', 'get_elf', 1)
    Exc, MExc = fn('memorymap', 'MemMapException'), fn('mapfile', 'MapFileException')
    ma, mb = setup2(inp)
    view = inp['view']
    deps = '--archive-dependencies' in view
    details = view[1] if len(view) == 2 else None
    argv = [ma, '--format', inp['fmt']] + view
    for o, on in (('--show-unused', inp['unused']), ('--use-flash-size', inp['flash']), ('--unify', inp['unify']), ('--no-abbrev', inp['noabbrev']),
                  ('--dep-symbols', inp['dep_symbols']), ('--dep-reverse', inp['dep_reverse']), ('--show-unchanged', inp['unchanged']),
                  ('--sort-diff', inp['sort_diff']), ('--sort-reverse', inp['sort_reverse']), ('--lto', inp['lto'] is True),
                  ('--no-lto', inp['lto'] is False)):
        argv += [o] if on else []
    argv += ['--sort', inp['sort']] + [y for p in inp['filter'] or [] for y in ('--filter', p)] + (['--diff', mb] if inp['diff'] else [])
    code, out, err = cli(argv)
    diff = mb if inp['diff'] and not deps else None
    a = {'diff': diff, 'show_unchanged': inp['unchanged'], 'abbrev': not inp['noabbrev'] or inp['unify'], 'no_abbrev': inp['noabbrev'] and not inp['unify'],
         'archives': '--archives' in view, 'files': '--files' in view, 'archive_details': details, 'archive_dependencies': deps, 'unify': inp['unify'],
         'sort': inp['sort'], 'sort_diff': inp['sort_diff'], 'sort_reverse': not inp['sort_reverse'], 'filter': inp['filter'],
         'dep_symbols': inp['dep_symbols'], 'dep_reverse': inp['dep_reverse'], 'format': inp['fmt'], 'input_file': ma, 'output_file': None,
         'show_unused': inp['unused'], 'use_flash_size': inp['flash'], 'use_dwarf': inp['lto'], 'quiet': False, 'debug': False, 'no_color': False,
         'force_terminal': None}
    symbols = bool(details) or inp['fmt'] == 'raw'
    # debug information only changes the entries of archives, files and symbols
    lto = inp['lto'] if details or a['archives'] or a['files'] or inp['fmt'] == 'raw' or not inp['lto'] else False

    def one(m):
        mf, elf = Map(m), get_elf(m)
        mm = get(m, symbols, lto, mf, elf)
        if not inp['unused']:
            unused(mm)
        if not inp['flash']:
            flash(mm)
        return mm, mf, elf
    olderr = sys.stderr
    sys.stderr = io.StringIO()
    try:
        try:
            mm, mf, elf = one(ma)
            if diff:
                mm = differ(mm, one(mb)[0])
            if inp['unify']:
                uni(mm)
            want = render('table' if inp['fmt'] == 'text' else inp['fmt'], mm, mf, elf, a)
        finally:
            sys.stderr = olderr
    except (SystemExit, Exc, MExc):
        need(code != 0, f'the report fails, but the command succeeds: {argv}')
        return None
    eq(code, 0, f'exit code of {argv}: {err}')

    def body(o):
        return '\n'.join(x for x in o.split('\n') if 'WARNING' not in x and 'will be ignored' not in x).strip()
    norm_ = (lambda t: ''.join(sorted(t))) if deps else (lambda t: t)
    eq(norm_(body(out)), norm_(body(want)), f'report of {argv}')
    return None


@case('C19', 'C16', gen=g_cli)
def dispatch(inp):
    """Every format shows the map that the raw format prints for the same options."""
    ma, mb = setup2(inp)
    opts = (['--show-unused'] if inp['unused'] else []) + (['--use-flash-size'] if inp['flash'] else [])
    opts += (['--unify'] if inp['unify'] else []) + (['--diff', mb] if inp['deps'] else [])
    fmt = 'table' if inp['fmt'] == 'text' else inp['fmt']
    c, o, e = cli([ma] + opts + ['--format', 'raw'])
    eq(c, 0, 'exit code')
    mm = json.loads(o[o.index('{'):])
    extra = (['--no-abbrev'] if inp['noabbrev'] and not inp['unify'] else [])
    c, o, e = cli([ma] + opts + extra + ['--show-unchanged', '--format', inp['fmt']])
    eq(c, 0, f'exit code {e}')
    a = {'diff': mb if inp['deps'] else None, 'show_unchanged': True, 'abbrev': not extra, 'archives': False, 'files': False,
         'archive_details': None, 'unify': inp['unify'], 'sort': '1', 'sort_diff': False, 'sort_reverse': True}
    if fmt == 'json2':
        got = json.loads(o[o.index('{'):])
        eq({x['name']: (x['total'], x['used']) for x in got['layout']},
           {t: (v['size'], v['used']) for t, v in mm['memory_types'].items()}, 'json2 layout')
        eq(got['total_size'], mm['image_size'], 'total_size')
    elif fmt in ('table', 'csv'):
        body = o
        if fmt == 'csv':
            body = o[o.index('"Memory'):]
        head, rows = rows_of_table(body) if fmt == 'table' else rows_of_csv(body)
        check_summary_rows(mm, a, head, rows, fmt == 'table')
    elif fmt == 'tree':
        # no symbols are loaded for the tree report of all levels
        m2 = copy.deepcopy(mm)
        for t in m2['memory_types'].values():
            for s in t['sections'].values():
                for x in s['archives'].values():
                    for ob in x['object_files'].values():
                        ob['symbols'] = {}
        check_tree(m2, a, o[o.index('Memory Types'):])


# ------------------------------------------------------------------ C15
FAULTS = {'runtime': RuntimeError, 'interrupt': KeyboardInterrupt, 'os': OSError, 'memory': MemoryError, 'value': ValueError,
          'memmap': None}
_watch = {'path': None, 'open': False, 'on': False}


def _audit(event, args):
    if not _watch['on']:
        return
    if event == 'open' and isinstance(args[0], (str, bytes, os.PathLike)):
        mode, flags = args[1], args[2]
        if os.path.abspath(os.fsdecode(args[0])) == _watch['path'] and (
                (isinstance(mode, str) and any(c in mode for c in 'wax+')) or
                (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR))):
            _watch['open'] = True
    elif event in ('os.rename', 'os.replace') and os.path.abspath(os.fsdecode(args[1])) == _watch['path']:
        _watch['open'] = True


sys.addaudithook(_audit)

OPTS = [[], ['--archives'], ['--files'], ['--archive-details', 'libmain.a'], ['--archive-details', 'libnope.a'], ['--archive-dependencies'],
        ['--sort', '0'], ['--sort', 'nope'], ['--sort', '77'], ['--unify', '--archives'], ['--no-abbrev'], ['--diff', 'B'], ['--diff', 'MISSING'],
        ['--lto'], ['--archives', '--sort', '99'], ['--filter', 'lib', '--archives'], ['--show-unused'], ['--unify', '--no-abbrev']]


def g_out(rng):
    p = project.project(rng, crt=rng.random() < 0.7, nsec=4)
    return {'pr': p, 'opts': rng.choice(OPTS), 'fmt': rng.choice(['table', 'text', 'csv', 'json2', 'raw', 'tree', 'dot']),
            'old': rng.choice([None, 'previous report\n', '']), 'sub': rng.random() < 0.2,
            'break': rng.choice([None] * 5 + ['garbage', 'missing', 'badtarget']),
            'fault': rng.choice([None, None, None] + list(FAULTS)), 'at': rng.random()}


def run_cli(argv, fault=None, at=None, count=None):
    """Runs the command; raises `fault` at the at-th call made by the package. Returns (exit, stdout, calls, fired)."""
    from click.testing import CliRunner
    import esp_idf_size
    main = fn('main', 'main')
    root = os.path.dirname(os.path.abspath(esp_idf_size.__file__)) + os.sep
    n = [0]
    fired = [False, False]

    def prof(frame, event, arg):
        if event not in ('call', 'c_call'):
            return
        if not frame.f_code.co_filename.startswith(root) or frame.f_code.co_name == '__del__':
            return
        n[0] += 1
        if at is not None and n[0] == at:
            sys.setprofile(None)
            fired[0] = True
            fired[1] = _watch['open']
            raise fault('injected fault')
    _watch['open'] = False
    _watch['on'] = True
    try:
        sys.setprofile(prof)
        try:
            r = CliRunner().invoke(main, argv)
            code, out = r.exit_code, r.stdout
            exc = r.exception
        except BaseException as e:  # the runner lets some of them through
            code, out, exc = 1, '', e
    finally:
        sys.setprofile(None)
        _watch['on'] = False
    return code, out, n[0], fired


@case('C15', gen=g_out)
def output_file(inp):
    d = os.path.join(SCRATCH, 'out')
    shutil.rmtree(d, ignore_errors=True)
    pr = inp['pr']
    if inp['break'] == 'badtarget':
        pr = dict(pr, target='esp99x')
    m = project.write(pr, os.path.join(d, 'p'))
    pb = project.write(dict(inp['pr'], text_seed=pr['text_seed'] + 1), os.path.join(d, 'q'))
    if inp['break'] == 'garbage':
        with open(m, 'w') as f:
            f.write('x')
    if inp['break'] == 'missing':
        os.remove(m)
    o = os.path.join(d, 'sub', 'dir', 'o.txt') if inp['sub'] and inp['old'] is None else os.path.join(d, 'o.txt')
    if inp['old'] is not None:
        with open(o, 'w') as f:
            f.write(inp['old'])
    opts = [pb if x == 'B' else os.path.join(d, 'nope.map') if x == 'MISSING' else x for x in inp['opts']]
    argv = [m, '--format', inp['fmt']] + opts
    _watch['path'] = os.path.abspath(o)

    def content():
        if not os.path.exists(o):
            return None
        with open(o, encoding='utf-8') as f:
            return f.read()
    code0, printed, calls0, _ = run_cli(argv)
    o1 = inp['opts']
    if inp['break'] or o1 == ['--diff', 'MISSING'] or (inp['fmt'] == 'dot' and '--archive-dependencies' not in o1) or (
            inp['fmt'] in ('table', 'text', 'csv') and (o1[:1] == ['--sort'] or o1 == ['--archive-details', 'libnope.a'])):
        need(code0 != 0, f'{argv} does not fail')
    eq(content(), inp['old'], 'output file after a run without it')
    fault = None
    at = None
    if inp['fault']:
        fault = FAULTS[inp['fault']] or fn('memorymap', 'MemMapException')
        # the run with an output file makes a few calls more
        at = 1 + int(inp['at'] * (calls0 + 12))
    code, out, calls, fired = run_cli(argv + ['-o', o], fault, at)
    got = content()
    if fired[0]:
        if fired[1]:
            return None   # fault while the finished report is being written
        if code == 0 and tolerated(fault) and got != inp['old']:
            return None   # a failure the program may handle, such as an optional file that cannot be read
        eq(got, inp['old'], f'output file after {inp["fault"]} at call {at} of {calls0}')
        need(code != 0, f'exit code 0 after {inp["fault"]} at call {at}')
        return None
    eq(code, code0, 'exit code with an output file')
    if code == 0:
        eq(canon_out(got, inp), canon_out(printed, inp), 'content of the output file')
    else:
        eq(got, inp['old'], f'output file after a failed run ({out[-200:]})')
        need(got is None or os.path.exists(o), 'output file vanished')
    return None


def tolerated(fault):
    return fault not in (KeyboardInterrupt, RuntimeError, MemoryError)


def canon_out(s, inp):
    """Dependencies are collected in sets, so their order may differ between two runs."""
    if s is None:
        return None
    if '--archive-dependencies' in inp['opts']:
        return sorted(s)
    return s


@case('C15', gen=g_out, slow=True)
def every_fault(inp):
    """A fault at every call the program makes, one after the other (every 7th for long runs)."""
    inp = dict(inp, **{'break': None, 'opts': inp['opts'] if 'nope' not in str(inp['opts']) else []})
    d = os.path.join(SCRATCH, 'ev')
    shutil.rmtree(d, ignore_errors=True)
    pr = dict(inp['pr'], osecs=inp['pr']['osecs'][:2], elf=None, regions=inp['pr']['regions'][-3:])
    m = project.write(pr, d)
    o = os.path.join(d, 'o.txt')
    old = inp['old'] or 'old'
    with open(o, 'w') as f:
        f.write(old)
    _watch['path'] = os.path.abspath(o)
    opts = [m if x == 'B' else os.path.join(d, 'nope.map') if x == 'MISSING' else x for x in inp['opts']]
    argv = [m, '--format', inp['fmt']] + opts + ['-o', o]
    _, _, calls, _ = run_cli(argv)
    with open(o, 'w') as f:
        f.write(old)
    fault = FAULTS[inp['fault'] or 'interrupt'] or fn('memorymap', 'MemMapException')
    off = int(inp['at'] * 1000)
    step = max(1, calls // 60)
    for at in list(range(1 + off % step, calls, step)) + list(range(max(1, calls - 40), calls + 1)):
        code, out, _, fired = run_cli(argv, fault, at)
        if not fired[0] or fired[1]:
            with open(o, 'w') as f:
                f.write(old)
            continue
        with open(o) as f:
            got = f.read()
        if code == 0 and tolerated(fault) and got != old:
            with open(o, 'w') as f:
                f.write(old)
            continue
        eq(got, old, f'output file after {fault.__name__} at call {at} of {calls}')
        need(code != 0, f'exit code 0 after {fault.__name__} at call {at} of {calls}')
