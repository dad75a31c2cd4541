"""C05 C06 C07 C08 C09 C14 C20: operations on memory maps and summaries."""
import copy
import fnmatch
import types

import gen
from core import Bad, case, eq, fn, need

KIDS = {'memory_types': 'sections', 'sections': 'archives', 'archives': 'object_files', 'object_files': 'symbols',
        'symbols': None}


# ------------------------------------------------------------------ C05
def g_diff(rng):
    a = gen.memmap(rng)
    b = gen.memmap_mutate(rng, a) if rng.random() < 0.85 else copy.deepcopy(a)
    if rng.random() < 0.3:
        a, b = b, a
    return {'cur': a, 'ref': b}


def diff_tree(a, b, level):
    out = {}
    for k in list(a) + [k for k in b if k not in a]:
        x, y = a.get(k), b.get(k)
        n = {}
        for f in ('size', 'used'):
            if f == 'used' and level != 'memory_types':
                continue
            n[f] = x[f] if x else 0
            n[f + '_diff'] = (x[f] if x else 0) - (y[f] if y else 0)
        if level != 'memory_types':
            n['abbrev_name'] = (x or y)['abbrev_name']
        sub = KIDS[level]
        if sub:
            n[sub] = diff_tree(x[sub] if x else {}, y[sub] if y else {}, sub)
        out[k] = n
    return out


def check_diff(cur, ref, out):
    eq(out['target_diff'], ref['target'], 'target_diff')
    eq(out['project_path_diff'], ref['project_path'], 'project_path_diff')
    eq(out['image_size_diff'], cur['image_size'] - ref['image_size'], 'image_size_diff')
    for f in ('version', 'target', 'project_path', 'image_size'):
        eq(out[f], cur[f], f)
    eq(out['memory_types'], diff_tree(cur['memory_types'], ref['memory_types'], 'memory_types'), 'memory types of the difference')


@case('C05', gen=g_diff)
def diff_maps(inp):
    f = fn('memorymap', 'diff')
    a, b = copy.deepcopy(inp['cur']), copy.deepcopy(inp['ref'])
    out = f(a, b)
    check_diff(inp['cur'], inp['ref'], out)
    eq(a, inp['cur'], 'current map after diff')
    eq(b, inp['ref'], 'reference map after diff')
    same = f(a, a)

    def zero(n):
        if isinstance(n, dict):
            for k, v in n.items():
                if str(k).endswith('_diff') and isinstance(v, int):
                    eq(v, 0, f'{k} of a self comparison')
                zero(v)
    zero(same['memory_types'])
    eq(same['image_size_diff'], 0, 'image size of a self comparison')


# ------------------------------------------------------------------ C06
def g_unify(rng):
    return {'map': gen.memmap(rng, diff=rng.random() < 0.5, maxkids=4)}


def unify_tree(groups, level):
    """groups: list of original dictionaries standing for one unified parent"""
    out = {}
    sub = KIDS[level]
    kids = {}
    for g in groups:
        for k, v in g.items():
            a = v['abbrev_name']
            n = out.setdefault(a, {'abbrev_name': a, 'size': 0, 'size_diff': 0})
            n['size'] += v['size']
            n['size_diff'] += v['size_diff']
            if sub:
                kids.setdefault(a, []).append(v[sub])
    for a in out:
        if sub:
            out[a][sub] = unify_tree(kids[a], sub)
    return out


@case('C06', gen=g_unify)
def unify_map(inp):
    f = fn('memorymap', 'unify', 1)
    mm = copy.deepcopy(inp['map'])
    f(mm)
    b = inp['map']
    for k in b:
        if k != 'memory_types':
            eq(mm[k], b[k], k)
    eq(set(mm), set(b), 'fields of the map')
    eq(sorted(mm['memory_types']), sorted(b['memory_types']), 'memory types')
    for t, v in b['memory_types'].items():
        got = mm['memory_types'][t]
        eq({k: x for k, x in got.items() if k != 'sections'}, {k: x for k, x in v.items() if k != 'sections'}, f'memory type {t}')
        eq(got['sections'], unify_tree([v['sections']], 'sections'), f'unified sections of {t}')


# ------------------------------------------------------------------ C07
def g_prune(rng):
    mm = gen.memmap(rng, diff=rng.random() < 0.7)
    arcs = [a['abbrev_name'] for t in mm['memory_types'].values() for s in t['sections'].values() for a in s['archives'].values()]
    mode = rng.choice(['none', 'archives', 'files', 'details', 'details'])
    args = {'diff': rng.choice([None, 'x.map']), 'show_unchanged': rng.random() < 0.3,
            'archive_details': (rng.choice(arcs) if arcs and rng.random() < 0.8 else 'libzz.a') if mode == 'details' else None,
            'archives': mode == 'archives', 'files': mode == 'files'}
    for t in mm['memory_types'].values():
        if rng.random() < 0.2:
            t['used_diff'] = 0
        for s in t['sections'].values():
            if rng.random() < 0.2:
                s['archives'] = {}
    return {'map': mm, 'args': args}


@case('C07', gen=g_prune)
def remove_unused(inp):
    f = fn('memorymap', 'remove_unused', 1)
    mm = copy.deepcopy(inp['map'])
    f(mm)
    want = copy.deepcopy(inp['map'])
    want['memory_types'] = {}
    for t, v in inp['map']['memory_types'].items():
        if not v['used']:
            continue
        v = copy.deepcopy(v)
        v['sections'] = {k: s for k, s in v['sections'].items() if s['archives']}
        v['used'] = sum(s['size'] for s in v['sections'].values())
        want['memory_types'][t] = v
    eq(mm, want, 'map without unused items')


@case('C07', gen=g_prune)
def ignore_flash(inp):
    f = fn('memorymap', 'ignore_flash_size', 1)
    mm = copy.deepcopy(inp['map'])
    f(mm)
    want = copy.deepcopy(inp['map'])
    for t, v in want['memory_types'].items():
        if 'flash' in t.lower():
            v['size'] = 0
    eq(mm, want, 'map with ignored flash size')


@case('C07', gen=g_prune)
def trim_map(inp):
    f = fn('memorymap', 'trim', 2)
    mm, args = copy.deepcopy(inp['map']), copy.deepcopy(inp['args'])
    f(mm, args)
    a = inp['args']

    def ch(d):
        return not a['diff'] or a['show_unchanged'] or d != 0
    want = copy.deepcopy(inp['map'])
    want['memory_types'] = {}
    for t, v in copy.deepcopy(inp['map'])['memory_types'].items():
        if not ch(v['used_diff']):
            continue
        want['memory_types'][t] = v
        v['sections'] = {k: s for k, s in v['sections'].items() if ch(s['size_diff'])}
        for s in v['sections'].values():
            s['archives'] = {k: x for k, x in s['archives'].items() if ch(x['size_diff']) and
                             (not a['archive_details'] or x['abbrev_name'] == a['archive_details'])}
            for x in s['archives'].values():
                if a['archives'] and not a['archive_details']:
                    x['object_files'] = {}
                    continue
                x['object_files'] = {k: o for k, o in x['object_files'].items() if ch(o['size_diff'])}
                for o in x['object_files'].values():
                    if a['files'] and not a['archive_details']:
                        o['symbols'] = {}
                        continue
                    o['symbols'] = {k: y for k, y in o['symbols'].items() if ch(y['size_diff'])}
    eq(mm, want, 'trimmed map')


# ------------------------------------------------------------------ C08
def g_summ(rng):
    unify = rng.random() < 0.3
    mm = gen.memmap(rng, diff=rng.random() < 0.5, maxkids=4, unified=unify, consistent=False)
    arcs = [a['abbrev_name'] for t in mm['memory_types'].values() for s in t['sections'].values()
            for a in s['archives'].values() if any(o['symbols'] for o in a['object_files'].values())]
    det = rng.choice(arcs) if arcs and rng.random() < 0.85 else 'libzz.a'
    return {'map': mm, 'args': {'unify': unify, 'archive_details': det, 'diff': None, 'show_unchanged': False,
                                'abbrev': True, 'filter': None}}


def summ(mm, leaf, unify, details=None):
    out = {}

    def add(key, ab, t, s, item):
        if key not in out:
            out[key] = {'abbrev_name': ab, 'size': 0, 'size_diff': 0, 'memory_types': {
                tt: {'size': 0, 'size_diff': 0, 'sections': {
                    ss: {'size': 0, 'size_diff': 0, 'abbrev_name': si['abbrev_name']} for ss, si in ti['sections'].items()}}
                for tt, ti in mm['memory_types'].items()}}
        e = out[key]
        for f in ('size', 'size_diff'):
            e[f] += item[f]
            e['memory_types'][t][f] += item[f]
            e['memory_types'][t]['sections'][s][f] += item[f]
    for t, ti in mm['memory_types'].items():
        for s, si in ti['sections'].items():
            for a, ai in si['archives'].items():
                if leaf == 'archives':
                    add(a, ai['abbrev_name'], t, s, ai)
                    continue
                for o, oi in ai['object_files'].items():
                    if leaf == 'files':
                        add(oi['abbrev_name'] if unify else f'{a}:{o}', gen.basename(o), t, s, oi)
                        continue
                    if ai['abbrev_name'] != details:
                        continue
                    for y, yi in oi['symbols'].items():
                        add(yi['abbrev_name'] if unify else f'{a}:{o}:{y}', y, t, s, yi)
    return out


@case('C08', gen=g_summ)
def summaries(inp):
    mm = copy.deepcopy(inp['map'])
    args = inp['args']
    for leaf, name in (('archives', 'get_archives_summary'), ('files', 'get_object_files_summary'), ('symbols', 'get_symbols_summary')):
        f = fn('memorymap', name, 2)
        want = summ(inp['map'], leaf, args['unify'], args['archive_details'])
        try:
            out = f(mm, copy.deepcopy(args))
        except SystemExit as e:
            need(leaf == 'symbols' and not want and e.code, f'{leaf} summary failed')
            continue
        need(leaf != 'symbols' or want, 'no error for an unknown archive')
        for k, v in out.items():
            eq(v['size'], sum(x['size'] for x in v['memory_types'].values()), f'{leaf} entry {k} against its memory types')
            for t, x in v['memory_types'].items():
                eq(x['size'], sum(z['size'] for z in x['sections'].values()), f'{leaf} entry {k} type {t} against its sections')
                eq(x['size_diff'], sum(z['size_diff'] for z in x['sections'].values()), f'{leaf} entry {k} type {t} diff')
        eq(out, want, f'{leaf} summary')
        eq(mm, inp['map'], 'memory map after the summary')


# ------------------------------------------------------------------ C09
def g_sort(rng):
    mm = gen.memmap(rng, diff=True, maxkids=4, consistent=False)
    return {'map': mm, 'summary': gen.summary(rng, diff=True),
            'args': {'sort_diff': rng.random() < 0.5, 'sort_reverse': rng.random() < 0.5, 'diff': 'x', 'show_unchanged': True,
                     'archives': False, 'files': False, 'archive_details': None, 'abbrev': rng.random() < 0.5, 'filter': None,
                     'sort': '1', 'unify': False},
            'column': rng.randint(-4, 4), 'byname': rng.random() < 0.3}


def ordered(vals, reverse, what):
    for x, y in zip(vals, vals[1:]):
        need(x >= y if reverse else x <= y, f'{what} not ordered (reverse={reverse}):', vals)


@case('C09', gen=g_sort)
def sort_map(inp):
    f = fn('memorymap', 'sort', 2)
    mm, a = copy.deepcopy(inp['map']), inp['args']
    f(mm, copy.deepcopy(a))
    eq(mm, inp['map'], 'entries after sorting')
    kt = 'used_diff' if a['sort_diff'] else 'used'
    ks = 'size_diff' if a['sort_diff'] else 'size'

    def rec(d, level):
        ordered([v[kt if level == 'memory_types' else ks] for v in d.values()], a['sort_reverse'], level)
        for v in d.values():
            if KIDS[level]:
                rec(v[KIDS[level]], KIDS[level])
    rec(mm['memory_types'], 'memory_types')


@case('C09', gen=g_sort)
def sort_summary(inp):
    f = fn('memorymap', 'get_summary_sorted', 2)
    a = inp['args']
    out = f(copy.deepcopy(inp['summary']), copy.deepcopy(a))
    eq(out, inp['summary'], 'entries after sorting')
    k = 'size_diff' if a['sort_diff'] else 'size'
    ordered([v[k] for v in out.values()], a['sort_reverse'], 'entries')
    for v in out.values():
        ordered([x[k] for x in v['memory_types'].values()], a['sort_reverse'], 'memory types')
        for x in v['memory_types'].values():
            ordered([z[k] for z in x['sections'].values()], a['sort_reverse'], 'sections')


# ------------------------------------------------------------------ C20
def g_filter(rng):
    pats = ['lib', 'main', 'x/', 'foo.c', '[xl]ib', 'lib?ain', '*.a', '[!a]', 'a[?]b', 'net', 'zzz', 'MAIN', ':', '', 'a*b', '[x]']
    return {'summary': gen.summary(rng, diff=rng.random() < 0.7),
            'args': {'filter': rng.choice([None, rng.sample(pats, rng.randint(1, 3))]), 'abbrev': rng.random() < 0.5,
                     'diff': rng.choice([None, 'x']), 'show_unchanged': rng.random() < 0.4}}


@case('C20', gen=g_filter)
def filter_summary(inp):
    f = fn('memorymap', 'get_summary_filtered', 2)
    a = inp['args']
    out = f(copy.deepcopy(inp['summary']), copy.deepcopy(a))
    want = {}
    for k, v in inp['summary'].items():
        name = v['abbrev_name'] if a['abbrev'] else k
        if a['filter'] is None or any(fnmatch.fnmatch(name, '*' + p + '*') for p in a['filter']):
            want[k] = v
    eq(list(out.items()), list(want.items()), 'filtered entries')


@case('C20', gen=g_filter)
def unchanged_summary(inp):
    f = fn('memorymap', 'rem_summary_unchanged', 2)
    a = inp['args']
    out = f(copy.deepcopy(inp['summary']), copy.deepcopy(a))
    want = {k: v for k, v in inp['summary'].items() if not a['diff'] or a['show_unchanged'] or v['size_diff']}
    eq(list(out.items()), list(want.items()), 'entries after removal of unchanged ones')


def g_summ_diff(rng):
    x = g_summ(rng)
    x['args'].update(diff='y', show_unchanged=rng.random() < 0.3)
    return x


@case('C20', gen=g_summ_diff)
def unchanged_in_summaries(inp):
    a = inp['args']
    for leaf, name in (('archives', 'get_archives_summary'), ('files', 'get_object_files_summary'), ('symbols', 'get_symbols_summary')):
        full = summ(inp['map'], leaf, a['unify'], a['archive_details'])
        if leaf == 'symbols' and not full:
            continue
        out = fn('memorymap', name, 2)(copy.deepcopy(inp['map']), copy.deepcopy(a))
        eq(sorted(out), sorted(k for k, v in full.items() if a['show_unchanged'] or v['size_diff']), f'{leaf} entries of a diff')


# ------------------------------------------------------------------ C14
def g_deps(rng):
    arcs = ['a/liba.a', 'libb.a', 'x/libc.a', 'libd.a', '(exe)', 'y/libgone.a']
    syms = ['f', 'g', 'h', 'buf', 'k', 'lost', 'absx']
    crt = {}
    for s in rng.sample(syms, rng.randint(0, len(syms))):
        crt[s] = [[rng.choice(arcs), rng.choice(['o.o', 'p.o'])] for _ in range(rng.randint(1, 5))]
    present = rng.sample(arcs, rng.randint(0, len(arcs)))
    mm = gen.memmap(rng)
    mm['memory_types'] = {t: {'size': 9, 'size_diff': 0, 'used': 9, 'used_diff': 0, 'sections': {
        s: {'abbrev_name': gen.abbrev(s), 'size': 9, 'size_diff': 0, 'archives': {
            a: {'abbrev_name': gen.basename(a), 'size': rng.randint(0, 9), 'size_diff': 0, 'object_files': {}}
            for a in rng.sample(present, rng.randint(0, len(present)))}}
        for s in ['.text', '.data']}} for t in ['IRAM', 'DRAM']}
    elf = [{'name': s, 'value': 1, 'size': 1, 'type': rng.choice([1, 2, 2, 0, 3]),
            'shndx': 0xfff1 if s == 'absx' else rng.choice([1, 5])} for s in syms if s != 'lost' and rng.random() < 0.85]
    return {'crt': crt, 'map': mm, 'elf': elf, 'reverse': rng.random() < 0.5}


@case('C14', gen=g_deps)
def dependencies(inp):
    from case_split import FakeSym
    f = fn('deps', 'get_archives_dependencies', 4)
    mf = types.SimpleNamespace(cross_reference_table={k: [tuple(r) for r in v] for k, v in inp['crt'].items()})
    elf = types.SimpleNamespace(symbols=[FakeSym(d) for d in inp['elf']])
    args = {'dep_reverse': inp['reverse'], 'diff': None, 'show_unchanged': False, 'unify': False}
    out = f(mf, copy.deepcopy(inp['map']), elf, args)
    sizes = {}
    for t in inp['map']['memory_types'].values():
        for s in t['sections'].values():
            for a, x in s['archives'].items():
                sizes[a] = sizes.get(a, 0) + x['size']
    good = {d['name'] for d in inp['elf'] if d['type'] in (1, 2) and d['shndx'] != 0xfff1}
    rel = set()
    for sym, refs in inp['crt'].items():
        if sym not in good:
            continue
        de = refs[0][0]
        for r in refs[1:]:
            if r[0] != de and r[0] in sizes and de in sizes:
                rel.add((r[0], de, sym))
    got = []
    for x, xi in out.items():
        eq((xi['abbrev_name'], xi['size']), (gen.basename(x), sizes.get(x)), f'entry {x}')
        need(xi['archives'], 'archive', x, 'listed without any dependency')
        for y, yi in xi['archives'].items():
            eq((yi['abbrev_name'], yi['size']), (gen.basename(y), sizes.get(y)), f'entry {x} -> {y}')
            for s in yi['symbols']:
                got.append((y, x, s) if inp['reverse'] else (x, y, s))
            need(yi['symbols'], 'dependency without symbol', x, y)
    eq(sorted(got), sorted(rel), 'dependencies (user, provider, symbol)')
