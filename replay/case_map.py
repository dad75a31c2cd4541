"""C13 parsing, C18 files and passed objects, whole get() runs for C01-C04 C11 C12 C17."""
import copy
import json
import os
import random
import shutil
import tempfile

import gen
import project
from core import case, eq, fn, need

SCRATCH = tempfile.mkdtemp(prefix='verif-map-')
import atexit  # noqa: E402
atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))


def put(name, data):
    p = os.path.join(SCRATCH, name)
    with open(p, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode())
    return p


# ------------------------------------------------------------------ C13
def g_map(rng):
    pr = project.project(rng, elf=False, crt=rng.random() < 0.7, nsec=5)
    arcs = ['C:/Program Files (x86)/lib a.a', 'my lib/libz.a', 'esp-idf/x/liby.a', 'l(1)/libq.a', 'libc.a',
            'two  spaces/libs.a', 'line\u2028separator/libl.a', 'form\x0cfeed/libf.a', 'no\xa0break/libn.a', 'next\x85line/libx.a']
    obs = ['a b.o', 'net.c.obj', 'x(1).obj', 'lib_a-foo.o', 'src dir/main.c.obj']
    for o in pr['osecs']:
        for ln in o['lines']:
            if ln[0] == 'isec' and rng.random() < 0.5:
                if ln[1]['archive'] != '(exe)':
                    ln[1]['archive'] = rng.choice(arcs)
                    ln[1]['object_file'] = rng.choice([x for x in obs if '(' not in x])
                else:
                    ln[1]['object_file'] = rng.choice(['/b/x y.o', 'main.o', 'a(b)c.o'])
    if rng.random() < 0.3:
        pr['osecs'].append({'name': '.xt.prop', 'address': 0, 'size': 0, 'empty': True,
                            'lines': [['note', ' *(.xt.prop .xt.prop.* .gnu.linkonce.prop.*)']] if rng.random() < 0.5 else []})
        if rng.random() < 0.5:
            pr['osecs'].insert(0, pr['osecs'].pop())
    return pr


def norm(isecs):
    return [{k: i[k] for k in ('name', 'address', 'size', 'archive', 'object_file', 'fill')} for i in isecs]


def strip_empty_headers(pr, text):
    """Output sections without address and size are printed as their bare name."""
    out = []
    names = [o['name'] for o in pr['osecs'] if o.get('empty')]
    skip = False
    for line in text.split('\n'):
        w = line.split()
        if w and w[0] in names and line.startswith('.'):
            line = w[0]
            skip = len(w) == 1
            out.append(line)
            continue
        if skip:
            skip = False
            continue
        out.append(line)
    return '\n'.join(out)


@case('C13', gen=g_map)
def round_trip(inp):
    M = fn('mapfile', 'MapFile', 1)
    text = strip_empty_headers(inp, project.text(inp))
    m = M(put('rt.map', text))
    eq(m.memory_regions, inp['regions'], 'memory regions')
    eq(m.target, inp['target'], 'target')
    want = project.parse(inp['osecs'])
    eq([(s['name'], s['address'], s['size']) for s in m.sections], [(s['name'], s['address'], s['size']) for s in want],
       'output sections')
    for a, b in zip(m.sections, want):
        # fill behind input sections that are all empty has no input section to belong to
        eq(norm(a['input_sections']), norm(b['input_sections']), f'input sections of {b["name"]}')
    crt = {k: [tuple(r) for r in v] for k, v in inp['crt'].items()} if inp['crt'] else None
    got = m.cross_reference_table
    eq({k: [tuple(r) for r in v] for k, v in got.items()} if got else None, crt, 'cross references')


def g_broken(rng):
    pr = project.project(rng, elf=False, nsec=4)
    return {'pr': pr, 'how': rng.choice(['region', 'osec', 'isec', 'cont', 'fill', 'noheader', 'nomem', 'nolink', 'binary', 'missing',
                                        'number', 'reference']),
            'k': rng.randint(0, 99)}


@case('C13', gen=g_broken)
def malformed(inp):
    M = fn('mapfile', 'MapFile', 1)
    Exc = fn('mapfile', 'MapFileException')
    pr, how = inp['pr'], inp['how']
    lines = project.text(pr).split('\n')
    start = lines.index('Linker script and memory map')

    def pick(f):
        ks = [k for k, x in enumerate(lines) if f(k, x)]
        return ks[inp['k'] % len(ks)] if ks else None
    k = -1
    if how == 'region':
        k = pick(lambda k, x: k < start and x.startswith('seg'))
        if k is not None:
            w = lines[k].split()
            lines[k] = ' '.join([w[0], w[1]] if inp['k'] % 2 else w[:3] + ['a', 'b'])
    elif how == 'osec':
        k = pick(lambda k, x: k > start and x.startswith('.') and len(x.split()) == 3)
        if k is not None:
            lines[k] = lines[k] + ' 0x1' if inp['k'] % 2 else ' '.join(lines[k].split()[:2])
    elif how == 'isec':
        k = pick(lambda k, x: k > start and x.startswith(' .') and len(x.split()) >= 4)
        if k is not None:
            lines[k] = ' ' + ' '.join(lines[k].split()[:2 + inp['k'] % 2])
    elif how == 'cont':
        k = pick(lambda k, x: k > start and x.startswith(' .') and len(x.split()) == 1)
        if k is not None:
            lines[k + 1] = ' ' * 16 + ' '.join(lines[k + 1].split()[:1 + inp['k'] % 2])
    elif how == 'fill':
        ks = []
        seen = False
        for j, x in enumerate(lines):
            if j > start and x.startswith('.'):
                seen = False
            seen = seen or x.startswith((' .', ' COMMON'))
            if seen and x.startswith(' *fill*'):
                ks.append(j)
        k = ks[inp['k'] % len(ks)] if ks else None
        if k is not None:
            lines[k] = ' '.join(lines[k].split()[:2]) if inp['k'] % 2 else lines[k] + ' 00'
            lines[k] = ' ' + lines[k].strip()
    elif how == 'noheader':
        lines = [x for x in lines if not x.startswith('Name')]
    elif how == 'nomem':
        lines = [x for x in lines if not x.startswith('Memory Configuration')]
    elif how == 'nolink':
        lines = lines[:start]
    elif how == 'number':
        k = pick(lambda k, x: len(x.split()) in (3, 4) and x.split()[1].startswith('0x') and (x.startswith('seg') if k < start else x.startswith(('.', ' .'))))
        if k is not None:
            w = lines[k].split()
            w[1 + inp['k'] % 2] += 'h'
            lines[k] = (' ' if lines[k].startswith(' ') else '') + ' '.join(w)
    elif how == 'reference':
        k = pick(lambda k, x: 'Cross Reference Table' in lines[:k] and len(x.split()) == 2 and not x.startswith((' ', 'Symbol', 'Cross')))
        if k is not None:
            lines[k] = lines[k].split()[0]
    if k is None:
        return None
    p = put('bad.map', '\n'.join(lines))
    if how == 'binary':
        p = put('bad.map', b'Memory Configuration\n\xff\xfe\x80\n')
    if how == 'missing':
        p = os.path.join(SCRATCH, 'nope', 'x.map')
    try:
        M(p)
    except Exc as e:
        if how in ('noheader', 'nomem', 'nolink'):
            need(os.path.basename(p) in str(e), 'error does not name the file:', e)
        return None
    return f'malformed map ({how}) was accepted: {lines[k]!r}'


def g_valid(rng):
    secs = gen.osections(rng, symbols=False)
    shift = None
    if rng.random() < 0.5:
        big = [(s, i) for s in secs for k, i in enumerate(s['input_sections']) if i['size'] and any(q['size'] for q in s['input_sections'][:k])]
        if big:
            s, i = rng.choice(big)
            i['address'] += rng.choice([1, 5, -1])
            shift = True
    return {'sections': secs, 'bad': shift}


@case('C13', gen=g_valid)
def validation(inp):
    M = fn('mapfile', 'MapFile')
    Exc = fn('mapfile', 'MapFileException')
    m = M.__new__(M)
    m.sections = copy.deepcopy(inp['sections'])
    for s in m.sections:
        if s['input_sections'] and not s['input_sections'][0]['size'] and s['input_sections'][0]['fill']:
            return None   # leading empty input section with fill: not covered
    # the parser moves the fill of empty input sections to the one before
    for s in m.sections:
        last = None
        for i in s['input_sections']:
            if i['size']:
                last = i
            elif i['fill']:
                if last:
                    last['fill'] += i['fill']
                else:
                    return None
                i['fill'] = 0
    try:
        m.validate()
    except Exc:
        need(inp['bad'], 'contiguous input sections were rejected')
        return None
    need(not inp['bad'], 'a misplaced input section was accepted')
    return None


# ------------------------------------------------------------------ whole runs
def g_e2e(rng):
    return {'pr': project.project(rng, crt=rng.random() < .3), 'symbols': rng.random() < 0.7, 'lto': rng.random() < 0.25}


def compare(mm, pr, image, mts, symbols, elf, prop=None):
    """The part of the map that `prop` is about (everything if None)."""
    if prop in (None, 'C17', 'C18'):
        eq(mm['image_size'], image, 'image size')
    if mts is None:
        return
    got, want = project.prune(mm['memory_types'], elf), project.prune(mts, elf)
    if prop == 'C17':
        def names(m):
            return sorted({n[:-len('_overflow')] if n.endswith('_overflow') else n for t in m.values() for n in t['sections']})
        eq(names(got), names(want), 'output sections')
        return
    eq(sorted(mm['memory_types']), sorted(mts), 'memory types')
    for t in want:
        if prop in (None, 'C02', 'C03', 'C18'):
            eq(got[t]['size'], want[t]['size'], f'size of {t}')
        if prop != 'C04':
            eq(got[t]['used'], want[t]['used'], f'used of {t}')
        if prop == 'C02':
            continue
        if prop == 'C03':
            eq(got[t]['used'], sum(s['size'] for s in mm['memory_types'][t]['sections'].values()), f'used of {t} against its sections')
        if prop != 'C04':
            eq(sorted(got[t]['sections']), sorted(want[t]['sections']), f'sections of {t}')
        for s in want[t]['sections']:
            if s not in got[t]['sections']:
                continue
            x, y = got[t]['sections'][s], want[t]['sections'][s]
            if prop == 'C03':
                x, y = [(v['abbrev_name'], v['size'], v['size_diff'], sum(a['size'] for a in v['archives'].values())) for v in (x, y)]
            elif prop == 'C04':
                x, y = x['archives'], y['archives']
            eq(x, y, f'{t} {s}')


def fresh(name):
    d = os.path.join(SCRATCH, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def _whole(prop):
    def whole_map(inp):
        get = fn('memorymap', 'get')
        pr = inp['pr']
        d = fresh('e2e')
        m = project.write(pr, d)
        mm = get(m, load_symbols=inp['symbols'], use_dwarf=inp['lto'])
        image, mts = project.memory_types(pr, symbols=inp['symbols'], lto=inp['lto'])
        compare(mm, pr, image, mts, inp['symbols'], bool(pr['elf']), prop)
    case(prop, gen=g_e2e)(whole_map)


for _p in ('C01', 'C02', 'C03', 'C04', 'C11', 'C12', 'C17'):
    _whole(_p)


# ------------------------------------------------------------------ C18
def g_files(rng):
    a = project.project(rng, nsec=4)
    b = project.project(rng, nsec=4)
    return {'a': a, 'b': b, 'desc': rng.choice(['match', 'match', 'other', 'none', 'garbage', 'samename', 'subdir', 'prefix', 'shorter', 'case']),
            'desc_target': rng.choice([a['target'], rng.choice(project.CHIPS)]),
            'elf': rng.choice(['own', 'own', 'none', 'garbage', 'truncated', 'empty']),
            'sdk': rng.choice(['none', 'lto', 'nolto', 'nokey', 'garbage']),
            'pass_map': rng.random() < 0.3, 'pass_elf': rng.choice([None, None, None, 'a', 'b']),
            'dwarf': rng.choice([None, None, None, True, False]),
            'break': rng.choice([None] * 8 + ['map_missing', 'map_garbage', 'bad_target', 'no_target', 'bad_chip'])}


@case('C18', gen=g_files)
def files(inp):
    get = fn('memorymap', 'get')
    Exc = fn('memorymap', 'MemMapException')
    Map = fn('mapfile', 'MapFile', 1)
    Elf = fn('elf', 'Elf', 1)
    a, b = inp['a'], inp['b']
    d = fresh('files')
    own = dict(a, elf=a['elf'] if inp['elf'] != 'none' else None)
    if inp['break'] == 'no_target':
        own = dict(own, target='', style=9)
    if inp['break'] == 'bad_target':
        own = dict(own, target='esp99x')
    if inp['break'] == 'bad_chip':
        own = dict(own, target=os.path.join(d, 'chip'))
        with open(own['target'] + '.yaml', 'w') as f:
            f.write('DRAM: [1\nx: }')
    m = project.write(own, d, 'app', desc=False)
    app_elf = {'match': 'app.elf', 'other': 'other.elf', 'samename': 'app.elf.elf', 'subdir': 'sub/app.elf',
               'prefix': 'app_test.elf', 'shorter': 'ap.elf', 'case': 'App.elf'}.get(inp['desc'])
    if app_elf:
        with open(os.path.join(d, 'project_description.json'), 'w') as f:
            f.write(project.desc_json(inp['desc_target'], app_elf))
        if app_elf != 'app.elf' and b['elf']:
            os.makedirs(os.path.dirname(os.path.join(d, app_elf)), exist_ok=True)
            project.elf_file(b['elf'], os.path.join(d, app_elf))
    elif inp['desc'] == 'garbage':
        with open(os.path.join(d, 'project_description.json'), 'w') as f:
            f.write('{"target": ')
    if own['elf'] and inp['elf'] in ('garbage', 'truncated', 'empty'):
        p = os.path.join(d, 'app.elf')
        data = open(p, 'rb').read()
        with open(p, 'wb') as f:
            f.write({'garbage': b'\x7fELX' + data[4:], 'truncated': data[:40], 'empty': b''}[inp['elf']])
    if inp['sdk'] != 'none':
        os.makedirs(os.path.join(d, 'config'))
        with open(os.path.join(d, 'config', 'sdkconfig.json'), 'w') as f:
            f.write({'lto': '{"COMPILER_LTO_LINKTIME": true}', 'nolto': '{"COMPILER_LTO_LINKTIME": false}', 'nokey': '{"A": 1}',
                     'garbage': 'nope'}[inp['sdk']])
    desc_used = inp['desc'] in ('match', 'subdir')
    # passed objects
    kw = {}
    base = own
    if inp['pass_map']:
        db = fresh('other')
        mb = project.write(b, db, 'thing', desc=False)
        kw['map_file'] = Map(mb)
        base = b
    if inp['pass_elf']:
        src = a if inp['pass_elf'] == 'a' else b
        if src['elf']:
            pe = os.path.join(SCRATCH, 'passed.elf')
            project.elf_file(src['elf'], pe)
            kw['elf'] = Elf(pe)
            elf = src['elf']
        else:
            elf = None
    if not kw.get('elf'):
        elf = None
        if inp['desc'] == 'match' and inp['elf'] == 'own':
            elf = own['elf']
        elif inp['desc'] == 'subdir':
            elf = b['elf']
    fail = None
    if inp['break'] == 'map_missing' and not inp['pass_map']:
        os.remove(m)
        fail = 'map'
    if inp['break'] == 'map_garbage' and not inp['pass_map']:
        with open(m, 'w') as f:
            f.write('nothing to see\n')
        fail = 'map'
    target = inp['desc_target'] if desc_used else base['target']
    if target in ('', 'esp99x', os.path.join(d, 'chip')):
        fail = fail or 'target'
    lto = inp['dwarf'] if inp['dwarf'] is not None else inp['sdk'] == 'lto'
    base = dict(base, elf=elf)
    if elf and not fail:
        # symbols of another project do not fit
        use_symbols = elf is (b if inp['pass_map'] else own)['elf'] and (b if inp['pass_map'] else own)['elf'] is not None
        if not any(s['input_sections'] for s in project.select(
                project.expand(project.parse(base['osecs']), elf) if lto and desc_used else project.parse(base['osecs']),
                project.alloc_headers(elf))):
            use_symbols = False
    else:
        use_symbols = True
    cwd = os.getcwd()
    arg = m
    try:
        if inp['sdk'] == 'lto' or inp['desc'] == 'match':
            os.chdir(d)
            arg = 'app.map'
        try:
            mm = get(arg, use_symbols, inp['dwarf'], **kw)
        except Exc as e:
            need(fail, 'unexpected error:', e)
            return None
    finally:
        os.chdir(cwd)
    need(not fail, f'a problem with the {fail} was not reported')
    eq(mm['target'], target, 'target')
    eq([mm.get(k) for k in ('target_diff', 'image_size_diff', 'project_path_diff')], ['', 0, ''], 'differences of a map that is not compared')
    eq(os.path.realpath(mm['project_path']), os.path.realpath(m), 'project path')
    need(os.path.isabs(mm['project_path']), 'project path is not absolute')
    if lto and elf and desc_used and elf is not (b if inp['pass_map'] else own)['elf']:
        eq(mm['image_size'], project.expected(base, symbols=use_symbols, target=target)[0], 'image size')
        return None   # symbols of another project expand the sections in ways not described by C12
    image, mts = project.memory_types(base, symbols=use_symbols, lto=lto, target=target, desc=desc_used)
    compare(mm, base, image, mts, use_symbols, bool(elf))
    return None
