"""C01 C02 C03 C04 C11 C12 C17: link map and ELF data to memory types."""
import copy
import os
import types

import gen
from core import Bad, case, eq, fn, need


# ------------------------------------------------------------------ C01
def g_split(rng):
    secs = gen.osections(rng)
    lo = min([s['address'] for s in secs], default=0)
    hi = max([s['address'] + s['size'] for s in secs], default=50)
    regs = gen.regions_over(rng, lo, hi)
    # put some boundaries exactly on interesting addresses
    pts = [i['address'] for s in secs for i in s['input_sections']]
    pts += [i['address'] + i['size'] for s in secs for i in s['input_sections']]
    pts += [y['address'] for s in secs for i in s['input_sections'] for y in i['symbols']]
    for r in regs:
        if pts and rng.random() < 0.3:
            p = rng.choice(pts)
            if p > r['origin']:
                r['length'] = p - r['origin']
    return {'sections': secs, 'regions': regs}


def parts_of(sec, regions):
    out = []
    a, end = sec['address'], sec['address'] + sec['size']
    while True:
        for r in regions:
            if r['origin'] <= a < r['origin'] + r['length']:
                if end <= r['origin'] + r['length']:
                    return out + [(a, end)]
                out.append((a, r['origin'] + r['length']))
                a = r['origin'] + r['length']
                break
        else:
            return out + [(a, end)]


def overlap(a, b, c, d):
    return max(0, min(b, d) - max(a, c))


def check_split(before, regions, result):
    by = {}
    for s in result:
        by.setdefault(s['name'], []).append(s)
    eq(sorted(by), sorted(s['name'] for s in before), 'section names')
    for s in before:
        parts = sorted(by[s['name']], key=lambda p: p['address'])
        want = parts_of(s, regions)
        eq([(p['address'], p['address'] + p['size']) for p in parts], want, f'parts of {s["name"]}')
        for p in parts:
            lo, hi = p['address'], p['address'] + p['size']
            last = hi == s['address'] + s['size']
            got, fills, syms = {}, {}, {}
            for i in p['input_sections']:
                k = (i['name'], i['archive'], i['object_file'])
                need(i['size'] >= 0 and i['fill'] >= 0, 'negative size or fill in', i)
                got[k] = got.get(k, 0) + i['size']
                fills[k] = fills.get(k, 0) + i['fill']
                for y in i['symbols']:
                    need(y['size'] >= 0, 'negative symbol size', y)
                    syms[k + (y['name'],)] = syms.get(k + (y['name'],), 0) + y['size']
                    if y['size']:
                        need(lo <= y['address'] and y['address'] + y['size'] <= hi, 'symbol', y, 'outside of part', lo, hi)
                        need(i['address'] <= y['address'] and y['address'] + y['size'] <= i['address'] + i['size'],
                             'symbol', y, 'outside of its input section', i['address'], i['size'])
                if i['size']:
                    need(lo <= i['address'] and i['address'] + i['size'] <= hi, 'input section', i, 'outside of part', lo, hi)
            wgot, wfills, wsyms = {}, {}, {}
            for i in s['input_sections']:
                k = (i['name'], i['archive'], i['object_file'])
                a, z, f = i['address'], i['size'], i['fill']
                wgot[k] = wgot.get(k, 0) + overlap(a, a + z, lo, hi)
                wfills[k] = wfills.get(k, 0) + overlap(a + z, a + z + f, lo, hi)
                for y in i['symbols']:
                    kk = k + (y['name'],)
                    wsyms[kk] = wsyms.get(kk, 0) + overlap(y['address'], y['address'] + y['size'], lo, hi)

            def nz(d):
                return {k: v for k, v in d.items() if v}
            eq(nz(got), nz(wgot), f'input section sizes in {s["name"]} part {lo}..{hi}')
            eq(nz(fills), nz(wfills), f'fill in {s["name"]} part {lo}..{hi}')
            eq(nz(syms), nz(wsyms), f'symbol sizes in {s["name"]} part {lo}..{hi}')
            if len(parts) == 1:
                eq(p, s, f'section {s["name"]} that is not cut')


@case('C01', gen=g_split)
def split_sections(inp):
    f = fn('memorymap', '_split_map_sections', 2)
    secs = copy.deepcopy(inp['sections'])
    check_split(inp['sections'], inp['regions'], f(secs, copy.deepcopy(inp['regions'])))


# ------------------------------------------------------------------ C02
def g_regions(rng):
    tps = {}
    pos = rng.randint(1, 30)
    names = ['IRAM', 'DRAM', 'DIRAM', 'RTC', 'FLASH', 'SLOW']
    for n in rng.sample(names, rng.randint(0, 5)):
        pos += rng.choice([0, 0, rng.randint(1, 12)])
        ln = rng.choice([0, 1, rng.randint(1, 30), rng.randint(5, 30)])
        tps[n] = {'primary_address': pos, 'length': ln, 'secondary_address': 0, 'name': n}
        pos += ln
    pos += rng.choice([0, rng.randint(0, 20)])
    for n in tps:
        if rng.random() < 0.4:
            pos += rng.choice([0, 0, rng.randint(0, 6)])
            tps[n]['secondary_address'] = pos
            pos += tps[n]['length']
    overlapping = rng.random() < 0.25
    if overlapping:
        for n in tps:
            if rng.random() < 0.5:
                tps[n]['primary_address'] = rng.randint(1, 40)
    items = list(tps.items())
    rng.shuffle(items)
    tps = dict(items)
    regs = []
    pts = [1]
    for t in tps.values():
        for a in (t['primary_address'], t['secondary_address']):
            if a:
                pts += [a, a + t['length'], a + t['length'] // 2]
    for i in range(rng.randint(0, 6)):
        o = rng.choice([rng.randint(0, pos + 5), rng.choice(pts), rng.choice(pts)])
        ln = rng.choice([0, 0, rng.randint(0, 20), rng.randint(0, 80), max(0, rng.choice(pts) - o)])
        nm = f'r{i}' if rng.random() < 0.9 else '*default*'
        regs.append({'name': nm, 'origin': o, 'length': ln, 'attrs': rng.choice(['', 'xrw'])})
    return {'regions': regs, 'types': tps}


def inwin(t, a):
    out = []
    for base in (t['primary_address'], t['secondary_address']):
        if (base or base == t['primary_address']) and base <= a < base + t['length']:
            out.append((base, base + t['length']))
    if not t['secondary_address']:
        out = [w for w in out if w[0] == t['primary_address']]
    return out


@case('C02', gen=g_regions)
def split_regions(inp):
    filt = fn('memorymap', '_filter_memory_regions', 1)
    f = fn('memorymap', '_split_memory_regions', 2)
    regs, tps = inp['regions'], inp['types']
    fr = filt(copy.deepcopy(regs))
    eq(fr, [r for r in regs if r['name'] != '*default*'], 'filtered regions')
    tarr = copy.deepcopy(tps)
    out = f(copy.deepcopy(fr), tarr)
    got = {}
    seen_before = {}
    order = []
    for p in out:
        got.setdefault(p['name'], []).append(p)
        order.append(p)
    for r in fr:
        ps = got.pop(r['name'], [])
        pos = r['origin']
        for p in ps:
            eq(p['attrs'], r['attrs'], 'attributes')
            eq(p['origin'], pos, f'origin of a piece of {r["name"]}')
            need(p['length'] >= 0, 'negative length', p)
            pos += p['length']
            if any(inwin(t, p['origin']) for t in tps.values()):
                ws = inwin(p['type'], p['origin'])
                need(any(p['origin'] + p['length'] <= w[1] for w in ws), 'piece', p['name'], p['origin'], p['length'],
                     'is not inside a window of its memory type', p['type'])
                need(p['type'] in tps.values(), 'unknown type', p['type'])
            else:
                eq(p['length'], 0, 'length of a piece outside of all memory types')
                need(any(q is not p and q['origin'] + q['length'] == p['origin'] and q['type'] == p['type']
                         for q in order[:order.index(p)]), 'zero-length piece', p, 'does not follow a piece of its type')
        need(pos <= r['origin'] + r['length'], r['name'], 'pieces run past the region')
        if not ps:
            covered = any(inwin(t, r['origin']) for t in tps.values())
            need(not covered, 'region', r, 'was dropped')
            if r['length'] == 0:
                idx = [x['name'] for x in fr].index(r['name'])
                before = [p for p in order if [x['name'] for x in fr].index(p['name']) < idx]
                need(not any(q['origin'] + q['length'] == r['origin'] for q in before),
                     'zero-length region', r, 'behind an assigned piece was dropped')
        elif pos < r['origin'] + r['length']:
            need(not any(inwin(t, pos) for t in tps.values()), 'region', r, 'is not covered from', pos)
    need(not got, 'pieces of unknown regions', got)


# ------------------------------------------------------------------ C03
def g_types_map(rng):
    tps = {}
    aliases = ['IRAM', 'DRAM', 'DIRAM', 'External RAM', 'SPI DRAM', 'Flash Code', 'RTC']
    ext = rng.random() < 0.6
    pos = 10
    n = 0
    for a in rng.sample(aliases, rng.randint(1, 5)):
        if a in ('External RAM', 'SPI DRAM') and not ext:
            continue
        ln = rng.randint(10, 40)
        sec = 0
        off = rng.randint(300, 330)
        if rng.random() < 0.5:
            sec = pos + off
        tps[f't{n}'] = {'primary_address': pos, 'length': ln, 'secondary_address': sec, 'name': a}
        n += 1
        pos += ln + rng.choice([0, 3])
    if not tps:
        tps['t0'] = {'primary_address': 10, 'length': 20, 'secondary_address': 0, 'name': 'DRAM'}
    if rng.random() < 0.2:
        t = rng.choice(list(tps.values()))
        tps['tx'] = {'primary_address': pos, 'length': 20, 'secondary_address': 0, 'name': t['name']}
    regs = []
    for t in tps.values():
        bases = [t['primary_address']] + ([t['secondary_address']] if t['secondary_address'] else [])
        cuts = []
        for _ in range(rng.randint(0, 2)):
            o = rng.randint(0, t['length'] - 1)
            ln = rng.randint(0, t['length'] - o)
            cuts.append((o, ln))
        for o, ln in cuts:
            for b in bases:
                if rng.random() < 0.8:
                    l2 = ln if rng.random() < 0.8 else rng.randint(0, t['length'] - o)
                    regs.append({'name': f'r{len(regs)}', 'origin': b + o, 'length': l2, 'attrs': '', 'type': t})
        if rng.random() < 0.15 and regs:
            regs.append(dict(rng.choice(regs), name=f'r{len(regs)}'))
    rng.shuffle(regs)
    secs = []
    names = ['.iram0.text', '.dram0.data', '.dram0.bss', '.flash.text', '.ext_ram.bss', '.ext_ram_noinit',
             '.ext_ram.bss.0', '.rtc.data', '.ext_ram', 'x.ext_ram.bss']
    pts = [r['origin'] + d for r in regs for d in (0, r['length'], r['length'] - 1, -1)] or [5]
    for _ in range(rng.randint(0, 7)):
        nm = rng.choice(names[:5]) if rng.random() < 0.7 else rng.choice(names)
        addr = max(0, rng.choice([rng.choice(pts), rng.randint(0, 400), rng.choice(pts)]))
        size = rng.randint(1, 12)
        arch = {}
        for a in rng.sample(gen.ARCHIVES, rng.randint(0, 2)):
            objs = {}
            for o in rng.sample(gen.OBJECTS, rng.randint(1, 2)):
                sy = {y: {'abbrev_name': y, 'size': rng.randint(0, 4), 'size_diff': 0}
                      for y in rng.sample(gen.SYMBOLS, rng.randint(0, 2))}
                objs[o] = {'abbrev_name': gen.basename(o), 'size': rng.randint(1, 6), 'size_diff': 0, 'symbols': sy}
            arch[a] = {'abbrev_name': gen.basename(a), 'size': sum(x['size'] for x in objs.values()), 'size_diff': 0,
                       'object_files': objs}
        secs.append({'name': nm, 'address': addr, 'size': size, 'abbrev_name': gen.abbrev(nm), 'archives': arch,
                     'input_sections': []})
    return {'types': tps, 'regions': regs, 'sections': secs}


def merge_arch(dst, src):
    for a, ai in src.items():
        d = dst.setdefault(a, {'abbrev_name': ai['abbrev_name'], 'size': 0, 'size_diff': 0, 'object_files': {}})
        d['size'] += ai['size']
        for o, oi in ai['object_files'].items():
            e = d['object_files'].setdefault(o, {'abbrev_name': oi['abbrev_name'], 'size': 0, 'size_diff': 0, 'symbols': {}})
            e['size'] += oi['size']
            for y, yi in oi['symbols'].items():
                x = e['symbols'].setdefault(y, {'abbrev_name': yi['abbrev_name'], 'size': 0, 'size_diff': 0})
                x['size'] += yi['size']


def type_map_expected(types_, regions, sections):
    """Acceptable placements: list of (section, [(type name, section name)])"""
    ext = [t['name'] for t in types_.values() if t['name'] in ('External RAM', 'SPI DRAM')]
    out = []
    for s in sections:
        if ext and s['name'].startswith(('.ext_ram.bss', '.ext_ram_noinit')):
            out.append((s, [(ext[0], s['name'])]))
            continue
        inside = [r for r in regions if r['origin'] <= s['address'] < r['origin'] + r['length']]
        if inside:
            out.append((s, list(dict.fromkeys((r['type']['name'], s['name']) for r in inside))))
            continue
        below = [r for r in regions if r['origin'] <= s['address']]
        if below:
            top = max(r['origin'] for r in below)
            out.append((s, list(dict.fromkeys((r['type']['name'], s['name'] + '_overflow') for r in below
                                              if r['origin'] == top))))
        else:
            out.append((s, [None]))
    return out


def sizes_expected(types_, regions):
    want = {t['name']: 0 for t in types_.values()}
    done = {t['name']: [] for t in types_.values()}
    for r in regions:
        t = r['type']
        off = abs(t['primary_address'] - t['secondary_address']) if t['secondary_address'] else 0
        if not any(abs(q['origin'] - r['origin']) in (0, off) and q['length'] == r['length'] for q in done[t['name']]):
            want[t['name']] += r['length']
        done[t['name']].append(r)
    return want


def check_type_map(types_, regions, sections, out, sizes=True):
    eq(sorted(out), sorted({t['name'] for t in types_.values()}), 'memory types')
    if sizes:
        eq({k: v['size'] for k, v in out.items()}, sizes_expected(types_, regions), 'memory type sizes')
    for k, v in out.items():
        eq(v['used'], sum(x['size'] for x in v['sections'].values()), f'used of {k} against the sum of its sections')
        eq((v['size_diff'], v['used_diff']), (0, 0), 'diffs')
    exp = type_map_expected(types_, regions, sections)

    def build(choice):
        w = {t: {} for t in out}
        for (s, _), c in zip(exp, choice):
            if c is None:
                continue
            tn, sn = c
            e = w[tn].setdefault(sn, {'abbrev_name': gen.abbrev(sn), 'size': 0, 'size_diff': 0, 'archives': {}})
            e['size'] += s['size']
            merge_arch(e['archives'], s['archives'])
        return w
    import itertools
    got = {t: {n: {'abbrev_name': x['abbrev_name'], 'size': x['size'], 'size_diff': x['size_diff'],
                   'archives': x['archives']} for n, x in v['sections'].items()} for t, v in out.items()}
    first = None
    for choice in itertools.islice(itertools.product(*[o for _, o in exp]), 4096):
        w = build(choice)
        if w == got:
            return
        first = first or w
    eq(got, first, 'sections of memory types')


@case('C03', gen=g_types_map)
def mem_type_map(inp):
    f = fn('memorymap', '_get_mem_type_map', 3)
    x = copy.deepcopy(inp)
    # regions refer to the very same type objects
    for r in x['regions']:
        for t in x['types'].values():
            if t == r['type']:
                r['type'] = t
                break
    out = f(x['types'], x['regions'], x['sections'])
    check_type_map(inp['types'], inp['regions'], inp['sections'], out)


# ------------------------------------------------------------------ C04
def g_arch(rng):
    secs = gen.osections(rng, symbols=True)
    few_a = rng.sample(gen.ARCHIVES, 2)
    few_o = rng.sample(gen.OBJECTS, 2)
    few_s = rng.sample(gen.SYMBOLS, 2)
    for s in secs:
        for i in s['input_sections']:
            if rng.random() < 0.7:
                i['archive'], i['object_file'] = rng.choice(few_a), rng.choice(few_o)
            for y in i['symbols']:
                if rng.random() < 0.7:
                    y['name'] = rng.choice(few_s)
    return {'sections': secs}


def check_archives(before, after):
    eq(len(after), len(before), 'number of sections')
    for b, s in zip(before, after):
        eq(s['name'], b['name'], 'name')
        eq(s['abbrev_name'], gen.abbrev(b['name']), 'abbreviated section name')
        eq((s['size'], s['address']), (b['size'], b['address']), 'section size and address')
        want = {}
        for i in b['input_sections']:
            a = want.setdefault(i['archive'], {'abbrev_name': gen.basename(i['archive']), 'size': 0, 'size_diff': 0,
                                               'object_files': {}})
            a['size'] += i['size']
            o = a['object_files'].setdefault(i['object_file'], {'abbrev_name': gen.basename(i['object_file']), 'size': 0,
                                                                'size_diff': 0, 'symbols': {}})
            o['size'] += i['size']
            for y in i['symbols']:
                z = o['symbols'].setdefault(y['name'], {'abbrev_name': y['name'], 'size': 0, 'size_diff': 0})
                z['size'] += y['size']
        eq(s['archives'], want, f'archives of {b["name"]}')


@case('C04', gen=g_arch)
def add_archives(inp):
    f = fn('memorymap', '_add_archives_to_sections', 1)
    secs = copy.deepcopy(inp['sections'])
    f(secs)
    check_archives(inp['sections'], secs)


# ------------------------------------------------------------------ C11
class FakeSym:
    def __init__(self, d):
        self.name, self.st_value, self.st_size, self.type = d['name'], d['value'], d['size'], d['type']
        self.st_shndx = d.get('shndx', 1)


def g_syms(rng):
    secs = gen.osections(rng, symbols=False)
    for s in secs:
        s['input_sections'] = [i for i in s['input_sections'] if i['size']]
    isecs = sorted((i for s in secs for i in s['input_sections']), key=lambda i: i['address'])
    syms = []
    names = ['foo', 'bar', 'main', 'buf', 's_x', 'tbl']
    bad = None
    for i in isecs:
        pos = i['address']
        end = i['address'] + i['size']
        while pos < end and rng.random() < 0.7:
            pos += rng.choice([0, 0, 1, 2])
            if pos >= end:
                break
            n = rng.randint(1, end - pos)
            syms.append({'name': rng.choice(names), 'value': pos, 'size': n, 'type': rng.choice([1, 2, 2])})
            if rng.random() < 0.2:
                syms.append({'name': 'alias', 'value': pos, 'size': n, 'type': 2})
            pos += n
        if rng.random() < 0.15:
            syms.append({'name': 'nosize', 'value': i['address'], 'size': 0, 'type': 2})
        if rng.random() < 0.15:
            syms.append({'name': 'sect', 'value': i['address'], 'size': i['size'] + 5, 'type': rng.choice([0, 3, 4])})
    if isecs:
        # symbols outside of all input sections (ROM), below the end of the last one
        ends = 0
        for i in isecs:
            gap = i['address'] - ends
            if gap > 0 and rng.random() < 0.5:
                v = rng.randint(ends, i['address'] - 1)
                syms.append({'name': 'rom', 'value': v, 'size': rng.randint(1, i['address'] - v), 'type': 2})
            ends = i['address'] + i['size']
        if rng.random() < 0.12:
            i = rng.choice(isecs)
            v = rng.randint(i['address'], i['address'] + i['size'] - 1)
            syms.append({'name': 'cross', 'value': v, 'size': i['address'] + i['size'] - v + rng.randint(1, 5), 'type': 2})
            bad = 'cross'
    rng.shuffle(syms)
    return {'sections': secs, 'symbols': syms, 'bad': bad, 'elf': rng.random() < 0.9}


def check_symbols(before, syms, secs):
    for b, s in zip(before, secs):
        eq(len(s['input_sections']), len(b['input_sections']), 'input sections')
        for bi, i in zip(b['input_sections'], s['input_sections']):
            eq({k: v for k, v in i.items() if k != 'symbols'}, {k: v for k, v in bi.items() if k != 'symbols'}, 'input section')
            lo, hi = i['address'], i['address'] + i['size']
            want = sorted((y['name'] + ('()' if y['type'] == 2 else ''), y['value'], y['size']) for y in syms
                          if y['type'] in (1, 2) and y['size'] and lo <= y['value'] < hi)
            got = sorted((y['name'], y['address'], y['size']) for y in i['symbols'])
            if not want and got == [(i['name'], lo, i['size'])]:
                continue   # input section used as its own symbol
            eq(got, want, f'symbols of input section {i["name"]} {lo}..{hi}')


@case('C11', gen=g_syms)
def add_symbols(inp):
    f = fn('memorymap', '_add_symbols_to_sections', 2)
    secs = copy.deepcopy(inp['sections'])
    exc = fn('memorymap', 'MemMapException')
    if not inp['elf']:
        f(None, secs)
        for b, s in zip(inp['sections'], secs):
            for bi, i in zip(b['input_sections'], s['input_sections']):
                eq(i, dict(bi, symbols=[{'name': bi['name'], 'address': bi['address'], 'size': bi['size']}]), 'input section')
        return None
    if not any(s['input_sections'] for s in secs):
        return None
    elf = types.SimpleNamespace(symbols=[FakeSym(d) for d in inp['symbols']])
    try:
        f(elf, secs)
    except exc as e:
        need(inp['bad'], 'rejected:', e)
        return None
    need(not inp['bad'], 'a symbol crossing the end of its input section was accepted')
    check_symbols(inp['sections'], inp['symbols'], secs)
    return None


# ------------------------------------------------------------------ C12
def g_lto(rng):
    comps = {}
    dirs = ['/idf/components/net', '/idf/components/net2', '/idf/components/net/sub', '/p/main', '/p/main_x']
    for k, d in enumerate(rng.sample(dirs, rng.randint(0, 4))):
        if rng.random() < 0.3:
            # the same directory, not in its shortest form
            d = rng.choice([d + '/', d + '/././.', d.replace('/', '/./', 2), '/' + d[1:].replace('/', '//')])
        comps[f'c{k}'] = {'dir': d, 'file': f'/p/build/esp-idf/c{k}/libc{k}.a' if rng.random() < 0.85 else ''}
    secs = gen.osections(rng, symbols=False)
    syms = []
    for s in secs:
        for i in s['input_sections']:
            if rng.random() < 0.6:
                i['archive'] = '(exe)'
                i['object_file'] = '/tmp/ccX.ltrans0.ltrans.o'
            pos, end = i['address'], i['address'] + i['size']
            while pos < end and rng.random() < 0.75:
                pos += rng.choice([0, 0, 1, 3])
                if pos >= end:
                    break
                n = rng.randint(1, end - pos)
                cu = rng.choice(dirs) + rng.choice(['/a.c', '/x/b.c', '_y/c.c', '.c'])
                syms.append({'name': f's{len(syms)}', 'value': pos, 'size': n, 'cu': cu if rng.random() < 0.9 else None})
                pos += n
    # at most one symbol per address and none overlapping another (input sections may be empty at the same address)
    syms.sort(key=lambda y: y['value'])
    keep, last = [], -1
    for y in syms:
        if y['value'] >= last:
            keep.append(y)
            last = y['value'] + y['size']
    if rng.random() < 0.3:
        keep.append({'name': 'far', 'value': 99999, 'size': 4, 'cu': '/p/main/far.c'})
    rng.shuffle(keep)
    return {'sections': secs, 'symbols': keep, 'components': comps}


def lto_archive(cu, comps):
    best = None
    for c in comps.values():
        d = os.path.normpath(c['dir'])
        if c['file'] and cu.startswith(d + '/'):
            if best is None or len(d) > len(os.path.normpath(best['dir'])):
                best = c
    return best['file'][len('/p/build/'):] if best else None


@case('C12', gen=g_lto)
def expand_lto(inp):
    f = fn('memorymap', '_expand_input_sections', 3)
    secs = copy.deepcopy(inp['sections'])

    class S:
        pass
    d = {}
    for y in inp['symbols']:
        s = S()
        s.name, s.st_value, s.st_size, s.cu_name = y['name'], y['value'], y['size'], y['cu']
        d[y['value']] = s
    elf = types.SimpleNamespace(add_cus_to_symbols=lambda: d)
    f(types.SimpleNamespace(sections=secs), {'build_dir': '/p/build', 'build_component_info': copy.deepcopy(inp['components'])}, elf)
    usable = [y for y in inp['symbols'] if y['cu'] and lto_archive(y['cu'], inp['components'])]
    for b, s in zip(inp['sections'], secs):
        eq({k: v for k, v in s.items() if k != 'input_sections'}, {k: v for k, v in b.items() if k != 'input_sections'}, 'section')
        eq(sum(i['size'] for i in s['input_sections']), sum(i['size'] for i in b['input_sections']), f'total size of {b["name"]}')
        eq(sum(i['fill'] for i in s['input_sections']), sum(i['fill'] for i in b['input_sections']), f'total fill of {b["name"]}')
        used = set()
        for bi in b['input_sections']:
            lo, hi = bi['address'], bi['address'] + bi['size']
            if bi['archive'] != '(exe)':
                m = [k for k, i in enumerate(s['input_sections']) if k not in used and i == bi]
                need(m, 'input section with an archive was changed', bi)
                used.add(m[0])
                continue
            inside = sorted((y for y in usable if lo <= y['value'] < hi), key=lambda y: y['value'])
            want = []
            pos = lo
            if not inside:
                m = [k for k, i in enumerate(s['input_sections']) if k not in used and i == bi]
                need(m, 'input section without symbols was changed', bi)
                used.add(m[0])
                continue
            for y in inside:
                if y['value'] > pos:
                    want.append((bi['name'], pos, y['value'] - pos, '(exe)', bi['object_file']))
                want.append((y['name'], y['value'], y['size'], lto_archive(y['cu'], inp['components']), y['cu'].rsplit('/', 1)[-1]))
                pos = y['value'] + y['size']
            if pos < hi:
                want.append((bi['name'], pos, hi - pos, '(exe)', bi['object_file']))
            for w in want:
                w += (bi['fill'] if w is want[-1] else 0,)
                m = [k for k, i in enumerate(s['input_sections']) if k not in used and
                     (i['name'], i['address'], i['size'], i['archive'], i['object_file'], i['fill']) == w]
                need(m, 'missing expanded input section', w, 'of', bi, 'in', s['input_sections'])
                used.add(m[0])
        for k, i in enumerate(s['input_sections']):
            need(k in used, 'unexpected input section', i)
        need(all(i['size'] >= 0 and i['fill'] >= 0 for i in s['input_sections']), 'negative size or fill', s['input_sections'])
    return None


# ------------------------------------------------------------------ C17
def g_filter(rng):
    names = ['.iram0.text', '.dram0.data', '.dram0.bss', '.flash.rodata', '.flash.text', '.noinit', '.iram0.vectors',
             '.dram0.dummy', '.flash_rodata_dummy', '.dram0.reserved_for_iram', '.flash.rodata_noload', '.debug_info',
             '.xt.prop', '.comment', '.eh_frame_hdr', '.rtc.force_fast', '.flash.tdata', '.text', '.iram0.text_end',
             '.ext_ram_noinit', '.rtc_noinit', '.dram0.rodata', '.rodata', '.vectors', '.ext_ram.bss', '.rtc.data', '.flash.appdesc', '.noload', '.rtc.bss', '.data.x', '.eh_frame']
    for _ in range(4):
        b = rng.choice(names)
        names = list(dict.fromkeys(names + [b + rng.choice(['0', '_', '.x', 'X', '00']), b[:-1], '.' + b, b.upper()]))
    secs, hdrs = [], []
    for n in rng.sample(names, rng.randint(0, 9)):
        isecs = [{'name': f'.i{k}', 'address': k, 'size': rng.choice([0, 0, 3, 7]), 'archive': 'a', 'object_file': 'o',
                  'fill': rng.choice([0, 2])} for k in range(rng.randint(0, 4))]
        secs.append({'name': n, 'address': rng.randint(0, 99), 'size': rng.choice([0, rng.randint(1, 50), rng.randint(1, 50)]),
                     'input_sections': isecs})
    for n in rng.sample(names, rng.randint(0, 14)):
        hdrs.append({'name': n, 'sh_size': rng.choice([0, rng.randint(1, 60)]),
                     'sh_flags': rng.choice([0, 1, 2, 3, 6, 7, 4, 0x12]), 'sh_type': rng.choice([1, 1, 8, 8, 7, 14, 15])})
    return {'sections': secs, 'headers': hdrs if rng.random() < 0.7 else None}


def selected(name):
    return (name.endswith(('.text', '.data', '.bss', '.rodata', 'noinit', '.vectors')) or '.flash' in name
            or '.eh_frame' in name)


@case('C17', gen=g_filter)
def filter_sections(inp):
    hd = fn('memorymap', '_get_elf_sections_headers', 1)
    fl = fn('memorymap', '_filter_map_sections', 2)
    im = fn('memorymap', '_get_image_size', 2)
    elf = None
    alloc = None
    if inp['headers'] is not None:
        elf = types.SimpleNamespace(shdrs=[types.SimpleNamespace(**h) for h in inp['headers']])
        alloc = [h for h in inp['headers'] if h['sh_size'] and h['sh_flags'] & 2]
    hdrs = hd(elf)
    if elf is None:
        eq(hdrs, None, 'headers without ELF')
    else:
        eq(sorted(hdrs), sorted(h['name'] for h in alloc), 'allocated ELF sections')
    secs = copy.deepcopy(inp['sections'])
    out = fl(secs, hdrs)
    want = []
    for s in inp['sections']:
        if not s['size'] or s['name'].endswith(('dummy', 'reserved_for_iram', 'noload')):
            continue
        if alloc:
            if s['name'] not in [h['name'] for h in alloc]:
                continue
        elif not selected(s['name']):
            continue
        want.append(dict(s, input_sections=[i for i in s['input_sections'] if i['size']]))
    eq(out, want, 'selected sections')
    size = im(hdrs, copy.deepcopy(want))
    if alloc:
        eq(size, sum(h['sh_size'] for h in alloc if h['sh_type'] != 8), 'image size from ELF')
    else:
        eq(size, sum(s['size'] for s in want if not s['name'].endswith(('.bss', 'noinit'))), 'image size from names')
