"""A whole project (link map, ELF, project description, sdkconfig) and an independent statement of its memory map."""
import json
import os
import random
import re

import gen
from case_elf import enc_uleb
from case_split import lto_archive, merge_arch, overlap, parts_of, selected, sizes_expected, type_map_expected

EXE = '(exe)'
CHIPS = ['esp32', 'esp32s3', 'esp32c3', 'esp32s2', 'esp32c6', 'esp32p4']
NAMES = ['.iram0.text', '.iram0.vectors', '.dram0.data', '.dram0.bss', '.flash.text', '.flash.rodata', '.rtc.text', '.rtc.bss',
         '.ext_ram.bss', '.ext_ram_noinit', '.noinit', '.flash.appdesc', '.dram0.dummy', '.comment', '.flash.rodata_noload',
         '.iram0.text_end', '.flash[1].data', '.a_very_long_section_name.data', '.iram0.bss']


def chip(target):
    """The chip description, read without the code under test."""
    import esp_idf_size
    p = os.path.join(os.path.dirname(esp_idf_size.__file__), 'chip_info', target + '.yaml')
    import yaml
    with open(p) as f:
        d = yaml.safe_load(f)

    def num(x):
        if not isinstance(x, int):
            s = str(x)
            if not re.fullmatch(r'[0-9a-fA-Fx+*()\- ]+', s):
                raise ValueError(s)
            x = eval(s)
        return x
    return {k: {'primary_address': num(v['primary_address']), 'length': num(v['length']),
                'secondary_address': num(v.get('secondary_address', 0)), 'name': v.get('name', k)} for k, v in d.items()}


def project(rng, target=None, elf=None, crt=False, nsec=6):
    target = target or rng.choice(CHIPS)
    tps = chip(target)
    wins = []
    for t in tps.values():
        wins.append((t['primary_address'], t['length']))
        if t['secondary_address']:
            wins.append((t['secondary_address'], t['length']))
    regions = []
    chosen = rng.sample(wins, min(len(wins), rng.randint(2, 6)))
    for a, ln in chosen:
        o = a + rng.choice([0, 0, 0x20, rng.randint(0, ln // 2)])
        n = rng.choice([a + ln - o, rng.randint(1, 0x2000), (a + ln - o) + rng.choice([0, 0x400]), rng.randint(1, max(1, a + ln - o))])
        regions.append({'name': f'seg{len(regions)}', 'origin': o, 'length': n, 'attrs': rng.choice(['xr', 'rw', ''])})
        if rng.random() < 0.2:
            regions.append({'name': f'seg{len(regions)}', 'origin': o + n, 'length': 0, 'attrs': ''})
    for t in tps.values():
        if t['secondary_address'] and rng.random() < 0.6:
            off = rng.randint(0, t['length'] // 2)
            n = rng.randint(1, t['length'] - off)
            for b in (t['primary_address'], t['secondary_address']):
                regions.append({'name': f'seg{len(regions)}', 'origin': b + off, 'length': n, 'attrs': 'rw'})
    regions.append({'name': '*default*', 'origin': 0, 'length': 0xffffffff, 'attrs': ''})
    # output sections near the region boundaries, disjoint
    pts = []
    for r in regions[:-1]:
        pts += [r['origin'], r['origin'] + r['length'] - rng.randint(0, 20), r['origin'] + r['length'] + 8,
                r['origin'] + r['length'] // 2]
    for a, ln in wins:
        pts += [a + ln - rng.randint(0, 20)]
    rng.shuffle(pts)
    used, secs, uid = [], [], 0
    arcs = rng.sample(gen.ARCHIVES[:-1], 4) + [EXE]
    objs = rng.sample(gen.OBJECTS, 3)
    for nm in rng.sample(NAMES, rng.randint(1, nsec)):
        for p in pts:
            if p > 0 and all(abs(p - u) > 0x300 for u in used):
                break
        else:
            break
        used.append(p)
        addr = start = p
        lines = []
        if rng.random() < 0.3:
            lines.append(['note', f' *(.text .text.*)'])
        pad = rng.choice([0, 0, 3])
        if pad and rng.random() < 0.5:
            lines.append(['fill', addr, pad])   # alignment in front of the first input section
        addr += pad
        for _ in range(rng.randint(0, 6)):
            z = rng.choice([0, rng.randint(1, 12), rng.randint(1, 40)])
            arc = rng.choice(arcs)
            obj = rng.choice(objs) if arc != EXE else '/tmp/cc.ltrans0.o'
            iname = rng.choice([f'.text.f{uid}', f'.rodata.str1.{uid}', 'COMMON', f'.literal.long_function_name_{uid}'])
            uid += 1
            if rng.random() < 0.08 and z:
                # superseded by the next one at the same address
                lines.append(['isec', {'name': iname, 'address': addr, 'size': rng.randint(1, 30), 'archive': arc, 'object_file': obj}])
                lines.append(['note', '                                          0xc (size before relaxing)'])
            own = z and rng.random() < 0.08   # merged into others: fill follows at its own address
            lines.append(['isec', {'name': iname, 'address': addr, 'size': rng.randint(1, 9) if own else z, 'archive': arc, 'object_file': obj}])
            if own:
                z = rng.randint(1, 6)
                lines.append(['fill', addr, z])
            if rng.random() < 0.2:
                lines.append(['note', f'                0x{addr:016x}                sym{uid}'])
            if rng.random() < 0.1:
                lines.append(['note', f'                0x{addr:016x}                _BYTE_LONG_{uid} = .'])
            addr += z
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
                if rng.random() < 0.6:
                    n = rng.randint(1, 6)
                    lines.append(['fill', addr, n])
                else:
                    k, n = rng.choice([('BYTE', 1), ('SHORT', 2), ('LONG', 4), ('QUAD', 8), ('SQUAD', 8)])
                    lines.append(['data', k, addr, n])
                addr += n
        size = addr - start
        if rng.random() < 0.1:
            lines.append(['isec', {'name': '.text.beyond', 'address': start + size + rng.randint(0, 9), 'size': 8, 'archive': arcs[0],
                                   'object_file': objs[0]}])
        if rng.random() < 0.15:
            size = 0 if not any(x[0] == 'isec' for x in lines) else size
        secs.append({'name': nm, 'address': start, 'size': size, 'lines': lines})
    pr = {'target': target, 'regions': regions, 'osecs': secs, 'elf': None, 'crt': None, 'text_seed': rng.getrandbits(30),
          'style': rng.choice([0, 0, 1, 2])}
    if elf if elf is not None else rng.random() < 0.75:
        comps = ['/p/main', '/idf/components/net', '/idf/components/net/sub']
        syms = []
        last = 0
        hd = []
        for s in secs:
            if rng.random() < 0.85:
                hd.append([s['name'], rng.choice([8]) if s['name'].endswith(('bss', 'noinit', 'dummy')) else 1,
                           0 if s['name'] == '.comment' else rng.choice([2, 3, 6]), s['address'], s['size'] + rng.choice([0, 0, 4])])
        hd.append(['.debug_aux', 1, 0, 0, 11])
        if rng.random() < 0.5:
            hd.append(['.init_array', 14, 2, 0, 4])
        for s in sorted(select(parse(secs), alloc_headers({'headers': hd})), key=lambda s: s['address']):
            for i in s['input_sections']:
                pos, end = i['address'], i['address'] + i['size']
                while pos < end and rng.random() < 0.7:
                    pos += rng.choice([0, 0, 1])
                    if pos >= end:
                        break
                    n = rng.randint(1, end - pos)
                    syms.append({'name': rng.choice(['foo', 'bar', 'main', f'v{len(syms)}']), 'value': pos, 'size': n,
                                 'type': rng.choice([1, 2]), 'shndx': 1,
                                 'cu': rng.choice([None] + comps) if rng.random() < 0.8 else '/other/x'})
                    pos += n
            last = max(last, s['address'])
        syms.append({'name': 'rom_fn', 'value': 16, 'size': 8, 'type': 2, 'shndx': 0xfff1, 'cu': None})
        pr['elf'] = {'headers': hd, 'symbols': syms}
    if crt:
        t = {}
        for k in range(rng.randint(0, 6)):
            nm = rng.choice(['foo', 'bar', 'main', 'printf', f'x{k}'])
            refs = [[rng.choice(arcs), rng.choice(objs)] for _ in range(rng.randint(1, 4))]
            t[nm] = refs
        pr['crt'] = t or None
    return pr


def parse(osecs):
    """What the link map says (the contract of the parser)."""
    out = []
    for o in osecs:
        isecs = []
        for ln in o['lines']:
            if ln[0] == 'isec':
                isecs.append(dict(ln[1], fill=0, own=False))
            elif ln[0] == 'fill' and isecs:
                if isecs[-1]['address'] == ln[1]:
                    isecs[-1]['own'] = True
                isecs[-1]['fill'] += ln[2]
            elif ln[0] == 'data' and isecs:
                isecs[-1]['fill'] += ln[3]
        end = o['address'] + o['size']
        res = []
        for k, i in enumerate(isecs):
            i = dict(i)
            empty = i.pop('own') or not o['address'] <= i['address'] < end or not i['size']
            if empty:
                i['size'] = 0
            if res and res[-1]['address'] == i['address']:
                res[-1]['size'] = 0
            if empty and i['fill'] and res:
                for q in reversed(res):
                    if q['size']:
                        q['fill'] += i['fill']
                        break
                i['fill'] = 0
            res.append(i)
        out.append({'name': o['name'], 'address': o['address'], 'size': o['size'], 'input_sections': res})
    return out


def text(pr):
    rng = random.Random(pr['text_seed'])
    return gen.map_text(rng, pr['regions'], pr['osecs'], target=pr['target'], crt=pr['crt'], target_style=pr['style'],
                        noise=True)


def debug_info(elf):
    """.debug_info/.debug_abbrev: one unit per component source file."""
    ab = enc_uleb(1) + enc_uleb(0x11) + b'\1' + enc_uleb(0x3) + enc_uleb(0x8) + b'\0\0'
    ab += enc_uleb(2) + enc_uleb(0x2e) + b'\0' + enc_uleb(0x11) + enc_uleb(1) + b'\0\0'
    ab += enc_uleb(3) + enc_uleb(0x34) + b'\0' + enc_uleb(0x2) + enc_uleb(0x18) + b'\0\0' + b'\0'
    info = b''
    for cu in sorted({y['cu'] for y in elf['symbols'] if y['cu']}):
        body = enc_uleb(1) + (cu + '/src.c').encode() + b'\0'
        for y in elf['symbols']:
            if y['cu'] == cu:
                if y['type'] == 2:
                    body += enc_uleb(2) + y['value'].to_bytes(4, 'little')
                else:
                    body += enc_uleb(3) + enc_uleb(5) + b'\3' + y['value'].to_bytes(4, 'little')
        body += b'\0'
        head = (4).to_bytes(2, 'little') + (0).to_bytes(4, 'little') + b'\4'
        info += len(head + body).to_bytes(4, 'little') + head + body
    return [('.debug_abbrev', 1, 0, 0, ab), ('.debug_info', 1, 0, 0, info)]


def elf_file(elf, fn):
    hd = [tuple(h) for h in elf['headers']]
    syms = [(y['name'], y['value'], y['size'], (1 << 4) | y['type'], y['shndx']) for y in elf['symbols']]
    # keep the file small: sections of the map have no real contents
    hd = [h[:4] + (h[4],) for h in hd]
    with open(fn, 'wb') as f:
        f.write(gen.elf_bytes(hd + debug_info(elf), syms))


COMPONENTS = {'main': {'dir': '/p/main', 'file': '/p/build/esp-idf/main/libmain.a'},
              'net': {'dir': '/idf/components/net', 'file': '/p/build/esp-idf/net/libnet.a'},
              'sub': {'dir': '/idf/components/net/sub', 'file': '/p/build/esp-idf/sub/libsub.a'},
              'cfg': {'dir': '/idf/components/cfg', 'file': ''}}


def desc_json(target, app_elf):
    return json.dumps({'target': target, 'app_elf': app_elf, 'build_dir': '/p/build', 'build_component_info': COMPONENTS})


def write(pr, d, name='app', desc=True):
    os.makedirs(d, exist_ok=True)
    m = os.path.join(d, name + '.map')
    with open(m, 'w', encoding='utf-8') as f:
        f.write(text(pr))
    if pr['elf']:
        elf_file(pr['elf'], os.path.join(d, name + '.elf'))
    if desc:
        with open(os.path.join(d, 'project_description.json'), 'w') as f:
            f.write(desc_json(pr['target'], name + '.elf'))
    return m


# ------------------------------------------------------------------ the memory map it must have
def split_regions(regions, tps):
    out = []
    for r in regions:
        if r['name'] == '*default*':
            continue
        a, end = r['origin'], r['origin'] + r['length']
        while True:
            hit = None
            for t in tps.values():
                for b in [t['primary_address']] + ([t['secondary_address']] if t['secondary_address'] else []):
                    if hit is None and b <= a < b + t['length']:
                        hit = (t, b + t['length'])
            if hit:
                z = min(end, hit[1])
                out.append({'name': r['name'], 'origin': a, 'length': z - a, 'attrs': r['attrs'], 'type': hit[0]})
                a = z
            else:
                if a == end:
                    q = [p for p in out if p['origin'] + p['length'] == a]
                    if q:
                        out.append({'name': r['name'], 'origin': a, 'length': 0, 'attrs': r['attrs'], 'type': q[0]['type']})
                break
            if a == end:
                break
    return out


def alloc_headers(elf):
    return {h[0]: h for h in elf['headers'] if h[4] and h[2] & 2} if elf else None


def expand(secs, elf):
    ok = [y for y in elf['symbols'] if y['size'] and y['cu'] and y['shndx'] != 0xfff1 and lto_archive(y['cu'] + '/src.c', COMPONENTS)]
    out = []
    for s in secs:
        new = []
        for i in s['input_sections']:
            if i['archive'] != EXE:
                new.append(i)
                continue
            pos, end = i['address'], i['address'] + i['size']
            for y in sorted(ok, key=lambda y: y['value']):
                if pos <= y['value'] < end:
                    if y['value'] > pos:
                        new.append(dict(i, address=pos, size=y['value'] - pos, fill=0))
                    new.append({'name': y['name'], 'address': y['value'], 'size': y['size'], 'fill': 0,
                                'archive': lto_archive(y['cu'] + '/src.c', COMPONENTS), 'object_file': 'src.c'})
                    pos = y['value'] + y['size']
            new.append(dict(i, address=pos, size=end - pos))
        out.append(dict(s, input_sections=new))
    return out


def select(secs, hdrs):
    out = []
    for s in secs:
        if not s['size'] or s['name'].endswith(('dummy', 'reserved_for_iram', 'noload')):
            continue
        if (s['name'] not in hdrs) if hdrs else not selected(s['name']):
            continue
        out.append(dict(s, input_sections=[i for i in s['input_sections'] if i['size']]))
    return out


def expected(pr, symbols=True, elf='own', lto=False, target=None, desc=True):
    """(image size, types, regions, sections with archives); elf: 'own' or an ELF dict or None"""
    elf = pr['elf'] if elf == 'own' else elf
    tps = chip(target or pr['target'])
    regions = split_regions(pr['regions'], tps)
    secs = parse(pr['osecs'])
    if lto and elf and desc:
        secs = expand(secs, elf)
    hdrs = alloc_headers(elf)
    secs = select(secs, hdrs)
    if hdrs:
        image = sum(h[4] for h in hdrs.values() if h[1] != 8)
    else:
        image = sum(s['size'] for s in secs if not s['name'].endswith(('.bss', 'noinit')))
    parts = []
    for s in secs:
        for lo, hi in parts_of(s, regions):
            arch = {}
            for i in s['input_sections']:
                a, z = i['address'], i['address'] + i['size']
                n = overlap(a, z, lo, hi)
                if not n:
                    continue
                sy = {}
                if symbols:
                    if elf:
                        ys = [(y['name'] + ('()' if y['type'] == 2 else ''), y['value'], y['value'] + y['size'])
                              for y in elf['symbols'] if a <= y['value'] < z and y['size']]
                    else:
                        ys = [(i['name'], a, z)]
                    for nm, b, c in ys:
                        k = overlap(b, c, lo, hi)
                        if k:
                            sy.setdefault(nm, {'abbrev_name': nm, 'size': 0, 'size_diff': 0})['size'] += k
                merge_arch(arch, {i['archive']: {'abbrev_name': gen.basename(i['archive']), 'size': n, 'size_diff': 0, 'object_files': {
                    i['object_file']: {'abbrev_name': gen.basename(i['object_file']), 'size': n, 'size_diff': 0, 'symbols': sy}}}})
            parts.append({'name': s['name'], 'address': lo, 'size': hi - lo, 'abbrev_name': gen.abbrev(s['name']), 'archives': arch})
    return image, tps, regions, parts


def prune(mts, dots):
    """Entries without bytes and placeholder symbols (named like sections) are not compared."""
    out = {}
    for t, v in mts.items():
        secs = {}
        for n, s in v['sections'].items():
            arcs = {}
            for a, ai in s['archives'].items():
                os_ = {}
                for o, oi in ai['object_files'].items():
                    if oi['size']:
                        os_[o] = dict(oi, symbols={y: x for y, x in oi['symbols'].items()
                                                   if x['size'] and not (dots and y.startswith(('.', 'COMMON')))})
                if ai['size']:
                    arcs[a] = dict(ai, object_files=os_)
            secs[n] = {'abbrev_name': s['abbrev_name'], 'size': s['size'], 'size_diff': s['size_diff'], 'archives': arcs}
        out[t] = dict(v, sections=secs)
    return out


def memory_types(pr, **kw):
    image, tps, regions, parts = expected(pr, **kw)
    mts = {t['name']: {'size': 0, 'size_diff': 0, 'used': 0, 'used_diff': 0, 'sections': {}} for t in tps.values()}
    for t, n in sizes_expected(tps, regions).items():
        mts[t]['size'] = n
    for s, where in type_map_expected(tps, regions, parts):
        if len(where) > 1:
            return None, None   # overlapping regions of different types: more than one placement is right
        if where[0] is None:
            continue
        t, nm = where[0]
        mts[t]['used'] += s['size']
        e = mts[t]['sections'].setdefault(nm, {'abbrev_name': gen.abbrev(nm), 'size': 0, 'size_diff': 0, 'archives': {}})
        e['size'] += s['size']
        merge_arch(e['archives'], s['archives'])
    return image, mts
