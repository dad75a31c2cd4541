"""C10: ELF and DWARF primitives against independent encoders."""
import os
import struct
import tempfile
import types

import gen
from core import Skip, case, eq, fn, need

SCRATCH = tempfile.mkdtemp(prefix='verif-elf-')


def cleanup():
    import shutil
    shutil.rmtree(SCRATCH, ignore_errors=True)


import atexit  # noqa: E402
atexit.register(cleanup)


def mkelf(big=False, bits=32, sections=(), symbols=()):
    E = fn('elf', 'Elf')
    p = os.path.join(SCRATCH, f'x{big}{bits}.elf')
    with open(p, 'wb') as f:
        f.write(gen.elf_bytes(list(sections), list(symbols), bits=bits, big=big))
    return E(p)


def enc_uleb(v, pad=0):
    out = []
    while True:
        b = v & 0x7f
        v >>= 7
        if v or pad:
            out.append(b | 0x80)
            if not v:
                out += [0x80] * (pad - 1) + [0x00]
                return bytes(out)
        else:
            out.append(b)
            return bytes(out)


def enc_sleb(v, pad=0):
    out = []
    while True:
        b = v & 0x7f
        v >>= 7
        if (v == 0 and not b & 0x40) or (v == -1 and b & 0x40):
            if pad:
                fill = 0x7f if v == -1 else 0
                return bytes(out + [b | 0x80] + [fill | 0x80] * (pad - 1) + [fill])
            return bytes(out + [b])
        out.append(b | 0x80)


def bigint(rng):
    k = rng.choice([3, 6, 7, 8, 13, 14, 15, 16, 21, 28, 31, 32, 33, 35, 42, 63, 64, 65, 70, 100])
    v = rng.choice([0, 1, (1 << k) - 1, 1 << k, rng.getrandbits(k), rng.getrandbits(k)])
    return v


# ------------------------------------------------------------------ integers
def g_ints(rng):
    return {'big': rng.random() < .5, 'bits': rng.choice([32, 64]), 'n': rng.choice([1, 2, 3, 4, 8, 16]),
            'data': bytes(rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randint(0, 255)]) for _ in range(40)).hex(),
            'off': rng.randint(0, 20)}


_elfs = {}


def elf_of(big, bits):
    if (big, bits) not in _elfs:
        _elfs[big, bits] = mkelf(big, bits)
    return _elfs[big, bits]


@case('C10', gen=g_ints)
def fixed_ints(inp):
    e = elf_of(inp['big'], inp['bits'])
    data, off, n = bytes.fromhex(inp['data']), inp['off'], inp['n']
    raw = data[off:off + n]
    seq = raw if inp['big'] else raw[::-1]
    u = 0
    for b in seq:
        u = u * 256 + b
    s = u - (1 << (8 * n)) if seq[0] >= 128 else u
    b = 8 * n
    for nm, want in ((f'get_uint{b}', u), (f'get_sint{b}', s)):
        f = getattr(e, nm, None)
        if f:
            eq(f(data, off), (want, off + n), nm)
            if off == 0:
                eq(f(data), (want, n), nm + ' without offset')
    if hasattr(e, 'get_int'):
        eq(e.get_int(data, n, off), (u, off + n), 'get_int')
        eq(e.get_int(data, n, off, True), (s, off + n), 'get_int signed')
    w = 4 if inp['bits'] == 32 else 8
    seq = data[off:off + w] if inp['big'] else data[off:off + w][::-1]
    if hasattr(e, 'get_address'):
        eq(e.get_address(data, off), (int(seq.hex(), 16), off + w), 'get_address')
    if hasattr(e, 'get_bytes'):
        eq(e.get_bytes(n, data, off), (data[off:off + n], off + n), 'get_bytes')
    if hasattr(e, 'get_string'):
        z = data + b'\0'
        end = off
        while z[end]:
            end += 1
        eq(e.get_string(z, off), (z[off:end], end + 1), 'get_string')
    if hasattr(e, 'get_fmt'):
        v, o = e.get_fmt('LQHB', data, off)
        want = struct.unpack_from(('>' if inp['big'] else '<') + 'LQHB', data, off)
        eq((tuple(v), o), (want, off + 15), 'get_fmt')


def g_leb(rng):
    v = bigint(rng)
    pre = bytes(rng.choice([0, 0x80, 0xff, 0x40, rng.randint(0, 255)]) for _ in range(rng.randint(0, 3)))
    return {'v': v, 'neg': rng.random() < .5, 'pad': rng.choice([0, 0, 0, 1, 2, 3]), 'pre': pre.hex(),
            'post': bytes([rng.choice([0, 0x7f, 0xff, 0x40])] * rng.randint(0, 2)).hex()}


@case('C10', gen=g_leb)
def leb(inp):
    e = elf_of(False, 32)
    pre, post = bytes.fromhex(inp['pre']), bytes.fromhex(inp['post'])
    if not hasattr(e, 'get_uleb128') or not hasattr(e, 'get_sleb128'):
        raise Skip('no leb readers')
    u = enc_uleb(inp['v'], inp['pad'])
    eq(e.get_uleb128(pre + u + post, len(pre)), (inp['v'], len(pre) + len(u)), f'uleb128 {u.hex()}')
    sv = -inp['v'] if inp['neg'] else inp['v']
    s = enc_sleb(sv, inp['pad'])
    eq(e.get_sleb128(pre + s + post, len(pre)), (sv, len(pre) + len(s)), f'sleb128 {s.hex()}')


# ------------------------------------------------------------------ forms
# name -> (code, encoder kind)
FORMS = {'addr': 1, 'block2': 3, 'block4': 4, 'data2': 5, 'data4': 6, 'data8': 7, 'string': 8, 'block': 9, 'block1': 0xa,
         'data1': 0xb, 'flag': 0xc, 'sdata': 0xd, 'strp': 0xe, 'udata': 0xf, 'ref_addr': 0x10, 'ref1': 0x11, 'ref2': 0x12,
         'ref4': 0x13, 'ref8': 0x14, 'ref_udata': 0x15, 'sec_offset': 0x17, 'exprloc': 0x18,
         'flag_present': 0x19, 'strx': 0x1a, 'ref_sup4': 0x1c, 'strp_sup': 0x1d,
         'data16': 0x1e, 'line_strp': 0x1f, 'ref_sig8': 0x20, 'implicit_const': 0x21, 'loclistx': 0x22, 'rnglistx': 0x23,
         'ref_sup8': 0x24, 'strx1': 0x25, 'strx2': 0x26, 'strx3': 0x27, 'strx4': 0x28}
FIXED = {'data1': 1, 'data2': 2, 'data4': 4, 'data8': 8, 'data16': 16, 'flag': 1, 'ref1': 1, 'ref2': 2, 'ref4': 4, 'ref8': 8,
         'ref_sig8': 8, 'ref_sup4': 4, 'ref_sup8': 8, 'strx1': 1, 'strx2': 2, 'strx3': 3, 'strx4': 4}
OFFS = ('sec_offset', 'strp', 'line_strp', 'strp_sup', 'ref_addr')
ULEB = ('udata', 'ref_udata', 'strx', 'loclistx', 'rnglistx')
RELATIVE = ('ref1', 'ref2', 'ref4', 'ref8', 'ref_udata')


def g_form(rng):
    forms = [rng.choice(list(FORMS)) for _ in range(rng.randint(1, 5))]
    return {'forms': [(f, rng.choice([0, 1, 0x7f, 0x80, 0xffff, rng.getrandbits(64), rng.getrandbits(126)]), rng.random() < .5)
                      for f in forms],
            'big': rng.random() < .5, 'd64': rng.random() < .4, 'asize': rng.choice([4, 8]), 'ver': rng.choice([4, 5, 5, 3]),
            'lead': rng.choice([0, 0, 7, 19]), 'unknown': rng.choice([None] * 9 + [0x16, 0x1b, 0x2d, 0x7f, 0x29])}


def encode(name, raw, neg, big, d64, asize):
    """(bytes, value)"""
    bo = 'big' if big else 'little'
    if name in FIXED:
        n = FIXED[name]
        v = raw & ((1 << (8 * n)) - 1)
        return v.to_bytes(n, bo), v
    if name == 'addr':
        v = raw & ((1 << (8 * asize)) - 1)
        return v.to_bytes(asize, bo), v
    if name in OFFS:
        n = 8 if d64 else 4
        v = raw & ((1 << (8 * n)) - 1)
        return v.to_bytes(n, bo), v
    if name in ULEB:
        return enc_uleb(raw), raw
    if name == 'sdata':
        v = -raw if neg else raw
        return enc_sleb(v), v
    if name == 'string':
        s = bytes((raw >> (8 * k)) % 254 + 1 for k in range(raw % 5))
        return s + b'\0', s
    if name == 'flag_present':
        return b'', True
    if name == 'implicit_const':
        return b'', -raw if neg else raw
    n = raw % 300 if name in ('block2', 'block4', 'block') else raw % 9
    payload = bytes((raw + k) % 256 for k in range(n))
    if name in ('block1', 'block2', 'block4'):
        return n.to_bytes(int(name[5:]), bo) + payload, payload
    return enc_uleb(n) + payload, payload


@case('C10', gen=g_form)
def forms(inp):
    """Attributes of one compilation unit, read through the real CU and abbreviation table classes."""
    big, d64, asize, ver = inp['big'], inp['d64'], inp['asize'], inp['ver']
    bo = 'big' if big else 'little'
    body, want, abbrev = b'', [], b''
    for k, (name, raw, neg) in enumerate(inp['forms']):
        b, v = encode(name, raw, neg, big, d64, asize)
        want.append((len(b), v, name))
        body += b
        abbrev += enc_uleb(0x2100 + k) + enc_uleb(FORMS[name])
        if name == 'implicit_const':
            abbrev += enc_sleb(v)
    if inp['unknown'] is not None:
        abbrev += enc_uleb(0x3000) + enc_uleb(inp['unknown'])
    ablead = b'\1\2\3'
    abbrev = ablead + enc_uleb(1) + enc_uleb(0x11) + b'\0' + abbrev + b'\0\0' + b'\0'
    osz = 8 if d64 else 4
    if ver == 5:
        head = (5).to_bytes(2, bo) + b'\1' + bytes([asize]) + len(ablead).to_bytes(osz, bo)
    else:
        head = ver.to_bytes(2, bo) + len(ablead).to_bytes(osz, bo) + bytes([asize])
    unit = head + enc_uleb(1) + body
    length = (b'\xff\xff\xff\xff' + len(unit).to_bytes(8, bo)) if d64 else len(unit).to_bytes(4, bo)
    lead = bytes(inp['lead'])
    info = lead + length + unit
    e = mkelf(big, 64 if asize == 8 else 32, [('.debug_abbrev', 1, 0, 0, abbrev), ('.debug_info', 1, 0, 0, info)])
    CU = fn('elf', 'Dwarf_CU', 3)
    Exc = fn('elf', 'Elf_Exception')
    cu = CU(e, info, len(lead))
    eq(cu.size, len(length) + len(unit), 'size of the unit')
    first = len(lead) + len(length) + len(head)
    try:
        dies = cu.get_DIEs()
        if inp['unknown'] is not None:
            return f'form {inp["unknown"]:#x} is not rejected'
    except Exc as x:
        if inp['unknown'] is None:
            return f'unexpected Elf_Exception: {x}'
        return None
    need(first in dies, 'no entry at offset', first, list(dies))
    die = dies[first]
    eq(die['tag'], 0x11, 'tag')
    pos = first + 1
    for k, (n, v, name) in enumerate(want):
        a = die['attrs'][0x2100 + k]
        eq(a['offset'], pos, f'offset of {name}')
        eq(a['size'], n, f'bytes consumed by {name}')
        if name in RELATIVE:
            v += len(lead)
        eq(a['value'], v, f'value of {name}')
        pos += n
    eq(die['size'], pos - first, 'size of the entry')


# ------------------------------------------------------------------ nested entries of several units, cached evaluation
KINDS = ['fun', 'fun', 'var', 'var', 'decl', 'vardecl', 'frame', 'outer', 'block', 'far', 'near', 'farvar']


def g_units(rng):
    units, n = [], 0

    def kids(depth):
        nonlocal n
        out = []
        for _ in range(rng.randint(0, 4 if depth == 0 else 2)):
            k = rng.choice(KINDS)
            if depth > 1 and k in ('outer', 'block'):
                k = 'fun'
            n += 1
            out.append([k, 0x1000 + 16 * n, rng.random() < 0.85, rng.getrandbits(10), kids(depth + 1) if k in ('outer', 'block') else []])
        return out
    for u in range(rng.randint(1, 3)):
        units.append({'name': rng.choice(['/p/main/a.c', 'b.c', '/q/comp/x/y.c', '<artificial>']), 'kids': kids(0),
                      'style': rng.choice(['strp', 'line_strp', 'string']),
                      'wide': rng.random() < .3, 'version': rng.choice([4, 4, 5, 3]), 'shift': rng.random() < .3})
    return {'units': units, 'big': rng.random() < .3, 'twice': rng.random() < .5}


@case('C10', 'C12', gen=g_units)
def units(inp):
    """Symbols get the name of the compilation unit that defines the function or variable at their address (the unit of the
    abstract definition, if the entry refers to one); entries at addresses that are no symbol are ignored."""
    big = inp['big']
    bo = 'big' if big else 'little'
    strs, lstrs, info = b'\0', b'\0', b''
    ab = b''

    def abbrev(code, tag, children, *attrs):
        nonlocal ab
        ab += enc_uleb(code) + enc_uleb(tag) + bytes([children]) + b''.join(enc_uleb(a) + enc_uleb(f) for a, f in attrs) + b'\0\0'
    for code, form in ((1, 0xe), (2, 0x1f), (3, 0x8)):
        abbrev(code, 0x11, 1, (0x3, form))
    abbrev(4, 0x2e, 0, (0x11, 1))                   # function
    abbrev(5, 0x34, 0, (0x2, 0x18))                 # variable with a location
    abbrev(6, 0x2e, 0, (0x3b, 0xb))                 # declaration or abstract function
    abbrev(7, 0x34, 0, (0x3b, 0xb))                 # variable without location
    abbrev(8, 0x2e, 0, (0x31, 0x10), (0x11, 1))     # function with abstract origin in any unit
    abbrev(9, 0x34, 0, (0x2, 0x18), (0x31, 0x13))   # variable with abstract origin in the same unit
    abbrev(10, 0x0b, 1)                             # block
    abbrev(11, 0x2e, 1, (0x11, 1))                  # function with entries below it
    abbrev(12, 0x34, 0, (0x31, 0x10), (0x2, 0x18))  # variable with abstract origin in any unit
    ab += b'\0'
    syms, want = [], {}
    anywhere = []
    for u in inp['units']:
        nm = u['name'].encode()
        base = len(info)
        body = b''
        wide, version = u.get('wide', False), u.get('version', 4)
        osz = 8 if wide else 4                      # offsets of 64-bit units have 8 bytes
        taboff = len(ab) if u.get('shift') else 0   # units may use different tables of abbreviations
        if version == 5:
            head = (5).to_bytes(2, bo) + b'\1\4' + taboff.to_bytes(osz, bo)
        else:
            head = version.to_bytes(2, bo) + taboff.to_bytes(osz, bo) + b'\4'
        hsize = len(head) + (12 if wide else 4)
        if u['style'] == 'strp':
            body = enc_uleb(1) + len(strs).to_bytes(osz, bo)
            strs += nm + b'\0'
        elif u['style'] == 'line_strp':
            body = enc_uleb(2) + len(lstrs).to_bytes(osz, bo)
            lstrs += nm + b'\0'
        else:
            body = enc_uleb(3) + nm + b'\0'
        here = []

        def put(kids):
            nonlocal body
            for kind, addr, known, pick, below in kids:
                pos = hsize + len(body)
                a = addr.to_bytes(4, bo)
                loc = enc_uleb(5) + b'\3' + a
                unit = u['name']
                if kind == 'far' and anywhere:
                    off, unit = anywhere[pick % len(anywhere)]
                    body += enc_uleb(8) + off.to_bytes(osz, bo) + a
                elif kind == 'farvar' and anywhere:
                    off, unit = anywhere[pick % len(anywhere)]
                    body += enc_uleb(12) + off.to_bytes(osz, bo) + loc
                elif kind == 'near' and here:
                    body += enc_uleb(9) + loc + here[pick % len(here)].to_bytes(4, bo)
                elif kind in ('var', 'near', 'farvar'):
                    body += enc_uleb(5) + loc
                elif kind == 'decl':
                    body += enc_uleb(6) + b'\7'
                elif kind == 'vardecl':
                    body += enc_uleb(7) + b'\7'
                elif kind == 'frame':
                    body += enc_uleb(5) + enc_uleb(2) + b'\x91\x10'   # frame relative, not evaluated
                elif kind == 'block':
                    body += enc_uleb(10)
                elif kind == 'outer':
                    body += enc_uleb(11) + a
                else:
                    body += enc_uleb(4) + a
                if kind in ('decl', 'vardecl'):
                    here.append(pos)
                    anywhere.append((base + pos, u['name']))
                if kind in ('block', 'outer'):
                    put(below)
                    body += b'\0'
                if known:
                    fun = kind in ('fun', 'far', 'outer', 'decl')
                    syms.append((f's{addr:x}', addr, 8, 2 if fun else 1, 1))
                    want[addr] = None if kind in ('decl', 'vardecl', 'frame', 'block') else unit
        put(u['kids'])
        body += b'\0'
        n = len(head + body)
        info += (b'\xff' * 4 + n.to_bytes(8, bo) if wide else n.to_bytes(4, bo)) + head + body
    if any(u.get('shift') for u in inp['units']):
        ab += ab                                    # the same table again
    syms += [('abs', 0x9000, 4, 2, 0xfff1), ('empty', 0x9010, 0, 2, 1), ('sect', 0x9020, 4, 3, 1)]
    e = mkelf(big, 32, [('.debug_abbrev', 1, 0, 0, ab), ('.debug_info', 1, 0, 0, info), ('.debug_str', 1, 0, 0, strs),
                        ('.debug_line_str', 1, 0, 0, lstrs)], syms)
    for _ in range(2 if inp['twice'] else 1):
        got = e.add_cus_to_symbols()
        eq({a: s.cu_name for a, s in got.items()}, want, 'compilation unit names of symbols')
        eq({a: (s.name, s.st_value, s.st_size) for a, s in got.items()}, {a: (f's{a:x}', a, 8) for a in want}, 'symbols')


# ------------------------------------------------------------------ symbol and section tables
def g_tables(rng):
    secs = [(rng.choice(gen.SECTIONS), rng.choice([1, 8, 1, 3]), rng.choice([0, 2, 3, 6]), rng.getrandbits(31), rng.randint(0, 20))
            for _ in range(rng.randint(0, 5))]
    syms = [(rng.choice(gen.SYMBOLS), rng.getrandbits(31), rng.choice([0, 4, rng.getrandbits(20)]), rng.randint(0, 255),
             rng.choice([1, 0xfff1, 0])) for _ in range(rng.randint(0, 6))]
    return {'secs': secs, 'syms': syms, 'big': rng.random() < .5, 'bits': rng.choice([32, 64])}


@case('C10', gen=g_tables)
def tables(inp):
    e = mkelf(inp['big'], inp['bits'], inp['secs'], [tuple(s) for s in inp['syms']])
    got = [(h.name, h.sh_type, h.sh_flags, h.sh_addr, h.sh_size) for h in e.shdrs]
    eq(got[1:1 + len(inp['secs'])], [tuple(s) for s in inp['secs']], 'section headers')
    got = [(s.name, s.st_value, s.st_size, s.st_info, s.st_shndx, s.type, s.bind) for s in e.symbols]
    eq(got[1:], [tuple(s) + (s[3] & 15, s[3] >> 4) for s in inp['syms']], 'symbols')
    for s in {s[0] for s in inp['secs']}:
        want = [x for x in inp['secs'] if x[0] == s][0]
        h = e.lookup_shdr(s)
        eq((h.sh_addr, h.sh_size), (want[3], want[4]), 'lookup_shdr')
    eq(e.lookup_shdr('.nope'), None, 'lookup_shdr of an unknown section')
