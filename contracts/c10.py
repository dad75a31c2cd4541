"""Primitive values of ELF and DWARF data."""
import z3

from spec import INT, R, STR, mk
from logic import Obj, Unsupported, b_and, b_implies, b_not, b_or, eqt, fresh_var, is_z3, lift, valid
from bytesem import Bytes, at, cut, install, length, number, zero
from engine import Handler, Out, PyFn
from values import Choice, Rec, Ref, Tup
import cmn
import steps
from cmn import val

I = z3.IntSort()
p2 = z3.Function('pow2', I, I)
U = z3.Function('uleb', Bytes, I, I, I)     # value of the first n bytes as an unsigned LEB128 number
N = z3.Function('leb length', Bytes, I, I)  # number of bytes of the number at an offset

ASSUMPTIONS = ['precondition: the data has the encoded value at the offset (all of its bytes; the last byte of a LEB128 number)',
               'precondition: the attributes of a unit were set by Dwarf_CU.__init__ (under contract here)',
               'loop of get_uleb128 by induction on the number of bytes']
ELF = R('Elf', _byteorder=STR, ehdr=R('Elf_Ehdr', e_ident=Bytes))


def part(b, n):
    """bits 0 to 6 of a byte of the number"""
    return at(b, n) % 128


def unfold(b, o, n):
    """the definition of the value of n and n + 1 bytes, and of the powers of two in it"""
    return b_and(eqt(U(b, o, 0), 0), eqt(U(b, o, n + 1), U(b, o, n) + part(b, o + n) * p2(7 * n)), eqt(p2(0), 1), p2(7 * n) > 0,
                 eqt(p2(7 * n + 7), 128 * p2(7 * n)))


def encoded(b, o):
    """there is a LEB128 number at the offset"""
    j = z3.Int('j!')
    n = N(b, o)
    return b_and(o >= 0, n >= 1, o + n <= length(b), at(b, o + n - 1) < 128, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n - 1), at(b, o + j) >= 128)))


def loop(P, b, o):
    """invariant: after k bytes, the counters have grown by k times a constant, the result is the value of the k bytes, and
    other variables hold the last byte, or whether there are more"""
    seen = []

    def rule(eng, st, fr, n):
        import itertools
        if seen or n.orelse:
            raise Unsupported('more than one while loop')
        seen.append(n)
        names = sorted(x for x in steps.assigned(n.body) if x in st.frames[fr.fid])
        start = {x: st.frames[fr.fid][x] for x in names}
        for x, v in start.items():
            if not (isinstance(v, (int, bool)) or is_z3(v) and v.sort() in (I, z3.BoolSort())):
                raise Unsupported(f'variable {x} of the loop')
        k, last = z3.FreshInt('k'), N(b, o)

        def head(vals, *facts):
            s = st.copy()
            steps.forget(s, fr, steps.assigned(n.body) - set(vals))
            s.frames[fr.fid].update(vals)
            s = s.assume(*facts)
            base = s.pc
            s, c = eng.cond(s, fr, n.test)
            return base, s, c

        def once(vals, *facts):
            base, s, c = head(vals, *facts)
            if c is False:
                return base, None, [], []
            out = steps.body_once(eng, s.assume(c), fr, n, ('break', 'return'))
            P.add(f'{P.label}: the loop raises no exception', not any(x.kind == 'raise' for x in out.exits))
            return base, out.state, [x.state for x in out.exits if x.kind == 'break'], [x for x in out.exits if x.kind == 'return']

        def quietly(f):
            n0, m0 = len(eng.obligations), len(P.obligations)
            try:
                return f()
            finally:
                del eng.obligations[n0:], P.obligations[m0:]
        # which variables are counters?
        vals = {x: z3.FreshConst(lift(start[x]).sort(), x) for x in names}
        _, go, _, _ = quietly(lambda: once(vals, k >= 0))
        forms = {}
        for x in names:
            if lift(start[x]).sort() == z3.BoolSort():
                forms[x] = [lambda k: k < last, lambda k: k >= last]
                continue
            d = None if go is None else z3.simplify(lift(go.frames[fr.fid][x]) - vals[x])
            if d is not None and z3.is_int_value(d):
                forms[x] = [lambda k, x=x, d=d: lift(start[x]) + d * k]
            else:
                forms[x] = [lambda k: U(b, o, k), lambda k, x=x: z3.If(k == 0, lift(start[x]), at(b, o + k - 1)),
                            lambda k, x=x: z3.If(k == 0, lift(start[x]), at(b, o + k - 1) / 128 * 128)]
        bounds = lambda k: b_and(U(b, o, k) >= 0, U(b, o, k) < p2(7 * k))
        byte = lambda k: b_and(at(b, o + k - 1) >= 0, at(b, o + k - 1) < 256)   # bytes are between 0 and 255
        facts = (k >= 0, k < last, bounds(k), unfold(b, o, k), byte(k))

        def kept(inv):
            if not valid(st.pc + (unfold(b, o, lift(0)),), b_and(*[eqt(lift(start[x]), inv[x](lift(0))) for x in names])):
                return False
            go = once({x: inv[x](k) for x in names}, *facts)[1]
            return go is None or all(valid(go.pc, eqt(lift(go.frames[fr.fid][x]), inv[x](k + 1))) for x in names)
        invs = [dict(zip(names, c)) for c in itertools.product(*[forms[x] for x in names])]
        inv = next((i for i in invs if quietly(lambda: kept(i))), invs[0]) if len(invs) > 1 else invs[0]
        P.out = st
        P.prove('on entry', b_and(*[eqt(lift(start[x]), inv[x](lift(0))) for x in names]), (unfold(b, o, lift(0)),))
        P.prove('bounds on entry', bounds(lift(0)), (unfold(b, o, lift(0)),))
        # behind the last byte, is the loop left by its condition?
        base, end, c = head({x: inv[x](last) for x in names}, unfold(b, o, last - 1), bounds(last), byte(last))
        closed = valid(end.pc, b_not(c))
        _, s, c = head({x: inv[x](k) for x in names}, *facts)
        P.out = s
        P.prove('the condition holds inside of the number', c)
        _, go, left, returns = once({x: inv[x](k) for x in names}, *facts)
        if go is not None:
            P.out = go
            P.prove('the loop goes on inside of the number', k + 1 <= last if closed else k + 1 < last)
            for x in names:
                P.prove(f'the value of {x}', eqt(lift(go.frames[fr.fid][x]), inv[x](k + 1)))
        P.out = st
        P.prove('bounds', bounds(k + 1), (k >= 0, bounds(k), unfold(b, o, k)))
        if not left and not returns and not closed:
            raise Unsupported('loop without end')
        for s in left + [x.state for x in returns]:
            P.out = s
            P.prove('the loop is left behind the last byte', eqt(k, last - 1))
        for x in returns:
            x.state = x.state.assume(eqt(k, last - 1))
        left = [s.assume(eqt(k, last - 1)) for s in left]
        if closed and left:
            raise Unsupported('two ends of a loop')
        if closed:
            return Out(end, returns)
        if not left:
            return Out(None, returns)
        s, _ = eng.merge(st.pc, [(eng.guard(st.pc, s), s, None) for s in left])
        return Out(s.assume(eqt(k, last - 1)), returns)
    P.eng.while_rule = rule


def elf(P, label):
    eng = P.engine(label)
    install(eng)
    return eng, P.arg(ELF, 'elf'), mk(Bytes, 'data'), mk(INT, 'offset')


def method(P, o, name, *args):
    """call a method; state and value of the normal return"""
    eng = P.eng
    node, mod, _ = eng.member(P.st.heap[o.rid].cls, name)
    if node is None:
        raise Unsupported(f'method {name} does not exist')
    out, v = eng.call(P.st, PyFn(node, None, mod), [o] + list(args))
    P.functions.add(f'elf.{name}')
    P.raises = out.exits
    if out.state is None:
        raise Unsupported(f'{name} never returns')
    P.out = out.state
    from logic import consistent
    P.add(f'{P.label}: some input reaches the end of {name} (the contract is not vacuous)', consistent(list(out.state.pc)))
    return v


def get_uleb128(P):
    eng, e, d, o = elf(P, 'get_uleb128')
    P.assume(encoded(d, o))
    loop(P, d, o)
    r = method(P, e, 'get_uleb128', d, o)
    n = N(d, o)
    P.equal('value and offset', r, Tup([U(d, o, n), o + n]), (unfold(d, o, n - 1),))
    P.unchanged('the ELF file', e)


def uleb(P):
    """get_uleb128 by its contract"""
    def f(eng, st, args, kwargs):
        a = dict(zip(('self', 'data', 'offset'), args), **kwargs)
        d, o = a['data'], lift(a.get('offset', 0))
        n = N(d, o)
        st = st.assume(U(d, o, n) >= 0, U(d, o, n) < p2(7 * n), n >= 1, o + n <= length(d), o >= 0)
        return st, Tup([U(d, o, n), o + n])
    P.eng.contracts[('elf', 'get_uleb128')] = f
    P.functions.add('elf.get_uleb128')


def signed(d, o):
    n = N(d, o)
    u = U(d, o, n)
    return z3.If(at(d, o + n - 1) % 128 >= 64, u - p2(7 * n), u)


def get_sleb128(P):
    eng, e, d, o = elf(P, 'get_sleb128')
    P.assume(encoded(d, o))
    uleb(P)
    r = method(P, e, 'get_sleb128', d, o)
    P.equal('value and offset', r, Tup([signed(d, o), o + N(d, o)]))
    P.unchanged('the ELF file', e)


def num(e, d, o, size, sign=False):
    return number(cut(d, o, o + size), val(e, '_byteorder'), z3.BoolVal(sign))


def fixed(P):
    """integers of a fixed size, addresses, bytes and strings"""
    for name, size, sign in [(f'get_{"s" if s else "u"}int{8 * n}', n, s) for s in (False, True) for n in (1, 2, 3, 4, 8, 16)]:
        eng, e, d, o = elf(P, name)
        r = method(P, e, name, d, o)
        P.equal('value and offset', r, Tup([num(P.st.heap[e.rid], d, o, size, sign), o + size]))
        P.unchanged('the ELF file', e)
        r = method(P, e, name, d)
        P.equal('value and offset by default', r, Tup([num(P.st.heap[e.rid], d, lift(0), size, sign), lift(size)]))
    eng, e, d, o = elf(P, 'get_address')
    ident = val(val(P.st.heap[e.rid], 'ehdr'), 'e_ident')
    P.assume(length(ident) >= 16)
    r = method(P, e, 'get_address', d, o)
    for size, c in ((4, eqt(at(ident, 4), 1)), (8, eqt(at(ident, 4), 2))):
        P.equal(f'value and offset with {size} bytes', r, Tup([num(P.st.heap[e.rid], d, o, size), o + size]), (c,))
    eng, e, d, o = elf(P, 'get_bytes')
    c = mk(INT, 'count')
    r = method(P, e, 'get_bytes', c, d, o)
    P.equal('value and offset', r, Tup([cut(d, o, o + c), o + c]))
    r = method(P, e, 'get_bytes', c, d)
    P.equal('value and offset by default', r, Tup([cut(d, lift(0), c), c]))
    eng, e, d, o = elf(P, 'get_int')
    for s in (False, True):
        r = method(P, e, 'get_int', d, c, o, s)
        P.equal('value and offset', r, Tup([num(P.st.heap[e.rid], d, o, c, s), o + c]))
    r = method(P, e, 'get_int', d, c)
    P.equal('value and offset by default', r, Tup([num(P.st.heap[e.rid], d, lift(0), c), c]))
    eng, e, d, o = elf(P, 'get_string')
    r = method(P, e, 'get_string', d, o)
    P.equal('value and offset', r, Tup([cut(d, o, zero(d, o)), zero(d, o) + 1]))


# DWARF 5, 7.5.6
FORMS = {0x01: 'address', 0x03: 'block 2', 0x04: 'block 4', 0x05: 'u 2', 0x06: 'u 4', 0x07: 'u 8', 0x08: 'string', 0x09: 'block leb', 0x0a: 'block 1',
         0x0b: 'u 1', 0x0c: 'u 1', 0x0d: 'sleb', 0x0e: 'offset', 0x0f: 'uleb', 0x10: 'offset', 0x11: 'ref 1', 0x12: 'ref 2', 0x13: 'ref 4', 0x14: 'ref 8',
         0x15: 'ref leb', 0x17: 'offset', 0x18: 'block leb', 0x19: 'true', 0x1a: 'uleb', 0x1c: 'u 4', 0x1d: 'offset', 0x1e: 'u 16', 0x1f: 'offset',
         0x20: 'u 8', 0x21: 'const', 0x22: 'uleb', 0x23: 'uleb', 0x24: 'u 8', 0x25: 'u 1', 0x26: 'u 2', 0x27: 'u 3', 0x28: 'u 4'}


def get_attr_value(P):
    eng, e, d, o = elf(P, 'get_attr_value')
    E = P.st.heap[e.rid]
    asz, osz = mk(INT, 'address_size'), mk(INT, 'offset_size')
    uleb(P)

    def sleb(eng, st, args, kwargs):
        a = dict(zip(('self', 'data', 'offset'), args), **kwargs)
        dd, oo = a['data'], lift(a.get('offset', 0))
        return st, Tup([signed(dd, oo), oo + N(dd, oo)])
    eng.contracts[('elf', 'get_sleb128')] = sleb

    def reader(size):
        def f(eng, st, args, kwargs):
            a = dict(zip(('data', 'offset'), args), **kwargs)
            oo = lift(a.get('offset', 0))
            return st, Tup([num(E, a['data'], oo, size), oo + size])
        return Handler(f)
    eng.handlers.update({('Dwarf_CU', 'get_address'): reader(asz), ('Dwarf_CU', 'get_offset'): reader(osz)})
    cu = P.give(Rec(dict(offset=(True, mk(INT, 'unit')), _elf=(True, E)), 'Dwarf_CU'))
    at_ = P.arg(R('Dwarf_Abbrev_Attr', attr=INT, form=INT, value=INT), 'attr')
    A, unit = P.st.heap[at_.rid], mk(INT, 'unit')
    form = val(A, 'form')
    r = method(P, cu, 'get_attr_value', at_, d, o)
    n = N(d, o)
    u, ul = U(d, o, n), o + n
    for f, what in FORMS.items():
        kind, _, size = what.partition(' ')
        if kind == 'block':
            cnt, st = (u, ul) if size == 'leb' else (num(E, d, o, int(size)), o + int(size))
            want = (cut(d, st, st + cnt), st + cnt)
        elif kind in ('u', 'ref'):
            want = (u, ul) if size == 'leb' else (num(E, d, o, int(size)), o + int(size))
            if kind == 'ref':
                want = (want[0] + unit, want[1])
        else:
            want = {'address': (num(E, d, o, asz), o + asz), 'offset': (num(E, d, o, osz), o + osz), 'string': (cut(d, o, zero(d, o)), zero(d, o) + 1),
                    'uleb': (u, ul), 'sleb': (signed(d, o), ul), 'true': (True, o), 'const': (val(A, 'value'), o)}[kind]
        P.equal(f'form {f:#04x}', r, Tup(list(want)), (eqt(form, f),))
    known = b_or(*[eqt(form, f) for f in FORMS])
    P.prove('unknown forms are rejected', known)
    P.raises_only('only unknown forms are rejected', b_not(known))
    P.add('get_attr_value: unknown forms raise an exception', bool(P.raises))
    for what, x in (('the unit', cu), ('the attribute', at_)):
        P.unchanged(what, x)


def new(P, cls, *args):
    o = P.give(Rec({}, cls))
    method(P, o, '__init__', *args)
    return P.out.heap[o.rid]


def attribute(P):
    """attributes of abbreviations"""
    eng, e, d, o = elf(P, 'Dwarf_Abbrev_Attr')
    uleb(P)
    eng.contracts[('elf', 'get_sleb128')] = lambda eng, st, a, kw: (st, Tup([signed(a[1], a[2]), a[2] + N(a[1], a[2])]))
    x = new(P, 'Dwarf_Abbrev_Attr', e, d, o)
    o2 = o + N(d, o)
    o3 = o2 + N(d, o2)
    form = U(d, o2, N(d, o2))
    P.equal('the attribute', val(x, 'attr'), U(d, o, N(d, o)))
    P.equal('the form', val(x, 'form'), form)
    P.equal('the offset', val(x, 'offset'), o)
    P.equal('the value of an implicit constant', val(x, 'value'), signed(d, o3), (eqt(form, 0x21),))
    P.equal('no value otherwise', val(x, 'value'), None, (b_not(eqt(form, 0x21)),))
    P.equal('the size of an implicit constant', val(x, 'size'), o3 + N(d, o3) - o, (eqt(form, 0x21),))
    P.equal('the size otherwise', val(x, 'size'), o3 - o, (b_not(eqt(form, 0x21)),))


def unit(P):
    """headers of compilation units: the sizes of addresses and offsets"""
    eng, e, d, o = elf(P, 'Dwarf_CU')
    E = P.st.heap[e.rid]
    x = new(P, 'Dwarf_CU', e, d, o)

    def reader(size):
        node, mod, _ = eng.member('Elf', f'get_uint{8 * size}')
        return eng.fnterm(PyFn(node, None, mod, e))
    l32 = num(E, d, o, 4)
    bad = []
    for osz, h, hs in ((4, 4, b_not(eqt(l32, 0xffffffff))), (8, 12, eqt(l32, 0xffffffff))):
        o1 = o + h
        ln = l32 if osz == 4 else num(E, d, o + 4, 8)
        version = num(E, d, o1, 2)
        P.prove(f'{8 * osz} bit unit: length', eqt(val(x, 'length'), ln), (hs,))
        P.prove(f'{8 * osz} bit unit: size', eqt(val(x, 'size'), ln + h), (hs,))
        P.prove(f'{8 * osz} bit unit: version', eqt(val(x, 'version'), version), (hs,))
        P.prove(f'{8 * osz} bit unit: offset reader', eqt(val(x, 'get_offset'), reader(osz)), (hs,))
        for v5, hv, oa, oo in ((True, eqt(version, 5), o1 + 3, o1 + 4), (False, version <= 4, o1 + 2 + osz, o1 + 2)):
            what = f'{8 * osz} bit unit version {"5" if v5 else "<= 4"}'
            asz = num(E, d, oa, 1)
            P.prove(f'{what}: address size', eqt(val(x, 'address_size'), asz), (hs, hv))
            P.prove(f'{what}: offset of the abbreviations', eqt(val(x, 'debug_abbrev_offset'), num(E, d, oo, osz)), (hs, hv))
            P.prove(f'{what}: offset of the first entry', eqt(val(x, '_die_offset'), o1 + (4 if v5 else 3) + osz), (hs, hv))
            for n in (4, 8):
                P.prove(f'{what}: reader of {n} byte addresses', eqt(val(x, 'get_address'), reader(n)), (hs, hv, eqt(asz, n)))
            bad.append(b_and(hs, hv, b_not(eqt(asz, 4)), b_not(eqt(asz, 8))))
        bad.append(b_and(hs, version > 5))
    P.prove('other units are rejected', b_not(b_or(*bad)))
    P.raises_only('only unknown versions and address sizes are rejected', b_or(*bad))
    P.equal('the offset', val(x, 'offset'), o)
    P.equal('the data', val(x, '_data'), d)
    # the length of a unit does not include the field with the length: the next unit is behind both
    cat = z3.Function('bytes/cat', Bytes, Bytes, Bytes)
    b, c, i, j = z3.Const('b!', Bytes), z3.Const('c!', Bytes), z3.Int('i!'), z3.Int('j!')
    lengths = (z3.ForAll([b, c], length(cat(b, c)) == length(b) + length(c)),
               z3.ForAll([b, i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= length(b)), length(cut(b, i, j)) == j - i)))
    P.prove('the next unit is behind the length field and the unit', eqt(length(val(x, 'unit_length')) + val(x, 'length'), val(x, 'size')),
            lengths + (o >= 0, o + 12 <= length(d)))


PARTS = cmn.parts(get_uleb128, get_sleb128, fixed, get_attr_value, attribute, unit)
