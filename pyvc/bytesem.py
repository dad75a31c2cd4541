"""Byte strings: an uninterpreted sort with the operations the code uses on it (models of the language, trusted)."""
import z3

from logic import FACTS, Str, Unsupported, b_and, is_z3, lift, sort_of

Bytes = z3.DeclareSort('Bytes')
I = z3.IntSort()
at = z3.Function('bytes/at', Bytes, I, I)
length = z3.Function('bytes/len', Bytes, I)
cut = z3.Function('bytes/slice', Bytes, I, I, Bytes)
number = z3.Function('bytes/int', Bytes, Str, z3.BoolSort(), I)
zero = z3.Function('bytes/zero', Bytes, I, I)
_b, _i = z3.Const('b!', Bytes), z3.Int('i!')
FACTS.append((('bytes/at',), z3.ForAll([_b, _i], z3.And(at(_b, _i) >= 0, at(_b, _i) <= 255))))
FACTS.append((('bytes/len',), z3.ForAll([_b], length(_b) >= 0)))


def is_bytes(v):
    return is_z3(v) and v.sort() == Bytes


def index(eng, st, fr, o, i, n):
    i = lift(i)
    if not is_z3(i) or i.sort() != I:
        raise Unsupported('index of bytes')
    if z3.is_int_value(i) and i.as_long() < 0:
        i = length(o) + i
    eng.oblige(st, b_and(i >= 0, i < length(o)), eng.name(fr, n, 'index inside of the bytes'))
    eng.used.add('bytes[i]: the byte at the index')
    return st, at(o, i)


def slice_(eng, st, fr, o, n):
    sl = n.slice
    if sl.step is not None:
        raise Unsupported('slice with a step')
    st, a = eng.ev(st, fr, sl.lower) if sl.lower else (st, 0)
    st, b = eng.ev(st, fr, sl.upper) if sl.upper else (st, length(o))
    a, b = lift(a), lift(b)
    if not all(is_z3(x) and x.sort() == I for x in (a, b)):
        raise Unsupported('slice of bytes')
    eng.used.add('bytes[a:b]: the bytes from a up to b')
    return st, cut(o, a, b)


def from_bytes(eng, st, fr, f, args, kwargs, n):
    a = dict(zip(('bytes', 'byteorder'), args), **kwargs)
    s = a.pop('signed', False)
    if set(a) != {'bytes', 'byteorder'} or not is_bytes(a['bytes']) or sort_of(a['byteorder']) != Str or sort_of(s) != z3.BoolSort():
        raise Unsupported('int.from_bytes')
    eng.used.add('int.from_bytes(): the number with these bytes in the byte order, as two\'s complement if signed')
    return st, number(a['bytes'], lift(a['byteorder']), lift(s))


def find(eng, st, fr, f, args, kwargs, n):
    """bytes.index(b'\\0', start)"""
    from engine import ConstBytes
    from library import method
    if not is_bytes(f.self_):
        return method(eng, st, fr, f.self_, 'index', args, kwargs, n)
    if kwargs or not args or not isinstance(args[0], ConstBytes) or args[0].b != b'\0' or len(args) > 2:
        raise Unsupported('bytes.index')
    o = lift(args[1] if len(args) > 1 else 0)
    eng.used.add("bytes.index(b'\\0', start): the position of the first zero byte at or behind start (raises an exception if there is none)")
    return st, zero(f.self_, o)


def install(eng):
    eng.externals['int.from_bytes'] = from_bytes
    eng.externals['method.index'] = find
