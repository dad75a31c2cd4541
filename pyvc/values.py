"""Symbolic Python values. Containers are immutable trees; variables refer to them by root and path."""
import itertools

import z3

from logic import (VARS, Idx, Str, Unsupported, b_and, b_ite, b_not, b_or, conjuncts, eqt, free_vars, fresh_var, is_z3, lift, sort_of, sub, unlit)


class Rec:
    """dict with constant keys, or an object with attributes"""
    def __init__(self, fields, cls=None):
        self.fields, self.cls = fields, cls     # name -> (present, value)


def cached(f):
    """f(key) evaluated once per key"""
    if getattr(f, 'is_cached', False):
        return f
    memo = {}

    def g(k):
        k = tuple(lift(x) for x in k) if isinstance(k, tuple) else lift(k)
        i = tuple(x.get_id() for x in k) if isinstance(k, tuple) else k.get_id()
        r = memo.get(i)
        if r is None:
            r = (f(k), k)      # the key is kept alive: ids are only unique among live terms
            memo[i] = r
        return r[0]
    g.is_cached = True
    return g


class Map:
    """dict with symbolic keys: dom(k) -> Bool, elem(k) -> value (meaningful if dom), before(k1, k2) or None"""
    def __init__(self, ksort, dom, elem, before=None):
        self.ksort, self.dom, self.elem, self.before = ksort, cached(dom), cached(elem), before


GROUP = itertools.count(1)


class Seg:
    """items of a list, indexed by a tuple of keys"""
    def __init__(self, sorts, dom, elem, before=None, mixed=()):
        # mixed: interleaved with the other parts of the same group: (group, number of common keys, their order) from the outside
        self.sorts, self.dom, self.elem, self.before, self.mixed = tuple(sorts), cached(dom), cached(elem), before, mixed


class Seq:
    def __init__(self, segs=()):
        self.segs = tuple(segs)


class SetV:
    """set of leaf values: has(x)"""
    def __init__(self, sort, has):
        self.sort, self.has = sort, has


class Tup:
    def __init__(self, items):
        self.items = tuple(items)


class Ref:
    def __init__(self, rid, path=()):
        self.rid, self.path = rid, tuple(path)

    def __repr__(self):
        return f'Ref({self.rid}{"".join("/" + (s[1] if s[0] == "f" else str(s[1:])) for s in self.path)})'


class Choice:
    def __init__(self, alts):
        self.alts = alts


class Empty:
    """{} before the first insertion"""


class Lost:
    def __init__(self, why):
        self.why = why


class UndefT:
    pass


Undef = UndefT()
LEAF = (bool, int, str, type(None))


def is_leaf(v):
    return isinstance(v, LEAF) or is_z3(v)


def empty_map(ksort):
    return Map(ksort, lambda k: False, lambda k: Undef, lambda a, b: False)


def subst(v, pairs):
    """substitute z3 constants in a value"""
    if is_z3(v):
        return sub(v, pairs)
    if isinstance(v, (LEAF, UndefT, Empty, Lost)):
        return v
    if isinstance(v, Rec):
        return Rec({n: (sub(c, pairs), subst(x, pairs)) for n, (c, x) in v.fields.items()}, v.cls)
    if isinstance(v, Map):
        return Map(v.ksort, lambda k: _unwrap(v.dom, pairs, k), lambda k: _unwrapv(v.elem, pairs, k),
                   None if v.before is None else (lambda a, b: _unwrap(v.before, pairs, a, b)))
    if isinstance(v, Seq):
        return Seq([subst_seg(s, pairs) for s in v.segs])
    if isinstance(v, SetV):
        return SetV(v.sort, lambda k: _unwrap(v.has, pairs, k))
    if isinstance(v, Tup):
        return Tup([subst(x, pairs) for x in v.items])
    if isinstance(v, Ref):
        return Ref(v.rid, [subst_step(s, pairs) for s in v.path])
    if isinstance(v, Choice):
        return Choice([(sub(g, pairs), subst(x, pairs)) for g, x in v.alts])
    return v


def subst_step(s, pairs):
    if s[0] == 'k':
        return ('k', sub(s[1], pairs) if is_z3(s[1]) else s[1])
    if s[0] == 's':
        return ('s', s[1], tuple(sub(x, pairs) if is_z3(x) else x for x in s[2]))
    return s


def subst_seg(s, pairs):
    return Seg(s.sorts, lambda ks: _unwrap(s.dom, pairs, ks), lambda ks: _unwrapv(s.elem, pairs, ks),
               None if s.before is None else (lambda a, b: _unwrap(s.before, pairs, a, b)),
               tuple((g, k, None if f is None else (lambda a, b, f=f: _unwrap(f, pairs, a, b))) for g, k, f in s.mixed))


def _fresh_like(k):
    if isinstance(k, tuple):
        return tuple(_fresh_like(x) for x in k)
    return fresh_var(k.sort(), 'u')


def _flat(a, b):
    if isinstance(a, tuple):
        return [p for x, y in zip(a, b) for p in _flat(x, y)]
    return [(a, lift(b))]


def _unwrap(f, pairs, *ks):
    # the keys may contain the substituted constants: evaluate at new constants, substitute, then put the keys in
    us = [_fresh_like(_lk(k)) for k in ks]
    r = sub(f(*us), pairs)
    back = [p for u, k in zip(us, ks) for p in _flat(u, k)]
    return sub(r, back)


def _unwrapv(f, pairs, *ks):
    us = [_fresh_like(_lk(k)) for k in ks]
    r = subst(f(*us), pairs)
    back = [p for u, k in zip(us, ks) for p in _flat(u, k)]
    return subst(r, back)


def _lk(k):
    if isinstance(k, tuple):
        return tuple(_lk(x) for x in k)
    return lift(k)


def same_path(p, q):
    if len(p) != len(q):
        return False
    for a, b in zip(p, q):
        if a[0] != b[0]:
            return False
        if a[0] == 'f' and a[1] != b[1]:
            return False
        if a[0] in ('s', 't', 'a') and a[1] != b[1]:
            return False
    return True


def ite(c, a, b):
    """merge two values under a condition"""
    if a is b:
        return a
    if c is True or (is_z3(c) and z3.is_true(c)):
        return a
    if c is False or (is_z3(c) and z3.is_false(c)):
        return b
    if a is Undef:
        return b
    if b is Undef:
        return a
    if isinstance(a, Lost):
        return a
    if isinstance(b, Lost):
        return b
    if is_leaf(a) and is_leaf(b):
        if a is None and b is None:
            return None
        sa, sb = sort_of(a), sort_of(b)
        if sa is not None and sa == sb:
            return b_ite(c, a, b)
        return choice([(c, a), (b_not(c), b)])
    if isinstance(a, Empty) and isinstance(b, Empty):
        return a
    if isinstance(a, Empty) and isinstance(b, Map):
        return ite(c, empty_map(b.ksort), b)
    if isinstance(a, Map) and isinstance(b, Empty):
        return ite(c, a, empty_map(a.ksort))
    if isinstance(a, Empty) and isinstance(b, Rec):
        return ite(c, Rec({}), b)
    if isinstance(a, Rec) and isinstance(b, Empty):
        return ite(c, a, Rec({}))
    if isinstance(a, Rec) and isinstance(b, Rec):
        out = {}
        for n in list(a.fields) + [x for x in b.fields if x not in a.fields]:
            ca, va = a.fields.get(n, (False, Undef))
            cb, vb = b.fields.get(n, (False, Undef))
            out[n] = (b_ite(c, ca, cb), ite(c, va, vb))
        return Rec(out, a.cls)
    if isinstance(a, Map) and isinstance(b, Map):
        if a.ksort != b.ksort:
            raise Unsupported('maps with different key sorts')
        before = None
        if a.before is b.before:
            before = a.before
        elif a.before and b.before:
            before = lambda x, y: b_ite(c, a.before(x, y), b.before(x, y))
        return Map(a.ksort, lambda k: b_ite(c, a.dom(k), b.dom(k)), lambda k: ite(c, a.elem(k), b.elem(k)), before)
    if isinstance(a, Seq) and isinstance(b, Seq):
        i = 0
        while i < len(a.segs) and i < len(b.segs) and (seg_same(a.segs[i], b.segs[i]) or seg_same_at(c, a.segs[i], b.segs[i])):
            i += 1
        segs = list(b.segs[:i])
        # lists of the same shape differ only in the values
        if len(a.segs) == len(b.segs) and all(x.sorts == y.sorts for x, y in zip(a.segs[i:], b.segs[i:])):
            for x, y in zip(a.segs[i:], b.segs[i:]):
                segs.append(Seg(x.sorts, lambda k, x=x, y=y: b_ite(c, x.dom(k), y.dom(k)), lambda k, x=x, y=y: ite(c, x.elem(k), y.elem(k)),
                                x.before if x.before is y.before else None, x.mixed or y.mixed))
            return Seq(segs)
        nc = b_not(c)
        for s in a.segs[i:]:
            segs.append(Seg(s.sorts, lambda k, s=s: b_and(c, s.dom(k)), s.elem, s.before, s.mixed))
        for s in b.segs[i:]:
            segs.append(Seg(s.sorts, lambda k, s=s: b_and(nc, s.dom(k)), s.elem, s.before, s.mixed))
        return Seq(segs)
    if isinstance(a, SetV) and isinstance(b, SetV):
        return SetV(a.sort if a.sort is not None else b.sort, lambda k: b_ite(c, a.has(k), b.has(k)))
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([ite(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Ref) and isinstance(b, Ref) and a.rid == b.rid and same_path(a.path, b.path):
        path = []
        for s, t in zip(a.path, b.path):
            if s[0] == 'k':
                path.append(('k', b_ite(c, s[1], t[1])))
            elif s[0] == 's':
                path.append(('s', s[1], tuple(b_ite(c, x, y) for x, y in zip(s[2], t[2]))))
            else:
                path.append(s)
        return Ref(a.rid, path)
    if a is b or (type(a) is type(b) and getattr(a, 'same', None) and a.same(b)):
        return a
    return choice([(c, a), (b_not(c), b)])


def seg_same_at(c, x, y):
    """is x the value of y at the key that the condition fixes?"""
    if x.sorts != y.sorts:
        return False
    for e in conjuncts(c):
        if not z3.is_eq(e):
            continue
        for p, q in (e.children(), e.children()[::-1]):
            if p.get_id() in VARS and not any(v.eq(p) for v in free_vars(q)):
                ks = tuple(fresh_var(s, 'q') for s in x.sorts)
                pairs = [(p, q)]
                if value_eq(subst(x.dom(ks), pairs), subst(y.dom(ks), pairs)) and value_eq(subst(x.elem(ks), pairs), subst(y.elem(ks), pairs)):
                    return True
    return False


def seg_same(x, y):
    if x is y:
        return True
    if x.sorts != y.sorts:
        return False
    ks = tuple(fresh_var(s, 'q') for s in x.sorts)
    return value_eq(x.dom(ks), y.dom(ks)) and value_eq(x.elem(ks), y.elem(ks))


def value_eq(a, b, leaf=None):
    """are the values equal, leaf by leaf (syntactically, or by the given test)?"""
    if a is b:
        return True
    if is_leaf(a) and is_leaf(b):
        if a is None or b is None:
            return a is b
        la, lb = lift(a), lift(b)
        if la.sort() != lb.sort():
            return False
        return la.eq(lb) or (leaf is not None and leaf(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, Empty):
        return True
    if isinstance(a, Rec):
        return set(a.fields) == set(b.fields) and all(value_eq(a.fields[n][0], b.fields[n][0], leaf) and value_eq(a.fields[n][1], b.fields[n][1], leaf) for n in a.fields)
    if isinstance(a, Map):
        if a.ksort != b.ksort or (a.before is None) != (b.before is None):
            return False
        q, r = fresh_var(a.ksort, 'q'), fresh_var(a.ksort, 'q')
        return value_eq(a.dom(q), b.dom(q), leaf) and value_eq(a.elem(q), b.elem(q), leaf) and (a.before is b.before or value_eq(a.before(q, r), b.before(q, r), leaf))
    if isinstance(a, Seq):
        if len(a.segs) != len(b.segs):
            return False
        for x, y in zip(a.segs, b.segs):
            if x is y:
                continue
            if x.sorts != y.sorts:
                return False
            ks = tuple(fresh_var(s, 'q') for s in x.sorts)
            if not (value_eq(x.dom(ks), y.dom(ks), leaf) and value_eq(x.elem(ks), y.elem(ks), leaf)):
                return False
        return True
    if isinstance(a, SetV):
        if a.sort != b.sort:
            return False
        if a.sort is None:
            return True
        q = fresh_var(a.sort, 'q')
        return value_eq(a.has(q), b.has(q), leaf)
    if isinstance(a, Tup):
        return len(a.items) == len(b.items) and all(value_eq(x, y, leaf) for x, y in zip(a.items, b.items))
    if isinstance(a, Ref):
        return ref_eq(a, b)
    if isinstance(a, Choice):
        return len(a.alts) == len(b.alts) and all(value_eq(g, h, leaf) and value_eq(x, y, leaf) for (g, x), (h, y) in zip(a.alts, b.alts))
    return False


def choice(alts):
    out = []
    for g, v in alts:
        if g is False:
            continue
        if isinstance(v, Choice):
            out += [(b_and(g, h), x) for h, x in v.alts]
        else:
            out.append((g, v))
    out = [(g, v) for g, v in out if g is not False]
    # join equal alternatives
    res = []
    for g, v in out:
        for i, (h, w) in enumerate(res):
            if w is v or (w is None and v is None) or (isinstance(w, Ref) and isinstance(v, Ref) and ref_eq(w, v)):
                res[i] = (b_or(h, g), w)
                break
        else:
            res.append((g, v))
    if len(res) == 1:
        return res[0][1]
    return Choice(res)


def ref_eq(a, b):
    if a.rid != b.rid or not same_path(a.path, b.path):
        return False
    for s, t in zip(a.path, b.path):
        if s[0] == 'k' and not key_same(s[1], t[1]):
            return False
        if s[0] == 's' and any(not key_same(x, y) for x, y in zip(s[2], t[2])):
            return False
    return True


def key_same(x, y):
    if hasattr(x, 'excl') or hasattr(y, 'excl'):
        return hasattr(x, 'excl') and hasattr(y, 'excl')
    return lift(x).eq(lift(y))


def keq(a, b):
    return eqt(a, b)


def get(v, path):
    for s in path:
        if s[0] == 'a' and isinstance(v, Choice):
            v = v.alts[s[1]][1]
            continue
        if isinstance(v, (Choice, Lost)):
            raise Unsupported('path through a value of unknown shape')
        if v is Undef:
            return Undef
        if s[0] == 'f':
            if isinstance(v, Empty):
                return Undef
            if not isinstance(v, Rec):
                raise Unsupported(f'constant key {s[1]!r} in {type(v).__name__}')
            v = v.fields.get(s[1], (False, Undef))[1]
        elif s[0] == 'k':
            if isinstance(v, Empty):
                return Undef
            if not isinstance(v, Map):
                raise Unsupported(f'symbolic key in {type(v).__name__}')
            v = v.elem(s[1])
        elif s[0] == 't':
            if not isinstance(v, Tup):
                raise Unsupported(f'tuple item in {type(v).__name__}')
            v = v.items[s[1]]
        else:
            if not isinstance(v, Seq):
                raise Unsupported(f'index in {type(v).__name__}')
            v = v.segs[s[1]].elem(s[2])
    return v


def put(v, path, fn):
    """value v with the part at path replaced by fn(old part); a missing last key is added"""
    if not path:
        return fn(v)
    s, rest = path[0], path[1:]
    if s[0] == 'a' and isinstance(v, Choice):
        return Choice([(g, put(x, rest, fn) if i == s[1] else x) for i, (g, x) in enumerate(v.alts)])
    if v is Undef or isinstance(v, (Choice, Lost)):
        raise Unsupported('write into a value of unknown shape')
    if s[0] == 'f':
        if isinstance(v, Empty):
            v = Rec({})
        if not isinstance(v, Rec):
            raise Unsupported('constant key in a map')
        c, old = v.fields.get(s[1], (False, Undef))
        f = dict(v.fields)
        f[s[1]] = (c if rest else True, put(old, rest, fn))
        return Rec(f, v.cls)
    if s[0] == 't':
        if not isinstance(v, Tup):
            raise Unsupported('tuple item')
        return Tup([put(x, rest, fn) if i == s[1] else x for i, x in enumerate(v.items)])
    if s[0] == 'k':
        key = s[1]
        if isinstance(v, Empty):
            v = empty_map(lift(key).sort())
        if not isinstance(v, Map):
            raise Unsupported(f'symbolic key in {type(v).__name__}')
        old = v
        put(old.elem(key), rest, fn)      # raises here, not in the closure, if it is not possible

        def elem(q):
            base = old.elem(q)
            c = keq(q, key)
            if c is False:
                return base
            return ite(c, put(base, rest, fn), base)
        dom = old.dom
        before = old.before
        if not rest:
            dom = lambda q: b_or(keq(q, key), old.dom(q))
            before = None
            if old.before is not None:
                # a new key goes last
                def before(x, y):
                    isold = old.dom(lift(key))
                    return b_ite(isold, old.before(x, y), b_ite(keq(y, key), b_not(keq(x, key)), b_and(b_not(keq(x, key)), old.before(x, y))))
        return Map(old.ksort, dom, elem, before)
    if not isinstance(v, Seq):
        raise Unsupported('index in a value that is no list')
    seg = v.segs[s[1]]

    def selem(ks):
        base = seg.elem(ks)
        c = b_and(*[keq(a, b) for a, b in zip(ks, s[2])])
        if c is False:
            return base
        return ite(c, put(base, rest, fn), base)
    selem(s[2])
    segs = list(v.segs)
    segs[s[1]] = Seg(seg.sorts, seg.dom, selem, seg.before, seg.mixed)
    return Seq(segs)


# ------------------------------------------------------------------ schemas
def schema(v):
    if v is Undef:
        return None
    if isinstance(v, bool):
        return ('leaf', z3.BoolSort())
    if v is None:
        return ('none',)
    if is_leaf(v):
        return ('leaf', sort_of(v))
    if isinstance(v, Rec):
        return ('rec', {n: (schema(x), c is not True) for n, (c, x) in v.fields.items()})
    if isinstance(v, Empty):
        return ('empty',)
    if isinstance(v, Map):
        return ('map', v.ksort, schema(v.elem(fresh_var(v.ksort, 'q'))), v.before is not None)
    if isinstance(v, Seq):
        return ('seq', [(g.sorts, schema(g.elem(tuple(fresh_var(x, 'q') for x in g.sorts))), g.before is not None) for g in v.segs])
    if isinstance(v, SetV):
        return ('set', v.sort)
    if isinstance(v, Tup):
        return ('tup', [schema(x) for x in v.items])
    return ('other',)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == 'empty' and b[0] in ('map', 'rec', 'empty'):
        if b[0] == 'rec':
            return ('rec', {n: (s, True) for n, (s, o) in b[1].items()})
        return b
    if b[0] == 'empty':
        return join(b, a)
    if {a[0], b[0]} == {'seq', 'seqx'}:
        return ('seqx',)
    if a[0] != b[0]:
        return ('other',)
    if a[0] == 'rec':
        out = {}
        for n in list(a[1]) + [x for x in b[1] if x not in a[1]]:
            if n in a[1] and n in b[1]:
                out[n] = (join(a[1][n][0], b[1][n][0]), a[1][n][1] or b[1][n][1])
            else:
                out[n] = ((a[1].get(n) or b[1].get(n))[0], True)
        return ('rec', out)
    if a[0] == 'map':
        if a[1] != b[1]:
            return ('other',)
        return ('map', a[1], join(a[2], b[2]), a[3] and b[3])
    if a[0] == 'tup':
        if len(a[1]) != len(b[1]):
            return ('other',)
        return ('tup', [join(x, y) for x, y in zip(a[1], b[1])])
    if a[0] == 'set':
        return ('set', a[1] if a[1] is not None else b[1])
    if a[0] == 'seq':
        if [x[0] for x in a[1]] == [x[0] for x in b[1]]:
            return ('seq', [(x[0], join(x[1], y[1]), x[2] and y[2]) for x, y in zip(a[1], b[1])])
        return ('seqx',)
    if a[0] == 'leaf' and a[1] != b[1]:
        return ('other',)
    return a


def leaves(s, pat=(), ksorts=()):
    """(pattern, sorts of the keys on the way, kind) of every leaf"""
    if s is None:
        return
    if s[0] == 'leaf':
        yield pat, ksorts, s[1]
    elif s[0] == 'rec':
        for n, (x, opt) in s[1].items():
            if opt:
                yield pat + (('has', n),), ksorts, z3.BoolSort()
            yield from leaves(x, pat + (('f', n),), ksorts)
    elif s[0] == 'map':
        yield pat + (('dom',),), ksorts + (s[1],), z3.BoolSort()
        if s[3]:
            yield pat + (('ord',),), ksorts + (s[1], s[1]), z3.BoolSort()
        yield from leaves(s[2], pat + (('k',),), ksorts + (s[1],))
    elif s[0] == 'set':
        if s[1] is not None:
            yield pat + (('in',),), ksorts + (s[1],), z3.BoolSort()
    elif s[0] == 'seq':
        for i, (srt, x, _) in enumerate(s[1]):
            yield pat + (('sdom', i),), ksorts + tuple(srt), z3.BoolSort()
            yield from leaves(x, pat + (('s', i),), ksorts + tuple(srt))
    elif s[0] == 'seqx':
        yield pat, ksorts, 'seqx'
    elif s[0] == 'tup':
        for i, x in enumerate(s[1]):
            yield from leaves(x, pat + (('t', i),), ksorts)
    elif s[0] in ('other', 'none', 'empty'):
        yield pat, ksorts, s[0]


def default(sort):
    if sort == z3.BoolSort():
        return False
    if sort == z3.IntSort():
        return 0
    return z3.Const(f'default!{sort.name()}', sort)


def chain_leaf(v, pat, keys):
    """(condition that the leaf exists, its value or Undef)"""
    if not isinstance(v, (Rec, Map, Seq)):
        return _chain_leaf(v, pat, keys)
    memo = v.__dict__.setdefault('_cl', {})
    ks = tuple(lift(k) for k in keys)
    i = (pat,) + tuple(k.get_id() for k in ks)
    r = memo.get(i)
    if r is None:
        r = memo[i] = (_chain_leaf(v, pat, keys), ks)
    return r[0]


def _chain_leaf(v, pat, keys):
    c, n = True, 0
    for s in pat:
        if v is Undef:
            return False, Undef
        if isinstance(v, (Choice, Lost)):
            return True, Lost('unknown shape')
        if s[0] == 'f':
            if isinstance(v, Empty):
                return False, Undef
            p, v = v.fields.get(s[1], (False, Undef))
            c = b_and(c, p)
        elif s[0] == 'has':
            if isinstance(v, Empty):
                return c, False
            return c, v.fields.get(s[1], (False, Undef))[0]
        elif s[0] == 'k':
            if isinstance(v, Empty):
                return False, Undef
            c = b_and(c, v.dom(keys[n]))
            v = v.elem(keys[n])
            n += 1
        elif s[0] == 'dom':
            if isinstance(v, Empty):
                return c, False
            return c, v.dom(keys[n])
        elif s[0] == 'ord':
            if isinstance(v, Empty):
                return c, False
            if v.before is None:
                return c, Lost('order')
            return c, v.before(keys[n], keys[n + 1])
        elif s[0] == 'in':
            return c, v.has(keys[n])
        elif s[0] in ('s', 'sdom'):
            if s[1] >= len(v.segs):
                return False, Undef
            g = v.segs[s[1]]
            ks = tuple(keys[n:n + len(g.sorts)])
            if s[0] == 'sdom':
                return c, g.dom(ks)
            c = b_and(c, g.dom(ks))
            v = g.elem(ks)
            n += len(g.sorts)
        elif s[0] == 't':
            v = v.items[s[1]]
    return c, v


def norm(v, pat, keys, sort):
    """value of a leaf, with the default where it does not exist"""
    c, x = chain_leaf(v, pat, keys)
    if isinstance(x, Lost):
        return x
    if x is Undef or c is False:
        return default(sort)
    if isinstance(x, Choice) or (x is None) or (is_leaf(x) and sort_of(x) != sort):
        return Lost('leaf of another type')
    return b_ite(c, x, default(sort))


def build(s, leafval, pat=(), keys=(), orig=None):
    """the value of schema s whose leaves are leafval(pattern, keys); orig gives the order of maps and opaque parts"""
    if s is None:
        return Undef
    if s[0] == 'leaf':
        return leafval(pat, keys)
    if s[0] == 'rec':
        out = {}
        for n, (x, opt) in s[1].items():
            c = leafval(pat + (('has', n),), keys) if opt else True
            o = orig.fields.get(n, (False, None))[1] if isinstance(orig, Rec) else None
            out[n] = (c, build(x, leafval, pat + (('f', n),), keys, o))
        return Rec(out, getattr(orig, 'cls', None))
    if s[0] == 'map':
        om = orig if isinstance(orig, Map) else None

        def elem(q):
            return build(s[2], leafval, pat + (('k',),), keys + (q,), om.elem(q) if om else None)
        before = (lambda a, b: leafval(pat + (('ord',),), keys + (a, b))) if s[3] and leafval.keeps(pat) else None
        return Map(s[1], lambda q: leafval(pat + (('dom',),), keys + (q,)), elem, before)
    if s[0] == 'set':
        return SetV(s[1], (lambda q: leafval(pat + (('in',),), keys + (q,))) if s[1] is not None else (lambda q: False))
    if s[0] == 'seq':
        segs = []
        for i, (srt, x, _) in enumerate(s[1]):
            og = orig.segs[i] if isinstance(orig, Seq) and i < len(orig.segs) else None
            segs.append(Seg(srt, lambda ks, i=i: leafval(pat + (('sdom', i),), keys + tuple(ks)),
                            lambda ks, i=i, x=x, og=og: build(x, leafval, pat + (('s', i),), keys + tuple(ks), og.elem(ks) if og else None),
                            og.before if og else None, og.mixed if og else ()))
        return Seq(segs)
    if s[0] == 'tup':
        return Tup([build(x, leafval, pat + (('t', i),), keys, orig.items[i] if isinstance(orig, Tup) else None) for i, x in enumerate(s[1])])
    return leafval(pat, keys)
