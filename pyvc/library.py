"""Models of the library functions the code under contract calls.

Containers are modelled exactly. Functions on texts (os.path, lower, split, fnmatch, ...) are uninterpreted: nothing is
assumed about them except that they are functions of their arguments."""
import ast

import z3

from engine import (Builtin, ConstDict, Exit, Family, GenCall, Iter, Never, OnceIter, PyFn, Star, closure, exists_keys, refs_in, unmixed)
from logic import (Obj, Str, Unsupported, unlit, b_and, b_implies, b_ite, b_not, b_or, eqt, fresh_var, is_z3, lift, mk_existss, mk_sums, sort_of,
                   sub, witnesses)
from values import (Choice, Empty, Lost, Map, Rec, Ref, Seg, Seq, SetV, Tup, Undef, choice, empty_map, is_leaf, ite)

I, B = z3.IntSort(), z3.BoolSort()
PURE_STR = {'os.path.basename': Str, 'os.path.dirname': Str, 'os.path.abspath': Str, 'os.path.join': Str, 'os.path.splitext': None,
            'os.path.normpath': Str, 'os.path.realpath': Str, 'fnmatch.fnmatch': B, 'fnmatch.fnmatchcase': B, 'os.path.isfile': B,
            'os.path.exists': B, 're.escape': Str}
STRM = {'lower': Str, 'upper': Str, 'strip': Str, 'rstrip': Str, 'lstrip': Str, 'replace': Str, 'decode': Str, 'rjust': Str, 'ljust': Str}


def call_builtin(eng, st, fr, f, args, kwargs, n):
    name = f.name
    if name in eng.externals:
        return eng.externals[name](eng, st, fr, f, args, kwargs, n)
    if name.startswith('method.'):
        return method(eng, st, fr, f.self_, name[7:], args, kwargs, n)
    if name.startswith('.log.'):
        what = name[5:]
        if what == 'print' and eng.on_print:
            return eng.on_print(eng, st, args, kwargs), None
        if what == 'die':
            raise Never([Exit('raise', st, ('SystemExit', kwargs.get('exit_code', 1)), n, ('SystemExit', 'BaseException'))])
        eng.used.add(f'log.{what}() has no effect on the data')
        return st, None
    fn = globals().get('f_' + name.replace('.', '_'))
    if fn is not None:
        return fn(eng, st, fr, args, kwargs, n)
    if name in PURE_STR and PURE_STR[name] is not None and not kwargs:
        eng.used.add(f'{name}: some function of its arguments')
        return st, lift_choice(eng, args, lambda xs: eng.ufun(name, xs, PURE_STR[name]))
    raise Unsupported(f'call of {name}')


def f_sys_exit(eng, st, fr, args, kwargs, n):
    raise Never([Exit('raise', st, ('SystemExit', args[0] if args else 0), n, ('SystemExit', 'BaseException'))])


def f_os_path_splitext(eng, st, fr, args, kwargs, n):
    eng.used.add('os.path.splitext: some function of its argument')
    return st, Tup([lift_choice(eng, args, lambda xs, i=i: eng.ufun(f'os.path.splitext/{i}', xs, Str)) for i in (0, 1)])


def lift_choice(eng, args, f):
    for i, a in enumerate(args):
        if isinstance(a, Choice):
            out = None
            for g, x in reversed(a.alts):
                v = lift_choice(eng, args[:i] + [x] + args[i + 1:], f)
                out = v if out is None else ite(g, v, out)
            return out
    if not all(is_leaf(a) and a is not None for a in args):
        raise Unsupported('library function of a container or None')
    return f(args)


# ------------------------------------------------------------------ copies
def deep(eng, st, v):
    """an independent copy"""
    if isinstance(v, Ref):
        r = eng.resolve(st, v)
        return eng.alloc(st, eng.deref(st, r, whole=True))
    if isinstance(v, Choice):
        return choice([(g, deep(eng, st, x)) for g, x in v.alts])
    if isinstance(v, Tup):
        return Tup([deep(eng, st, x) for x in v.items])
    return v


def f_copy_deepcopy(eng, st, fr, args, kwargs, n):
    st = st.copy()
    return st, deep(eng, st, args[0])


def shallow(eng, st, v):
    if isinstance(v, Choice):
        return choice([(g, shallow(eng, st, x)) for g, x in v.alts])
    if not isinstance(v, Ref):
        return v
    from engine import Star
    r = eng.resolve(st, v)
    x = eng.deref(st, r, whole=True)
    o = eng.alloc(st, x)
    if isinstance(x, Rec):
        for nme, (c, y) in x.fields.items():
            if not is_leaf(y):
                st.shares = st.shares + (((r.rid, r.path + (('f', nme),)), (o.rid, (('f', nme),))),)
    elif isinstance(x, Map):
        q = fresh_var(x.ksort, 'q')
        if not is_leaf(x.elem(q)):
            eng.need_star_share(st, r, o)
    elif isinstance(x, Seq):
        for i, s in enumerate(x.segs):
            st.shares = st.shares + (((r.rid, r.path + (('s', i, tuple(Star() for _ in s.sorts)),)), (o.rid, (('s', i, tuple(Star() for _ in s.sorts)),))),)
    return o


def f_copy_copy(eng, st, fr, args, kwargs, n):
    st = st.copy()
    return st, shallow(eng, st, args[0])


# ------------------------------------------------------------------ iteration
def items_family(eng, st, o, what, n):
    r = eng.resolve(st, o)
    v = eng.deref(st, r)

    def val(step, leaf):
        if is_leaf(leaf):
            return leaf
        return eng.tupref(Ref(r.rid, r.path + (step,)), leaf)
    if isinstance(v, Empty):
        return []
    if isinstance(v, Map):
        def value(ks):
            x = val(('k', lift(ks[0])), v.elem(lift(ks[0])))
            return ks[0] if what == 'keys' else x if what == 'values' else Tup([ks[0], x])
        fam = Family((v.ksort,), lambda ks: v.dom(ks[0]), value, v.before and (lambda a, b: v.before(a[0], b[0])))
        fam.loc = (r.rid, r.path)
        return [fam]
    if isinstance(v, Rec):
        out = []
        for nme, (c, y) in v.fields.items():
            x = val(('f', nme), y)
            out.append(Family((), lambda ks, c=c: c, lambda ks, x=x, nme=nme: nme if what == 'keys' else x if what == 'values' else Tup([nme, x])))
        return out
    raise Unsupported(f'.{what}() of {type(v).__name__}')


def fams_of(eng, st, v):
    if isinstance(v, GenCall):
        raise Unsupported('generator consumed by a library function')
    return eng.families(st, v)


def seq_from(eng, st, fams):
    """a new list of the items of the families"""
    from engine import Star, gen_share, new_pairs
    r = eng.alloc(st, Seq())
    segs = []
    for i, f in enumerate(fams):
        ks = tuple(fresh_var(s, 'x') for s in f.sorts)
        s2 = st.copy()
        e = eng.embed(s2, f.value(ks), (r.rid, (('s', i, tuple(Star() for _ in ks)),)))
        st.shares = st.shares + tuple(gen_share(sh, ks, None) for sh in new_pairs(s2.shares, st.shares))
        segs.append(Seg(f.sorts, f.dom, closure(ks, e), f.before, f.mixed))
    st.heap[r.rid] = Seq(segs)
    return r


def f_list(eng, st, fr, args, kwargs, n):
    st = st.copy()
    if not args:
        return st, eng.alloc(st, Seq())
    return st, seq_from(eng, st, fams_of(eng, st, args[0]))


def f_tuple(eng, st, fr, args, kwargs, n):
    if args and isinstance(args[0], Tup):
        return st, args[0]
    return f_list(eng, st, fr, args, kwargs, n)


def f_set(eng, st, fr, args, kwargs, n):
    st = st.copy()
    if not args:
        return st, eng.alloc(st, SetV(None, lambda k: False))
    fams = fams_of(eng, st, args[0])
    return st, eng.alloc(st, set_of(fams))


def set_of(fams):
    sort = None
    for f in fams:
        x = f.value(tuple(fresh_var(s, 'x') for s in f.sorts))
        if not is_leaf(x) or x is None:
            raise Unsupported('set of containers')
        sort = sort_of(x)
    return SetV(sort, lambda k: b_or(*[exists_keys(f.sorts, lambda ks, f=f: b_and(f.dom(ks), eqt(k, f.value(ks)))) for f in fams]))


def f_dict(eng, st, fr, args, kwargs, n):
    st = st.copy()
    if not args and not kwargs:
        return st, eng.alloc(st, Empty())
    if len(args) == 1 and isinstance(args[0], Ref):
        x = eng.deref(st, args[0])
        if isinstance(x, (Map, Rec, Empty)):
            r = shallow(eng, st, args[0])
            for k, v in kwargs.items():
                st = eng.store(st, r, k, v)
            return st, r
    if not args:
        r = eng.alloc(st, Empty())
        for k, v in kwargs.items():
            st = eng.store(st, r, k, v)
        return st, r
    if len(args) == 1 and not kwargs:
        fams = fams_of(eng, st, args[0])
        if len(fams) == 1 and len(fams[0].sorts) == 1:
            f = fams[0]
            k = fresh_var(f.sorts[0], 'x')
            v = f.value((k,))
            if isinstance(v, Tup) and len(v.items) == 2 and is_z3(v.items[0]) and v.items[0].eq(k):
                return st, eng.map_from(st, f, lambda s, ks: f.value(ks).items[1])
    raise Unsupported('dict()')


def f_enumerate(eng, st, fr, args, kwargs, n):
    fams = fams_of(eng, st, args[0])
    start = args[1] if len(args) > 1 else kwargs.get('start', 0)
    if all(not f.sorts and f.dom(()) is True for f in fams) and isinstance(start, int):
        return st, OnceIter([Family((), f.dom, lambda ks, f=f, i=i: Tup([i, f.value(ks)]), f.before) for i, f in enumerate(fams, start)])
    if len(fams) == 1 and fams[0].before is not None:
        f = fams[0]

        def pos(ks):
            js = tuple(fresh_var(s, 'j') for s in f.sorts)
            return lift(start) + mk_sums(js, b_and(f.dom(js), f.before(js, ks)), z3.IntVal(1))
        g = Family(f.sorts, f.dom, lambda ks: Tup([pos(ks), f.value(ks)]), f.before)
        g.loc = getattr(f, 'loc', None)
        return st, OnceIter([g])
    raise Unsupported('enumerate')


def f_range(eng, st, fr, args, kwargs, n):
    if all(isinstance(a, int) for a in args) and len(range(*args)) <= 32:
        return st, Tup(list(range(*args)))
    if len(args) <= 2:
        lo, hi = (0, args[0]) if len(args) == 1 else args
        return st, Iter([Family((I,), lambda ks: b_and(lift(lo) <= lift(ks[0]), lift(ks[0]) < lift(hi)), lambda ks: ks[0],
                                lambda a, b: lift(a[0]) < lift(b[0]))])
    raise Unsupported('range')


def f_sorted(eng, st, fr, args, kwargs, n):
    """a stable sort: same items, ordered by the key (reversed: descending, equal items keep their order)"""
    st, g = sort_family(eng, st, fr, args[0], kwargs, n)
    return st, seq_from(eng, st, [g])


def m_sort(eng, st, fr, o, args, kwargs, n):
    v = eng.deref(st, o)
    if not isinstance(v, Seq) or len(v.segs) != 1:
        raise Unsupported('sort of a list of several parts')
    eng.no_iteration(st, (o.rid, o.path))
    st, g = sort_family(eng, st, fr, o, kwargs, n)
    st = st.copy()
    s = v.segs[0]
    eng.write(st, o, lambda old: Seq((Seg(s.sorts, s.dom, s.elem, g.before),)), mutate=True)
    return st, None


def sort_family(eng, st, fr, what, kwargs, n):
    st = st.copy()
    fams = fams_of(eng, st, what)
    key, rev = kwargs.get('key'), kwargs.get('reverse', False)
    if len(fams) != 1:
        raise Unsupported('sorted list of several parts')
    f = fams[0]

    def keyof(ks):
        v = f.value(ks)
        if key is None:
            return v
        eng.quiet += 1
        saved = list(eng.raised)
        try:
            _, x = eng.apply(st.assume(f.dom(ks)), fr, key, [v], {}, n)
        finally:
            eng.quiet -= 1
            eng.raised = saved
        return x
    ks = tuple(fresh_var(s, 'x') for s in f.sorts)
    if key is not None:
        s0, had = st.assume(f.dom(ks)), len(eng.raised)
        eng.apply(s0, fr, key, [f.value(ks)], {}, n)      # its obligations
        for x in eng.raised[had:]:
            # the key of some item raises, or there is no such item
            g = eng.guard(s0.pc, x.state)
            st = st.assume(b_not(mk_existss(ks, b_and(f.dom(ks), g))))
    kv = keyof(ks)
    tup = kv.items if isinstance(kv, Tup) else None
    comps = list(tup) if tup is not None else [kv]
    if len(ks) == 1 and is_z3(comps[0]) and comps[0].eq(ks[0]):
        comps = comps[:1]         # unique: what follows never decides
    fs = [closure(ks, c) for c in comps]
    for c in comps:
        if not is_leaf(c) or sort_of(c) not in (I, B, Str):
            raise Unsupported('sort key')

    def lt1(x, y):
        x, y = lift(x), lift(y)
        if x.sort() == I:
            return x < y
        if x.sort() == B:
            return b_and(b_not(x), y)
        return eng.strless(x, y)

    def less(a, b):
        out, same = [], []
        for g in fs:
            x, y = g(a), g(b)
            out.append(b_and(*same, lt1(x, y)))
            same.append(eqt(x, y))
        return b_or(*out), b_and(*same)

    def before(a, b):
        lt, eq = less(a, b)
        gt = less(b, a)[0]
        first = b_ite(lift(eng.truth(st, rev)), lift(gt), lift(lt)) if is_z3(eng.truth(st, rev)) else gt if eng.truth(st, rev) else lt
        if f.before is None:
            return None
        return b_or(first, b_and(eq, f.before(a, b)))
    g = Family(f.sorts, f.dom, f.value, before if f.before is not None else None)
    g.loc = getattr(f, 'loc', None)
    g.snap = True
    eng.used.add('sorted(): stable sort by the key')
    return st, g


def f_reversed(eng, st, fr, args, kwargs, n):
    fams = fams_of(eng, st, args[0])
    unmixed(fams)
    out = []
    for f in reversed(fams):
        g = Family(f.sorts, f.dom, f.value, f.before and (lambda a, b, f=f: f.before(b, a)))
        g.loc = getattr(f, 'loc', None)
        out.append(g)
    return st, OnceIter(out)


# ------------------------------------------------------------------ numbers and texts
def f_len(eng, st, fr, args, kwargs, n):
    v = args[0]
    if isinstance(v, str):
        return st, len(v)
    if isinstance(v, Tup):
        return st, len(v.items)
    if isinstance(v, ConstDict):
        return st, len(v.d)
    if is_z3(v) and v.sort() == Str:
        x = eng.ufun('len', [v], I)
        return st, x
    if is_z3(v) and v.sort().name() == 'Bytes':
        from bytesem import length
        return st, length(v)
    fams = fams_of(eng, st, v)
    total = 0
    if all(not f.sorts and f.dom(()) is True for f in fams):
        return st, len(fams)
    for f in fams:
        ks = tuple(fresh_var(s, 'x') for s in f.sorts)
        total = lift(total) + mk_sums(ks, f.dom(ks), z3.IntVal(1))
    return st, total


def numchoice(eng, st, fr, v, n):
    if isinstance(v, Choice):
        alts = [(g, x) for g, x in v.alts if x is not None]
        eng.oblige(st, b_or(*[g for g, _ in alts]), eng.name(fr, n, 'not None'))
        out = alts[-1][1]
        for g, x in reversed(alts[:-1]):
            out = ite(g, x, out)
        return out
    return v


def minmax(eng, st, fr, args, kwargs, n, less):
    if kwargs or len(args) < 2:
        raise Unsupported('min/max of an iterable')
    out = numchoice(eng, st, fr, args[0], n)
    for a in args[1:]:
        a = numchoice(eng, st, fr, a, n)
        if not (is_leaf(out) and is_leaf(a)) or sort_of(out) != I or sort_of(a) != I:
            raise Unsupported('min/max')
        if not is_z3(out) and not is_z3(a):
            out = a if less(a, out) else out
        else:
            out = z3.If(less(lift(a), lift(out)), lift(a), lift(out))
    return st, out


def f_min(eng, st, fr, args, kwargs, n):
    return minmax(eng, st, fr, args, kwargs, n, lambda a, b: a < b)


def f_max(eng, st, fr, args, kwargs, n):
    return minmax(eng, st, fr, args, kwargs, n, lambda a, b: a > b)


def f_abs(eng, st, fr, args, kwargs, n):
    x = args[0]
    return st, abs(x) if isinstance(x, int) else z3.If(lift(x) < 0, -lift(x), lift(x))


def f_int(eng, st, fr, args, kwargs, n):
    x = args[0]
    if isinstance(x, int) or (is_z3(x) and x.sort() == I):
        return st, x
    if is_z3(x) and x.sort() == B:
        return st, z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if is_z3(x) and x.sort() == Str:
        eng.used.add('int(text): some function of the text, or a ValueError')
        nm = 'int' + (str(args[1]) if len(args) > 1 else '')
        ok = eng.ufun(nm + '?', [x], B)
        eng.raised.append(Exit('raise', st.assume(b_not(ok)), 'ValueError', n, ('ValueError', 'Exception', 'BaseException')))
        return st.assume(ok), eng.ufun(nm, [x], I)
    raise Unsupported('int()')


def f_str(eng, st, fr, args, kwargs, n):
    from engine import ExcV
    if isinstance(args[0], ExcV):
        return st, args[0].text
    return st, eng.concat([args[0]])


def listterm(name, fams, sort):
    """some function of a list of leaves: a term that is the same for lists described by the same formulas"""
    from logic import free_vars, sub
    if len(fams) != 1 or fams[0].before is None:
        raise Unsupported(f'{name} of a list of several parts')
    f = fams[0]
    ks, js = (tuple(z3.Const(f'list{c}{i}', s) for i, s in enumerate(f.sorts)) for c in 'kj')
    parts = [lift(x) for x in (f.dom(ks), f.value(ks), b_and(f.dom(ks), f.dom(js), f.before(ks, js)))]
    if not is_leaf(parts[1]):
        raise Unsupported(f'{name} of a list of containers')
    own = {x.get_id() for x in ks + js}
    pars = []
    free = {x.get_id(): x for x in free_vars(*parts)}
    todo, seen = list(parts), set()
    while todo:
        p = todo.pop()
        if p.get_id() in seen:
            continue
        seen.add(p.get_id())
        if p.get_id() in free and p.get_id() not in own:
            pars.append(p)
        todo += p.children()
    if len(pars) != len([i for i in free if i not in own]):
        raise Unsupported(f'{name} of a list with hidden parameters')
    gen = [z3.Const(f'par{i}', x.sort()) for i, x in enumerate(pars)]
    text = '|'.join(sub(p, list(zip(pars, gen))).sexpr() for p in parts)
    return z3.Function(f'{name}({text})', *[x.sort() for x in pars], sort)(*pars) if pars else z3.Const(f'{name}({text})', sort)


def f_round(eng, st, fr, args, kwargs, n):
    eng.used.add('round(): some function of its arguments')
    return st, eng.ufun('round', list(args), I)


def f_bool(eng, st, fr, args, kwargs, n):
    return st, eng.truth(st, args[0])


def quantify(eng, st, v, isany):
    cs = []
    for f in fams_of(eng, st, v):
        ks = tuple(fresh_var(s, 'x') for s in f.sorts)
        d = f.dom(ks)
        c = eng.truth(st, f.value(ks))
        if isany:
            cs.append(mk_existss(ks, b_and(d, c)))
        else:
            cs.append(b_not(mk_existss(ks, b_and(d, b_not(c)))))
    return b_or(*cs) if isany else b_and(*cs)


def f_any(eng, st, fr, args, kwargs, n):
    return st, quantify(eng, st, args[0], True)


def f_all(eng, st, fr, args, kwargs, n):
    return st, quantify(eng, st, args[0], False)


def f_sum(eng, st, fr, args, kwargs, n):
    total = lift(args[1]) if len(args) > 1 else z3.IntVal(0)
    for f in fams_of(eng, st, args[0]):
        ks = tuple(fresh_var(s, 'x') for s in f.sorts)
        v = f.value(ks)
        if not is_leaf(v) or sort_of(v) not in (I, B):
            raise Unsupported('sum')
        if sort_of(v) == B:
            v = z3.If(lift(v), z3.IntVal(1), z3.IntVal(0))
        total = total + mk_sums(ks, f.dom(ks), lift(v))
    return st, z3.simplify(total) if False else total


def f_next(eng, st, fr, args, kwargs, n):
    """the first item, or the default"""
    if not isinstance(n, ast.Call) or not isinstance(n.args[0], (ast.GeneratorExp, ast.Call)):
        raise Unsupported('next of an iterator that may be used elsewhere')
    fams = fams_of(eng, st, args[0])
    if len(fams) != 1:
        raise Unsupported('next')
    f = fams[0]
    found = exists_keys(f.sorts, f.dom) if f.sorts else f.dom(())
    if len(args) < 2:
        eng.raised.append(Exit('raise', st.assume(b_not(found)), 'StopIteration', n, ('StopIteration', 'Exception', 'BaseException')))
        st = st.assume(found)
    if not f.sorts:
        return st, ite(found, f.value(()), args[1]) if len(args) > 1 else f.value(())
    if f.before is None:
        raise Unsupported('next over an unordered collection')

    def fact(ts):
        js = tuple(fresh_var(s, 'j') for s in f.sorts)
        return b_implies(found, b_and(f.dom(ts), b_not(mk_existss(js, b_and(f.dom(js), f.before(js, ts))))))
    ws = witnesses(f.sorts, fact, 'first')
    if len(args) < 2:
        return st, f.value(ws)
    return st, ite(found, f.value(ws), args[1])


def f_iter(eng, st, fr, args, kwargs, n):
    if len(args) != 1:
        raise Unsupported('iter')
    return st, OnceIter(fams_of(eng, st, args[0]))


def f_isinstance(eng, st, fr, args, kwargs, n):
    v, t = args
    if isinstance(t, Tup):
        out = []
        for x in t.items:
            st, c = f_isinstance(eng, st, fr, [v, x], {}, n)
            out.append(c)
        return st, b_or(*out)
    if not isinstance(t, Builtin) or t.name not in ('str', 'bytes', 'int', 'bool', 'list', 'dict'):
        raise Unsupported('isinstance')
    if isinstance(v, Choice):
        return eng.alts(st, v, lambda s, x: f_isinstance(eng, s, fr, [x, t], {}, n))
    if isinstance(v, Ref):
        v = eng.deref(st, v)
        if isinstance(v, Seq):
            return st, t.name == 'list'
        if isinstance(v, (Map, Empty)) or isinstance(v, Rec) and not v.cls:
            return st, t.name == 'dict'
        raise Unsupported('isinstance of an object')
    if v is None:
        return st, False
    if not is_leaf(v):
        raise Unsupported('isinstance')
    sort = sort_of(v)
    if sort == B:
        return st, t.name in ('bool', 'int')
    kinds = {I: 'int', Str: 'str'}
    if sort not in kinds and sort.name() != 'Bytes':
        raise Unsupported('isinstance of an unknown value')
    return st, kinds.get(sort, 'bytes') == t.name


def f_fnmatch_fnmatch(eng, st, fr, args, kwargs, n):
    eng.used.add('fnmatch(): some function of name and pattern')
    return st, lift_choice(eng, list(args), lambda xs: eng.ufun('fnmatch', xs, B))


def f_zip(eng, st, fr, args, kwargs, n):
    raise Unsupported('zip')


# ------------------------------------------------------------------ methods
def method(eng, st, fr, o, name, args, kwargs, n):
    if isinstance(o, Choice):
        if name in ('items', 'keys', 'values'):
            fams = []
            for g, x in o.alts:
                if x is None:
                    eng.oblige(st, b_not(g), eng.name(fr, n, 'not None'))
                    continue
                for f in items_family(eng, st, x, name, n):
                    h = Family(f.sorts, lambda ks, f=f, g=g: b_and(g, f.dom(ks)), f.value, f.before)
                    h.loc = getattr(f, 'loc', None)
                    fams.append(h)
            return st, Iter(fams)
        return eng.alts(st, o, lambda s, x: method(eng, s, fr, x, name, args, kwargs, n), drop_none=eng.name(fr, n, 'not None'))
    if isinstance(o, Ref):
        if name in ('items', 'keys', 'values'):
            return st, Iter(items_family(eng, st, o, name, n))
        fn = globals().get('m_' + name)
        if fn is not None:
            return fn(eng, st, fr, eng.resolve(st, o), args, kwargs, n)
        v = eng.deref(st, o)
        if isinstance(v, Rec) and v.cls:
            h = eng.externals.get(f'{v.cls}.{name}')
            if h:
                return h(eng, st, fr, o, args, kwargs, n)
        raise Unsupported(f'method {name}')
    if isinstance(o, ConstDict):
        if name == 'get' and is_leaf(args[0]):
            k = args[0]
            if not is_z3(k):
                return st, o.d.get(k, args[1] if len(args) > 1 else None)
            out = args[1] if len(args) > 1 else None
            for c, x in o.d.items():
                out = ite(eqt(k, c), x, out)
            return st, out
        if name == 'items':
            return st, Tup([Tup([k, v]) for k, v in o.d.items()])
        if name == 'keys':
            return st, Tup(list(o.d))
        if name == 'values':
            return st, Tup(list(o.d.values()))
    if isinstance(o, str) or (is_z3(o) and o.sort() == Str):
        return strmethod(eng, st, fr, o, name, args, kwargs, n)
    if is_z3(o) and o.sort() == Obj and name in PATH and not kwargs:
        eng.used.add(f'pathlib.Path.{name}: some function of the path')
        return st, lift_choice(eng, [o] + list(args), lambda xs: eng.ufun('Path.' + name, xs, PATH[name]))
    raise Unsupported(f'method {name} of {type(o).__name__}')


PATH = {'as_posix': Str, 'relative_to': Obj, 'name': Str, 'parent': Obj, 'suffix': Str, 'stem': Str}


def f_pathlib_Path(eng, st, fr, args, kwargs, n):
    eng.used.add('pathlib.Path(): some function of its arguments')
    return st, lift_choice(eng, args, lambda xs: eng.ufun('pathlib.Path', xs, Obj))


def f_hasattr(eng, st, fr, args, kwargs, n):
    o, name = args
    name = unlit(name) if not isinstance(name, str) else name
    if not isinstance(o, Ref) or name is None:
        raise Unsupported('hasattr')
    v = eng.deref(st, o)
    if not isinstance(v, Rec) or not v.cls or eng.member(v.cls, name)[0] is not None:
        raise Unsupported('hasattr')
    return st, v.fields[name][0] if name in v.fields else False


def strmethod(eng, st, fr, o, name, args, kwargs, n):
    if isinstance(o, str) and all(isinstance(a, (str, int)) for a in args) and name in ('lower', 'upper', 'strip', 'replace', 'startswith', 'endswith'):
        return st, getattr(o, name)(*args)
    if name in ('startswith', 'endswith'):
        return st, eng.strpred(name, o, args[0])
    if name == 'join' and isinstance(o, str):
        v = args[0]
        fams = fams_of(eng, st, v)
        if all(not f.sorts and f.dom(()) is True for f in fams):
            parts = []
            for i, f in enumerate(fams):
                if i:
                    parts.append(o)
                parts.append(f.value(()))
            return st, eng.concat(parts)
        return st, listterm('join/' + o, fams, Str)
    if name in ('split', 'rsplit') and len(args) >= 1 and not kwargs and all(isinstance(a, (str, int)) for a in args):
        eng.used.add(f'str.{name}(): some function of the text, with at least one part')
        return st, eng.ufun(f'{name}' + ''.join(f'/{a!r}' for a in args), [o], Obj)
    if name == 'format':
        return st, eng.ufun('format!' + (o if isinstance(o, str) else ''), ([] if isinstance(o, str) else [o]) + list(args), Str)
    if name in STRM and not kwargs:
        eng.used.add(f'str.{name}(): some function of the text')
        consts = [a for a in args if not is_z3(a)]
        if len(consts) == len(args):
            return st, eng.ufun(f'{name}' + ''.join(f'/{a!r}' for a in args), [o], STRM[name])
        return st, eng.ufun(name, [o] + list(args), STRM[name])
    raise Unsupported(f'text method {name}')


def m_get(eng, st, fr, o, args, kwargs, n):
    d = args[1] if len(args) > 1 else None
    k = args[0]
    v = eng.deref(st, o)
    if isinstance(k, Choice):
        return eng.alts(st, k, lambda s, x: m_get(eng, s, fr, o, [x] + list(args[1:]), kwargs, n))
    if isinstance(v, Empty) or k is None:
        return st, d
    if isinstance(v, Rec):
        if not isinstance(k, str):
            k = unlit(k) if is_z3(k) and unlit(k) is not None else k
        if is_z3(k) and k.sort() == Str:
            out, rest = [], True
            for x, (c, _) in v.fields.items():
                g = b_and(c, eqt(k, x)) if isinstance(x, str) else False
                if g is not False:
                    out.append((g, eng.read(st, Ref(o.rid, o.path + (('f', x),)))))
                    rest = b_and(rest, b_not(g))
            return st, choice(out + [(rest, d)])
        if not isinstance(k, str):
            raise Unsupported('symbolic key in a record')
        c, _ = v.fields.get(k, (False, None))
        if c is False:
            return st, d
        x = eng.read(st, Ref(o.rid, o.path + (('f', k),)))
        return st, x if c is True else ite(c, x, d)
    if isinstance(v, Map):
        c = v.dom(lift(k))
        if c is False:
            return st, d
        x = eng.read(st, Ref(o.rid, o.path + (('k', lift(k)),)))
        return st, x if c is True else ite(c, x, d)
    raise Unsupported('get')


def m_setdefault(eng, st, fr, o, args, kwargs, n):
    k = args[0]
    d = args[1] if len(args) > 1 else None
    v = eng.deref(st, o)
    if isinstance(v, Empty):
        c = False
    elif isinstance(v, Map):
        c = v.dom(lift(k))
    elif isinstance(v, Rec) and isinstance(k, str):
        c = v.fields.get(k, (False, None))[0]
    else:
        raise Unsupported('setdefault')
    step = ('k', lift(k)) if isinstance(v, Map) or is_z3(k) else ('f', k)
    if c is not True:
        base = st.pc
        s2 = eng.store(st.assume(b_not(c)), o, k, d)
        if c is False:
            st = s2
            st.pc = base
        else:
            st, _ = eng.merge(base, [(b_not(c), s2, None), (c, st.assume(c), None)])
    return st, eng.read(st, Ref(o.rid, o.path + (step,)))


def m_append(eng, st, fr, o, args, kwargs, n):
    st = st.copy()
    v = eng.deref(st, o)
    if isinstance(v, Empty):
        raise Unsupported('append to a dict')
    if not isinstance(v, Seq):
        raise Unsupported('append')
    i = len(v.segs)
    o = eng.resolve(st, o)
    eng.no_iteration(st, (o.rid, o.path))
    x = eng.embed(st, eng.resolve_deep(st, args[0]), (o.rid, o.path + (('s', i, ()),)))
    eng.write(st, o, lambda old: Seq(old.segs + (Seg((), lambda ks: True, lambda ks: x, lambda a, b: False),)), mutate=True)
    return st, None


def m_extend(eng, st, fr, o, args, kwargs, n):
    eng.no_iteration(st, (o.rid, o.path))
    return eng.extend(st, o, args[0]), None


def m_add(eng, st, fr, o, args, kwargs, n):
    st = st.copy()
    v = eng.deref(st, o)
    x = args[0]
    if not isinstance(v, SetV) or not is_leaf(x) or x is None:
        raise Unsupported('add')
    eng.no_iteration(st, (o.rid, o.path))
    eng.write(st, o, lambda old: SetV(sort_of(x), (lambda k: b_or(eqt(k, x), old.has(k))) if old.sort is not None else (lambda k: eqt(k, x))), mutate=True)
    return st, None


def m_update(eng, st, fr, o, args, kwargs, n):
    v = eng.deref(st, o)
    x = args[0] if args else None
    if isinstance(v, SetV):
        s = set_of(fams_of(eng, st, x))
        st = st.copy()
        eng.no_iteration(st, (o.rid, o.path))
        if s.sort is None:
            return st, None
        eng.write(st, o, lambda old: SetV(s.sort, (lambda k: b_or(old.has(k), s.has(k))) if old.sort is not None else s.has), mutate=True)
        return st, None
    if isinstance(x, Ref):
        src = eng.resolve(st, x)
        y = eng.deref(st, src)
        if isinstance(y, Rec):
            for nme, (c, _) in y.fields.items():
                if c is not True:
                    raise Unsupported('update with optional keys')
                st = eng.store(st, o, nme, eng.read(st, Ref(src.rid, src.path + (('f', nme),))))
            for k, z in kwargs.items():
                st = eng.store(st, o, k, z)
            return st, None
        if isinstance(y, Empty):
            return st, None
        if isinstance(y, Map) and not kwargs and (isinstance(v, Empty) or isinstance(v, Map) and v.ksort == y.ksort):
            st = st.copy()
            eng.no_iteration(st, (o.rid, o.path))
            q = fresh_var(y.ksort, 'q')
            if not is_leaf(y.elem(q)):
                st.shares = st.shares + (((src.rid, src.path + (('k', Star()),)), (o.rid, o.path + (('k', Star()),))),)
            eng.write(st, o, lambda old: joined(old, y), mutate=True)
            return st, None
    raise Unsupported('update')


def joined(old, new):
    """the dict old updated with the dict new"""
    if isinstance(old, Empty):
        return Map(new.ksort, new.dom, new.elem, new.before)

    def before(a, b):
        return b_or(b_and(old.dom(a), b_not(old.dom(b))), b_and(old.dom(a), old.dom(b), old.before(a, b)), b_and(b_not(old.dom(a)), b_not(old.dom(b)), new.before(a, b)))
    return Map(old.ksort, lambda k: b_or(old.dom(k), new.dom(k)), lambda k: ite(new.dom(k), new.elem(k), old.elem(k)), before if old.before and new.before else None)


def m_copy(eng, st, fr, o, args, kwargs, n):
    st = st.copy()
    return st, shallow(eng, st, o)


def m_pop(eng, st, fr, o, args, kwargs, n):
    v = eng.deref(st, o)
    if isinstance(v, (Map, Rec)):
        if len(args) > 1:
            raise Unsupported('pop with a default')
        st, x = eng.index(st, fr, o, args[0], n)
        if isinstance(x, Ref):
            st = st.copy()
            st.frames.setdefault(fr.fid, {})['%pop'] = x
            eng.orphan(st, eng.resolve(st, x))
            x = st.frames[fr.fid].pop('%pop')
        return eng.remove(st, fr, o, args[0], n), x
    if isinstance(v, Seq) and not kwargs and (not args or args[0] in (0, -1) and not is_z3(args[0])):
        first = bool(args) and args[0] == 0
        i = 0 if first else len(v.segs) - 1
        if v.segs and not v.segs[i].sorts and v.segs[i].dom(()) is True:
            o = eng.resolve(st, o)
            st = st.copy()
            eng.no_iteration(st, (o.rid, o.path))
            x = eng.read(st, Ref(o.rid, o.path + (('s', i, ()),)))
            if not is_leaf(x):
                st.frames.setdefault(fr.fid, {})['%pop'] = x
                for y in refs_in(x):
                    eng.orphan(st, eng.resolve(st, y))
                x = st.frames[fr.fid].pop('%pop')
            n = len(o.path)
            inside = [y for f in st.frames.values() for w in f.values() for y in refs_in(w)]
            inside = [(y.rid, y.path) for y in map(lambda y: eng.resolve(st, y), inside)] + [l for pair in st.shares for l in pair] + list(st.poison)
            if first and len(v.segs) > 1 and any(l[0] == o.rid and len(l[1]) > n for l in inside):
                raise Unsupported('pop from a list with references into it')
            eng.write(st, o, lambda old: Seq(old.segs[1:] if first else old.segs[:-1]), mutate=True)
            return st, x
    raise Unsupported('pop')


def m_clear(eng, st, fr, o, args, kwargs, n):
    st = st.copy()
    v = eng.deref(st, o)
    eng.no_iteration(st, (o.rid, o.path))
    if isinstance(v, Seq):
        eng.write(st, o, lambda old: Seq(), mutate=True)
        return st, None
    raise Unsupported('clear')


def f_collections_namedtuple(eng, st, fr, args, kwargs, n):
    """a class of records with these fields, in this order"""
    from engine import Handler
    name, fields = args
    fields = [f.value(()) for f in fams_of(eng, st, fields)]
    if not isinstance(name, str) or not all(isinstance(x, str) for x in fields):
        raise Unsupported('namedtuple')

    def make(e, s, a, kw):
        vals = dict(zip(fields, a), **kw)
        if len(vals) != len(fields):
            raise Unsupported('arguments of a namedtuple')
        s = s.copy()
        return s, e.new(s, lambda rid: Rec({x: (True, e.embed(s, e.resolve_deep(s, vals[x]), (rid, (('f', x),)))) for x in fields}, name))
    return st, Handler(make)
