"""Terms: strings as an uninterpreted sort, finite sums, witnesses; and the validity check (z3, cvc5 as second solver)."""
import itertools
import os
import subprocess
import tempfile
import time

import z3

Str = z3.DeclareSort('Str')
Idx = z3.DeclareSort('Idx')
Obj = z3.DeclareSort('Obj')


class Unsupported(Exception):
    """The construct is outside the subset the verifier understands."""


# ------------------------------------------------------------------ python/z3 lifting
_lits = {}


def lit(s):
    if s not in _lits:
        _lits[s] = z3.Const('lit!' + repr(s), Str)
    return _lits[s]


_litrev = {}


def unlit(e):
    """the Python string of a literal term, or None"""
    if isinstance(e, str):
        return e
    if z3.is_const(e) and e.sort() == Str:
        n = e.decl().name()
        if n.startswith('lit!'):
            import ast
            return ast.literal_eval(n[4:])
    return None


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def lift(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, str):
        return lit(x)
    return x


def sort_of(x):
    if isinstance(x, bool):
        return z3.BoolSort()
    if isinstance(x, int):
        return z3.IntSort()
    if isinstance(x, str):
        return Str
    if is_z3(x):
        return x.sort()
    return None


_TRUE, _FALSE, _NOT, _AND = z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_NOT, z3.Z3_OP_AND
_kinds = {}        # id -> (term, kind, children); the term is kept alive


def info(x):
    i = x.get_id()
    r = _kinds.get(i)
    if r is None:
        k, ch = None, ()
        if z3.is_app(x):
            k = x.decl().kind()
            if k == _NOT or k == _AND:
                ch = tuple(x.children())
        r = _kinds[i] = (x, k, ch, i)
        for c in ch:
            info(c)
    return r


_memo = {}


def b_not(a):
    if a is True or a is False:
        return not a
    r = info(a)
    if r[1] == _TRUE:
        return False
    if r[1] == _FALSE:
        return True
    if r[1] == _NOT:
        return r[2][0]
    k = ('n', r[3])
    x = _memo.get(k)
    if x is None:
        x = _memo[k] = z3.Not(a)
        info(x)
    return x


def b_and(*xs):
    ins = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        r = info(x)
        if r[1] == _TRUE:
            continue
        if r[1] == _FALSE:
            return False
        ins.append(r)
    if not ins:
        return True
    if len(ins) == 1:
        return ins[0][0]
    k = ('a',) + tuple(r[3] for r in ins)
    x = _memo.get(k)
    if x is None:
        seen, res = set(), []
        for r in ins:
            for c in (map(info, r[2]) if r[1] == _AND else (r,)):
                if c[3] not in seen:
                    seen.add(c[3])
                    res.append(c)
        x = None
        for c in res:
            if c[1] == _NOT and c[2][0].get_id() in seen:
                x = False
        if x is None:
            x = res[0][0] if len(res) == 1 else z3.And(*[c[0] for c in res])
            info(x)
        _memo[k] = x
    return x


def b_or(*xs):
    ins = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        r = info(x)
        if r[1] == _FALSE:
            continue
        if r[1] == _TRUE:
            return True
        ins.append(r)
    if not ins:
        return False
    if len(ins) == 1:
        return ins[0][0]
    k = ('o',) + tuple(r[3] for r in ins)
    x = _memo.get(k)
    if x is None:
        seen, res = set(), []
        for r in ins:
            if r[3] not in seen:
                seen.add(r[3])
                res.append(r[0])
        x = res[0] if len(res) == 1 else z3.Or(*res)
        info(x)
        _memo[k] = x
    return x


def b_implies(a, b):
    return b_or(b_not(a), b)


def b_ite(c, a, b):
    """if-then-else on leaf terms"""
    if c is True:
        return a
    if c is False:
        return b
    rc = info(c)
    if rc[1] == _TRUE:
        return a
    if rc[1] == _FALSE:
        return b
    la, lb = lift(a), lift(b)
    if la.eq(lb):
        return a
    k = ('i', rc[3], info(la)[3], info(lb)[3])
    x = _memo.get(k)
    if x is None:
        x = _memo[k] = _ite(c, a, b, la, lb)
    return x


def _ite(c, a, b, la, lb):
    if la.sort() == z3.BoolSort():
        if a is True or z3.is_true(la):
            return b_or(c, b)
        if a is False or z3.is_false(la):
            return b_and(b_not(c), b)
        if b is True or z3.is_true(lb):
            return b_or(b_not(c), a)
        if b is False or z3.is_false(lb):
            return b_and(c, a)
    # the same condition again
    if info(la)[1] == z3.Z3_OP_ITE and la.arg(0).eq(c):
        return b_ite(c, la.arg(1), b)
    if info(lb)[1] == z3.Z3_OP_ITE and lb.arg(0).eq(c):
        return b_ite(c, a, lb.arg(2))
    x = z3.If(c, la, lb)
    info(x)
    return x


def eqt(a, b):
    """equality of leaf terms"""
    if not is_z3(a) and not is_z3(b):
        return a == b
    la, lb = lift(a), lift(b)
    if la.sort() != lb.sort():
        return False
    if la.eq(lb):
        return True
    ua, ub = unlit(la), unlit(lb)
    if ua is not None and ub is not None:
        return ua == ub
    if la.sort() == z3.IntSort() and z3.is_int_value(la) and z3.is_int_value(lb):
        return la.as_long() == lb.as_long()
    return la == lb


# ------------------------------------------------------------------ variables
_n = itertools.count()
VARS = {}          # id of constant -> True: may be substituted (loop keys, generic keys)


def fresh_var(sort, name='k'):
    c = z3.Const(f'{name}!{next(_n)}', sort)
    VARS[c.get_id()] = c
    return c


_sets = {}     # id -> (term, frozenset of variable ids, frozenset of function names)
_EMPTY = frozenset()


def _union(xs):
    """union of sets, sharing the result with one of them if possible"""
    big = _EMPTY
    for x in xs:
        if len(x) > len(big):
            big = x
    for x in xs:
        if x is not big and not x <= big:
            return frozenset().union(*xs)
    return big


def _sets_of(e):
    r = _sets.get(e.get_id())
    if r is not None:
        return r
    todo = [e]
    while todo:
        x = todo[-1]
        i = x.get_id()
        if i in _sets:
            todo.pop()
            continue
        if z3.is_quantifier(x):
            ch = [x.body()]
        elif z3.is_app(x):
            ch = x.children()
        else:
            ch = []
        open_ = [c for c in ch if c.get_id() not in _sets]
        if open_:
            todo.extend(open_)
            continue
        rs = [_sets[c.get_id()] for c in ch]
        vs, fs = _union([y[1] for y in rs]), _union([y[2] for y in rs])
        if z3.is_app(x):
            if not ch and i in VARS:
                vs = frozenset((i,))
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() not in fs:
                fs = fs | {d.name()}
        _sets[i] = (x, vs, fs)
        todo.pop()
    return _sets[e.get_id()]


def free_vars(*es):
    ids = _union([_sets_of(e)[1] for e in es if is_z3(e)])
    return sorted((VARS[i] for i in ids), key=lambda c: c.decl().name())


_closed = {}


def funcs(*es):
    """names of all function symbols, also in the definitions of sums and witnesses"""
    names = _union([_sets_of(e)[2] for e in es if is_z3(e)])
    r = _closed.get(names)
    if r is not None:
        return r
    out, todo = set(), list(names)
    while todo:
        n = todo.pop()
        if n in out:
            continue
        out.add(n)
        if n in SUMS:
            d = SUMS[n]
            todo += [y for x in (d.guard, d.term) if is_z3(x) for y in _sets_of(x)[2]]
        elif n in WITNESS:
            todo += list(_sets_of(WITNESS[n][1])[2])
    r = _closed[names] = frozenset(out)
    return r


def sub(e, pairs):
    if not is_z3(e):
        return e
    return z3.substitute(e, *pairs)


# ------------------------------------------------------------------ sums
class SumDef:
    __slots__ = ('binders', 'params', 'guard', 'term', 'fn')


SUMS = {}
_sumkey = {}


def _pieces(e, guard, coef, out, limit):
    if len(out) > limit:
        raise Unsupported('sum of too many cases')
    e = lift(e)
    if z3.is_int_value(e):
        if e.as_long():
            out.append((guard, coef, e))
        return
    k = e.decl().kind()
    if k == z3.Z3_OP_ITE:
        c = e.arg(0)
        g = b_and(guard, c)
        if g is not False:
            _pieces(e.arg(1), g, coef, out, limit)
        g = b_and(guard, b_not(c))
        if g is not False:
            _pieces(e.arg(2), g, coef, out, limit)
    elif k == z3.Z3_OP_ADD:
        for c in e.children():
            _pieces(c, guard, coef, out, limit)
    elif k == z3.Z3_OP_SUB:
        _pieces(e.arg(0), guard, coef, out, limit)
        for c in e.children()[1:]:
            _pieces(c, guard, -coef, out, limit)
    elif k == z3.Z3_OP_UMINUS:
        _pieces(e.arg(0), guard, -coef, out, limit)
    elif k == z3.Z3_OP_MUL and z3.is_int_value(e.arg(0)) and len(e.children()) == 2:
        _pieces(e.arg(1), guard, coef * e.arg(0).as_long(), out, limit)
    else:
        out.append((guard, coef, e))


def conjuncts(g):
    if g is True:
        return []
    if g is False:
        return [z3.BoolVal(False)]
    if z3.is_and(g):
        return [x for c in g.children() for x in conjuncts(c)]
    if z3.is_not(g):
        a = g.arg(0)
        if z3.is_or(a):
            return [x for c in a.children() for x in conjuncts(b_not(c))]
        if z3.is_not(a):
            return conjuncts(a.arg(0))
    return [g]


def mentions(e, k):
    return is_z3(e) and any(v.eq(k) for v in free_vars(e))


def mk_sum(binder, guard, body):
    return mk_sums((binder,), guard, body)


def mk_sums(binders, guard, body):
    """sum over all values of the binders satisfying guard (a finite set) of body.

    The body is split into its linear parts, sums in it become part of this sum; parts with the same value are joined, so
    that the same sum written in different ways becomes the same term as often as possible (the rest is left to the
    extensionality axiom)."""
    if not binders:
        return lift(b_ite(guard, lift(body), z3.IntVal(0)))
    if guard is False:
        return z3.IntVal(0)
    out = []
    _pieces(body, guard, 1, out, 400)
    total = None

    def add(x, coef):
        nonlocal total
        if coef == 0 or z3.is_int_value(x) and x.as_long() == 0:
            return
        if coef != 1:
            x = z3.IntVal(coef) * x
        total = x if total is None else total + x
    groups = {}
    for g, coef, t in out:
        bs = tuple(binders)
        if z3.is_app(t) and t.decl().name() in SUMS:
            d = SUMS[t.decl().name()]
            new = tuple(fresh_var(k.sort(), 'b') for k in d.binders)
            pairs = list(zip(d.params, t.children()))
            inner = sub(sub(d.guard, list(zip(d.binders, new))), pairs)
            t = sub(sub(d.term, list(zip(d.binders, new))), pairs)
            g = b_and(g, inner)
            bs = bs + new
        # a binder fixed by the guard has one value
        bs, g, t = _collapse(bs, g, t)
        if g is False:
            continue
        if not bs:
            add(lift(b_ite(g, t, z3.IntVal(0))), coef)
            continue
        if z3.is_int_value(t):
            coef, t = coef * t.as_long(), z3.IntVal(1)
        groups.setdefault((t.get_id(), coef, tuple(b.get_id() for b in bs)), [bs, t, coef, []])[3].append(g)
    for bs, t, coef, gs in groups.values():
        x = _mk1(bs, b_or(*gs) if len(gs) > 1 else gs[0], t)
        if x is not None:
            add(x, coef)
    return z3.IntVal(0) if total is None else total


def mk_existss(binders, body):
    for k in reversed(binders):
        body = mk_exists(k, body)
    return body


def _collapse(bs, g, t):
    """without the binders that the guard fixes"""
    again = True
    while again and g is not False:
        again = False
        cs = conjuncts(g)
        for i, c in enumerate(cs):
            if not z3.is_eq(c):
                continue
            a, b = c.children()
            for x, y in ((a, b), (b, a)):
                if any(x.eq(k) for k in bs) and not mentions(y, x):
                    g = b_and(*[sub(r, [(x, y)]) for j, r in enumerate(cs) if j != i])
                    t = sub(t, [(x, y)])
                    bs = tuple(k for k in bs if not k.eq(x))
                    again = True
                    break
            if again:
                break
    return bs, g, t


def _mk1(bs, g, t):
    cs = conjuncts(g)
    ids = {k.get_id() for k in bs}

    def bound(c):
        return any(v.get_id() in ids for v in free_vars(c))
    # conditions without the binders are taken out
    inner = [c for c in cs if bound(c)]
    outer = [c for c in cs if not bound(c)]
    g = b_and(*inner)
    if g is False or any(z3.is_false(c) for c in outer):
        return None
    pars = [v for v in free_vars(*[x for x in (lift(g) if g is not True else None, t) if x is not None]) if v.get_id() not in ids]
    canon = [(k, z3.Const(f'B!{i}!{k.sort().name()}', k.sort())) for i, k in enumerate(bs)]
    canon += [(p, z3.Const(f'P!{i}!{p.sort().name()}', p.sort())) for i, p in enumerate(pars)]
    ck = (tuple(k.sort().name() for k in bs), sub(lift(g), canon).sexpr(), sub(t, canon).sexpr())
    if ck in _sumkey:
        f = _sumkey[ck]
    else:
        n = f'sum!{next(_n)}'
        d = SumDef()
        f = z3.Function(n, *[p.sort() for p in pars], z3.IntSort())
        d.binders, d.params, d.guard, d.term, d.fn = tuple(bs), pars, lift(g), t, f
        SUMS[n] = d
        _sumkey[ck] = f
    app = f(*pars)
    return lift(b_ite(b_and(*outer), app, z3.IntVal(0)))


def mk_exists(k, body):
    if body is True:
        return z3.Exists([k], z3.BoolVal(True))
    if body is False:
        return False
    cs = conjuncts(body)
    for i, c in enumerate(cs):
        if z3.is_eq(c):
            a, b = c.children()
            for x, y in ((a, b), (b, a)):
                if x.eq(k) and not any(v.eq(k) for v in free_vars(y)):
                    return b_and(*[sub(r, [(k, y)]) for j, r in enumerate(cs) if j != i])
    if z3.is_or(body):
        return b_or(*[mk_exists(k, c) for c in body.children()])
    inner = [c for c in cs if any(v.eq(k) for v in free_vars(c))]
    outer = [c for c in cs if not any(v.eq(k) for v in free_vars(c))]
    if not inner:
        return b_and(body, z3.Exists([k], z3.BoolVal(True)))
    return b_and(*outer, z3.Exists([k], b_and(*inner)))


def mk_forall(k, body):
    return b_not(mk_exists(k, b_not(body)))


# ------------------------------------------------------------------ witnesses: functions with a defining fact
WITNESS = {}     # name -> (params, fact, app)


_shapes = {}


def shape(f, pars, probes):
    """a text that is the same for formulas that differ in the names of their variables only; the variables in order"""
    ids = {p.get_id(): None for p in pars}
    own = {p.get_id(): i for i, p in enumerate(probes)}
    order, memo, out = [], {}, []

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i]
        if z3.is_quantifier(e):
            t = f'Q{int(e.is_forall())}{[e.var_sort(k).sexpr() for k in range(e.num_vars())]}({go(e.body())})'
        elif z3.is_var(e):
            t = f'v{z3.get_var_index(e)}'
        elif i in own:
            t = f'w{own[i]}'
        elif i in ids:
            if ids[i] is None:
                ids[i] = len(order)
                order.append(e)
            t = f'p{ids[i]}:{e.sort().sexpr()}'
        else:
            t = e.decl().sexpr() + '(' + ','.join(go(c) for c in e.children()) + ')'
        out.append(t)
        memo[i] = f'#{len(out)}'
        return memo[i]
    go(f)
    return ';'.join(out), order


def witnesses(sorts, fact_of, name='w'):
    """terms ts with fact_of(ts); the caller guarantees that such terms exist for all values of the variables.

    The terms are functions of the variables free in the formula."""
    probes = tuple(z3.Const(f'probe!{next(_n)}', s) for s in sorts)
    f0 = lift(fact_of(probes))
    pars = free_vars(f0)
    text, order = shape(f0, pars, probes)
    if len(order) == len(pars):
        pars = order
        names = _shapes.get(text)
        if names is not None:
            return tuple(z3.Function(n, *[p.sort() for p in pars], s)(*pars) for n, s in zip(names, sorts))
    names = [f'{name}!{next(_n)}' for _ in sorts]
    if len(order) == len(pars):
        _shapes[text] = names
    apps = tuple(z3.Function(n, *[p.sort() for p in pars], s)(*pars) for n, s in zip(names, sorts))
    fact = sub(f0, list(zip(probes, apps)))
    for n, a in zip(names, apps):
        WITNESS[n] = (pars, fact, a)
    return apps


def witness(sort, fact_of, name='w'):
    return witnesses((sort,), lambda ts: fact_of(ts[0]), name)[0]


# ------------------------------------------------------------------ validity
STAT = {'queries': 0, 'solver_s': 0.0, 'cvc5': 0}
FACTS = []       # formulas that always hold (axioms about uninterpreted functions, preconditions)
TIMEOUT = [8000]


def apps_of(names, es):
    out, seen = {}, set()
    todo = [e for e in es if is_z3(e)]
    hit = {n for n in _union([_sets_of(e)[2] for e in todo]) if n in names}
    if not hit:
        return []
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if hit.isdisjoint(_sets_of(e)[2]):
            continue
        if z3.is_quantifier(e):
            # applications on bound variables are not instantiated
            todo.append(e.body())
            continue
        if z3.is_app(e):
            n = e.decl().name()
            if n in names and not has_bound(e):
                out[i] = e
            todo.extend(e.children())
    return list(out.values())


def has_bound(e):
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        todo.extend(x.children())
    return False


MAXAX = 3000


def expand(es, depth=6):
    """axioms about the sums and witnesses that occur in the formulas"""
    for axioms in layers(es, depth):
        pass
    return axioms


def layers(es, depth=6):
    """the axioms about the sums and witnesses that occur in the formulas, in growing sets"""
    axioms = []
    yield axioms
    done, sumapps = set(), []
    frontier = list(es)
    for _ in range(depth):
        new = []
        for a in apps_of(WITNESS, frontier):
            if a.get_id() in done:
                continue
            done.add(a.get_id())
            pars, fact, _ = WITNESS[a.decl().name()]
            new.append(sub(fact, list(zip(pars, a.children()))))
        for a in apps_of(SUMS, frontier):
            if a.get_id() in done:
                continue
            done.add(a.get_id())
            d = SUMS[a.decl().name()]
            pairs = list(zip(d.params, a.children()))
            bind = list(d.binders)
            sorts = tuple(k.sort() for k in bind)

            def at(ts, d=d, pairs=pairs, bind=bind):
                m = list(zip(bind, ts))
                return z3.If(sub(sub(d.guard, m), pairs), sub(sub(d.term, m), pairs), z3.IntVal(0))

            def sk():
                return [z3.Const(f'sk!{next(_n)}', x) for x in sorts]
            new.append(z3.Or(a == 0, at(sk()) != 0))
            new.append(z3.Or(a >= 0, at(sk()) < 0))
            if z3.is_int_value(d.term) and d.term.as_long() == 1:
                # a number of keys
                new.append(z3.Or(z3.Not(z3.Exists(bind, sub(d.guard, pairs))), a >= 1))
            for o in sumapps:
                # two sums of the same family of terms are equal; the binders may be in another order
                if sorted(x.name() for x in o[0]) != sorted(x.name() for x in sorts):
                    continue
                for perm in ([range(len(sorts))] if len(set(sorts)) == len(sorts) else itertools.permutations(range(len(sorts)))) if len(sorts) > 1 else [(0,)]:
                    if any(o[0][i] != sorts[j] for i, j in enumerate(perm)):
                        continue
                    ts = sk()
                    new.append(z3.Or(a == o[2], at(ts) != o[1]([ts[j] for j in perm])))
            inst = (sorts, at, a)
            sumapps.append(inst)
        if not new or len(axioms) + len(new) > MAXAX:
            break
        axioms = axioms + new
        yield axioms
        frontier = new


ORDERS = {}     # name of an order relation -> number of leading arguments (the rest are two keys)


def order_instances(es):
    """the order axioms for the keys that occur"""
    apps = apps_of(ORDERS, es)
    groups = {}
    for a in apps:
        n = a.decl().name()
        pre = ORDERS[n]
        ch = a.children()
        m = (len(ch) - pre) // 2
        g = groups.setdefault((n, tuple(c.get_id() for c in ch[:pre])), (a.decl(), ch[:pre], {}))
        for k in (tuple(ch[pre:pre + m]), tuple(ch[pre + m:])):
            g[2][tuple(c.get_id() for c in k)] = k
    out = []
    for (n, _), (f, pre, keys) in groups.items():
        ks = list(keys.values())
        if len(ks) > 9:
            ks = ks[:9]
        lt = lambda a, b: f(*pre, *a, *b)
        for i, a in enumerate(ks):
            out.append(z3.Not(lt(a, a)))
            for b in ks[i + 1:]:
                same = z3.And(*[x == y for x, y in zip(a, b)])
                out.append(z3.Not(z3.And(lt(a, b), lt(b, a))))
                out.append(z3.Or(lt(a, b), lt(b, a), same))
        for a, b, c in itertools.permutations(ks, 3):
            out.append(z3.Implies(z3.And(lt(a, b), lt(b, c)), lt(a, c)))
    return out


def relevant(es):
    """the facts about functions that occur in the formulas; a fact is (names, formula)"""
    used = funcs(*es)
    out = []
    for f in FACTS:
        if isinstance(f, tuple):
            if not any(n in used for n in f[0]):
                continue
            f = f[1]
        out.append(f)
    return out


_cache = {}


def has_quantifier(es):
    seen = set()
    todo = [e for e in es if is_z3(e)]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            return True
        todo.extend(e.children())
    return False


def linear(e, coef, cond, out):
    """e as a linear combination: [(coefficient, condition, term)]"""
    e = lift(e)
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        for c in e.children():
            linear(c, coef, cond, out)
    elif k == z3.Z3_OP_SUB:
        linear(e.arg(0), coef, cond, out)
        for c in e.children()[1:]:
            linear(c, -coef, cond, out)
    elif k == z3.Z3_OP_UMINUS:
        linear(e.arg(0), -coef, cond, out)
    elif k == z3.Z3_OP_MUL and len(e.children()) == 2 and z3.is_int_value(e.arg(0)):
        linear(e.arg(1), coef * e.arg(0).as_long(), cond, out)
    elif k == z3.Z3_OP_ITE:
        for x, c in ((e.arg(1), e.arg(0)), (e.arg(2), b_not(e.arg(0)))):
            c = b_and(cond, c)
            if c is not False:
                linear(x, coef, c, out)
    elif not z3.is_int_value(e) or e.as_long():
        out.append((coef, cond, e))
    return out


def sums_equal(hyps, a, b):
    """a == b for linear combinations of sums: the sums over the same kind of keys are added key by key"""
    rest, groups = [], {}
    for coef, cond, x in linear(lift(a) - lift(b), 1, True, []):
        if z3.is_app(x) and x.decl().name() in SUMS:
            d = SUMS[x.decl().name()]
            groups.setdefault(tuple(k.sort() for k in d.binders), []).append((coef, cond, d, x))
        else:
            rest.append(z3.If(lift(cond), z3.IntVal(coef) * x, z3.IntVal(0)))
    for sorts, xs in groups.items():
        ks = [fresh_var(s, 'e') for s in sorts]
        ts = []
        for coef, cond, d, x in xs:
            pairs = list(zip(d.params, x.children()))
            m = list(zip(d.binders, ks))
            ts.append(z3.If(lift(b_and(cond, sub(sub(d.guard, m), pairs))), z3.IntVal(coef) * sub(sub(d.term, m), pairs), z3.IntVal(0)))
        if not valid(hyps, z3.Sum(ts) == 0, final=True):
            return False
    return not rest or valid(hyps, z3.Sum(rest) == 0, final=True)


DEADLINE = [None]


def valid(hyps, goal, timeout=None, final=False):
    """is the goal proved? final: with all means (longer, with quantified facts, second solver)"""
    if goal is True:
        return True
    goal = lift(goal)
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True
    hs = [lift(h) for h in hyps if h is not True]
    if any(z3.is_false(h) for h in hs):
        return True
    key = (g.get_id(), tuple(sorted(h.get_id() for h in hs)), len(FACTS), final)
    if key in _cache:
        return _cache[key][0]
    t0 = time.time()
    if DEADLINE[0] and t0 > DEADLINE[0]:
        raise Unsupported('time limit of the proof reached')
    STAT['queries'] += 1
    base = hs + [z3.Not(g)]

    def solver(facts, ms):
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(*base)
        s.add(*ax)
        s.add(*facts)
        used = funcs(*base, *ax, *facts)
        lits = [v for n, v in _lits.items() if v.decl().name() in used]
        if len(lits) > 1:
            s.add(z3.Distinct(*lits))
        return s
    ms = timeout or (TIMEOUT[0] if final else 2500)
    res, r, s = False, None, None
    every = layers(base)
    ax, more, i = next(every), True, 0
    while more:
        # small sets of axioms are taken together
        while more and (i == 0 or len(ax) < 40):
            nxt = next(every, None)
            if nxt is None:
                more = False
            else:
                ax, i = nxt, i + 1
                if len(ax) >= 40:
                    break
        rel = relevant(base + ax)
        plain = [f for f in rel if not has_quantifier([f])]
        inst = order_instances(base + ax)
        s = solver(plain + inst, ms)
        r = s.check()
        res = r == z3.unsat
        if res:
            break
        if more:
            nxt = next(every, None)
            if nxt is None:
                break
            ax = nxt
    if not res and final:
        quant = [f for f in rel if has_quantifier([f])]
        if quant or r == z3.unknown:
            s2 = solver(rel + inst, TIMEOUT[0])
            r2 = s2.check()
            res = r2 == z3.unsat
            if not res and r2 == z3.unknown and cvc5(s2):
                res = True
    STAT['solver_s'] += time.time() - t0
    if os.environ.get('PYVC_SLOW') and time.time() - t0 > 0.5:
        print(f'SLOW {time.time() - t0:.1f}s {r} {res} facts={len(rel)} ax={len(ax)} inst={len(inst)} size={len(s.sexpr())}: {str(g)[:1500]}', flush=True)
    _cache[key] = (res, g, hs, r)     # keep the terms alive: ids are only unique among live terms
    LAST['reason'] = 'refuted' if r == z3.sat else f'unknown ({s.reason_unknown()})' if r == z3.unknown else ''
    LAST['solver'] = s
    return res


LAST = {}


def cvc5(solver):
    t0 = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + solver.to_smt2())
        name = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=10000', name], capture_output=True, text=True, timeout=20)
        ok = r.stdout.strip().split('\n')[0] == 'unsat'
    except Exception:
        ok = False
    finally:
        os.unlink(name)
    STAT['cvc5'] += ok
    STAT['solver_s'] += time.time() - t0
    return ok


def consistent(hyps):
    """the hypotheses have no contradiction the solver can find (vacuity check)"""
    s = z3.Solver()
    s.set('timeout', 3000)
    hs = [lift(h) for h in hyps if h is not True]
    ax = expand(hs)
    s.add(*hs, *ax, *relevant(hs + ax))
    return s.check() != z3.unsat
