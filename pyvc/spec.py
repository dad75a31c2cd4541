"""Inputs of contracts, and obligations about results."""
import sys
import time

import z3

import logic
from engine import Engine, PyFn, State, first
from logic import (FACTS, ORDERS, Idx, Str, Unsupported, b_and, b_implies, b_not, b_or, consistent, eqt, fresh_var, funcs, is_z3, lift, mk_existss, sort_of, valid, LAST)
from values import (Choice, Empty, Lost, Map, Rec, Ref, Seg, Seq, SetV, Tup, Undef, is_leaf, ite, norm, subst)

INT, BOOL, STR = z3.IntSort(), z3.BoolSort(), Str


class M:
    """dict from names (or another sort) to values"""
    def __init__(self, sub, ksort=Str):
        self.sub, self.ksort = sub, ksort


class L:
    """list"""
    def __init__(self, sub):
        self.sub = sub


class L1:
    """list with at least one item"""
    def __init__(self, sub):
        self.sub = sub


class R:
    """dict with fixed keys, or object (cls)"""
    def __init__(self, cls=None, **fields):
        self.fields, self.cls = fields, cls


class Opt:
    """field that may be missing"""
    def __init__(self, sub):
        self.sub = sub


class Null:
    """value or None"""
    def __init__(self, sub):
        self.sub = sub


class T:
    def __init__(self, *items):
        self.items = items


_ordered = set()
ORDERED = [True]


def order_facts(name, sorts, dom_name, ksorts_n):
    """a strict total order on the keys, given the keys of the containers around"""
    if name in _ordered:
        return
    _ordered.add(name)
    ORDERS[name] = len(sorts) - 2 * ksorts_n
    f = z3.Function(name, *sorts, z3.BoolSort())
    pre = [z3.Const(f'p{i}', s) for i, s in enumerate(sorts[:-2 * ksorts_n])]
    a, b, c = ([z3.Const(f'{x}{i}', s) for i, s in enumerate(sorts[len(pre):len(pre) + ksorts_n])] for x in 'abc')
    fs = [z3.ForAll(pre + a, z3.Not(f(*pre, *a, *a))) if True else None]
    fs.append(z3.ForAll(pre + a + b, z3.Not(z3.And(f(*pre, *a, *b), f(*pre, *b, *a)))))
    fs.append(z3.ForAll(pre + a + b + c, z3.Implies(z3.And(f(*pre, *a, *b), f(*pre, *b, *c)), f(*pre, *a, *c))))
    fs.append(z3.ForAll(pre + a + b, z3.Or(f(*pre, *a, *b), f(*pre, *b, *a), *[x == y for x, y in zip(a, b)] if ksorts_n == 1 else [z3.And(*[x == y for x, y in zip(a, b)])])))
    for x in fs:
        FACTS.append(((name,), x))


def mk(sch, name, keys=()):
    """an unknown value of the given shape; leaves are functions of the keys on the way"""
    ksorts = tuple(k.sort() for k in keys)

    def app(n, sort, ks):
        return z3.Function(n, *[k.sort() for k in ks], sort)(*ks) if ks else z3.Const(n, sort)
    if isinstance(sch, z3.SortRef):
        return app(name, sch, keys)
    if isinstance(sch, R):
        out = {}
        for n, s in sch.fields.items():
            if isinstance(s, Opt):
                out[n] = (app(f'{name}.{n}?', z3.BoolSort(), keys), mk(s.sub, f'{name}.{n}', keys))
            else:
                out[n] = (True, mk(s, f'{name}.{n}', keys))
        return Rec(out, sch.cls)
    if isinstance(sch, Null):
        isnone = app(f'{name}=None', z3.BoolSort(), keys)
        return Choice([(isnone, None), (b_not(isnone), mk(sch.sub, name, keys))])
    if isinstance(sch, M):
        if ORDERED[0]:
            order_facts(name + '<', ksorts + (sch.ksort, sch.ksort), None, 1)
        return Map(sch.ksort, lambda k: app(name + '?', z3.BoolSort(), keys + (lift(k),)), lambda k: mk(sch.sub, name + '/', keys + (lift(k),)),
                   (lambda a, b: app(name + '<', z3.BoolSort(), keys + (lift(a), lift(b)))) if ORDERED[0] else None)
    if isinstance(sch, L):
        order_facts(name + '<', ksorts + (Idx, Idx), None, 1)
        return Seq([Seg((Idx,), lambda ks: app(name + '?', z3.BoolSort(), keys + tuple(lift(k) for k in ks)),
                        lambda ks: mk(sch.sub, name + '/', keys + tuple(lift(k) for k in ks)),
                        lambda a, b: app(name + '<', z3.BoolSort(), keys + (lift(a[0]), lift(b[0]))))])
    if isinstance(sch, L1):
        return Seq([Seg((), lambda ks: True, lambda ks: mk(sch.sub, name + '/first', keys), None)] + list(mk(L(sch.sub), name, keys).segs))
    if isinstance(sch, T):
        return Tup([mk(s, f'{name}.{i}', keys) for i, s in enumerate(sch.items)])
    raise AssertionError(sch)


def same_value(x, y):
    """the same object, or the same leaf"""
    if x is y:
        return True
    if isinstance(x, Choice) and isinstance(y, Choice):
        return len(x.alts) == len(y.alts) and all(same_value(g, h) and same_value(a, b) for (g, a), (h, b) in zip(x.alts, y.alts))
    if isinstance(x, Ref) and isinstance(y, Ref):
        return x.rid == y.rid and x.path == y.path
    if is_leaf(x) and is_leaf(y) and x is not None and y is not None:
        return eqt(x, y) is True
    return False


class Prover:
    def __init__(self, tier='quick'):
        self.tier = tier
        self.obligations, self.assumptions, self.bounded, self.functions, self.used = [], [], [], set(), set()
        self.label = ''
        self.t0 = time.time()

    # ---------------------------------------------------------- running the code
    def engine(self, label, order=True):
        """a new contract; its obligations are named with the label"""
        self.flush()
        self.label = label
        self.eng = Engine()
        self.eng.order = order
        ORDERED[0] = order
        self.st = State()
        self.pre = []
        return self.eng

    @property
    def raises(self):
        self._looked = True
        return self._exits

    @raises.setter
    def raises(self, exits):
        self._exits, self._looked = exits, False

    def flush(self):
        # a contract that does not say when the function raises an exception: never
        if getattr(self, '_exits', None) and not self._looked:
            for i, x in enumerate(self._exits):
                if x.kind == 'raise':
                    ok = valid(tuple(x.state.pc), z3.BoolVal(False), final=True)
                    self.add(f'{self.label}: no exception ({i + 1})', ok, '' if ok else f'raise {x.value}')
        self._exits = []
        if getattr(self, 'eng', None) is not None:
            for o in self.eng.obligations:
                self.add(f'{self.label}: {o.name}', o.ok, o.detail)
            self.eng.obligations = []
            self.functions |= {f'{x}' for x in self.eng.inlined}
            self.used |= self.eng.used

    def add(self, name, ok, detail=''):
        self.obligations.append({'name': name, 'status': 'discharged' if ok else 'failed', 'detail': detail, 'by': 'z3'})

    def arg(self, sch, name, frozen=True):
        """an argument; containers are objects of the caller"""
        v = mk(sch, name)
        return self.give(v)

    def give(self, v):
        if isinstance(v, Choice):
            return Choice([(g, self.give(x)) for g, x in v.alts])
        if is_leaf(v) or isinstance(v, Tup):
            return v
        return self.eng.alloc(self.st, v, input_=True)

    def assume(self, *fs):
        for f in fs:
            self.st = self.st.assume(f)
            self.pre.append(f)

    def fn(self, mod, name):
        m = self.eng.mod(mod)
        if name not in m.funcs:
            raise Unsupported(f'{mod}.{name} does not exist')
        return PyFn(m.funcs[name], None, m)

    def call(self, mod, name, *args, **kwargs):
        """state and result of the normal return, and the other exits"""
        self.eng.raised = []
        out, v = self.eng.call(self.st, self.fn(mod, name), list(args), kwargs)
        self.functions.add(f'{mod}.{name}')
        self._exits, self._looked = out.exits, False
        if out.state is None:
            raise Unsupported(f'{name} never returns')
        self.out = out.state
        ok = consistent(list(out.state.pc))
        self.add(f'{self.label}: some input reaches the end of {name} (the contract is not vacuous)', ok)
        return v

    # ---------------------------------------------------------- looking at results
    def val(self, v, st=None):
        """the tree a value refers to"""
        st = st or self.out
        if isinstance(v, Ref):
            return self.eng.deref(st, v, whole=True)
        if isinstance(v, Choice):
            out = None
            for g, x in reversed(v.alts):
                x = self.val(x, st)
                out = x if out is None else ite(g, x, out)
            return out
        if isinstance(v, Tup):
            return Tup([self.val(x, st) for x in v.items])
        return v

    def prove(self, name, goal, hyps=None):
        if isinstance(goal, Lost):
            self.add(f'{self.label}: {name}', False, f'the value is not determined: {goal.why}')
            return False
        hy = tuple(self.out.pc) + tuple(hyps or ())
        ok = True if goal is True else valid(hy, goal, final=True)
        d = ''
        if not ok:
            d = LAST.get('reason', '') + ': ' + str(goal)[:500]
        self.add(f'{self.label}: {name}', ok, d)
        return ok

    def equal(self, name, a, b, hyps=(), order=False, path=''):
        """obligations: the value a equals the value b, at every key and leaf"""
        hyps = tuple(hyps)
        if isinstance(a, Lost) or isinstance(b, Lost):
            self.add(f'{self.label}: {name} {path}', False, 'the value is not determined: ' + (a if isinstance(a, Lost) else b).why)
            return
        if a is b:
            self.add(f'{self.label}: {name} {path} (unchanged)', True)
            return
        if isinstance(a, Choice) or isinstance(b, Choice):
            aa = a.alts if isinstance(a, Choice) else [(True, a)]
            bb = b.alts if isinstance(b, Choice) else [(True, b)]
            for i, (g, x) in enumerate(aa):
                for j, (h, y) in enumerate(bb):
                    c = b_and(g, h)
                    if c is False or valid(tuple(self.out.pc) + hyps, b_not(c)):
                        continue
                    self.equal(name, x, y, hyps + ((c,) if c is not True else ()), order, f'{path}|{i}{j}')
            return
        if is_leaf(a) and is_leaf(b):
            if a is None or b is None:
                self.prove(f'{name} {path}', a is b, hyps) if a is b else self.prove(f'{name} {path}', False, hyps)
            else:
                self.prove(f'{name} {path}', eqt(a, b), hyps)
            return
        if isinstance(a, Empty) and isinstance(b, Map):
            a = Map(b.ksort, lambda k: False, lambda k: Undef, lambda x, y: False)
        if isinstance(b, Empty) and isinstance(a, Map):
            b = Map(a.ksort, lambda k: False, lambda k: Undef, lambda x, y: False)
        if isinstance(a, Map) and isinstance(b, Map):
            if a.ksort != b.ksort:
                self.add(f'{self.label}: {name} {path} keys', False, 'keys of different kinds')
                return
            q = fresh_var(a.ksort, 'q')
            self.prove(f'{name} {path} has exactly these keys', eqt(a.dom(q), b.dom(q)), hyps)
            d = b.dom(q)
            if d is False:
                return
            self.equal(name, a.elem(q), b.elem(q), hyps + (d,), order, path + '[]')
            if order:
                if a.before is None or b.before is None:
                    self.add(f'{self.label}: {name} {path} order', False, 'the order is not determined')
                else:
                    r = fresh_var(a.ksort, 'q')
                    self.prove(f'{name} {path} is in the same order', eqt(a.before(q, r), b.before(q, r)),
                               hyps + (d, b.dom(r), z3.Not(q == r)))
            return
        if isinstance(a, Empty) and isinstance(b, Empty):
            self.add(f'{self.label}: {name} {path} is empty', True)
            return
        if isinstance(a, Rec) and isinstance(b, Rec):
            for n in list(a.fields) + [x for x in b.fields if x not in a.fields]:
                ca, va = a.fields.get(n, (False, Undef))
                cb, vb = b.fields.get(n, (False, Undef))
                self.prove(f'{name} {path}.{n} exists as expected', eqt(ca, cb), hyps)
                if cb is False or vb is Undef or va is Undef:
                    continue
                self.equal(name, va, vb, hyps + ((cb,) if cb is not True else ()), order, f'{path}.{n}')
            return
        if isinstance(a, Seq) and isinstance(b, Seq) and (len(a.segs) != len(b.segs) or any(x.sorts != y.sorts for x, y in zip(a.segs, b.segs))):
            # parts without items
            a, b = (Seq([g for g in x.segs if not valid(tuple(self.out.pc) + hyps, b_not(g.dom(tuple(fresh_var(s, 'q') for s in g.sorts))))]) for x in (a, b))
            if len(a.segs) != len(b.segs):
                # an item that is there in some cases only
                for g in a.segs + b.segs:
                    c = g.dom(())if not g.sorts else True
                    if c is True or c is False or valid(tuple(self.out.pc) + hyps, c):
                        continue
                    self.equal(name, a, b, hyps + (c,), order, path)
                    self.equal(name, a, b, hyps + (b_not(c),), order, path)
                    return
        if isinstance(a, Seq) and isinstance(b, Seq) and len(a.segs) == len(b.segs) and all(x.sorts == y.sorts for x, y in zip(a.segs, b.segs)):
            for i, (x, y) in enumerate(zip(a.segs, b.segs)):
                ks = tuple(fresh_var(s, 'q') for s in x.sorts)
                self.prove(f'{name} {path} has exactly these items', eqt(x.dom(ks), y.dom(ks)), hyps)
                self.equal(name, x.elem(ks), y.elem(ks), hyps + (lift(y.dom(ks)),), order, path + '[]')
                if order and ks:
                    rs = tuple(fresh_var(s, 'q') for s in x.sorts)
                    if x.before is None or y.before is None:
                        self.add(f'{self.label}: {name} {path} order', False, 'the order is not determined')
                    else:
                        self.prove(f'{name} {path} is in the same order', eqt(x.before(ks, rs), y.before(ks, rs)),
                                   hyps + (lift(y.dom(ks)), lift(y.dom(rs))))
            for i, j in [(i, j) for j in range(len(a.segs)) for i in range(j)] if order else []:
                ks, rs = (tuple(fresh_var(s, 'q') for s in x.segs[n].sorts) for x, n in ((a, i), (a, j)))
                p, q = (first(x.segs[i], x.segs[j], ks, rs) for x in (a, b))
                if p is None or q is None:
                    self.add(f'{self.label}: {name} {path} order', False, 'the order is not determined')
                elif p is not True or q is not True:
                    self.prove(f'{name} {path} is in the same order', eqt(p, q), hyps + (lift(b.segs[i].dom(ks)), lift(b.segs[j].dom(rs))))
            return
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            for i, (x, y) in enumerate(zip(a.items, b.items)):
                self.equal(name, x, y, hyps, order, f'{path}({i})')
            return
        if isinstance(a, SetV) and isinstance(b, SetV):
            q = fresh_var(b.sort, 'q')
            self.prove(f'{name} {path} has exactly these members', eqt(a.has(q) if a.sort is not None else False, b.has(q)), hyps)
            return
        self.add(f'{self.label}: {name} {path}', False, f'{type(a).__name__} is not {type(b).__name__}')

    def unchanged(self, name, ref, order=True):
        """obligations: the object the argument refers to is the same after the call"""
        from engine import compat
        r = self.eng.resolve(self.st, ref)
        for p in self.out.poison:
            if compat(p, (r.rid, ())):
                self.add(f'{self.label}: {name} is not modified', False, 'a part of it was modified through another reference')
                return
        self.equal(name + ' is not modified', self.out.heap[r.rid], self.st.heap[r.rid], order=order)

    def members(self, name, seq, sort, pred, hyps=()):
        """obligations: the list has exactly the items satisfying the predicate, each once"""
        if not isinstance(seq, Seq):
            self.add(f'{self.label}: {name}', False, f'{type(seq).__name__} is not a list')
            return
        v = fresh_var(sort, 'v')

        def found(g):
            ks = tuple(fresh_var(s, 'k') for s in g.sorts)
            return mk_existss(ks, b_and(g.dom(ks), eqt(g.elem(ks), v)))
        self.prove(f'{name}: exactly these items', eqt(b_or(*[found(g) for g in seq.segs]), pred(v)), hyps)
        for i, g in enumerate(seq.segs):
            ks, js = (tuple(fresh_var(s, 'k') for s in g.sorts) for _ in '12')
            if ks:
                self.prove(f'{name}: no item twice', b_implies(b_and(g.dom(ks), g.dom(js), eqt(g.elem(ks), g.elem(js))), b_and(*[eqt(a, b) for a, b in zip(ks, js)])), hyps)
            for h in seq.segs[i + 1:]:
                js = tuple(fresh_var(s, 'k') for s in h.sorts)
                self.prove(f'{name}: no item twice in different parts', b_not(b_and(g.dom(ks), h.dom(js), eqt(g.elem(ks), h.elem(js)))), hyps)

    def stub(self, mod, name, result):
        """use a callee through its contract: an unknown result; the calls are recorded with their path conditions"""
        node = self.fn(mod, name).node
        params = [x.arg for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        calls = []

        def f(eng, st, args, kwargs):
            a = dict(zip(params, args), **kwargs)
            calls.append((st, a))
            return (st, result) if not callable(result) else result(eng, st, a)
        self.eng.contracts[(mod, name)] = f
        return calls

    def same_args(self, name, calls, *want):
        """obligation: the callee is called, always with these arguments"""
        bad = [a for _, a in calls if len(a) != len(want) or not all(w(x) if callable(w) else same_value(x, w) for x, w in zip(a.values(), want))]
        self.add(f'{self.label}: {name} is called with the expected arguments', bool(calls) and not bad, repr(bad)[:400] if calls else 'never called')

    def raises_only(self, name, cond):
        """obligations: the function raises an exception only if the condition holds"""
        for i, x in enumerate(self.raises):
            if x.kind != 'raise':
                continue
            ok = cond is True or valid(tuple(x.state.pc), cond, final=True)
            self.add(f'{self.label}: {name} (raise {i + 1})', ok, '' if ok else LAST.get('reason', '') + ': ' + str(cond)[:500])

    def done(self):
        self.flush()
