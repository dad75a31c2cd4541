"""Loops in lockstep with a specification machine: the invariant is the set of equalities between values of both."""
import os

import z3

from logic import Unsupported
from paths import (FACTS, B, Break, Continue, Elem, Fn, I, Infeasible, Junk, Lines, Map, MapElem, Match, Moved, Opaque, Raised, Rec, Ref, Regex, Return,
                   SList, Str, Words, Cls, File, Method, Mod, Done, L, is_leaf, proved)
from steps import assigned


class Leaf:
    def __init__(self, i):
        self.i = i


class Template:
    """the state with its leaves numbered"""
    def __init__(self, run, extra):
        self.leaves, self.where = [], []
        self.key = []
        self.ids = {}
        self.todo = []
        self.heap = {}
        self.ns = run.ns
        run_heap = run.heap
        self.run = run
        self.frames = {}
        # frames and objects are numbered in the order in which they are reached
        self.fids = {f: i for i, f in enumerate(sorted(run.frames, key=lambda f: (f not in run.chain, len(f), f)))}
        for f in self.fids:
            self.frames[f] = {}
            for n in sorted(run.frames[f]):
                self.key.append(('var', self.fids[f], n))
                self.frames[f][n] = self.walk(run.frames[f][n])
        self.key.append('spec')
        self.spec = {}
        for n in sorted(run.spec):
            self.key.append(n)
            self.spec[n] = self.walk(run.spec[n])
        self.key.append('extra')
        self.extra = self.walk(extra)
        while self.todo:
            oid = self.todo.pop(0)
            self.heap[oid] = self.obj(run_heap[oid])
        self.key = tuple(self.key)
        self.chain, self.depth = list(run.chain), list(run.depth)
        self.run = None

    def leaf(self, v):
        self.leaves.append(v)
        self.where.append(self.key[-1])
        self.key.append(('leaf', 'list' if isinstance(v, SList) else str(v.sort())))
        return Leaf(len(self.leaves) - 1)

    def walk(self, v):
        k = self.key
        if v is None or isinstance(v, bool):
            k.append(v)
            return v
        if is_leaf(v):
            v = L(v)
            if v.sort() == B:
                b = self.run.branch(v)
                k.append(b)
                return b
            return self.leaf(v)
        if isinstance(v, Ref):
            if v.oid not in self.ids:
                self.ids[v.oid] = len(self.ids)
                self.todo.append(v.oid)
            k.append(('ref', self.ids[v.oid]))
            return v
        if isinstance(v, tuple):
            k.append(('tuple', len(v)))
            return tuple(self.walk(x) for x in v)
        if isinstance(v, SList):
            return self.leaf(v)
        if isinstance(v, Map):
            return self.obj(v)
        if isinstance(v, Lines):
            k.append('lines')
            return Lines(self.walk(v.off))
        if isinstance(v, Fn):
            k.append(('fn', v.node.name, v.node.lineno, tuple(self.fids[f] for f in v.fid or ())))
            if v.self_ is not None:
                return Fn(v.node, v.fid, self.walk(v.self_))
            return v
        if isinstance(v, Regex):
            k.append(('regex', v.p))
            return v
        if isinstance(v, (Mod, Cls)):
            k.append(('mod', v.name))
            return v
        if isinstance(v, Junk):
            k.append('junk')
            return v
        if isinstance(v, Words):
            k.append(('words', v.k))
            return WordsT(self.walk(v.t), v.k)
        if isinstance(v, Match):
            k.append(('match', v.p))
            return MatchT(v.p, self.walk(v.t))
        if isinstance(v, (Opaque, Method, File)):
            k.append(type(v).__name__)
            return v
        raise Unsupported(f'{type(v).__name__} in the state of a loop')

    def obj(self, o):
        k = self.key
        if isinstance(o, Rec):
            k.append(('rec', o.cls, tuple(sorted(o.d))))
            return Rec({n: self.walk(o.d[n]) for n in sorted(o.d)}, o.cls)
        if isinstance(o, SList):
            return self.leaf(o)
        if isinstance(o, Map):
            k.append(('map', self.run.branch(o.some), tuple(sorted(o.cols))))
            return MapT(self.run.branch(o.some), self.walk_a(o.dom), self.walk_a(o.n), {c: self.walk_a(a) for c, a in sorted(o.cols.items())})
        if isinstance(o, Elem):
            if o.lst not in self.ids:
                self.ids[o.lst] = len(self.ids)
                self.todo.append(o.lst)
            k.append(('elem', self.ids[o.lst]))
            return Elem(o.lst, self.walk(o.idx))
        if isinstance(o, MapElem):
            if o.m not in self.ids:
                self.ids[o.m] = len(self.ids)
                self.todo.append(o.m)
            k.append(('melem', self.ids[o.m]))
            return MapElem(o.m, self.walk(o.key))
        if isinstance(o, Moved):
            k.append('moved')
            return o
        raise Unsupported(f'{type(o).__name__} in the state of a loop')

    def walk_a(self, a):
        return self.leaf(a)


class WordsT:
    def __init__(self, t, k):
        self.t, self.k = t, k


class MatchT:
    def __init__(self, p, t):
        self.p, self.t = p, t


class MapT:
    def __init__(self, some, dom, n, cols):
        self.some, self.dom, self.n, self.cols = some, dom, n, cols


def same_list(a, b):
    """formula with fresh indices that is valid if and only if the lists have the same items"""
    j = z3.FreshInt('j')
    fs = [a.n == b.n]
    for c in set(a.cols) | set(b.cols):
        inb = z3.And(j >= 0, j < a.n)
        if c not in a.cols or c not in b.cols:
            if '/' in c:
                # column of inner lists that are empty in the other list
                x = (a if c in a.cols else b)
                fs.append(z3.Implies(inb, x.cols[c[:c.index('/')] + '#'][j] == 0))
            else:
                fs.append(a.n == 0)
            continue
        x, y = a.cols[c][j], b.cols[c][j]
        if '/' in c:
            i = z3.FreshInt('i')
            n = a.cols[c[:c.index('/')] + '#'][j]
            fs.append(z3.Implies(z3.And(inb, i >= 0, i < n), x[i] == y[i]))
        else:
            fs.append(z3.Implies(inb, x == y))
    return z3.And(*fs)


def same_map(a, b):
    """as above for the lists of the keys that exist"""
    s = z3.FreshConst(Str, 's')
    j = z3.FreshInt('j')
    if set(a.cols) != set(b.cols):
        return z3.BoolVal(False)
    return z3.And(a.dom[s] == b.dom[s], z3.Implies(a.dom[s], z3.And(a.n[s] == b.n[s], *[
        z3.Implies(z3.And(j >= 0, j < a.n[s]), a.cols[c][s][j] == b.cols[c][s][j]) for c in a.cols])))


def leaf_eq(pc, x, y):
    if isinstance(x, SList) != isinstance(y, SList):
        return False
    if isinstance(x, SList):
        return x is y or proved(pc, same_list(x, y))
    if x.sort() != y.sort():
        return False
    return x.eq(y) or proved(pc, x == y, 5000)


def const_of(x):
    """literal values stay constants"""
    if isinstance(x, SList):
        return x if not x.cols else None
    x = z3.simplify(x) if x.sort() == I else x
    if z3.is_int_value(x) or x.sort() == Str and x.num_args() == 0 and x.decl().name().startswith('"'):
        return x
    return x if x.sort() in (I, Str) and is_input(x) else None


def is_input(x):
    """a term of the arguments of the function"""
    if x.num_args() == 0:
        return z3.is_int_value(x) or x.decl().name().startswith(('input ', '"'))
    return all(is_input(y) for y in x.children())


def same_const(a, b):
    if isinstance(a, SList) or isinstance(b, SList):
        return isinstance(a, SList) and isinstance(b, SList)
    return a.eq(b)


class Config:
    """a kind of state at the head (or exit) of the loop: which leaves are equal"""
    def __init__(self, tpl, pc):
        self.tpl = tpl
        self.cols = {}
        self.classes = []       # [[leaf indices], constant or None]
        self.note(tpl)
        for i, x in enumerate(tpl.leaves):
            for c in self.classes:
                if leaf_eq(pc, tpl.leaves[c[0][0]], x):
                    c[0].append(i)
                    break
            else:
                self.classes.append([[i], const_of(x)])

    def note(self, tpl):
        """the columns that the lists have"""
        new = False
        for i, x in enumerate(tpl.leaves):
            if isinstance(x, SList):
                d = self.cols.setdefault(i, {})
                for c, a in x.cols.items():
                    if c not in d:
                        d[c] = a.sort()
                        new = True
        return new

    def meet(self, tpl, pc):
        """weaken to cover another state; True if changed"""
        changed = self.note(tpl)
        out = []
        for idx, const in self.classes:
            groups = []
            for i in idx:
                for g in groups:
                    if leaf_eq(pc, tpl.leaves[g[0]], tpl.leaves[i]):
                        g.append(i)
                        break
                else:
                    groups.append([i])
            if len(groups) > 1:
                changed = True
                if os.environ.get('PYVC_TRACE'):
                    print('SPLIT', [(i, tpl.where[i]) for g in groups for i in g[:1]], 'in', groups)
                    for g in groups:
                        x = tpl.leaves[g[0]]
                        print('   ', (x.n, x.cols) if isinstance(x, SList) else x)
                    print('   pc', [str(z3.simplify(q))[:300] for q in pc])
            for g in groups:
                k = const
                if k is not None and (const_of(tpl.leaves[g[0]]) is None or not same_const(k, const_of(tpl.leaves[g[0]]))):
                    k = None
                    changed = True
                out.append([g, k])
        self.classes = out
        return changed

    def restore(self, run, ns):
        """the state with an arbitrary value for every class"""
        vals = {}
        for idx, const in self.classes:
            x = self.tpl.leaves[idx[0]]
            if isinstance(x, SList):
                cols = {}
                for i in idx:
                    cols.update(self.cols[i])
                if const is not None and not cols:
                    v = const
                else:
                    v = SList(run.fresh(I, 'n'), {c: run.fresh(s, 'col ' + c) for c, s in cols.items()})
                    run.assume(v.n >= 0)
            else:
                v = const if const is not None else run.fresh(x.sort(), 'x')
            for i in idx:
                vals[i] = v

        def back(v):
            if isinstance(v, Leaf):
                return vals[v.i]
            if isinstance(v, tuple):
                return tuple(back(x) for x in v)
            if isinstance(v, Lines):
                return Lines(back(v.off))
            if isinstance(v, Fn):
                return Fn(v.node, v.fid, back(v.self_)) if v.self_ is not None else v
            if isinstance(v, WordsT):
                return Words(back(v.t), v.k)
            if isinstance(v, MatchT):
                return Match(v.p, back(v.t))
            if isinstance(v, Rec):
                return Rec({k: back(x) for k, x in v.d.items()}, v.cls)
            if isinstance(v, MapT):
                return Map(z3.BoolVal(v.some), back(v.dom), back(v.n), {k: back(x) for k, x in v.cols.items()})
            if isinstance(v, Elem):
                return Elem(v.lst, back(v.idx))
            if isinstance(v, MapElem):
                return MapElem(v.m, back(v.key))
            return v
        t = self.tpl
        run.heap = {k: back(v) for k, v in t.heap.items()}
        run.frames = {f: {n: back(v) for n, v in d.items()} for f, d in t.frames.items()}
        run.spec = {n: back(v) for n, v in t.spec.items()}
        run.chain, run.depth = list(t.chain), list(t.depth)
        return back(t.extra)


def lockstep(run, s, it):
    """the rule for a loop over lines or list items"""
    ex = run.ex
    key = (id(s), tuple(run.taken), run.ns)
    if key not in ex.memo:
        ex.memo[key] = fixpoint(run, s, it)
    exits = ex.memo[key]
    if not exits:
        raise Infeasible()
    k = run.pick(len(exits))
    kind, cfg = exits[k]
    run.pc = list(ex.pre)
    val = cfg.restore(run, run.ns)
    if kind == 'return':
        raise Return(val)


def fixpoint(run, s, it):
    ex, spec = run.ex, run.ex.spec
    names = assigned([s])
    heads, work, exits = {}, [], {}
    count = [0]
    level = f'{run.ns}L{s.lineno}.{"".join(map(str, map(int, run.taken)))}.'

    def add(r, table, kind, extra):
        for f in r.chain[-1:]:
            if table is heads:
                for n in names:
                    if n not in ex.junk:
                        r.frames[f][n] = Junk()
        t = Template(r, extra)
        k = (kind, t.key)
        if k not in table:
            table[k] = Config(t, r.pc)
            return k
        return k if table[k].meet(t, r.pc) else None

    pos0, hi0 = it.lo, it.hi
    spec.enter(run, s)
    f = run.clone(level)
    r0 = type(run)(ex, (), level)
    f(r0)
    r0.pc = list(run.pc)
    k = add(r0, heads, 'head', (pos0, hi0, it.args, pos0))
    work.append(k)
    while work:
        k = work.pop(0)
        cfg = heads[k]
        count[0] += 1
        if count[0] > 200:
            raise Unsupported('the invariant of a loop')
        ns = f'{level}{count[0]}.'
        again = []

        def step(r):
            r.pc = list(ex.pre)
            pos, hi, args, lo = cfg.restore(r, ns)
            r.assume(pos >= lo)
            end = not r.branch(pos < bound(it.kind, r, hi, args))
            if end:
                spec.exhausted(r, s)
                return 'exit', None, None
            r.assign(s.target, it.item(r, pos, args))
            # the position is a part of the state that loops within this one generalise
            hidden, frame = f'%{s.lineno}', r.chain[-1]
            r.frames[frame][hidden] = (pos, hi, args, lo)
            try:
                r.block(s.body)
                how = ('next', None)
            except Continue:
                how = ('next', None)
            except Break:
                how = ('exit', None)
            except Return as x:
                how = ('return', x.args[0])
            except Raised as x:
                how = ('raise', x.name)
            pos, hi, args, lo = r.frames[frame].pop(hidden)
            spec.step(r, s, how[0])
            if how[0] == 'raise':
                spec.raised(r, s, how[1])
                raise Done()
            if how[0] in ('exit', 'return'):
                spec.left(r, s)
            return how[0], how[1], (pos + 1, hi, args, lo)
        for r, (how, val, nxt) in ex.paths(step, ns):
            outer, FACTS[0] = FACTS[0], r.facts
            if not r.feasible():
                FACTS[0] = outer
                continue
            if how == 'next':
                kk = add(r, heads, 'head', nxt)
                if kk is not None:
                    again.append(kk)
            else:
                add(r, exits, how, val)
            FACTS[0] = outer
        for kk in again:
            if kk not in work:
                work.append(kk)
    spec.leave(run, s, heads)
    return [(k[0], c) for k, c in exits.items()]


def bound(kind, r, hi, args):
    """the end of the iteration: lists are asked for their length again"""
    if kind == 'list':
        return r.heap[args[0].oid].n
    return bound(kind[1], r, hi, args[2]) if kind[0] == 'enum' else hi
