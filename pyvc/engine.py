"""Symbolic execution of the functions of /repo, taken from its source files on every run.

Every function is executed on unknown inputs (trees described by a schema). Loops are summarised by an inferred
inductive invariant (see Loop): each part of the state that the body changes is either set at the own key of the
iteration, or added to, or extended, or created with a fixed value; the summary is only used if the solver proves
that one arbitrary iteration, from an arbitrary intermediate state, preserves it. What cannot be summarised becomes
unknown, and constructs outside the subset raise Unsupported."""
import ast
import builtins
import itertools
import os

import z3

from logic import (FACTS, Idx, Obj, Str, Unsupported, b_and, b_implies, b_ite, b_not, b_or, conjuncts, eqt, free_vars,
                   fresh_var, funcs, is_z3, lift, lit, mk_exists, mk_forall, mk_sum, mk_sums, sort_of, sub, unlit, valid, witness, LAST, STAT)
from values import (GROUP, Choice, Empty, Lost, Map, Rec, Ref, Seg, Seq, SetV, Tup, Undef, build, chain_leaf, choice, default,
                    empty_map, get, is_leaf, ite, join, leaves, norm, put, ref_eq, schema, subst, value_eq)

REPO = os.environ.get('VERIF_REPO', '/repo')
DEBUG = bool(os.environ.get('PYVC_DEBUG'))


_touch = itertools.count()


class State:
    __slots__ = ('heap', 'frames', 'pc', 'fwd', 'shares', 'poison', 'touched')

    def __init__(self):
        self.heap, self.frames, self.pc, self.fwd, self.shares, self.poison = {}, {}, (), {}, (), ()
        self.touched = frozenset()    # loops whose container was changed

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.frames = {f: dict(v) for f, v in self.frames.items()}
        s.pc, s.fwd, s.shares, s.poison = self.pc, dict(self.fwd), self.shares, self.poison
        s.touched = self.touched
        return s

    def assume(self, *cs):
        s = self.copy()
        for c in cs:
            if c is True:
                continue
            if c is False:
                c = z3.BoolVal(False)
            s.pc = s.pc + (c,)
        return s


def same_state(a, b):
    def same(x, y):
        return x.keys() == y.keys() and all(x[k] is y[k] for k in x)
    return (same(a.heap, b.heap) and a.frames.keys() == b.frames.keys() and all(same(a.frames[f], b.frames[f]) for f in a.frames) and
            len(a.shares) == len(b.shares) and len(a.poison) == len(b.poison) and same(a.fwd, b.fwd))


class Exit:
    def __init__(self, kind, state, value=None, node=None, exc=None):
        self.kind, self.state, self.value, self.node = kind, state, value, node
        self.exc = exc            # names of the class of the exception and its bases


class Out:
    """result of a block: the state in which it ends normally (or None) and the other exits"""
    def __init__(self, state, exits=()):
        self.state, self.exits = state, list(exits)


class PyFn:
    def __init__(self, node, frame, mod, bound=None):
        self.node, self.frame, self.mod = node, frame, mod
        self.bound = bound        # the object of a method


class Builtin:
    def __init__(self, name, self_=None):
        self.name, self.self_ = name, self_


class Handler:
    """a callable given by its contract"""
    def __init__(self, fn, method=False):
        self.fn, self.method = fn, method


class StarV:
    """the items of a list as arguments"""
    def __init__(self, v):
        self.v = v


class ExcV:
    """the exception in a handler"""
    def __init__(self, exit_):
        self.exit = exit_
        self.text = fresh_var(Str, 'exception')


class Never(Exception):
    """a call that does not return"""
    def __init__(self, exits):
        self.exits = exits


class Family:
    """what a loop runs over: keys with dom(keys), value(keys) and an order"""
    def __init__(self, sorts, dom, value, before=None):
        self.sorts, self.dom, self.value, self.before = tuple(sorts), dom, value, before
        self.mixed = ()
        self.loc, self.snap = None, False      # the container iterated over; iterated over a copy of its list of items


def first(x, y, ks, rs):
    """an item of a part of a list is before an item of a later part"""
    out = True
    for g, k, f in reversed(x.mixed):
        if any(g == h for h, _, _ in y.mixed):
            if f is None or out is None:
                return None
            out = b_or(f(ks, rs), b_and(*[eqt(p, q) for p, q in zip(ks[:k], rs[:k])], out))
    return out


def precedes(segs, i, j, ks, rs):
    """item ks of part i is before item rs of part j (None: not known)"""
    if i == j:
        return False if not ks else segs[i].before and segs[i].before(ks, rs)
    if i < j:
        return first(segs[i], segs[j], ks, rs)
    c = first(segs[j], segs[i], rs, ks)
    return None if c is None else b_not(c)


def length(segs):
    n = z3.IntVal(0)
    for s in segs:
        ks = tuple(fresh_var(x, 'x') for x in s.sorts)
        n = n + mk_sums(ks, s.dom(ks), z3.IntVal(1))
    return n


def at_position(segs, p, leaf):
    """the number leaf(item) of the item at the position: the sum over the one item with that position"""
    out = z3.IntVal(0)
    for j, s in enumerate(segs):
        ks = tuple(fresh_var(x, 'x') for x in s.sorts)
        pos = z3.IntVal(0)
        for i, r in enumerate(segs):
            js = tuple(fresh_var(x, 'x') for x in r.sorts)
            c = precedes(segs, i, j, js, ks)
            if c is None:
                raise Unsupported('position in a list of unknown order')
            pos = pos + mk_sums(js, b_and(r.dom(js), c), z3.IntVal(1))
        x = leaf(s.elem(ks))
        out = out + mk_sums(ks, b_and(s.dom(ks), eqt(pos, p)), lift(x))
    return out


def unmixed(fams):
    """items that are interleaved cannot be visited one part after the other"""
    gs = [g for f in fams for g, _, _ in f.mixed]
    if len(gs) != len(set(gs)):
        raise Unsupported('interleaved items')


class Iter:
    def __init__(self, fams):
        self.fams = fams


class OnceIter(Iter):
    """an iterator: used up by its first use"""


def used_once(node, name):
    """is the variable of the function read at one place only, not again in a later round of a loop?"""
    uses, store = [], []

    def walk(n, loops):
        if isinstance(n, ast.Name) and n.id == name:
            (uses if isinstance(n.ctx, ast.Load) else store).append(loops)
        inner = loops
        if isinstance(n, (ast.For, ast.While, ast.comprehension, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp, ast.FunctionDef, ast.Lambda)) and n is not node:
            inner = loops + (n,)
        for f, c in ast.iter_fields(n):
            for x in c if isinstance(c, list) else [c]:
                if isinstance(x, ast.AST):
                    first = isinstance(n, (ast.For, ast.comprehension)) and f == 'iter'
                    first = first or isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)) and f == 'generators' and x is n.generators[0]
                    walk(x, loops if first else inner)
    walk(node, ())
    return len(uses) <= 1 and all(any(u == s for s in store) or not u for u in uses)


class GenCall:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Tok:
    """the value of a variable at the beginning of an arbitrary iteration"""
    def __init__(self, name):
        self.name = name


class Missing(Unsupported):
    pass


class Star:
    def __init__(self, excl=None):
        self.excl = excl


class Module:
    def __init__(self, name):
        self.name = name
        self.path = os.path.join(REPO, 'esp_idf_size', name + '.py')
        with open(self.path, encoding='utf-8') as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.funcs, self.consts, self.imports, self.classes = {}, {}, {}, {}
        for n in self.tree.body:
            self.top(n)

    def top(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.funcs[n.name] = n
        elif isinstance(n, ast.ClassDef):
            self.classes[n.name] = n
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            self.consts[n.targets[0].id] = n.value
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            self.consts[n.target.id] = n.value
        elif isinstance(n, ast.Import):
            for a in n.names:
                self.imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                self.imports[a.asname or a.name] = ('.' if n.level else '') + (n.module + '.' if n.module else '') + a.name
        elif isinstance(n, ast.If):
            for x in n.body + n.orelse:
                self.top(x)
        elif isinstance(n, ast.Try):
            for x in n.body:
                self.top(x)


class Obligation:
    def __init__(self, name, ok, detail='', by='z3'):
        self.name, self.ok, self.detail, self.by = name, ok, detail, by


LOGFNS = ('debug', 'warn', 'err', 'info', 'print', 'note', 'hint', 'warning', 'error')
MAXDEPTH = 25


class Engine:
    def __init__(self):
        self.mods, self.quiet, self.obligations, self.nfid, self.nrid = {}, 0, [], 0, 0
        self.inputs, self.memo, self.depth = set(), {}, 0
        self.functions = set()
        self.inlined = set()
        self.fnterms = []
        self.opaque = {}          # attribute of objects without structure -> (state, value)
        self.handlers = {}        # (class, attribute) -> Handler
        self.contracts = {}       # (module, function) -> handler(engine, state, args, kwargs) -> (state, value) or Out
        self.prune = False        # ask the solver whether a branch is possible
        self.nested = {}          # name of a local function -> handler(engine, state, function, args, kwargs) -> (state, value)
        self.externals = {}       # dotted name -> handler
        self.globals = {}         # values of names given by a contract
        self.on_print = None      # handler of log.print()
        self.on_log = None        # ghost effect of the logging functions
        self.while_rule = self.for_rule = None
        self.iterating = []
        self.order = True
        self.dry, self.wlog = 0, []
        self.raised = []
        self.nodeids = {}
        self.used = set()         # trusted models of library functions in use

    # -------------------------------------------------------------- modules
    def mod(self, name):
        if name not in self.mods:
            try:
                self.mods[name] = Module(name)
            except (OSError, SyntaxError) as e:
                raise Unsupported(f'module {name}: {e}')
        return self.mods[name]

    # -------------------------------------------------------------- obligations
    def oblige(self, st, goal, name):
        if self.quiet:
            return
        if goal is True:
            ok = True
        else:
            ok = valid(st.pc, goal, final=True)
        self.obligations.append(Obligation(name, ok, '' if ok else LAST.get('reason', '') + ': ' + str(goal)[:400]))

    def prove(self, hyps, goal, name):
        """a proof goal of a contract"""
        if isinstance(goal, Lost):
            self.obligations.append(Obligation(name, False, f'the value is not determined: {goal.why}'))
            return False
        ok = True if goal is True else valid(hyps, goal, final=True)
        self.obligations.append(Obligation(name, ok, '' if ok else LAST.get('reason', '') + ': ' + str(goal)[:600]))
        return ok

    # -------------------------------------------------------------- heap
    def alloc(self, st, v, input_=False):
        self.nrid += 1
        st.heap[self.nrid] = v
        if input_:
            self.inputs.add(self.nrid)
        return Ref(self.nrid)

    def resolve(self, st, r):
        while r.rid in st.fwd:
            t = st.fwd[r.rid]
            r = Ref(t.rid, t.path + r.path)
        return r

    def resolve_deep(self, st, v):
        if isinstance(v, Ref):
            return self.resolve(st, v)
        if isinstance(v, Tup):
            return Tup([self.resolve_deep(st, x) for x in v.items])
        if isinstance(v, Choice):
            xs = [self.resolve_deep(st, x) for _, x in v.alts]
            if all(value_eq(x, y) for (_, x), y in zip(v.alts, xs)):
                return v
            return choice([(g, y) for (g, _), y in zip(v.alts, xs)])
        return v

    def deref(self, st, r, whole=False):
        r = self.resolve(st, r)
        for p in st.poison:
            if (whole or len(p[1]) <= len(r.path)) and compat(p, (r.rid, r.path)):
                raise Unsupported(f'object shared between {p} and {r} was changed')
        return get(st.heap[r.rid], r.path)

    def read(self, st, r):
        """leaf at the reference, or the reference itself for containers"""
        v = self.deref(st, r)
        if is_leaf(v) or isinstance(v, (PyFn, Builtin)):
            return under(st.pc, v) if is_z3(v) else v
        if v is Undef:
            raise Unsupported(f'read of a missing entry {r}')
        if isinstance(v, Tup):
            return self.tupref(self.resolve(st, r), v)
        if isinstance(v, Choice):
            if all(is_leaf(x) for _, x in v.alts):
                return narrow(st.pc, v)
            r = self.resolve(st, r)
            return narrow(st.pc, Choice([(g, self.tupref(Ref(r.rid, r.path + (('a', i),)), x)) for i, (g, x) in enumerate(v.alts)]))
        if isinstance(v, Lost):
            return v
        return self.resolve(st, r)

    def tupref(self, r, v):
        """the value at r as a leaf, a reference, or a tuple of them"""
        if isinstance(v, Tup):
            return Tup([self.tupref(Ref(r.rid, r.path + (('t', i),)), x) for i, x in enumerate(v.items)])
        return v if is_leaf(v) else r

    def need_star_share(self, st, r, o):
        """the values of the dict at r are also the values of the dict o"""
        st.shares = st.shares + (((r.rid, r.path + (('k', Star()),)), (o.rid, o.path + (('k', Star()),))),)

    def map_from(self, st, fam, value):
        """a new dict with the keys of the family"""
        r = self.alloc(st, Empty())
        k = fresh_var(fam.sorts[0], 'x')
        s2 = st.copy()
        val = self.pure(st, s2, value(s2, (k,)), (r.rid, (('k', Star()),)), (k,))
        cl = closure((k,), val)
        st.heap[r.rid] = Map(fam.sorts[0], lambda q: fam.dom((lift(q),)), lambda q: cl((lift(q),)), fam.before and (lambda a, b: fam.before((a,), (b,))))
        return r

    def no_iteration(self, st, loc):
        for l, snap, i in self.iterating:
            if not snap and l[0] == loc[0] and len(l[1]) == len(loc[1]) and compat(l, loc):
                st.touched = st.touched | {i}

    def write(self, st, r, fn, overwrite=False, mutate=False):
        r = self.resolve(st, r)
        loc = (r.rid, r.path)
        if overwrite and r.path:
            self.orphan(st, r)
        self.wlog.append((r.rid, r.path, mutate))
        new_poison = []
        depth = len(loc[1]) if mutate else len(loc[1]) - 1
        for a, b in st.shares:
            if len(a[1]) <= depth and compat(a, loc):
                new_poison.append(b)
            if len(b[1]) <= depth and compat(b, loc):
                new_poison.append(a)
        st.heap[r.rid] = put(st.heap[r.rid], r.path, fn)
        # a write below a shared place makes the other view of that place stale
        st.poison = st.poison + new_locs(new_poison, st.poison)

    def orphan(self, st, r):
        """the container at r is about to be replaced: references into it keep the old one"""
        def under(x):
            if x.rid != r.rid or len(x.path) < len(r.path):
                return False
            return compat((x.rid, x.path[:len(r.path)]), (r.rid, r.path)) and ref_eq(Ref(x.rid, x.path[:len(r.path)]), r)
        users = False
        for f in st.frames.values():
            for n, v in f.items():
                for x in refs_in(v):
                    x = self.resolve(st, x)
                    if under(x):
                        users = True
        lusers = [l for pair in st.shares for l in pair if under(Ref(*l))] + [l for l in st.poison if under(Ref(*l))]
        # places of shares that include this one among others: it is no longer one of them
        n = len(r.path)
        loose = []
        shares = []
        for pair in st.shares:
            new = []
            for l in pair:
                if l[0] == r.rid and len(l[1]) >= n and not under(Ref(*l)) and compat((l[0], l[1][:n]), (r.rid, r.path)):
                    loose.append((l, pair[1] if l is pair[0] else pair[0]))
                    l = exclude(l, r)
                new.append(l)
            shares.append(tuple(new))
        st.shares = tuple(shares)
        if not users and not lusers:
            return
        try:
            old = get(st.heap[r.rid], r.path)
        except Unsupported:
            old = Undef
        if old is Undef or is_leaf(old):
            return
        o = self.alloc(st, old)

        def ren(x):
            x = self.resolve(st, x)
            if under(x):
                return Ref(o.rid, x.path[len(r.path):])
            return x
        for f in st.frames.values():
            for n in list(f):
                f[n] = map_refs(f[n], ren)

        def renl(l):
            x = ren(Ref(*l))
            return (x.rid, x.path)
        st.shares = tuple((renl(a), renl(b)) for a, b in st.shares) + tuple(((o.rid, l[1][n:]), renl(x)) for l, x in loose)
        st.poison = tuple(renl(a) for a in st.poison)

    def embed(self, st, v, dst):
        """the value to be stored at dst (rid, path); records sharing and moves fresh objects"""
        if isinstance(v, Ref):
            r = self.resolve(st, v)
            if not r.path and r.rid not in self.inputs and r.rid != dst[0]:
                val = st.heap[r.rid]
                st.fwd[r.rid] = Ref(*dst)

                def renl(l):
                    if l[0] == r.rid:
                        return (dst[0], dst[1] + l[1])
                    return l
                st.shares = tuple((renl(a), renl(b)) for a, b in st.shares)
                st.poison = tuple(renl(a) for a in st.poison)
                return val
            val = self.deref(st, r, whole=True)
            st.shares = st.shares + (((r.rid, r.path), dst),)
            return val
        if isinstance(v, Tup):
            return Tup([self.embed(st, x, (dst[0], dst[1] + (('t', i),))) for i, x in enumerate(v.items)])
        if isinstance(v, Choice):
            alts = [(g, self.embed(st, x, dst)) for g, x in v.alts]
            out = alts[-1][1]
            for g, x in reversed(alts[:-1]):
                out = ite(g, x, out)
            return out
        if isinstance(v, (Iter, GenCall)):
            raise Unsupported('iterator stored')
        return v

    def new(self, st, build_fn):
        """allocate an object whose parts are stored by build_fn(rid)"""
        r = self.alloc(st, Empty())
        st.heap[r.rid] = build_fn(r.rid)
        return r

    # -------------------------------------------------------------- merging
    def merge(self, base_pc, alts):
        """alts: [(guard, state, value)] disjoint; returns (state, value)"""
        alts = [(g, s, v) for g, s, v in alts if g is not False]
        if not alts:
            return None, None
        if len(alts) == 1:
            g, s, v = alts[0]
            s = s.copy()
            s.pc = base_pc + ((g,) if g is not True else ())
            return s, v
        for _, s, _ in alts:
            for f in s.frames.values():
                for n in list(f):
                    f[n] = self.resolve_deep(s, f[n])
        vals = [self.resolve_deep(s, v) for _, s, v in alts]
        g, s0, _ = alts[-1]
        out = s0.copy()
        val = vals[-1]
        for (g, s, _), v in zip(reversed(alts[:-1]), reversed(vals[:-1])):
            val = ite(g, v, val) if (v is not Undef or val is not Undef) else Undef
            for rid in set(s.heap) | set(out.heap):
                if rid in s.heap and rid in out.heap:
                    if s.heap[rid] is not out.heap[rid]:
                        out.heap[rid] = ite(g, s.heap[rid], out.heap[rid])
                elif rid in s.heap:
                    out.heap[rid] = s.heap[rid]
            for fid in set(s.frames) & set(out.frames):
                a, b = s.frames[fid], out.frames[fid]
                m = {}
                for n in list(a) + [x for x in b if x not in a]:
                    m[n] = ite_var(g, a.get(n, Undef), b.get(n, Undef))
                out.frames[fid] = m
            out.fwd = {k: v2 for k, v2 in out.fwd.items() if k in s.fwd and ref_eq(s.fwd[k], v2)}
            out.shares = out.shares + new_pairs(s.shares, out.shares)
            out.poison = out.poison + new_locs(s.poison, out.poison)
            out.touched = out.touched | s.touched
        out.pc = base_pc
        total = b_or(*[g for g, _, _ in alts])
        if total is not True and (self.dry or not covers([g for g, _, _ in alts])):
            out.pc = base_pc + (total,)
        return out, val

    def guard(self, base_pc, st):
        return b_and(*st.pc[len(base_pc):])

    # -------------------------------------------------------------- frames and names
    def lookup(self, st, fr, name):
        f = fr
        while f is not None:
            if name in st.frames.get(f.fid, {}):
                v = st.frames[f.fid][name]
                if isinstance(v, Tok):
                    raise Unsupported(f'variable {name} carried between iterations')
                if v is Undef:
                    raise Unsupported(f'variable {name} is not bound')
                if isinstance(v, Choice):
                    v = narrow(st.pc, v)
                    if isinstance(v, Choice) and any(x is Undef for _, x in v.alts):
                        self.oblige(st, b_or(*[g for g, x in v.alts if x is not Undef]), f'variable {name} is bound')
                        v = choice([(g, x) for g, x in v.alts if x is not Undef])
                    if v is Undef:
                        raise Missing(f'variable {name} is not bound')
                return v
            f = f.parent
        return self.global_name(st, fr.mod, name)

    def global_name(self, st, mod, name):
        if name in self.globals:
            return self.globals[name]
        if name in mod.funcs:
            return PyFn(mod.funcs[name], None, mod)
        if name in mod.consts:
            return self.const(mod, name)
        if name in mod.imports:
            t = mod.imports[name]
            if t.startswith('.'):
                parts = t[1:].split('.')
                if len(parts) == 1:
                    return Builtin('.' + parts[0])
                m = self.mod(parts[0])
                if parts[1] in m.funcs:
                    return PyFn(m.funcs[parts[1]], None, m)
                if parts[1] in m.consts:
                    return self.const(m, parts[1])
                return Builtin('.' + '.'.join(parts))
            return Builtin(t)
        if name in mod.classes:
            return Builtin('.' + mod.name + '.' + name)
        if not hasattr(builtins, name):
            raise Unsupported(f'name {name} is not defined')
        return Builtin(name)

    def const(self, mod, name):
        try:
            v = ast.literal_eval(mod.consts[name])
        except ValueError:
            v = self.const_expr(mod, mod.consts[name])
        return self.pyconst(v)

    def const_expr(self, mod, e):
        if isinstance(e, ast.Dict) and None not in e.keys:
            return {self.const_expr(mod, k): self.const_expr(mod, v) for k, v in zip(e.keys, e.values)}
        if isinstance(e, (ast.Tuple, ast.List)):
            return tuple(self.const_expr(mod, x) for x in e.elts)
        if isinstance(e, ast.Set):
            return tuple(self.const_expr(mod, x) for x in e.elts)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'frozenset' and len(e.args) == 1 and not e.keywords:
            return self.const_expr(mod, e.args[0])
        if isinstance(e, ast.Name) and e.id in mod.funcs:
            return PyFn(mod.funcs[e.id], None, mod)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and mod.imports.get(e.value.id) == '.' + e.value.id:
            m = self.mod(e.value.id)
            if e.attr in m.funcs:
                return PyFn(m.funcs[e.attr], None, m)
            if e.attr in m.consts:
                return self.const_expr(m, m.consts[e.attr])
        if isinstance(e, ast.Name) and mod.imports.get(e.id) == '.' + e.id:
            return Builtin('.' + e.id)
        if isinstance(e, ast.Name) and e.id not in mod.consts and mod.imports.get(e.id, '').startswith('.'):
            parts = mod.imports[e.id][1:].split('.')
            if len(parts) == 2:
                m = self.mod(parts[0])
                if parts[1] in m.consts:
                    return self.const_expr(m, m.consts[parts[1]])
        if isinstance(e, ast.BinOp):
            a, b = self.const_expr(mod, e.left), self.const_expr(mod, e.right)
            ops = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.BitOr: lambda: a | b, ast.LShift: lambda: a << b}
            if type(e.op) in ops:
                return ops[type(e.op)]()
        if isinstance(e, ast.Name) and e.id in mod.consts:
            return self.const_expr(mod, mod.consts[e.id])
        try:
            return ast.literal_eval(e)
        except ValueError:
            raise Unsupported(f'constant {ast.unparse(e)[:60]}')

    def pyconst(self, v):
        if isinstance(v, (tuple, list)):
            return Tup([self.pyconst(x) for x in v])
        if isinstance(v, (int, str, bool, PyFn, Builtin)) or v is None:
            return v
        if isinstance(v, dict):
            return ConstDict({k: self.pyconst(x) for k, x in v.items()})
        raise Unsupported(f'constant {v!r}')

    # -------------------------------------------------------------- calls
    def call(self, st, fn, args, kwargs=None, yield_=None):
        """inline a Python function; returns Out with exits only of kind 'raise' and state/value in the normal outcome"""
        kwargs = kwargs or {}
        self.depth += 1
        if self.depth > MAXDEPTH:
            self.depth -= 1
            raise Unsupported('calls nested too deeply')
        try:
            self.nfid += 1
            node = fn.node
            fr = Frame(self.nfid, fn.frame, fn.mod, node)
            fr.yield_ = yield_
            st = st.copy()
            loc = {}
            a = node.args
            params = [x.arg for x in a.posonlyargs + a.args]
            defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
            if len(args) > len(params) and not a.vararg:
                raise Unsupported(f'arguments of {getattr(node, "name", "lambda")}')
            for p, v in zip(params, args):
                loc[p] = v
            for x in a.kwonlyargs:
                params.append(x.arg)
            defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            for k, v in kwargs.items():
                if k not in params or k in loc:
                    raise Unsupported(f'argument {k}')
                loc[k] = v
            st.frames[fr.fid] = {}
            for p in params:
                if p not in loc:
                    if p not in defaults:
                        raise Unsupported(f'missing argument {p}')
                    st, loc[p] = self.ev(st, fr, defaults[p])
            for k, v in loc.items():
                if isinstance(v, (OnceIter, GenCall)) and not used_once(node, k):
                    raise Unsupported('iterator that is used several times')
            st.frames[fr.fid] = loc
            if not isinstance(node, ast.Lambda):
                self.inlined.add(f'{fn.mod.name}.{node.name}')
            if isinstance(node, ast.Lambda):
                s, v = self.ev(st, fr, node.body)
                s = s.copy()
                s.frames.pop(fr.fid, None)
                return Out(s), v
            base = st.pc
            out = self.block(st, fr, node.body)
            rets = [(x.state, x.value) for x in out.exits if x.kind == 'return']
            raises = [x for x in out.exits if x.kind == 'raise']
            if out.state is not None:
                rets.append((out.state, None))
            if not rets:
                return Out(None, raises), None
            s, v = self.merge(base, [(self.guard(base, s), s, v) for s, v in rets])
            v = self.resolve_deep(s, v)
            s.frames.pop(fr.fid, None)
            for x in raises:
                x.state.frames.pop(fr.fid, None)
            return Out(s, raises), v
        finally:
            self.depth -= 1

    # -------------------------------------------------------------- statements
    def block(self, st, fr, stmts):
        exits = []
        for n in stmts:
            o = self.stmt(st, fr, n)
            exits += o.exits
            if o.state is None:
                return Out(None, exits)
            st = o.state
        return Out(st, exits)

    def stmt(self, st, fr, n):
        fr.pending = []
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(n).__name__} at line {n.lineno} of {fr.mod.name}')
        saved, self.raised = getattr(self, 'raised', None), []
        try:
            o = m(st, fr, n)
            o.exits += self.raised
            return o
        except Never as e:
            return Out(None, e.exits + self.raised)
        finally:
            self.raised = saved

    def s_Pass(self, st, fr, n):
        return Out(st)

    def s_Global(self, st, fr, n):
        raise Unsupported('global')

    def s_Import(self, st, fr, n):
        return Out(st)

    s_ImportFrom = s_Import

    def s_Nonlocal(self, st, fr, n):
        fr.nonlocals.update(n.names)
        return Out(st)

    def s_Expr(self, st, fr, n):
        if isinstance(n.value, ast.Constant):
            return Out(st)
        if isinstance(n.value, ast.Yield):
            st, v = self.ev(st, fr, n.value.value)
            return fr.yield_(st, v)
        st, _ = self.ev(st, fr, n.value)
        return Out(st)

    def s_Return(self, st, fr, n):
        v = None
        if n.value is not None:
            st, v = self.ev(st, fr, n.value)
        return Out(None, [Exit('return', st, v, n)])

    def s_Raise(self, st, fr, n):
        if n.exc is None:
            if fr.exc is None:
                raise Unsupported('raise outside of a handler')
            return Out(None, [Exit('raise', st, fr.exc.value, n, fr.exc.exc)])
        if isinstance(n.exc, ast.Name):
            v = st.frames.get(fr.fid, {}).get(n.exc.id)
            if isinstance(v, ExcV):
                return Out(None, [Exit('raise', st, v.exit.value, n, v.exit.exc)])
        if isinstance(n.exc, ast.Call):
            for x in n.exc.args:
                if not isinstance(x, (ast.Name, ast.Constant, ast.JoinedStr)):
                    try:
                        st, _ = self.ev(st, fr, x)
                    except Unsupported:
                        pass
        return Out(None, [Exit('raise', st, ast.unparse(n.exc), n, self.exc_class(fr.mod, n.exc))])

    def exc_class(self, mod, e):
        """names of the class of an exception and of its bases, most derived first"""
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            t = mod.imports.get(e.value.id, '')
            if t.startswith('.') and t.count('.') == 1:
                return self.exc_class(self.mod(t[1:]), ast.Name(id=e.attr))
            return (e.attr, 'Exception', 'BaseException')
        if not isinstance(e, ast.Name):
            raise Unsupported(f'exception {ast.unparse(e)}')
        if e.id in mod.classes:
            out = [e.id]
            for b in mod.classes[e.id].bases:
                out += [x for x in self.exc_class(mod, b) if x not in out]
            return tuple(out)
        t = mod.imports.get(e.id, '')
        if t.startswith('.') and t.count('.') == 2:
            return self.exc_class(self.mod(t[1:].split('.')[0]), ast.Name(id=t.split('.')[2]))
        if t:
            return (e.id, 'Exception', 'BaseException')
        c = getattr(builtins, e.id, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return tuple(x.__name__ for x in c.__mro__ if issubclass(x, BaseException))
        raise Unsupported(f'exception {e.id}')

    def s_Break(self, st, fr, n):
        return Out(None, [Exit('break', st, None, n)])

    def s_Continue(self, st, fr, n):
        return Out(None, [Exit('continue', st, None, n)])

    def s_FunctionDef(self, st, fr, n):
        st = st.copy()
        st.frames[fr.fid][n.name] = PyFn(n, fr, fr.mod)
        return Out(st)

    def s_Assert(self, st, fr, n):
        st, c = self.cond(st, fr, n.test)
        return Out(st.assume(c), [Exit('raise', st.assume(b_not(c)), 'AssertionError', n, ('AssertionError', 'Exception', 'BaseException'))])

    def s_If(self, st, fr, n):
        st, c = self.cond(st, fr, n.test)
        if self.prune and is_z3(c):
            c = True if valid(st.pc, c) else False if valid(st.pc, b_not(c)) else c
        if c is True:
            return self.block(st, fr, n.body)
        if c is False:
            return self.block(st, fr, n.orelse)
        base = st.pc
        o1 = self.block(st.assume(c), fr, n.body)
        o2 = self.block(st.assume(b_not(c)), fr, n.orelse)
        return Out(self.merge(base, [(self.guard(base, o.state), o.state, None) for o in (o1, o2) if o.state is not None])[0],
                   o1.exits + o2.exits)

    def s_Assign(self, st, fr, n):
        st, v = self.ev(st, fr, n.value)
        for t in n.targets:
            st = self.assign(st, fr, t, v)
        return Out(st)

    def s_AnnAssign(self, st, fr, n):
        if n.value is None:
            return Out(st)
        st, v = self.ev(st, fr, n.value)
        return Out(self.assign(st, fr, n.target, v))

    def s_AugAssign(self, st, fr, n):
        t = n.target
        if isinstance(t, ast.Name):
            st, old = self.ev(st, fr, ast.Name(id=t.id, ctx=ast.Load()))
            st, v = self.ev(st, fr, n.value)
            if isinstance(old, Ref) and isinstance(self.deref(st, old), Seq):
                return Out(self.extend(st, old, v))
            if isinstance(old, Choice) and isinstance(n.op, ast.Add) and all(isinstance(x, Ref) and isinstance(self.deref(st, x), Seq) for _, x in old.alts):
                return Out(self.alts(st, old, lambda s, x: (self.extend(s, x, v), None))[0])
            return Out(self.assign(st, fr, t, self.binop(st, fr, n.op, old, v, n)))
        if isinstance(t, ast.Subscript):
            st, o = self.ev(st, fr, t.value)
            st, i = self.ev(st, fr, t.slice)
            st, old = self.index(st, fr, o, i, t)
            st, v = self.ev(st, fr, n.value)
            if isinstance(old, Ref) and isinstance(self.deref(st, old), Seq):
                return Out(self.extend(st, old, v))
            v = self.binop(st, fr, n.op, old, v, n)
            return Out(self.store(st, o, i, v))
        if isinstance(t, ast.Attribute):
            st, o = self.ev(st, fr, t.value)
            st, old = self.attr(st, fr, o, t.attr, t)
            st, v = self.ev(st, fr, n.value)
            v = self.binop(st, fr, n.op, old, v, n)
            return Out(self.store(st, o, t.attr, v))
        raise Unsupported('augmented assignment')

    def assign(self, st, fr, t, v):
        if isinstance(t, ast.Name):
            st = st.copy()
            f = fr
            if t.id in fr.nonlocals:
                f = fr.parent
                while t.id not in st.frames[f.fid]:
                    f = f.parent
            if isinstance(v, (OnceIter, GenCall)) and (f is not fr or not used_once(fr.node, t.id)):
                raise Unsupported('iterator that is used several times')
            st.frames[f.fid][t.id] = v
            return st
        if isinstance(t, (ast.Tuple, ast.List)):
            if t.elts and isinstance(t.elts[-1], ast.Starred) and not any(isinstance(e, ast.Starred) for e in t.elts[:-1]) and isinstance(v, Ref):
                # a, *b = v is a = v[0]; b = v[1:]
                k, tmp = len(t.elts) - 1, '* of an assignment'
                for i, e in enumerate(t.elts):
                    st = st.copy()
                    st.frames[fr.fid] = {**st.frames[fr.fid], tmp: v}
                    src = ast.Constant(i) if i < k else ast.Slice(ast.Constant(k), None, None)
                    n = ast.fix_missing_locations(ast.copy_location(ast.Subscript(ast.Name(tmp, ast.Load()), src, ast.Load()), t))
                    st, x = self.ev(st, fr, n)
                    st = self.assign(st, fr, e if i < k else e.value, x)
                return st
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred target')
            if isinstance(v, Ref):
                x = self.deref(st, v)
                if isinstance(x, Seq) and all(not s.sorts for s in x.segs) and all(s.dom(()) is True for s in x.segs):
                    v = Tup([self.read(st, Ref(v.rid, v.path + (('s', i, ()),))) for i in range(len(x.segs))])
            if not isinstance(v, Tup) or len(v.items) != len(t.elts):
                raise Unsupported('unpacking')
            for x, y in zip(t.elts, v.items):
                st = self.assign(st, fr, x, y)
            return st
        if isinstance(t, ast.Subscript):
            st, o = self.ev(st, fr, t.value)
            st, i = self.ev(st, fr, t.slice)
            return self.store(st, o, i, v)
        if isinstance(t, ast.Attribute):
            st, o = self.ev(st, fr, t.value)
            return self.store(st, o, t.attr, v)
        raise Unsupported('assignment target')

    def store(self, st, o, i, v):
        st = st.copy()
        if isinstance(o, Choice):
            none = [g for g, x in o.alts if x is None]
            if none:
                self.oblige(st, b_not(b_or(*none)), f'store into None (key {i})')
                o = Choice([(g, x) for g, x in o.alts if x is not None])
                if len(o.alts) == 1:
                    return self.store(st, o.alts[0][1], i, v)
            if not all(isinstance(x, Ref) for _, x in o.alts):
                raise Unsupported('store into alternatives')
            if isinstance(v, Ref):
                raise Unsupported('object stored into alternatives')
            for g, r in o.alts:
                s2 = self.store(st, r, i, v)
                st, _ = self.merge(st.pc, [(g, s2, None), (b_not(g), st, None)])
            return st
        if not isinstance(o, Ref):
            raise Unsupported('store')
        r = self.resolve(st, o)
        c = self.deref(st, r)
        if isinstance(v, PyFn) and v.bound is not None:
            v = self.fnterm(v)
        if isinstance(i, str) and isinstance(c, (Rec, Empty)):
            step = ('f', i)
        elif isinstance(c, (Map, Empty)) and (isinstance(i, (str, int)) or is_z3(i)) and not isinstance(i, bool):
            step = ('k', lift(i))
        elif isinstance(c, Rec) and is_z3(i) and unlit(i) is not None:
            step = ('f', unlit(i))
        else:
            raise Unsupported(f'store with key of type {type(i).__name__} into {type(c).__name__}')
        dst = Ref(r.rid, r.path + (step,))
        for l, snap, _ in self.iterating:
            if l[0] != dst.rid or not compat(l, (dst.rid, dst.path)):
                continue
            if len(dst.path) <= len(l[1]):
                raise Unsupported('container replaced while it is iterated over')
            if len(dst.path) == len(l[1]) + 1 and not snap:
                if isinstance(c, Map) and not is_leaf(c.elem(step[1])):
                    self.oblige(st, c.dom(step[1]), f'no key is added to a dict while it is iterated over ({step[1]})')
                else:
                    raise Unsupported('container changed while it is iterated over')
        val0 = Undef
        if isinstance(v, (Ref, Tup, Choice)):
            if isinstance(v, Ref) and ref_eq(self.resolve(st, v), dst):
                return st
            self.orphan(st, dst)
            v = self.resolve_deep(st, v)
            val0 = self.embed(st, v, (dst.rid, dst.path))
        else:
            val0 = v
            old = Undef
            try:
                old = get(st.heap[dst.rid], dst.path)
            except Unsupported:
                pass
            if not is_leaf(old):
                self.orphan(st, dst)
        if isinstance(val0, (Iter, GenCall, Tok)):
            raise Unsupported('iterator stored')
        self.write(st, dst, lambda _: val0)
        return st

    def extend(self, st, r, v):
        """list += / extend"""
        st = st.copy()
        fams = self.families(st, v)
        r = self.resolve(st, r)
        self.no_iteration(st, (r.rid, r.path))
        segs = []
        for f in fams:
            ks = tuple(fresh_var(s, 'x') for s in f.sorts)
            e = self.embed_pure(st, f.value(ks), r, ks)
            segs.append(Seg(f.sorts, f.dom, closure(ks, e), f.before, f.mixed))
        self.write(st, r, lambda old: Seq(seqof(old).segs + tuple(segs)), mutate=True)
        return st

    def embed_pure(self, st, v, r, ks):
        """value of an element for use in a closure over ks; sharing is recorded for all keys"""
        s2 = st.copy()
        val = self.embed(s2, v, (r.rid, r.path + (('s', 0, tuple(Star() for _ in ks)),)))
        st.shares = st.shares + tuple(gen_share(sh, ks, None) for sh in new_pairs(s2.shares, st.shares))
        return val

    def s_Delete(self, st, fr, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st = st.copy()
                st.frames[fr.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                st, o = self.ev(st, fr, t.value)
                st, i = self.ev(st, fr, t.slice)
                st = self.remove(st, fr, o, i, t)
            else:
                raise Unsupported('del')
        return Out(st)

    def remove(self, st, fr, o, i, n):
        st = st.copy()
        if not isinstance(o, Ref):
            raise Unsupported('del')
        v = self.deref(st, o)
        ro = self.resolve(st, o)
        self.no_iteration(st, (ro.rid, ro.path))
        if isinstance(v, Map):
            self.oblige(st, v.dom(lift(i)), self.name(fr, n, 'key to delete exists'))
            key = lift(i)
            self.write(st, o, lambda old: Map(old.ksort, lambda q: b_and(b_not(eqt(q, key)), old.dom(q)), old.elem, old.before), mutate=True)
            return st
        if isinstance(v, Rec) and isinstance(i, str):
            self.write(st, o, lambda old: Rec({k: x for k, x in old.fields.items() if k != i}, old.cls), mutate=True)
            return st
        raise Unsupported('del')

    def name(self, fr, n, what):
        return f'{fr.mod.name}.{getattr(fr.node, "name", "lambda")}: {what} ({ast.unparse(n)[:60] if n is not None else ""})'

    def s_With(self, st, fr, n):
        """context managers given by their contract: leaving them has no effect"""
        for it in n.items:
            st, v = self.ev(st, fr, it.context_expr)
            if not (is_z3(v) and v.sort() == Obj):
                raise Unsupported('with')
            self.used.add('closing a file has no effect on the data and does not raise')
            if it.optional_vars is not None:
                st = self.assign(st, fr, it.optional_vars, v)
        return self.block(st, fr, n.body)

    def s_Try(self, st, fr, n):
        base = st.pc
        o = self.block(st, fr, n.body)
        exits, ends = [], []
        if o.state is not None and n.orelse:
            o2 = self.block(o.state, fr, n.orelse)
            ends += [o2.state] if o2.state is not None else []
            late = o2.exits
        else:
            ends += [o.state] if o.state is not None else []
            late = []
        for x in o.exits:
            h = self.handler(fr, n, x) if x.kind == 'raise' else None
            if h is None:
                exits.append(x)
                continue
            s = x.state.copy()
            saved, fr.exc = fr.exc, x
            if h.name:
                s.frames[fr.fid][h.name] = ExcV(x)
            r = self.block(s, fr, h.body)
            fr.exc = saved
            for y in ([r.state] if r.state is not None else []) + [y.state for y in r.exits]:
                if h.name:
                    y.frames.get(fr.fid, {}).pop(h.name, None)
            exits += r.exits
            ends += [r.state] if r.state is not None else []
        exits += late
        if n.finalbody:
            done = []
            for x in exits:
                r = self.block(x.state, fr, n.finalbody)
                done += r.exits
                if r.state is not None:
                    done.append(Exit(x.kind, r.state, x.value, x.node, x.exc))
            exits = done
            after = []
            for s in ends:
                r = self.block(s, fr, n.finalbody)
                exits += r.exits
                after += [r.state] if r.state is not None else []
            ends = after
        if not ends:
            return Out(None, exits)
        gs = [self.guard(base, s) for s in ends]
        for i, g in enumerate(gs):
            for h in gs[i + 1:]:
                if not valid(base, b_not(b_and(g, h))):
                    raise Unsupported('paths of a try statement that are not exclusive')
        return Out(self.merge(base, [(g, s, None) for g, s in zip(gs, ends)])[0], exits)

    def handler(self, fr, n, x):
        if x.exc is None:
            raise Unsupported('exception of an unknown class')
        for h in n.handlers:
            if h.type is None:
                return h
            for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                if self.exc_class(fr.mod, t)[0] in x.exc:
                    return h
        return None

    def s_While(self, st, fr, n):
        if self.while_rule is not None:
            r = self.while_rule(self, st, fr, n)
            if r is not None:
                return r
        raise Unsupported(f'while loop at line {n.lineno}')

    def s_For(self, st, fr, n):
        st, it = self.ev(st, fr, n.iter)
        if self.for_rule is not None:
            r = self.for_rule(self, st, fr, n, it)
            if r is not None:
                return r
        orelse = (lambda s: self.block(s, fr, n.orelse)) if n.orelse else None
        if isinstance(it, GenCall):
            if orelse:
                raise Unsupported('for/else over a generator')

            def y(s, v):
                s = self.assign(s, fr, n.target, v)
                o = self.block(s, fr, n.body)
                return self.absorb_continue(s.pc, o)
            out, _ = self.call(st, it.fn, it.args, it.kwargs, yield_=y)
            if any(x.kind != 'raise' for x in out.exits):
                raise Unsupported('break or return in a loop over a generator')
            return out
        fams = self.families(st, it)

        def body(s, v):
            s = self.assign(s, fr, n.target, v)
            o = self.block(s, fr, n.body)
            return o
        return self.loop_all(st, fams, body, orelse, n, fr)

    def absorb_continue(self, base, o):
        alts = [(self.guard(base, x.state), x.state, None) for x in o.exits if x.kind == 'continue']
        if alts:
            if o.state is not None:
                alts.append((self.guard(base, o.state), o.state, None))
            s, _ = self.merge(base, alts)
            return Out(s, [x for x in o.exits if x.kind != 'continue'])
        return o

    def families(self, st, it):
        """what a for loop over the value runs over"""
        if isinstance(it, Iter):
            return it.fams
        if isinstance(it, Tup):
            return [Family((), lambda ks: True, lambda ks, x=x: x) for x in it.items]
        if isinstance(it, Choice):
            out = []
            for g, x in it.alts:
                if x is None:
                    continue
                for f in self.families(st, x):
                    out.append(Family(f.sorts, lambda ks, f=f, g=g: b_and(g, f.dom(ks)), f.value, f.before))
                    out[-1].loc, out[-1].snap, out[-1].mixed = f.loc, f.snap, f.mixed
            return out
        if isinstance(it, Ref):
            r = self.resolve(st, it)
            v = self.deref(st, r)
            if isinstance(v, Map):
                fam = Family((v.ksort,), lambda ks: v.dom(ks[0]), lambda ks: ks[0], v.before and (lambda a, b: v.before(a[0], b[0])))
                fam.loc = (r.rid, r.path)
                return [fam]
            if isinstance(v, Empty):
                return []
            if isinstance(v, Rec):
                return [Family((), lambda ks, c=c: c, lambda ks, n=n: n) for n, (c, _) in v.fields.items()]
            if isinstance(v, SetV):
                return [Family((v.sort,), lambda ks: v.has(ks[0]), lambda ks: ks[0])]
            if isinstance(v, Seq):
                out = []
                for i, s in enumerate(v.segs):
                    def value(ks, i=i, s=s):
                        return self.tupref(Ref(r.rid, r.path + (('s', i, tuple(ks)),)), s.elem(ks))
                    out.append(Family(s.sorts, s.dom, value, s.before))
                    out[-1].loc, out[-1].mixed = (r.rid, r.path), s.mixed
                return out
        if isinstance(it, ConstDict):
            return [Family((), lambda ks: True, lambda ks, k=k: k) for k in it.d]
        raise Unsupported(f'iteration over {type(it).__name__}')

    # -------------------------------------------------------------- loops
    def loop_all(self, st, fams, body, orelse, node, fr):
        exits = []
        base = st.pc
        brk = []
        unmixed(fams)
        for f in fams:
            if st is None:
                break
            o = self.loop(st, f, body, node, fr)
            exits += [x for x in o.exits if x.kind != 'break']
            brk += [x for x in o.exits if x.kind == 'break']
            st = o.state
        if st is not None and orelse:
            o = orelse(st)
            exits += o.exits
            st = o.state
        if brk:
            alts = [(self.guard(base, x.state), x.state, None) for x in brk]
            if st is not None:
                alts.append((self.guard(base, st), st, None))
            st, _ = self.merge(base, alts)
        return Out(st, exits)

    def loop(self, st, fam, body, node, fr):
        from loops import run_loop
        if fam.loc is not None:
            i = next(_touch)
            self.iterating.append((fam.loc, fam.snap, i))
            inner = body

            def body(s, v):
                o = inner(s, v)
                for x in ([o.state] if o.state is not None else []) + [x.state for x in o.exits if x.kind == 'continue']:
                    if i in x.touched:
                        raise Unsupported('container changed while it is iterated over')
                return o
        try:
            return run_loop(self, st, fam, body, node, fr)
        finally:
            if fam.loc is not None:
                self.iterating.pop()

    def loop_id(self, node):
        i = self.nodeids.setdefault(id(node), (len(self.nodeids), node))
        return i[0]

    def strless(self, x, y):
        return self.ufun('strless', [x, y], z3.BoolSort())

    # -------------------------------------------------------------- expressions
    def cond(self, st, fr, n):
        """truth of an expression"""
        if isinstance(n, ast.BoolOp):
            return self.boolop(st, fr, n, n.values, self.cond, lambda s, c: c)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            st, c = self.cond(st, fr, n.operand)
            return st, b_not(c)
        st, v = self.ev(st, fr, n)
        return st, self.truth(st, v)

    def truth(self, st, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, str)):
            return bool(v)
        if is_z3(v):
            if v.sort() == z3.BoolSort():
                return v
            if v.sort() == z3.IntSort():
                return b_not(eqt(v, 0))
            if v.sort() == Str:
                return b_not(eqt(v, ''))
            raise Unsupported('truth value')
        if isinstance(v, Choice):
            return b_or(*[b_and(g, self.truth(st, x)) for g, x in v.alts])
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, Ref):
            x = self.deref(st, v)
            if isinstance(x, Empty):
                return False
            if isinstance(x, Rec):
                if x.cls:
                    return True
                return b_or(*[c for c, _ in x.fields.values()])
            if isinstance(x, Map):
                k = fresh_var(x.ksort, 'e')
                return mk_exists(k, x.dom(k))
            if isinstance(x, Seq):
                return b_or(*[exists_keys(s.sorts, s.dom) for s in x.segs])
            if isinstance(x, SetV):
                k = fresh_var(x.sort, 'e')
                return mk_exists(k, x.has(k))
        if isinstance(v, (PyFn, Builtin)):
            return True
        raise Unsupported(f'truth value of {type(v).__name__}')

    def ev(self, st, fr, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(n).__name__} at line {getattr(n, "lineno", "?")} of {fr.mod.name}')
        return m(st, fr, n)

    def evs(self, st, fr, ns):
        out = []
        for n in ns:
            if isinstance(n, ast.Starred):
                st, v = self.ev(st, fr, n.value)
                x = self.deref(st, v) if isinstance(v, Ref) else v
                if isinstance(x, Tup):
                    out += x.items
                elif isinstance(x, Seq) and all(not s.sorts and s.dom(()) is True for s in x.segs):
                    r = self.resolve(st, v)
                    out += [self.read(st, Ref(r.rid, r.path + (('s', i, ()),))) for i in range(len(x.segs))]
                else:
                    out.append(StarV(v))
                continue
            st, v = self.ev(st, fr, n)
            out.append(v)
        return st, out

    def e_Constant(self, st, fr, n):
        if isinstance(n.value, (int, str, bool)) or n.value is None:
            return st, n.value
        if isinstance(n.value, bytes):
            return st, ConstBytes(n.value)
        raise Unsupported(f'constant {n.value!r}')

    def e_Name(self, st, fr, n):
        v = self.lookup(st, fr, n.id)
        if isinstance(v, Lost):
            raise Unsupported(f'variable {n.id}: {v.why}')
        return st, v

    def e_Tuple(self, st, fr, n):
        st, vs = self.evs(st, fr, n.elts)
        return st, Tup(vs)

    def e_List(self, st, fr, n):
        st, vs = self.evs(st, fr, n.elts)
        st = st.copy()
        r = self.alloc(st, Seq())
        segs = []
        for i, v in enumerate(vs):
            x = self.embed(st, v, (r.rid, (('s', i, ()),)))
            segs.append(Seg((), lambda ks: True, lambda ks, x=x: x, lambda a, b: False))
        st.heap[r.rid] = Seq(segs)
        return st, r

    def e_Set(self, st, fr, n):
        st, vs = self.evs(st, fr, n.elts)
        st = st.copy()
        return st, self.alloc(st, SetV(sort_of(vs[0]), lambda k: b_or(*[eqt(k, v) for v in vs])))

    def e_Dict(self, st, fr, n):
        if not n.keys:
            st = st.copy()
            return st, self.alloc(st, Empty())
        ks, vs = [], []
        for k, v in zip(n.keys, n.values):
            if k is None:
                st, x = self.ev(st, fr, v)
                ks.append(None)
                vs.append(x)
                continue
            st, kk = self.ev(st, fr, k)
            st, vv = self.ev(st, fr, v)
            ks.append(kk)
            vs.append(vv)
        st = st.copy()
        r = self.alloc(st, Empty())
        for k, v in zip(ks, vs):
            if k is None:
                if not isinstance(v, Ref):
                    raise Unsupported('** of something that is no dict')
                src = self.resolve(st, v)
                x = self.deref(st, src)
                if not isinstance(x, (Rec, Empty)) or (isinstance(x, Rec) and any(c is not True for c, _ in x.fields.values())):
                    raise Unsupported('** of a dict with unknown keys')
                for nme in (x.fields if isinstance(x, Rec) else {}):
                    st = self.store(st, r, nme, self.read(st, Ref(src.rid, src.path + (('f', nme),))))
                continue
            st = self.store(st, r, k, v)
        return st, r

    def e_JoinedStr(self, st, fr, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                st, x = self.ev(st, fr, v.value)
                if isinstance(x, ExcV):
                    x = x.text
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    x = self.ufun('format/' + ast.unparse(v.format_spec) if v.format_spec else 'conv', [x], Str)
                parts.append(x)
        return st, self.concat(parts)

    def concat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, CatV):
                out += list(p.parts)
                continue
            if is_z3(p) and p.get_id() in CATS:
                out += list(CATS[p.get_id()][1])
                continue
            if isinstance(p, Tup) or p is None or isinstance(p, (Ref, Choice)):
                raise Unsupported('text of a container')
            if isinstance(p, bool):
                p = str(p)
            if isinstance(p, int):
                p = str(p)
            if is_z3(p) and unlit(p) is not None:
                p = unlit(p)
            if is_z3(p) and p.sort() != Str:
                p = self.ufun('str', [p], Str)
            out.append(p)
        res = []
        for p in out:
            if isinstance(p, str) and res and isinstance(res[-1], str):
                res[-1] += p
            elif not isinstance(p, str) or p != '':
                res.append(p)
        if not res:
            return ''
        for i, p in enumerate(res):
            alts = lit_alts(p) if is_z3(p) and z3.is_app_of(p, z3.Z3_OP_ITE) and len(res) > 1 else None
            if alts and len(alts) <= 16:
                t = None
                for g, x in reversed(alts):
                    y = lift(self.concat(res[:i] + [x] + res[i + 1:]))
                    t = y if t is None else b_ite(g, y, t)
                return t
        if len(res) == 1:
            return res[0]
        tmpl = '~'.join(repr(p) if isinstance(p, str) else '%' for p in res)
        args = [p for p in res if not isinstance(p, str)]
        t = self.ufun('cat/' + tmpl, args, Str)
        CATS[t.get_id()] = (t, tuple(res))
        return t

    def literal_cases(self, t, lits):
        """the term, known to be one of the literals"""
        out = lift(lits[-1])
        for x in reversed(lits[:-1]):
            out = b_ite(eqt(t, x), lift(x), out)
        return out

    def ufun(self, name, args, sort):
        args = [lift(a) for a in args]
        for a in args:
            if not is_z3(a):
                raise Unsupported(f'{name} of {type(a).__name__}')
        f = z3.Function(name, *[a.sort() for a in args], sort)
        return f(*args)

    def e_Attribute(self, st, fr, n):
        st, o = self.ev(st, fr, n.value)
        return self.attr(st, fr, o, n.attr, n)

    def attr(self, st, fr, o, name, n):
        if isinstance(o, Builtin):
            if o.name.startswith('.') and o.name.count('.') == 1:
                mname = o.name[1:]
                if mname == 'log':
                    return st, Builtin('.log.' + name)
                m = self.mod(mname)
                return st, self.global_name(st, m, name)
            return st, Builtin(o.name + '.' + name)
        if isinstance(o, Ref):
            v = self.deref(st, o)
            if isinstance(v, Rec) and (v.cls, name) in self.handlers:
                h = self.handlers[(v.cls, name)]
                return st, Handler(lambda e, s, args, kw: h.fn(e, s, [o] + list(args), kw)) if h.method else h
            if isinstance(v, Rec) and v.cls and name in v.fields:
                self.oblige(st, v.fields[name][0], self.name(fr, n, 'attribute exists'))
                r = self.resolve(st, o)
                return st, self.read(st, Ref(r.rid, r.path + (('f', name),)))
            if isinstance(v, Rec) and v.cls:
                node, mod, isprop = self.member(v.cls, name)
                if node is not None:
                    if isprop:
                        return self.apply(st, fr, PyFn(node, None, mod, o), [], {}, n)
                    return st, PyFn(node, None, mod, None if node.decorator_list else o)
            return st, Builtin('method.' + name, o)
        if is_z3(o) and o.sort() == Obj and name in self.opaque:
            return self.opaque[name](self, st, o)
        if is_z3(o) and o.sort() == Obj and name in ('name', 'parent', 'suffix', 'stem'):
            from library import PATH
            self.used.add(f'pathlib.Path.{name}: some function of the path')
            return st, self.ufun('Path.' + name, [o], PATH[name])
        if isinstance(o, Choice):
            probe = [self.attr(st, fr, x, name, n)[1] for _, x in o.alts if isinstance(x, Ref) and self.handled(st, x, name)]
            if probe:
                def each(e, s, args, kw):
                    def one(s2, x):
                        s2, f = e.attr(s2, fr, x, name, n)
                        return e.apply(s2, fr, f, args, kw, n)
                    return e.alts(s, o, one, drop_none=e.name(fr, n, 'not None'))
                return st, Handler(each)
            if all(x is not None for _, x in o.alts):
                return self.alts(st, o, lambda s, x: self.attr(s, fr, x, name, n))
            return self.alts(st, o, lambda s, x: self.attr(s, fr, x, name, n), drop_none=self.name(fr, n, 'not None'))
        return st, Builtin('method.' + name, o)

    def handled(self, st, r, name):
        v = self.deref(st, r)
        return isinstance(v, Rec) and (v.cls, name) in self.handlers

    def member(self, cls, name):
        """definition of a method or property of a class of the code"""
        for m in ('elf', 'mapfile', 'memorymap', 'main'):
            mod = self.mod(m)
            if cls not in mod.classes:
                continue
            for x in mod.classes[cls].body:
                if isinstance(x, ast.FunctionDef) and x.name == name:
                    decs = [ast.unparse(d) for d in x.decorator_list]
                    if decs not in ([], ['property'], ['staticmethod']):
                        raise Unsupported(f'decorated method {cls}.{name}')
                    return x, mod, decs == ['property']
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets):
                    raise Unsupported(f'class attribute {cls}.{name}')
            return None, None, None
        return None, None, None

    def alts(self, st, c, f, drop_none=None):
        """apply f to every alternative; merge states and results"""
        base = st.pc
        outs = []
        missing, never = None, False
        for g, x in c.alts:
            if x is None and drop_none:
                self.oblige(st, b_not(g), drop_none)
                continue
            try:
                s, v = f(st.assume(g), x)
            except Missing as e:
                # the obligation that this alternative does not occur is on record
                missing = e
                continue
            except Never as e:
                self.raised += e.exits
                never = b_or(never, g)
                continue
            outs.append((g, s, v))
        if not outs and missing is not None:
            raise missing
        if not outs:
            raise Never([])
        s, v = self.merge(base, outs)
        s = s.copy()
        s.pc = self.facts(base, [(g, s) for g, s, _ in outs])
        if never is not False:
            s.pc = s.pc + (b_not(never),)
        if any(isinstance(o[2], Builtin) for o in outs) and not (all(isinstance(o[2], Builtin) for o in outs) and len({o[2].name for o in outs}) == 1):
            return s, choice([(g, o) for g, _, o in outs])
        if isinstance(v, Builtin) or any(isinstance(o[2], Builtin) for o in outs):
            return s, Builtin(outs[0][2].name, Choice([(g, o.self_) for g, _, o in outs]))
        return s, v

    def e_Subscript(self, st, fr, n):
        st, o = self.ev(st, fr, n.value)
        if isinstance(n.slice, ast.Slice):
            return self.slice(st, fr, o, n)
        st, i = self.ev(st, fr, n.slice)
        return self.index(st, fr, o, i, n)

    def slice(self, st, fr, o, n):
        sl = n.slice
        if is_z3(o) and o.sort().name() == 'Bytes':
            import bytesem
            return bytesem.slice_(self, st, fr, o, n)
        if isinstance(o, Tup) and sl.step is None:
            st, a = self.ev(st, fr, sl.lower) if sl.lower else (st, None)
            st, b = self.ev(st, fr, sl.upper) if sl.upper else (st, None)
            if all(x is None or isinstance(x, int) for x in (a, b)):
                return st, Tup(o.items[a:b])
        h = self.externals.get('slice')
        if h:
            return h(self, st, fr, o, n)
        if isinstance(o, Ref) and sl.step is None and sl.upper is None and isinstance(sl.lower, ast.Constant) and isinstance(sl.lower.value, int):
            v, k = self.deref(st, o), sl.lower.value
            if isinstance(v, Seq) and 0 <= k <= len(v.segs) and all(not s.sorts and s.dom(()) is True for s in v.segs[:k]):
                from library import fams_of, seq_from
                st = st.copy()
                return st, seq_from(self, st, fams_of(self, st, o)[k:])
        raise Unsupported('slice')

    def index(self, st, fr, o, i, n):
        if isinstance(o, Choice):
            return self.alts(st, o, lambda s, x: self.index(s, fr, x, i, n), drop_none=self.name(fr, n, 'not None'))
        if isinstance(i, Choice):
            return self.alts(st, i, lambda s, x: self.index(s, fr, o, x, n), drop_none=self.name(fr, n, 'key is not None'))
        if isinstance(o, ConstDict):
            k = i if isinstance(i, (str, int)) else unlit(i) if is_z3(i) else None
            if k is None and is_z3(i):
                keys = [x for x in o.d if sort_of(x) == i.sort()]
                self.oblige(st, b_or(*[eqt(i, x) for x in keys]), self.name(fr, n, 'key is in the table'))
                out = o.d[keys[-1]]
                for x in reversed(keys[:-1]):
                    out = ite(eqt(i, x), o.d[x], out)
                return st, out
            if k is None or k not in o.d:
                raise Unsupported('lookup in a constant table')
            return st, o.d[k]
        if isinstance(o, Tup):
            if isinstance(i, int):
                return st, o.items[i]
            raise Unsupported('tuple index')
        if is_z3(o) and o.sort() == Obj and isinstance(i, int):
            ok = (0, -1) if o.decl().name().startswith(('split/', 'rsplit/')) else (0, 1, -1, -2) if o.decl().name().startswith('os.path.split') else ()
            if i not in ok:
                raise Unsupported('index of an opaque object')
            return st, self.ufun(f'item/{i}', [o], Str)
        if is_z3(o) and o.sort().name() == 'Bytes':
            import bytesem
            return bytesem.index(self, st, fr, o, i, n)
        if not isinstance(o, Ref):
            raise Unsupported(f'index of {type(o).__name__}')
        r = self.resolve(st, o)
        v = self.deref(st, r)
        if isinstance(v, Empty):
            self.oblige(st, False, self.name(fr, n, 'key exists'))
            raise Missing('lookup in an empty dict')
        if isinstance(v, Rec):
            k = i if isinstance(i, str) else unlit(i) if is_z3(i) else None
            if k is None:
                alts = lit_alts(i) if is_z3(i) else None
                if alts is None and is_z3(i) and i.sort() == Str and all(isinstance(x, str) for x in v.fields):
                    alts = [(eqt(i, x), x) for x, (c, _) in v.fields.items() if c is not False]
                    self.oblige(st, b_or(*[g for g, _ in alts]), self.name(fr, n, 'key exists'))
                if not alts:
                    raise Unsupported('symbolic key in a record')
                return self.alts(st, Choice(alts), lambda s, x: self.index(s, fr, o, x, n))
            if k not in v.fields:
                self.oblige(st, False, self.name(fr, n, 'key exists'))
                raise Missing(f'no key {k!r}')
            self.oblige(st, v.fields[k][0], self.name(fr, n, 'key exists'))
            return st, self.read(st, Ref(r.rid, r.path + (('f', k),)))
        if isinstance(v, Map):
            if not (isinstance(i, (str, int)) or is_z3(i)):
                raise Unsupported('key')
            k = lift(i)
            self.oblige(st, v.dom(k), self.name(fr, n, 'key exists'))
            return st, self.read(st, Ref(r.rid, r.path + (('k', k),)))
        if isinstance(v, Seq) and isinstance(i, int):
            h = self.externals.get('seqindex')
            if h:
                x = h(self, st, fr, r, v, i, n)
                if x is not None:
                    return x
            if -len(v.segs) <= i < len(v.segs):
                part = v.segs[:i + 1] if i >= 0 else v.segs[i:]
                if all(not s.sorts and s.dom(()) is True for s in part):
                    return st, self.read(st, Ref(r.rid, r.path + (('s', i % len(v.segs), ()),)))
            if i == len(v.segs) - 1 and all(not s.sorts for s in v.segs) and all(s.dom(()) is True for s in v.segs[:-1]):
                c = v.segs[i].dom(())
                self.raised.append(Exit('raise', st.assume(b_not(c)), 'IndexError', n, ('IndexError', 'LookupError', 'Exception', 'BaseException')))
                return st.assume(c), self.read(st, Ref(r.rid, r.path + (('s', i, ()),)))
        if isinstance(v, Seq) and is_z3(i) and i.sort() == z3.IntSort() and all(not s.sorts and s.dom(()) is True for s in v.segs):
            k = len(v.segs)
            out = b_not(b_and(i >= -k, i < k))
            self.raised.append(Exit('raise', st.assume(out), 'IndexError', n, ('IndexError', 'LookupError', 'Exception', 'BaseException')))
            alts = [(b_or(eqt(i, j), eqt(i, j - k)), j) for j in range(k)]
            return self.alts(st.assume(b_not(out)), Choice(alts), lambda s, x: self.index(s, fr, o, x, n))
        if isinstance(v, Seq) and is_z3(i) and i.sort() == z3.IntSort() and v.segs:
            k = length(v.segs)
            out = b_not(b_and(i >= -k, i < k))
            self.raised.append(Exit('raise', st.assume(out), 'IndexError', n, ('IndexError', 'LookupError', 'Exception', 'BaseException')))
            st = st.assume(b_not(out))
            p = b_ite(i >= 0, i, k + i)
            kinds = [s.elem(tuple(fresh_var(x, 'x') for x in s.sorts)) for s in v.segs]
            self.used.add('list[i]: the item with i items before it')
            if not all(isinstance(x, Rec) and x.fields.keys() == kinds[0].fields.keys() for x in kinds):
                raise Unsupported('item of a list at a position')

            def leaf(f):
                x = [y.fields[f] for y in kinds]
                if all(c is True and is_leaf(y) and y is not None and sort_of(y) == z3.IntSort() for c, y in x):
                    return at_position(v.segs, p, lambda e: e.fields[f][1])
                return Lost('item of a list at a position')
            new = self.alloc(st, Rec({f: (True, leaf(f)) for f in kinds[0].fields}, kinds[0].cls))
            st.shares = st.shares + tuple(((new.rid, ()), (r.rid, r.path + (('s', j, tuple(Star() for _ in s.sorts)),))) for j, s in enumerate(v.segs))
            return st, new
        raise Unsupported(f'index of {type(v).__name__}')

    def e_UnaryOp(self, st, fr, n):
        if isinstance(n.op, ast.Not):
            st, c = self.cond(st, fr, n.operand)
            return st, b_not(c)
        st, v = self.ev(st, fr, n.operand)
        if isinstance(n.op, ast.USub):
            return st, -v if isinstance(v, int) else -lift(v)
        raise Unsupported('operator')

    def e_BoolOp(self, st, fr, n):
        return self.boolop(st, fr, n, n.values, self.ev, self.truth)

    def boolop(self, st, fr, n, values, ev, truth):
        """the first operand that decides the result, or the last one; later operands are evaluated only if needed"""
        isand = isinstance(n.op, ast.And)
        st, v = ev(st, fr, values[0])
        if len(values) == 1:
            return st, v
        c = truth(st, v)
        go = c if isand else b_not(c)
        if go is False:
            return st, v
        if go is True:
            return self.boolop(st, fr, n, values[1:], ev, truth)
        base = st.pc
        s0 = st.assume(go)
        try:
            s1, w = self.boolop(s0, fr, n, values[1:], ev, truth)
        except Never as e:
            self.raised += e.exits
            return st.assume(b_not(go)), v
        if v is None or isinstance(v, Choice):
            v = narrow(st.assume(b_not(go)).pc, v) if v is not None else v
        if ev == self.cond:
            out = b_and(c, w) if isand else b_or(c, w)
        else:
            out = ite(go, w, v)
        if same_state(s0, s1):
            s = s1.copy()
        else:
            s, out2 = self.merge(base, [(go, s1, w), (b_not(go), st, v)])
            s = s.copy()
            out = out if ev == self.cond else out2
        s.pc = self.facts(base, [(go, s1)])
        return s, out

    def facts(self, base, alts):
        """the path condition after alternatives: what was learned in each of them"""
        pc = base
        have = {x.get_id() for x in base if is_z3(x)}
        for g, s in alts:
            gs = {x.get_id() for x in conjuncts(lift(g))} if g is not True else set()
            for x in s.pc[len(base):]:
                if is_z3(x) and (x.get_id() in have or x.get_id() in gs or (is_z3(g) and x.get_id() == g.get_id())):
                    continue
                y = b_implies(g, x)
                if y is not True:
                    pc = pc + (y,)
        return pc

    def e_IfExp(self, st, fr, n):
        st, c = self.cond(st, fr, n.test)
        if c is True:
            return self.ev(st, fr, n.body)
        if c is False:
            return self.ev(st, fr, n.orelse)
        base = st.pc
        outs = []
        for g, x in ((c, n.body), (b_not(c), n.orelse)):
            try:
                s, v = self.ev(st.assume(g), fr, x)
                outs.append((g, s, v))
            except Never as e:
                self.raised += e.exits
        if not outs:
            raise Never([])
        if len(outs) == 1:
            return outs[0][1], outs[0][2]
        s, v = self.merge(base, outs)
        s = s.copy()
        s.pc = self.facts(base, [(g, s) for g, s, _ in outs])
        return s, v

    def e_NamedExpr(self, st, fr, n):
        st, v = self.ev(st, fr, n.value)
        return self.assign(st, fr, n.target, v), v

    def e_Lambda(self, st, fr, n):
        return st, PyFn(n, fr, fr.mod)

    def e_BinOp(self, st, fr, n):
        st, a = self.ev(st, fr, n.left)
        st, b = self.ev(st, fr, n.right)
        if isinstance(n.op, ast.Add) and isinstance(a, Ref) and isinstance(b, Ref):
            st = st.copy()
            r = self.alloc(st, Seq())
            st = self.extend(st, r, a)
            st = self.extend(st, r, b)
            return st, r
        return st, self.binop(st, fr, n.op, a, b, n)

    def binop(self, st, fr, op, a, b, n):
        if isinstance(a, Choice) or isinstance(b, Choice):
            if isinstance(a, Choice):
                alts = [(g, x) for g, x in a.alts if is_leaf(x) and x is not None]
                self.oblige(st, b_or(*[g for g, _ in alts]), self.name(fr, n, 'operand is not None'))
                out = self.binop(st, fr, op, alts[-1][1], b, n)
                for g, x in reversed(alts[:-1]):
                    out = ite(g, self.binop(st, fr, op, x, b, n), out)
                return out
            alts = [(g, x) for g, x in b.alts if is_leaf(x) and x is not None]
            self.oblige(st, b_or(*[g for g, _ in alts]), self.name(fr, n, 'operand is not None'))
            out = self.binop(st, fr, op, a, alts[-1][1], n)
            for g, x in reversed(alts[:-1]):
                out = ite(g, self.binop(st, fr, op, a, x, n), out)
            return out
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add):
            return Tup(a.items + b.items)
        if not (is_leaf(a) and is_leaf(b)) or a is None or b is None:
            raise Unsupported(f'operator on {type(a).__name__} and {type(b).__name__}')
        if not is_z3(a) and not is_z3(b):
            import operator as o
            f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.BitAnd: o.and_, ast.BitOr: o.or_, ast.LShift: o.lshift,
                 ast.RShift: o.rshift, ast.FloorDiv: o.floordiv, ast.Mod: o.mod}.get(type(op))
            if f is None:
                raise Unsupported('operator')
            return f(a, b)
        sa, sb = sort_of(a), sort_of(b)
        if sa == Str and sb == Str and isinstance(op, ast.Add):
            return self.concat([a, b])
        if sa == z3.BoolSort() and sb == z3.IntSort():
            a, sa = z3.If(lift(a), z3.IntVal(1), z3.IntVal(0)), sb
        if sb == z3.BoolSort() and sa == z3.IntSort():
            b, sb = z3.If(lift(b), z3.IntVal(1), z3.IntVal(0)), sa
        if sa == z3.IntSort() and sb == z3.IntSort():
            x, y = lift(a), lift(b)
            if isinstance(op, ast.Add):
                return y if z3.is_int_value(x) and x.as_long() == 0 else x if z3.is_int_value(y) and y.as_long() == 0 else x + y
            if isinstance(op, ast.Sub):
                return x - y
            if isinstance(op, ast.Mult):
                return x * y
            if isinstance(op, ast.BitAnd):
                if z3.is_int_value(x):
                    x, y = y, x
                if z3.is_int_value(y) and y.as_long() >= 0:
                    return bitand(x, y.as_long())
                return self.ufun('bitand', [x, y], z3.IntSort())
            const = y.as_long() if z3.is_int_value(y) else None
            if isinstance(op, (ast.FloorDiv, ast.Mod, ast.Div)):
                self.oblige(st, b_not(eqt(y, 0)), self.name(fr, n, 'divisor is not zero'))
                if const is not None and const > 0 and not isinstance(op, ast.Div):
                    return x / y if isinstance(op, ast.FloorDiv) else x % y
            if isinstance(op, (ast.LShift, ast.RShift)):
                self.oblige(st, y >= 0, self.name(fr, n, 'shift count is not negative'))
                if const is not None and const >= 0:
                    return x * (2 ** const) if isinstance(op, ast.LShift) else x / (2 ** const)
                if isinstance(op, ast.LShift):
                    return x * self.ufun('pow2', [y], z3.IntSort())
            if isinstance(op, ast.BitOr):
                # x | m * 2**k == x + m * 2**k for 0 <= x < 2**k
                rest = self.ufun('op/BitOr', [x, y], z3.IntSort())
                for u, v in ((x, y), (y, x)):
                    p = pow2_factor(v)
                    if p is not None:
                        rest = z3.If(z3.And(u >= 0, u < p), u + v, rest)
                return rest
            if isinstance(op, (ast.BitOr, ast.BitXor, ast.LShift, ast.RShift, ast.FloorDiv, ast.Mod, ast.Div)):
                return self.ufun('op/' + type(op).__name__, [x, y], z3.IntSort())
        if sa == sb and sa is not None and sa.name() == 'Bytes' and isinstance(op, ast.Add):
            return self.ufun('bytes/cat', [a, b], sa)
        raise Unsupported(f'operator {type(op).__name__}')

    def e_Compare(self, st, fr, n):
        st, left = self.ev(st, fr, n.left)
        cs = []
        for op, x in zip(n.ops, n.comparators):
            st, right = self.ev(st, fr, x)
            cs.append(self.compare(st, fr, op, left, right, n))
            left = right
        return st, b_and(*cs)

    def compare(self, st, fr, op, a, b, n):
        if isinstance(op, ast.NotIn):
            return b_not(self.compare(st, fr, ast.In(), a, b, n))
        if isinstance(op, ast.NotEq):
            return b_not(self.compare(st, fr, ast.Eq(), a, b, n))
        if isinstance(op, ast.IsNot):
            return b_not(self.compare(st, fr, ast.Is(), a, b, n))
        if isinstance(op, ast.In):
            return self.contains(st, fr, a, b, n)
        if isinstance(a, Choice):
            return b_or(*[b_and(g, self.compare(st, fr, op, x, b, n)) for g, x in a.alts])
        if isinstance(b, Choice):
            return b_or(*[b_and(g, self.compare(st, fr, op, a, x, n)) for g, x in b.alts])
        if isinstance(op, ast.Is):
            if b is None:
                return a is None
            if a is None:
                return b is None
            if isinstance(a, (bool,)) or isinstance(b, bool):
                return eqt(a, b)
            raise Unsupported('is')
        if isinstance(op, ast.Eq):
            if a is None or b is None:
                return a is b
            if is_leaf(a) and is_leaf(b):
                return eqt(a, b)
            if isinstance(a, Tup) and isinstance(b, Tup):
                if len(a.items) != len(b.items):
                    return False
                return b_and(*[self.compare(st, fr, op, x, y, n) for x, y in zip(a.items, b.items)])
            raise Unsupported('comparison of containers')
        if a is None or b is None:
            self.oblige(st, False, self.name(fr, n, 'no comparison with None'))
            return False
        if not (is_leaf(a) and is_leaf(b)):
            raise Unsupported('comparison')
        if not is_z3(a) and not is_z3(b):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if sort_of(a) != z3.IntSort() or sort_of(b) != z3.IntSort():
            raise Unsupported('order of values that are not numbers')
        x, y = lift(a), lift(b)
        return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]

    def contains(self, st, fr, a, b, n):
        if isinstance(a, Choice):
            return b_or(*[b_and(g, self.contains(st, fr, x, b, n)) for g, x in a.alts])
        if isinstance(b, Choice):
            return b_or(*[b_and(g, self.contains(st, fr, a, x, n)) for g, x in b.alts])
        if isinstance(b, Tup):
            return b_or(*[self.compare(st, fr, ast.Eq(), a, x, n) for x in b.items])
        if isinstance(b, ConstDict):
            return b_or(*[self.compare(st, fr, ast.Eq(), a, x, n) for x in b.d])
        if isinstance(b, Iter):
            return b_or(*[exists_keys(f.sorts, lambda ks, f=f: b_and(f.dom(ks), self.compare(st, fr, ast.Eq(), a, f.value(ks), n))) for f in b.fams])
        if isinstance(b, str) or (is_z3(b) and b.sort() == Str):
            if isinstance(a, str) and isinstance(b, str):
                return a in b
            return self.strpred('contains', b, a)
        if isinstance(b, Ref):
            v = self.deref(st, b)
            if isinstance(v, Empty):
                return False
            if a is None:
                return False
            if isinstance(v, Map):
                return v.dom(lift(a)) if sort_of(a) == v.ksort else False
            if isinstance(v, Rec):
                k = a if isinstance(a, str) else unlit(a) if is_z3(a) else None
                if k is None and is_z3(a) and a.sort() == Str:
                    return b_or(*[b_and(c, eqt(a, x)) for x, (c, _) in v.fields.items() if isinstance(x, str)])
                if k is None:
                    raise Unsupported('symbolic key in a record')
                return v.fields.get(k, (False, None))[0]
            if isinstance(v, SetV):
                return v.has(lift(a)) if v.sort is not None and sort_of(a) == v.sort else False
            if isinstance(v, Seq):
                return b_or(*[exists_keys(s.sorts, lambda ks, s=s: b_and(s.dom(ks), self.compare(st, fr, ast.Eq(), a, s.elem(ks), n))) for s in v.segs])
        raise Unsupported('in')

    def strpred(self, name, s, arg):
        """startswith, endswith, contains as uninterpreted predicates; constants are decided"""
        if isinstance(arg, Tup):
            return b_or(*[self.strpred(name, s, x) for x in arg.items])
        cs, ca = unlit(s) if is_z3(s) else s, unlit(arg) if is_z3(arg) else arg
        if isinstance(cs, str) and isinstance(ca, str):
            return {'startswith': cs.startswith, 'endswith': cs.endswith, 'contains': cs.__contains__}[name](ca)
        if isinstance(ca, str):
            return self.ufun(f'{name}/{ca}', [s], z3.BoolSort())
        return self.ufun(name, [s, arg], z3.BoolSort())

    # -------------------------------------------------------------- comprehensions
    def comp(self, st, fr, n, elt_fn):
        """yields for the generators of a comprehension: [(sorts, dom, keys consts, before, elt value, state)]"""
        self.nfid += 1
        sub_fr = Frame(self.nfid, fr, fr.mod, fr.node)
        out = []

        def rec(s, i, keys, dom, befores, pc0):
            if i == len(n.generators):
                s2, v = elt_fn(s, sub_fr)
                out.append((tuple(k.sort() for k in keys), dom, tuple(keys), befores, v, s2))
                return
            g = n.generators[i]
            if g.is_async:
                raise Unsupported('async')
            known = len(s.pc)
            s, it = self.ev(s, sub_fr, g.iter)
            if i == 0:
                st.pc = st.pc + s.pc[known:]
            for f in self.families(s, it):
                ks = tuple(fresh_var(x, 'c') for x in f.sorts)
                d = f.dom(ks)
                if d is False:
                    continue
                s2 = s.assume(d)
                s2 = self.assign(s2, sub_fr, g.target, f.value(ks))
                cs = []
                for t in g.ifs:
                    s2, c = self.cond(s2, sub_fr, t)
                    cs.append(c)
                    s2 = s2.assume(c)
                c = b_and(d, *cs)
                if c is False:
                    continue
                rec(s2, i + 1, keys + ks, b_and(dom, c), befores + [(len(ks), f.before, f.mixed)], pc0)
        s0 = st.copy()
        s0.frames[sub_fr.fid] = {}
        rec(s0, 0, (), True, [], st.pc)
        return out

    def comp_iter(self, st, fr, n, elt_fn):
        """a comprehension as transient families of pure values (shares recorded in st)"""
        res = []
        parts = self.comp(st, fr, n, elt_fn)
        gid = next(GROUP)
        for sorts, dom, keys, befores, v, s2 in parts:
            before = None
            mixed = befores[0][2] if len(befores) == 1 else ((gid, 0, None),) if len(parts) > 1 else ()
            if len(befores) == 1 and befores[0][1] is not None:
                before = befores[0][1]
            elif not keys:
                before = lambda a, b: False
            res.append((sorts, closure(keys, dom), keys, before, v, s2, mixed))
        return res

    def pure(self, st, s2, v, dst, keys):
        """value v of state s2 (a copy of st extended by evaluating the element) as a pure value; shares go to st for all keys"""
        s3 = s2.copy()
        val = self.embed(s3, v, dst)
        st.shares = st.shares + tuple(gen_share(sh, keys, None) for sh in new_pairs(s3.shares, st.shares))
        return val

    def e_ListComp(self, st, fr, n):
        st = st.copy()
        r = self.alloc(st, Seq())
        segs = []
        for i, (sorts, dom, keys, before, v, s2, mixed) in enumerate(self.comp_iter(st, fr, n, lambda s, f: self.ev(s, f, n.elt))):
            val = self.pure(st, s2, v, (r.rid, (('s', i, tuple(Star() for _ in keys)),)), keys)
            segs.append(Seg(sorts, dom, closure(keys, val), before, mixed))
        st.heap[r.rid] = Seq(segs)
        return st, r

    def e_GeneratorExp(self, st, fr, n):
        fams = []
        st = st.copy()
        for sorts, dom, keys, before, v, s2, mixed in self.comp_iter(st, fr, n, lambda s, f: self.ev(s, f, n.elt)):
            if isinstance(v, Ref) and self.resolve(s2, v).rid not in st.heap:
                raise Unsupported('generator of new objects')
            v = self.resolve_deep(s2, v)
            fams.append(Family(sorts, dom, closure(keys, v), before))
            fams[-1].mixed = mixed
        return st, OnceIter(fams)

    def e_SetComp(self, st, fr, n):
        st = st.copy()
        has, sort = [], None
        for sorts, dom, keys, before, v, s2, mixed in self.comp_iter(st, fr, n, lambda s, f: self.ev(s, f, n.elt)):
            if not is_leaf(v) or v is None:
                raise Unsupported('set of containers')
            sort = sort_of(v)
            has.append((sorts, dom, closure(keys, v)))
        return st, self.alloc(st, SetV(sort, lambda k: b_or(*[exists_keys(s, lambda ks, d=d, v=v: b_and(d(ks), eqt(k, v(ks)))) for s, d, v in has])))

    def e_DictComp(self, st, fr, n):
        def pair(s, f):
            s, k = self.ev(s, f, n.key)
            s, v = self.ev(s, f, n.value)
            return s, Tup([k, v])
        st = st.copy()
        r = self.alloc(st, Empty())
        parts = self.comp_iter(st, fr, n, pair)
        if len(parts) == 1 and len(parts[0][2]) == 1 and is_z3(parts[0][4].items[0]) and parts[0][4].items[0].eq(parts[0][2][0]):
            sorts, dom, keys, before, v, s2, _ = parts[0]
            val = self.pure(st, s2, v.items[1], (r.rid, (('k', Star()),)), keys)
            cl = closure(keys, val)
            st.heap[r.rid] = Map(sorts[0], lambda q: dom((lift(q),)), lambda q: cl((lift(q),)), before and (lambda a, b: before((a,), (b,))))
            return st, r
        if all(not p[2] for p in parts):
            for sorts, dom, keys, before, v, s2, _ in parts:
                if dom(()) is not True:
                    raise Unsupported('conditional entry')
                val = self.pure(st, s2, v.items[1], (r.rid, (('f', 'x'),)), keys)
                if not is_leaf(val):
                    raise Unsupported('dict of containers from constants')
                st = self.store(st, r, v.items[0], val)
            return st, r
        # keys that are not the keys of the iteration: run as a loop
        st.heap.pop(r.rid, None)
        st, r = st, self.alloc(st, Empty())
        body = ast.Assign(targets=[ast.Subscript(value=ast.Name(id='%dict', ctx=ast.Load()), slice=n.key, ctx=ast.Store())], value=n.value)
        inner = [body]
        for g in reversed(n.generators):
            for t in reversed(g.ifs):
                inner = [ast.If(test=t, body=inner, orelse=[])]
            inner = [ast.For(target=g.target, iter=g.iter, body=inner, orelse=[])]
        ast.copy_location(inner[0], n)
        ast.fix_missing_locations(inner[0])
        self.nfid += 1
        f2 = Frame(self.nfid, fr, fr.mod, fr.node)
        st.frames[f2.fid] = {'%dict': r}
        o = self.block(st, f2, inner)
        if o.exits or o.state is None:
            raise Unsupported('exit in a comprehension')
        st = o.state
        r = self.resolve_deep(st, st.frames[f2.fid]['%dict'])
        st.frames.pop(f2.fid)
        return st, r

    # -------------------------------------------------------------- calls of functions
    def e_Call(self, st, fr, n):
        # logging: neither changes the state nor raises (assumption)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in LOGFNS:
            try:
                base = self.lookup(st, fr, n.func.value.id)
            except Unsupported:
                base = None
            if isinstance(base, Builtin) and base.name == '.log' and not (self.on_print and n.func.attr == 'print'):
                self.used.add('log.' + n.func.attr + '() has no effect on the data')
                return (self.on_log(self, st, n.func.attr) if self.on_log else st), None
        st, f = self.ev(st, fr, n.func)
        if isinstance(f, Builtin) and f.name == '.log.die':
            try:
                st, _ = self.evs(st, fr, n.args)
            except Unsupported:
                self.used.add('computing the message of log.die() does not raise another exception')
            kwargs = {k.arg: self.ev(st, fr, k.value)[1] for k in n.keywords}
            return self.apply(st, fr, f, [], kwargs, n)
        st, args = self.evs(st, fr, n.args)
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                raise Unsupported('** argument')
            st, kwargs[k.arg] = self.ev(st, fr, k.value)
        return self.apply(st, fr, f, args, kwargs, n)

    def fnterm(self, f):
        """a method as a value that can be stored"""
        for t, g in self.fnterms:
            if g.node is f.node and (g.bound is f.bound or isinstance(g.bound, Ref) and isinstance(f.bound, Ref) and ref_eq(g.bound, f.bound)):
                return t
        t = z3.Const(f'fn!{len(self.fnterms)}', Obj)
        self.fnterms.append((t, f))
        return t

    def apply(self, st, fr, f, args, kwargs, n):
        if isinstance(f, Choice):
            return self.alts(st, f, lambda s, x: self.apply(s, fr, x, args, kwargs, n))
        if isinstance(f, Handler):
            return f.fn(self, st, args, kwargs)
        if any(isinstance(a, StarV) for a in args):
            raise Unsupported('starred argument')
        if is_z3(f) and f.sort() == Obj:
            if z3.is_app_of(f, z3.Z3_OP_ITE):
                c = Choice([(f.arg(0), f.arg(1)), (b_not(f.arg(0)), f.arg(2))])
                return self.alts(st, c, lambda s, x: self.apply(s, fr, x, args, kwargs, n))
            for t, g in self.fnterms:
                if t.eq(f):
                    return self.apply(st, fr, g, args, kwargs, n)
        if isinstance(f, PyFn):
            nm = getattr(f.node, 'name', None)
            if f.bound is not None:
                args = [f.bound] + list(args)
            if f.frame is None and (f.mod.name, nm) in self.contracts:
                return self.contracts[(f.mod.name, nm)](self, st, args, kwargs)
            if f.frame is not None and nm in self.nested:
                return self.nested[nm](self, st, f, args, kwargs)
            if is_generator(f.node):
                return st, GenCall(f, args, kwargs)
            out, v = self.call(st, f, args, kwargs)
            self.raised += out.exits
            if out.state is None:
                self.raised = self.raised[:len(self.raised) - len(out.exits)]
                raise Never(out.exits)
            s = out.state
            return s, v
        if isinstance(f, Builtin):
            from library import call_builtin
            return call_builtin(self, st, fr, f, args, kwargs, n)
        raise Unsupported('call of an unknown value')


def narrow(pc, c):
    """the alternatives not excluded by the path condition (syntactically)"""
    have = {x.get_id() for p in pc if is_z3(p) for x in conjuncts(p)}
    out = []
    for g, v in c.alts:
        bad = False
        for x in conjuncts(g):
            nx = b_not(x)
            if nx is True or (is_z3(nx) and nx.get_id() in have):
                bad = True
            elif is_z3(nx) and any(y.get_id() in have for y in ([nx] if not z3.is_and(nx) else [nx])):
                bad = True
        if not bad:
            out.append((g, v))
    if len(out) == 1:
        return out[0][1]
    return Choice(out) if out else c


_known = {}


def known(pc):
    k = tuple(p.get_id() for p in pc if is_z3(p))
    r = _known.get(k)
    if r is None:
        have = {x.get_id(): x for p in pc if is_z3(p) for x in conjuncts(p)}
        r = _known[k] = (have, pc)
    return r[0]


def under(pc, t):
    """the term, without conditions the path condition (syntactically) decides"""
    have = known(pc)

    def cond(c):
        out = []
        for x in conjuncts(c):
            if x.get_id() in have:
                continue
            n = b_not(x)
            if n is True or is_z3(n) and n.get_id() in have:
                return False
            out.append(x)
        return b_and(*out)
    for _ in range(50):
        if not z3.is_app(t):
            return t
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            c = cond(t.arg(0))
            if c is True:
                t = t.arg(1)
            elif c is False:
                t = t.arg(2)
            else:
                a, b = under(pc, t.arg(1)), under(pc, t.arg(2))
                return lift(b_ite(c, a, b))
        elif k == z3.Z3_OP_AND:
            return lift(cond(t))
        else:
            return t
    return t


def pow2_factor(t):
    """a power of two that the term is a multiple of, or None"""
    if z3.is_mul(t):
        for c in t.children():
            p = pow2_factor(c)
            if p is not None:
                return p
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
        return pow2_factor(t.arg(0))
    if z3.is_app(t) and t.decl().name() == 'pow2':
        return t
    if z3.is_int_value(t) and t.as_long() > 1 and t.as_long() & (t.as_long() - 1) == 0:
        return t
    return None


def bitand(x, mask):
    """x & mask for a constant mask: exact for all integers (two's complement of any length)"""
    out, i = z3.IntVal(0), 0
    while mask >> i:
        if not mask >> i & 1:
            i += 1
            continue
        j = i
        while mask >> j & 1:
            j += 1
        t = (x / (2 ** i)) % (2 ** (j - i)) if i else x % (2 ** j)
        out = out + t * (2 ** i) if i else t
        i = j
    return z3.simplify(out) if z3.is_int_value(x) else out


def ite_var(c, a, b):
    """merge the values of a variable; it may be unset in one of the branches"""
    if a is b:
        return a
    if (a is Undef) != (b is Undef) and not isinstance(a, (Tok, Lost)) and not isinstance(b, (Tok, Lost)):
        return choice([(c, a), (b_not(c), b)])
    if isinstance(a, Choice) or isinstance(b, Choice):
        if value_eq(a, b):
            return a
        return choice([(c, a), (b_not(c), b)])
    return ite(c, a, b)


class Frame:
    def __init__(self, fid, parent, mod, node):
        self.fid, self.parent, self.mod, self.node = fid, parent, mod, node
        self.yield_ = None
        self.exc = None           # the exception being handled
        self.nonlocals = set()


class ConstDict:
    def __init__(self, d):
        self.d = d

    def same(self, o):
        return self.d == o.d


class ConstBytes:
    def __init__(self, b):
        self.b = b


class CatV:
    pass


CATS = {}


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(x))
    return False


def seqof(v):
    if not isinstance(v, Seq):
        raise Unsupported('not a list')
    return v


def closure(keys, v):
    """v as a function of the keys (constants in v)"""
    def f(ks):
        if not keys:
            return v
        pairs = [(k, lift(x)) for k, x in zip(keys, ks) if not k.eq(lift(x))]
        if not pairs:
            return v
        if isinstance(v, (bool, int, str)) or v is None:
            return v
        return subst(v, pairs)
    return f


def exists_keys(sorts, dom):
    ks = tuple(fresh_var(s, 'e') for s in sorts)
    b = dom(ks)
    for k in reversed(ks):
        b = mk_exists(k, b)
    return b


def refs_in(v):
    if isinstance(v, Ref):
        yield v
    elif isinstance(v, Tup):
        for x in v.items:
            yield from refs_in(x)
    elif isinstance(v, Choice):
        for _, x in v.alts:
            yield from refs_in(x)


def map_refs(v, f):
    if isinstance(v, Ref):
        return f(v)
    if isinstance(v, Tup):
        return Tup([map_refs(x, f) for x in v.items])
    if isinstance(v, Choice):
        return Choice([(g, map_refs(x, f)) for g, x in v.alts])
    return v


def loc_key(l):
    def k(x):
        if isinstance(x, Star):
            return '*' + (x.excl.sexpr() if x.excl is not None else '')
        return lift(x).sexpr()
    out = [str(l[0])]
    for s in l[1]:
        if s[0] == 'k':
            out.append('k' + k(s[1]))
        elif s[0] == 's':
            out.append(f's{s[1]}' + ','.join(k(x) for x in s[2]))
        else:
            out.append(str(s))
    return '/'.join(out)


def pair_key(p):
    return loc_key(p[0]) + '||' + loc_key(p[1])


def new_pairs(cur, known):
    have = {pair_key(x) for x in known}
    return tuple(x for x in cur if pair_key(x) not in have)


def new_locs(cur, known):
    have = {loc_key(x) for x in known}
    return tuple(x for x in cur if loc_key(x) not in have)


def key_compat(a, b):
    if isinstance(a, Star) and isinstance(b, Star):
        return True
    if isinstance(a, Star):
        return not (a.excl is not None and a.excl.eq(lift(b)))
    if isinstance(b, Star):
        return key_compat(b, a)
    x = eqt(a, b)
    return x is not False


def compat(l1, l2):
    """may one location be the other or a part of it?"""
    if l1[0] != l2[0]:
        return False
    for s, t in zip(l1[1], l2[1]):
        if s[0] != t[0]:
            return False
        if s[0] == 'f' and s[1] != t[1]:
            return False
        if s[0] in ('t', 'a') and s[1] != t[1]:
            return False
        if s[0] == 'k' and not key_compat(s[1], t[1]):
            return False
        if s[0] == 's':
            if s[1] != t[1]:
                return False
            if not all(key_compat(x, y) for x, y in zip(s[2], t[2])):
                return False
    return True


def lit_alts(e, guard=True):
    """the literals a term may be, with their conditions, or None"""
    if unlit(e) is not None:
        return [(guard, unlit(e))]
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        a, b = lit_alts(e.arg(1), b_and(guard, e.arg(0))), lit_alts(e.arg(2), b_and(guard, b_not(e.arg(0))))
        return a + b if a is not None and b is not None else None
    return None


def exclude(l, r):
    """the location without the place r (below which it is, but for one open key), if that can be expressed"""
    path, done = [], False
    for i, s in enumerate(l[1]):
        if i < len(r.path) and s[0] == 'k' and isinstance(s[1], Star):
            k = r.path[i][1]
            if done or s[1].excl is not None or isinstance(k, Star):
                return l
            s = ('k', Star(lift(k)))
            done = True
        elif i < len(r.path) and not ref_eq(Ref(0, (s,)), Ref(0, (r.path[i],))):
            return l
        path.append(s)
    return (l[0], tuple(path))


def unexclude(l, ks):
    """the location without the exclusion of the keys, and the path of the container whose key was excluded"""
    path, at = [], None
    for s in l[1]:
        if s[0] == 'k' and isinstance(s[1], Star) and s[1].excl is not None and len(ks) == 1 and s[1].excl.eq(ks[0]):
            at = tuple(path)
            s = ('k', Star())
        path.append(s)
    return (l[0], tuple(path)), at


def gen_loc(l, ks, excl, loose=None):
    def g(x):
        if loose is not None and is_z3(x) and not any(x.eq(k) for k in ks) and loose(x):
            return Star(None)
        if is_z3(x) and any(x.eq(k) for k in ks):
            return Star(x if excl else None)
        if is_z3(x) and any(v.eq(k) for v in free_vars(x) for k in ks):
            return Star(None)
        return x
    path = []
    for s in l[1]:
        if s[0] == 'k':
            path.append(('k', g(s[1])))
        elif s[0] == 's':
            path.append(('s', s[1], tuple(g(x) for x in s[2])))
        else:
            path.append(s)
    return (l[0], tuple(path))


def gen_share(sh, ks, excl, loose=None):
    return (gen_loc(sh[0], ks, excl, loose), gen_loc(sh[1], ks, excl, loose))


def covers(gs):
    """the guards are obviously exhaustive"""
    if len(gs) == 2:
        a, b = gs
        if a is True or b is True:
            return True
        na = b_not(a)
        if is_z3(na) and is_z3(b) and na.eq(b):
            return True
        nb = b_not(b)
        if is_z3(nb) and is_z3(a) and nb.eq(a):
            return True
    s = z3.Solver()
    s.set('timeout', 300)
    s.add(z3.Not(z3.Or(*[lift(g) for g in gs])))
    return s.check() == z3.unsat
