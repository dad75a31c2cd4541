"""Path by path symbolic execution of text parsers, with loops proved in lockstep with a specification machine.

The functions are read from /repo on every run. A function is executed once per path: where a condition is not decided by
the conditions of the path so far, both sides are executed (infeasible ones are refuted by z3). A loop over lines (or list
items) is executed for one arbitrary item from an arbitrary state: the state of the code and the state of the
specification machine are generalised together, and the invariant says which values of both are equal. It is weakened
(never assumed) until it is inductive, so the equalities that are left hold after any number of iterations."""
import ast
import copy
import builtins
import itertools
import os
import time

import z3

import logic
from logic import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
I, B = z3.IntSort(), z3.BoolSort()
Str = z3.DeclareSort('Text')
_lit = {}


def lit(s):
    if s not in _lit:
        _lit[s] = z3.Const('"' + s + '"', Str)
    return _lit[s]


def lit_of(t):
    n = t.decl().name()
    return n[1:-1] if t.num_args() == 0 and n.startswith('"') and n.endswith('"') and n[1:-1] in _lit else None


class Facts:
    """ground facts about the text functions, for the terms of a path"""
    def __init__(self, parent=None):
        self.list = list(parent.list) if parent else []
        self.seen = dict(parent.seen) if parent else {}
        self.pref = {k: set(v) for k, v in parent.pref.items()} if parent else {}


FACTS = [Facts()]


def axiom(f):
    a = FACTS[0]
    if f.get_id() not in a.seen:
        a.seen[f.get_id()] = f
        a.list.append(f)


# ------------------------------------------------------------------ text functions
WS = ' \t\n\r\x0b\x0c'
_strip = z3.Function('strip', Str, Str)
NW = z3.Function('number of words', Str, I)
WORD = z3.Function('word', Str, I, Str)
ISINT = z3.Function('is number', Str, B)
TOINT = z3.Function('number', Str, I)


def is_strip(t):
    return t.decl().eq(_strip)


def strip(t):
    c = lit_of(t)
    if c is not None:
        return lit(c.strip())
    if is_strip(t) or t.decl().name().startswith('rest ') and is_strip(t.arg(0)):
        return t
    r = _strip(t)
    axiom(z3.Implies(t == lit(''), r == lit('')))
    return r


def starts(t, p):
    c = lit_of(t)
    if c is not None:
        return z3.BoolVal(c.startswith(p))
    if not p:
        return z3.BoolVal(True)
    f = lambda q: z3.Function('starts with ' + q, Str, B)(t)
    for q in FACTS[0].pref.setdefault(t.get_id(), set()):
        if q.startswith(p) and q != p:
            axiom(z3.Implies(f(q), f(p)))
        elif p.startswith(q) and q != p:
            axiom(z3.Implies(f(p), f(q)))
        elif p != q:
            axiom(z3.Not(z3.And(f(p), f(q))))
    FACTS[0].pref[t.get_id()].add(p)
    FACTS[0].seen[('keep', t.get_id())] = t
    axiom(z3.Implies(f(p), t != lit('')))
    if not is_strip(t) and p == p.strip():
        axiom(z3.Implies(f(p), starts(_strip(t), p)))
        axiom(z3.Implies(f(p), _strip(t) != lit('')))
    if is_strip(t) and p[0] in WS:
        axiom(z3.Not(f(p)))
    return f(p)


def contains(t, p):
    if is_strip(t) and p == p.strip() and p:
        t = t.arg(0)
    return z3.Function('contains ' + p, Str, B)(t)


def plain(t):
    return t.arg(0) if is_strip(t) else t


class Words:
    """the list of the words of a text; the last of at most k + 1 is the rest of the text"""
    own = None
    def __init__(self, t, k):
        self.t, self.k, self.extra = t, k, []
        axiom(NW(plain(t)) >= 0)
        axiom((NW(plain(t)) == 0) == (strip(t) == lit('')))

    def len(self):
        return self.base() + len(self.extra) if self.extra else self.base()

    def base(self):
        n = NW(plain(self.t))
        return n if self.k is None else z3.If(n > self.k + 1, z3.IntVal(self.k + 1), n)

    def at(self, i):
        if not z3.is_int_value(i):
            raise Unsupported('word with a symbolic index')
        i = i.as_long()
        w = self.word(i)
        for j, x in enumerate(self.extra):      # appended words
            w = z3.If(self.base() + j == i, L(x), w)
        return w

    def word(self, i):
        w = WORD(plain(self.t), z3.IntVal(i))
        axiom(z3.Implies(NW(plain(self.t)) > i, strip(w) == w))
        if self.k is not None and i >= self.k:
            r = z3.Function(f'rest {self.k}', Str, Str)(self.t)
            if is_strip(self.t):
                axiom(z3.Implies(NW(plain(self.t)) == self.k + 1, r == w))
            return r
        return w


class Tail(Words):
    """the words behind the first ones"""
    def __init__(self, w, a):
        w = copy.copy(w)        # a slice is a copy
        w.extra = list(w.extra)
        self.w, self.a, self.t, self.k, self.extra = w, a, w.t, w.k, []

    def len(self):
        n = self.w.len()
        return z3.If(n > self.a, n - self.a, 0)

    def at(self, i):
        if not z3.is_int_value(i):
            raise Unsupported('word with a symbolic index')
        return self.w.at(z3.IntVal(i.as_long() + self.a))


# ------------------------------------------------------------------ values
class Ref:
    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(self.oid)


class Rec:
    def __init__(self, d, cls=None):
        self.d, self.cls = d, cls


class SList:
    """n items; every leaf of an item is a column (an array)"""
    def __init__(self, n, cols):
        self.n, self.cols = n, cols

    def typed(self):
        return bool(self.cols)


EMPTY = SList(z3.IntVal(0), {})


class Map:
    """dict with symbolic keys and lists as values"""
    def __init__(self, some, dom, n, cols):
        self.some, self.dom, self.n, self.cols = some, dom, n, cols


class Elem:
    """alias of an item of a list"""
    def __init__(self, lst, idx):
        self.lst, self.idx = lst, idx


class MapElem:
    def __init__(self, m, key):
        self.m, self.key = m, key


class Moved:
    pass


class Lines:
    def __init__(self, off):
        self.off = off


class Iter:
    """the items at the positions lo <= pos < hi; the arguments are values of the state"""
    def __init__(self, lo, hi, kind, args=(), elems=None):
        self.lo, self.hi, self.kind, self.args, self.elems = lo, hi, kind, args, elems

    def item(self, r, pos, args):
        return item(self.kind, r, pos, args)


def item(kind, r, pos, args):
    if kind == 'lines':
        return LINE(pos)
    if kind == 'range':
        return pos
    if kind == 'list':
        return r.item(args[0], pos)
    if kind[0] == 'enum':
        return (args[0] + (pos - args[1]), item(kind[1], r, pos, args[2]))
    raise AssertionError(kind)


class Rev:
    def __init__(self, v):
        self.v = v


class Fn:
    def __init__(self, node, fid=None, self_=None):
        self.node, self.fid, self.self_ = node, fid, self_


class Method:
    def __init__(self, v, name):
        self.v, self.name = v, name


class Mod:
    def __init__(self, name):
        self.name = name


class Cls:
    def __init__(self, name):
        self.name = name


class Regex:
    def __init__(self, p):
        self.p = p


class Match:
    def __init__(self, p, t):
        self.p, self.t = p, t


class Opaque:
    """a value that is only passed on to messages"""


class File:
    def __init__(self, fn):
        self.fn = fn


class Junk:
    """a variable that the code must set before it reads it"""


class ReadJunk(Exception):
    pass


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    pass


class Raised(Exception):
    def __init__(self, name):
        self.name = name


class Infeasible(Exception):
    pass


class Done(Exception):
    """the path ends here (its obligations are recorded)"""


# ------------------------------------------------------------------ solver
class Solver:
    """incremental: the conditions of a path and the facts about its terms"""
    def __init__(self):
        self.s = z3.Solver()
        self.pc, self.npc, self.nax, self.nlit, self.facts = [], 0, 0, 0, None

    def sync(self, pc):
        f = FACTS[0]
        if self.facts is not f or len(pc) < self.npc or any(a is not b for a, b in zip(self.pc, pc)):
            self.__init__()
            self.facts = f
        for x in pc[self.npc:]:
            self.s.add(x)
        self.pc = list(pc)
        self.npc = len(pc)
        for x in f.list[self.nax:]:
            self.s.add(x)
        self.nax = len(f.list)

    def check(self, pc, extra=(), ms=4000):
        t0 = time.time()
        if logic.DEADLINE[0] and t0 > logic.DEADLINE[0]:
            raise Unsupported('time limit of the proof reached')
        logic.STAT['queries'] += 1
        self.sync(pc)
        self.s.push()
        self.s.set('timeout', ms)
        if len(_lit) > 1:
            self.s.add(z3.Distinct(*_lit.values()))
        self.s.add(*extra)
        r = self.s.check()
        self.s.pop()
        logic.STAT['solver_s'] += time.time() - t0
        return r


_solver = Solver()


def check(fs, ms=4000):
    return _solver.check(fs, (), ms)


def proved(pc, goal, ms=20000):
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True
    r = _solver.check(pc, [z3.Not(g)], min(ms, 5000))
    if r == z3.unknown:
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(*pc, *FACTS[0].list, z3.Not(g))
        if len(_lit) > 1:
            s.add(z3.Distinct(*_lit.values()))
        t0 = time.time()
        r = s.check()
        logic.STAT['solver_s'] += time.time() - t0
    return r == z3.unsat


# ------------------------------------------------------------------ source
class Source:
    def __init__(self, mod):
        path = os.path.join(REPO, 'esp_idf_size', mod + '.py')
        with open(path) as f:
            self.tree = ast.parse(f.read())
        self.mod = mod
        self.names = {}
        for n in self.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.names[n.name] = n
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.names[n.targets[0].id] = n.value
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.names[(a.asname or a.name).split('.')[0]] = ('import', a.name)

    def cls(self, name):
        c = self.names.get(name)
        if not isinstance(c, ast.ClassDef):
            raise Unsupported(f'class {name} does not exist')
        return {n.name: n for n in c.body if isinstance(n, ast.FunctionDef)}, {
            n.targets[0].id: n.value for n in c.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}

    def bases(self, name):
        c = self.names.get(name)
        out = {name}
        if isinstance(c, ast.ClassDef):
            for b in c.bases:
                out |= self.bases(b.id if isinstance(b, ast.Name) else b.attr)
        elif isinstance(getattr(builtins, name, None), type):
            out |= {k.__name__ for k in getattr(builtins, name).__mro__}
        else:
            out |= {'Exception', 'BaseException', 'RuntimeError'}   # FatalError
        return out


def is_str(v):
    return isinstance(v, str) or z3.is_expr(v) and v.sort() == Str


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool) or z3.is_expr(v) and v.sort() == I


def L(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, str):
        return lit(v)
    return v


def is_leaf(v):
    return isinstance(v, (int, str)) and not isinstance(v, bool) or z3.is_expr(v)


class Explorer:
    """all paths of a function; obligations are reported to P"""
    def __init__(self, P, src, spec=None, contracts=None, junk=()):
        self.P, self.src, self.spec, self.contracts = P, src, spec, contracts or {}
        self.memo = {}
        self.junk = set(junk)      # variables that were found to be read: not junk
        self.functions = set()
        self.notes = []

    def paths(self, f, ns='', limit=4000, inner=False):
        """[(run, result)] of f(run) for all decisions"""
        todo, out = [()], []
        outer = FACTS[0]
        while todo:
            pre = todo.pop()
            r = Run(self, pre, ns)
            r.facts = FACTS[0] = Facts(outer if inner else None)
            try:
                v = f(r)
            except (Infeasible, Done):
                v = None
                r.dead = True
            finally:
                FACTS[0] = outer
            for i in range(len(pre), len(r.taken)):
                for alt in r.alts[i]:
                    todo.append(tuple(r.taken[:i]) + (alt,))
            if not r.dead:
                out.append((r, v))
            if len(out) + len(todo) > limit:
                raise Unsupported('too many paths')
        return out


class Run:
    def __init__(self, ex, pre, ns):
        self.ex, self.pre, self.ns = ex, list(pre), ns
        self.taken, self.alts = [], []
        self.pc, self.heap, self.frames, self.spec = [], {}, {}, {}
        self.depth, self.nfresh, self.nid, self.dead = [], 0, 0, False

    # -------------------------------------------------------- choices
    def fresh(self, sort, what='v'):
        self.nfresh += 1
        return z3.Const(f'{what}!{self.ns}{self.nfresh}.{"".join(map(str, map(int, self.taken)))}', sort)

    def new(self, obj):
        self.nid += 1
        oid = f'o{self.ns}{self.nid}'
        self.heap[oid] = obj
        return Ref(oid)

    def assume(self, f):
        self.pc.append(f)

    def pick(self, n):
        """one of n cases"""
        i = len(self.taken)
        c = self.pre[i] if i < len(self.pre) else 0
        self.taken.append(c)
        self.alts.append([k for k in range(n) if k != c] if i >= len(self.pre) else [])
        return c

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        i = len(self.taken)
        if i < len(self.pre):
            v = self.pre[i]
            self.taken.append(v)
            self.alts.append([])
        else:
            t = _solver.check(self.pc, [c], 2000) != z3.unsat
            f = _solver.check(self.pc, [z3.Not(c)], 2000) != z3.unsat
            if not t and not f:
                raise Infeasible()
            v = t
            self.taken.append(v)
            self.alts.append([False] if t and f else [])
        v = bool(v)
        self.pc.append(c if v else z3.Not(c))
        return v

    def feasible(self):
        return check(self.pc, 3000) != z3.unsat

    # -------------------------------------------------------- values
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, str)):
            return bool(v)
        if z3.is_expr(v):
            if v.sort() == B:
                return self.branch(v)
            if v.sort() == I:
                return self.branch(v != 0)
            if v.sort() == Str:
                return self.branch(v != lit(''))
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, Words):
            return self.branch(v.len() > 0)
        if isinstance(v, Ref):
            o = self.heap[v.oid]
            if isinstance(o, Rec):
                return bool(o.d) or o.cls is not None
            if isinstance(o, SList):
                return self.branch(o.n > 0)
            if isinstance(o, Map):
                return self.branch(o.some)
            if isinstance(o, Elem):
                return True
        if isinstance(v, (Match, Fn, Mod, Cls, Method, Regex)):
            return True
        raise Unsupported(f'truth of {type(v).__name__}')

    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        if is_leaf(a) and is_leaf(b) or isinstance(a, bool) and isinstance(b, bool):
            a, b = L(a), L(b)
            if a.sort() != b.sort():
                return False
            for x, y in ((a, b), (b, a)):
                if x.sort() == Str and lit_of(x) and x.num_args() == 0 and y.decl().eq(WORD):
                    axiom(z3.Implies(y == x, contains(y.arg(0), lit_of(x))))
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return z3.And(*[L(self.eq(x, y)) for x, y in zip(a, b)]) if a else True
        raise Unsupported(f'comparison of {type(a).__name__} and {type(b).__name__}')

    # -------------------------------------------------------- lists and dicts
    def flat(self, v, pre=''):
        """leaf columns of a value that is put into a list: {name: term}"""
        if is_leaf(v):
            return {pre: L(v)}
        if isinstance(v, tuple):
            out = {}
            for i, x in enumerate(v):
                out.update(self.flat(x, f'{pre}({i})'))
            return out
        if isinstance(v, Ref):
            o = self.heap[v.oid]
            if isinstance(o, Rec) and o.cls is None:
                out = {}
                for k, x in o.d.items():
                    out.update(self.flat(x, f'{pre}.{k}'))
                return out
            if isinstance(o, SList):
                return {pre + '#': o.n, **{pre + '/' + k: a for k, a in o.cols.items()}, pre + '/': None}
        raise Unsupported(f'{type(v).__name__} in a list')

    def append(self, lst, v):
        o = self.heap[lst.oid]
        cols = {k: x for k, x in self.flat(v).items() if x is not None}
        if isinstance(o, MapElem):
            m = self.heap[o.m]
            n = m.n[o.key]
            cs = dict(m.cols)
            if set(cs) != set(cols):
                raise Unsupported('items of different kinds')
            for k, x in cols.items():
                cs[k] = z3.Store(cs[k], o.key, z3.Store(cs[k][o.key], n, x))
            self.heap[o.m] = Map(m.some, m.dom, z3.Store(m.n, o.key, n + 1), cs)
            return
        if not isinstance(o, SList):
            raise Unsupported('append')
        cs = dict(o.cols)
        for k, x in cols.items():
            if k not in cs:
                if '/' in k or not (z3.is_int_value(z3.simplify(o.n)) and z3.simplify(o.n).as_long() == 0):
                    if '/' not in k:
                        raise Unsupported('items of different kinds')
                cs[k] = z3.Const('no items ' + k, z3.ArraySort(I, x.sort()))
        for k, a in cs.items():
            if k in cols:
                cs[k] = z3.Store(a, o.n, cols[k])
            elif '/' not in k:
                raise Unsupported('items of different kinds')
            # columns of the empty inner list have no items
        self.heap[lst.oid] = SList(o.n + 1, cs)
        if isinstance(v, Ref):
            r = self.heap[v.oid]
            if isinstance(r, Rec):
                for x in r.d.values():
                    if isinstance(x, Ref):
                        self.heap[x.oid] = Moved()
                self.heap[v.oid] = Elem(lst.oid, o.n)
            else:
                self.heap[v.oid] = Moved()

    def item(self, lst, i):
        """item i of the list object (index within the bounds)"""
        o = self.heap[lst.oid]
        names = list(o.cols)
        if names == ['']:
            return o.cols[''][i]
        if names and all(n.startswith('(') for n in names):
            return tuple(o.cols[f'({k})'][i] for k in range(len(names)))
        return self.new(Elem(lst.oid, i))

    def get(self, v, key):
        """v[key]"""
        if isinstance(v, tuple):
            if isinstance(key, int):
                if not -len(v) <= key < len(v):
                    raise Raised('IndexError')
                return v[key]
            raise Unsupported('index of a tuple')
        if isinstance(v, Words):
            n = v.len()
            k = L(key)
            if not is_int(key):
                raise Unsupported('index of words')
            if isinstance(key, int) and key < 0:
                for m in range(1, 8):
                    if self.branch(n == m):
                        k = z3.IntVal(m + key)
                        break
                else:
                    raise Unsupported('word counted from the end')
                if k.as_long() < 0:
                    raise Raised('IndexError')
                return v.at(k)
            if not self.branch(n > k):
                raise Raised('IndexError')
            return v.at(k)
        if isinstance(v, Lines):
            if not is_int(key):
                raise Unsupported('index of lines')
            k = v.off + L(key)
            if not self.branch(z3.And(L(key) >= 0, k < NLINES)):
                raise Raised('IndexError')
            return LINE(k)
        if not isinstance(v, Ref):
            raise Unsupported(f'index of {type(v).__name__}')
        o = self.heap[v.oid]
        if isinstance(o, Rec):
            if not isinstance(key, str):
                raise Unsupported('symbolic key')
            if key not in o.d:
                raise Raised('KeyError')
            return o.d[key]
        if isinstance(o, Elem):
            b = self.heap[o.lst]
            k = '.' + key
            if k in b.cols:
                return b.cols[k][o.idx]
            if k + '#' in b.cols:
                return self.new(SList(b.cols[k + '#'][o.idx], {c[len(k) + 1:]: a[o.idx] for c, a in b.cols.items() if c.startswith(k + '/')}))
            raise Raised('KeyError')
        if isinstance(o, SList):
            if not is_int(key):
                raise Unsupported('index of a list')
            if isinstance(key, int) and key < 0:
                if not self.branch(o.n >= -key):
                    raise Raised('IndexError')
                return self.item(v, o.n + key)
            if not self.branch(z3.And(L(key) >= 0, L(key) < o.n)):
                raise Unsupported('index outside of a list')
            return self.item(v, L(key))
        if isinstance(o, Map):
            if not self.branch(o.dom[L(key)]):
                raise Raised('KeyError')
            return self.new(MapElem(v.oid, L(key)))
        raise Unsupported(f'index of {type(o).__name__}')

    def put(self, v, key, x):
        if not isinstance(v, Ref):
            raise Unsupported('store')
        o = self.heap[v.oid]
        if isinstance(o, Rec) and isinstance(key, str):
            self.heap[v.oid] = Rec({**o.d, key: x}, o.cls)
            return
        if isinstance(o, Elem) and isinstance(key, str):
            b = self.heap[o.lst]
            k = '.' + key
            if k not in b.cols or not is_leaf(x):
                raise Unsupported('store into a list item')
            self.heap[o.lst] = SList(b.n, {**b.cols, k: z3.Store(b.cols[k], o.idx, L(x))})
            return
        if is_str(key) and (isinstance(o, Map) or isinstance(o, Rec) and not o.d and o.cls is None):
            if not (isinstance(x, Ref) and isinstance(self.heap[x.oid], SList)):
                raise Unsupported('value of a dict')
            s = self.heap[x.oid]
            if isinstance(o, Rec):
                o = Map(z3.BoolVal(False), z3.K(Str, z3.BoolVal(False)), z3.Const('no lists', z3.ArraySort(Str, I)),
                        {c: z3.Const('no items ' + c, z3.ArraySort(Str, a.sort())) for c, a in s.cols.items()})
            if set(o.cols) != set(s.cols):
                raise Unsupported('values of different kinds')
            k = L(key)
            self.heap[v.oid] = Map(z3.BoolVal(True), z3.Store(o.dom, k, z3.BoolVal(True)), z3.Store(o.n, k, s.n),
                                   {c: z3.Store(o.cols[c], k, a) for c, a in s.cols.items()})
            self.heap[x.oid] = MapElem(v.oid, k)
            return
        raise Unsupported(f'store into {type(o).__name__}')

    # -------------------------------------------------------- expressions
    def var(self, name):
        for fid in reversed(self.chain):
            f = self.frames[fid]
            if name in f:
                v = f[name]
                if isinstance(v, Junk):
                    self.ex.junk.add(name)
                    raise ReadJunk(name)
                return v
        if name in self.ex.src.names:
            n = self.ex.src.names[name]
            if isinstance(n, ast.FunctionDef):
                return Fn(n)
            if isinstance(n, ast.ClassDef):
                return Cls(name)
            if isinstance(n, tuple):
                return Mod(n[1]) if not n[1][:1].isupper() else Cls(n[1])
            return self.const(n)
        if hasattr(builtins, name):
            b = getattr(builtins, name)
            return Cls(name) if isinstance(b, type) and issubclass(b, BaseException) else Method(None, name)
        # a local variable that is not set on this path
        raise Raised('UnboundLocalError')

    def const(self, n):
        try:
            v = ast.literal_eval(n)
        except ValueError:
            return self.ev(n)
        return tuple(v) if isinstance(v, (list, set, tuple)) else v

    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.var(e.id)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Tuple(self, e):
        return tuple(self.ev(x) for x in e.elts)

    def e_List(self, e):
        r = self.new(EMPTY)
        for x in e.elts:
            self.append(r, self.ev(x))
        return r

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.heap[self.ev(v).oid]
                if not isinstance(o, Rec):
                    raise Unsupported('**')
                d.update(o.d)
                continue
            kk = self.ev(k)
            if not isinstance(kk, str):
                raise Unsupported('symbolic key')
            d[kk] = self.ev(v)
        return self.new(Rec(d))

    def e_JoinedStr(self, e):
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                self.ev(x.value)
        return Opaque()

    def e_IfExp(self, e):
        return self.ev(e.body) if self.truth(self.ev(e.test)) else self.ev(e.orelse)

    def e_BoolOp(self, e):
        v = None
        for x in e.values:
            v = self.ev(x)
            if self.truth(v) != isinstance(e.op, ast.And):
                return v
        return v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub) and is_int(v):
            return -v
        raise Unsupported('operator')

    def binop(self, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque()
        if a is None or b is None:
            raise Raised('TypeError')
        if is_int(a) and is_int(b):
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
        if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
            return a + b
        if is_str(a) and is_str(b) and isinstance(op, ast.Add):
            return z3.Function('concat', Str, Str, Str)(L(a), L(b))
        raise Unsupported('operator')

    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))

    def e_Compare(self, e):
        a = self.ev(e.left)
        r = True
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x)
            r = self.cmp(op, a, b)
            if len(e.ops) > 1:
                r = self.truth(r)
                if not r:
                    return False
            a = b
        return r

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is not None and b is not None:
                raise Unsupported('is')
            return (a is b) == isinstance(op, ast.Is)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b)
            return r if isinstance(op, ast.Eq) else (not r if isinstance(r, bool) else z3.Not(r))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.member(a, b)
            return r if isinstance(op, ast.In) else (not r if isinstance(r, bool) else z3.Not(r))
        if a is None or b is None:
            raise Raised('TypeError')
        if is_int(a) and is_int(b):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        raise Unsupported('comparison')

    def member(self, a, b):
        if isinstance(b, tuple):
            rs = [self.eq(a, x) for x in b]
            return z3.Or(*[L(r) for r in rs]) if rs else False
        if is_str(b) and isinstance(a, str):
            return contains(L(b), a) if not isinstance(b, str) else a in b
        if isinstance(b, Ref):
            o = self.heap[b.oid]
            if isinstance(o, Rec) and isinstance(a, str):
                return a in o.d
            if isinstance(o, Map):
                return o.dom[L(a)]
            if isinstance(o, Rec) and not o.d and o.cls is None:
                return False
        raise Unsupported('in')

    def e_Attribute(self, e):
        v = self.ev(e.value)
        if isinstance(v, Ref):
            o = self.heap[v.oid]
            if isinstance(o, Rec) and o.cls is not None:
                if e.attr in o.d:
                    return o.d[e.attr]
                fs, cs = self.ex.src.cls(o.cls)
                if e.attr in fs:
                    return Fn(fs[e.attr], None, None if any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fs[e.attr].decorator_list) else v)
                if e.attr in cs:
                    return self.const(cs[e.attr])
                raise Raised('AttributeError')
        if isinstance(v, Cls) and isinstance(self.ex.src.names.get(v.name), ast.ClassDef):
            fs, cs = self.ex.src.cls(v.name)
            if e.attr in cs:
                return self.const(cs[e.attr])
            if e.attr in fs:
                return Fn(fs[e.attr])
        if v is None:
            raise Raised('AttributeError')
        return Method(v, e.attr)

    def e_Subscript(self, e):
        v = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            lo, hi = (None if x is None else self.ev(x) for x in (e.slice.lower, e.slice.upper))
            if e.slice.step is not None:
                raise Unsupported('slice')
            if isinstance(v, Lines) and hi is None and z3.is_int_value(z3.simplify(v.off)) and (lo is None or is_int(lo)):
                return Lines(z3.simplify(v.off + L(lo if lo is not None else 0)))
            if is_str(v):
                return self.text_slice(v, lo, hi)
            if isinstance(v, Words) and v.extra:
                v = self.known(v)
            if isinstance(v, Words) and hi is None and (lo is None or isinstance(lo, int) and lo >= 0):
                return Tail(v, lo or 0)
            if isinstance(v, Words) and all(x is None or isinstance(x, int) for x in (lo, hi)):
                v = self.known(v)
            if isinstance(v, tuple) and all(x is None or isinstance(x, int) for x in (lo, hi)):
                return v[lo:hi]
            raise Unsupported('slice')
        return self.get(v, self.ev(e.slice))

    def known(self, v):
        """the words as a tuple"""
        for m in range(9 if v.k is None else v.k + 2):
            if self.branch(v.len() == m):
                return tuple(v.at(z3.IntVal(i)) for i in range(m))
        raise Unsupported('a long list of words')

    def text_slice(self, v, lo, hi):
        raise Unsupported('slice of a text')

    def e_GeneratorExp(self, e):
        if len(e.generators) != 1:
            raise Unsupported('generators')
        g = e.generators[0]
        it = self.ev(g.iter)
        if isinstance(it, Words):
            it = self.known(it)
        if not isinstance(it, tuple):
            raise Unsupported('generator over a symbolic list')
        out = []
        fid = self.push_scope()
        try:
            for x in it:
                self.assign(g.target, x)
                if all(self.truth(self.ev(c)) for c in g.ifs):
                    out.append(self.ev(e.elt))
        finally:
            self.pop_scope(fid)
        return tuple(out)

    e_ListComp = e_GeneratorExp

    def push_scope(self):
        self.nid += 1
        fid = f'f{self.ns}{self.nid}'
        self.frames[fid] = {}
        self.chain = self.chain + [fid]
        return fid

    def pop_scope(self, fid):
        self.chain = self.chain[:-1]
        del self.frames[fid]

    # -------------------------------------------------------- calls
    def e_Call(self, e):
        f = self.ev(e.func)
        if isinstance(f, Method) and f.v is None and f.name in ('any', 'all') and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.any_all(f.name == 'any', e.args[0])
        if isinstance(f, Method) and f.v is None and f.name == 'next' and isinstance(e.args[0], ast.GeneratorExp):
            r = self.search_expr(e.args[0])
            if r is None:
                raise Unsupported('next')
            if r[0]:
                return r[1]
            if len(e.args) < 2:
                raise Raised('StopIteration')
            return self.ev(e.args[1])
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                if isinstance(v, Words):
                    v = self.known(v)
                if not isinstance(v, tuple):
                    raise Unsupported('*')
                args += list(v)
            else:
                args.append(self.ev(x))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported('**')
            kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw)

    def any_all(self, isany, e):
        g = e.generators[0]
        it = self.ev(g.iter)
        if isinstance(it, (Ref, Rev)):
            r = self.search_expr(e, isany)
            if r is None:
                raise Unsupported('any')
            return isany if r[0] else not isany
        if isinstance(it, Words):
            it = self.known(it)
        if len(e.generators) != 1 or not isinstance(it, tuple):
            raise Unsupported('any over a symbolic list')
        fid = self.push_scope()
        try:
            for x in it:
                self.assign(g.target, x)
                if all(self.truth(self.ev(c)) for c in g.ifs) and self.truth(self.ev(e.elt)) == isany:
                    return isany
            return not isany
        finally:
            self.pop_scope(fid)

    def call(self, f, args, kw):
        if isinstance(f, Fn):
            if f.node.name in self.ex.contracts and f.self_ is not None:
                return self.ex.contracts[f.node.name](self, *args, **kw)
            return self.run_fn(f, args, kw)
        if isinstance(f, Cls):
            return Rec({}, f.name)     # an exception
        if isinstance(f, Method):
            return self.method(f.v, f.name, args, kw)
        raise Unsupported(f'call of {type(f).__name__}')

    def run_fn(self, f, args, kw):
        self.ex.functions.add(f'{self.ex.src.mod}.{f.node.name}')
        a = f.node.args
        if a.vararg or a.kwarg or a.posonlyargs:
            raise Unsupported('parameters')
        names = [x.arg for x in a.args] + [x.arg for x in a.kwonlyargs]
        args = ([f.self_] if f.self_ is not None else []) + list(args)
        env = dict(zip([x.arg for x in a.args], args))
        env.update(kw)
        for x, d in list(zip(reversed(a.args), reversed(a.defaults))) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if x.arg not in env:
                env[x.arg] = self.const(d)
        if set(env) != set(names) or len(args) > len(a.args):
            raise Unsupported('arguments')
        if len(self.depth) > 12:
            raise Unsupported('recursion')
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) for x in ast.walk(f.node)):
            raise Unsupported('generator')
        self.nid += 1
        fid = f'f{self.ns}{self.nid}'
        self.frames[fid] = env
        old = getattr(self, 'chain', [])
        self.chain = (list(f.fid) if f.fid else []) + [fid]
        self.depth.append(f.node.name)
        try:
            self.block(f.node.body)
            return None
        except Return as r:
            return r.args[0]
        finally:
            self.depth.pop()
            self.chain = old
            if not any(isinstance(x, ast.FunctionDef) for x in ast.walk(f.node) if x is not f.node):
                self.frames.pop(fid, None)

    def method(self, v, name, args, kw):
        n = len(args)
        if v is None:
            return self.builtin(name, args, kw)
        if isinstance(v, Mod):
            return self.modcall(v.name, name, args, kw)
        if is_str(v):
            t = L(v)
            if name == 'startswith' and n == 1:
                ps = args[0] if isinstance(args[0], tuple) else (args[0],)
                if not all(isinstance(p, str) for p in ps):
                    raise Unsupported('symbolic prefix')
                return z3.Or(*[starts(t, p) for p in ps])
            if name == 'strip' and n == 0:
                return strip(t)
            if name == 'split':
                k = kw.get('maxsplit', args[1] if n > 1 else -1)
                if args == ['\n'] and not kw:
                    return Rec({'text': t}, 'lines of text')
                if n and args[0] is not None or set(kw) - {'maxsplit'} or not isinstance(k, int):
                    raise Unsupported('split')
                w = Words(t, None if k < 0 else k)
                w.own = id(self)        # made on this path, so it may be changed
                return w
            if name == 'lower' and n == 0:
                return z3.Function('lower', Str, Str)(t)
            if name == 'isspace' and n == 0:
                return z3.And(t != lit(''), strip(t) == lit(''))
            if name == 'splitlines' and not args:
                return Rec({'text': t}, 'str.splitlines')      # also splits at U+2028 and others
        if isinstance(v, Words) and not isinstance(v, Tail) and name == 'append' and n == 1 and is_str(args[0]) and v.own == id(self):
            v.extra.append(args[0])
            return None
        if isinstance(v, Ref):
            o = self.heap[v.oid]
            if name == 'append' and n == 1 and isinstance(o, (SList, MapElem)):
                self.append(v, args[0])
                return None
            if isinstance(o, Rec) and name == 'get' and isinstance(args[0], str):
                return o.d.get(args[0], args[1] if n > 1 else None)
            if isinstance(o, Rec) and name == 'update' and o.cls is None:
                d = dict(o.d)
                for x in args:
                    y = self.heap[x.oid]
                    if not isinstance(y, Rec):
                        raise Unsupported('update')
                    d.update(y.d)
                self.heap[v.oid] = Rec({**d, **kw})
                return None
            if isinstance(o, Elem) and name == 'update' and not args:
                for k, x in kw.items():
                    self.put(v, k, x)
                return None
        if isinstance(v, Regex) and name in ('search', 'match') and n == 1 and is_str(args[0]):
            return self.regex(name, v.p, args[0])
        if isinstance(v, Match) and name == 'group' and n == 1 and isinstance(args[0], int):
            return z3.Function(f'group {args[0]} of {v.p}', Str, Str)(v.t)
        if isinstance(v, File):
            if name == 'read' and not args:
                k = self.pick(3)
                if k:
                    raise Raised(('OSError', 'UnicodeDecodeError')[k - 1])
                return z3.Function('text of file', Str, Str)(v.fn)
        raise Unsupported(f'method {name}')

    def regex(self, how, p, t):
        if self.branch(z3.Function(f'{how} {p}', Str, B)(L(t))):
            return Match(p, L(t))
        return None

    def modcall(self, mod, name, args, kw):
        if mod == 're' and name == 'compile' and len(args) == 1 and isinstance(args[0], str):
            return Regex(args[0])
        if mod == 're' and name in ('search', 'match') and len(args) == 2 and isinstance(args[0], str):
            return self.regex(name, args[0], args[1])
        if mod == 'log' and name in ('debug', 'warn', 'err', 'note', 'set_verbosity'):
            return None
        raise Unsupported(f'{mod}.{name}')

    def builtin(self, name, args, kw):
        n = len(args)
        if name == 'int' and n and is_str(args[0]) and args[1:] == [0] and not kw:
            t = L(args[0])
            if not self.branch(ISINT(t)):
                raise Raised('ValueError')
            return TOINT(t)
        if name == 'len' and n == 1:
            v = args[0]
            if isinstance(v, tuple):
                return len(v)
            if isinstance(v, Words):
                return v.len()
            if isinstance(v, Lines):
                return z3.If(NLINES > v.off, NLINES - v.off, 0)
            if isinstance(v, Ref) and isinstance(self.heap[v.oid], SList):
                return self.heap[v.oid].n
        if name == 'enumerate':
            s = kw.get('start', args[1] if n > 1 else 0)
            it = self.iter(args[0])
            if it.elems is not None:
                return tuple((s + i, x) for i, x in enumerate(it.elems))
            return Iter(it.lo, it.hi, ('enum', it.kind), (s, it.lo, it.args))
        if name == 'range' and all(is_int(a) for a in args) and n in (1, 2):
            lo, hi = (0, args[0]) if n == 1 else args
            return Iter(L(lo), L(hi), 'range')
        if name == 'reversed' and n == 1:
            return Rev(args[0])
        if name == 'list' and n == 1 and isinstance(args[0], tuple):
            return args[0]
        if name == 'tuple' and n == 1 and isinstance(args[0], tuple):
            return args[0]
        if name == 'dict' and n <= 1:
            d = dict(self.heap[args[0].oid].d) if n else {}
            return self.new(Rec({**d, **kw}))
        if name == 'bool' and n == 1:
            return self.truth(args[0])
        if name == 'map' and n == 2 and isinstance(args[1], (tuple, Words)):
            xs = self.known(args[1]) if isinstance(args[1], Words) else args[1]
            return tuple(self.call(args[0], [x], {}) for x in xs)
        if name in ('hex', 'repr', 'str') and n == 1:
            if args[0] is None and name == 'hex':
                raise Raised('TypeError')
            return Opaque()
        if name in ('any', 'all') and n == 1 and isinstance(args[0], tuple):
            for x in args[0]:
                if self.truth(x) == (name == 'any'):
                    return name == 'any'
            return name != 'any'
        if name == 'open' and n >= 1 and is_str(args[0]):
            enc = kw.get('encoding', args[3] if n > 3 else None)
            mode = kw.get('mode', args[1] if n > 1 else 'r')
            if set(kw) - {'encoding', 'mode'} or n > 2:
                raise Unsupported('open')
            if self.pick(2):
                raise Raised('OSError')
            if enc not in ('utf-8', 'utf8', 'UTF-8') or mode not in ('r', 'rt'):
                return File(z3.Function(f'other file {enc} {mode}', Str, Str)(L(args[0])))
            return File(L(args[0]))
        raise Unsupported(f'{name}()')

    def iter(self, v):
        if isinstance(v, Iter):
            return v
        if isinstance(v, tuple):
            return Iter(0, len(v), None, (), list(v))
        if isinstance(v, Lines):
            return Iter(v.off, NLINES, 'lines')
        if isinstance(v, Ref) and isinstance(self.heap[v.oid], SList):
            return Iter(z3.IntVal(0), self.heap[v.oid].n, 'list', (v,))
        raise Unsupported(f'iteration over {type(v).__name__}')

    # -------------------------------------------------------- statements
    def block(self, ss):
        for s in ss:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Unsupported(f'statement {type(s).__name__}')
            m(s)

    def s_Expr(self, s):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Break(self, s):
        raise Break()

    def s_Continue(self, s):
        raise Continue()

    def s_Return(self, s):
        raise Return(None if s.value is None else self.ev(s.value))

    def s_Assert(self, s):
        if not self.truth(self.ev(s.test)):
            raise Raised('AssertionError')

    def s_FunctionDef(self, s):
        self.frames[self.chain[-1]][s.name] = Fn(s, tuple(self.chain))

    def s_Raise(self, s):
        if s.exc is None:
            raise Raised(getattr(self, 'handling', None) or 'RuntimeError')
        v = self.ev(s.exc)
        name = v.name if isinstance(v, Cls) else v.cls if isinstance(v, Rec) else None
        if name is None:
            raise Unsupported('raise')
        raise Raised(name)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        old = self.ev(ast.copy_location(ast.Name(s.target.id, ast.Load()), s)) if isinstance(s.target, ast.Name) else None
        if isinstance(s.target, ast.Name):
            self.assign(s.target, self.binop(s.op, old, self.ev(s.value)))
        elif isinstance(s.target, ast.Subscript):
            o, k = self.ev(s.target.value), self.ev(s.target.slice)
            self.put(o, k, self.binop(s.op, self.get(o, k), self.ev(s.value)))
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value)
            d = self.heap[o.oid]
            self.heap[o.oid] = Rec({**d.d, s.target.attr: self.binop(s.op, d.d[s.target.attr], self.ev(s.value))}, d.cls)
        else:
            raise Unsupported('augmented assignment')

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frames[self.chain[-1]][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            k = len(t.elts)
            if any(isinstance(x, ast.Starred) for x in t.elts[:-1]):
                raise Unsupported('starred target')
            if t.elts and isinstance(t.elts[-1], ast.Starred):
                if isinstance(v, Words):
                    if not self.branch(v.len() >= k - 1):
                        raise Raised('ValueError')
                    v = tuple(v.at(z3.IntVal(i)) for i in range(k - 1)) + (Tail(v, k - 1),)
                elif isinstance(v, tuple) and len(v) >= k - 1:
                    v = v[:k - 1] + (v[k - 1:],)
                else:
                    raise Unsupported('starred target')
                t = ast.Tuple(t.elts[:-1] + [t.elts[-1].value])
            if isinstance(v, Words):
                if not self.branch(v.len() == k):
                    raise Raised('ValueError')
                v = tuple(v.at(z3.IntVal(i)) for i in range(k))
            if not isinstance(v, tuple):
                raise Unsupported('unpacking')
            if len(v) != k:
                raise Raised('ValueError')
            for x, y in zip(t.elts, v):
                self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            self.put(self.ev(t.value), self.ev(t.slice), v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            d = self.heap[o.oid]
            if not isinstance(d, Rec) or d.cls is None:
                raise Unsupported('attribute')
            self.heap[o.oid] = Rec({**d.d, t.attr: v}, d.cls)
        else:
            raise Unsupported('target')

    def s_If(self, s):
        self.block(s.body if self.truth(self.ev(s.test)) else s.orelse)

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if not isinstance(v, File):
                raise Unsupported('with')
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
        self.block(s.body)

    def s_Try(self, s):
        try:
            try:
                self.block(s.body)
            except Raised as x:
                bs = self.ex.src.bases(x.name)
                for h in s.handlers:
                    ts = [] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    if h.type is None or any((t.id if isinstance(t, ast.Name) else t.attr) in bs for t in ts):
                        if h.name:
                            self.frames[self.chain[-1]][h.name] = Opaque()
                        old, self.handling = getattr(self, 'handling', None), x.name
                        self.block(h.body)
                        self.handling = old
                        return
                raise
            else:
                self.block(s.orelse)
        finally:
            if s.finalbody:
                raise Unsupported('finally')

    # -------------------------------------------------------- loops
    def s_For(self, s):
        i = s.iter
        if isinstance(i, ast.Subscript) and isinstance(i.slice, ast.Slice) and i.slice.step is not None and ast.unparse(i.slice) == '::-1':
            v = self.ev(i.value)
            if not isinstance(v, (Ref, tuple)):
                raise Unsupported('slice')
            v = Rev(v)
        else:
            v = self.ev(i)
        if isinstance(v, Rev):
            if isinstance(v.v, tuple):
                v = tuple(reversed(v.v))
            else:
                return self.search(s, v.v, True)
        it = self.iter(v)
        if it.elems is not None:
            for x in it.elems:
                self.assign(s.target, x)
                try:
                    self.block(s.body)
                except Continue:
                    pass
                except Break:
                    return
            self.block(s.orelse)
            return
        if s.orelse:
            raise Unsupported('else of a loop')
        from lockstep import lockstep
        lockstep(self, s, it)

    def clone(self, ns):
        def make(r):
            r.pc, r.heap, r.frames, r.spec = list(self.pc), dict(self.heap), {k: dict(v) for k, v in self.frames.items()}, dict(self.spec)
            r.chain, r.depth, r.nid = list(self.chain), list(self.depth), 0
        return make

    def find_item(self, lst, rev, key, stops, own):
        """index of the first item at which stops(run, item) says so, or None; the others must not change the state"""
        if not isinstance(lst, Ref) or not isinstance(self.heap[lst.oid], SList):
            raise Unsupported('search')
        n = self.heap[lst.oid].n
        ns = f'{self.ns}S{key}.{"".join(map(str, map(int, self.taken)))}.'
        make = self.clone(ns)
        j = z3.Const('j!' + ns, I)
        base = len(self.pc)

        def body(r):
            make(r)
            r.assume(z3.And(j >= 0, j < n))
            x = r.item(lst, j)
            h, f = dict(r.heap), {k: dict(v) for k, v in r.frames.items()}
            try:
                if stops(r, x):
                    return True
            except (Raised, Return):
                raise Unsupported('a search loop that is left in another way')
            if any(r.heap.get(k) is not v for k, v in h.items()) or any(
                    r.frames[k].get(a) is not b for k, v in f.items() for a, b in v.items() if a not in own) or any(
                    set(r.frames[k]) - own != set(v) - own for k, v in f.items()):
                raise Unsupported('a search loop that changes the state')
            return False
        if not self.feasible():
            raise Infeasible()
        c = []
        for r, found in self.ex.paths(body, ns, inner=True):
            if found:
                c.append(z3.And(*r.pc[base + 1:]) if len(r.pc) > base + 1 else z3.BoolVal(True))
        cond = z3.Or(*c) if c else z3.BoolVal(False)
        k = z3.Const('k!' + ns, I)
        no = lambda lo, hi: z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), z3.Not(z3.substitute(cond, (j, k)))))
        if self.pick(2):
            self.assume(no(z3.IntVal(0), n))
            return None
        w = self.fresh(I, 'w')
        self.assume(z3.And(w >= 0, w < n, z3.substitute(cond, (j, w)), no(w + 1, n) if rev else no(z3.IntVal(0), w)))
        if not self.feasible():
            raise Infeasible()
        return w

    def search(self, s, lst, rev):
        """a loop that looks for an item: every iteration leaves the loop or changes nothing"""
        def stops(r, x):
            r.assign(s.target, x)
            try:
                r.block(s.body)
            except Continue:
                pass
            except Break:
                return True
            return False
        w = self.find_item(lst, rev, s.lineno, stops, {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)})
        if w is None:
            self.block(s.orelse)
            return
        self.assign(s.target, self.item(lst, w))
        try:
            self.block(s.body)
        except Break:
            return
        raise Infeasible()

    def search_expr(self, e, isany=None):
        """the first item of a generator over a list: (found, value); isany: look for an item with this truth instead"""
        g = e.generators[0]
        v = self.ev(g.iter)
        rev = isinstance(v, Rev)
        lst = v.v if rev else v
        if len(e.generators) != 1 or not isinstance(lst, Ref):
            return None
        own = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}

        def stops(r, x):
            fid = r.push_scope()
            try:
                r.assign(g.target, x)
                return all(r.truth(r.ev(c)) for c in g.ifs) and (isany is None or r.truth(r.ev(e.elt)) == isany)
            finally:
                r.pop_scope(fid)
        w = self.find_item(lst, rev, f'{e.lineno}.{e.col_offset}', stops, own)
        if w is None:
            return False, None
        if isany is not None:
            return True, None
        fid = self.push_scope()
        try:
            self.assign(g.target, self.item(lst, w))
            return True, self.ev(e.elt)
        finally:
            self.pop_scope(fid)


NLINES = z3.Int('input number of lines')
LINE = z3.Function('line', I, Str)
