"""Summaries of for loops.

A loop runs over a finite family of keys. Its summary is an inductive invariant, inferred by guessing how every part
(leaf) of the changed state depends on the keys already visited and weakening the guess until the solver proves that one
arbitrary iteration, started in an arbitrary state that satisfies the invariant, re-establishes it:

  same      the leaf is not changed
  point     the leaf at the own key of an iteration is set by that iteration to a value that depends on the state before
            the loop only; at other keys it is untouched
  create    the leaf has a fixed value as soon as it exists
  union     (truth values) the iteration k adds the condition c(k)
  inter     (truth values) the iteration k requires the condition c(k)
  add       (numbers) the iteration k adds d(k)
  sum       as add, with the exact partial sum as the invariant
  some      the leaf has the value f(k) for one of the iterations that created it
  order     (dict order) keys are in the order of the iteration
  append    (lists) the iteration k appends fixed items
  any       nothing is known

Loops left by break or return are summarised by their first key that leaves them."""
import os

import z3

from engine import (DEBUG, Exit, Out, Star, Tok, closure, exists_keys, gen_loc, gen_share, compat, loc_key, pair_key,
                    unexclude)
from logic import (LAST, Unsupported, b_and, b_implies, b_ite, b_not, b_or, eqt, free_vars, fresh_var, funcs, is_z3, lift, mk_exists,
                   mk_existss, mk_forall, mk_sums, sort_of, sub, valid, witnesses)
from values import (Choice, Empty, Lost, Map, Rec, Ref, Seg, Seq, SetV, Tup, Undef, UndefT, build, chain_leaf, default, is_leaf, ite, join, leaves,
                    norm, schema, seg_same, subst, value_eq)
from logic import _n
from values import GROUP, get as vget, put as vput

MAXROUNDS = 60


def dbg(*a):
    if DEBUG:
        print('   ' * DEPTH[0], *a, flush=True)


DEPTH = [0]
ACTIVE = []       # the loops around the current statement


def isk(sort, *kinds):
    return isinstance(sort, str) and sort in kinds


def sch_key(s):
    if s is None:
        return None
    if s[0] == 'rec':
        return ('rec', tuple((n, sch_key(x), o) for n, (x, o) in sorted(s[1].items())))
    if s[0] == 'map':
        return ('map', s[1].name(), sch_key(s[2]), s[3])
    if s[0] == 'seq':
        return ('seq', tuple((tuple(y.name() for y in srt), sch_key(x), o) for srt, x, o in s[1]))
    if s[0] == 'tup':
        return ('tup', tuple(sch_key(x) for x in s[1]))
    if s[0] in ('leaf', 'set'):
        return (s[0], s[1].name() if s[1] is not None else None)
    return s


class Comp:
    """one changed component of the state: a part of an object ('h', rid, path) or a variable ('v', frame, name)"""
    def __init__(self, cid, S):
        self.cid, self.S = cid, S
        self.sch = schema(S)
        self.modes = {}      # pattern -> mode
        self.tries, self.retry = {}, {}
        self.lv = None
        self.writes = None   # [(pattern, keys, mutate)] of all writes, None: unknown

    def touched(self, pat):
        if self.writes is None:
            return True
        return any(touches(w[0], w[2], pat) for w in self.writes)


def touches(w, mutate, pat):
    n = min(len(w), len(pat))
    if w[:n] == pat[:n] and (len(pat) >= len(w)):
        return True
    if mutate:
        return False
    return len(pat) == len(w) and pat[:-1] == w[:-1] and pat[-1][0] in ('dom', 'ord', 'has', 'sdom') and (pat[-1][0] != 'has' or w[-1] == ('f', pat[-1][1]))


def relative(path):
    """pattern and keys of a path"""
    pat, keys = [], []
    for s in path:
        if s[0] == 'k':
            pat.append(('k',))
            keys.append(s[1])
        elif s[0] == 's':
            pat.append(('s', s[1]))
            keys += list(s[2])
        else:
            pat.append(s)
    return tuple(pat), tuple(keys)


def unstable(x, n0):
    """the term may differ between iterations"""
    if isinstance(x, Star):
        return True
    if not is_z3(x):
        return False
    for n in funcs(x) | {v.decl().name() for v in free_vars(x)}:
        i = n.rfind('!')
        if i > 0 and n[i + 1:].isdigit() and int(n[i + 1:]) >= n0:
            return True
    return False


def stable_prefix(path, n0):
    for i, s in enumerate(path):
        if s[0] == 'k' and unstable(s[1], n0) or s[0] == 's' and any(unstable(x, n0) for x in s[2]):
            return path[:i]
    return path


def general(path, ctx):
    """the path with the keys that differ between iterations, except the own key, left open"""
    def g(x):
        if isinstance(x, Star):
            return Star()
        if is_z3(x) and any(x.eq(k) for k in ctx.ks):
            return x
        return Star() if unstable(x, ctx.n0) else x
    return tuple(('k', g(s[1])) if s[0] == 'k' else ('s', s[1], tuple(g(x) for x in s[2])) if s[0] == 's' else s for s in path)


STRUCT = ('dom', 'has', 'sdom', 'in')


class Ctx:
    def __init__(self, eng, st, fam, node):
        self.eng, self.st, self.fam, self.node = eng, st, fam, node
        self.n0 = next(_n)
        self.ks = tuple(fresh_var(s, 'k') for s in fam.sorts)
        self.comps = {}
        self.temps = set()
        self.hn = set()
        self.hfun = {}
        self.shares, self.poison = [], []
        self.sharek, self.poisonk = set(), set()
        self.log, self.logk = [], set()
        self.paths = {}
        self.vis = None
        self.restart = False
        if fam.before is None:
            n = f'vis!{next(_n)}'
            self.vis = z3.Function(n, *fam.sorts, z3.BoolSort())
            self.hn.add(n)

    def visited(self, js):
        js = tuple(lift(j) for j in js)
        if all(j.eq(k) for j, k in zip(js, self.ks)):
            return False
        d = self.fam.dom(js)
        if self.vis is not None:
            return b_and(d, self.vis(*js))
        return b_and(d, self.fam.before(js, self.ks))

    def H(self, comp, pat, keys, sort):
        """the unknown intermediate value of a leaf"""
        kid = (id(comp), pat)
        if kid not in self.hfun:
            n = f'h!{next(_n)}'
            self.hfun[kid] = z3.Function(n, *[lift(k).sort() for k in keys], sort) if keys else z3.Const(n, sort)
            self.hn.add(n)
        f = self.hfun[kid]
        return f(*[lift(k) for k in keys]) if keys else f

    # ---------------------------------------------------------- the intermediate state
    def leafval(self, comp):
        ctx = self

        class LV:
            def __init__(self):
                self.memo = {}

            def __call__(self, pat, keys):
                ks = tuple(lift(k) for k in keys)
                i = ('v', pat) + tuple(k.get_id() for k in ks)
                r = self.memo.get(i)
                if r is None:
                    r = self.memo[i] = (self.value(pat, keys), ks)
                return r[0]

            def value(self, pat, keys):
                sort = comp.sorts[pat]
                if isk(sort, 'other', 'none', 'empty'):
                    return ctx.other(comp, pat, keys)
                if isk(sort, 'seqx'):
                    return ctx.seq_h(comp, pat, keys)
                mode = comp.modes.get(pat, ('same',))
                c = self.chain(pat, keys)
                if c is False:
                    return default(sort)
                return b_ite(c, ctx.hterm(comp, pat, keys, sort, mode), default(sort))

            def chain(self, pat, keys):
                """the leaf exists (in the intermediate state)"""
                c, n = True, 0
                for i, s in enumerate(pat[:-1] if pat and pat[-1][0] in STRUCT + ('ord', 'sord') else pat):
                    if s[0] == 'k':
                        n += 1
                        c = b_and(c, self.raw(pat[:i] + (('dom',),), keys[:n]))
                    elif s[0] == 's':
                        n += comp.seqkeys[pat[:i] + (s,)]
                        c = b_and(c, self.raw(pat[:i] + (('sdom', s[1]),), keys[:n]))
                    elif s[0] == 'f' and pat[:i] + (('has', s[1]),) in comp.sorts:
                        c = b_and(c, self.raw(pat[:i] + (('has', s[1]),), keys[:n]))
                if pat and pat[-1][0] == 'ord':
                    n2 = len(keys) - 2
                    d = pat[:-1] + (('dom',),)
                    c = b_and(c, self.raw(d, keys[:n2] + keys[n2:n2 + 1]), self.raw(d, keys[:n2] + keys[n2 + 1:]))
                return c

            def raw(self, pat, keys):
                ks = tuple(lift(k) for k in keys)
                i = ('r', pat) + tuple(k.get_id() for k in ks)
                r = self.memo.get(i)
                if r is None:
                    r = self.memo[i] = (self.raw_value(pat, keys), ks)
                return r[0]

            def raw_value(self, pat, keys):
                sort = comp.sorts[pat]
                if isk(sort, 'other'):
                    return comp.others.get(pat, True)
                return ctx.hterm(comp, pat, keys, sort, comp.modes.get(pat, ('same',)))

            def keeps(self, pat):
                return True
        return LV()

    def other(self, comp, pat, keys):
        """a value whose kind is not fixed, or that is always None or {}"""
        if not comp.touched(pat):
            c, v = chain_leaf(comp.S, pat, keys)
            return v
        return comp.others.get(pat, Lost('unknown kind of value'))

    def hterm(self, comp, pat, keys, sort, mode):
        m = mode[0]
        if m == 'same':
            return norm(comp.S, pat, keys, sort)
        if m == 'point':
            js = tuple(keys[j] for j in mode[1])
            v = self.visited(js)
            s = norm(comp.S, pat, keys, sort)
            return b_ite(v, self.H(comp, pat, keys, sort), s) if v is not False else s
        if m == 'create':
            sc, sv = chain_leaf(comp.S, pat, keys)
            g = mode[1](keys)
            return b_ite(sc, sv, g) if sc is not False and sv is not Undef else g
        if m == 'union':
            return b_or(norm(comp.S, pat, keys, sort), self.H(comp, pat, keys, sort))
        if m == 'inter':
            return b_and(norm(comp.S, pat, keys, sort), self.H(comp, pat, keys, sort))
        if m == 'sum':
            js = tuple(fresh_var(s, 'j') for s in self.fam.sorts)
            return lift(norm(comp.S, pat, keys, sort)) + mk_sums(js, self.visited(js), mode[1](js, keys))
        if m == 'order':
            return self.fam.before((keys[-2],), (keys[-1],))
        if m == 'some':
            sc, sv = chain_leaf(comp.S, pat, keys)
            h = self.H(comp, pat, keys, sort)
            return b_ite(sc, sv, h) if sc is not False and sv is not Undef and not isinstance(sv, Lost) else h
        return self.H(comp, pat, keys, sort)

    def seq_h(self, comp, pat, keys):
        mode = comp.modes.get(pat)
        c, s = chain_leaf(comp.S, pat, keys)
        base = s.segs if isinstance(s, Seq) else ()
        if mode is None:
            return Seq(base)
        if mode[0] != 'append':
            return Lost('list')
        return Seq(tuple(base) + self.gen_segs(mode[1], keys, self.visited))

    def gen_segs(self, news, keys, vis):
        """the appended items of all visited iterations"""
        nk = len(self.ks)
        out = []
        fo = self.fam.before
        group = ((next(GROUP), nk, fo and (lambda a, b: fo(a[:nk], b[:nk]))),) if len(news) > 1 and nk else ()
        for sorts, dom, elem, before, inner in news:
            def sdom(js, dom=dom):
                return b_and(vis(js[:nk]), dom(js[:nk], keys, js[nk:]))

            def selem(js, elem=elem):
                return elem(js[:nk], keys, js[nk:])
            sb = None
            if self.fam.before is not None:
                fb = self.fam.before
                if not sorts:
                    sb = lambda a, b: fb(a[:nk], b[:nk])
                elif before is not None:
                    def sb(a, b, before=before):
                        return b_or(fb(a[:nk], b[:nk]), b_and(*[eqt(x, y) for x, y in zip(a[:nk], b[:nk])], before(a[:nk], a[nk:], b[nk:])))
            out.append(Seg(self.fam.sorts + tuple(sorts), sdom, selem, sb, group + tuple((g, nk + k, None) for g, k, _ in inner)))
        return tuple(out)

    def state(self):
        s = self.st.copy()
        for cid, c in self.comps.items():
            c.sorts, c.seqkeys, c.others = {}, {}, {}
            for pat, ksorts, sort in leaves(c.sch):
                c.sorts[pat] = sort
                if isk(sort, 'other', 'none', 'empty'):
                    c.others[pat] = None if sort == 'none' else Empty() if sort == 'empty' else Lost('mixed values')
            seqkeys(c.sch, (), c.seqkeys)
            c.lv = self.leafval(c)
            v = build(c.sch, c.lv, orig=c.S)
            self.put(s, c.cid, v)
            c.Hval = v
        for (fid, name) in self.temps:
            s.frames[fid][name] = Tok(name)
        s.shares = s.shares + tuple(self.shares)
        s.poison = s.poison + tuple(self.poison)
        d = self.fam.dom(self.ks)
        s = s.assume(d)
        if self.vis is not None:
            s = s.assume(z3.Not(self.vis(*self.ks)))
        for f in self.appended():
            s = s.assume(f)
        return s

    def appended(self):
        """the lists that earlier iterations appended to exist (check_seq shows that this is kept)"""
        out = []
        for c in self.comps.values():
            for pat, ksorts, sort in leaves(c.sch):
                mode = c.modes.get(pat)
                if not isk(sort, 'seqx') or mode is None or mode[0] != 'append' or not ksorts:
                    continue
                qs = qvars(ksorts)
                chain = c.lv.chain(pat, qs)
                if chain is True:
                    continue
                for g in self.gen_segs(mode[1], qs, self.visited):
                    js = tuple(fresh_var(x, 'x') for x in g.sorts)
                    d = g.dom(js)
                    if d is not False:
                        out.append(lift(b_not(mk_existss(qs + js, b_and(d, b_not(chain))))))
        return out

    def put(self, s, cid, v):
        if cid[0] == 'h':
            s.heap[cid[1]] = vput(s.heap[cid[1]], cid[2], lambda old: v)
        else:
            s.frames[cid[1]][cid[2]] = v

    def get(self, s, cid):
        if cid[0] == 'h':
            return vget(s.heap[cid[1]], cid[2])
        return s.frames[cid[1]].get(cid[2], Undef)

    def places(self):
        """the stable places below which the logged writes are, disjoint"""
        st = self.st
        out = {}
        for rid, path, mutate in self.log:
            p = stable_prefix(path, self.n0)
            while True:
                try:
                    v = vget(st.heap[rid], p)
                except Unsupported:
                    v = Undef
                if v is not Undef and not isinstance(v, Lost) and not (isinstance(v, (Choice,)) and len(p) < len(path)):
                    # a write at the place itself changes the container around it
                    if len(p) < len(path) or mutate or is_leaf(v) and p and p[-1][0] == 'f':
                        break
                if not p:
                    break
                p = p[:-1]
            out.setdefault(rid, []).append(p)
        res = []
        for rid, ps in out.items():
            ps = sorted(ps, key=len)
            keep = []
            for p in ps:
                merged = True
                while merged:
                    merged = False
                    for i, q in enumerate(keep):
                        if compat((rid, p), (rid, q)):
                            c = common(p, q)
                            keep.pop(i)
                            p = c
                            merged = True
                            break
                keep.append(p)
            res += [(rid, p) for p in keep]
        return res

    # ---------------------------------------------------------- terms without the unknown intermediate state
    def hfree(self, e):
        return not is_z3(e) or not (funcs(e) & self.hn)

    def free_of(self, e, hyps, check=True):
        """e, or a term equal to it that does not mention the intermediate state"""
        if not is_z3(e):
            return e
        if self.hfree(e):
            return e
        s = z3.simplify(e)
        if self.hfree(s):
            return s
        for b in (False, True):
            x = self.default_h(e, b)
            if x is not None and self.hfree(x) and (not check or valid(hyps, eqt(e, x))):
                return x
        return None

    def default_h(self, e, b, outer=False):
        pairs = []
        fs = []
        for x in ACTIVE if outer else [self]:
            fs += list(x.hfun.values()) + ([x.vis] if x.vis is not None else [])
        for f in fs:
            if isinstance(f, z3.FuncDeclRef):
                srt = f.range()
                val = z3.BoolVal(b) if srt == z3.BoolSort() else lift(default(srt))
                pairs.append((f, val))
            else:
                srt = f.sort()
                val = z3.BoolVal(b) if srt == z3.BoolSort() else lift(default(srt))
                pairs.append((f.decl(), val))
        # sums and witnesses may hide the functions: not replaced
        try:
            x = z3.substitute_funs(lift(e), *pairs)
        except z3.Z3Exception:
            return None
        x = z3.simplify(x)
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        return x


def common(p, q):
    from values import ref_eq
    n = 0
    while n < len(p) and n < len(q) and ref_eq(Ref(0, p[:n + 1]), Ref(0, q[:n + 1])):
        n += 1
    return p[:n]


def seqkeys(s, pat, out):
    if s is None:
        return
    if s[0] == 'rec':
        for n, (x, o) in s[1].items():
            seqkeys(x, pat + (('f', n),), out)
    elif s[0] == 'map':
        seqkeys(s[2], pat + (('k',),), out)
    elif s[0] == 'seq':
        for i, (srt, x, o) in enumerate(s[1]):
            out[pat + (('s', i),)] = len(srt)
            seqkeys(x, pat + (('s', i),), out)
    elif s[0] == 'tup':
        for i, x in enumerate(s[1]):
            seqkeys(x, pat + (('t', i),), out)


def run_loop(eng, st, fam, body, node, fr):
    if not fam.sorts:
        d = fam.dom(())
        if d is False:
            return Out(st)
        base = st.pc
        s0 = st.assume(d)
        o = eng.absorb_continue(s0.pc, body(s0, fam.value(())))
        if d is True:
            return o
        alts = [(b_not(d), st.assume(b_not(d)), None)]
        if o.state is not None:
            alts.append((eng.guard(base, o.state), o.state, None))
        s, _ = eng.merge(base, alts)
        return Out(s, o.exits)
    DEPTH[0] += 1
    n = len(ACTIVE)
    try:
        return run_keys(eng, st, fam, body, node, fr)
    finally:
        DEPTH[0] -= 1
        del ACTIVE[n:]


def dry_loop(eng, st, fam, body):
    """one iteration, to find out what the body writes"""
    ks = tuple(fresh_var(s, 'k') for s in fam.sorts)
    d = fam.dom(ks)
    if d is False:
        return Out(st)
    s = st.assume(d)
    o = eng.absorb_continue(s.pc, body(s, fam.value(ks)))
    alts = ([(True, o.state)] if o.state is not None else []) + [(True, x.state) for x in o.exits if x.kind == 'break']
    if not alts:
        return Out(st, [x for x in o.exits if x.kind == 'return'])
    r = alts[0][1]
    for _, x in alts[1:]:
        r, _ = eng.merge(st.pc, [(fresh_var(z3.BoolSort(), 'dry'), x, None), (True, r, None)])
    r = r.copy()
    r.pc = st.pc
    return Out(r, [x for x in o.exits if x.kind == 'return'])


def run_keys(eng, st, fam, body, node, fr):
    if eng.dry:
        return dry_loop(eng, st, fam, body)
    ctx = Ctx(eng, st, fam, node)
    ACTIVE.append(ctx)
    ks = ctx.ks
    d = fam.dom(ks)
    if d is False:
        return Out(st)
    val = fam.value(ks)
    mkey = (eng.loop_id(node), tuple(s.name() for s in fam.sorts), len(st.frames))
    memo = eng.memo.get(mkey)
    out = None
    n0 = len(eng.obligations)
    mark = len(eng.wlog)
    before = set(eng.memo)
    for rnd in range(MAXROUNDS):
        s = ctx.state()
        dry = rnd == 0
        del eng.obligations[n0:]
        if dry:
            eng.quiet += 1
            eng.dry += 1
        try:
            out = body(s, val)
            out = eng.absorb_continue(s.pc, out)
        finally:
            if dry:
                eng.quiet -= 1
                eng.dry -= 1
        if any(x.kind in ('break', 'return') for x in out.exits):
            del eng.obligations[n0:]
            return first_match(eng, ctx, st, fam, body, node, fr)
        ok = step(eng, ctx, st, s, out, memo, mark, dry)
        if ok and not dry:
            break
        if ctx.restart:
            # inner loops were judged with a wrong structure of the state
            for k in set(eng.memo) - before:
                if any(m[0] in ('any', 'append') for c in eng.memo[k] for m in c[2].values()):
                    del eng.memo[k]
            ctx.restart = False
    else:
        raise Unsupported(f'no invariant found for the loop at line {getattr(node, "lineno", "?")}')
    eng.memo[mkey] = [(c.cid[0], sch_key(c.sch), {p: copy_mode(m) for p, m in c.modes.items()}, dict(c.tries)) for c in ctx.comps.values()]
    dbg('rounds', rnd + 1, 'line', getattr(node, 'lineno', '?'))
    return post(eng, ctx, st, out, body, val)


def copy_mode(m):
    return tuple({} if isinstance(x, dict) and m[0] != 'append' else x for x in m)


def within(v, path, mutate):
    """a write to an item appended in the loop is a change of the list"""
    for i, step_ in enumerate(path):
        if step_[0] == 's':
            try:
                x = vget(v, path[:i])
            except Unsupported:
                return path, mutate
            if isinstance(x, Seq) and step_[1] >= len(x.segs):
                return path[:i], True
    return path, mutate


def step(eng, ctx, st, s, out, memo, mark, dry):
    """extend the set of changed components, their schema and modes; True if the invariant is established"""
    A = out.state
    if A is None:
        return True       # every iteration raises
    for rid, t in A.fwd.items():
        if rid in st.heap and rid not in st.fwd:
            raise Unsupported('object created before the loop is stored inside of it')
    grown = False
    fresh = False
    for rid, path, mutate in eng.wlog[mark:]:
        if rid not in st.heap or rid in st.fwd:
            continue
        path = general(path, ctx)
        path, mutate = within(st.heap[rid], path, mutate)
        k = loc_key((rid, path)) + str(mutate)
        if k not in ctx.logk:
            ctx.logk.add(k)
            ctx.log.append((rid, path, mutate))
            fresh = True
    if fresh:
        for rid in st.heap:
            if rid not in st.fwd and A.heap.get(rid) is not s.heap.get(rid) and not any(l[0] == rid for l in ctx.log):
                raise AssertionError('change of the state that was not logged')
        places = ctx.places()
        cids = {('h', r, loc_key((r, p))): (r, p) for r, p in places}
        old = {k: c for k, c in ctx.comps.items() if k[0] == 'h'}
        if set(old) != set(cids):
            grown = True
            for k in old:
                del ctx.comps[k]
            for k, (r, p) in cids.items():
                c = old.get(k)
                if c is None:
                    S = vget(st.heap[r], p)
                    c = Comp(('h', r, p), S)
                ctx.comps[k] = c
        for k, (r, p) in cids.items():
            c = ctx.comps[k]
            w = []
            for rid, path, mutate in ctx.log:
                if rid == r and len(path) >= len(p) and common(path, p) == p:
                    pat, keys = relative(path[len(p):])
                    w.append((pat, keys, mutate))
            if c.writes is None or len(w) != len(c.writes):
                c.writes = w
                grown = True
    for k, c in ctx.comps.items():
        if k[0] != 'h':
            continue
        j = join(c.sch, schema(ctx.get(A, c.cid)))
        if sch_key(j) != sch_key(c.sch):
            c.sch = j
            grown = True
    for fid, f in st.frames.items():
        af = A.frames.get(fid, {})
        for name in list(af):
            v, h = af[name], s.frames[fid].get(name, Undef)
            if v is h or (fid, name) in ctx.temps:
                continue
            v = eng.resolve_deep(A, v)
            s0 = f.get(name, Undef)
            cid = ('v', fid, name)
            if cid in ctx.comps:
                if not (is_leaf(v) and sort_of(v) is not None and sort_of(v) == sort_of(ctx.comps[cid].S)):
                    del ctx.comps[cid]
                    ctx.temps.add((fid, name))
                    grown = True
                continue
            if is_leaf(v) and is_leaf(h) and sort_of(v) is not None and sort_of(v) == sort_of(h) and lift(v).eq(lift(h)):
                continue
            if isinstance(v, Ref) and isinstance(h, Ref):
                from values import ref_eq
                if ref_eq(v, eng.resolve(A, h)):
                    continue
            if value_eq(v, h):
                continue
            if is_leaf(s0) and is_leaf(v) and sort_of(v) is not None and sort_of(v) == sort_of(s0):
                ctx.comps[cid] = Comp(cid, s0)
            else:
                ctx.temps.add((fid, name))
            grown = True
    # sharing between iterations
    for kind, cur, known, kset in (('shares', A.shares, s.shares, ctx.sharek), ('poison', A.poison, s.poison, ctx.poisonk)):
        have = {(pair_key(x) if kind == 'shares' else loc_key(x)) for x in known}
        for x in cur if not dry else ():
            kx = pair_key(x) if kind == 'shares' else loc_key(x)
            if kx in have:
                continue
            locs = x if kind == 'shares' else (x,)
            if any(l[0] not in st.heap for l in locs):
                continue
            if kind == 'shares' and pair_key(tuple(unexclude(l, ctx.ks)[0] for l in x)) in have:
                continue
            loose = lambda t: unstable(t, ctx.n0)
            g = gen_share(x, ctx.ks, True, loose) if kind == 'shares' else gen_loc(x, ctx.ks, True, loose)
            gk = pair_key(g) if kind == 'shares' else loc_key(g)
            if gk in kset:
                continue
            dbg('new', kind, gk)
            kset.add(gk)
            (ctx.shares if kind == 'shares' else ctx.poison).append(g)
            grown = True
    if grown:
        if memo and dry:
            for m, c in zip(memo, ctx.comps.values()):
                if m[0] == c.cid[0] and not c.modes:
                    pats = {p for p, _, _ in leaves(c.sch)}
                    c.modes = {p: copy_mode(x) for p, x in m[2].items() if p in pats}
                    c.tries = {p: x for p, x in m[3].items() if p in pats}
        for c in ctx.comps.values():
            first_modes(ctx, c)
        ctx.restart = True
        dbg('grown', [loc_key(c.cid[1:]) if c.cid[0] == 'h' else c.cid for c in ctx.comps.values()], [n for _, n in ctx.temps])
        return False
    if dry:
        return False
    # modes
    hyps = A.pc
    for phase in (0, 1):
        bad = False
        for c in ctx.comps.values():
            after = ctx.get(A, c.cid)
            for pat, ksorts, sort in list(leaves(c.sch)):
                isstruct = isk(sort, 'seqx') or bool(pat and pat[-1][0] in STRUCT)
                if isstruct != (phase == 0) or not c.touched(pat):
                    continue
                if not check(ctx, c, after, pat, ksorts, sort, hyps):
                    bad = True
        if bad:
            if phase == 0:
                ctx.restart = True
                # values were judged with a wrong structure: start again
                for c in ctx.comps.values():
                    for pat in list(c.modes):
                        if not (pat and pat[-1][0] in STRUCT) and not isk(c.sorts.get(pat), 'seqx'):
                            del c.modes[pat]
                            c.tries.pop(pat, None)
            return False
    return True


def qvars(ksorts):
    return tuple(fresh_var(x, 'q') for x in ksorts)


def check(ctx, c, after, pat, ksorts, sort, hyps):
    """does the mode of the leaf hold? otherwise the next mode is chosen"""
    if isk(sort, 'other', 'none', 'empty'):
        return True
    if isk(sort, 'seqx'):
        return check_seq(ctx, c, after, pat, ksorts, hyps)
    qs = qvars(ksorts)
    cond, _ = chain_leaf(after, pat, qs)
    A = norm(after, pat, qs, sort)
    H = c.lv(pat, qs)
    if isinstance(A, Lost) or isinstance(H, Lost):
        c.modes[pat] = ('any',)
        return True
    mode = c.modes.get(pat, ('same',))
    if pat and pat[-1][0] == 'ord':
        d = pat[:-1] + (('dom',),)
        n = len(qs) - 2
        cond = b_and(cond, norm(after, d, qs[:n] + qs[n:n + 1], z3.BoolSort()), norm(after, d, qs[:n] + qs[n + 1:], z3.BoolSort()))
    if mode[0] in ('union', 'inter', 'add', 'sum'):
        # these speak about the value with its default where the leaf does not exist
        hyp = tuple(hyps)
    else:
        # the others about the leaf where it exists
        if cond is False:
            return True
        hyp = tuple(hyps) + ((cond,) if cond is not True else ())
        if mode[0] != 'any':
            H = ctx.hterm(c, pat, qs, sort, mode)
            if isinstance(H, Lost):
                c.modes[pat] = ('any',)
                return True
    if holds(ctx, c, after, pat, qs, sort, hyp, A, H, mode):
        return True
    nxt = propose(ctx, c, after, pat, qs, ksorts, sort, hyp, A, H, mode)
    dbg('leaf', loc_key(c.cid[1:]) if c.cid[0] == 'h' else c.cid, pat, mode[0], '->', nxt[0])
    if os.environ.get('PYVC_LEAF') and os.environ['PYVC_LEAF'] in str(pat):
        dbg('  A =', z3.simplify(lift(A)), '\n  H =', z3.simplify(lift(H)), '\n mode', mode)
    c.modes[pat] = nxt
    return False


def points(ctx, c, ksorts, pat):
    """positions of the keys that may be the own key of the iteration"""
    n = len(ctx.ks)
    limit = len(ksorts) - (2 if pat and pat[-1][0] == 'ord' else 0)
    seen = []
    for w, keys, mutate in c.writes or ():
        if not touches(w, mutate, pat):
            continue
        for i in range(0, min(len(keys), limit) - n + 1):
            if all(is_z3(keys[i + j]) and keys[i + j].eq(ctx.ks[j]) for j in range(n)):
                p = tuple(range(i, i + n))
                if p not in seen:
                    seen.append(p)
    return seen


def first_modes(ctx, c):
    """where all writes of a leaf are at the own key, that is the first guess"""
    for pat, ksorts, sort in leaves(c.sch):
        if isinstance(sort, str) or pat in c.modes or not c.touched(pat):
            continue
        pts = points(ctx, c, ksorts, pat)
        if pts:
            c.modes[pat] = ('point', pts[0], {})
            c.tries[pat] = 1


def holds(ctx, c, after, pat, qs, sort, hyp, A, H, mode):
    m = mode[0]
    if m == 'any':
        return True
    if m in ('same', 'create', 'order'):
        return valid(hyp, eqt(A, H))
    if m == 'point':
        js = tuple(qs[j] for j in mode[1])
        other = b_not(b_and(*[eqt(x, k) for x, k in zip(js, ctx.ks)]))
        if not valid(hyp + (other,), eqt(A, H)):
            return False
        q2 = list(qs)
        for j, k in zip(mode[1], ctx.ks):
            q2[j] = k
        c2, _ = chain_leaf(after, pat, q2)
        F = norm(after, pat, q2, sort)
        F = ctx.free_of(F, hyp)
        if F is None:
            return False
        mode[2]['F'] = (tuple(q2), F)
        return True
    if m in ('union', 'inter'):
        for b, outer in ((False, True), (True, True), (False, False), (True, False)):
            if outer and len(ACTIVE) < 2:
                continue
            x = ctx.default_h(lift(A), b, outer) if outer or not ctx.hfree(lift(A)) else A
            if x is None or not ctx.hfree(x):
                continue
            goal = eqt(A, b_or(H, x)) if m == 'union' else eqt(A, b_and(H, x))
            if valid(hyp, goal):
                mode[1]['c'] = (qs, x)
                return True
        return False
    if m == 'add':
        for b, outer in ((False, True), (True, True), (False, False), (True, False)):
            if outer and len(ACTIVE) < 2:
                continue
            x = lift(A) - lift(H)
            x = ctx.default_h(x, b, outer) if outer or not ctx.hfree(x) else x
            if x is None or not ctx.hfree(lift(x)):
                continue
            mode[1]['cand'] = (qs, x)
            if valid(hyp, eqt(A, lift(H) + x)):
                mode[1]['d'] = (qs, x)
                return True
        return False
    if m == 'sum':
        dl = mode[1](ctx.ks, qs)
        return valid(hyp, eqt(A, lift(H) + lift(dl)))
    if m == 'some':
        ch = c.lv.chain(pat, qs)
        sc, sv = chain_leaf(c.S, pat, qs)
        if isinstance(sv, Lost) or sc is not False and sv is Undef:
            return False
        cond, _ = chain_leaf(after, pat, qs)
        for outer in (True, False):
            if outer and len(ACTIVE) < 2:
                continue
            F = ctx.default_h(lift(A), False, outer) if outer or not ctx.hfree(lift(A)) else A
            w = ctx.default_h(lift(cond), False, outer) if is_z3(cond) and (outer or not ctx.hfree(cond)) else cond
            if F is None or w is None or not ctx.hfree(lift(F)) or not ctx.hfree(lift(w)):
                continue
            new = b_and(b_not(sc), w, eqt(A, F))
            if valid(hyp, b_or(b_and(ch, eqt(A, H)), new)):
                mode[1]['f'] = (qs, w, F)
                return True
        return False
    raise AssertionError(m)


def propose(ctx, c, after, pat, qs, ksorts, sort, hyp, A, H, mode):
    """the next weaker mode"""
    order = ['same'] + [('point', p) for p in points(ctx, c, ksorts, pat)]
    if pat and pat[-1][0] == 'ord':
        order += ['order', 'any']
    else:
        order += ['create0', 'create1', 'create2']
        if sort == z3.BoolSort():
            order += ['union']
            n = len(ctx.ks)
            if pat and pat[-1] == ('dom',) and 0 < n <= len(ksorts) and list(ksorts[-n:]) == list(ctx.fam.sorts):
                # an iteration removes its own key
                order += [('point', tuple(range(len(ksorts) - n, len(ksorts))))]
            order += ['inter']
        if sort == z3.IntSort():
            order += ['add', 'sum']
        order += ['some', 'any']
    i = c.tries.get(pat, 0)
    if not ctx.eng.order and pat and pat[-1][0] == 'ord':
        return ('any',)
    while True:
        i += 1
        if i >= len(order):
            return ('any',)
        c.tries[pat] = i
        o = order[i]
        if isinstance(o, tuple):
            return ('point', o[1], {})
        if o.startswith('create'):
            g = guess(ctx, c, after, pat, qs, sort, A, H, int(o[6:]))
            if g is None:
                continue
            return ('create', g)
        if o == 'order':
            if ctx.fam.before is None or len(ctx.fam.sorts) != 1 or ctx.fam.sorts[0] != ksorts[-1]:
                continue
            if not isinstance(chain_leaf(c.S, pat[:-1], qs)[1], (Empty, UndefT)):
                continue
            return ('order',)
        if o in ('union', 'inter', 'add', 'some'):
            return (o, {})
        if o == 'sum':
            cand = mode[1].get('cand') if mode[0] == 'add' else None
            if cand is None:
                continue
            q0, x0 = cand
            x0, k0 = lift(x0), ctx.ks
            return ('sum', lambda js, qq, q0=q0, x0=x0: sub(x0, [(a, lift(b)) for a, b in zip(k0, js)] + [(a, lift(b)) for a, b in zip(q0, qq)]))
        if o == 'any':
            return ('any',)


def branches(e, guard, out, limit=64):
    e = lift(e)
    if len(out) > limit:
        return
    if e.decl().kind() == z3.Z3_OP_ITE:
        branches(e.arg(1), b_and(guard, e.arg(0)), out, limit)
        branches(e.arg(2), b_and(guard, b_not(e.arg(0))), out, limit)
    else:
        out.append((guard, e))


def guess(ctx, c, after, pat, qs, sort, A, H, idx):
    """a closed form, in terms of the keys of the leaf only, of the value the leaf is created with"""
    from logic import conjuncts
    cands = []
    out = []
    if sort == z3.BoolSort():
        # condition that the parents are created now
        pc, _ = chain_leaf(after, pat, qs)
        if pc is True:
            return None
        for outer in (False, True):
            x = ctx.default_h(lift(A), False, outer) if outer or not ctx.hfree(lift(A)) else lift(A)
            y = ctx.default_h(lift(pc), False, outer) if outer or not ctx.hfree(lift(pc)) else lift(pc)
            if x is None or y is None:
                continue
            x, y = lift(x), lift(y)
            known = {t.get_id() for t in conjuncts(y)}
            rest = [t for t in conjuncts(x) if t.get_id() not in known]
            out.append((y, lift(b_and(*rest))))
    else:
        branches(A, True, out)
    for g, e in out:
        for t in ([e] if ctx.hfree(e) else [ctx.default_h(e, False)]):
            if t is None:
                continue
            t = lift(t)
            pairs = []
            for x in conjuncts(g):
                if z3.is_eq(x):
                    a, b = x.children()
                    for p, q in ((a, b), (b, a)):
                        if any(p.eq(v) for v in qs) and not any(q.eq(v) for v in qs) and free_of_any(q, qs):
                            pairs.append((q, p))
            t2 = z3.substitute(t, *pairs) if pairs else t
            for cand in (t2, t):
                if ctx.hfree(cand) and not any(v.eq(k) for v in free_vars(cand) for k in ctx.ks):
                    if not any(cand.eq(z) for z in cands):
                        cands.append(cand)
    if os.environ.get('PYVC_LEAF') and os.environ['PYVC_LEAF'] in str(pat):
        dbg('  cands', cands)
    if idx >= len(cands):
        return None
    g = cands[idx]
    return lambda keys: sub(g, [(q, lift(k)) for q, k in zip(qs, keys)])


def free_of_any(e, qs):
    return not any(v.eq(q) for v in free_vars(e) for q in qs)


def check_seq(ctx, c, after, pat, ksorts, hyps):
    mode = c.modes.get(pat)
    if mode and mode[0] == 'any':
        return True
    qs = qvars(ksorts)
    cond, A = chain_leaf(after, pat, qs)
    if cond is False:
        return True
    H = c.lv(pat, qs)
    hyp = tuple(hyps) + ((cond,) if cond is not True else ())

    def same(a, h):
        if seg_same(a, h):
            return True
        if a.sorts != h.sorts:
            return False
        js = tuple(fresh_var(x, 'x') for x in a.sorts)
        d = h.dom(js)
        return valid(hyp, eqt(a.dom(js), d)) and value_eq(a.elem(js), h.elem(js), lambda x, y: valid(hyp + (lift(d),), eqt(x, y)))
    if not isinstance(A, Seq) or not isinstance(H, Seq) or len(A.segs) < len(H.segs) or not all(same(a, h) for a, h in zip(A.segs, H.segs)):
        c.retry[pat] = c.retry.get(pat, 0) + 1
        if c.retry[pat] > 2:
            c.modes[pat] = ('any',)
            dbg('list', c.cid, pat, 'is not only appended to')
        return False
    chain = c.lv.chain(pat, qs)
    if cond is not True and chain is not False and not valid(hyps, b_implies(chain, cond)):
        # the invariants of the parents may not be found yet
        c.retry[pat] = c.retry.get(pat, 0) + 1
        if c.retry[pat] > 4:
            c.modes[pat] = ('any',)
            dbg('list', c.cid, pat, 'is removed')
        return False
    news = []
    for g in A.segs[len(H.segs):]:
        js = tuple(fresh_var(s, 'x') for s in g.sorts)
        dom = g.dom(js)
        if cond is not True and dom is not False and not valid(hyps, b_implies(dom, cond)):
            dom = b_and(cond, dom)
        dom = ctx.free_of(dom, hyp)
        if dom is None:
            c.modes[pat] = ('any',)
            dbg('list', c.cid, pat, 'appended under a condition that depends on the loop')
            return False
        if dom is False:
            continue
        e = hfree_value(ctx, g.elem(js), hyp + ((dom,) if dom is not True else ()))
        news.append((g.sorts, fn3(ctx.ks, qs, js, dom), fn3(ctx.ks, qs, js, e), None if g.before is None else bef3(ctx.ks, g), g.mixed))
    if mode is None:
        c.modes[pat] = ('append', news, {'n': 0})
        return False if news else True
    old = mode[1]
    ok = len(old) == len(news)
    if ok:
        for o, n in zip(old, news):
            if o[0] != n[0]:
                ok = False
                break
            js = tuple(fresh_var(s, 'x') for s in o[0])
            if not valid(hyp, eqt(o[1](ctx.ks, qs, js), n[1](ctx.ks, qs, js))):
                ok = False
                break
            if not value_eq(o[2](ctx.ks, qs, js), n[2](ctx.ks, qs, js), lambda a, b: valid(hyp + (lift(n[1](ctx.ks, qs, js)),), eqt(a, b))):
                ok = False
                break
    if ok:
        return True
    n = mode[2]['n'] + 1
    c.modes[pat] = ('append', news, {'n': n}) if n < 4 else ('any',)
    dbg('list', c.cid, pat, 'new items', len(news))
    return False


def fn3(ks, qs, js, v):
    def f(k, q, j):
        pairs = [(a, lift(b)) for a, b in list(zip(ks, k)) + list(zip(qs, q)) + list(zip(js, j)) if not a.eq(lift(b))]
        return subst(v, pairs) if pairs else v
    return f


def bef3(ks, g):
    def f(k, a, b):
        return sub(lift(g.before(a, b)), [(x, lift(y)) for x, y in zip(ks, k)])
    return f


def hfree_value(ctx, v, hyp):
    """the value with every leaf free of the intermediate state, or Lost leaves"""
    if is_z3(v):
        x = ctx.free_of(v, hyp)
        return Lost('depends on earlier iterations') if x is None else x
    if isinstance(v, Rec):
        return Rec({n: (hfree_value(ctx, c, hyp) if is_z3(c) else c, hfree_value(ctx, x, hyp)) for n, (c, x) in v.fields.items()}, v.cls)
    if isinstance(v, Tup):
        return Tup([hfree_value(ctx, x, hyp) for x in v.items])
    if isinstance(v, Map):
        q = fresh_var(v.ksort, 'q')
        d, e = hfree_value(ctx, v.dom(q), hyp), hfree_value(ctx, v.elem(q), hyp)
        if isinstance(d, Lost):
            return d
        fd, fe = closure((q,), d), closure((q,), e)
        return Map(v.ksort, lambda k: fd((lift(k),)), lambda k: fe((lift(k),)), v.before)
    if isinstance(v, Seq):
        segs = []
        for g in v.segs:
            js = tuple(fresh_var(s, 'x') for s in g.sorts)
            d, e = hfree_value(ctx, g.dom(js), hyp), hfree_value(ctx, g.elem(js), hyp)
            if isinstance(d, Lost):
                return d
            segs.append(Seg(g.sorts, closure(js, d), closure(js, e), g.before, g.mixed))
        return Seq(segs)
    if isinstance(v, Choice):
        alts = []
        for g, x in v.alts:
            g2 = hfree_value(ctx, g, hyp) if is_z3(g) else g
            if isinstance(g2, Lost):
                return g2
            alts.append((g2, hfree_value(ctx, x, hyp)))
        return Choice(alts)
    if isinstance(v, SetV):
        if v.sort is None:
            return v
        q = fresh_var(v.sort, 'q')
        d = hfree_value(ctx, v.has(q), hyp)
        if isinstance(d, Lost):
            return d
        fd = closure((q,), d)
        return SetV(v.sort, lambda k: fd((lift(k),)))
    return v


# ------------------------------------------------------------------ after the loop
def post(eng, ctx, st, out, body, val):
    fam, ks = ctx.fam, ctx.ks
    exits = []
    for x in out.exits:
        if x.kind == 'raise':
            g = eng.guard(st.pc, x.state)
            s2 = st.copy()
            cond = mk_existss(ks, g) if ctx.hfree(lift(g)) else fresh_var(z3.BoolSort(), 'raised')
            exits.append(Exit('raise', s2.assume(cond), x.value, x.node, x.exc))
    if out.state is None:
        # every iteration raises: the loop ends normally only if there is none
        none = b_not(mk_existss(ks, fam.dom(ks)))
        return Out(st.assume(none), exits)
    s = st.copy()
    for cid, c in ctx.comps.items():
        v = build(c.sch, post_leaf(ctx, c), orig=c.S)
        ctx.put(s, c.cid, v)
    for (fid, name) in ctx.temps:
        s.frames[fid][name] = Lost('value of the last iteration')
    s.shares = still_shared(eng, ctx, st, out.state) + tuple(unstar(x) for x in ctx.shares)
    s.poison = st.poison + tuple(unstar_loc(x) for x in ctx.poison)
    if exits:
        g = eng.guard(ctx_pc(ctx, st), out.state)
        if g is not True and ctx.hfree(lift(g)):
            nr = b_not(mk_existss(ks, b_and(fam.dom(ks), b_not(g))))
            s = s.assume(nr)
    return Out(s, exits)


def ctx_pc(ctx, st):
    return ctx.state().pc


def still_shared(eng, ctx, st, A):
    """the shares of the state before the loop, but for places that every iteration replaces at its own key, if it visits all keys"""
    have = {pair_key(x) for x in A.shares}
    out = []
    for p in st.shares:
        if pair_key(p) in have:
            out.append(p)
            continue
        gone = False
        for x in A.shares:
            un = [unexclude(l, ctx.ks) for l in x]
            if pair_key(tuple(u[0] for u in un)) != pair_key(p):
                continue
            gone = False
            for (l, at) in un:
                if at is None or l[0] not in st.heap:
                    continue
                m = vget(st.heap[l[0]], at)
                if isinstance(m, Map) and len(ctx.ks) == 1 and m.ksort == ctx.ks[0].sort() and valid(st.pc + (lift(m.dom(ctx.ks[0])),), ctx.fam.dom(ctx.ks)):
                    gone = True
            if not gone:
                break
        if not gone:
            out.append(p)
    return tuple(out)


def unstar_loc(l):
    path = []
    for s in l[1]:
        if s[0] == 'k' and isinstance(s[1], Star):
            path.append(('k', Star()))
        elif s[0] == 's':
            path.append(('s', s[1], tuple(Star() if isinstance(x, Star) else x for x in s[2])))
        else:
            path.append(s)
    return (l[0], tuple(path))


def unstar(p):
    return (unstar_loc(p[0]), unstar_loc(p[1]))


def post_leaf(ctx, c):
    fam, ks = ctx.fam, ctx.ks

    class LV:
        def __init__(self):
            self.cache = {}
            self.some = {}

        def keeps(self, pat):
            return c.modes.get(pat + (('ord',),), ('same',))[0] != 'any'

        def __call__(self, pat, keys):
            sort = c.sorts[pat]
            if isk(sort, 'other', 'none', 'empty'):
                return ctx.other(c, pat, keys)
            if isk(sort, 'seqx'):
                mode = c.modes.get(pat)
                _, sv = chain_leaf(c.S, pat, keys)
                base = sv.segs if isinstance(sv, Seq) else ()
                if mode is None:
                    return Seq(base)
                if mode[0] != 'append':
                    return Lost('list changed by the loop in an unknown way')
                return Seq(tuple(base) + ctx.gen_segs(mode[1], keys, fam.dom))
            mode = c.modes.get(pat, ('same',))
            m = mode[0]
            S = norm(c.S, pat, keys, sort)
            keys = tuple(lift(k) for k in keys)
            if m == 'same':
                return S
            if m == 'point':
                q2, F = mode[2]['F']
                js = tuple(keys[j] for j in mode[1])
                x = sub(lift(F), [(k, j) for k, j in zip(ks, js)] + [(a, b) for i, (a, b) in enumerate(zip(q2, keys)) if i not in mode[1]])
                return b_ite(fam.dom(js), x, S)
            if m == 'create':
                sc, sv = chain_leaf(c.S, pat, keys)
                g = mode[1](keys)
                return b_ite(sc, sv, g) if sc is not False and sv is not Undef else g
            if m in ('union', 'inter'):
                q0, x = mode[1]['c']
                x = lift(x)
                bs = tuple(fresh_var(s, 'e') for s in fam.sorts)
                x = sub(x, list(zip(ks, bs)) + list(zip(q0, keys)))
                if m == 'union':
                    return b_or(S, mk_existss(bs, b_and(fam.dom(bs), x)))
                return b_and(S, b_not(mk_existss(bs, b_and(fam.dom(bs), b_not(x)))))
            if m in ('add', 'sum'):
                bs = tuple(fresh_var(s, 'e') for s in fam.sorts)
                if m == 'add':
                    q0, x = mode[1]['d']
                    x = sub(lift(x), list(zip(ks, bs)) + list(zip(q0, keys)))
                else:
                    x = mode[1](bs, keys)
                t = mk_sums(bs, fam.dom(bs), x)
                if not is_z3(S) and S == 0:
                    return t
                return lift(S) + t
            if m == 'some':
                q0, w, F = mode[1]['f']
                if pat not in self.some:
                    def fact(ts):
                        any_ = exists_keys(fam.sorts, lambda js: b_and(fam.dom(js), sub(lift(w), list(zip(ks, js)))))
                        return b_implies(any_, b_and(fam.dom(ts), sub(lift(w), list(zip(ks, ts)))))
                    self.some[pat] = witnesses(fam.sorts, fact, 'some')
                ws = self.some[pat]
                x = sub(lift(F), list(zip(ks, ws)))
                x = sub(x, list(zip(q0, keys)))
                sc, sv = chain_leaf(c.S, pat, keys)
                return b_ite(sc, sv, x) if sc is not False and sv is not Undef else x
            if m == 'order':
                return fam.before((keys[-2],), (keys[-1],))
            # any
            kid = ('post', pat)
            if kid not in self.cache:
                n = f'any!{next(_n)}'
                pars = [v for v in free_vars(*[lift(x) for x in ctx.st.pc if is_z3(x)])]
                self.cache[kid] = (z3.Function(n, *[p.sort() for p in pars], *[k.sort() for k in keys], sort) if pars or keys else z3.Const(n, sort), pars)
            f, pars = self.cache[kid]
            return f(*pars, *keys) if pars or keys else f
    return LV()


# ------------------------------------------------------------------ loops that are left early
def first_match(eng, ctx, st, fam, body, node, fr):
    ks = ctx.ks
    d = fam.dom(ks)
    ctx.comps.clear()
    ctx.shares, ctx.poison = [], []
    val = fam.value(ks)
    # iterations that do not leave the loop may only set variables
    for rnd in range(20):
        s = st.copy()
        for (fid, name) in ctx.temps:
            s.frames[fid][name] = Tok(name)
        s = s.assume(d)
        n0 = len(eng.obligations)
        o = eng.absorb_continue(s.pc, body(s, val))
        A = o.state
        grown = False
        if A is not None:
            for rid in st.heap:
                if A.heap.get(rid) is not s.heap.get(rid) and not value_eq(A.heap[rid], s.heap[rid]):
                    raise Unsupported('a loop with break changes the state in iterations before the break')
            for fid in st.frames:
                for name, v in A.frames.get(fid, {}).items():
                    if v is not s.frames[fid].get(name, Undef) and (fid, name) not in ctx.temps:
                        if value_eq(v, s.frames[fid].get(name, Undef)):
                            continue
                        ctx.temps.add((fid, name))
                        grown = True
        if not grown:
            break
        del eng.obligations[n0:]
    base = s.pc
    X = b_or(*[eng.guard(base, x.state) for x in o.exits if x.kind in ('break', 'return')])
    R = b_or(*[eng.guard(base, x.state) for x in o.exits if x.kind == 'raise'])
    stop = b_or(X, R)
    found = exists_keys(fam.sorts, lambda js: b_and(fam.dom(js), sub(lift(stop), list(zip(ks, js)))))

    def fact(ts):
        at = sub(lift(stop), list(zip(ks, ts)))
        first = True
        if fam.before is not None:
            js = tuple(fresh_var(x, 'j') for x in fam.sorts)
            first = b_not(mk_existss(js, b_and(fam.dom(js), fam.before(js, ts), sub(lift(stop), list(zip(ks, js))))))
        return b_implies(found, b_and(fam.dom(ts), at, first))
    ws = witnesses(fam.sorts, fact, 'first')
    exits = []
    s1 = st.copy()
    for (fid, name) in ctx.temps:
        s1.frames[fid][name] = Tok(name)
    s1 = s1.assume(found)
    eng.quiet += 1
    try:
        o1 = body(s1, fam.value(ws))
    finally:
        eng.quiet -= 1
    for x in o1.exits:
        if x.kind in ('break', 'return', 'raise'):
            # variables set by earlier iterations
            for (fid, name) in ctx.temps:
                if isinstance(x.state.frames.get(fid, {}).get(name), Tok):
                    x.state.frames[fid][name] = Lost('value of an earlier iteration')
            # guards implied by the choice of the key are dropped if there is only one way to leave
            if len([y for y in o1.exits if y.kind in ('break', 'return', 'raise')]) == 1:
                x.state.pc = st.pc + (found,) if found is not True else st.pc
            exits.append(x)
    # not found
    s2 = st.assume(b_not(found))
    for (fid, name) in ctx.temps:
        s2.frames[fid][name] = last_assigned(eng, ctx, st, s, A, fid, name)
    return Out(s2 if found is not True else None, exits)


def last_assigned(eng, ctx, st, s, A, fid, name):
    """value of a variable after iterations that all ran to the end"""
    fam, ks = ctx.fam, ctx.ks
    if A is None:
        return st.frames[fid].get(name, Undef)
    v = eng.resolve_deep(A, A.frames[fid].get(name, Undef))
    alts = v.alts if isinstance(v, Choice) else [(True, v)]
    setc, val = [], None
    for g, x in alts:
        if isinstance(x, Tok):
            continue
        if val is not None or isinstance(x, Ref) and x.rid not in st.heap or isinstance(x, (Lost, Tup, Choice)):
            return Lost('value of the last iteration')
        setc.append(g)
        val = x
    if val is None:
        return st.frames[fid].get(name, Undef)
    cond = b_or(*setc)
    if fam.before is None:
        return Lost('value of the last iteration')
    some = exists_keys(fam.sorts, lambda js: b_and(fam.dom(js), sub(lift(cond), list(zip(ks, js)))))

    def fact(ts):
        js = tuple(fresh_var(x, 'j') for x in fam.sorts)
        last = b_not(mk_existss(js, b_and(fam.dom(js), fam.before(ts, js), sub(lift(cond), list(zip(ks, js))))))
        return b_implies(some, b_and(fam.dom(ts), sub(lift(cond), list(zip(ks, ts))), last))
    ws = witnesses(fam.sorts, fact, 'last')
    x = subst(val, list(zip(ks, ws)))
    s0 = st.frames[fid].get(name, Undef)
    if s0 is Undef:
        return Lost('variable may be unset')
    return ite(some, x, s0)
