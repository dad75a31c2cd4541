"""Loops decided step by step: an arbitrary iteration is executed from an arbitrary state that satisfies the invariant.

The rule gives the obligations of one iteration to the contract; that they hold for the whole loop is the usual induction
on the number of iterations (and on the variant for termination)."""
import ast

from engine import Out
from logic import Unsupported, b_and, b_not, lift, mk_sums, sums_equal, valid, LAST
from values import Lost, Ref, Seg, Seq, is_leaf, seg_same


def assigned(nodes):
    """names assigned in the statements"""
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
    return out


def one(v):
    """the list item with a single value"""
    return Seg((), lambda ks: True, lambda ks: v, lambda a, b: False)


def local_lists(eng, st, fr):
    """the lists that the function created and that variables refer to: name -> reference"""
    out = {}
    for n, v in st.frames[fr.fid].items():
        if isinstance(v, Ref):
            r = eng.resolve(st, v)
            if not r.path and r.rid not in eng.inputs and isinstance(st.heap[r.rid], Seq):
                out[n] = r
    return out


def forget(st, fr, names):
    for n in names:
        st.frames[fr.fid][n] = Lost('value of an earlier iteration')


def added(old, new):
    """the items of the list new behind those of the list old, or None"""
    if not isinstance(new, Seq) or len(new.segs) < len(old.segs) or not all(seg_same(a, b) for a, b in zip(old.segs, new.segs)):
        return None
    return Seq(new.segs[len(old.segs):])


def body_once(eng, st, fr, n, exits=()):
    """one iteration: the state at its end; other exits than those allowed are unsupported"""
    o = eng.absorb_continue(st.pc, eng.block(st, fr, n.body))
    for x in o.exits:
        if x.kind not in exits and x.kind != 'raise':
            raise Unsupported(f'{x.kind} in a loop')
    return o


def items(seq, f):
    """f(conditions, keys, item) for all parts of a list"""
    from logic import fresh_var
    for g in seq.segs:
        ks = tuple(fresh_var(s, 'q') for s in g.sorts)
        d = g.dom(ks)
        if d is not False:
            f(d, ks, g.elem(ks))


def total(seq, f):
    """sum of f(item) over a list; f may itself be a sum over the item"""
    out = lift(0)

    def add(d, ks, x):
        nonlocal out
        out = out + lift(mk_sums(ks, d, f(x)))
    items(seq, add)
    return out


def prove_sums(P, name, st, a, b, hyps=()):
    ok = sums_equal(tuple(st.pc) + tuple(hyps), a, b)
    P.add(f'{P.label}: {name}', ok, '' if ok else 'not key by key equal: ' + str(a)[:300] + ' and ' + str(b)[:300])


def has_while(n):
    return any(isinstance(x, ast.While) for x in ast.walk(n))


def ends(eng, o):
    """the states in which an iteration ends: [(goes on, state)]"""
    return ([(True, o.state)] if o.state is not None else []) + [(False, x.state) for x in o.exits if x.kind == 'break']


def has(P, what, x, names, hyps=()):
    """obligation: the object has exactly these keys"""
    P.prove(f'{what} has exactly the expected keys', b_and(*[x.fields[n][0] if n in x.fields else False for n in names],
            *[b_not(c) for n, (c, _) in x.fields.items() if n not in names]), hyps)
