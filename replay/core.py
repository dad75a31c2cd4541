"""Executable contracts: every case has gen(rng) -> JSON-able input and check(input) -> None | message.

check() runs the real code of /repo (imported, not copied) on the input and evaluates the postcondition of the
property. A returned message (or an exception the contract does not allow, or no termination) is a violation."""
import copy
import inspect
import io
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

CASES = {}


class Skip(Exception):
    """The entry point is not there in this tree (or its signature changed): the case does not apply."""


class Hang(BaseException):
    pass


class Case:
    def __init__(self, prop, name, gen, check, slow):
        self.prop, self.name, self.gen, self.check, self.slow = prop, name, gen, check, slow


def case(*props, gen, slow=False, name=None):
    def deco(f):
        for p in props:
            CASES.setdefault(p, []).append(Case(p, name or f.__name__, gen, f, slow))
        return f
    return deco


def fn(mod, name, nargs=None):
    """A function of the real code; Skip if a refactoring removed or re-signed a private one."""
    import importlib
    m = importlib.import_module('esp_idf_size.' + mod)
    o = m
    for part in name.split('.'):
        o = getattr(o, part, None)
        if o is None:
            raise Skip(f'{mod}.{name} is not there')
    if nargs is not None:
        try:
            inspect.signature(o).bind(*([None] * nargs))
        except TypeError:
            raise Skip(f'{mod}.{name} has another signature')
        except ValueError:
            pass
    return o


class Bad(Exception):
    pass


def need(cond, *msg):
    if not cond:
        raise Bad(' '.join(str(m) for m in msg))


def eq(a, b, *what):
    if a != b:
        raise Bad(f'{" ".join(str(w) for w in what)}: got {a!r}, expected {b!r}')


def _alarm(*_):
    raise Hang()


def run_one(case, inp, limit=15):
    """None if the contract holds, a message otherwise."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        r = case.check(copy.deepcopy(inp))
        return r
    except Skip:
        raise
    except Bad as e:
        return str(e)
    except Hang:
        return f'no termination within {limit} s'
    except MemoryError:
        return 'memory exhausted'
    except (Exception, SystemExit) as e:  # contract: no other exception on inputs that satisfy the precondition
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if 'esp_idf_size' in f.filename]
        w = where[-1] if where else tb[-1]
        if not where:
            if isinstance(e, (OSError, ImportError)):
                raise
            return f'the result does not have its documented shape: {type(e).__name__}: {e} at {os.path.basename(w.filename)}:{w.lineno}'
        return f'unexpected {type(e).__name__}: {e} at {os.path.basename(w.filename)}:{w.lineno} ({w.name})'
    finally:
        signal.alarm(0)


def silence():
    """The code under test reports errors on stderr; thousands of expected ones are of no use."""
    if not os.environ.get('VERIF_VERBOSE'):
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
    try:
        from esp_pylib.logger import Verbosity
        from esp_pylib.logger import log as esp_log
        esp_log.set_verbosity(Verbosity.SILENT)
    except Exception:
        pass


def smaller(case, inp, msg, rng, budget=3.0):
    """Keep generating for a moment and report the smallest failing input (all inputs satisfy the precondition)."""
    t0 = time.time()
    best, bmsg = inp, msg
    while time.time() - t0 < budget:
        x = case.gen(rng)
        if len(repr(x)) >= len(repr(best)):
            continue
        m = run_one(case, x, 5)
        if m:
            best, bmsg = x, m
    return best, bmsg


def search(prop, seconds, seed, maxn=None, only=None):
    """Run the cases of a property; returns a result dictionary."""
    silence()
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    cases = [c for c in CASES.get(prop, []) if only is None or c.name == only]
    t0 = time.time()
    stat = {c.name: {'evaluations': 0, 'nontrivial': 0, 'skipped': None, 'time': 0.0} for c in cases}
    live = list(cases)
    samples = []
    seen = set()
    rngs = {c.name: random.Random(f'{prop}:{c.name}:{seed}') for c in cases}
    k = 0
    while live and time.time() - t0 < seconds:
        if maxn is not None and k >= maxn:
            break
        k += 1
        # the case with the least time spent so far goes next
        c = min(live, key=lambda c: stat[c.name]['time'])
        t1 = time.time()
        burst = 1 if c.slow else 20
        for _ in range(burst):
            inp = c.gen(rngs[c.name])
            st = stat[c.name]
            st['evaluations'] += 1
            try:
                msg = run_one(c, inp)
            except Skip as e:
                st['skipped'] = str(e)
                live.remove(c)
                break
            key = hash(repr(inp))
            if key not in seen:
                seen.add(key)
                if len(repr(inp)) > 60:
                    st['nontrivial'] += 1
            if len(samples) < 3 and st['evaluations'] == 3:
                samples.append({'case': c.name, 'input': json.loads(json.dumps(inp, default=repr))})
            if msg:
                inp2, msg2 = (inp, msg) if c.slow else smaller(c, inp, msg, rngs[c.name])
                return {'violation': {'case': c.name, 'message': msg2, 'input': inp2, 'seed': seed}, 'stat': stat,
                        'samples': samples, 'wall': time.time() - t0}
        stat[c.name]['time'] += time.time() - t1
    return {'violation': None, 'stat': stat, 'samples': samples, 'wall': time.time() - t0}
