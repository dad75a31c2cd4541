"""python3-vt pyvc/prove.py ID TIER OUT: run the contract of a property and write the result."""
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'contracts')]
sys.setrecursionlimit(20000)

import logic  # noqa: E402
from spec import Prover  # noqa: E402


def limit(tier):
    return float(os.environ.get('PYVC_LIMIT', 240 if tier == 'quick' else 600))


def run_part(pid, tier, i):
    """one part of a contract, in a process of its own"""
    P = Prover(tier)
    logic.DEADLINE[0] = time.time() + limit(tier)
    name, part = importlib.import_module(pid.lower()).PARTS[i]
    try:
        part(P)
        P.done()
    except logic.Unsupported as e:
        P.done()
        P.add(f'{P.label or name}: within the reach of the verifier', False, f'unsupported: {e}')
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc(limit=-6)
    except Exception as e:
        P.done()
        P.add(f'{P.label or name}: within the reach of the verifier', False, f'{type(e).__name__}: {e} ' + traceback.format_exc()[-600:])
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc(limit=-6)
    return {'obligations': P.obligations, 'functions': sorted(P.functions), 'assumptions': P.assumptions, 'trusted': sorted(P.used),
            'bounded': P.bounded, 'stat': dict(logic.STAT)}


def part_main(pid, tier, i, conn):
    conn.send(run_part(pid, tier, i))
    conn.close()


def run_parts(pid, tier, names):
    ctx = multiprocessing.get_context('fork')
    todo, running, res = list(range(len(names))), {}, {}
    jobs = int(os.environ.get('PYVC_JOBS', '4'))
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=part_main, args=(pid, tier, i, w))
            p.start()
            w.close()
            running[i] = (p, r, time.time())
        multiprocessing.connection.wait([x[1] for x in running.values()], 1)
        for i, (p, r, t0) in list(running.items()):
            out, why = None, None
            if r.poll():
                try:
                    out = r.recv()
                except EOFError:
                    why = 'the prover ended without a result'
            elif time.time() > t0 + limit(tier) + 60:
                why = 'time limit of the proof reached'
            else:
                continue
            p.kill() if why else p.join()
            del running[i]
            if why:
                out = {'obligations': [{'name': f'{names[i]}: within the reach of the verifier', 'status': 'failed', 'detail': why, 'by': 'z3'}],
                       'functions': [], 'assumptions': [], 'trusted': [], 'bounded': [], 'stat': {'queries': 0, 'solver_s': 0.0, 'cvc5': 0}}
            res[i] = out
    return [res[i] for i in range(len(names))]


def run(pid, tier):
    t0 = time.time()
    err, rs, mod = None, [], None
    try:
        mod = importlib.import_module(pid.lower())
        names = [n for n, _ in mod.PARTS]
        rs = [run_part(pid, tier, 0)] if len(names) == 1 else run_parts(pid, tier, names)
    except Exception as e:
        err = f'{type(e).__name__}: {e}\n' + traceback.format_exc()
    obligations = [o for r in rs for o in r['obligations']]
    if not obligations and err is None:
        err = 'no obligation was generated'
    # names are unique
    seen = {}
    for o in obligations:
        n = o['name']
        seen[n] = seen.get(n, 0) + 1
        if seen[n] > 1:
            o['name'] = f'{n} #{seen[n]}'

    def both(k, extra):
        return sorted({x for r in rs for x in r[k]} | set(getattr(mod, extra, [])))
    return {'obligations': obligations, 'functions': both('functions', 'FUNCTIONS'), 'assumptions': both('assumptions', 'ASSUMPTIONS'),
            'trusted': both('trusted', 'TRUSTED'), 'bounded': both('bounded', 'BOUNDED'), 'solver_s': round(sum(r['stat']['solver_s'] for r in rs), 2),
            'queries': sum(r['stat']['queries'] for r in rs), 'cvc5': sum(r['stat']['cvc5'] for r in rs), 'wall_s': round(time.time() - t0, 2), 'error': err}


if __name__ == '__main__':
    r = run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 3:
        with open(sys.argv[3], 'w') as f:
            json.dump(r, f, indent=1)
    else:
        bad = [o for o in r['obligations'] if o['status'] != 'discharged']
        print(f"{len(r['obligations'])} obligations, {len(bad)} open, {r['queries']} queries, {r['solver_s']} s solver, {r['wall_s']} s; error={r['error']}")
        for o in bad[:40]:
            print('  OPEN', o['name'], '--', o['detail'][:700])
        print('functions', r['functions'])
        print('trusted', r['trusted'])
