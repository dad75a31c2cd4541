#!/usr/bin/env python3
"""check.py ID [quick|thorough]

Decides one property on /repo's current working tree:
 1. deductive part: obligations generated from the source files of /repo and discharged by z3/cvc5 (pyvc/, contracts/),
 2. the same contracts evaluated on executions of the real code (replay/): the bounded stand-in for what is not
    under a discharged contract, and the search for a failing input when an obligation fails.
Exit 0: every obligation discharged and no execution violates the contract; exit 1 with a VIOLATION line otherwise."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PROVER = ['python3-vt', os.path.join(HERE, 'pyvc', 'prove.py')]
PY = '/opt/venv/bin/python'


def props():
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        return {json.loads(x)['id']: json.loads(x) for x in f if x.strip()}


def known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith(f'KNOWN-FINDING: property={pid} '):
                    out.append(line.strip())
    return out


def start_search(pid, seconds, seed, out):
    env = dict(os.environ, PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(int(seed) % 4294967295))
    env['PYTHONPATH'] = REPO
    return subprocess.Popen([PY, os.path.join(HERE, 'replay', 'run.py'), 'search', pid, str(seconds), str(seed), out],
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd='/')


def finish(procs, limit):
    """[(result or None, stderr)] of the searches; the first violation ends the others"""
    end = time.time() + limit
    res = {}
    while len(res) < len(procs) and time.time() < end:
        for i, (p, out) in enumerate(procs):
            if i not in res and p.poll() is not None:
                err = p.stderr.read().decode(errors='replace')[-2000:]
                try:
                    with open(out) as f:
                        res[i] = (json.load(f), err)
                except (OSError, ValueError):
                    res[i] = (None, err)
        if any(r and r[0] and r[0]['violation'] for r in res.values()):
            break
        time.sleep(0.1)
    for i, (p, out) in enumerate(procs):
        if p.poll() is None:
            p.kill()
            p.wait()
        if i not in res:
            res[i] = (None, 'killed')
    return list(res.values())


def prover(cmd, env, logfn, limit, procs):
    """runs the prover; a failing input that was found meanwhile leaves it another minute"""
    end = time.time() + limit
    note = ''
    with open(logfn, 'wb') as lf:
        p = subprocess.Popen(cmd, env=env, cwd=HERE, stdout=lf, stderr=subprocess.STDOUT)
        seen, found = set(), False
        while p.poll() is None:
            if time.time() > end:
                p.kill()
                p.wait()
                note = 'the prover exceeded its time limit\n' if not found else 'the prover was stopped, because a failing input was found\n'
                break
            for q, out in procs:
                if out not in seen and q.poll() is not None:
                    seen.add(out)
                    try:
                        with open(out) as f:
                            if json.load(f)['violation']:
                                found, end = True, min(end, time.time() + 60)
                    except (OSError, ValueError, KeyError):
                        pass
            time.sleep(0.1)
    with open(logfn, errors='replace') as lf:
        return note + lf.read()[-6000:]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prop = props()[pid]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    import tempfile
    tmp = tempfile.mkdtemp(prefix='verif-check-')
    try:
        return run(pid, tier, seed, t0, prop, tmp)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, tier, seed, t0, prop, tmp):
    thorough = tier == 'thorough'
    first = 240 if thorough else 20
    limit = 600 if thorough else 400
    n = 6 if thorough else 4
    procs = [(start_search(pid, first, seed * 1000 + i, os.path.join(tmp, f's{i}.json')), os.path.join(tmp, f's{i}.json')) for i in range(n)]
    proof = None
    pout = os.path.join(tmp, 'proof.json')
    if os.path.exists(os.path.join(HERE, 'contracts', pid.lower() + '.py')):
        env = dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE='1')
        log = prover(PROVER + [pid, tier, pout], env, os.path.join(tmp, 'prover.log'), limit, procs)
        try:
            with open(pout) as f:
                proof = json.load(f)
        except (OSError, ValueError):
            proof = {'obligations': [], 'functions': [], 'assumptions': [], 'error': log, 'solver_s': 0}
        if not proof['obligations'] and not proof.get('error'):
            proof['error'] = 'no obligation was generated'
    failed = [o for o in proof['obligations'] if o['status'] != 'discharged'] if proof else []
    undecided = bool(proof and (failed or proof.get('error')))
    res = finish(procs, first + 90)
    hit = next((r[0]['violation'] for r in res if r[0] and r[0]['violation']), None)
    if undecided and not hit:
        more = 150
        procs = [(start_search(pid, more, seed * 1000 + 100 + i, os.path.join(tmp, f't{i}.json')), os.path.join(tmp, f't{i}.json')) for i in range(7)]
        res2 = finish(procs, more + 60)
        hit = next((r[0]['violation'] for r in res2 if r[0] and r[0]['violation']), None)
        res += res2
    evals = nontriv = 0
    percase, skipped, samples = {}, {}, []
    crashed = [r[1] for r in res if r[0] is None]
    for r, _ in res:
        if not r:
            continue
        samples = samples or r['samples']
        for k, v in r['stat'].items():
            evals += v['evaluations']
            nontriv += v['nontrivial']
            percase[k] = percase.get(k, 0) + v['evaluations']
            if v['skipped']:
                skipped[k] = v['skipped']
    violations = []
    line = None
    rdir = os.path.join(HERE, 'evidence', 'replays')
    if hit or undecided:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{pid}.json')
        rep = {'property': pid, 'title': prop['title']}
        if hit:
            rep.update(hit)
            rep['how'] = f'PYTHONPATH={REPO} {PY} {HERE}/replay/run.py replay {path}'
        if undecided:
            rep['failed_obligations'] = failed
            rep['verifier'] = proof.get('error')
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1, default=repr)
        line = f'VIOLATION property={pid} replay={path}' + ('' if hit else ' no-failing-input-found')
        violations.append({'replay': path, 'what': hit['message'] if hit else 'obligation not discharged: ' +
                           '; '.join(o['name'] for o in failed[:5]) + (' ' + str(proof.get('error'))[-300:] if proof.get('error') else '')})
    level = 'proof' if proof else 'exploration'
    cov = {'evaluations': evals, 'distinct_nontrivial': nontriv, 'rule': 'inputs generated at random (fixed seed) that satisfy the '
           'precondition; non-trivial: distinct and longer than 60 characters as text', 'samples': samples,
           'evaluations_per_contract': percase, 'contracts_not_applicable_in_this_tree': skipped}
    assumptions = []
    if proof:
        cov.update({'obligations': len(proof['obligations']), 'discharged': len(proof['obligations']) - len(failed),
                    'checker_cmd': f'cd {HERE} && python3-vt pyvc/prove.py {pid} {tier} /tmp/proof.json',
                    'trusted_base': proof.get('trusted', []), 'functions_under_contract': proof['functions'],
                    'obligation_names': [o['name'] + ' [' + o.get('by', '?') + ']' for o in proof['obligations']],
                    'solver_seconds': round(proof.get('solver_s', 0), 2), 'bounded_part': proof.get('bounded', [])})
        assumptions = proof.get('assumptions', [])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'assumptions': assumptions + ['The executions of replay/ are a bounded stand-in (random inputs, fixed seed), never counted as proved.'],
          'violations': len(violations)}
    if violations:
        ev['violation_details'] = violations
    if crashed:
        ev['notes'] = 'search processes without result: ' + ' | '.join(c[-300:] for c in crashed)
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    for k in known(pid):
        print(k)
    if proof:
        print(f'{pid}: {cov["discharged"]}/{cov["obligations"]} obligations discharged, {len(proof["functions"])} functions under contract, '
              f'solver {cov["solver_seconds"]} s')
        for o in failed[:10]:
            print('  failed:', o['name'], '-', str(o.get('detail', ''))[:300])
        if proof.get('error'):
            print('  verifier:', str(proof['error'])[-1500:])
    print(f'{pid}: {evals} executions checked against the contract, {round(time.time() - t0, 1)} s')
    for c in crashed:
        print('  search process without result:', c[-500:])
    if line:
        print('  ', violations[0]['what'][:500])
        print(line)
        return 1
    if evals == 0:
        # the deciding step is the proof, which holds (see undecided)
        print(f'{pid}: nothing was executed')
        return 0 if proof else 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
