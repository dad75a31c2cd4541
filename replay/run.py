"""run.py search ID SECONDS SEED OUT | run.py replay FILE      (run with the Python of the project)"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import cases  # noqa: F401  (registers the cases)


def main():
    if sys.argv[1] == 'search':
        prop, seconds, seed, out = sys.argv[2], float(sys.argv[3]), sys.argv[4], sys.argv[5]
        only = sys.argv[6] if len(sys.argv) > 6 else None
        r = core.search(prop, seconds, seed, only=only)
        with open(out, 'w') as f:
            json.dump(r, f, default=repr)
        if r['violation']:
            print('VIOLATED', r['violation']['case'], r['violation']['message'])
            return 1
        return 0
    if sys.argv[1] == 'replay':
        with open(sys.argv[2]) as f:
            d = json.load(f)
        core.silence()
        for c in core.CASES[d['property']]:
            if c.name == d['case']:
                m = core.run_one(c, d['input'])
                print('VIOLATED' if m else 'HOLDS', c.name, m or '')
                return 1 if m else 0
        print('no such case')
        return 2
    return 2


sys.exit(main())
