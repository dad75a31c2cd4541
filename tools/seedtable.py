#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append(f"| {os.path.basename(os.path.dirname(p))} | {m['property']} | {m['needs']} | {m['property']} |")
fn = here + '/DESIGN.md'
s = open(fn).read()
t = '<!-- seeds -->\n| bug | property | needs | found by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
open(fn, 'w').write(re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S))
