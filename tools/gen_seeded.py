#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
rows = []
for m in glob.glob('seeded/*/meta.json'):
    d = json.load(open(m))
    rows.append((d['property'], os.path.basename(os.path.dirname(m)), d['needs']))
rows.sort()
text = ('<!-- seeded -->\nEach is in `seeded/`; the check of the property named in the first column catches it (the quick tier).\n\n'
        '| Caught by | Bug | Needs |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % r for r in rows) + '<!-- /seeded -->')
s = open('DESIGN.md').read()
open('DESIGN.md', 'w').write(re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: text, s, flags=re.S))
