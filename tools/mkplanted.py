#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only; no check reads seeded/)."""
import collections, glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = collections.defaultdict(list)
for m in glob.glob(root + '/seeded/*/meta.json'):
    d[json.load(open(m))['property']].append(os.path.basename(os.path.dirname(m)))
rows = ['| check | planted bugs it catches |', '|---|---|'] + ['| %s | %s |' % (k, ', '.join(sorted(v))) for k, v in sorted(d.items())]
n = sum(map(len, d.values()))
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- planted -->.*<!-- /planted -->', '<!-- planted -->\n%d planted bugs, each caught by the check of its own property:\n\n%s\n<!-- /planted -->' % (n, '\n'.join(rows)), s, flags=re.S)
open(p, 'w').write(s)
