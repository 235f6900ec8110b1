#!/usr/bin/env python3
"""Rewrites section 7 of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = {}
for i in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{i}/meta.json'))
    s.setdefault(m['property'], []).append((i, m['needs']))
p = root + '/DESIGN.md'
t = open(p).read()
k = t.find('\n## 7. ')
if k >= 0: t = t[:k]
t = t.rstrip() + '''

## 7. Which check catches which planted bug

Each was caught by the quick check of the property it breaks (exit 1, its VIOLATION line) when last tried.

| check | planted bug: what it needs to show |
|---|---|
'''
for c in sorted(s):
    t += f'| {c} | ' + '; '.join(f'**{i}**: {n}' for i, n in s[c]) + ' |\n'
t += '''
Bugs that were missed when first planted led to: readers that stop for longer than 30 s (write-timeout), clients that reuse
ports and descriptors (addr-table), cohorts and crowds (list-page, array-count-u8, reply-budget), marathons (id-u16), names,
keys and commands used once only (name-intern, miss-tombstone, unknown-stats), names cut inside characters
(unknown-truncate), errors that last for one address only (bind-any, bind-skip), wildcard addresses (laddr-bind),
idle crowds (poll-idle), times to live and every attribute in all workloads (option-case, setinfo-silent), commands with many
elements (list-ids-cap), and to the properties C19 and C20 themselves.
'''
open(p, 'w').write(t)
