#!/usr/bin/env python3
"""Fills the table of seeded bugs in DESIGN.md (developer helper)."""
import glob, json, os, re
MISSED = {'C05-count-map-pollution', 'C18-range-end-25', 'C02-minute-sixty', 'C04-long-capitals', 'C05-static-thanksgiving', 'C19-date-seconds', 'C03-short-index', 'C20-index-wrap', 'C25-long-sentence', 'C27-half-day', 'C03-fifty', 'C09-octal', 'C18-seconds-dot', 'C23-zone-tag', 'C24-range-tags', 'C25-fifty-results', 'C24-long-gap', 'C27-plain-time', 'C05-static-ndow', 'C15-same-day-end'}
rows = ['| seeded bug | caught by | needs |', '|---|---|---|']
for p in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(p))
    n = p.split('/')[1]
    rows.append('| %s | %s%s | %s |' % (n, d['property'], ' (missed at first)' if n in MISSED else '', d['needs'].replace('|', '/')))
s = open('DESIGN.md').read()
t = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda m: t, s, flags=re.S)
open('DESIGN.md', 'w').write(s)
