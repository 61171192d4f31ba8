#!/usr/bin/env python3
"""Refreshes the generated tables of DESIGN.md: planted changes (seeded/*/meta.json) and repairs (known_findings.txt)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + '/DESIGN.md').read()
rows = ['| change | property | what it breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(f)); rows.append('| %s | %s | %s | %s |' % (f.split('/')[-2], j['property'], j['what_it_breaks'], j['needs']))
fixes = ['- %s (%s): %s' % re.match(r'fixed: property=(\S+) (\S+) (.*)', l).group(2, 1, 3) for l in open(V + '/known_findings.txt') if l.startswith('fixed:')]
for name, rows in (('plants', rows), ('fixes', fixes)):
    d = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (name, name), lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), d, flags=re.S)
open(V + '/DESIGN.md', 'w').write(d)
