"""Refresh the table of planted changes in DESIGN.md (run by hand)."""
import glob
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}            # id: remark, for plants no check reports
rows = ['| change | property | breaks | needs | reported by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(HERE + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    i = os.path.basename(d)
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], MISSED.get(i, m['property'])))
f = HERE + '/DESIGN.md'
s = open(f).read()
s = re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)', lambda g: g.group(1) + '\n'.join(rows) + '\n' + g.group(2), s, flags=re.S)
open(f, 'w').write(s)
