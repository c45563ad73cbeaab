"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json (every one of them is caught by its property's quick check).
The text above the table stays, but for the number of changes."""
import glob
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, 'DESIGN.md')
HEAD = '| change | caught by | breaks | needs |\n|---|---|---|---|\n'
text = open(path).read().split(HEAD)[0]
rows = []
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'], m['needs']))
text = re.sub(r'(?m)^\d+ changes kept in', '%d changes kept in' % len(rows), text)
open(path, 'w').write(text + HEAD + '\n'.join(rows) + '\n')
