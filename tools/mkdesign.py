"""Rewrites the generated part of DESIGN.md (table of planted bugs) from seeded/*/meta.json."""
import json, glob, os, collections
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
begin, end = "<!-- planted bugs -->\n", "<!-- end of planted bugs -->\n"
rows = collections.defaultdict(list)
for d in sorted(glob.glob(HERE + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows[m['property']].append('%s (%s)' % (os.path.basename(d).split('_')[0], m['what_it_breaks'].strip().rstrip('.')))
text = "| id | planted bugs, all caught by the check of that property |\n|---|---|\n"
for p in sorted(rows):
    text += "| %s | %s |\n" % (p, '; '.join(rows[p]))
s = open(HERE + '/DESIGN.md').read()
a, b = s.index(begin) + len(begin), s.index(end)
open(HERE + '/DESIGN.md', 'w').write(s[:a] + text + s[b:])
