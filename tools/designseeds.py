"""Rewrite the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/DESIGN.md'
s = open(p).read()
head = "| planted bug | what it breaks |\n|---|---|\n"
i = s.index(head) + len(head)
j = s.index("\n## ", i)
rows = ""
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows += "| %s | %s |\n" % (d, m['what_it_breaks'].replace('|', '/'))
open(p, 'w').write(s[:i] + rows + s[j:])
