"""Rewrites the matrix of planted changes in DESIGN.md from seeded/*/meta.json."""
import collections, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = collections.defaultdict(list)
for s in sorted(os.listdir(root + '/seeded')):
    d[json.load(open('%s/seeded/%s/meta.json' % (root, s)))['property']].append(s)
t = '| check | planted changes it catches |\n|---|---|\n' + ''.join(
    '| %s | %s |\n' % (p, ', '.join('`%s`' % x for x in d[p])) for p in sorted(d))
doc = open(root + '/DESIGN.md').read()
doc = re.sub(r'(<!-- matrix -->\n).*?\n(\nEach is caught)', lambda m: m.group(1) + t + m.group(2), doc, flags=re.S)
open(root + '/DESIGN.md', 'w').write(doc)
