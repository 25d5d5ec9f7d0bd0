"""markdown table of the planted bugs for DESIGN.md (run by hand)"""
import json, os
d = os.path.join(os.path.dirname(__file__), '..', 'seeded')
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, 'meta.json')))
    print('| %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/')))
