"""Prints DESIGN.md's table of planted bugs from seeded/*/meta.json (not used by any check)."""
import json, glob, os
print('| planted bug | caught by | needs |\n|---|---|---|')
for d in sorted(glob.glob(os.path.join(os.path.dirname(__file__), '../seeded/*/meta.json')), key=lambda d: (json.load(open(d))['property'], d)):
    m = json.load(open(d)); print('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/')))
