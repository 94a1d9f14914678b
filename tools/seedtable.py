"""Prints the table of planted bugs for DESIGN.md (section 6)."""
import json, glob, os
print('| planted bug | caught by | breaks |\n|---|---|---|')
for d in sorted(glob.glob(os.path.join(os.path.dirname(__file__), '..', 'seeded', '*'))):
    m = json.load(open(d + '/meta.json'))
    print('| %s | %s | %s |' % (os.path.basename(d), m['property'], str(m['what_it_breaks']).replace('|', '/')))
