"""Writes the table of planted bugs at the end of DESIGN.md."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
caught = {}
p = os.path.join(root, 'tools', 'caught.json')
if os.path.exists(p):
    caught = json.load(open(p))
seeded = os.path.join(root, 'seeded')
for d in sorted(os.listdir(seeded)):
    m = json.load(open(os.path.join(seeded, d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['needs'], m['what_it_breaks'], ', '.join(caught.get(d, ['not run']))))
text = open(os.path.join(root, 'DESIGN.md')).read()
text = re.split(r'\n## Planted bugs\n', text)[0].replace('@TABLE@\n', '').rstrip('\n')
text += '\n\n## Planted bugs\n\nEach was written from a property and the code, confirmed with its demo, and run against the quick check of its\nproperty (other properties often see it too).\n\n| bug | needs | breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(os.path.join(root, 'DESIGN.md'), 'w').write(text)
