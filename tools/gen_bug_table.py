"""Write the table of planted bugs into DESIGN.md."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def short(s, n=170):
    s = ' '.join(s.split()).replace('|', '/')
    return s if len(s) <= n else s[:n].rsplit(' ', 1)[0] + ' …'


rows = []
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (
        os.path.basename(os.path.dirname(f)), m['property'],
        short(m['what_it_breaks']), short(m['needs'])))
path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
table = '\n'.join(['| bug | caught by | what breaks | needs |',
                   '|-----|-----------|-------------|-------|'] + rows)
text = re.sub(r'<!-- bugs -->.*<!-- /bugs -->',
              lambda m: '<!-- bugs -->\n%s\n<!-- /bugs -->' % table, text,
              flags=re.S)
open(path, 'w').write(text)
print(len(rows), 'bugs')
