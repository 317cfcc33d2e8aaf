#!/usr/bin/env python3
"""writes the table of planted changes into DESIGN.md from seeded/*/meta.json"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
led = {
 'c13-pack-kept': 'missed first; the families over archives and packs of C13 (`walks.rs`)',
 'c12-raw-uol': 'missed first; "link-containers" of C12 (which also found the defect of links in polygons)',
 'c01-float-byte': 'missed first; one-byte floats 0..127 in "floats" of C01',
 'c01-convex-depth': 'missed first; polygons of polygons and many things of one sort in "sizes" of C01',
 'c25-key-list': 'private keys were added to C25 with it',
 'c24-by-offset': 'a property of its own (C24) came from looking at what this could break',
}
rows = ['| change | property | what it breaks | caught by | led to |', '|---|---|---|---|---|']
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['property']} quick | {led.get(d, '')} |")
p = here + '/DESIGN.md'
t = open(p).read()
new = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
t = t.replace('SEEDTABLE', new) if 'SEEDTABLE' in t else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: new, t, flags=re.S)
open(p, 'w').write(t)
