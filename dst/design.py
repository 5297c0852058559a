"""Fills the generated tables of DESIGN.md (python -m dst.design)."""
import json
import os
import re

from . import meta, harness

V = meta.VERIF


def table():
    rows = ['| id | title | generated, faults | assumptions |', '|---|---|---|---|']
    for d, *_ in sorted(meta.P, key=lambda x: x[0]['id']):
        f = os.path.join(V, 'dst', 'props', d['id'].lower() + '.py')
        if not os.path.exists(f):
            continue
        p = harness.load_prop(d['id'])
        rows.append('| %s | %s | %s | %s |' % (d['id'], d['title'], p.RULE.replace('|', '/'), '; '.join(p.ASSUMPTIONS).replace('|', '/')))
    return '\n'.join(rows)


def bugs():
    rows = ['| id | property | needs | breaks | quick check |', '|---|---|---|---|---|']
    res = {}
    f = os.path.join(V, 'caught.txt')
    if os.path.exists(f):
        for line in open(f):
            if line.strip():
                k, v = line.split(None, 1)
                res[k] = v.strip()
    s = os.path.join(V, 'seeded')
    for i in sorted(os.listdir(s)):
        m = json.load(open(os.path.join(s, i, 'meta.json')))
        rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks'], res.get(i, '?')))
    return '\n'.join(rows)


def na():
    rows = ['## Not applicable', '']
    for d, level, note, tech, why in sorted(meta.P, key=lambda x: x[0]['id']):
        if why:
            rows.append('* %s (%s): %s' % (d['id'], d['title'], why))
    return '\n'.join(rows) if len(rows) > 2 else ''


def main():
    p = os.path.join(V, 'DESIGN.md')
    s = open(p).read()
    for k, v in (('TABLE', table()), ('BUGS', bugs()), ('NA', na())):
        v = '<!-- %s -->\n%s\n<!-- /%s -->' % (k, v, k)
        if '%' + k + '%' in s:
            s = s.replace('%' + k + '%', v)
        else:
            s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (k, k), lambda m: v, s, flags=re.S)
    open(p, 'w').write(s)


if __name__ == '__main__':
    main()
