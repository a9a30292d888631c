"""Fills the tables of DESIGN.md: repaired defects, planted bugs."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cell(s):
    return s.replace('|', '\\|').replace('\n', ' ')


def main():
    rows = ['| property | commit | what failed |', '|---|---|---|']
    for k in json.load(open(HERE + '/known-findings.json', encoding='utf-8')):
        rows.append('| %s | %s | %s |' % (k['property'], k.get('commit', k['status']), cell(k['what'])))
    bugs = ['| bug | property | needs | what the check of the property says |', '|---|---|---|---|']
    res = json.load(open(HERE + '/tools/plant/results.json', encoding='utf-8'))
    for d in sorted(glob.glob(HERE + '/seeded/*')):
        i = os.path.basename(d)
        m = json.load(open(d + '/meta.json', encoding='utf-8'))
        r = res.get(i, [m['property'], '?', '?'])
        bugs.append('| %s | %s | %s | %s |' % (i, m['property'], cell(m['needs']), cell(r[2]).replace('class: ', '') if r[1] == 'GOOD' else 'missed'))
    p = HERE + '/DESIGN.md'
    s = open(p, encoding='utf-8').read()
    for n, t in (('fixes', rows), ('bugs', bugs)):
        s = re.sub('(<!-- %s -->\n).*?(<!-- end %s -->)' % (n, n), lambda m: m[1] + '\n'.join(t) + '\n' + m[2], s, flags=re.S)
    open(p, 'w', encoding='utf-8').write(s)


main()
