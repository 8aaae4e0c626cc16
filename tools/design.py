#!/usr/bin/env python3
"""Writes ../DESIGN.md: what is said here, the rules' docstrings and the tables of
properties, fixes and planted bugs."""
import ast, glob, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, '..')
sys.path.insert(0, ROOT)
from sa.rules import RULES

INTRO = open(os.path.join(HERE, 'design_intro.md')).read()
NOTES = {}
for block in re.split(r'(?m)^## ', open(os.path.join(HERE, 'design_notes.md')).read())[1:]:
    pid, _, text = block.partition('\n')
    NOTES[pid.strip()] = text.strip()
TAIL = open(os.path.join(HERE, 'design_tail.md')).read()


def doc(module):
    tree = ast.parse(open(os.path.join(ROOT, 'sa', 'rules', module + '.py')).read())
    return ' '.join(ast.get_docstring(tree).split())


def main():
    props = {}
    for line in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(line)
        props[p['id']] = p
    manifest = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
    na = {x['property']: x['reason'] for x in manifest['not_applicable']}
    fixes = {}
    for line in open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', line)
        if m:
            fixes.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    seeded = {}
    for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', ''))):
        m = json.load(open(d + 'meta.json'))
        seeded.setdefault(m['property'], []).append((os.path.basename(d[:-1]), m))
    out = [INTRO.rstrip(), '', '## The properties', '']
    for pid in sorted(props):
        p = props[pid]
        out += ['### %s %s' % (pid, p['title']), '', p['statement'], '']
        if pid in na:
            out += ['**Not applicable.** ' + na[pid], '']
            continue
        out += ['*Decided by* `sa/rules/%s.py`: %s' % (RULES[pid][1], doc(RULES[pid][1])), '']
        if pid in NOTES:
            out += [NOTES[pid], '']
        if pid in fixes:
            out += ['*Defects found here and repaired:* ' + '; '.join(
                '%s (%s)' % (t, c) for c, t in fixes[pid]) + '.', '']
        if pid in seeded:
            out += ['*Planted and caught:* ' + '; '.join(
                '`%s` (%s)' % (n, m['what_it_breaks']) for n, m in seeded[pid]) + '.', '']
    out += [TAIL.strip(), '']
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))


main()
