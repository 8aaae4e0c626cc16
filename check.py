#!/usr/bin/env python3
"""Decide one property of durus from its source:  check.py <ID>"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)

from sa.model import Program, ModelError, REPO     # noqa: E402
from sa.rule import Check                           # noqa: E402
from sa.rules import RULES                          # noqa: E402


def known(pid):
    """known findings: lines 'known: property=<id> key=<rule>|<function>|<key> ...'"""
    out = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property=%s ' % pid):
                out.append(line.strip().split(' key=', 1)[1])
    return out


def main(pid, tier):
    t0 = time.time()
    title, module = RULES[pid]
    evidence = os.path.join(HERE, 'evidence')
    os.makedirs(evidence, exist_ok=True)
    program = Program(REPO)
    check = Check(pid, program, tier)
    mod = importlib.import_module('sa.rules.' + module)
    try:
        mod.decide(check)
    except (ModelError, SyntaxError):
        raise
    except Exception as e:
        traceback.print_exc()
        check.undecided.append('internal error: %r' % e)
    listed = known(pid)
    new, old = [], []
    for f in check.findings:
        k = '%s|%s|%s' % (f['rule'], f['function'], f['key'])
        (old if k in listed else new).append(f)
    print('%s %s' % (pid, title))
    print('analysed %d functions, %d statements, %d entries, %d paths, %d events' % (
        len(check.functions), len(check.statements), len(check.entries),
        check.paths, check.events))
    for r, n in sorted(check.obligations.items()):
        print('  rule %s: %d instances' % (r, n))
    for u in check.undecided:
        print('  undecided: %s' % u)
    for n in check.notes:
        print('  note: %s' % n)
    verdict = 'violation' if new else 'holds'
    ev = {
        'property': pid,
        'tier': 'thorough' if tier == 'thorough' else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': ' '.join((mod.__doc__ or '').split()),
            'functions': len(check.functions),
            'statements': len(check.statements),
            'entries': len(check.entries),
            'paths': check.paths,
            'events': check.events,
            'rule_instances': check.obligations,
            'analysed_entries': ['%s: %s (%s)' % (r, e, 'given up' if n is None
                                                   else '%d outcomes' % n)
                                 for r, e, n in check.entries],
            'analysed_functions': sorted(check.functions),
            'undecided': check.undecided,
            'notes': check.notes,
            'verdict': verdict,
            'findings': new,
            'known_findings': old,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 1),
        'violations': len(new),
    }
    path = os.path.join(evidence, pid + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    for f in old:
        print('KNOWN-FINDING: property=%s %s:%s %s: %s' % (
            pid, f['file'], f['line'], f['function'], f['message']))
    for f in new:
        print('%s:%s: %s: [%s] %s%s' % (f['file'], f['line'], f['function'], f['rule'],
                                        f['message'],
                                        ' (entry %s)' % f['entry'] if f['entry'] else ''))
    if new:
        rdir = os.path.join(evidence, 'replay')
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, pid + '.json')
        with open(rpath, 'w') as f:
            json.dump({'property': pid, 'findings': new}, f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (pid, rpath))
        return 1
    return 0


if __name__ == '__main__':
    if len(sys.argv) < 2 or sys.argv[1] not in RULES:
        print('usage: check.py ' + '|'.join(sorted(RULES)))
        sys.exit(2)
    rc = [3]

    def go():
        try:
            rc[0] = main(sys.argv[1], os.environ.get('VERIF_TIER', 'quick')
                         if len(sys.argv) < 3 else sys.argv[2])
        except ModelError as e:
            print('analysis broken: %s' % e)
            rc[0] = 2
        except SyntaxError as e:
            print('analysis broken: %s' % e)
            rc[0] = 2
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
