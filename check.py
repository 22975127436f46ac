#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--repo DIR]

Static check of one property over the current source in /repo.
exit 0: every obligation discharged (or outside the decided fragment);
exit 1: a VIOLATION line; exit 2: the analysis lost its anchors."""
import json
import os
import re
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from rules.base import Check                     # noqa: E402
from rules import all_rules                      # noqa: E402
from sa.model import AnalysisBroken, Model       # noqa: E402


def known(pid):
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)$', ln.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main(argv):
    pid = None
    tier = os.environ.get('VERIF_TIER') or 'quick'
    repo = '/repo'
    verbose = False
    out = None
    it = iter(argv)
    for a in it:
        if a == '--tier':
            tier = next(it)
        elif a == '--repo':
            repo = next(it)
        elif a == '--selfcheck':
            pass
        elif a == '-v':
            verbose = True
        elif a == '--no-evidence':
            out = False
        else:
            pid = a
    t0 = time.time()
    rules = all_rules()
    if '--selfcheck' in argv:
        m = Model(repo)
        print('%d modules, %d classes, %d functions; %d properties' % (
            len(m.modules), len(m.classes), len(m.funcs), len(rules)))
        return 0
    if pid not in rules:
        print('unknown property %s' % pid)
        return 2
    fn = rules[pid]
    try:
        m = Model(repo)
        C = Check(m, pid, tier)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    try:
        fn(C)
    except Exception as e:
        C.failed(e)
    done = any(o[3] == 'discharged' for o in C.obligations)
    if not C.findings and (C.broken or not done):
        for e in C.internal:
            traceback.print_exception(e)
        print('ANALYSIS-BROKEN property=%s %s' % (
            pid, '; '.join(C.broken) or 'nothing decided'))
        return 2
    for e in C.internal:
        traceback.print_exception(e)
        print('INTERNAL: a part of the rule is undecided')
    kn = known(pid)
    new = []
    for f in C.findings:
        if f.key.replace(' ', '_') in kn:
            print('KNOWN-FINDING: property=%s %s (%s)' % (
                pid, kn[f.key.replace(' ', '_')], f.where))
        else:
            new.append(f)
    by = {}
    for r, c, w, v in C.obligations:
        d = by.setdefault(r, {'obligations': 0, 'discharged': 0,
                              'undecided': 0, 'constructs': set()})
        d['obligations'] += 1
        d['constructs'].add(c)
        if v == 'discharged':
            d['discharged'] += 1
        elif v == 'undecided':
            d['undecided'] += 1
    nob = len(C.obligations)
    nd = sum(1 for o in C.obligations if o[3] == 'discharged')
    ev = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough')
        else 'quick',
        'seed': int(os.environ.get('VERIF_SEED') or 0),
        'level': 'other',
        'coverage': {
            'explanation': (
                'Static analysis of the current source: %d entry points '
                'analysed, %d functions expanded; %d obligations raised by '
                '%d rules, %d discharged, %d outside the decided fragment, '
                '%d violated (%d of them known findings).' % (
                    len(C.entries), len(C.functions), nob, len(by), nd,
                    len(C.undecided), len(C.findings),
                    len(C.findings) - len(new))),
            'obligations': nob, 'discharged': nd,
            'rules': {r: {'obligations': d['obligations'],
                          'discharged': d['discharged'],
                          'undecided': d['undecided'],
                          'constructs': sorted(d['constructs'])[:60]}
                      for r, d in sorted(by.items())},
            'entry_points': sorted(set(C.entries)),
            'functions': sorted(C.functions),
            'undecided': sorted(set(C.undecided))[:40],
            'unsupported': sorted(C.unsupported)[:40],
            'notes': C.notes[:40],
            'source_digest': m.digest(),
        },
        'assumptions': [
            'semantics of the Python fragment as modelled by the analysis '
            '(DESIGN.md); callables supplied by users (coerce, check, '
            'default, json_in, ...) are opaque'],
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    if out is not False:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
            fh.write('\n')
    print('%s: %s' % (pid, ev['coverage']['explanation']))
    if verbose:
        for u in sorted(set(C.undecided)):
            print('  undecided', u)
        for u in sorted(C.unsupported):
            print('  unsupported', u)
    for f in new:
        print('  %s [%s] at %s: %s' % (f.rule, f.construct, f.where, f.msg))
        if f.detail:
            print('      ' + f.detail)
    if new:
        rp = os.path.join('evidence', pid + '.json')
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
