"""Runs the rules of one property, applies the known-findings list, writes evidence and replay files."""
import hashlib
import importlib
import json
import os
import re
import sys
import time
import traceback

import absint
import facts
from facts import ToolError, VERIF
from registry import MODULES, META

KNOWN = os.path.join(VERIF, 'known-findings.json')


def known(pid):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [k for k in d.get('known', []) if k['property'] == pid]


def main(argv):
    if not argv:
        print('usage: check.py <property> [--thorough]')
        return 2
    pid = argv[0]
    tier = 'thorough' if '--thorough' in argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    if pid not in MODULES:
        print('no check for', pid)
        return 2
    sys.setrecursionlimit(20000)
    if tier == 'quick':
        absint.DEADLINE[0] = t0 + 780
    try:
        import rulelib
        ck = rulelib.Check(pid, tier)
    except ToolError as e:
        print('TOOL-ERROR property=%s %s' % (pid, e))
        return 2
    try:
        mod = importlib.import_module('rules.' + MODULES[pid])
        mod.RULES[pid](ck)
    except facts.NoSuchUse as e:
        import scen
        scen.unusable(ck, e)
    except Exception as e:
        # what was judged before still counts
        ck.errors.append(str(e) if isinstance(e, ToolError) else '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-12)))
    ck.join()
    kf = known(pid)
    rest, seen = [], set()
    for v in ck.viol:
        hit = None
        for k in kf:
            if k['rule'] == v['rule'] and k.get('construct') in (None, v['construct']) and re.fullmatch(k['what'], v['what']):
                hit = k
                break
        if hit is None:
            rest.append(v)
        elif hit['id'] not in seen:
            seen.add(hit['id'])
            print('KNOWN-FINDING: property=%s %s' % (pid, hit['title']))
    meta = META[pid]
    wall = time.time() - t0
    cov = {
        'obligations': ck.obl,
        'discharged': ck.obl - len(ck.viol),
        'checker_cmd': 'python3 /verif/check.py %s' % pid,
        'trusted_base': META['_trusted'],
        'explanation': meta['method'],
        'rules': ck.rules,
        'analysed_functions': len(ck.fns),
        'abstract_paths': ck.paths,
        'scenarios': ck.constructs,
        'functions': sorted(ck.fns),
        'constructs_not_understood': sorted(ck.unknown),
        'known_findings_matched': sorted(seen),
        'notes': ck.notes,
        'not_analysed': ck.errors[:40],
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': meta['level'],
          'coverage': cov, 'assumptions': meta.get('assumptions', []), 'wall_s': round(wall, 3), 'violations': len(rest)}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.%d' % (pid, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(d, pid + '.json'))
    print('%s: %d obligations on %d abstract paths through %d functions, %d violated (%.1f s)' % (pid, ck.obl, ck.paths, len(ck.fns), len(rest), wall))
    if rest:
        rd = os.path.join(facts.BUILD, 'replay')
        os.makedirs(rd, exist_ok=True)
        for v in rest[:40]:
            h = hashlib.sha256(json.dumps([v['rule'], v['construct'], v['what']]).encode()).hexdigest()[:10]
            path = os.path.join(rd, '%s-%s.json' % (pid, h))
            json.dump({'property': pid, **v}, open(path, 'w'), indent=1)
            print('  rule %s: %s (%s): %s' % (v['rule'], v['construct'], v['location'], v['what']))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if ck.errors:
        # no violation was found, but not everything could be analysed: no answer
        for e in ck.errors[:10]:
            print('TOOL-ERROR property=%s %s' % (pid, e))
        return 2
    return 0
