#!/usr/bin/env python3-vt
"""Decides one property of /repo's current source.  Usage: run.py <property id> [quick|thorough]

exit 0: every decided obligation holds; exit 1 with a VIOLATION line: one does not; exit 2: nothing could be decided.
"""
import hashlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa import ir                      # noqa: E402
from sa.core import Check              # noqa: E402
from sa.registry import REG            # noqa: E402


def known(pid):
    """recorded findings of a property: list of (regex over the report, description)"""
    out = []
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    except FileNotFoundError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    try:
        prog = ir.load()
    except ir.AnalysisError as x:
        print('ERROR: %s' % x)
        return 2
    ck = Check(pid, prog, seed, tier)
    try:
        REG[pid](ck)
    except ir.AnalysisError as x:
        ck.undecided(str(x))
    except Exception as x:             # a construct the analysis does not know: nothing is decided from here on
        traceback.print_exc()
        ck.undecided('internal: %s: %s' % (type(x).__name__, x))
    for m in ck.missing:
        ck.undecided('coverage: ' + m)
    kf = known(pid)
    new, old = [], []
    seen = set()
    for v in ck.viol:
        key = (v['file'], v['line'], v['what'])
        if key in seen:
            continue
        seen.add(key)
        txt = '%s %s:%s %s' % (v['function'], v['file'], v['line'], v['what'])
        hit = next((d for r, d in kf if r.search(txt)), None)
        (old if hit else new).append((v, txt, hit))
    decided = ck.nproved + ck.ntested + len(ck.viol)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - t0, 2),
        'coverage': {
            'explanation': 'abstract interpretation of the typed program from %d entry states; every obligation is a condition on the abstract exit '
                           'states, discharged by structural identity of value-graph nodes or by random interpretation of both nodes' % len(ck.shapes),
            'source_files': len(prog.srcs), 'functions_parsed': len(prog.fns),
            'functions_analysed': sorted({prog.fns[k]['fn'].replace('ESKF_VIO_BACKEND::', '') for k in ck.fns if k in prog.fns}),
            'entry_points': sorted(e.replace('ESKF_VIO_BACKEND::', '') for e in ck.entry),
            'entry_states': len(ck.shapes), 'exit_states': ck.exits or sum(1 for _ in ck.shapes),
            'obligations': ck.nob, 'discharged_structurally': ck.nproved, 'discharged_by_random_interpretation': ck.ntested,
            'obligations_on_unreached_exits': ck.nunreached, 'valuations_compared': ck.samples,
            'undecided': len(ck.und), 'undecided_reasons': sorted(ck.und)[:20],
            'interpreter': ck.stat, 'structural_rules': ck.rules, 'sites': ck.sites,
            'samples': ck.shapes[:12], 'notes': ck.notes,
            'violations': [t for _, t, _ in new], 'known_findings': [t for _, t, _ in old],
        },
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s (%s): %d entry states, %d obligations: %d structural, %d by random interpretation, %d on unreached exits, %d undecided reasons, %.1f s' % (
        pid, tier, len(ck.shapes), ck.nob, ck.nproved, ck.ntested, ck.nunreached, len(ck.und), time.time() - t0))
    for u in sorted(ck.und)[:10]:
        print('  undecided: ' + u)
    for _, t, d in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, d))
    if new:
        p = os.path.join(HERE, 'evidence', 'report-%s.txt' % pid)
        with open(p, 'w') as f:
            for v, t, _ in new:
                f.write('%s:%s: in %s\n  rule: %s\n  entry state: %s\n  witness valuation: %s\n\n' % (
                    v['file'], v['line'], v['function'], v['what'], v['shape'], json.dumps(v['witness'], default=str)[:3000]))
        for v, t, _ in new[:5]:
            print('  %s:%s: %s: %s [%s]' % (v['file'], v['line'], v['function'].replace('ESKF_VIO_BACKEND::', ''), v['what'], v['shape']))
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if decided == 0:
        print('ERROR: nothing could be decided')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
