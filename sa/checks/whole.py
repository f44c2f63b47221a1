"""C25 and C26: properties of every operation, decided over the entry states of all the other checks and over hostile ones."""
import multiprocessing
import os
import signal
import sys
import time
import traceback
from ..core import Check
from . import ends, hostile

BUDGET = {'quick': 480, 'thorough': 780}     # seconds for everything; a job gets what is left


def job(a):
    pid, prog, seed, tier, kinds, end = a
    from ..registry import REG
    sys.setrecursionlimit(20000)
    ck = Check(pid if isinstance(pid, str) else 'C26', prog, seed, tier)
    ck.harvest = kinds

    def late(*_):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(max(1, int(end - time.time())))
    try:
        (REG[pid] if isinstance(pid, str) else pid)(ck)
        ck.flush()
        err = None
    except TimeoutError:
        err = 'out of time'
        ck.current = None
    except Exception as x:
        err = '%s: %s' % (type(x).__name__, x)
        if os.environ.get('VERIF_TRACE'):
            traceback.print_exc()
    signal.alarm(0)
    return (pid if isinstance(pid, str) else pid.__name__, err, ck.events, ck.nevents, ck.loops, ck.shapes, ck.fns, ck.entry, ck.stat, sorted(ck.und)[:3] if err or not ck.shapes else [])


ARGS = None


def run1(i):
    return job(ARGS[i])


def harvest(ck, kinds, ids, extra=()):
    """events of all shapes, in parallel"""
    global ARGS
    end = time.time() + BUDGET[ck.tier]
    ARGS = [(x, ck.prog, ck.seed, ck.tier, frozenset(kinds), end) for x in list(extra) + list(ids)]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(run1, range(len(ARGS)), chunksize=1)
    loops = set()
    events = {}
    for pid, err, ev, n, lp, shapes, fns, entry, stat, und in res:
        if err:
            ck.undecided('shapes of %s: %s' % (pid, err))
        for u in und:
            ck.undecided('shapes of %s: %s' % (pid, u))
        for k, e in ev.items():
            if e[0] is True or k not in events:
                events[k] = e
        loops |= lp
        ck.shapes += shapes
        ck.fns |= fns
        ck.entry |= entry
        for k, v in stat.items():
            ck.stat[k] = ck.stat.get(k, 0) + v
    return events, loops


def others(*but):
    from ..registry import REG
    return sorted(x for x in REG if x not in ('C25', 'C26') + but)


def c25(ck):
    """loops: ranked from their text; executed in the states of all shapes"""
    ms = ends.Modset(ck.prog)
    events, seen = harvest(ck, ('loop',), others(), hostile.all_(ck.thorough))
    by = {}
    ranked = set()
    for f, n in ends.loops(ck.prog):
        where = (f['fn'], f['file'], n['l'])
        kind, why = ends.rank(ms, n)
        ck.sites += 1
        if kind:
            ck.rule(True, 'the loop ends: %s' % why, where)
            by[kind] = by.get(kind, 0) + 1
            ranked.add(where)
        elif (f['key'], n['l']) in seen:
            ck.rule(True, 'the loop ends in every executed state', where)
            by['execution'] = by.get('execution', 0) + 1
            ck.notes.append('%s:%d: %s; ends in every entry state that reaches it' % (f['fn'].replace('ESKF_VIO_BACKEND::', ''), n['l'], why))
        else:
            ck.undecided('%s:%d: %s, and no entry state reaches the loop' % (f['fn'], n['l'], why))
    ck.rules.append('loops ended by: ' + ', '.join('%s %d' % x for x in sorted(by.items())))
    rec = ends.recursion(ck.prog)
    for k in ck.prog.fns:
        if k not in rec:
            ck.rule(True, 'no recursion', (k, '', 0))
        else:
            ck.undecided('recursion in ' + k)
    for (kind, where, msg), (dec, shape, wit) in sorted(events.items(), key=str):
        if where in ranked:
            continue
        ck.nob += 1
        if dec is True:
            ck.viol.append({'shape': shape, 'what': msg, 'function': where[0], 'file': where[1], 'line': where[2], 'witness': wit})
        elif dec is False:
            ck.nunreached += 1
        else:
            ck.undecided('%s at %s: not decided' % (msg, where))


def c26(ck):
    """accesses: every dereference, element access, block access and front/back the interpretation meets"""
    before = dict(ck.stat)
    events, seen = harvest(ck, ('memory',), others(), hostile.all_(ck.thorough))
    n = sum(ck.stat.get(k, 0) - before.get(k, 0) for k in ('derefs', 'index', 'front', 'blocks'))
    ck.nob += n
    bad = 0
    for (kind, where, msg), (dec, shape, wit) in sorted(events.items(), key=str):
        if dec is True:
            bad += 1
            ck.viol.append({'shape': shape, 'what': msg, 'function': where[0], 'file': where[1], 'line': where[2], 'witness': wit})
        elif dec is False:
            ck.nunreached += 1
        else:
            ck.undecided('%s at %s: not decided' % (msg, where))
    ck.nproved += n - bad
    ck.rules.append('accesses checked: ' + ', '.join('%s %d' % (k, ck.stat.get(k, 0) - before.get(k, 0)) for k in ('derefs', 'index', 'front', 'blocks')))
