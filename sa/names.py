"""Members and functions under another name.

The specifications address members and private functions by the names of the analysed revision (base.json, made by
tools/gen_base.py).  Where such a name is gone and the same class has new members (functions) of exactly the same type
(signature), as many as are gone, the new ones are taken for the old ones, in order of declaration.  The program is
rewritten to the old names, so everything else is unaffected; a wrong guess could only make an obligation fail that
then names a member of the same type and class, hence a guess is made only when the counts agree."""
import json
import os

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'base.json')


def shape(prog):
    """the names of a program"""
    recs = {r: [[f['name'], f['t']] for f in v['fields']] for r, v in prog.recs.items() if r.startswith('ESKF_VIO_BACKEND::')}
    fns = [[f['rec'], f['fn'], sig(f)] for f in prog.fns.values() if f.get('rec', '').startswith('ESKF_VIO_BACKEND::')]
    return {'recs': recs, 'fns': sorted(fns)}


def sig(f):
    return '%s(%s)' % (f.get('ret'), ','.join(p['t'] for p in f['params']))


def match(old, new):
    """{new name: old name} for [(name, type)]: per type, as many gone as new"""
    o, n = {x for x, _ in old}, {x for x, _ in new}
    out = {}
    for t in {t for _, t in old}:
        gone = [x for x, u in old if u == t and x not in n]
        come = [x for x, u in new if u == t and x not in o]
        if gone and len(gone) == len(come):
            out.update(zip(come, gone))
    return out


def canon(prog):
    """rewrites the program; returns the renamings [(class, new, old)]"""
    if not os.path.exists(BASE):
        return []
    base = json.load(open(BASE))
    done = []
    fields = {}
    for r, old in base['recs'].items():
        v = prog.recs.get(r)
        if v is None:
            continue
        m = match([tuple(x) for x in old], [(f['name'], f['t']) for f in v['fields']])
        if m:
            fields[r] = m
            for f in v['fields']:
                f['name'] = m.get(f['name'], f['name'])
            done += [(r, a, b) for a, b in m.items()]
    if fields:
        def vis(n, rec):
            if isinstance(n, dict):
                if n.get('k') == 'mem' and n.get('rec') in fields:
                    n['f'] = fields[n['rec']].get(n['f'], n['f'])
                for x in n.values():
                    if isinstance(x, (dict, list)):
                        vis(x, rec)
            elif isinstance(n, list):
                for x in n:
                    vis(x, rec)
        for f in prog.fns.values():
            for i in f.get('inits', []) or []:
                if 'f' in i and f.get('rec') in fields:
                    i['f'] = fields[f['rec']].get(i['f'], i['f'])
            vis([f.get('body'), f.get('inits')], f.get('rec'))
        for v in prog.vars.values():
            vis(v.get('init'), None)
        for v in prog.recs.values():
            vis(v, None)
    by, calls = {}, {}
    for r, fn, s in base['fns']:
        by.setdefault(r, []).append((fn, s))
    for r, old in by.items():
        new = [(f['fn'], sig(f)) for f in prog.fns.values() if f.get('rec') == r]
        m = match(sorted(set(old)), sorted(set(new), key=lambda x: x))
        m = {a: b for a, b in m.items() if a.split('::')[-1] not in (r.split('::')[-1], '~' + r.split('::')[-1])}
        for f in prog.fns.values():
            if f.get('rec') == r and f['fn'] in m:
                done.append((r, f['fn'], m[f['fn']]))
                f['fn'] = m[f['fn']]
                f['name'] = f['fn'].split('::')[-1]
                calls[f['key']] = f['fn']
    if calls:
        def call(n):
            if isinstance(n, dict):
                if n.get('key') in calls and 'fn' in n:
                    n['fn'] = calls[n['key']]
                for x in n.values():
                    if isinstance(x, (dict, list)):
                        call(x)
            elif isinstance(n, list):
                for x in n:
                    call(x)
        for f in prog.fns.values():
            call([f.get('body'), f.get('inits')])
    return done
