#!/usr/bin/env python3
"""Makes and confirms planted changes in a scratch copy.  seed.py make SPECFILE [ids..] | test [ids..] | catch [ids..]
Never touches /repo; the scratch copy is /tmp/scr/repo (remove /tmp/scr when done)."""
import importlib.util, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/scr'
R = S + '/repo'
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch():
    if not os.path.exists(R):
        os.makedirs(S, exist_ok=True)
        sh('cp -a /repo %s; rm -rf %s/_build %s/eskf_vio_backend/build %s/output/* %s/eskf_vio_backend/output/*' % (R, R, R, R, R))
        for f in ('build.sh', 'test.sh'):
            t = open('/opt/vp/' + f).read().replace('/repo', R).replace('/opt/vp/build.sh', S + '/build.sh')
            open(S + '/' + f, 'w').write(t)
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=R)
def build():
    r = sh('bash %s/build.sh' % S)
    return r.returncode == 0, r.stdout[-3000:]
def tests():
    sh('bash %s/test.sh %s/out.json' % (S, S))
    got = set(json.load(open(S + '/out.json'))['passed'])
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(want - got)
def demo(i):
    return sh('bash %s/seeded/%s/demo.sh' % (V, i), cwd=R)
def make(spec, only):
    m = importlib.util.spec_from_file_location('spec', spec)
    x = importlib.util.module_from_spec(m); m.loader.exec_module(x)
    for s in x.SEEDS:
        if only and s['id'] not in only: continue
        scratch()
        for f, a, b in s['edits']:
            p = R + '/eskf_vio_backend/' + f
            t = open(p).read()
            assert t.count(a) == 1, (s['id'], f, t.count(a), a)
            open(p, 'w').write(t.replace(a, b))
        d = V + '/seeded/' + s['id']
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh('git diff', cwd=R).stdout)
        open(d + '/demo.cpp', 'w').write('#include "common.hpp"\nint main() {\n' + s['demo'].strip('\n') + '\n    std::_Exit(0);\n}\n' if 'int main' not in s['demo'] else '#include "common.hpp"\n' + s['demo'])
        shutil.copy(V + '/tools/common.hpp', d); shutil.copy(V + '/tools/demo.sh', d)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print('made', s['id'])
def ids(only):
    return [i for i in sorted(os.listdir(V + '/seeded')) if (not only or i in only) and os.path.exists(V + '/seeded/%s/patch.diff' % i)]
def test(only):
    scratch()
    ok, o = build()
    print('base build', ok)
    bad = []
    for i in ids(only):
        r = demo(i)
        if r.returncode: bad.append((i, 'demo fails on the unchanged tree: ' + r.stdout[-600:]))
    for i in ids(only):
        scratch()
        a = sh('git apply %s/seeded/%s/patch.diff' % (V, i), cwd=R)
        if a.returncode: bad.append((i, 'does not apply')); continue
        ok, o = build()
        if not ok: bad.append((i, 'does not build: ' + o)); continue
        t = tests()
        if t: bad.append((i, 'tests fail: %s' % t))
        sh('bash %s/build.sh' % S)
        r = demo(i)
        if r.returncode == 0: bad.append((i, 'demo passes with the change'))
        if r.returncode == 3: bad.append((i, 'demo does not compile: ' + r.stdout[-500:]))
        print(i, 'tests', 'ok' if not t else t, 'demo', r.returncode, r.stdout.strip()[-120:], flush=True)
    scratch(); build()
    for b in bad: print('BAD', b[0], b[1])
def catch(only):
    scratch()
    for i in ids(only):
        scratch()
        sh('git apply %s/seeded/%s/patch.diff' % (V, i), cwd=R)
        p = json.load(open(V + '/seeded/%s/meta.json' % i))['property']
        r = sh('VERIF_REPO=%s python3-vt %s/run.py %s quick' % (R, V, p))
        l = [x for x in r.stdout.split('\n') if x.strip()]
        print(i, p, {0: 'MISSED', 1: 'caught', 2: 'NO ANSWER'}.get(r.returncode, r.returncode), '|', (l[1] if r.returncode == 1 and len(l) > 1 else l[-1] if l else '')[:200], flush=True)
    scratch()
if __name__ == '__main__':
    {'make': lambda: make(sys.argv[2], sys.argv[3:]), 'test': lambda: test(sys.argv[2:]), 'catch': lambda: catch(sys.argv[2:])}[sys.argv[1]]()
