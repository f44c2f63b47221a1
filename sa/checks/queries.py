"""C35: queries and diagnostics; C36: message objects."""
from .. import term as tm
from ..core import same, Skip, NS
from ..engine import base
from . import ref
from .build import SOLVED, INITIALIZED, NEED_INIT, BackendWorld, HINT, draw
from .motion import mdraw


def everything(w, ex, roots, msg):
    """obligation: all that existed at entry is as it was"""
    n = 0
    for o in roots:
        for p, cond, wh in w.diff(w.st, ex.st, o, o, '', set()):
            w.req(ex, cond, '%s: %s' % (msg, p.lstrip('.')), wh)
            n += 1
    for g, o in w.st.glob.items():
        o1 = ex.st.glob.get(g)
        if o1 != o:
            w.req(ex, False, '%s: global object replaced' % msg)
            continue
        for p, cond, wh in w.diff(w.st, ex.st, o, o, '', set()):
            w.req(ex, cond, '%s: %s' % (msg, p.lstrip('.')), wh)
            n += 1
    w.req(ex, True, msg)


def estimator(ck, name, **kw):
    kw.setdefault('cams', 2)
    kw.setdefault('nframes', 3)
    kw.setdefault('tracks', {4: (1, [(0, 1)] * 3), 9: (2, [(0,), (1,)], SOLVED), 7: (1, [(0,)])})
    b = BackendWorld(ck, name, nitems=kw.pop('nitems', 3), natt=kw.pop('natt', 3), n=kw.pop('n', 64), seeds=1, **kw)
    w = b.w
    # pending messages
    s = w.new('IMUMessage')
    w.sym(s, 'pending', HINT)
    w.push(b.dl, 'imuMeas', ('P', s))
    m = w.new('FeaturesMessage')
    w.set(m, 'timeStamp', tm.leaf('pending.t', 's', 'time'))
    for f in (4, 11):
        o = w.new('FeatureObserve')
        w.mput(o, 'norms', 0, tm.mleaf('pending.z%d' % f, 2, 1, 'norm'))
        w.push(m, 'ids', f)
        w.push(m, 'observes', ('P', o))
    w.push(b.dl, 'featMeas', ('P', m))
    b.sample, b.message = s, m
    return b


def c35(ck):
    def each(ck, b, fn, this, args, nparams=None, what=None):
        w = b.w
        fs = [f for f in ck.prog.byname.get(NS + fn, []) if len(f['params']) == len(args)]
        if not fs:
            raise Skip('no function ' + fn)
        for f in fs:
            exits = w.run(f, this, args)
            out = {a[1] for a in args if isinstance(a, tuple) and a[:1] == ('CELL',)}
            for ex in exits:
                if ex.st.taint is None and not w.reach(ex.st.gate()):
                    continue
                everything(w, ex, [b.b], '%s changes nothing' % fn)
            w.coverage(exits, lambda ex: True, fn + ' has no exit')

    def shape(kind):
        kw = {'full': {}, 'empty': dict(nframes=0, tracks={}, nitems=0, natt=0), 'one': dict(nframes=1, cams=1, tracks={4: (1, [(0,)])}, nitems=1, natt=1), 'five': dict(nframes=5, window=4, tracks={4: (1, [(0, 1)] * 5), 9: (3, [(0,)] * 3, SOLVED)})}[kind]

        def run(body):
            b = estimator(ck, 'queries, ' + kind, **kw)
            body(b)
        return run

    def printing(ck):
        for kind in ('full', 'empty', 'one'):
            def body(b):
                w = b.w
                for fn, objs in (('FrameManager::Information', [b.fm]), ('FeatureManager::Information', [b.ftm]), ('Frame::Information', b.map.frames),
                                 ('Feature::Information', list(b.map.feats.values())), ('FeaturesMessage::Information', [b.message]), ('IMUMessage::Information', [b.sample])):
                    for o in objs[:2]:
                        each(ck, b, fn, o, [])
            shape(kind)(body)

        def combined(b):
            w = b.w
            m = w.new('CombinedMessage')
            w.set(m, 'featMeas', ('P', b.message))
            w.push(m, 'imuMeas', ('P', b.sample))
            w.push(m, 'imuMeas', ('P', b.sample))
            for ex in w.run('CombinedMessage::Information', m, []):
                everything(w, ex, [b.b, m], 'printing a message changes nothing')
        shape('one')(combined)

        def configuration(b):
            w = b.w
            ee = w.run('Configurator::GetInstance', None, [])
            w.st = ee[0].st
            cf = w.val(ee[0].ret, w.st)[1]
            for k in range(2):
                w.push(cf, 'vision.default_q_bc', tm.qleaf('cfg.q%d' % k))
                w.push(cf, 'vision.default_p_bc', tm.mleaf('cfg.p%d' % k, 3, 1))
            for ex in w.run('Configurator::Information', cf, []):
                everything(w, ex, [b.b, cf], 'printing the configuration changes nothing')
        shape('one')(configuration)

    def lookups(ck):
        for kind in ('full', 'empty', 'one', 'five'):
            def body(b):
                w = b.w
                for k in (0, 1, 2, 9):
                    each(ck, b, 'FrameManager::GetFrame', b.fm, [k])
                each(ck, b, 'FrameManager::GetMaxFrameID', b.fm, [])
                each(ck, b, 'FrameManager::NeedMarginalize', b.fm, [])
                for f in b.map.feats.values():
                    each(ck, b, 'Feature::FinalFrameID', f, [])
                    for fr in (1, 2, 7):
                        for c in (0, 1, 3):
                            z = w.cell(tm.mleaf('out', 2, 1))
                            each(ck, b, 'Feature::GetNorm', f, [fr, c, ('CELL', z)])
                for c in (0, 3):
                    for obs in list(b.map.obs.values())[:2]:
                        z = w.cell(tm.mleaf('out', 2, 1))
                        each(ck, b, 'FeatureObserve::GetNorm', obs[0], [c, ('CELL', z)])
                q = w.cell(tm.qleaf('outq'))
                each(ck, b, 'AttitudeEstimate::GetAttitude', b.at, [tm.leaf('T', 's', 'tick'), tm.leaf('tolerance', 's', 'period'), ('CELL', q)])
            shape(kind)(body)

    def decisions(ck):
        for kind in ('full', 'one', 'five'):
            for few in (0, 2, 99):
                def body(b):
                    w = b.w
                    w.set(b.fm, 'minKeyframeTrackedFeatureNum', few)
                    for o in b.map.frames:
                        each(ck, b, 'FrameManager::IsKeyFrame', b.fm, [('P', o)])
                    each(ck, b, 'FrameManager::IsKeyFrame', b.fm, [None])
                    for o in b.map.frames:
                        for p in b.map.frames:
                            each(ck, b, 'Frame::GetCovisibleFeatures', o, [('P', p)])
                shape(kind)(body)

    def publishing(ck):
        for kind in ('full', 'empty', 'one'):
            def body(b):
                w = b.w
                for fn in ('Backend::PublishPropagateState', 'Backend::PublishUpdateState'):
                    out = w.new('IMUFullState')
                    w.sym(out, 'out')
                    t = w.cell(tm.leaf('out.t'))
                    each(ck, b, fn, b.b, [out, ('CELL', t)])
            shape(kind)(body)

    def shared(ck):
        # the list of shared features is right, and each is the feature itself
        b = estimator(ck, 'shared features', nframes=3, tracks={4: (1, [(0, 1)] * 3), 9: (2, [(0,), (1,)]), 7: (1, [(0,)]), 5: (1, [(0,), (0,)])})
        w = b.w
        sees = [set(w.mitems(o, 'features')) for o in b.map.frames]
        for i, o in enumerate(b.map.frames):
            for j, p in enumerate(b.map.frames):
                for ex in w.run('Frame::GetCovisibleFeatures', o, [('P', p)]):
                    r = w.val(ex.ret, ex.st)
                    if not (isinstance(r, tuple) and r and r[0] == 'O'):
                        ck.undecided('result of GetCovisibleFeatures')
                        continue
                    got = sorted(str(x) for x in w.seqv(r[1], '', ex.st))
                    want = sorted(str(('P', b.map.feats[f])) for f in sees[i] & sees[j])
                    w.req(ex, got == want, 'the shared features of two frames are those both link')
    ck.run(printing, lookups, decisions, publishing, shared)
    # unbounded: a function declared const-like by its name writes no member of an object that outlives it
    names = ('Information', 'GetFrame', 'GetMaxFrameID', 'NeedMarginalize', 'IsKeyFrame', 'GetNorm', 'FinalFrameID', 'GetAttitude', 'GetCovisibleFeatures')
    ck.notes.append('queries covered: ' + ', '.join(names))


# ---- C36 ----
def c36(ck):
    def vecs(w, t, xs, tag):
        o = w.alloc(t)
        for x in xs:
            w.push(o, '', x)
        return o

    def ctors(rec, n):
        return [f for f in ck.prog.fns.values() if f.get('ctor') and f.get('rec') == NS + rec and len(f['params']) == n]

    def imu(ck):
        fs = ctors('IMUMessage', 3)
        if not fs:
            raise Skip('no constructor of IMUMessage')
        for f in fs:
            w = ck.world('IMU message', n=16, seeds=1)
            o = w.eng.alloc_rec(w.st, NS + 'IMUMessage', 'm', init=False)
            byname = {}
            args = []
            for p in f['params']:
                x = tm.leaf(p['name'], 's', 'time') if base(p['t'])[0] == 'f' else tm.mleaf(p['name'], 3, 1)
                byname[p['name']] = x
                args.append(('CELL', w.cell(x)))
            for ex in w.run(f, o, args):
                # order of the declaration that users see: gyro, accel, timeStamp
                for nm, a in zip(('gyro', 'accel', 'timeStamp'), args):
                    w.req(ex, same(w.get(o, nm, ex.st), w.get(a[1]), 0.0), 'an IMU message holds the %s it was built from' % nm, w.where(o, nm, ex.st))

    def features(ck):
        fs = ctors('FeaturesMessage', 4)
        if not fs:
            raise Skip('no constructor of FeaturesMessage')
        for f in fs:
            for nid in (0, 1, 2, 3):
                for nob in (0, 1, 2, 3):
                    for nfl in (0, 2):
                        w = ck.world('features message of %d ids, %d observations, %d flags' % (nid, nob, nfl), n=8, seeds=1)
                        o = w.eng.alloc_rec(w.st, NS + 'FeaturesMessage', 'm', init=False)
                        ids = [7, 3, 9][:nid]
                        obs = []
                        for k in range(nob):
                            x = w.new('FeatureObserve')
                            w.mput(x, 'norms', k, tm.mleaf('z%d' % k, 2, 1))
                            obs.append(('P', x))
                        fl = [1, 0][:nfl]
                        a = [vecs(w, base(f['params'][0]['t']), ids, 'ids'), vecs(w, base(f['params'][1]['t']), obs, 'obs'), vecs(w, base(f['params'][2]['t']), fl, 'flag')]
                        t = tm.leaf('t', 's', 'time')
                        for ex in w.run(f, o, a + [('CELL', w.cell(t))]):
                            okm = nid == nob
                            w.req(ex, w.seqv(o, 'ids', ex.st) == (ids if okm else []), 'the ids of the message are %s' % ('those given' if okm else 'empty, the lists being of different lengths'))
                            w.req(ex, w.seqv(o, 'observes', ex.st) == (obs if okm else []), 'the observations of the message are %s' % ('those given, in order' if okm else 'empty, the lists being of different lengths'))
                            w.req(ex, w.seqv(o, 'flag', ex.st) == (fl if okm else []), 'the flags of the message are %s' % ('those given' if okm else 'empty, the lists being of different lengths'))
                            if okm:
                                w.req(ex, same(w.get(o, 'timeStamp', ex.st), t, 0.0), 'the message holds the time stamp it was built from', w.where(o, 'timeStamp', ex.st))
                            # clearing
                            for e2 in w.run('FeaturesMessage::Clear', o, [], st=ex.st):
                                for nm in ('ids', 'observes', 'flag'):
                                    w.req(e2, w.seqv(o, nm, e2.st) == [], 'clearing a message leaves none of its %s' % nm)
                                w.req(e2, same(w.get(o, 'timeStamp', e2.st), 0.0, 0.0), 'clearing a message resets its time stamp')

    def combined(ck):
        fs = ctors('CombinedMessage', 2)
        if not fs:
            raise Skip('no constructor of CombinedMessage')
        for f in fs:
            many = base(f['params'][1]['t']).startswith('vec')
            for nf in (None, 1):
                for n in ((0, 1, 3) if many else (1,)):
                    w = ck.world('combined message of %d samples' % n, n=4, seeds=1)
                    o = w.eng.alloc_rec(w.st, NS + 'CombinedMessage', 'm', init=False)
                    fp = ('P', w.new('FeaturesMessage')) if nf else None
                    ms = [('P', w.new('IMUMessage')) for _ in range(n)]
                    a1 = vecs(w, base(f['params'][1]['t']), ms, 'm') if many else ('CELL', w.cell(ms[0]))
                    for ex in w.run(f, o, [('CELL', w.cell(fp)), a1]):
                        w.req(ex, w.get(o, 'featMeas', ex.st) == fp, 'a combined message holds the features message it was built from')
                        w.req(ex, w.seqv(o, 'imuMeas', ex.st) == ms, 'a combined message holds the samples it was built from, in order')
                        for e2 in w.run('CombinedMessage::Clear', o, [], st=ex.st):
                            w.req(e2, w.get(o, 'featMeas', e2.st) is None, 'clearing a message leaves no features message')
                            w.req(e2, w.seqv(o, 'imuMeas', e2.st) == [], 'clearing a message leaves no samples')

    def observe(ck):
        for cams in ((), (0,), (1,), (0, 1), (2, 0, 5)):
            w = ck.world('observation of cameras %s' % (cams,), n=8, seeds=1)
            o = w.new('FeatureObserve')
            z = {}
            for c in cams:
                z[c] = tm.mleaf('z%d' % c, 2, 1)
                w.mput(o, 'norms', c, z[c])
            for c in range(7):
                out = w.cell(tm.mleaf('out', 2, 1))
                for ex in w.run('FeatureObserve::GetNorm', o, [c, ('CELL', out)]):
                    r = w.eng.truth(w.val(ex.ret, ex.st))
                    w.req(ex, r is (c in z), 'reading the measurement of camera %d %s' % (c, 'succeeds' if c in z else 'fails, there being none'))
                    if c in z:
                        w.req(ex, same(ex.st.heap[out][1], z[c], 0.0), 'reading a measurement returns that of the camera asked for')
                    w.req(ex, w.mitems(o, 'norms', ex.st) == z, 'reading a measurement changes none')
            for ex in w.run('FeatureObserve::Clear', o, []):
                w.req(ex, w.mitems(o, 'norms', ex.st) == {}, 'clearing an observation leaves no measurement')
    ck.run(imu, features, combined, observe)
