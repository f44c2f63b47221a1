"""Entry states and message histories that a well-behaved run never shows: for C25 and C26."""
import itertools
from .. import term as tm
from ..core import Skip, NS
from .build import SOLVED, INITIALIZED, NEED_INIT, OLDEST, NEWEST, SUBNEW, NOMARG, BackendWorld, draw, attis, items, fmap
from .backend import cdraw

BIG = 0xffffffff
# feature message contents: list of (id, cameras | None for a null observation)
CAT = {
    'A': [(4, (0,)), (9, (0, 1))],
    'B': [],
    'C': [(4, None), (9, (0,))],
    'D': [(4, ()), (9, ())],
    'E': [(4, (7,)), (9, (BIG,))],
    'F': [(4, (0,)), (4, (0, 1))],
    'G': [(9, (1,)), (4, ())],
    'H': [(0, (0,)), (BIG, (0, 1))],
}


def feats(w, st, kind, t, tag):
    """message object built in state st"""
    m = new(w, st, 'FeaturesMessage')
    w.set(m, 'timeStamp', t, st)
    for j, (fid, cams) in enumerate(CAT[kind]):
        put(w, st, m, 'ids', fid)
        if cams is None:
            put(w, st, m, 'observes', None)
            continue
        o = new(w, st, 'FeatureObserve')
        for c in cams:
            mapput(w, st, o, 'norms', c, tm.mleaf('z%s.%d.%d' % (tag, j, c), 2, 1, 'norm'))
        put(w, st, m, 'observes', ('P', o))
    return m


def imus(w, st, t, tag):
    s = new(w, st, 'IMUMessage')
    w.set(s, 'accel', tm.mleaf('acc' + tag, 3, 1, 'gaccel'), st)
    w.set(s, 'gyro', tm.mleaf('gyr' + tag, 3, 1, 'small'), st)
    w.set(s, 'timeStamp', t, st)
    return s


def within(w, st, f):
    """runs a builder of the entry state on another state"""
    keep, w.st = w.st, st
    try:
        return f()
    finally:
        w.st = keep


def new(w, st, rec):
    return within(w, st, lambda: w.new(rec))


def put(w, st, o, p, v):
    return within(w, st, lambda: w.push(o, p, v))


def mapput(w, st, o, p, k, v):
    return within(w, st, lambda: w.mput(o, p, k, v))


def pick(w, exits, cap):
    """exit states to go on from: feasible, known, of different structure first"""
    out = []
    for ex in exits:
        if ex.st.taint is None and w.reach(ex.st.gate()):
            out.append(ex.st)
    return out[:cap]


def chain(w, sts, fn, this, mk, cap=6, nparams=None):
    """calls fn from every state; mk(state) gives the arguments"""
    out = []
    for st in sts:
        st = st.copy()
        a = mk(st)
        out += pick(w, w.run(fn, this, a, st=st, nparams=nparams), cap)
    return out[:cap]


def cheap(w, pat='1'):
    """solvers whose outcomes follow a pattern: '1' succeed, '0' fail, '?' either"""
    def f(point, least):
        def g(eng, st, node, this, locs):
            if min(len(st.heap[x][3]) for x in locs[:3 if point else 2]) < least:
                return [(False, st)]
            k = st.rands = st.rands + 1
            if point:
                st.heap[locs[3]] = ('v', tm.mleaf('tri%d' % k, 3, 1, 'front'), ('entry', '', 0))
            else:
                st.heap[locs[2]] = ('v', tm.qleaf('pnpq%d' % k, 'unitq'), ('entry', '', 0))
                st.heap[locs[3]] = ('v', tm.mleaf('pnpp%d' % k, 3, 1), ('entry', '', 0))
            o = pat[k % len(pat)]
            return [(c, s) for c, s in eng.branch(st, tm.leaf('solved%d' % k, 'b'))] if o == '?' else [(o == '1', st)]
        return g
    for n in ('TrianglateAnalytic', 'TrianglateIterative'):
        w.stub('Trianglator::' + n, f(True, 2 if n == 'TrianglateAnalytic' else 1))
    for n in ('EstimatePose', 'EstimatePoseKernel', 'EstimatePoseRANSAC'):
        try:
            w.stub('PnPSolver::' + n, f(False, 3))
        except Skip:
            pass


def backend(ck, name, cams, window=3, pat='1', **kw):
    b = BackendWorld(ck, name, cams=cams, window=window, draw=cdraw, n=16, seeds=1, **kw)
    w = b.w
    w.set(b.dl, 'imuPeriod', 0.1)
    cheap(w, pat)
    return b


def step(b, sts, kind, k, imu=True, cap=6):
    """queues a message (and a sample) and runs the estimator until the queue is empty"""
    w = b.w
    t = 1.0 + 0.5 * k
    sts = chain(w, sts, 'Backend::GetFeaturesMessage', b.b, lambda st: [('CELL', cellptr(w, st, feats(w, st, kind, t, '%d' % k)))], cap)
    if imu:
        sts = chain(w, sts, 'Backend::GetIMUMessage', b.b, lambda st: [('CELL', cellptr(w, st, imus(w, st, t + 0.02, '%d' % k)))], cap)
    for _ in range(1):
        sts = chain(w, sts, 'Backend::RunOnce', b.b, lambda st: [], cap)
    return sts


def cellptr(w, st, o):
    return st.new(('v', ('P', o) if o is not None else None, ('entry', '', 0)))


def starting(first):
    """histories from the start state"""
    def f(ck):
        def go(cams, seq, imu):
            b = backend(ck, 'hostile history %s, start, %d cameras%s' % (''.join(seq), cams, '' if imu else ', no IMU'), cams, nframes=0, nitems=0, natt=0, status=NEED_INIT, window=2, tracks={})
            sts = [b.w.st]
            for k, x in enumerate(seq):
                sts = step(b, sts, x, k, imu, cap=4)
        tails = [''.join(p) for p in itertools.product('ABDEF' if not ck.thorough else 'ABCDEFGH', repeat=2)]
        for i, tl in enumerate(tails):
            ck.run(lambda ck: go((1, 2, 0)[i % 3], first + tl, i % 4 != 3))
            if ck.thorough:
                ck.run(lambda ck: go((2, 0, 1)[i % 3], first + tl, True))
    f.__name__ = 'hostile start ' + first
    return f


TR = {0: {}, 1: {4: (1, [(0,)])}, 2: {4: (1, [(0, 1), (0,)]), 9: (2, [()])}, 3: {4: (1, [(0,), (), (0,)]), 9: (1, [(1,), (0,)], SOLVED), 2: (3, [(7,)], SOLVED)}}


def running(first):
    """histories of an initialised estimator"""
    def f(ck):
        def go(cams, seq, nframes, window):
            b = backend(ck, 'hostile history %s, running, %d cameras, %d frames, window %d' % (seq, cams, nframes, window), cams, nframes=nframes, nitems=2, natt=2, status=INITIALIZED, window=window, tracks=TR[nframes],
                        dim=6 * cams + 6 * nframes)
            w = b.w
            w.set(b.fm, 'minKeyframeTrackedFeatureNum', 0)
            sts = [w.st]
            for k, x in enumerate(seq):
                sts = step(b, sts, x, k, True, cap=3)
        i = 0
        for nframes in (1, 2, 3):
            for cams in (1, 2) + ((0,) if ck.thorough else ()):
                for tl in ('', 'A', 'B') if not ck.thorough else ('', 'A', 'B', 'D', 'E'):
                    i += 1
                    ck.run(lambda ck: go(cams, first + tl, nframes, (2, 3, 1, 5)[i % 4]))
    f.__name__ = 'hostile run ' + first
    return f


def loader(ck):
    """every short sequence of loader calls, with null and malformed messages"""
    def one(ck):
        for seq in itertools.product('nmFIop', repeat=3):
            w = ck.world('loader calls ' + ''.join(seq), draw=cdraw, n=8, seeds=1)
            dl = w.new('DataLoader')
            w.set(dl, 'imuPeriod', 0.1)
            sts = [w.st]
            for k, c in enumerate(seq):
                t = 1.0 + 0.5 * k
                if c == 'n':
                    sts = chain(w, sts, 'DataLoader::PushFeaturesMessage', dl, lambda st: [('CELL', cellptr(w, st, None))])
                    sts = chain(w, sts, 'DataLoader::PushIMUMessage', dl, lambda st: [('CELL', cellptr(w, st, None))])
                elif c == 'm':
                    def bad(st):
                        m = feats(w, st, 'A', t, str(k))
                        put(w, st, m, 'ids', 17)
                        return [('CELL', cellptr(w, st, m))]
                    sts = chain(w, sts, 'DataLoader::PushFeaturesMessage', dl, bad)
                elif c == 'F':
                    sts = chain(w, sts, 'DataLoader::PushFeaturesMessage', dl, lambda st: [('CELL', cellptr(w, st, feats(w, st, 'A', t, str(k))))])
                elif c == 'I':
                    sts = chain(w, sts, 'DataLoader::PushIMUMessage', dl, lambda st: [('CELL', cellptr(w, st, imus(w, st, t, str(k))))])
                else:
                    sts = chain(w, sts, 'DataLoader::PopOneMessage' if c == 'o' else 'DataLoader::PopPackedMessage', dl, lambda st: [('CELL', cellptr(w, st, None))])
    ck.run(one)


def mapops(ck):
    """window and feature map operations, on empty and small windows, with indices in and out of range"""
    def frames(ck):
        for n in (0, 1, 2, 3):
            for cams in (0, 1):
                for fn, argss in (('GetFrame', [[0], [1], [n], [n + 1], [BIG]]), ('RemoveFrame', [[0], [1], [n], [BIG]]), ('GetMaxFrameID', [[]]), ('NeedMarginalize', [[]]), ('Information', [[]])):
                    for a in argss:
                        w, m = fmap(ck, 'window of %d frames, %s(%s)' % (n, fn, a), cams=cams, nframes=n, tracks=TR[n], n=8, seeds=1)
                        w.run('FrameManager::' + fn, m.fm, a)
                # a frame of the window, a new frame, the null frame
                for k in list(range(n)) + ['new', None]:
                    for fn in ('IsKeyFrame', 'AddNewFrame'):
                        w, m = fmap(ck, 'window of %d frames, %s(frame %s)' % (n, fn, k), cams=cams, nframes=n, tracks=TR[n], n=8, seeds=1)
                        if k is None and fn == 'AddNewFrame':
                            continue
                        if k == 'new':
                            cell = w.cell(9.0)
                            w.eng.call(ck.prog.find('Frame::Frame', 1), m.blank('Frame'), [cell], w.st)
                            o = m.last
                        else:
                            o = m.frames[k] if k is not None else None
                        w.run('FrameManager::' + fn, m.fm, [('CELL', cellptr(w, w.st, o))])

    def features(ck):
        for n in (0, 1, 2, 3):
            for off in (True, False):
                for fid in (0, 1, 2, 3, 4, BIG):
                    w, m = fmap(ck, 'features of %d frames, RemoveByFrameID(%d, %s)' % (n, fid, off), cams=1, nframes=n, tracks=TR[n], n=8, seeds=1)
                    w.run('FeatureManager::RemoveByFrameID', m.ftm, [fid, off])
            for fid in (4, 9, 5, BIG):
                w, m = fmap(ck, 'features of %d frames, RemoveByID(%d)' % (n, fid), cams=1, nframes=n, tracks=TR[n], n=8, seeds=1)
                w.run('FeatureManager::RemoveByID', m.ftm, [fid])
            for kind in CAT:
                w, m = fmap(ck, 'features of %d frames, AddNewFeatures(%s)' % (n, kind), cams=1, nframes=n, tracks=TR[n], n=8, seeds=1)
                msg = feats(w, w.st, kind, 5.0, 'x')
                out = w.alloc('vec<P<R:%sFeature>>' % NS)
                w.run('FeatureManager::AddNewFeatures', m.ftm, [w.f(msg, 'ids'), w.f(msg, 'observes'), n + 1, out])

    def lookups(ck):
        for frame in (0, 1, 2, 4, BIG):
            for cam in (0, 1, BIG):
                w, m = fmap(ck, 'GetNorm(%d, %d)' % (frame, cam), cams=1, nframes=3, tracks=TR[3], n=8, seeds=1)
                for f in m.feats.values():
                    w.run('Feature::GetNorm', f, [frame, cam, ('CELL', w.cell(tm.mleaf('old', 2, 1)))])

    ck.run(frames, features, lookups)


def queues(ck):
    """attitude and propagation queues of length 0 to 2"""
    def att(ck):
        for n in (0, 1, 2):
            for t in (-1.0, 0.0, 0.2, 0.25, 9.0):
                for fn in ('GetAttitude', 'CleanOldItems'):
                    w = ck.world('%d attitudes, %s(%s)' % (n, fn, t), draw=draw, n=8, seeds=1)
                    at = w.new('AttitudeEstimate')
                    attis(w, at, n)
                    w.run('AttitudeEstimate::' + fn, at, [t, 0.1] + ([('CELL', w.cell(tm.qleaf('old', 'unitq')))] if fn == 'GetAttitude' else []))
            w = ck.world('%d attitudes, Propagate' % n, draw=cdraw, n=8, seeds=1)
            at = w.new('AttitudeEstimate')
            attis(w, at, n)
            w.run('AttitudeEstimate::Propagate', at, [('CELL', w.cell(tm.mleaf('a', 3, 1, 'gaccel'))), ('CELL', w.cell(tm.mleaf('g', 3, 1, 'small'))), 0.6])

    def prop(ck):
        for n in (0, 1, 2):
            for fn, args in (('ResetOrigin', [[-1.0, 0.1], [0.25, 0.1], [9.0, 0.1]]), ('Repropagate', [[]]), ('ResetProcessFunction', [[]]), ('Propagate', [None])):
                for a in args:
                    b = BackendWorld(ck, '%d propagated states, %s(%s)' % (n, fn, a), cams=1, nframes=1, tracks={}, nitems=n, natt=0, n=8, seeds=1)
                    w = b.w
                    if a is None:
                        a = [('CELL', w.cell(tm.mleaf('a', 3, 1, 'gaccel'))), ('CELL', w.cell(tm.mleaf('g', 3, 1, 'small'))), 0.6]
                    w.run('PropagateQueue::' + fn, b.pq, a)

    def states(ck):
        for n in (0, 1, 2):
            for fr in (0, 1, 2):
                for status in (NEED_INIT, INITIALIZED):
                    for fn in ('PublishPropagateState', 'PublishUpdateState', 'Reset', 'RunOnce', 'RunOnceTest'):
                        b = backend(ck, '%s with %d states, %d frames, status %d' % (fn, n, fr, status), 1, nframes=fr, nitems=n, natt=n, status=status, tracks=TR[fr])
                        w = b.w
                        a = []
                        if fn.startswith('Publish'):
                            a = [w.new('IMUFullState'), ('CELL', w.cell(0.0))]
                        w.run('Backend::' + fn, b.b, a)
    ck.run(att, prop, states)


def updates(ck):
    """an update without propagated states, on small windows"""
    def one(ck):
        for n in (0, 1, 2):
            for fr in (0, 1, 2, 3):
                for t in (0.0, 0.25, 9.0):
                    b = backend(ck, 'update of %d frames with %d propagated states at %s' % (fr, n, t), 1, nframes=fr, nitems=n, natt=0, tracks=TR[fr], dim=6 + 6 * max(fr - 1, 0))
                    b.w.run('MultiViewVisionUpdate::Update', b.vu, [t, 0.1])
        for fr in (1, 2, 3):
            for pol in (OLDEST, NEWEST, SUBNEW, NOMARG):
                if pol == SUBNEW and fr < 2:
                    continue
                b = backend(ck, 'marginalization %d of %d frames' % (pol, fr), 1, nframes=fr, nitems=1, natt=0, tracks=TR[fr])
                b.w.run('Backend::MarginalizeFeatureFrameManager', b.b, [pol])
    ck.run(one)


def solvers(ck):
    """pose solvers with failing inner solver, with too few and non-finite points"""
    from .geometry import Pose, Robust, Views

    def ransac(ck):
        for n in range(0, 5):
            for outcome in (True, False):
                for iters in (0, 1, 2):
                    for flags in (False, True):
                        a = Robust(ck, 'RANSAC of %d points, %d trials, solver %s, flags %s' % (n, iters, outcome, flags), n, iters, 'plain', outcome)
                        fl = None
                        if flags:
                            fl = a.w.alloc('vec<b>')
                        a.run('EstimatePoseRANSAC', fl)

    def pose(ck):
        for n in range(0, 4):
            for fn in ('EstimatePose', 'EstimatePoseKernel', 'EstimatePoseP3P'):
                for kw in ({}, {'nan': (0,)}, {'flat': tuple(range(n))}) + (tuple({'start': s} for s in ('huge', 'behind', 'nan', 'zero')) if n == 3 else ()):
                    for it in (0, 1, 2):
                        Pose(ck, '%s of %d points, %d rounds %s' % (fn, n, it, kw), n, iters=it, n_val=8, seeds=1, **kw).run(fn)

    def wild(ck):
        for n in (3, 4):
            for fn in ('EstimatePose', 'EstimatePoseKernel'):
                a = Pose(ck, '%s of %d unrelated pairs' % (fn, n), n, iters=2, n_val=128, seeds=1)
                a.w.like.clear()
                a.run(fn)

    def tri(ck):
        for n in (0, 1, 2):
            for fn in ('TrianglateAnalytic', 'TrianglateIterative'):
                for kw in ({}, {'nanview': 0}, {'nanview': 0, 'what': 'p'}, {'parallel': True}):
                    if kw and n == 0:
                        continue
                    Views(ck, '%s of %d views %s' % (fn, n, kw), n, n_val=8, seeds=1, **kw).run(fn)
        for sizes in itertools.product((0, 1, 2), repeat=3):
            for fn in ('TrianglateAnalytic', 'TrianglateIterative'):
                Views(ck, '%s of sizes %s' % (fn, sizes), 2, sizes=sizes, n_val=8, seeds=1).run(fn)
    ck.run(ransac, pose, wild, tri)


def all_(thorough=False):
    return [running(x) for x in CAT] + [starting(x) for x in CAT] + [solvers, updates, queues, mapops, loader]
