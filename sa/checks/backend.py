"""C18, C19, C27, C34 and the backend's part of C02: what one backend step does."""
import numpy as np
from .. import term as tm
from ..core import same, qsame, Skip
from . import ref
from .build import SOLVED, UNSOLVED, OLDEST, NEWEST, SUBNEW, NOMARG, NEED_INIT, INITIALIZED, BackendWorld, draw


class Once(BackendWorld):
    """one Backend::RunOnce with a pending feature message (and IMU sample)"""

    def __init__(self, ck, name, nframes=2, tracks=None, sees=None, first=1, cams=2, few=0, start=False, imu=False, feat=True, window=9, T=None, run=True, pre=None, **kw):
        kw.setdefault('dim', 6 * cams + 6 * nframes)
        BackendWorld.__init__(self, ck, 'step, ' + name, cams=cams, nframes=nframes, tracks=tracks, first=first, window=window, near=first + nframes, pre=pre, **kw)
        w = self.w
        w.set(self.fm, 'minKeyframeTrackedFeatureNum', few)
        self.T = T if T is not None else tm.leaf('T', 's', 'imutime')
        self.msgobs = {}
        self.sample = self.message = None
        if feat:
            m = w.new('FeaturesMessage')
            w.set(m, 'timeStamp', self.T)
            for f, cs in (sees or {}).items():
                o = w.new('FeatureObserve')
                for c in cs:
                    z = self.map.measure(f, first + nframes, c)
                    self.map.norm[f, first + nframes, c] = z
                    w.mput(o, 'norms', c, z)
                w.push(m, 'ids', f)
                w.push(m, 'observes', ('P', o))
                self.msgobs[f] = o
            w.push(self.dl, 'featMeas', ('P', m))
            self.message = m
        if imu:
            s = w.new('IMUMessage')
            w.sym(s, 'sample', {'timeStamp': 'tick', 'accel': 'gaccel'})
            w.like['sample.timeStamp'] = (tm.add(tm.leaf('start', 's', 'zero'), tm.add(0.25 * max(kw.get('nitems', 2), kw.get('natt', 2)), tm.leaf('late', 's', 'late'))), 0)
            w.push(self.dl, 'imuMeas', ('P', s))
            self.sample = s
        if start:
            for fn in ('Backend::TrianglizeMultiView', 'Backend::EstimateFramePose'):
                w.stub(fn, lambda eng, st, node, this, locs: [(True, st)])
        self.exits = w.run('Backend::RunOnce', self.b, []) if run else []

    def reach(self, ex):
        return ex.st.taint is not None or self.w.reach(ex.st.gate())

    def joint(self, k):
        w = self.w
        return ref.joint(w.get(self.items[k], 'imuCov'), w.get(self.items[k], 'imuExCamCov'), w.get(self.pq, 'exCamCov'))

    def status(self, ex):
        return self.w.get(self.b, 'status', ex.st)

    def ptrs(self, what, ex=None):
        """object ids in a list of pointers"""
        return [p[1] if isinstance(p, tuple) and p[:1] == ('P',) else None for p in self.w.seqv(what[0], what[1], ex.st if ex else None)]


def cdraw(t, r, n):
    """as draw, with accelerations near gravity"""
    h = t.a[1] if len(t.a) > 1 else None
    if h == 'gaccel':
        v = r.normal(0, 1, (n,) + t.sh)
        v /= np.linalg.norm(v, axis=1, keepdims=True)
        return v * r.uniform(9.65, 9.95, (n, 1, 1))
    if h == 'late':
        return r.choice([0.0, 0.05, 0.1], n)
    if h == 'nearzero':
        return r.choice([0.0, 0.02, 0.3], n)
    return draw(t, r, n)


SAMPLE = ('accel', 'gyro', 'timeStamp')


def isitem(w, ex, o, src, msg, tol=0.0):
    """obligations: the stored item holds the sample as measured"""
    for nm in SAMPLE:
        w.req(ex, same(w.get(o, nm, ex.st), w.get(src, nm), tol), '%s: %s' % (msg, nm), w.where(o, nm, ex.st))


# ---- C02: what one step hands over ----
def c02_handover(ck):
    def shapes(ck):
        for status in (NEED_INIT, INITIALIZED):
            for imu in (False, True):
                for feat in (False, True):
                    if not imu and not feat:
                        continue
                    nm = '%s, pending: %s' % ('initialised' if status == INITIALIZED else 'not initialised', ' and '.join(x for x, y in (('IMU sample', imu), ('features', feat)) if y))
                    handover(ck, nm, status, imu, feat)
                    if feat and status == INITIALIZED:
                        handover(ck, nm + ' (an image without features)', status, imu, feat, ())
    ck.run(shapes)


def handover(ck, nm, status, imu, feat, seen=(4, 5)):
    rec, handed = {}, seen

    def pre(w, b):
        log = w.alloc('vec<i32>')
        rec['log'] = log

        def upd(eng, st, node, this, locs):
            w.set(this, 'margPolicy', NOMARG, st)
            pend = st.heap[w.f(b.pq, 'items', st)][3]
            frames = st.heap[w.f(b.fm, 'frames', st)][3]
            ob = st.heap[log]
            st.heap[log] = ('s', ob[1], ob[2], ob[3] + tuple(st.new(('v', x, ('entry', '', 0))) for x in (len(pend), len(frames))))
            return [(True, st)]
        w.stub('MultiViewVisionUpdate::Update', upd)
    b = Once(ck, nm, nframes=1, cams=1, imu=imu, feat=feat, status=status, tracks={4: (1, [(0,)])}, sees={f: (0,) for f in seen}, nitems=2 if status == INITIALIZED else 0, natt=2, draw=cdraw, n=192, seeds=1, pre=pre, T=tm.leaf('T', 's', 'imutime'))
    w = b.w
    f = ck.prog.find('Backend::RunOnce', 0)
    wh = (f['fn'], f['file'], f['line'])
    got = {'imu': 0, 'feat': 0}
    for ex in b.exits:
        if not b.reach(ex):
            continue
        st = ex.st
        leftI, leftF = len(w.seq(b.dl, 'imuMeas', st)), len(w.seq(b.dl, 'featMeas', st))
        tookI, tookF = (1 if imu else 0) - leftI, (1 if feat else 0) - leftF
        if imu and feat:
            t, s = b.T, w.get(b.sample, 'timeStamp')
            older = tm.le(t, s)
            near = tm.lt(tm.fn('fabs', tm.sub(t, s)), b.period)
            w.req(ex, tm.iff(tookF == 1, older), 'the message with the older time stamp is taken', wh)
            w.req(ex, tm.iff(tookI == 1, tm.or_(tm.not_(older), near)), 'the IMU sample is taken if it is older, or with the image if it lies within one period', wh)
        else:
            w.req(ex, tookI == imu and tookF == feat, 'the only pending message is taken', wh)
        atts = b.ptrs((b.at, 'items'), ex)
        its = b.ptrs((b.pq, 'items'), ex)
        if tookI:
            got['imu'] += 1
            new = [o for o in atts if o not in b.atts]
            last = w.get(b.atts[-1], 'timeStamp')
            ok = tm.not_(tm.lt(w.get(b.sample, 'timeStamp'), last))
            # the filter may discard old entries of its queue after an image, never the new sample
            w.req(ex, tm.iff(len(new) == 1, ok), 'the IMU sample taken reaches the attitude filter', wh)
            for o in new:
                isitem(w, ex, o, b.sample, 'the attitude filter stores the sample taken as measured')
            if status == INITIALIZED:
                new = its[len(b.items):]
                w.req(ex, its[:len(b.items)] == b.items and len(new) == 1, 'the IMU sample taken reaches the propagated states', wh)
                for o in new[:1]:
                    isitem(w, ex, o, b.sample, 'the propagated state stores the sample taken as measured')
        else:
            w.req(ex, not [o for o in atts if o not in b.atts] and its == b.items, 'no IMU sample is handed over that was not taken', wh)
        frames = b.ptrs((b.fm, 'frames'), ex)
        seen = w.seqv(rec['log'], '', st)
        if tookF:
            got['feat'] += 1
            w.req(ex, frames[-1] not in b.map.frames, 'the feature message taken reaches the window', wh)
            if frames[-1] not in b.map.frames:
                w.req(ex, same(w.get(frames[-1], 'timeStamp', st), b.T, 0.0), 'the new frame has the time stamp of the feature message', w.where(frames[-1], 'timeStamp', st))
                w.req(ex, set(w.mitems(frames[-1], 'features', st)) == set(handed), 'the new frame has the features of the message', wh)
            if status == INITIALIZED:
                w.req(ex, seen == [len(b.items) + tookI, 2], 'the IMU sample is handed over before the features, which are handed over before the one update', wh)
        else:
            w.req(ex, frames == b.map.frames, 'no feature message is handed over that was not taken', wh)
            w.req(ex, not seen, 'without a feature message there is no update', wh)
    for k, on in (('imu', imu), ('feat', feat)):
        if on and not got[k]:
            ck.missing.append('%s: no %s taken' % (w.name, k))


# ---- C18 ----
def c18(ck):
    def order(ck):
        # IMU samples: always to the attitude filter, to the propagated states only when initialised
        for status in (NEED_INIT, INITIALIZED):
            for natt in (0, 1, 2):
                for feat in (False, True):
                    flag = {}

                    def pre(w, b):
                        log = w.alloc('vec<i32>')
                        flag['log'] = log

                        def upd(eng, st, node, this, locs):
                            w.set(this, 'margPolicy', NOMARG, st)
                            ob = st.heap[log]
                            st.heap[log] = ('s', ob[1], ob[2], ob[3] + (st.new(('v', 1, ('entry', '', 0))),))
                            return [(True, st)]
                        w.stub('MultiViewVisionUpdate::Update', upd)
                        w.stub('Backend::Initialize', lambda eng, st, node, this, locs: [(False, st)])
                    b = Once(ck, 'sample, %s, %d attitudes%s' % ('initialised' if status == INITIALIZED else 'not initialised', natt, ', image' if feat else ''), nframes=1, cams=1, imu=True, feat=feat, status=status,
                             nitems=1, natt=natt, draw=cdraw, n=384, seeds=1, pre=pre, T=tm.leaf('T', 's', 'imutime'))
                    w = b.w
                    for ex in b.exits:
                        if not b.reach(ex):
                            continue
                        st = ex.st
                        seen = w.seqv(flag['log'], '', st)
                        took = not w.seq(b.dl, 'imuMeas', st)
                        img = feat and not w.seq(b.dl, 'featMeas', st)
                        w.req(ex, len(seen) == (1 if img and status == INITIALIZED else 0), 'a vision update is run for an image exactly if initialised')
                        if not took:
                            continue
                        atts, its = b.ptrs((b.at, 'items'), ex), b.ptrs((b.pq, 'items'), ex)
                        new = [o for o in atts if o not in b.atts]
                        if natt:
                            ok = tm.not_(tm.lt(w.get(b.sample, 'timeStamp'), w.get(b.atts[-1], 'timeStamp')))
                        else:
                            ok = tm.le(tm.fn('fabs', tm.sub(tm.mnorm(b.gvec), tm.mnorm(tm.msub(w.get(b.sample, 'accel'), w.get(b.at, 'bias_a'))))), 0.04)
                        w.req(ex, tm.iff(len(new) == 1, ok), 'the sample reaches the attitude filter')
                        w.req(ex, len(its) == (2 if status == INITIALIZED else 1), 'the sample reaches the propagated states exactly if initialised')
                    w.coverage(b.exits, lambda ex: not w.seq(b.dl, 'imuMeas', ex.st), 'no sample taken')

    def fail(ck):
        for nf in (0, 1, 2, 4):
            # initialization fails
            for nitems in (0, 2):
                b = Once(ck, 'initialization fails, %d frames before' % nf, nframes=nf, cams=1, status=NEED_INIT, nitems=nitems, natt=2, sees={1: (0,)}, draw=cdraw, n=64, seeds=1,
                         pre=lambda w, b: (w.stub('Backend::Initialize', lambda eng, st, node, this, locs: [(False, st)]), noupdate(w)))
                one(b)
                b2 = Once(ck, 'initialization impossible, %d frames before' % nf, nframes=nf, cams=1, status=NEED_INIT, nitems=nitems, natt=0, sees={1: (0,)}, draw=cdraw, n=64, seeds=1, pre=lambda w, b: noupdate(w))
                one(b2)
        for nf in (0, 1, 2, 4):
            for st0 in (INITIALIZED,):
                b = Once(ck, 'update fails, %d frames before' % nf, nframes=nf, cams=1, status=st0, nitems=2, natt=2, sees={1: (0,)}, draw=cdraw, n=64, seeds=1, pre=lambda w, b: w.stub('MultiViewVisionUpdate::Update', failing))
                one(b)
            b = Once(ck, 'update without states, %d frames before' % nf, nframes=nf, cams=1, status=INITIALIZED, nitems=0, natt=2, sees={1: (0,)}, draw=cdraw, n=64, seeds=1)
            one(b)

    def failing(eng, st, node, this, locs):
        return [(False, st)]

    def noupdate(w):
        w.stub('MultiViewVisionUpdate::Update', failing)

    def one(b):
        w = b.w
        for ex in b.exits:
            if not b.reach(ex):
                continue
            w.req(ex, b.status(ex) == NEED_INIT, 'after a failure the estimator requires initialization', w.where(b.b, 'status', ex.st))
            fr = b.ptrs((b.fm, 'frames'), ex)
            w.req(ex, len(fr) == 1, 'after a failure a single frame is kept, found %d' % len(fr))
            if len(fr) == 1:
                w.req(ex, fr[0] not in b.map.frames, 'the frame kept after a failure is the newest')
                feats = w.mitems(b.ftm, 'features', ex.st)
                w.req(ex, set(feats) == set(b.msgobs), 'after a failure the tracks hold only observations of the frame kept')
        w.coverage(b.exits, lambda ex: True, 'no failure reached')

    def again(ck):
        # a successful initialization replaces everything that was propagated before
        for left in (0, 1, 2, 3):
            b = initworld(ck, 'initialization with %d old states' % left, nitems=left)
            w = b.w
            for ex in b.exits:
                if not b.reach(ex):
                    continue
                st = ex.st
                if b.status(ex) != INITIALIZED:
                    continue
                its = b.ptrs((b.pq, 'items'), ex)
                w.req(ex, not [o for o in its if o in b.items], 'no propagated state of the previous run survives an initialization')
                started(b, ex)
            w.coverage(b.exits, lambda ex: b.status(ex) == INITIALIZED, 'no successful initialization reached')
    ck.run(order, fail, again)


def initworld(ck, name, nitems=0, natt=4, cams=1, **kw):
    """two frames, triangulation and pose estimation succeed; the update that follows is left out"""
    def pre(w, b):
        def upd(eng, st, node, this, locs):
            w.set(this, 'margPolicy', NOMARG, st)
            return [(True, st)]
        w.stub('MultiViewVisionUpdate::Update', upd)
    b = Once(ck, name, nframes=1, cams=cams, status=NEED_INIT, nitems=nitems, natt=natt, start=True, draw=idraw, n=kw.pop('n', 256), seeds=1, pre=pre, T=tm.add(tm.leaf('frame1.t', 's', 'time'), tm.leaf('gap', 's', 'gap')), **kw)
    return b


def idraw(t, r, n):
    h = t.a[1] if len(t.a) > 1 else None
    if h == 'time':
        return r.integers(0, 3, n) * 0.25 + r.choice([-0.03, 0.0, 0.02, 0.1], n)
    if h == 'gap':
        return r.choice([0.0, 0.25, 0.5], n)
    return cdraw(t, r, n)


def started(b, ex):
    """the propagated states run from the new start through the later stored samples"""
    w, st = b.w, ex.st
    its = b.ptrs((b.pq, 'items'), ex)
    f0 = b.map.frames[0]
    t0 = w.get(f0, 'timeStamp')
    stored = b.atts
    ts = [w.get(o, 'timeStamp') for o in stored]
    fresh = [tm.not_(tm.lt(b.period, tm.sub(t0, t))) for t in ts]
    n = len(its)
    first = len(stored) - n
    if n == 0 or first < 0:
        w.req(ex, tm.not_(tm.or_(*fresh)) if n == 0 else False, 'the propagated states are the stored samples from the first frame on')
        return
    w.req(ex, tm.and_(*([tm.not_(x) for x in fresh[:first]] + [fresh[first]])), 'the propagated states start at the first frame and cover all later samples')
    for k, o in enumerate(its):
        isitem(w, ex, o, stored[first + k], 'propagated state %d after initialization holds the stored sample' % k)
    for nm in ('p_wb', 'v_wb', 'q_wb'):
        w.req(ex, same(w.get(its[0], 'nominalState.' + nm, st), w.get(f0, nm, st), 1e-9), 'the first propagated state has the %s of the first frame' % nm, w.where(its[0], 'nominalState.' + nm, st))
    ba, bg = w.get(b.pq, 'bias_a', st), w.get(b.pq, 'bias_g', st)
    for k in range(1, n):
        a, c = its[k - 1], its[k]
        s0 = tuple(w.get(a, 'nominalState.' + x, st) for x in ('p_wb', 'v_wb', 'q_wb'))
        want = ref.step(s0, (w.get(a, 'accel', st), w.get(a, 'gyro', st)), (w.get(c, 'accel', st), w.get(c, 'gyro', st)), w.get(a, 'timeStamp', st), w.get(c, 'timeStamp', st), ba, bg, b.gvec)
        for nm, y in zip(('p_wb', 'v_wb', 'q_wb'), want):
            x = w.get(c, 'nominalState.' + nm, st)
            w.req(ex, same(x, y, 1e-6) if nm != 'q_wb' else qsame(x, y, 1e-6), 'propagated state %d after initialization: %s follows from its predecessor' % (k, nm), w.where(c, 'nominalState.' + nm, st))


# ---- C34 ----
def c34(ck):
    def anchor(ck):
        for cams in (1, 2):
            b = initworld(ck, 'start state, %d cameras' % cams, natt=4, cams=cams, n=384)
            w = b.w
            for ex in b.exits:
                if not b.reach(ex):
                    continue
                st = ex.st
                f0 = b.map.frames[0]
                fr = b.ptrs((b.fm, 'frames'), ex)
                t0, t1 = w.get(f0, 'timeStamp'), b.T
                if b.status(ex) != INITIALIZED:
                    # with everything else successful only equal times or a missing attitude make it fail
                    w.req(ex, tm.or_(tm.lt(tm.fn('fabs', tm.sub(t1, t0)), 1e-10), tm.not_(found(b, t0))), 'initialization fails only for equal times or without an attitude at the first frame')
                    continue
                w.req(ex, tm.le(1e-10, tm.fn('fabs', tm.sub(t1, t0))), 'initialization needs two frames at different times')
                w.req(ex, found(b, t0), 'initialization needs an attitude at the time of the first frame')
                w.req(ex, nearest(b, t0, w.get(f0, 'q_wb', st)), 'the first frame takes the attitude filter estimate at its time', w.where(f0, 'q_wb', st))
                w.req(ex, same(w.get(f0, 'p_wb', st), tm.mzero(3, 1)), 'the first frame is at the origin', w.where(f0, 'p_wb', st))
                f1 = fr[1]
                v = tm.mdivs(tm.msub(w.get(f1, 'p_wb', st), w.get(f0, 'p_wb', st)), tm.sub(t1, t0))
                w.req(ex, same(w.get(f0, 'v_wb', st), v), 'the velocity is the displacement over the time between the frames', w.where(f0, 'v_wb', st))
                w.req(ex, same(w.get(f1, 'v_wb', st), v), 'the second frame has the same velocity', w.where(f1, 'v_wb', st))
                started(b, ex)
            w.coverage(b.exits, lambda ex: b.status(ex) == INITIALIZED, 'no successful initialization reached')
            w.coverage(b.exits, lambda ex: b.status(ex) == NEED_INIT, 'no failed initialization reached')

    def moved(ck):
        # the pose solver moves the second frame
        for cams, good in ((1, 11), (2, 11), (2, 40)):
            b = pnpworld(ck, 'pose of the second frame, %d cameras, %d features' % (cams, good), good, cams)
            w = b.w
            for ex in b.exits:
                if not b.reach(ex):
                    continue
                st = ex.st
                calls = w.seqv(b.log, '', st)
                if b.status(ex) != INITIALIZED:
                    continue
                fr = b.ptrs((b.fm, 'frames'), ex)
                f0, f1 = b.map.frames[0], fr[1]
                qbc, pbc = b.map.ext(0, 'q_bc'), b.map.ext(0, 'p_bc')
                qwc, pwc = tm.qleaf('pnp.q', 'unitq'), tm.mleaf('pnp.p', 3, 1)
                q = tm.qmul(qwc, tm.qinv(qbc))
                p = tm.msub(pwc, tm.qrot(q, pbc))
                w.req(ex, qsame(w.get(f1, 'q_wb', st), q), 'the attitude of the second frame is the solved camera attitude without the extrinsic rotation', w.where(f1, 'q_wb', st))
                w.req(ex, same(w.get(f1, 'p_wb', st), p), 'the position of the second frame is the solved camera position without the lever arm', w.where(f1, 'p_wb', st))
                v = tm.mdivs(tm.msub(p, tm.mzero(3, 1)), tm.sub(b.T, w.get(f0, 'timeStamp')))
                w.req(ex, same(w.get(f0, 'v_wb', st), v), 'the velocity is the displacement over the time between the frames', w.where(f0, 'v_wb', st))
                # initial guess: the pose of camera 0 with the second frame at the first
                q0, p0 = calls[0], calls[1]
                w.req(ex, qsame(q0, tm.qmul(w.get(f0, 'q_wb', st), qbc)), 'the pose search starts from the attitude of the first frame')
                w.req(ex, same(p0, tm.qrot(w.get(f0, 'q_wb', st), pbc)), 'the pose search starts from the position of the first frame')
                args(b, ex, calls)
            w.coverage(b.exits, lambda ex: b.status(ex) == INITIALIZED, 'no successful initialization reached')

    def args(b, ex, calls):
        """the correspondences passed to the solver"""
        w = b.w
        pts, zs = calls[2::2], calls[3::2]
        want = {f: (b.point(f), b.map.norm[f, 2, 0]) for f in b.good}
        w.req(ex, len(pts) == len(want), 'the pose is solved from the %d solved features seen by camera 0, %d were passed' % (len(want), len(pts)))
        for f, (x, z) in want.items():
            hit = [i for i in range(len(pts)) if zs[i] is z or same(zs[i], z, 0.0) is True]
            w.req(ex, len(hit) == 1, 'feature %d takes part once with its measurement by camera 0 in the second frame' % f)
            if len(hit) == 1:
                w.req(ex, same(pts[hit[0]], x, 1e-9), 'feature %d takes part with its triangulated position' % f)

    def enough(ck):
        for good in (9, 10, 11):
            for other in (0, 3):
                b = pnpworld(ck, '%d solved features and %d others' % (good, other), good, 2, other)
                w = b.w
                seen = set()
                for ex in b.exits:
                    if not b.reach(ex):
                        continue
                    seen.add(b.status(ex))
                    if good < 10:
                        w.req(ex, b.status(ex) == NEED_INIT, 'initialization with %d solved features seen by camera 0 fails' % good)
                    else:
                        calls = w.seqv(b.log, '', ex.st)
                        if calls:
                            args(b, ex, calls)
                if good >= 10 and INITIALIZED not in seen:
                    f = ck.prog.find('Backend::RunOnce', 0)
                    if w.eng.unmod or any(ex.st.taint for ex in b.exits):
                        ck.undecided(w.name)
                    else:
                        w.req(b.exits[0], False, 'initialization with %d solved features succeeds' % good, (f['fn'], f['file'], f['line']))

    def solverfails(ck):
        b = pnpworld(ck, 'the pose solver fails', 11, 1, outcome=False)
        w = b.w
        for ex in b.exits:
            if b.reach(ex):
                w.req(ex, b.status(ex) == NEED_INIT, 'if the pose of the second frame cannot be solved, initialization fails')

    def single(ck):
        for nf in (0,):
            b = Once(ck, 'a single frame', nframes=nf, cams=1, status=NEED_INIT, nitems=0, natt=3, start=True, draw=idraw, n=64, seeds=1)
            for ex in b.exits:
                if b.reach(ex):
                    b.w.req(ex, b.status(ex) == NEED_INIT, 'initialization needs two frames')
    ck.run(anchor, moved, enough, solverfails, single)


def found(b, t0):
    """some stored attitude lies within 0.55 IMU periods"""
    w = b.w
    c = [tm.lt(tm.fn('fabs', tm.sub(w.get(o, 'timeStamp'), t0)), tm.mul(b.period, 0.55)) for o in b.atts]
    return tm.or_(*c)


def nearest(b, t0, q):
    """q is the attitude stored nearest to t0"""
    w = b.w
    d = [tm.fn('fabs', tm.sub(w.get(o, 'timeStamp'), t0)) for o in b.atts]
    c = []
    for i, o in enumerate(b.atts):
        best = tm.and_(*[tm.le(d[i], tm.add(d[j], 1e-9)) for j in range(len(d)) if j != i])
        c.append(tm.and_(best, same(q, w.get(o, 'q_wb'), 1e-9)))
    return tm.or_(*c)


def pnpworld(ck, name, good, cams, other=0, outcome=True):
    """features 1..good are triangulated and seen by camera 0 in both frames"""
    tracks, sees = {}, {}
    for f in range(1, good + 1):
        tracks[f] = (1, [tuple(range(max(cams, 1)))])
        sees[f] = (0,) if f % 2 or cams < 2 else (0, 1)
    bad = set()
    if other:
        for k in range(other):
            f = 100 + 10 * k
            tracks[f] = (1, [(0, 1)])
            sees[f] = (1,)            # not seen by camera 0 in the second frame
            tracks[f + 1] = (1, [(0, 1)])
            sees[f + 1] = (0, 1)      # not triangulated
            bad.add(f + 1)
            sees[f + 2] = (0, 1)      # new in the second frame
    def pre(w, b):
        b.log = w.alloc('vec<i32>')
        pw = {w.f(o, 'p_w'): f for f, o in b.map.feats.items()}

        def tri(eng, st, node, this, locs):
            f = pw.get(locs[3])
            if f is None or f in bad:
                return [(False, st)]
            st.heap[locs[3]] = ('v', b.point(f), ('entry', '', 0))
            return [(True, st)]

        def pnp(eng, st, node, this, locs):
            new = []
            for c in (eng.load(st, locs[2]), eng.load(st, locs[3])):
                new.append(c)
            a, z = st.heap[locs[0]][3], st.heap[locs[1]][3]
            for i in range(min(len(a), len(z))):
                new += [eng.load(st, a[i]), eng.load(st, z[i])]
            ob = st.heap[b.log]
            st.heap[b.log] = ('s', ob[1], ob[2], ob[3] + tuple(st.new(('v', x, ('entry', '', 0))) for x in new))
            if outcome:
                st.heap[locs[2]] = ('v', tm.qleaf('pnp.q', 'unitq'), ('entry', '', 0))
                st.heap[locs[3]] = ('v', tm.mleaf('pnp.p', 3, 1), ('entry', '', 0))
            return [(outcome, st)]

        def upd(eng, st, node, this, locs):
            w.set(this, 'margPolicy', NOMARG, st)
            return [(True, st)]
        b.point = lambda f: tm.mleaf('point%d' % f, 3, 1)
        b.good = list(range(1, good + 1))
        w.stub('MultiViewVisionUpdate::Update', upd)
        w.stub('Trianglator::TrianglateAnalytic', tri)
        n = 0
        for fn in ('PnPSolver::EstimatePose', 'PnPSolver::EstimatePoseKernel', 'PnPSolver::EstimatePoseRANSAC'):
            try:
                w.stub(fn, pnp)
                n += 1
            except Skip:
                pass
        if not n:
            raise Skip('no pose solver')
    return Once(ck, name, nframes=1, cams=cams, tracks=tracks, sees=sees, status=NEED_INIT, nitems=0, natt=2, draw=idraw, n=128, seeds=1, pre=pre,
                T=tm.add(tm.leaf('frame1.t', 's', 'time'), tm.leaf('gap', 's', 'gap')))


# ---- C27 ----
def c27(ck):
    def shapes(ck):
        for which in ('Propagate', 'Update'):
            for n in (0, 1, 2, 4):
                b = BackendWorld(ck, 'publish %s state of %d' % (which, n), cams=1, nframes=2, nitems=n, n=64, seeds=1)
                w = b.w
                out = w.new('IMUFullState')
                w.sym(out, 'out')
                t = w.cell(tm.leaf('out.t'))
                for ex in w.run('Backend::Publish%sState' % which, b.b, [out, ('CELL', t)]):
                    st = ex.st
                    ok = w.eng.truth(w.val(ex.ret, st))
                    w.req(ex, ok is (n > 0), 'publishing %s without a propagated state' % ('fails' if not n else 'succeeds, not being'))
                    w.unchanged(ex, b.b, 'publishing changes nothing')
                    if not n:
                        continue
                    it = b.items[-1 if which == 'Propagate' else 0]
                    for nm in ('p_wb', 'v_wb', 'q_wb'):
                        w.req(ex, same(w.get(out, nm, st), w.get(it, 'nominalState.' + nm), 0.0), 'published %s is that of the %s state' % (nm, 'newest' if which == 'Propagate' else 'last updated'), w.where(out, nm, st))
                    w.req(ex, same(st.heap[t][1], w.get(it, 'timeStamp'), 0.0), 'published time stamp is that of the same state')
                    for nm in ('bias_a', 'bias_g'):
                        w.req(ex, same(w.get(out, nm, st), w.get(b.pq, nm), 0.0), 'published %s is the current one' % nm, w.where(out, nm, st))
                w.memory()
    ck.run(shapes)


# ---- C19 ----
def attstep(w, b, ex, prev, new, ba, bg, err0, sample):
    """(attitude, integral) of the filter after one step"""
    q0 = w.get(prev, 'q_wb')
    acc = w.get(sample, 'accel')
    z = tm.mdivs(acc, tm.mnorm(acc))
    want = tm.mdivs(tm.qrot(tm.qinv(q0), b.gvec), tm.mnorm(b.gvec))
    err = tm.mcross(z, want)
    ei = tm.madd(err0, tm.mscale(w.get(b.at, 'Ki'), err))
    mid = tm.msub(tm.mscale(0.5, tm.madd(w.get(prev, 'gyro'), w.get(sample, 'gyro'))), bg)
    rate = tm.madd(tm.madd(mid, tm.mscale(w.get(b.at, 'Kp'), err)), ei)
    dt = tm.sub(w.get(sample, 'timeStamp'), w.get(prev, 'timeStamp'))
    return tm.qnormd(tm.qmul(q0, ref.deltaq(tm.mscale(dt, rate)))), ei


def c19(ck):
    def stored(ck):
        for status in (NEED_INIT, INITIALIZED):
            b = Once(ck, 'one sample, %s' % ('initialised' if status == INITIALIZED else 'not initialised'), nframes=1, cams=1, imu=True, feat=False, status=status, nitems=2, natt=2, draw=cdraw, n=256, seeds=1)
            w = b.w
            for ex in b.exits:
                if not b.reach(ex):
                    continue
                st = ex.st
                its, atts = b.ptrs((b.pq, 'items'), ex), b.ptrs((b.at, 'items'), ex)
                for o in atts:
                    if o not in b.atts:
                        isitem(w, ex, o, b.sample, 'the attitude filter stores the sample as measured')
                        q, ei = attstep(w, b, ex, b.atts[-1], o, w.get(b.at, 'bias_a'), w.get(b.at, 'bias_g'), w.get(b.at, 'errInt'), b.sample)
                        w.req(ex, qsame(w.get(o, 'q_wb', st), q, 1e-7), 'the attitude filter subtracts the gyroscope bias once', w.where(o, 'q_wb', st))
                for o in its:
                    if o not in b.items:
                        isitem(w, ex, o, b.sample, 'the propagated state stores the sample as measured')
                        steps(b, ex, b.items[-1], o)
                for o in b.items:
                    isitem(w, ex, o, o, 'samples stored earlier are kept as measured')
                for nm in ('bias_a', 'bias_g'):
                    w.req(ex, same(w.get(b.pq, nm, st), w.get(b.pq, nm), 0.0), 'a sample changes no bias of the propagator', w.where(b.pq, nm, st))
                    w.req(ex, same(w.get(b.at, nm, st), w.get(b.at, nm), 0.0), 'a sample changes no bias of the attitude filter', w.where(b.at, nm, st))
            w.coverage(b.exits, lambda ex: len(b.ptrs((b.at, 'items'), ex)) == 3, 'no sample stored')

    def aligned(ck):
        # the first sample: the measured direction without the bias defines the attitude
        b = Once(ck, 'first sample', nframes=1, cams=1, imu=True, feat=False, status=NEED_INIT, nitems=0, natt=0, draw=cdraw, n=512, seeds=1)
        w = b.w
        for ex in b.exits:
            if not b.reach(ex):
                continue
            st = ex.st
            for o in b.ptrs((b.at, 'items'), ex):
                isitem(w, ex, o, b.sample, 'the attitude filter stores the first sample as measured')
                g = tm.qrot(w.get(o, 'q_wb', st), tm.msub(w.get(b.sample, 'accel'), w.get(b.at, 'bias_a')))
                w.req(ex, same(tm.mcross(g, b.gvec), tm.mzero(3, 1), 1e-4), 'the accelerometer bias is subtracted once from the sample that starts the filter', w.where(o, 'q_wb', st))
        w.coverage(b.exits, lambda ex: len(b.ptrs((b.at, 'items'), ex)) == 1, 'the filter never starts')

    def handed(ck):
        b = initworld(ck, 'initialization', natt=4, n=256)
        for ex in b.exits:
            if b.reach(ex) and b.status(ex) == INITIALIZED:
                started(b, ex)
        b.w.coverage(b.exits, lambda ex: b.status(ex) == INITIALIZED, 'no successful initialization reached')

    def corrected(ck):
        # after an update the corrected biases are in force everywhere
        for tr, sees, s in (({4: (1, [(0,)] * 2)}, {4: (0,)}, dict(cams=1, nframes=2)), ({}, {}, dict(cams=1, nframes=2, window=2))):
            b = Once(ck, 'update with %d features' % len(tr), tracks=tr, sees=sees, nitems=3, natt=2, n=48, seeds=1, processF=True, **s)
            w = b.w
            for ex in b.exits:
                if not b.reach(ex) or b.status(ex) != INITIALIZED:
                    continue
                st = ex.st
                for nm in ('bias_a', 'bias_g'):
                    w.req(ex, same(w.get(b.at, nm, st), w.get(b.pq, nm, st), 0.0), 'after an update the attitude filter uses the corrected %s' % nm, w.where(b.at, nm, st))
                its = b.ptrs((b.pq, 'items'), ex)
                for a, c in zip(its, its[1:]):
                    steps(b, ex, a, c)
                for o in its:
                    isitem(w, ex, o, o, 'samples stay stored as measured')
            w.coverage(b.exits, lambda ex: b.status(ex) == INITIALIZED, 'no successful update reached')

    def steps(b, ex, a, c):
        w, st = b.w, ex.st
        ba, bg = w.get(b.pq, 'bias_a', st), w.get(b.pq, 'bias_g', st)
        s0 = tuple(w.get(a, 'nominalState.' + x, st) for x in ('p_wb', 'v_wb', 'q_wb'))
        want = ref.step(s0, (w.get(a, 'accel', st), w.get(a, 'gyro', st)), (w.get(c, 'accel', st), w.get(c, 'gyro', st)), w.get(a, 'timeStamp', st), w.get(c, 'timeStamp', st), ba, bg, b.gvec)
        for nm, y in zip(('p_wb', 'v_wb', 'q_wb'), want):
            x = w.get(c, 'nominalState.' + nm, st)
            w.req(ex, same(x, y, 1e-6) if nm != 'q_wb' else qsame(x, y, 1e-6), 'the biases are subtracted once in the %s of a propagated state' % nm, w.where(c, 'nominalState.' + nm, st))
    ck.run(stored, aligned, handed, corrected)
