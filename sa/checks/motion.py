"""C12, C13, C14, C29, C31: propagation of the motion state, the attitude filter, the shared helpers."""
import numpy as np
from .. import term as tm
from ..core import same, qsame, Skip, NS
from . import ref
from .build import HINT, draw, gravity

NOM = ('p_wb', 'v_wb', 'q_wb')
MEAS = ('accel', 'gyro', 'timeStamp')


def mdraw(t, r, n):
    """as the other entry states, with coarse and with very different time steps"""
    h = t.a[1] if len(t.a) > 1 else None
    if h == 'step':
        return r.choice([0.0, 0.005, 0.25, 1.5, -0.25], n)
    if h == 'posstep':
        return r.choice([0.0, 0.005, 0.25, 1.5], n)
    if h == 'gaccel':
        v = r.normal(0, 1, (n,) + t.sh)
        v /= np.linalg.norm(v, axis=1, keepdims=True)
        return v * r.choice([9.4, 9.75, 9.79, 9.8, 9.81, 9.85, 10.2], (n, 1, 1))
    if h == 'gconst':
        return np.full(n, 9.8)
    if h == 'exact':
        return r.choice([-0.5, -0.25, 0.0, 0.1, 0.25, 0.4, 0.5, 0.75, 0.875, 1.0, 1.25], n)
    if h == 'gap':
        return r.choice([0.0, 0.25, 0.5, 1.0], n)
    if h == 'tiny':
        return r.choice([0.0, 0.01, 0.1], (n,) + (1,) * len(t.sh)) * r.normal(0, 1, (n,) + t.sh)
    if h == 'tol':
        return r.choice([0.1, 0.25, 0.3, 0.6], n)
    return draw(t, r, n)


class Queue:
    """a propagation queue of its own"""

    def __init__(self, ck, name, cams, n=48, seeds=2, **kw):
        self.w = w = ck.world(name, draw=mdraw, n=n, seeds=seeds, **kw)
        self.fm = w.new('FrameManager')
        for c in range(cams):
            e = w.new('Extrinsic')
            w.sym(e, 'ext%d' % c, HINT)
            w.push(self.fm, 'extrinsics', ('O', e))
        self.pq = pq = w.new('PropagateQueue')
        w.set(pq, 'propagator', ('P', self.fm))
        self.bias('')
        for f in ('p_wb', 'v_wb'):
            w.set(pq, 'initState.' + f, tm.mleaf('initState.' + f, 3, 1))
        w.set(pq, 'initState.q_wb', tm.qleaf('initState.q_wb', 'unitq'))
        w.set(pq, 'Q', tm.mleaf('Q', 12, 12, 'cov'))
        self.gcell, self.g, self.gn = gravity(w)
        self.cams = cams
        self.dim = 6 * cams + 6
        self.k = 0

    def bias(self, tag, st=None):
        w = self.w
        w.set(self.pq, 'bias_a', tm.mleaf('bias_a' + tag, 3, 1, 'small'), st)
        w.set(self.pq, 'bias_g', tm.mleaf('bias_g' + tag, 3, 1, 'small'), st)

    def sample(self, hint='step'):
        i = self.k
        self.k += 1
        s = (tm.mleaf('accel%d' % i, 3, 1), tm.mleaf('gyro%d' % i, 3, 1), tm.leaf('time%d' % i, 's', 'time'))
        if i:
            self.w.like['time%d' % i] = (tm.add(tm.leaf('time%d' % (i - 1), 's', 'time'), tm.leaf('step%d' % i, 's', hint)), 0)
        return s

    def add(self, sts, s):
        """Propagate from each of the given states"""
        out = []
        for st in sts:
            for ex in self.w.run('PropagateQueue::Propagate', self.pq, [self.w.cell(s[0], st), self.w.cell(s[1], st), s[2]], st=st):
                out.append(ex)
        return out

    def call(self, fn, st):
        return self.w.run('PropagateQueue::' + fn, self.pq, [], st=st)

    def its(self, st):
        return [p[1] for p in self.w.seqv(self.pq, 'items', st)]

    def randomize(self, st, o, tag, cov=True):
        """new contents of an item, as after an update"""
        w = self.w
        for f in ('p_wb', 'v_wb'):
            w.set(o, 'nominalState.' + f, tm.mleaf('%s.%s' % (tag, f), 3, 1), st)
        w.set(o, 'nominalState.q_wb', tm.qleaf(tag + '.q_wb', 'unitq'), st)
        if cov:
            w.set(o, 'imuCov', tm.mleaf(tag + '.imuCov', 15, 15, 'cov'), st)
            w.set(o, 'imuExCamCov', tm.mleaf(tag + '.cross', 15, self.dim, 'cross'), st)

    def ok(self, ex, msg):
        w = self.w
        w.req(ex, w.eng.truth(w.val(ex.ret, ex.st)) is True, msg + ' succeeds')

    def held(self, ex, o, s, msg):
        w = self.w
        for nm, x in zip(MEAS, s):
            w.req(ex, same(w.get(o, nm, ex.st), x, 0.0), '%s: %s' % (msg, nm), w.where(o, nm, ex.st))

    def motion(self, ex, a, c, what):
        """item c follows from item a"""
        w, st = self.w, ex.st
        s0 = tuple(w.get(a, 'nominalState.' + x, st) for x in NOM)
        m = lambda o: (w.get(o, 'accel', st), w.get(o, 'gyro', st))
        want = ref.step(s0, m(a), m(c), w.get(a, 'timeStamp', st), w.get(c, 'timeStamp', st), w.get(self.pq, 'bias_a', st), w.get(self.pq, 'bias_g', st), self.g)
        for nm, y in zip(NOM, want):
            x = w.get(c, 'nominalState.' + nm, st)
            w.req(ex, qsame(x, y) if nm == 'q_wb' else same(x, y), '%s: %s is the midpoint integration' % (what, nm), w.where(c, 'nominalState.' + nm, st))

    def covariance(self, ex, a, c, what):
        w, st = self.w, ex.st
        m = lambda o: (w.get(o, 'accel', st), w.get(o, 'gyro', st))
        F, G = ref.transition(w.get(a, 'nominalState.q_wb', st), m(a), m(c), w.get(a, 'timeStamp', st), w.get(c, 'timeStamp', st), w.get(self.pq, 'bias_a', st), w.get(self.pq, 'bias_g', st))
        P, Q = w.get(a, 'imuCov', st), w.get(self.pq, 'Q', st)
        want = tm.madd(ref.mul(F, P, tm.mtr(F)), ref.mul(G, Q, tm.mtr(G)))
        w.req(ex, same(w.get(c, 'imuCov', st), want), what + ': the IMU covariance is F P F^T + G Q G^T', w.where(c, 'imuCov', st))
        B = w.get(a, 'imuExCamCov', st)
        if isinstance(B, tm.T) and isinstance(B.sh, tuple) and B.sh[0] == 15:
            w.req(ex, same(w.get(c, 'imuExCamCov', st), ref.mul(F, B)), what + ': the cross covariance is F times its predecessor', w.where(c, 'imuExCamCov', st))
        else:
            w.req(ex, False, what + ': the cross covariance of the predecessor has no 15 rows', w.where(a, 'imuExCamCov', st))


def runs(ck, body):
    """start, three steps, new contents, recomputation, a restart; body(q, exit, what, data)"""
    for cams in ((0, 1, 2) if not ck.thorough else (0, 1, 2, 3, 4)):
        q = Queue(ck, 'start and steps, %d cameras' % cams, cams)
        w = q.w
        s = [q.sample() for _ in range(4)]
        exits = q.add([w.st], s[0])
        body(q, exits, 'start', (w.st, s[0]))
        for k in range(1, 4):
            sts = [ex.st.copy() for ex in exits]
            for st in sts:
                its = q.its(st)
                if its:
                    q.randomize(st, its[-1], 'before%d' % k)
                q.bias(str(k), st)
            pre = {id(x): x for x in sts}
            exits = []
            for st in sts:
                ee = q.add([st], s[k])
                body(q, ee, 'step', (st, s[k]))
                exits += ee
        # new contents of the first item and new biases, then everything is recomputed
        again = []
        for ex in exits:
            st = ex.st.copy()
            its = q.its(st)
            if its:
                q.randomize(st, its[0], 'corrected')
            q.bias('corrected', st)
            ee = q.call('Repropagate', st)
            body(q, ee, 'recompute', (st, None))
            again += ee
        # a restart after an earlier run
        for ex in again[:2]:
            st = ex.st.copy()
            ob = st.heap[w.f(q.pq, 'items', st)]
            st.heap[w.f(q.pq, 'items', st)] = ob[:3] + ((),) + ob[4:]
            for f in ('p_wb', 'v_wb'):
                w.set(q.pq, 'initState.' + f, tm.mleaf('second.' + f, 3, 1), st)
            w.set(q.pq, 'initState.q_wb', tm.qleaf('second.q_wb', 'unitq'), st)
            q.bias('second', st)
            z = [q.sample() for _ in range(2)]
            ee = q.add([st], z[0])
            body(q, ee, 'start', (st, z[0]))
            for e2 in ee:
                st2 = e2.st.copy()
                body(q, q.add([st2], z[1]), 'step', (st2, z[1]))
        for n in (0, 1, 2, 5):
            q = Queue(ck, 'recomputation of %d states, %d cameras' % (n, cams), cams, n=32, seeds=1)
            st = q.w.st
            for i in range(n):
                it = q.w.eng.alloc_rec(st, NS + 'IMUPropagateQueueItem', 'item', init=True)
                q.w.sym(it, 'item%d' % i, dict(HINT, imuCov='cov', timeStamp='time'))
                q.w.set(it, 'imuExCamCov', tm.mleaf('item%d.cross' % i, 15, q.dim, 'cross'))
                q.w.push(q.pq, 'items', ('P', it))
                if i:
                    q.w.like['item%d.timeStamp' % i] = (tm.add(tm.leaf('item%d.timeStamp' % (i - 1), 's', 'time'), tm.leaf('step%d' % i, 's', 'step')), 0)
            ee = q.call('Repropagate', st)
            body(q, ee, 'recompute', (st, None))


def c13(ck):
    def body(q, exits, kind, data):
        w = q.w
        st0, s = data
        before = q.its(st0)
        for ex in exits:
            if ex.st.taint is None and not w.reach(ex.st.gate()):
                continue
            its = q.its(ex.st)
            q.ok(ex, kind)
            for nm in ('bias_a', 'bias_g'):
                w.req(ex, same(w.get(q.pq, nm, ex.st), w.get(q.pq, nm, st0), 0.0), 'propagation changes no bias', w.where(q.pq, nm, ex.st))
            w.req(ex, same(ex.st.heap[q.gcell][1], q.g, 0.0), 'propagation does not change gravity')
            if kind == 'recompute':
                w.req(ex, its == before, 'recomputing keeps the states in order')
                for o in its:
                    q.held(ex, o, [w.get(o, nm, st0) for nm in MEAS], 'recomputing keeps the measurement')
                for nm in NOM if its else ():
                    w.req(ex, same(w.get(its[0], 'nominalState.' + nm, ex.st), w.get(its[0], 'nominalState.' + nm, st0), 0.0), 'recomputing keeps the first state', w.where(its[0], 'nominalState.' + nm, ex.st))
                for i in range(1, len(its)):
                    q.motion(ex, its[i - 1], its[i], 'recomputed state')
                continue
            w.req(ex, its[:-1] == before and len(its) == len(before) + 1 and its[-1] not in before, 'one state is appended')
            if not its:
                continue
            q.held(ex, its[-1], s, 'the new state holds the sample')
            for o in before:
                for nm in NOM:
                    w.req(ex, same(w.get(o, 'nominalState.' + nm, ex.st), w.get(o, 'nominalState.' + nm, st0), 0.0), 'earlier states are kept', w.where(o, 'nominalState.' + nm, ex.st))
            if kind == 'start':
                for nm in NOM:
                    w.req(ex, same(w.get(its[-1], 'nominalState.' + nm, ex.st), w.get(q.pq, 'initState.' + nm, st0), 0.0), 'the first state has the initial %s' % nm, w.where(its[-1], 'nominalState.' + nm, ex.st))
            elif len(its) > 1:
                q.motion(ex, its[-2], its[-1], 'propagated state')
        w.coverage(exits, lambda ex: True, 'nothing propagated')
    ck.run(lambda ck: runs(ck, body))


def c14(ck):
    def body(q, exits, kind, data):
        w = q.w
        st0, s = data
        before = q.its(st0)
        for ex in exits:
            if ex.st.taint is None and not w.reach(ex.st.gate()):
                continue
            its = q.its(ex.st)
            w.req(ex, same(w.get(q.pq, 'Q', ex.st), w.get(q.pq, 'Q', st0), 0.0), 'propagation does not change the process noise', w.where(q.pq, 'Q', ex.st))
            if kind == 'start':
                if len(its) != 1:
                    w.req(ex, False, 'a start has one state')
                    continue
                for o, nm, sh in ((its[0], 'imuCov', (15, 15)), (its[0], 'imuExCamCov', (15, q.dim)), (q.pq, 'exCamCov', (q.dim, q.dim))):
                    w.req(ex, same(w.get(o, nm, ex.st), tm.mzero(*sh), 0.0), 'a start has zero %s of size %dx%d' % ((nm,) + sh), w.where(o, nm, ex.st))
                continue
            w.req(ex, same(w.get(q.pq, 'exCamCov', ex.st), w.get(q.pq, 'exCamCov', st0), 0.0), 'propagation does not change the camera covariance', w.where(q.pq, 'exCamCov', ex.st))
            for o in before if kind == 'step' else before[:1]:
                for nm in ('imuCov', 'imuExCamCov'):
                    w.req(ex, same(w.get(o, nm, ex.st), w.get(o, nm, st0), 0.0), 'earlier covariances are kept', w.where(o, nm, ex.st))
            for i in range(1, len(its)) if kind == 'recompute' else [len(its) - 1]:
                if i > 0:
                    q.covariance(ex, its[i - 1], its[i], 'recomputed state' if kind == 'recompute' else 'propagated state')
        w.coverage(exits, lambda ex: True, 'nothing propagated')

    def noise(ck):
        q = Queue(ck, 'process noise', 1)
        w = q.w
        v = [tm.leaf(n, 's', 'pos') for n in ('accelNoise', 'gyroNoise', 'accelWalk', 'gyroWalk')]
        st = w.st
        for turn in range(2):
            exits = w.run('PropagateQueue::InitializeProcessNoiseMatrix', q.pq, v, st=st)
            d = tm.mzero(12, 12)
            for k, x in enumerate(v):
                for i in range(3):
                    d = ref.put(d, 3 * k + i, 3 * k + i, tm.mlit(1, 1, [x]))
            for ex in exits:
                w.req(ex, same(w.get(q.pq, 'Q', ex.st), d), 'the process noise is diagonal with the four intensities in the order of the noise vector', w.where(q.pq, 'Q', ex.st))
                st = ex.st.copy()
            v = [tm.leaf(n + '2', 's', 'pos') for n in ('accelNoise', 'gyroNoise', 'accelWalk', 'gyroWalk')]
    ck.run(lambda ck: runs(ck, body), noise)


# ---- C29 ----
class Filter:
    def __init__(self, ck, name, n=192, seeds=2, gh='gconst', items=0, times=None):
        self.w = w = ck.world(name, draw=mdraw, n=n, seeds=seeds)
        self.at = w.new('AttitudeEstimate')
        self.gcell, self.g, self.gn = gravity(w)
        w.like['gravity'] = (tm.leaf('gnorm', 's', gh), 0)
        for nm in ('bias_a', 'bias_g', 'errInt'):
            w.set(self.at, nm, tm.mleaf('att.' + nm, 3, 1, 'small'))
        for nm in ('Kp', 'Ki'):
            w.set(self.at, nm, tm.leaf('att.' + nm, 's', 'pos'))
        self.items = []
        for i in range(items):
            it = w.new('AttitudeEstimateItem')
            w.sym(it, 'att%d' % i, HINT)
            if times:
                w.like['att%d.timeStamp' % i] = (tm.add(tm.leaf('att%d.timeStamp' % (i - 1), 's', 'time'), tm.leaf('gap%d' % i, 's', 'gap')) if i else tm.leaf('first', 's', 'zero'), 0)
                if i:
                    w.assume(tm.le(w.get(self.items[i - 1], 'timeStamp'), w.get(it, 'timeStamp')))
            w.push(self.at, 'items', ('P', it))
            self.items.append(it)

    def its(self, st):
        return [p[1] for p in self.w.seqv(self.at, 'items', st)]

    def held(self, ex, o, s, msg):
        w = self.w
        for nm, x in zip(MEAS, s):
            w.req(ex, same(w.get(o, nm, ex.st), x, 0.0), '%s: %s' % (msg, nm), w.where(o, nm, ex.st))

    def add(self, s, st=None):
        st = st or self.w.st
        return self.w.run('AttitudeEstimate::Propagate', self.at, [self.w.cell(s[0], st), self.w.cell(s[1], st), s[2]], st=st)

    def next(self, ex, o, prev, s, err0, st0):
        """reference attitude and integral after one step"""
        w = self.w
        q0 = w.get(prev, 'q_wb', st0)
        z = tm.mdivs(s[0], tm.mnorm(s[0]))
        want = tm.mdivs(tm.qrot(tm.qinv(q0), self.g), tm.mnorm(self.g))
        err = tm.mcross(z, want)
        ei = tm.madd(err0, tm.mscale(w.get(self.at, 'Ki'), err))
        mid = tm.msub(tm.mscale(0.5, tm.madd(w.get(prev, 'gyro', st0), s[1])), w.get(self.at, 'bias_g'))
        rate = tm.madd(tm.madd(mid, tm.mscale(w.get(self.at, 'Kp'), err)), ei)
        dt = tm.sub(s[2], w.get(prev, 'timeStamp', st0))
        return tm.qnormd(tm.qmul(q0, ref.deltaq(tm.mscale(dt, rate)))), ei


def smp(w, tag, prev=None, ah='gaccel', th='step'):
    s = (tm.mleaf(tag + '.accel', 3, 1, ah), tm.mleaf(tag + '.gyro', 3, 1), tm.leaf(tag + '.time', 's', 'time'))
    if prev is not None:
        w.like[tag + '.time'] = (tm.add(prev, tm.leaf(tag + '.step', 's', th)), 0)
    return s


def c29(ck):
    def start(ck):
        f = Filter(ck, 'first sample', n=512)
        w = f.w
        w.set(f.at, 'bias_a', tm.mleaf('att.bias_a', 3, 1, 'tiny'))
        s = smp(w, 's')
        b = w.get(f.at, 'bias_a')
        w.like['s.accel'] = (tm.madd(tm.mleaf('dir', 3, 1, 'gaccel'), b), 0)
        exits = f.add(s)
        meas = tm.msub(s[0], b)
        ok = tm.le(tm.fn('fabs', tm.sub(tm.mnorm(f.g), tm.mnorm(meas))), 0.04)
        for ex in exits:
            its = f.its(ex.st)
            r = w.eng.truth(w.val(ex.ret, ex.st))
            w.req(ex, r is (len(its) == 1), 'the filter reports whether it started')
            w.req(ex, tm.iff(len(its) == 1, ok), 'the filter starts exactly if the bias-free measurement has the magnitude of gravity')
            if len(its) == 1:
                f.held(ex, its[0], s, 'the first attitude holds the sample')
                q = w.get(its[0], 'q_wb', ex.st)
                up = tm.qrot(q, meas)
                w.req(ex, same(tm.mdivs(up, tm.mnorm(up)), tm.mdivs(f.g, tm.mnorm(f.g)), 1e-5), 'the first attitude maps the measured direction on gravity', w.where(its[0], 'q_wb', ex.st))
                w.req(ex, tm.close(ref.norm2(q), 1.0, 1e-6), 'the first attitude is a unit quaternion', w.where(its[0], 'q_wb', ex.st))
            w.req(ex, same(w.get(f.at, 'errInt', ex.st), w.get(f.at, 'errInt'), 0.0), 'a start does not change the integral')
        w.coverage(exits, lambda ex: len(f.its(ex.st)) == 1, 'the filter never starts')
        w.coverage(exits, lambda ex: len(f.its(ex.st)) == 0, 'the filter always starts')

    def level(ck):
        # special directions: level, upside down
        for nm, sign in (('level', 1.0), ('upside down', -1.0)):
            f = Filter(ck, 'first sample ' + nm, n=64)
            w = f.w
            s = smp(w, 's')
            b = w.get(f.at, 'bias_a')
            w.like['s.accel'] = (tm.madd(tm.mscale(sign, f.g), b), 0)
            for ex in f.add(s):
                its = f.its(ex.st)
                if not its:
                    continue
                q = w.get(its[0], 'q_wb', ex.st)
                w.req(ex, tm.close(ref.norm2(q), 1.0, 1e-6), 'the first attitude is a unit quaternion when %s' % nm, w.where(its[0], 'q_wb', ex.st))
                if sign > 0:
                    w.req(ex, same(tm.qrot(q, f.g), f.g, 1e-4), 'the first attitude is level when the sample is', w.where(its[0], 'q_wb', ex.st))

    def steps(ck):
        for n in (1, 2, 3):
            f = Filter(ck, 'sample after %d' % n, items=n, gh='gconst')
            w = f.w
            last = f.items[-1]
            s = smp(w, 's', w.get(last, 'timeStamp'))
            w.assume(tm.lt(1e-3, tm.mnorm(s[0])))
            exits = f.add(s)
            later = tm.le(w.get(last, 'timeStamp'), s[2])
            for ex in exits:
                its = f.its(ex.st)
                took = len(its) == n + 1
                r = w.eng.truth(w.val(ex.ret, ex.st))
                w.req(ex, r is took, 'the filter reports whether it took the sample')
                w.req(ex, tm.iff(took, later), 'the filter takes every sample that is not older than its last')
                w.req(ex, its[:n] == f.items, 'earlier attitudes are kept in order')
                for o in f.items:
                    for nm in MEAS + ('q_wb',):
                        w.req(ex, same(w.get(o, nm, ex.st), w.get(o, nm), 0.0), 'earlier attitudes are kept', w.where(o, nm, ex.st))
                for nm in ('bias_a', 'bias_g', 'Kp', 'Ki'):
                    w.req(ex, same(w.get(f.at, nm, ex.st), w.get(f.at, nm), 0.0), 'a sample changes no parameter of the filter', w.where(f.at, nm, ex.st))
                if not took:
                    w.req(ex, same(w.get(f.at, 'errInt', ex.st), w.get(f.at, 'errInt'), 0.0), 'a sample that is not taken does not change the integral')
                    continue
                f.held(ex, its[-1], s, 'the new attitude holds the sample')
                q, ei = f.next(ex, its[-1], last, s, w.get(f.at, 'errInt'), w.st)
                w.req(ex, same(w.get(f.at, 'errInt', ex.st), ei), 'the integral grows by Ki times the direction error', w.where(f.at, 'errInt', ex.st))
                w.req(ex, qsame(w.get(its[-1], 'q_wb', ex.st), q), 'the attitude is its predecessor rotated by the corrected bias-free mean rate', w.where(its[-1], 'q_wb', ex.st))
            w.coverage(exits, lambda ex: len(f.its(ex.st)) == n + 1, 'no sample taken')

    def history(ck):
        # start and steps in a row: nothing else is carried over
        f = Filter(ck, 'start and steps', n=256)
        w = f.w
        w.set(f.at, 'errInt', tm.mzero(3, 1))
        s = [smp(w, 's0')]
        w.like['s0.accel'] = (tm.madd(tm.mleaf('dir', 3, 1, 'gaccel'), w.get(f.at, 'bias_a')), 0)
        sts = [ex.st for ex in f.add(s[0]) if len(f.its(ex.st)) == 1]
        err = {id(st): w.get(f.at, 'errInt', st) for st in sts}
        for k in (1, 2, 3):
            s.append(smp(w, 's%d' % k, s[-1][2], th='posstep'))
            nxt = []
            for st in sts:
                prev = f.its(st)[-1]
                for ex in f.add(s[k], st.copy()):
                    its = f.its(ex.st)
                    if len(its) != k + 1:
                        continue
                    q, ei = f.next(ex, its[-1], prev, s[k], w.get(f.at, 'errInt', st), st)
                    w.req(ex, qsame(w.get(its[-1], 'q_wb', ex.st), q), 'each attitude follows from its predecessor', w.where(its[-1], 'q_wb', ex.st))
                    nxt.append(ex.st)
            sts = nxt

    def lookup(ck):
        for n in (0, 1, 2, 3, 4) if not ck.thorough else (0, 1, 2, 3, 4, 5, 6):
            f = Filter(ck, 'lookup in %d attitudes' % n, items=n, times=True, n=768)
            w = f.w
            T, thr = tm.leaf('T', 's', 'exact'), tm.leaf('tolerance', 's', 'tol')
            out = w.cell(tm.qleaf('out', 'unitq'))
            d = [tm.fn('fabs', tm.sub(w.get(o, 'timeStamp'), T)) for o in f.items]
            some = tm.or_(*[tm.lt(x, thr) for x in d]) if n else False
            exits = w.run('AttitudeEstimate::GetAttitude', f.at, [T, thr, ('CELL', out)])
            for ex in exits:
                r = w.eng.truth(w.val(ex.ret, ex.st))
                q = ex.st.heap[out][1]
                w.unchanged(ex, f.at, 'a lookup changes nothing')
                if r is True:
                    w.req(ex, some, 'a lookup succeeds only if an attitude lies within the tolerance')
                    c = []
                    for i, o in enumerate(f.items):
                        best = tm.and_(*[tm.le(d[i], tm.add(d[j], 1e-9)) for j in range(n) if j != i])
                        c.append(tm.and_(best, same(q, w.get(o, 'q_wb'), 0.0)))
                    w.req(ex, tm.or_(*c) if c else False, 'a lookup returns the attitude nearest in time')
                elif r is False:
                    w.req(ex, tm.not_(some), 'a lookup fails only if no attitude lies within the tolerance')
                else:
                    bad = tm.iff(w.val(ex.ret, ex.st), some)
                    w.req(ex, bad, 'a lookup succeeds exactly if an attitude lies within the tolerance')
            w.memory()

    def many(ck):
        # a long history with given time stamps
        n = 40
        f = Filter(ck, 'lookup in %d attitudes' % n, items=n, times=True, n=2)
        w = f.w
        for i, o in enumerate(f.items):
            w.set(o, 'timeStamp', 0.25 * i)
        for T in (0.01, 2.6, 5.0, 7.26, 9.74):
            out = w.cell(tm.qleaf('out', 'unitq'))
            for ex in w.run('AttitudeEstimate::GetAttitude', f.at, [T, 0.13, ('CELL', out)]):
                o = min(f.items, key=lambda o: abs(w.get(o, 'timeStamp') - T))
                w.req(ex, w.eng.truth(w.val(ex.ret, ex.st)), 'a lookup succeeds if an attitude lies within the tolerance')
                w.req(ex, same(ex.st.heap[out][1], w.get(o, 'q_wb'), 0.0), 'a lookup returns the attitude nearest in time')

    def forget(ck):
        for n in (0, 1, 3, 4):
            f = Filter(ck, 'forgetting old ones of %d attitudes' % n, items=n, times=True, n=256)
            w = f.w
            T, thr = tm.leaf('T', 's', 'exact'), tm.leaf('tolerance', 's', 'tol')
            exits = w.run('AttitudeEstimate::CleanOldItems', f.at, [T, thr])
            for ex in exits:
                its = f.its(ex.st)
                k = n - len(its)
                w.req(ex, k >= 0 and its == f.items[k:], 'only the oldest attitudes are forgotten')
                if k < 0 or its != f.items[k:]:
                    continue
                for i, o in enumerate(f.items):
                    old = tm.lt(thr, tm.sub(T, w.get(o, 'timeStamp')))
                    w.req(ex, tm.iff(i < k, old), 'exactly the attitudes older than the tolerance are forgotten')
                    if i >= k:
                        for nm in MEAS + ('q_wb',):
                            w.req(ex, same(w.get(o, nm, ex.st), w.get(o, nm), 0.0), 'attitudes that are kept stay as they are', w.where(o, nm, ex.st))
            w.memory()

    def bias(ck):
        f = Filter(ck, 'biases', items=2)
        w = f.w
        a, g = tm.mleaf('newbias_a', 3, 1), tm.mleaf('newbias_g', 3, 1)
        for ex in w.run('AttitudeEstimate::SetBias', f.at, [w.cell(a), w.cell(g)]):
            w.req(ex, same(w.get(f.at, 'bias_a', ex.st), a, 0.0), 'the accelerometer bias is the one set', w.where(f.at, 'bias_a', ex.st))
            w.req(ex, same(w.get(f.at, 'bias_g', ex.st), g, 0.0), 'the gyroscope bias is the one set', w.where(f.at, 'bias_g', ex.st))
    ck.run(start, level, steps, history, lookup, many, forget, bias)


# ---- C31 ----
def c31(ck):
    def fns(name):
        return [f for f in ck.prog.byname.get(NS + 'Utility::' + name, [])]

    def each(ck, name, args, cond, msg, n=64):
        fs = fns(name)
        if not fs:
            ck.undecided('no function Utility::' + name)
        for f in fs:
            if len(f['params']) != len(args):
                continue
            w = ck.world('Utility::%s' % name, n=n, seeds=2, draw=mdraw)
            try:
                exits = w.run(f, None, [('CELL', w.cell(a)) for a in args])
            except Skip as x:
                ck.undecided(str(x))
                continue
            for ex in exits:
                r = w.val(ex.ret, ex.st)
                w.req(ex, cond(r), msg)

    v, u = tm.mleaf('v', 3, 1), tm.mleaf('u', 3, 1)
    q, p = tm.qleaf('q', 'anyq'), tm.qleaf('p', 'anyq')

    def vec4(q):
        return tm.mlit(4, 1, [tm.qc(q, k) for k in range(4)])

    def isM(r, sh):
        return isinstance(r, tm.T) and r.sh == sh

    def skewm(ck):
        each(ck, 'SkewSymmetricMatrix', [v], lambda r: isM(r, (3, 3)) and same(ref.mul(r, u), tm.mcross(v, u)), 'the skew matrix acts as the cross product')

    def dq(ck):
        each(ck, 'DeltaQ', [v], lambda r: isinstance(r, tm.T) and r.sh == 'q' and same(r, ref.deltaq(v)), 'the small-rotation quaternion is 1 plus half the rotation vector')

    def left(ck):
        each(ck, 'Qleft', [q], lambda r: isM(r, (4, 4)) and same(ref.mul(r, vec4(p)), vec4(tm.qmul(q, p))), 'the left matrix times a quaternion is the product from the left')
        each(ck, 'Qright', [q], lambda r: isM(r, (4, 4)) and same(ref.mul(r, vec4(p)), vec4(tm.qmul(p, q))), 'the right matrix times a quaternion is the product from the right')

    def hom(ck):
        uq = tm.qleaf('uq', 'unitq')
        T = tm.mid(4)
        T = ref.put(T, 0, 0, tm.qmat(uq))
        T = ref.put(T, 0, 3, v)
        each(ck, 'TransformMatrix', [uq, v], lambda r: isM(r, (4, 4)) and same(r, T), 'the homogeneous matrix holds the rotation and the translation')
    ck.run(skewm, dq, left, hom, lambda ck: inverse(ck), lambda ck: convert(ck), lambda ck: size(ck))


def inverse(ck):
    """the inverse of a symmetric matrix with only positive, and with some vanishing eigenvalues"""
    fs = ck.prog.byname.get(NS + 'Utility::Inverse', [])
    if not fs:
        ck.undecided('no function Utility::Inverse')
    for f in fs:
        for n in (1, 2, 3, 5):
            for k in sorted({n, n - 1, 1} - {0}):
                w = ck.world('Utility::Inverse of %dx%d of rank %d' % (n, n, k), n=32, seeds=2, draw=mdraw)
                A = tm.mleaf('A', n, n)
                B = tm.mleaf('B', n, k)
                w.like['A'] = (ref.mul(B, tm.mtr(B)), 0)
                lo = None
                if k == n:
                    # well conditioned, so that every eigenvalue counts
                    w.like['A'] = (tm.madd(ref.mul(B, tm.mtr(B)), tm.mscale(0.5, tm.mid(n))), 0)
                for ex in w.run(f, None, [('CELL', w.cell(A))]):
                    r = w.val(ex.ret, ex.st)
                    if not (isinstance(r, tm.T) and r.sh == (n, n)):
                        w.req(ex, False, 'the inverse has the size of the matrix')
                        continue
                    if k == n:
                        w.req(ex, same(ref.mul(r, A), tm.mid(n), 1e-5), 'the inverse of a positive definite matrix is its inverse')
        # a diagonal matrix with negative and vanishing entries: only positive eigenvalues are inverted
        w = ck.world('Utility::Inverse of a diagonal matrix', n=32, seeds=2, draw=mdraw)
        a, b = tm.leaf('a', 's', 'pos'), tm.leaf('b', 's', 'pos')
        A = tm.mlit(4, 4, [a, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, tm.neg(b), 0.0, 0.0, 0.0, 0.0, tm.mul(2.0, b)])
        want = tm.mlit(4, 4, [tm.div(1.0, a), 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, tm.div(0.5, b)])
        w.assume(tm.lt(1e-3, a))
        w.assume(tm.lt(1e-3, b))
        for ex in w.run(f, None, [('CELL', w.cell(A))]):
            r = w.val(ex.ret, ex.st)
            w.req(ex, isinstance(r, tm.T) and r.sh == (4, 4) and same(r, want, 1e-5), 'eigenvalues that are not positive are not inverted')


def convert(ck):
    """splitting and joining an error state"""
    names = ('p_wb', 'v_wb', 'theta_wb', 'bias_a', 'bias_g')
    fs = ck.prog.byname.get(NS + 'PropagateQueue::ErrorStateConvert', [])
    x = tm.mleaf('x', 15, 1)
    for f in fs:
        w = ck.world('error state of %s' % f['params'][0]['t'], n=32, seeds=1)
        pq = w.new('PropagateQueue')
        if 'IMUFullState' in f['params'][0]['t']:
            s = w.new('IMUFullState')
            w.sym(s, 'state')
            want = tm.mzero(15, 1)
            for k, nm in enumerate(names):
                want = ref.put(want, 3 * k, 0, w.get(s, nm))
            for ex in w.run(f, pq, [s]):
                w.req(ex, same(w.val(ex.ret, ex.st), want, 0.0), 'joining puts position, velocity, rotation and biases in this order')
        else:
            for ex in w.run(f, pq, [('CELL', w.cell(x))]):
                r = w.val(ex.ret, ex.st)
                o = r[1] if isinstance(r, tuple) and r and r[0] == 'O' else None
                if o is None:
                    ck.undecided('error state result')
                    continue
                for k, nm in enumerate(names):
                    w.req(ex, same(w.get(o, nm, ex.st), ref.seg(x, 3 * k), 0.0), 'splitting takes %s from its place' % nm)


def size(ck):
    """magnitudes of rotations and translations"""
    for f in ck.prog.byname.get(NS + 'Utility::ComputeTranslationMagnitude', []):
        w = ck.world('translation magnitude', n=64, seeds=1)
        v = tm.mleaf('v', 3, 1)
        for ex in w.run(f, None, [('CELL', w.cell(v))]):
            w.req(ex, same(w.val(ex.ret, ex.st), tm.mnorm(v)), 'the magnitude of a translation is its length')

