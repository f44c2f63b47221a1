"""C21-C24, C32: triangulation and pose solvers."""
import numpy as np
from .. import term as tm
from ..core import same, qsame, Skip, Exit
from . import ref
from .build import SOLVED


def homogeneous(qs, ps, zs):
    """stacked homogeneous equations of a point seen by cameras at the given poses"""
    A = tm.mzero(2 * len(qs), 4)
    for i, (q, p, z) in enumerate(zip(qs, ps, zs)):
        R = tm.mtr(tm.qmat(q))
        t = tm.mneg(ref.mul(R, p))
        T = ref.put(ref.put(tm.mzero(3, 4), 0, 0, R), 0, 3, t)
        row = lambda k: tm.mblk(T, k, 0, 1, 4)
        for k in range(2):
            A = ref.put(A, 2 * i + k, 0, tm.msub(tm.mscale(tm.mc(z, k), row(2)), row(k)))
    return A


def analytic(qs, ps, zs):
    """the point that solves the homogeneous equations best"""
    V = tm.mfun('svdV', (4, 4), homogeneous(qs, ps, zs))
    x = tm.mblk(V, 0, 3, 4, 1)
    return tm.mdivs(tm.mblk(x, 0, 0, 3, 1), tm.mc(x, 3, 0))


def gdraw(t, r, n):
    h = t.a[1] if len(t.a) > 1 else None
    if h == 'cam':             # in camera coordinates, in front
        v = r.uniform(-1, 1, (n, 3, 1))
        v[:, 2, 0] = r.uniform(2, 6, n)
        return v
    if h == 'camflat':         # no usable depth
        v = r.uniform(-1, 1, (n, 3, 1))
        v[:, 2, 0] = r.choice([0.0, 1e-8, -1e-8], n)
        return v
    if h == 'nearq':
        q = np.array([1, 0, 0, 0.]) + 0.02 * r.normal(0, 1, (n, 4))
        return q / np.linalg.norm(q, axis=1, keepdims=True)
    if h == 'hypq':
        q = np.array([1, 0, 0, 0.]) + r.choice([0.0, 0.004, 0.01, 0.3], (n, 1)) * r.normal(0, 1, (n, 4))
        return q / np.linalg.norm(q, axis=1, keepdims=True)
    if h == 'hypp':
        return r.choice([0.0, 0.01, 0.05, 1.0], (n, 1, 1)) * r.normal(0, 1, (n, 3, 1))
    if h == 'far':             # a measurement error larger than one
        a = r.uniform(0, 2 * np.pi, n)
        return (r.uniform(1.2, 6, n)[:, None] * np.stack([np.cos(a), np.sin(a)], 1))[..., None]
    if h == 'tinyz':
        return r.normal(0, 1e-3, (n, 2, 1))
    if h == 'nanvec':
        v = r.normal(0, 1, (n,) + t.sh)
        k = r.integers(0, t.sh[0], n)
        v[np.arange(n), k, 0] = r.choice([np.nan, np.inf, -np.inf], n)
        return v
    if h == 'spread':
        return r.normal(0, 1, (n,) + t.sh) * r.choice([0.05, 0.5, 2.0], (n, 1, 1))
    if h == 'depthscale':
        return r.choice([1.0, 0.5, 2.0, 5.0, -1.0, 20.0], n)
    return None


def reproject(pt, q, p, z):
    """(residual, point in the camera, derivatives by position and by right-multiplied attitude)"""
    c = tm.qrot(tm.qinv(q), tm.msub(pt, p))
    x, y, d = (tm.mc(c, i) for i in range(3))
    r = tm.msub(tm.mlit(2, 1, [tm.div(x, d), tm.div(y, d)]), z)
    i = tm.div(1.0, d)
    J = tm.mlit(2, 3, [i, 0.0, tm.neg(tm.div(x, tm.mul(d, d))), 0.0, i, tm.neg(tm.div(y, tm.mul(d, d)))])
    Jx = tm.mzero(2, 6)
    Jx = ref.put(Jx, 0, 0, tm.mneg(ref.mul(J, tm.mtr(tm.qmat(q)))))
    Jx = ref.put(Jx, 0, 3, ref.mul(J, ref.skew(c)))
    return r, c, Jx


def gauss(pts, zs, q, p, weights=None):
    """one iteration of the pose: (q, p, norm of the correction)"""
    H, b = tm.mzero(6, 6), tm.mzero(6, 1)
    for i, (x, z) in enumerate(zip(pts, zs)):
        r, c, J = reproject(x, q, p, z)
        h, g = ref.mul(tm.mtr(J), J), ref.mul(tm.mtr(J), r)
        if weights:
            h, g = ref.scale(weights[i], h), ref.scale(weights[i], g)
        H, b = ref.add(H, h), tm.msub(b, g)
    dx = tm.mfun('solve', (6, 1), H, b)
    return ref.norm_q(tm.qmul(q, ref.deltaq(ref.seg(dx, 3)))), ref.add(p, ref.seg(dx, 0)), tm.fn('sqrt', tm.mnorm2(dx))


class Pose:
    """arguments of a pose solver: n point pairs seen from a pose near the initial guess"""

    def __init__(self, ck, name, n, flat=(), far=(), nan=(), sizes=None, iters=None, n_val=64, seeds=2, noise='tinyz', near='nearq', start=None, **kw):
        self.w = w = ck.world(name, draw=gdraw, n=n_val, seeds=seeds, **kw)
        self.s = w.new('PnPSolver')
        if iters is not None:
            w.set(self.s, 'maxIterateTimes', iters)
        self.q, self.p = tm.qleaf('q0'), tm.mleaf('p0', 3, 1)
        qt, pt = tm.qmul(self.q, tm.qleaf('true.dq', near)), tm.madd(self.p, tm.mscale(0.05, tm.mleaf('true.dp', 3, 1)))
        self.qt, self.pt = qt, pt
        self.pts, self.zs = [], []
        for i in range(n):
            x, z = tm.mleaf('point%d' % i, 3, 1), tm.mleaf('z%d' % i, 2, 1)
            if i in nan:
                x = tm.mleaf('point%d' % i, 3, 1, 'nanvec')
            elif i in flat:
                w.like['point%d' % i] = (tm.madd(tm.qrot(self.q, tm.mleaf('cam%d' % i, 3, 1, 'camflat')), self.p), 0)
            else:
                w.like['point%d' % i] = (tm.madd(tm.qrot(qt, tm.mleaf('cam%d' % i, 3, 1, 'cam')), pt), 0)
                c = tm.qrot(tm.qinv(qt), tm.msub(x, pt))
                w.like['z%d' % i] = (tm.madd(tm.mdivs(tm.mblk(c, 0, 0, 2, 1), tm.mc(c, 2)), tm.mleaf('err%d' % i, 2, 1, 'far' if i in far else noise)), 0)
            self.pts.append(x)
            self.zs.append(z)
        if start == 'huge':       # level start far away, every point in its image plane
            w.like['q0'] = (tm.qid(), 0)
            w.like['p0'] = (tm.mlit(3, 1, [0.0, 0.0, 1e20]), 0)
            for i in range(n):
                w.like['point%d' % i] = (tm.mlit(3, 1, [1e20 * (i % 2), 1e20 * (i // 2 % 2), 1e20]), 0)
        elif start == 'behind':   # every point far behind the start
            for i in range(n):
                w.like['point%d' % i] = (tm.madd(tm.qrot(self.q, tm.mlit(3, 1, [float(i % 2), float(i // 2 % 2), -1e20 * (1 + i)])), self.p), 0)
        elif start == 'nan':
            self.p = tm.mleaf('p0', 3, 1, 'nanvec')
        elif start == 'zero':     # start in the first point
            w.like['p0'] = (self.pts[0], 0) if n else (self.p, 0)
            w.like.pop('point0', None)
        self.args(sizes or (n, n))

    def args(self, sizes):
        w = self.w
        self.v3, self.v2 = w.alloc('vec<M3,1>'), w.alloc('vec<M2,1>')
        for i in range(sizes[0]):
            w.push(self.v3, '', self.pts[i])
        for i in range(sizes[1]):
            w.push(self.v2, '', self.zs[i])
        self.qc, self.pc = w.cell(self.q), w.cell(self.p)

    def run(self, fn, flags=None):
        a = [self.v3, self.v2, ('CELL', self.qc), ('CELL', self.pc)]
        if flags is not None:
            a.append(flags)
        return self.w.run('PnPSolver::' + fn, self.s, a)

    def ok(self, ex):
        return self.w.eng.truth(self.w.val(ex.ret, ex.st))

    def pose(self, ex):
        return ex.st.heap[self.qc][1], ex.st.heap[self.pc][1]


def has(ck, fn):
    return any(g['fn'] == 'ESKF_VIO_BACKEND::' + fn for g in ck.prog.fns.values())


def c22(ck):
    def plain(ck):
        for fn in ('EstimatePose', 'EstimatePoseKernel'):
            for n, flat, iters in ((4, (), 1), (5, (1, 4), 1), (6, (0,), 1), (4, (), 2), (5, (), 3), (3, (), 1), (64, (7,), 1)) + (((9, (3, 8), 1), (7, (), 5)) if ck.thorough else ()):
                a = Pose(ck, '%s, %d pairs, %d without usable depth, %d iterations' % (fn, n, len(flat), iters), n, flat, iters=iters)
                w = a.w
                use = [i for i in range(n) if i not in flat]
                for ex in a.run(fn):
                    if a.ok(ex) is not True:
                        continue
                    q, p = a.q, a.p
                    done, going, seen = [], True, []
                    for k in range(iters):
                        q, p, nrm = gauss([a.pts[i] for i in use], [a.zs[i] for i in use], q, p)
                        qo, po = a.pose(ex)
                        hit = tm.and_(qsame(qo, q, 1e-6), same(po, p, 1e-5))
                        seen.append(hit)
                        if k == iters - 1:
                            w.req(ex, hit, 'the pose is that of %d Gauss-Newton steps on the reprojection error of the pairs with usable depth' % iters, extra=going)
                        going = tm.and_(going, tm.lt(1e-4, nrm))
                    w.req(ex, tm.or_(*seen), 'the pose is that of some number of Gauss-Newton steps')
                w.coverage([x for x in w.last if a.ok(x) is True], lambda ex: True, 'no success reached')
                w.memory()

    def robust(ck):
        # one pair with a large error: the weight follows from the correction that was applied
        for n in (5, 6):
            got = []
            a = Pose(ck, 'EstimatePoseKernel, %d pairs, one with a large error' % n, n, iters=1)
            w = a.w
            big = tm.madd(a.zs[0], tm.mleaf('far', 2, 1, 'far'))
            gain = tm.add(1.0, tm.leaf('gain', 's', 'pos'))
            bigger = tm.madd(tm.madd(a.zs[0], tm.mscale(gain, tm.mleaf('far', 2, 1, 'far'))), tm.mzero(2, 1))
            for z in (big, bigger):
                ex = Exit0 = None
                w.st.heap[w.seq(a.v2)[0]] = ('v', z, ('entry', '', 0))
                for ex in a.run('EstimatePoseKernel'):
                    if a.ok(ex) is not True:
                        continue
                    qo, po = a.pose(ex)
                    d = tm.qmul(tm.qinv(a.q), qo)
                    th = tm.mlit(3, 1, [tm.div(tm.mul(2.0, tm.qc(d, k)), tm.qc(d, 0)) for k in (1, 2, 3)])
                    dx = ref.put(ref.put(tm.mzero(6, 1), 0, 0, tm.msub(po, a.p)), 3, 0, th)
                    s = tm.mzero(6, 1)
                    for i in range(n):
                        r, c, J = reproject(a.pts[i], a.q, a.p, z if i == 0 else a.zs[i])
                        g = ref.mul(tm.mtr(J), ref.add(ref.mul(J, dx), r))
                        if i:
                            s = ref.add(s, g)
                        else:
                            g0, e = g, tm.fn('sqrt', tm.mnorm2(r))
                    wt = tm.div(tm.neg(tm.mdot(s, g0)), tm.mdot(g0, g0))
                    far = tm.lt(1.05, e)
                    # s + w g0 = 0
                    w.req(ex, same(ref.add(s, ref.scale(wt, g0)), tm.mzero(6, 1), 1e-5), 'both sides of the robust normal equations carry the same weight', extra=far)
                    w.req(ex, tm.and_(tm.lt(0.0, wt), tm.le(wt, 1 + 1e-6)), 'the weight of a large error is positive and at most that of a small one', extra=far)
                    got.append((ex, wt, e))
            for x, wx, e1 in got:
                for y, wy, e2 in got:
                    if x.st is not y.st:
                        w.req(x, tm.le(wy, tm.mul(wx, 1 + 1e-5)), 'the weight does not grow with the error', extra=tm.and_(y.st.gate(), tm.lt(1.05, e1), tm.lt(e1, e2)))
            if len(got) < 2:
                ck.missing.append('%s: no success reached' % w.name)
    ck.run(plain, robust)
    ck.rules.append('pose after one, two and three iterations equals the reference Gauss-Newton steps; weight of a large error recovered from the correction')


# ---- C23 ----
def inlier(a, i, q, p, thr):
    c = tm.qrot(tm.qinv(q), tm.msub(a.pts[i], p))
    d = tm.mc(c, 2)
    r = tm.msub(tm.mlit(2, 1, [tm.div(tm.mc(c, 0), d), tm.div(tm.mc(c, 1), d)]), a.zs[i])
    return tm.lt(tm.mnorm2(r), thr)


def score(a, q, p, thr):
    s = 0.0
    for i in range(len(a.pts)):
        s = tm.add(s, tm.ite(inlier(a, i, q, p, thr), 1.0, 0.0))
    return s


SEQ = {'plain': lambda k: (k * 7919 + 13) % 104729, 'repeats': lambda k: [5, 5, 1, 1, 1, 3, 0, 0, 0, 0, 2, 2, 4, 4, 4, 1, 1, 1, 3][k % 19], 'high': lambda k: [2147483647, 2147483646, 7, 2147483645, 1, 12, 8, 5][k % 8] - (k // 8)}


class Robust(Pose):
    """RANSAC with the pose solver replaced by arbitrary hypotheses"""

    def __init__(self, ck, name, n, iters, seq='plain', outcome=True, rate=0.9, thr=None, **kw):
        kw.setdefault('far', (0,) if n > 3 else ())
        Pose.__init__(self, ck, name, n, n_val=192, seeds=1, noise='tinyz', **kw)
        w = self.w
        w.eng.rand = lambda st: SEQ[seq](st.rands)
        w.set(self.s, 'ransacParam.maxIterateTimes', iters)
        w.set(self.s, 'ransacParam.inlierRateThres', rate)
        self.thr = thr if thr is not None else 1e-3
        w.set(self.s, 'ransacParam.inlierThres', self.thr)
        self.log = w.alloc('vec<i32>')
        n0 = [0]

        def solve(eng, st, node, this, locs):
            ob = st.heap[self.log]
            k = sum(1 for x in ob[3] if st.heap[x][1] == 'hyp')
            q, p = tm.qleaf('hyp%d.q' % k), tm.mleaf('hyp%d.p' % k, 3, 1)
            new = ['hyp', q, p]
            for c in (locs[0], locs[1]):
                new.append(tuple(eng.load(st, x) for x in st.heap[c][3]))
            st.heap[self.log] = ('s', ob[1], ob[2], ob[3] + tuple(st.new(('v', x, ('entry', '', 0))) for x in new))
            st.heap[locs[2]] = ('v', q, ('entry', '', 0))
            st.heap[locs[3]] = ('v', p, ('entry', '', 0))
            if outcome in (True, False):
                return [(outcome, st)]
            return [(c, s) for c, s in eng.branch(st, tm.leaf('solved%d' % k, 'b'))]
        for k in range(iters + 1):
            w.like['hyp%d.q' % k] = (tm.qmul(self.qt, tm.qleaf('hyp%d.dq' % k, 'hypq')), 0)
            w.like['hyp%d.p' % k] = (tm.madd(self.pt, tm.mleaf('hyp%d.dp' % k, 3, 1, 'hypp')), 0)
        w.stub('PnPSolver::EstimatePose', solve)

    def hyps(self, ex):
        st = ex.st
        v = [st.heap[x][1] for x in st.heap[self.log][3]]
        return [v[i + 1:i + 5] for i in range(0, len(v), 5)]


def c23(ck):
    SH = [(4, 1, 'plain'), (4, 2, 'repeats'), (5, 3, 'plain'), (6, 2, 'high'), (3, 2, 'repeats'), (5, 2, 'repeats')] + ([(6, 4, 'plain'), (8, 3, 'repeats'), (4, 5, 'plain')] if ck.thorough else [])

    def judge(a, ex, flags=None):
        w = a.w
        hs = a.hyps(ex)
        w.req(ex, bool(hs), 'at least one hypothesis is tried')
        for q, p, x, z in hs:
            idx = []
            for u, v in zip(x, z):
                k = [i for i in range(len(a.pts)) if a.pts[i] is u]
                idx.append(k[0] if k else None)
                w.req(ex, bool(k) and a.zs[k[0]] is v, 'every sampled point is paired with its own measurement')
            w.req(ex, len(x) == len(z) and len(x) >= 3 and len(set(idx)) == len(idx), 'a sample has at least three distinct pairs')
        qo, po = a.pose(ex)
        s = score(a, qo, po, a.thr)
        cand = [tm.and_(qsame(qo, a.q, 1e-9), same(po, a.p, 1e-9))]
        for k, (q, p, x, z) in enumerate(hs):
            sk = score(a, q, p, a.thr)
            w.req(ex, tm.le(sk, tm.add(s, 0.5)), 'no hypothesis scores higher than the returned pose (trial %d of %d)' % (k + 1, len(hs)))
            cand.append(tm.and_(qsame(qo, q, 1e-9), same(po, p, 1e-9)))
        w.req(ex, tm.or_(*cand), 'the returned pose is one of the hypotheses or the start')
        if flags is not None:
            fl = [w.val(x, ex.st) for x in w.seqv(flags, '', ex.st)]
            w.req(ex, len(fl) == len(a.pts), '%d flags for %d points' % (len(fl), len(a.pts)))
            if len(fl) == len(a.pts):
                for i, f in enumerate(fl):
                    w.req(ex, tm.iff(f, inlier(a, i, qo, po, a.thr)), 'flag %d tells whether the point is within the threshold of the returned pose' % i)

    def search(ck):
        for n, iters, seq in SH:
            for outcome in (True, None) if n < 5 else (True,):
                a = Robust(ck, 'RANSAC, %d points, %d trials, random sequence %s%s' % (n, iters, seq, '' if outcome else ', solver may fail'), n, iters, seq, outcome)
                w = a.w
                for ex in a.run('EstimatePoseRANSAC'):
                    if a.ok(ex) is True and (ex.st.taint is not None or w.reach(ex.st.gate())):
                        judge(a, ex)
                w.coverage(w.last, lambda ex: a.ok(ex) is True and len(a.hyps(ex)) == iters, 'no search over all trials')
                w.memory()

    def flags(ck):
        for n, iters, seq, stale, thr in ((4, 1, 'plain', 0, None), (5, 2, 'repeats', 7, None), (4, 2, 'plain', 2, tm.leaf('inlierThres', 's', 'pos')), (3, 1, 'repeats', 3, None)):
            a = Robust(ck, 'RANSAC with flags, %d points, %d trials, %d stale flags' % (n, iters, stale), n, iters, seq, thr=thr)
            w = a.w
            fl = w.alloc('vec<b>')
            for k in range(stale):
                w.push(fl, '', tm.leaf('stale%d' % k, 'b'))
            for ex in a.run('EstimatePoseRANSAC', fl):
                if a.ok(ex) is True and (ex.st.taint is not None or w.reach(ex.st.gate())):
                    judge(a, ex, fl)
            w.coverage(w.last, lambda ex: a.ok(ex) is True, 'no success reached')
            w.memory()
    ck.run(search, flags)
    ck.rules.append('pose solver replaced by arbitrary hypotheses; samples, scores, returned pose and flags compared with the reference on every exit')


# ---- triangulation ----
class Views:
    """arguments of a triangulator: a point seen by n cameras"""

    def __init__(self, ck, name, n, sizes=None, nanview=None, what='z', behind=(), parallel=False, spread='tinyz', scale=False, n_val=64, seeds=2, **kw):
        self.w = w = ck.world(name, draw=gdraw, n=n_val, seeds=seeds, **kw)
        self.t = w.new('Trianglator')
        self.qs, self.ps, self.zs = [], [], []
        self.x = tm.mleaf('point', 3, 1)
        w.like['point'] = (tm.madd(tm.qrot(tm.qleaf('base.q'), tm.mleaf('cam', 3, 1, 'cam')), tm.mleaf('base.p', 3, 1)), 0)
        for i in range(n):
            q, p, z = tm.qleaf('q%d' % i), tm.mleaf('p%d' % i, 3, 1), tm.mleaf('z%d' % i, 2, 1)
            w.like['q%d' % i] = (tm.qmul(tm.qleaf('base.q'), tm.qleaf('dq%d' % i, 'nearid')), 0)
            w.like['p%d' % i] = (tm.madd(tm.mleaf('base.p', 3, 1), tm.mscale(0.6, tm.mleaf('dp%d' % i, 3, 1))), 0)
            if i in behind:       # looks the other way
                w.like['q%d' % i] = (tm.qmul(tm.qmul(tm.qleaf('base.q'), tm.qleaf('dq%d' % i, 'nearid')), tm.qlit(0.0, 1.0, 0.0, 0.0)), 0)
            c = tm.qrot(tm.qinv(q), tm.msub(self.x, p))
            w.like['z%d' % i] = (tm.madd(tm.mdivs(tm.mblk(c, 0, 0, 2, 1), tm.mc(c, 2)), tm.mleaf('err%d' % i, 2, 1, spread)), 0)
            if nanview == i:
                if what == 'z':
                    z = tm.mleaf('z%d' % i, 2, 1, 'nanvec')
                    w.like.pop('z%d' % i)
                else:
                    p = tm.mleaf('p%d' % i, 3, 1, 'nanvec')
                    w.like.pop('p%d' % i, None)
            self.qs.append(q), self.ps.append(p), self.zs.append(z)
        if parallel:               # the measurements agree only with a point at infinity
            self.qs = [tm.qid()] * n
            self.ps = [tm.mlit(3, 1, [float(i), 0.0, 0.0]) for i in range(n)]
            self.zs = [tm.mlit(2, 1, [0.0, 0.0])] * n
        s = sizes or (n, n, n)
        self.v = []
        for t, xs, k in (('Q', self.qs, s[0]), ('M3,1', self.ps, s[1]), ('M2,1', self.zs, s[2])):
            o = w.alloc('vec<%s>' % t)
            for i in range(k):
                w.push(o, '', xs[i])
            self.v.append(o)
        self.start = tm.mleaf('start', 3, 1)
        w.like['start'] = (self.x, 0.1)
        self.out = w.cell(self.start)

    def run(self, fn, this=None):
        return self.w.run('Trianglator::' + fn, self.t, self.v + [('CELL', self.out)])

    def ok(self, ex):
        return self.w.val(ex.ret, ex.st)

    def point(self, ex):
        return ex.st.heap[self.out][1]

    def depth(self, i, pt):
        return tm.mc(tm.qrot(tm.qinv(self.qs[i]), tm.msub(pt, self.ps[i])), 2)

    def cost(self, pt):
        s = 0.0
        for q, p, z in zip(self.qs, self.ps, self.zs):
            c = tm.qrot(tm.qinv(q), tm.msub(pt, p))
            d = tm.mc(c, 2)
            s = tm.add(s, tm.mnorm2(tm.msub(tm.mlit(2, 1, [tm.div(tm.mc(c, 0), d), tm.div(tm.mc(c, 1), d)]), z)))
        return s


def finite(*xs):
    return tm.and_(*[tm.mk('mfinite', (x,), 'b') if tm.sh_of(x) != 'q' else tm.and_(*[tm.isfinite(tm.qc(x, k)) for k in range(4)]) for x in xs])


def c24(ck):
    def sizes(ck):
        for fn, least in (('EstimatePose', 1), ('EstimatePoseKernel', 1), ('EstimatePoseP3P', 3), ('EstimatePoseRANSAC', 3), ('flags', 3)):
            for s in [(0, 0), (0, 3), (3, 0), (4, 3), (3, 4), (5, 4), (4, 5)] + [(k, k) for k in range(1, least)] + [(k, k + 1) for k in range(1, 3)] + [(k + 1, k) for k in range(1, 3)]:
                a = Pose(ck, '%s of %d points and %d measurements' % (fn, *s), 6, sizes=s, iters=1, n_val=8, seeds=1)
                w = a.w
                f = w.alloc('vec<b>') if fn == 'flags' else None
                for ex in a.run('EstimatePoseRANSAC' if fn == 'flags' else fn, f):
                    w.req(ex, a.ok(ex) is False if isinstance(a.ok(ex), bool) else False, 'lists of %d points and %d measurements are refused' % s)
                w.memory()
        for fn, least in (('TrianglateAnalytic', 2), ('TrianglateIterative', 1)):
            for s in [(0, 0, 0), (2, 3, 3), (3, 2, 3), (3, 3, 2), (2, 2, 3), (2, 3, 2), (3, 2, 2), (0, 2, 2), (2, 0, 2), (2, 2, 0), (4, 3, 2)] + ([(1, 1, 1), (1, 2, 2), (2, 1, 2), (2, 2, 1)] if least == 2 else []):
                a = Views(ck, '%s of %d attitudes, %d positions, %d measurements' % (fn, *s), 4, s, n_val=8, seeds=1)
                w = a.w
                for ex in a.run(fn):
                    ok = w.eng.truth(a.ok(ex))
                    w.req(ex, ok is False, 'lists of %d attitudes, %d positions and %d measurements are refused' % s)
                w.memory()

    def analytic_success(ck):
        for n, kw in ((2, {}), (3, {}), (2, dict(behind=(1,))), (3, dict(behind=(2,))), (3, dict(behind=(0,))), (4, dict(behind=(1,))), (2, dict(spread='spread')), (3, dict(spread='spread')), (2, dict(parallel=True)), (3, dict(parallel=True))):
            a = Views(ck, 'analytic triangulation of %d views, %s' % (n, ', '.join('%s %s' % x for x in kw.items()) or 'regular'), n, n_val=256, **kw)
            w = a.w
            for ex in a.run('TrianglateAnalytic'):
                ok = w.val(ex.ret, ex.st)
                if ok is False:
                    continue
                x = a.point(ex)
                w.req(ex, finite(x), 'a successful triangulation is a finite point', extra=ok)
                for i in range(n):
                    w.req(ex, tm.lt(-1e-9, a.depth(i, x)), 'a successfully triangulated point is in front of camera %d' % i, extra=ok)
            if not kw:
                w.coverage(w.last, lambda ex: w.val(ex.ret, ex.st) is not False, 'no success reached')
            w.memory()

    def nonfinite(ck):
        for n in (2, 3):
            for i in range(n):
                for what in ('z', 'p'):
                    a = Views(ck, 'analytic triangulation of %d views, %s of view %d not finite' % (n, what, i), n, nanview=i, what=what, n_val=128)
                    w = a.w
                    for ex in a.run('TrianglateAnalytic'):
                        ok = w.val(ex.ret, ex.st)
                        w.req(ex, tm.not_(ok) if isinstance(ok, tm.T) else ok is False, 'non-finite measurements or poses do not triangulate')

    def undefined(ck):
        for fn in ('EstimatePose', 'EstimatePoseKernel'):
            for n, nan, iters in ((4, (0,), 1), (5, (2,), 2), (4, (3,), 3)):
                a = Pose(ck, '%s, pair %d not finite, %d iterations' % (fn, nan[0], iters), n, nan=nan, iters=iters)
                w = a.w
                for ex in a.run(fn):
                    ok = w.val(ex.ret, ex.st)
                    if ok is not False:
                        w.req(ex, finite(*a.pose(ex)), 'a pose solver that reports success returns a finite pose', extra=ok)
                w.memory()
            a = Pose(ck, '%s, a measurement beyond all bounds' % fn, 5, iters=1)
            w = a.w
            huge = tm.mscale(1e200, tm.mleaf('huge', 2, 1))
            w.st.heap[w.seq(a.v2)[1]] = ('v', huge, ('entry', '', 0))
            for ex in a.run(fn):
                ok = w.val(ex.ret, ex.st)
                if ok is not False:
                    q, p = a.pose(ex)
                    w.req(ex, tm.and_(finite(q, p), tm.lt(0.5, ref.norm2(q))), 'a pose solver that reports success returns a finite pose and a unit attitude', extra=ok)
        for n, nan in ((4, (1,)), (5, (0, 4))):
            a = Pose(ck, 'RANSAC, %d points, %d not finite' % (n, len(nan)), n, nan=nan, iters=2, n_val=32, seeds=1)
            w = a.w
            w.set(a.s, 'ransacParam.maxIterateTimes', 2)
            for ex in a.run('EstimatePoseRANSAC'):
                ok = w.val(ex.ret, ex.st)
                if ok is not False:
                    w.req(ex, finite(*a.pose(ex)), 'a robust search that reports success returns a finite pose', extra=ok)

    def p3p(ck):
        for n in (3, 4):
            a = Pose(ck, 'P3P of %d points' % n, n, n_val=32)
            w = a.w
            for ex in a.run('EstimatePoseP3P'):
                ok = w.val(ex.ret, ex.st)
                if ok is False:
                    w.req(ex, True, 'P3P is refused')
                    continue
                q, p = a.pose(ex)
                err = lambda q, p: ref.add(*[ref.mul(tm.mtr(reproject(x, q, p, z)[0]), reproject(x, q, p, z)[0]) for x, z in zip(a.pts[:3], a.zs[:3])])
                w.req(ex, tm.le(tm.mc(err(q, p), 0), 1e-6), 'a P3P solution reprojects its points', extra=ok)
    ck.run(sizes, analytic_success, nonfinite, undefined, p3p)
    ck.rules.append('lists of every combination of wrong sizes are refused; on every success exit the point is finite and in front, the pose finite')


# ---- C32 ----
def invdepth(p):
    z = tm.mc(p, 2)
    return tm.mlit(3, 1, [tm.div(tm.mc(p, 0), z), tm.div(tm.mc(p, 1), z), tm.div(1.0, z)])


def linear(q, p, z, s):
    """(residual, derivatives) of a reprojection by the inverse depth parameters; camera pose (q, p) of T_wc"""
    R = tm.mtr(tm.qmat(q))
    t = tm.mneg(ref.mul(R, p))
    h = ref.add(ref.mul(R, tm.mlit(3, 1, [tm.mc(s, 0), tm.mc(s, 1), 1.0])), ref.scale(tm.mc(s, 2), t))
    a, b, c = (tm.mc(h, i) for i in range(3))
    W = ref.put(R, 0, 2, t)
    J = tm.mlit(2, 3, [tm.div(1.0, c), 0.0, tm.neg(tm.div(a, tm.mul(c, c))), 0.0, tm.div(1.0, c), tm.neg(tm.div(b, tm.mul(c, c)))])
    return tm.msub(tm.mlit(2, 1, [tm.div(a, c), tm.div(b, c)]), z), ref.mul(J, W)


class Iter(Views):
    def __init__(self, ck, name, n, hint='depthscale', start='spread', **kw):
        Views.__init__(self, ck, name, n, **kw)
        w = self.w
        w.like['base.q'] = (tm.qleaf('base.dq', 'nearid'), 0)
        w.like['base.p'] = (tm.mscale(0.3, tm.mleaf('base.dp', 3, 1)), 0)
        w.like['start'] = (tm.madd(tm.mscale(tm.leaf('scale', 's', hint), self.x), tm.mscale(0.1, tm.mleaf('off', 3, 1, start))), 0)
        self.events = []
        self.stubbed = set()

        def through(fn, f):
            k = 'ESKF_VIO_BACKEND::Trianglator::' + fn

            def g(eng, st, node, this, locs):
                m = eng.stubs.pop(k)
                try:
                    rs = eng.call(next(x for x in ck.prog.fns.values() if x['fn'] == k), this, locs, st)
                finally:
                    eng.stubs[k] = m
                for r, s in rs:
                    f(eng, s, locs, r)
                return rs
            try:
                w.stub('Trianglator::' + fn, g)
                self.stubbed.add(fn)
            except Skip:
                pass

        def resid(eng, st, locs, r):
            if len(locs) == 4:
                p = eng.load(st, locs[2])
                if not self.events or self.events[-1][0] != 'cand' or self.events[-1][2] is not p or self.events[-1][1] is not st.gate():
                    self.events.append(['cand', st.gate(), p, []])
                self.events[-1][3].append(r)

        def jac(eng, st, locs, r):
            if len(locs) == 7:
                x = eng.load(st, locs[2])
                if not self.events or self.events[-1][0] != 'lin' or self.events[-1][2] is not x or self.events[-1][1] is not st.gate():
                    self.events.append(['lin', st.gate(), x, []])
                self.events[-1][3].append(eng.load(st, locs[6]))
        def solved(eng, st, M, b, d):
            if d.sh == (3, 1):
                self.events.append(['solve', st.gate(), M, b, d])
        w.eng.hooks['solve'] = solved
        through('ComputeResidual', resid)
        through('CumputeJacobian', jac)


def c32(ck):
    def never_worse(ck):
        for n, kw in ((1, {}), (2, {}), (3, {}), (2, dict(spread='spread')), (3, dict(spread='spread'))) + (((4, {}), (5, dict(spread='spread'))) if ck.thorough else ()):
            a = Iter(ck, 'iterative triangulation of %d views%s' % (n, ', gross errors' if kw else ''), n, n_val=256, seeds=1, **kw)
            w = a.w
            c0 = a.cost(a.start)
            for ex in a.run('TrianglateIterative'):
                ok = w.val(ex.ret, ex.st)
                if ok is False:
                    continue
                x = a.point(ex)
                g = tm.and_(ok, tm.isfinite(c0))
                w.req(ex, finite(x), 'the returned point is finite', extra=g)
                w.req(ex, tm.le(a.cost(x), tm.add(tm.mul(c0, 1 + 1e-9), 1e-12)), 'the returned point is not worse than the start', extra=g)
            w.coverage(w.last, lambda ex: w.val(ex.ret, ex.st) is not False, 'no success reached')
            w.memory()

    def flat(ck):
        a = Iter(ck, 'iterative triangulation from a point without depth', 2, n_val=32)
        w = a.w
        s = tm.mlit(3, 1, [tm.leaf('sx'), tm.leaf('sy'), 0.0])
        w.st.heap[a.out] = ('v', s, ('entry', '', 0))
        for ex in a.run('TrianglateIterative'):
            ok = w.val(ex.ret, ex.st)
            if ok is not False:
                w.req(ex, finite(a.point(ex)), 'the returned point is finite', extra=ok)

    def derivatives(ck):
        for far in (False, True):
            w = ck.world('reprojection derivatives, %s errors' % ('large' if far else 'small'), draw=gdraw, n=128)
            t = w.new('Trianglator')
            q, p, z = tm.qleaf('q'), tm.mleaf('p', 3, 1), tm.mleaf('z', 2, 1)
            s = tm.mleaf('s', 3, 1)
            x = tm.mleaf('cam', 3, 1, 'cam')
            w.like['p'] = (tm.mscale(0.3, tm.mleaf('p.d', 3, 1)), 0)
            w.like['q'] = (tm.qleaf('q.d', 'nearid'), 0)
            w.like['s'] = (invdepth(x), 0)
            r, J = linear(q, p, z, s)
            zero = tm.mzero(2, 1)
            w.like['z'] = (tm.madd(linear(q, p, zero, s)[0], tm.mleaf('e', 2, 1, 'far' if far else 'tinyz')), 0)
            Jc, rc, wc = (w.cell(v) for v in (tm.mleaf('oldJ', 2, 3), tm.mleaf('oldr', 2, 1), tm.leaf('oldw')))
            qi = tm.qinv(q)
            for ex in w.run('Trianglator::CumputeJacobian', t, [qi, tm.mneg(tm.qrot(qi, p)), s, z, ('CELL', Jc), ('CELL', rc), ('CELL', wc)]):
                st = ex.st
                w.req(ex, same(st.heap[rc][1], r, 1e-6), 'the residual is prediction minus measurement', w.where(rc, '', st))
                w.req(ex, same(st.heap[Jc][1], J, 1e-6), 'the derivatives are those of the reprojection', w.where(Jc, '', st))
                if not far:
                    w.req(ex, same(st.heap[wc][1], 1.0, 1e-9), 'a small error has weight 1', w.where(wc, '', st), extra=tm.lt(tm.mnorm2(r), 1e-5))
                else:
                    w.req(ex, tm.and_(tm.le(0.0, st.heap[wc][1]), tm.le(st.heap[wc][1], 1.0)), 'a large error does not have a larger weight than a small one', w.where(wc, '', st))
            w.memory()

    def trace(ck):
        for n, kw in ((2, {}), (3, {}), (2, dict(spread='spread')), (3, dict(spread='spread', hint='near1'))):
            a = Iter(ck, 'trial steps of %d views%s' % (n, ', gross errors' if kw else ''), n, n_val=128, seeds=1, **kw)
            w = a.w
            exits = a.run('TrianglateIterative')
            if any(ex.st.taint for ex in exits):
                ck.undecided('%s: %s' % (w.name, [ex.st.taint for ex in exits if ex.st.taint][0]))
                continue
            best, cb = a.start, a.cost(a.start)
            ok0 = tm.isfinite(cb)
            weights, lam0, rej, clear = None, 0.0, False, True
            ev = [x for x in a.events if x[0] != 'solve']
            tried = [x[0] == 'cand' and x[2] is not a.start for x in ev]
            if not any(tried) or any(x[0] == 'lin' and (i + 1 == len(ev) or not tried[i + 1]) for i, x in enumerate(ev)):
                # the cost is not computed by ComputeResidual: the trial points are the solutions of the linear systems
                ev = []
                for x in a.events:
                    if x[0] == 'lin' or x[0] == 'solve':
                        ev.append(x if x[0] == 'lin' else ('cand', x[1], None, x[3:]))
                if not any(x[0] == 'cand' for x in ev):
                    ck.undecided('%s: the trial points are not observable here' % w.name)
                    continue
            steps = 0
            e0 = w.st
            for kind, g, x, v in ev:
                if kind == 'lin':
                    weights = v if len(v) == n else None
                    if steps < 40:
                        w.req(e0, same(x, invdepth(best), 1e-3), 'every step starts from the best estimate so far', extra=tm.and_(g, ok0, clear))
                    continue
                if x is a.start:
                    continue
                if x is None:
                    s0, gr = invdepth(best), tm.mzero(3, 1)
                    for i in range(n):
                        r, J = linear(a.qs[i], a.ps[i], a.zs[i], s0)
                        ww = tm.mul(weights[i], weights[i]) if weights else 1.0
                        gr = ref.add(gr, ref.scale(ww, ref.mul(tm.mtr(J), r)))
                    y = tm.madd(s0, ref.scale(tm.ite(tm.lt(tm.mdot(v[0], gr), 0.0), 1.0, -1.0), v[1]))
                    x = tm.mlit(3, 1, [tm.div(tm.mc(y, 0), tm.mc(y, 2)), tm.div(tm.mc(y, 1), tm.mc(y, 2)), tm.div(1.0, tm.mc(y, 2))])
                c = a.cost(x)
                steps += 1
                if steps <= 36:
                    s0 = invdepth(best)
                    A, b = tm.mzero(3, 3), tm.mzero(3, 1)
                    small = True
                    for i in range(n):
                        r, J = linear(a.qs[i], a.ps[i], a.zs[i], s0)
                        ww = tm.mul(weights[i], weights[i]) if weights else 1.0
                        if not weights:
                            small = tm.and_(small, tm.lt(tm.mnorm2(r), 1e-5))
                        A = ref.add(A, ref.scale(ww, ref.mul(tm.mtr(J), J)))
                        b = ref.add(b, ref.scale(ww, ref.mul(tm.mtr(J), r)))
                    d = tm.msub(s0, invdepth(x))
                    m = tm.msub(b, ref.mul(A, d))
                    nd, nb, nm = (tm.mnorm(y) for y in (d, b, m))
                    lam = tm.div(tm.mdot(m, d), tm.mdot(d, d))
                    gg = tm.and_(g, ok0, small, clear, tm.lt(1e-5, nd), tm.lt(nd, 50.0), tm.lt(nb, 1e6))
                    off = tm.mnorm(tm.msub(m, ref.scale(lam, d)))
                    w.req(e0, tm.le(off, tm.mul(1e-5, tm.add(nb, tm.mnorm(ref.mul(A, d))))), 'a trial step solves the damped normal equations', extra=gg)
                    w.req(e0, tm.lt(-1e-6, tm.div(lam, tm.add(1.0, tm.div(nb, nd)))), 'the damping is not negative', extra=gg)
                    w.req(e0, tm.lt(lam0, lam), 'the damping grows after a rejected step', extra=tm.and_(gg, rej, tm.lt(1e-4, lam), tm.lt(lam, 1e4), tm.lt(1e-4, lam0)))
                    lam0 = tm.ite(g, lam, lam0)
                acc = tm.and_(g, tm.lt(c, cb))
                gap = tm.lt(tm.mul(1e-7, tm.add(cb, 1e-12)), tm.fn('fabs', tm.sub(c, cb)))
                clear = tm.and_(clear, tm.or_(tm.not_(g), gap))
                rej = tm.ite(g, tm.not_(tm.lt(c, cb)), rej)
                best = tm.ite(acc, x, best)
                cb = tm.ite(acc, c, cb)
            ck.sites += steps
            for ex in exits:
                if w.val(ex.ret, ex.st) is False:
                    continue
                w.req(ex, tm.le(a.cost(a.point(ex)), tm.add(tm.mul(cb, 1 + 1e-7), 1e-13)), 'the returned point is the best one tried', extra=ok0)
            if steps < 5:
                ck.missing.append('%s: only %d trial steps observed' % (w.name, steps))
    ck.run(never_worse, flat, derivatives, trace)
    ck.rules.append('all inner and outer iterations interpreted; every trial point, its linearization point, damping and acceptance compared with the reference; returned cost against every tried cost')



# ---- C21 ----
class Pairing:
    """records what every triangulation of the features is given; its outcome is any"""

    def __init__(self, ck):
        self.ck, self.calls = ck, {}

    def install(self, w, b):
        self.w, self.b = w, b
        self.cells = {w.f(o, 'p_w'): f for f, o in b.map.feats.items()}
        n = 0
        for fn in ('Trianglator::TrianglateAnalytic', 'Trianglator::TrianglateIterative'):
            if has(self.ck, fn):
                w.stub(fn, self.outcome(fn.split('::')[1][10:]))
                n += 1
        if not n:
            raise Skip('no triangulation')

    def outcome(self, kind):
        def f(eng, st, node, this, locs):
            qs, ps, zs = ([eng.load(st, c) for c in st.heap[o][3]] for o in locs[:3])
            m = self.b.map
            poses = [(self.w.get(o, 'q_wb', st), self.w.get(o, 'p_wb', st)) for o in m.frames]
            c = self.cells.get(locs[3])
            self.calls.setdefault(c, []).append((st.gate(), st.copy(), kind, qs, ps, zs, poses))
            st.heap[locs[3]] = ('v', tm.mleaf('%s#%s' % (kind, c), 3, 1, 'front'), ('entry', '', 0))
            # C24: fewer than two (analytic) or one (iterative) views never give a point
            return eng.branch(st, self.success(kind, c, len(qs)))
        return f

    def success(self, kind, c, views):
        return tm.leaf('solved#%s%s' % (kind, c), 'b') if views >= (2 if kind == 'Analytic' else 1) else False

    def which(self, z, cands):
        for k in cands:
            if self.b.map.norm[k] is z:
                return k
        for k in cands:
            if all(np.allclose(np.asarray(v(z)), np.asarray(v(self.b.map.norm[k])), atol=1e-6) for v in self.w.vals):
                return k
        return None

    def check(self, frames):
        """frames: ids of the frames whose measurements take part"""
        w, m = self.w, self.b.map
        for f, calls in self.calls.items():
            for gate, st, kind, qs, ps, zs, poses in calls:
                ex = Exit(None, st)
                nm = 'feature %s, %s triangulation' % (f, kind.lower())
                if not w.req(ex, f is not None, 'the result of a triangulation goes into the feature'):
                    continue
                if not w.req(ex, len(qs) == len(ps) == len(zs), '%s: as many poses as measurements' % nm):
                    continue
                want = [(g, fr, c) for (g, fr, c) in m.norm if g == f and c < m.cams and fr in frames]
                got = []
                for i, z in enumerate(zs):
                    k = self.which(z, want)
                    if k is None:
                        w.req(ex, tm.or_(*[same(z, m.norm[x]) for x in want]), '%s: measurement %d is one the feature has' % (nm, i))
                        continue
                    got.append(k)
                    q, p = poses[k[1] - m.first]
                    q, p = ref.camera(q, p, m.ext(k[2], 'q_bc', st), m.ext(k[2], 'p_bc', st))
                    w.req(ex, tm.and_(qsame(qs[i], q), same(ps[i], p, 1e-5)), '%s: the measurement of camera %d in frame %d is paired with the pose of that camera in that frame' % (nm, k[2], k[1]))
                w.req(ex, sorted(got) == sorted(want), '%s: measurements (frame, camera) %s take part, those of the feature are %s' % (nm, sorted(k[1:] for k in got), sorted(k[1:] for k in want)))

    def recorded(self, ex):
        w, m = self.w, self.b.map
        for f, calls in self.calls.items():
            if f is None:
                continue
            if len({(c[2], len(c[3])) for c in calls}) != 1:
                continue
            kind, views = calls[0][2], len(calls[0][3])
            o = m.feats[f]
            done = tm.or_(*[c[0] for c in calls])
            ok = self.success(kind, f, views)
            w.req(ex, tm.iff(w.get(o, 'status', ex.st) == SOLVED, ok), 'feature %d is marked solved exactly if its triangulation succeeded' % f, w.where(o, 'status', ex.st), extra=done)
            w.req(ex, same(w.get(o, 'p_w', ex.st), tm.mleaf('%s#%s' % (kind, f), 3, 1, 'front')), 'feature %d holds the point of its triangulation' % f, w.where(o, 'p_w', ex.st), extra=tm.and_(done, ok))


def c21(ck):
    from .update import Upd
    from .backend import Once, idraw
    from .build import NEED_INIT, NOMARG

    def updates(ck):
        S = [('two cameras', {4: (1, [(0, 1)] * 3), 6: (3, [(0, 1)])}, dict(cams=2, nframes=3)),
             ('camera without extrinsics', {4: (1, [(0, 1), (0, 5), (5, 1, 0)]), 6: (2, [(0, 1, 2), (2, 0)], SOLVED)}, dict(cams=2, nframes=3)),
             ('late and short tracks', {4: (2, [(0, 1), (1,)], SOLVED), 6: (3, [(0, 1)]), 8: (1, [(0,)] * 3)}, dict(cams=2, nframes=3)),
             ('one camera', {4: (1, [(0,)] * 3), 7: (2, [(0,)] * 2)}, dict(cams=1, nframes=3)),
             ('three cameras, full window', {4: (1, [(2, 0), (1,), (0, 2), (0, 1, 2)]), 7: (2, [(1, 2)] * 3)}, dict(cams=3, nframes=4, window=3)),
             ('gaps in the track', {4: (1, [(0, 1), (), (1,)])}, dict(cams=2, nframes=3)),
             ('long track', {4: (1, [(0, 1)] * 9)}, dict(cams=2, nframes=9, window=12)),
             ('later window', {4: (1, [(0, 1)] * 4), 5: (3, [(1, 0), (1,)])}, dict(cams=2, nframes=4, first=6))]
        if ck.thorough:
            S += [('%d cameras, %d frames, first %d' % (c, n, fst), {2: (1, [tuple(range(c))] * n), 3: (n, [tuple(range(c))]), 5: (max(n - 1, 1), [(0,), (c - 1,)][:min(n, 2)])}, dict(cams=c, nframes=n, first=fst))
                  for c in (1, 2, 3) for n in (1, 2, 5, 7) for fst in (1, 9)]
        for name, tracks, kw in S:
            rec = Pairing(ck)
            b = Upd(ck, 'triangulation, ' + name, tracks, nitems=2, n=96, seeds=1,
                    pre=lambda w, b: (rec.install(w, b), w.stub('MultiViewVisionUpdate::UpdateState', lambda eng, st, node, this, locs: [(True, st)])), **dict(dict(window=9), **kw))
            rec.check(range(b.map.first, b.map.first + len(b.map.frames)))
            for ex in b.exits:
                if b.ok(ex):
                    rec.recorded(ex)
            if not rec.calls:
                ck.missing.append('%s: no triangulation met' % name)
            b.w.coverage(b.exits, b.ok, 'no update reached')

    def starts(ck):
        S = [('two cameras', {4: (1, [(0, 1)]), 6: (1, [(1,)])}, 2), ('camera without extrinsics', {4: (1, [(0, 1, 3)], SOLVED), 6: (1, [(2,)]), 7: (1, [(3, 1, 0)])}, 2), ('one camera', {4: (1, [(0,)])}, 1),
             ('three cameras', {4: (1, [(2, 1, 0)]), 6: (1, [(0, 2)]), 9: (1, [(1, 2)])}, 3)]
        for name, tracks, cams in S:
            for first in (1, 5) if ck.thorough or cams == 2 else (1,):
                rec = Pairing(ck)
                tr = {f: (t[0] - 1 + first,) + t[1:] for f, t in tracks.items()}

                def pre(w, b):
                    rec.install(w, b)
                    w.stub('MultiViewVisionUpdate::Update', lambda eng, st, node, this, locs: (w.set(this, 'margPolicy', NOMARG, st), [(True, st)])[1])
                    w.stub('Backend::EstimateFramePose', lambda eng, st, node, this, locs: [(True, st)])
                b = Once(ck, 'initialization from frame %d, %s' % (first, name), nframes=1, cams=cams, first=first, tracks=tr, sees={f: tuple(range(cams)) for f in tracks}, status=NEED_INIT, nitems=0, natt=2, draw=idraw, n=96, seeds=1, pre=pre,
                         T=tm.add(tm.leaf('frame%d.t' % first, 's', 'time'), tm.leaf('gap', 's', 'gap')))
                rec.check((first,))
                for ex in b.exits:
                    rec.recorded(ex)
                if not rec.calls:
                    ck.missing.append('initialization, %s: no triangulation met' % name)
    ck.run(updates, starts)
    ck.rules.append('every triangulation, at every call: measurement set complete, each paired with frame pose x extrinsics; status and point at exit follow the outcome')
