"""Entry states: a window of frames, feature tracks, propagated states and attitudes with symbolic contents."""
import numpy as np
from .. import term as tm
from ..core import World, Skip

SOLVED, UNSOLVED, ERROR = 2, 1, 3
OLDEST, NEWEST, SUBNEW, NOMARG = 1, 2, 3, 4
NEED_INIT, INITIALIZED = 1, 2

HINT = {'timeStamp': 'time', 'p_bc': 'small', 'q_bc': 'unitq', 'q_wb': 'unitq'}


def draw(t, r, n):
    """values that keep points in front of the cameras and covariances positive"""
    h = t.a[1] if len(t.a) > 1 else None
    if h == 'norm':
        return r.uniform(-0.6, 0.6, (n,) + t.sh)
    if h == 'tick':
        return r.integers(0, 5, n) * 0.25
    if h == 'zero':
        return np.zeros(n)
    if h == 'tinyq':
        q = np.array([1, 0, 0, 0.]) + 0.01 * r.normal(0, 1, (n, 4))
        return q / np.linalg.norm(q, axis=1, keepdims=True)
    if h == 'period':
        return r.choice([0.06, 0.1, 0.3], n)
    if h == 'cov':
        k = t.sh[0]
        A = r.normal(0, 1, (n, k, k))
        return A @ np.swapaxes(A, 1, 2) * 0.2 + 2 * np.eye(k)
    if h == 'near':
        return r.normal(0, 0.3, (n,) + t.sh)
    if h == 'front':
        v = r.normal(0, 0.5, (n,) + t.sh)
        v[:, -1, :] = np.abs(v[:, -1, :]) + 2.5
        return v
    if h == 'gravity':
        return r.uniform(9.7, 9.9, n)
    if h == 'imutime':
        return r.integers(0, 4, n) * 0.25 + r.choice([-0.05, 0.0, 0.05, 0.2], n)
    if h == 'cross':
        return r.normal(0, 0.08, (n,) + t.sh)
    if h == 'sigma':
        return r.uniform(0.5, 1.5, n)
    return None


class Map:
    """window, tracks and cameras of one entry state"""

    def __init__(self, w, fm, ftm, cams, nframes, tracks, first=1, stale=(), lone=()):
        """tracks: {feature id: (first frame id, [cameras seen in each successive frame], status)}"""
        self.w, self.fm, self.ftm = w, fm, ftm
        self.cams, self.nframes, self.first = cams, nframes, first
        self.frames, self.feats, self.obs, self.norm = [], {}, {}, {}
        L = w.like
        self.W = tm.qleaf('geo.world')
        for c in range(1, cams):
            L['ext%d.q_bc' % c] = (tm.qmul(tm.qleaf('ext0.q_bc'), tm.qleaf('geo.ext%d' % c, 'nearid')), 0)
        q0 = tm.qinv(tm.qleaf('ext0.q_bc')) if cams else tm.qid()
        for i in range(first, first + nframes + 2):
            L['frame%d.q_wb' % i] = (tm.qmul(tm.qmul(self.W, tm.qleaf('geo.frame%d' % i, 'nearid')), q0), 0)
            L['frame%d.p_wb' % i] = (tm.qrot(self.W, tm.mleaf('geo.pos%d' % i, 3, 1, 'near')), 0)
        for c in range(cams):
            e = w.new('Extrinsic')
            w.sym(e, 'ext%d' % c, HINT)
            w.push(fm, 'extrinsics', ('O', e))
        for i in range(nframes):
            cell = w.cell(tm.leaf('frame%d.t' % (first + i), 's', 'time'))
            rs = w.eng.call(w.ck.prog.find('Frame::Frame', 1), self.blank('Frame'), [cell], w.st)
            f = self.last
            w.sym(f, 'frame%d' % (first + i), HINT, skip=('id',))
            w.set(f, 'id', first + i)
            w.push(fm, 'frames', ('P', f))
            self.frames.append(f)
        for fid, tr in tracks.items():
            self.track(fid, *tr)
        for fid, k in stale:          # frame k still links a feature that it does not observe any more
            w.mput(self.frames[k], 'features', fid, ('P', self.feats[fid]))

    def blank(self, rec):
        w = self.w
        self.last = w.eng.alloc_rec(w.st, 'ESKF_VIO_BACKEND::' + rec, rec, init=True)
        return self.last

    def track(self, fid, firstid, obs, status=UNSOLVED):
        w = self.w
        f = self.blank('Feature')
        w.set(f, 'id', fid)
        w.set(f, 'firstFrameID', firstid)
        w.set(f, 'status', status)
        w.set(f, 'p_w', tm.mleaf('feat%d.p_w' % fid, 3, 1, 'front'))
        n = 0
        self.obs[fid] = []
        for k, cams in enumerate(obs):
            o = w.new('FeatureObserve')
            for c in cams:
                z = self.measure(fid, firstid + k, c)
                self.norm[fid, firstid + k, c] = z
                w.mput(o, 'norms', c, z)
                n += 1
            w.push(f, 'observes', ('P', o))
            self.obs[fid].append(o)
            i = firstid + k - self.first
            if 0 <= i < len(self.frames):
                w.mput(self.frames[i], 'features', fid, ('P', f))
        w.set(f, 'observeNum', n)
        w.mput(self.ftm, 'features', fid, ('P', f))
        self.feats[fid] = f
        return f

    def measure(self, fid, frame, c):
        """a measurement leaf, drawn near the projection of a point before the cameras"""
        n = 'z[%d,%d,%d]' % (fid, frame, c)
        pt = tm.qrot(self.W, tm.mleaf('geo.point%d' % fid, 3, 1, 'front'))
        self.w.like['feat%d.p_w' % fid] = (pt, 0.05)
        if c < self.cams:
            q, p = tm.qleaf('frame%d.q_wb' % frame), tm.mleaf('frame%d.p_wb' % frame, 3, 1)
            qc, pc = tm.qleaf('ext%d.q_bc' % c), tm.mleaf('ext%d.p_bc' % c, 3, 1, 'small')
            x = tm.qrot(tm.qinv(tm.qmul(q, qc)), tm.msub(pt, tm.madd(tm.qrot(q, pc), p)))
            self.w.like[n] = (tm.mdivs(tm.mblk(x, 0, 0, 2, 1), tm.mc(x, 2, 0)), 0.01)
        return tm.mleaf(n, 2, 1, 'norm')

    def ext(self, c, what, st=None):
        return self.w.get(self.w.seq(self.fm, 'extrinsics', st)[c], what, st)

    def fr(self, k, what, st=None):
        return self.w.get(self.frames[k], what, st)


def fmap(ck, name, cams=2, nframes=3, tracks=None, first=1, stale=(), **kw):
    """window and tracks alone"""
    w = ck.world(name, draw=kw.pop('draw', draw), **kw)
    fm = w.new('FrameManager')
    ftm = w.new('FeatureManager')
    return w, Map(w, fm, ftm, cams, nframes, tracks or {}, first, stale)


def items(w, pq, n, camex, prefix='item', near=None):
    """n propagated states with covariances of the given camera dimension"""
    out = []
    for i in range(n):
        it = w.eng.alloc_rec(w.st, 'ESKF_VIO_BACKEND::IMUPropagateQueueItem', 'item', init=True)
        nm = '%s%d' % (prefix, i)
        w.sym(it, nm, dict(HINT, imuCov='cov', timeStamp='tick'))
        w.like[nm + '.timeStamp'] = (tm.add(tm.leaf('start', 's', 'zero'), 0.25 * i), 0)
        if near is not None:
            w.like[nm + '.nominalState.q_wb'] = (tm.qmul(tm.qleaf('frame%d.q_wb' % near), tm.qleaf(nm + '.dq', 'tinyq')), 0)
            w.like[nm + '.nominalState.p_wb'] = (tm.mleaf('frame%d.p_wb' % near, 3, 1), 0.01)
        w.set(it, 'imuExCamCov', tm.mleaf(nm + '.imuExCamCov', 15, camex, 'cross'))
        w.push(pq, 'items', ('P', it))
        out.append(it)
    w.set(pq, 'exCamCov', tm.mleaf('exCamCov', camex, camex, 'cov'))
    return out


def attis(w, at, n, prefix='att'):
    out = []
    for i in range(n):
        it = w.new('AttitudeEstimateItem')
        w.sym(it, '%s%d' % (prefix, i), dict(HINT, timeStamp='tick'))
        w.like['%s%d.timeStamp' % (prefix, i)] = (tm.add(tm.leaf('start', 's', 'zero'), 0.25 * i), 0)
        w.push(at, 'items', ('P', it))
        out.append(it)
    return out


def gravity(w):
    """the gravity vector, a global"""
    i = next((k for k, v in w.ck.prog.vars.items() if k.endswith('gravity_w') or v.get('name', '').endswith('gravity_w')), None)
    if i is None:
        raise Skip('gravity_w')
    o = w.alloc(w.ck.prog.vars[i]['t'])
    w.st.glob[i] = o
    g = tm.leaf('gravity', 's', 'gravity')
    v = tm.mlit(3, 1, [0.0, 0.0, g])
    w.set(o, '', v)
    return o, v, g


class BackendWorld:
    """a configured backend; with nitems == 0 it is not initialised"""

    def __init__(self, ck, name, cams=2, nframes=3, tracks=None, first=1, stale=(), nitems=2, natt=2, status=INITIALIZED, window=5, dim=None, pre=None, processF=False, near=None, **kw):
        self.w = w = ck.world(name, draw=kw.pop('draw', draw), **kw)
        self.b = b = w.new('Backend')
        self.fm, self.ftm = w.f(b, 'frameManager'), w.f(b, 'featureManager')
        self.pq, self.at, self.vu = w.f(b, 'propagator'), w.f(b, 'attitudeEstimator'), w.f(b, 'visionUpdator')
        self.dl = w.f(b, 'dataloader')
        self.map = Map(w, self.fm, self.ftm, cams, nframes, tracks or {}, first, stale)
        w.set(self.fm, 'maxWindowSize', window)
        w.set(self.fm, 'minKeyframeMeanParallax', tm.leaf('parallaxThreshold', 's', 'pos'))
        w.set(self.fm, 'maxKeyframeTranslation', tm.leaf('translationThreshold', 's', 'pos'))
        w.set(b, 'status', status)
        w.set(self.pq, 'propagator', ('P', self.fm))
        w.set(self.vu, 'propagator', ('P', self.pq))
        w.set(self.vu, 'featureManager', ('P', self.ftm))
        w.set(self.vu, 'frameManager', ('P', self.fm))
        w.set(self.vu, 'trianglator', ('P', w.f(b, 'trianglator')))
        w.set(self.vu, 'pnpSolver', ('P', w.f(b, 'pnpSolver')))
        w.set(self.vu, 'measureNoise', tm.leaf('measureNoise', 's', 'sigma'))
        w.set(self.pq, 'bias_a', tm.mleaf('bias_a', 3, 1, 'small'))
        w.set(self.pq, 'bias_g', tm.mleaf('bias_g', 3, 1, 'small'))
        w.set(self.at, 'bias_a', tm.mleaf('att.bias_a', 3, 1, 'small'))
        w.set(self.at, 'bias_g', tm.mleaf('att.bias_g', 3, 1, 'small'))
        w.set(self.at, 'errInt', tm.mleaf('att.errInt', 3, 1, 'small'))
        for f in ('p_wb', 'v_wb'):
            w.set(self.pq, 'initState.' + f, tm.mleaf('initState.' + f, 3, 1))
        w.set(self.pq, 'initState.q_wb', tm.qleaf('initState.q_wb', 'unitq'))
        w.set(self.pq, 'Q', tm.mleaf('Q', 12, 12, 'cov'))
        self.gcell, self.gvec, self.gnorm = gravity(w)
        self.camex = dim if dim is not None else 6 * cams + 6 * max(nframes - 1, 0)
        self.items = items(w, self.pq, nitems, self.camex, near=near if near is not None else first + nframes - 1 if nframes else None) if nitems else []
        self.atts = attis(w, self.at, natt)
        self.period = tm.leaf('imuPeriod', 's', 'period')
        w.set(self.dl, 'imuPeriod', self.period)
        # the process matrices hold what the previous step left
        F = tm.mid(15)
        for a, c in ((0, 3), (3, 6), (3, 9), (6, 6), (6, 12)):
            F = tm.mset(F, a, c, tm.mleaf('F%d_%d' % (a, c), 3, 3))
        G = tm.mzero(15, 12)
        for a, c in ((0, 0), (3, 0), (6, 3), (9, 6), (12, 9)):
            G = tm.mset(G, a, c, tm.mleaf('G%d_%d' % (a, c), 3, 3))
        try:
            w.set(self.pq, 'F', F)
            w.set(self.pq, 'G', G)
        except Skip:
            pass
        if pre:
            pre(w, self)
