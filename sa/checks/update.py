"""C06, C08-C11, C15-C17, C33: the vision update."""
import numpy as np
from .. import term as tm
from ..core import same, qsame, Skip, NS
from ..engine import base
from . import ref
from .build import SOLVED, UNSOLVED, OLDEST, NEWEST, SUBNEW, NOMARG, NEED_INIT, INITIALIZED, BackendWorld, draw

TR = {
    'none': {},
    'one': {4: (1, [(0, 1)] * 3)},
    'two': {4: (1, [(0, 1)] * 3), 9: (2, [(0,), (0,)])},
    'short': {4: (2, [(0, 1), (1,)]), 6: (3, [(0, 1)])},
    'long': {4: (1, [(0, 1)] * 9), 7: (3, [(0,)] * 7)},
    'mono': {4: (1, [(0,)] * 3), 7: (1, [(0,)] * 3)},
    'foreign': {4: (1, [(0, 1), (0, 5), (1,)])},
    'old': {4: (1, [(0, 1)] * 3), 8: (1, [(0, 1)] * 2)},
}


class Upd(BackendWorld):
    """entry state of one vision update; the newest frame is already in the window"""

    def __init__(self, ck, name, tracks='none', cams=2, nframes=3, nitems=3, window=9, first=1, few=0, T=None, **kw):
        tr = TR[tracks] if isinstance(tracks, str) else tracks
        tr = {f: ((t[0] - 1 + first,) + tuple(t[1:])) for f, t in tr.items()}
        BackendWorld.__init__(self, ck, 'update, ' + name, cams=cams, nframes=nframes, tracks=tr, first=first, nitems=nitems, window=window, **kw)
        w = self.w
        w.set(self.fm, 'minKeyframeTrackedFeatureNum', few)
        self.T = T if T is not None else tm.leaf('T', 's', 'imutime')
        self.thr = tm.leaf('threshold', 's', 'period')
        self.entry = w.st
        self.exits = w.run('MultiViewVisionUpdate::Update', self.vu, [self.T, self.thr])

    def ok(self, ex):
        return self.w.eng.truth(self.w.val(ex.ret, ex.st)) is True

    def left(self, ex):
        """indices of the propagated states that remain, None for an unknown one"""
        oids = [p[1] for p in self.w.seqv(self.pq, 'items', ex.st)]
        return [self.items.index(o) if o in self.items else None for o in oids]

    def item(self, k, what, st=None):
        return self.w.get(self.items[k], what, st)

    def state(self, k, st=None):
        return tuple(self.item(k, 'nominalState.' + x, st) for x in ('p_wb', 'v_wb', 'q_wb'))

    def meas(self, k, st=None):
        return self.item(k, 'accel', st), self.item(k, 'gyro', st)

    def joint(self, k):
        """joint covariance at entry, at the k-th propagated state"""
        return ref.joint(self.item(k, 'imuCov'), self.item(k, 'imuExCamCov'), self.w.get(self.pq, 'exCamCov'))

    def used(self, ex):
        """ids of the features used by the update"""
        w = self.w
        by = {o: f for f, o in self.map.feats.items()}
        return [by.get(p[1]) for p in w.seqv(self.vu, 'features', ex.st)]

    def pose(self, i, k):
        """pose of window frame i at the linearisation point of an update at propagated state k"""
        n = len(self.map.frames)
        if i == n - 1:
            return self.item(k, 'nominalState.q_wb'), self.item(k, 'nominalState.p_wb')
        return self.map.fr(i, 'q_wb'), self.map.fr(i, 'p_wb')

    def equations(self, ex, k, fid):
        """(Hf, Hx, r, usable) of one feature"""
        m, w = self.map, self.w
        cams, n = m.cams, len(m.frames)
        N = ref.IMU + 6 * cams + 6 * (n - 1)
        pw = w.get(m.feats[fid], 'p_w', ex.st)
        rows = [(fr, c, z) for (f, fr, c), z in sorted(m.norm.items()) if f == fid]
        Hf, Hx, r = tm.mzero(2 * len(rows), 3), tm.mzero(2 * len(rows), N), tm.mzero(2 * len(rows), 1)
        good = True
        for a, (fr, c, z) in enumerate(rows):
            if c >= cams:
                continue
            i = fr - m.first
            q, p = self.pose(i, k)
            pred, depth, hf, (hp, hq), (ep, eq) = ref.projection(pw, q, p, m.ext(c, 'q_bc'), m.ext(c, 'p_bc'))
            good = tm.and_(good, tm.lt(1e-3, tm.fn('fabs', depth)))
            Hf = ref.put(Hf, 2 * a, 0, hf)
            r = ref.put(r, 2 * a, 0, tm.msub(z, pred))
            if i == n - 1:
                Hx = ref.put(Hx, 2 * a, ref.P, hp)
                Hx = ref.put(Hx, 2 * a, ref.R, hq)
            else:
                col = ref.IMU + 6 * cams + 6 * i
                Hx = ref.put(Hx, 2 * a, col, hp)
                Hx = ref.put(Hx, 2 * a, col + 3, hq)
            col = ref.IMU + 6 * c
            Hx = ref.put(Hx, 2 * a, col, ep)
            Hx = ref.put(Hx, 2 * a, col + 3, eq)
        return Hf, Hx, r, good

    def removed(self, ex):
        """index of the window frame the policy of the update removes"""
        n = len(self.map.frames)
        pol = self.w.get(self.vu, 'margPolicy', ex.st)
        return {NOMARG: None, OLDEST: 0, SUBNEW: n - 2, NEWEST: n - 1}.get(pol, -1)

    def reach(self, ex):
        return ex.st.taint is not None or self.w.reach(ex.st.gate())


def stored(b, ex):
    """(imu, cross, cam) of the first propagated state at exit"""
    k = b.left(ex)[0]
    return b.item(k, 'imuCov', ex.st), b.item(k, 'imuExCamCov', ex.st), b.w.get(b.pq, 'exCamCov', ex.st)


def sites(b, ex):
    """where the three parts were last written"""
    k = b.left(ex)[0]
    return [b.w.where(b.items[k], x, ex.st) for x in ('imuCov', 'imuExCamCov')] + [b.w.where(b.pq, 'exCamCov', ex.st)]


SHAPES = [dict(cams=2, nframes=10, window=9), dict(cams=2, nframes=10, window=9, few=99), dict(cams=1, nframes=2, window=9), dict(cams=1, nframes=3, window=2), dict(cams=1, nframes=3, window=2, few=99), dict(cams=2, nframes=4, window=3),
          dict(cams=2, nframes=4, window=3, few=99), dict(cams=2, nframes=3, window=3), dict(cams=2, nframes=2, window=1, few=99), dict(cams=2, nframes=1, window=9), dict(cams=1, nframes=2, window=1)]
MORE = [dict(cams=3, nframes=6, window=5), dict(cams=3, nframes=6, window=5, few=99), dict(cams=2, nframes=7, window=7, first=3), dict(cams=2, nframes=6, window=5, first=8, few=99)]


def label(s):
    return '%d cameras, %d frames, window %d%s' % (s['cams'], s['nframes'], s['window'], ', no keyframe' if not s.get('few') else '')


def draw_nokey(t, r, n):
    h = t.a[1] if len(t.a) > 1 else None
    if t.a[0] in ('parallaxThreshold', 'translationThreshold'):
        return r.choice([0.01, 0.5, 5.0, 50.0], n)
    return draw(t, r, n)


# ---- C10: blocks are moved, not altered ----
def c10(ck):
    def moved(ck):
        for s in SHAPES + (MORE if ck.thorough else []):
            b = Upd(ck, 'no features, ' + label(s), 'none', draw=draw_nokey, n=192, seeds=1, **s)
            w = b.w
            seen = set()
            for ex in b.exits:
                if not b.ok(ex) or not b.reach(ex):
                    continue
                k = b.left(ex)[0]
                rem = b.removed(ex)
                seen.add(rem)
                full = ref.clone(b.joint(k))
                if rem is not None and rem >= 0:
                    full = ref.without(full, ref.IMU + 6 * s['cams'] + 6 * rem, 6)
                n = full.sh[0] - ref.IMU
                want = tm.mblk(full, 0, 0, 15, 15), tm.mblk(full, 0, 15, 15, n), tm.mblk(full, 15, 15, n, n)
                for nm, x, y, wh in zip(('IMU', 'cross', 'camera'), stored(b, ex), want, sites(b, ex)):
                    w.req(ex, same(x, y, 1e-9), '%s part after cloning%s is the corresponding part of the joint covariance' % (nm, '' if rem is None else ' and removing frame %d of %d' % (rem, s['nframes'])), wh)
            if s['nframes'] > s['window'] and seen and 0 not in seen and s['nframes'] - 2 not in seen:
                ck.undecided(w.name + ': no marginalization reached')

    def cloned(ck):
        # after a measurement update: the newest frame duplicates the IMU pose
        for s in (dict(cams=1, nframes=3, window=9), dict(cams=2, nframes=3, window=2)):
            b = Upd(ck, 'with features, ' + label(s), 'one' if s['cams'] == 2 else 'mono', n=64, seeds=1, nitems=2, **s)
            w = b.w
            for ex in b.exits:
                if not b.ok(ex) or not b.reach(ex) or b.removed(ex) == s['nframes'] - 1:
                    continue
                imu, cross, cam = stored(b, ex)
                n = cam.sh[0]
                if cross.sh != (15, n) or n < 6:
                    continue
                wh = sites(b, ex)
                for a, r in ((0, ref.P), (3, ref.R)):
                    w.req(ex, same(tm.mblk(cross, 0, n - 6 + a, 15, 3), tm.mblk(imu, 0, r, 15, 3), 1e-9), 'columns of the newest frame duplicate those of the IMU pose', wh[1])
                    w.req(ex, same(tm.mblk(cam, n - 6 + a, 0, 3, n), tm.mblk(cross, r, 0, 3, n), 1e-9), 'rows of the newest frame duplicate those of the IMU pose', wh[2])
    ck.run(moved, cloned)


# ---- C11: symmetry ----
def c11(ck):
    def shapes(ck):
        S = [('one', dict(cams=2, nframes=3, window=9)), ('one', dict(cams=2, nframes=3, window=2)), ('one', dict(cams=2, nframes=3, window=2, few=99)),
             ('mono', dict(cams=1, nframes=3, window=9)), ('none', dict(cams=1, nframes=3, window=2)), ('none', dict(cams=2, nframes=4, window=3, few=99))]
        for tr, s in S:
            b = Upd(ck, '%s, %s' % (tr, label(s)), tr, n=64, seeds=1, nitems=2, **s)
            w = b.w
            for v in w.vals:
                v.noise = 1e-3
                v.rounding = 1e-4
            for ex in b.exits:
                if not b.ok(ex) or not b.reach(ex):
                    continue
                imu, cross, cam = stored(b, ex)
                wh = sites(b, ex)
                w.req(ex, same(imu, tm.mtr(imu), 1e-10), 'the IMU covariance after the update is symmetric', wh[0])
                w.req(ex, same(cam, tm.mtr(cam), 1e-10), 'the camera covariance after the update is symmetric', wh[2])
                try:
                    full = w.get(b.vu, 'covariance', ex.st)
                    wv = w.where(b.vu, 'covariance', ex.st)
                except Skip as x:
                    ck.undecided(str(x))
                    continue
                if isinstance(full, tm.T) and full.sh[0] == full.sh[1]:
                    w.req(ex, same(full, tm.mtr(full), 1e-10), 'the joint covariance is symmetric', wv)
                else:
                    w.req(ex, False, 'the joint covariance is square', wv)
    ck.run(shapes)


# ---- C15: measurement equation ----
def info(b, ex, k):
    """Hx^T N [Hx r] summed over the used features, N projecting on the left null space of Hf"""
    tot, good = None, True
    for f in b.used(ex):
        Hf, Hx, r, g = b.equations(ex, k, f)
        good = tm.and_(good, g)
        N = tm.mfun('proj', (Hf.sh[0],) * 2, Hf)
        A = tm.mzero(Hx.sh[0], Hx.sh[1] + 1)
        A = ref.put(ref.put(A, 0, 0, Hx), 0, Hx.sh[1], r)
        X = ref.mul(tm.mtr(Hx), N, A)
        tot = X if tot is None else tm.madd(tot, X)
    return tot, good


def measurement(ck, b, ex, rows=True, values=True):
    w = b.w
    k = b.left(ex)[0]
    us = b.used(ex)
    if not us or None in us or len(set(us)) != len(us):
        return
    Hr = w.get(b.vu, 'Hx_r', ex.st)
    wh = w.where(b.vu, 'Hx_r', ex.st)
    N = ref.IMU + 6 * b.map.cams + 6 * (len(b.map.frames) - 1)
    cnt = sum(2 * sum(1 for key in b.map.norm if key[0] == f) - 3 for f in us)
    if Hr.sh[1] != N + 1:
        w.req(ex, False, 'the measurement equation has %d columns for %d error states' % (Hr.sh[1], N), wh)
        return
    if rows:
        # compressing is allowed once there are more rows than columns
        w.req(ex, Hr.sh[0] == cnt or (cnt > N + 1 and N <= Hr.sh[0] <= N + 1), '%d rows for the observations of the features used, expected %d' % (Hr.sh[0], cnt), wh)
    if values:
        tot, good = info(b, ex, k)
        H = tm.mblk(Hr, 0, 0, Hr.sh[0], N)
        got = ref.mul(tm.mtr(H), Hr)
        for a, z, nm in ((0, ref.IMU, 'IMU states'), (ref.IMU, 6 * b.map.cams, 'camera extrinsics'), (ref.IMU + 6 * b.map.cams, N - ref.IMU - 6 * b.map.cams, 'window frames'), (N, 1, 'residual')):
            if z:
                w.req(ex, same(tm.mblk(got, 0, a, N, z), tm.mblk(tot, 0, a, N, z), 1e-5), 'measurement equation, columns of the %s' % nm, wh, extra=good)


MEAS = [('one', dict(cams=2, nframes=3)), ('two', dict(cams=2, nframes=3, first=4)), ('mono', dict(cams=1, nframes=3)), ('short', dict(cams=2, nframes=3)), ('foreign', dict(cams=2, nframes=3)),
        ('long', dict(cams=2, nframes=9)), ({3: (1, [(0, 1)])}, dict(cams=2, nframes=1))]
WIDE = {i: (1, [(0, 1), (0, 1), (0, 1)]) for i in range(3, 9)}       # more rows than error states: compressed


def c15(ck):
    def shapes(ck):
        for tr, s in MEAS + ([('one', dict(cams=2, nframes=3, window=2)), ({2: (1, [(0, 1, 2)] * 4)}, dict(cams=3, nframes=4))] if ck.thorough else []):
            b = Upd(ck, '%s, %d frames' % (tr if isinstance(tr, str) else 'tracks', s['nframes']), tr, n=48, seeds=1, nitems=2, **s)
            for ex in b.exits:
                if b.ok(ex) and b.reach(ex):
                    measurement(ck, b, ex, rows=False)
            b.w.coverage(b.exits, lambda ex: b.ok(ex) and b.used(ex), 'no update with features reached')

    def wide(ck):
        b = wide_world(ck)
        for ex in b.exits:
            if b.ok(ex) and b.reach(ex):
                measurement(ck, b, ex, rows=False)
        b.w.coverage(b.exits, lambda ex: b.ok(ex) and len(b.used(ex)) == len(b.map.feats), 'no compressed measurement equation reached')
    ck.run(shapes, wide)


def wide_world(ck):
    """triangulation summarised as always successful, so that the stacked equation is compressed"""
    def always(eng, st, node, this, locs):
        pw = locs[3]
        st.heap[pw] = ('v', tm.mleaf('solved#%d' % pw, 3, 1, 'front'), ('entry', '', 0))
        return [(True, st)]
    return Upd(ck, 'compressed', WIDE, cams=2, nframes=3, nitems=1, n=24, seeds=1, pre=lambda w, b: prepare(w, b, always))


def prepare(w, b, always):
    w.stub('Trianglator::TrianglateAnalytic', always)
    for f, o in b.map.feats.items():
        w.like['solved#%d' % w.f(o, 'p_w')] = w.like['feat%d.p_w' % f]


# ---- C06: rows; C05-style counts are in map.py ----
def c06(ck):
    from .map import hist

    def shapes(ck):
        for tr, s in MEAS:
            b = Upd(ck, '%s, %d frames' % (tr if isinstance(tr, str) else 'tracks', s['nframes']), tr, n=32, seeds=1, nitems=2, **s)
            for ex in b.exits:
                if b.ok(ex) and b.reach(ex):
                    measurement(ck, b, ex, values=True)

    def wide(ck):
        b = wide_world(ck)
        for ex in b.exits:
            if b.ok(ex) and b.reach(ex):
                measurement(ck, b, ex, values=False)

    def built(ck):
        # a feature constructed from several observations counts all of them
        fs = [f for f in ck.prog.fns.values() if f.get('ctor') and f.get('rec') == NS + 'Feature' and len(f['params']) == 3]
        if not fs:
            raise Skip('no constructor of Feature')
        for f in fs:
            for cams in ((1,), (2,), (1, 1), (2, 1), (1, 2, 2)):
                w = ck.world('feature built from observations of %s measurements' % ' and '.join(map(str, cams)), n=4, seeds=1)
                o = w.eng.alloc_rec(w.st, NS + 'Feature', 'f', init=False)
                a = w.alloc(base(f['params'][2]['t']))
                for i, k in enumerate(cams):
                    x = w.new('FeatureObserve')
                    for c in range(k):
                        w.mput(x, 'norms', c, tm.mleaf('z%d.%d' % (i, c), 2, 1))
                    w.push(a, '', ('P', x))
                for ex in w.run(f, o, [7, 3, a]):
                    got = w.get(o, 'observeNum', ex.st)
                    w.req(ex, got == sum(cams), 'a feature built from %d measurements counts %s' % (sum(cams), got), w.where(o, 'observeNum', ex.st))
    ck.run(lambda ck: hist(ck, ('count',)), shapes, wide, built)


# ---- C16: gain and injection ----
def c16(ck):
    def shapes(ck):
        S = [('one', dict(cams=2, nframes=3, window=9)), ('long', dict(cams=2, nframes=9, window=9)), ('mono', dict(cams=1, nframes=3, window=9, first=5)), ('one', dict(cams=2, nframes=3, window=2, few=99)), ({3: (1, [(0, 1)])}, dict(cams=2, nframes=1))]
        if ck.thorough:
            S += [('two', dict(cams=2, nframes=3, window=2)), ({2: (1, [(0, 1, 2)] * 4)}, dict(cams=3, nframes=4))]
        for tr, s in S:
            b = Upd(ck, '%s, %d cameras, %d frames' % (tr if isinstance(tr, str) else 'tracks', s['cams'], s['nframes']), tr, n=48, seeds=1, nitems=2, **s)
            for ex in b.exits:
                if b.ok(ex) and b.reach(ex) and b.used(ex):
                    inject(ck, b, ex)
            b.w.coverage(b.exits, lambda ex: b.ok(ex) and b.used(ex), 'no update with features reached')

    def idle(ck):
        b = Upd(ck, 'nothing to correct', 'none', nitems=2, n=96, seeds=1)
        untouched(b)
    ck.run(shapes, idle)


def untouched(b):
    """an update without features corrects nothing"""
    w = b.w
    for ex in b.exits:
        if not b.ok(ex) or not b.reach(ex) or b.used(ex):
            continue
        st, k = ex.st, b.left(ex)[0]
        for x, y, nm in zip(b.state(k, st), b.state(k), ('p_wb', 'v_wb', 'q_wb')):
            w.req(ex, same(x, y), 'without features the %s at the image time is not corrected' % nm, w.where(b.items[k], 'nominalState.' + nm, st))
        for nm in ('bias_a', 'bias_g'):
            w.req(ex, same(w.get(b.pq, nm, st), w.get(b.pq, nm)), 'without features %s is not corrected' % nm, w.where(b.pq, nm, st))
        for c in range(b.map.cams):
            for nm in ('q_bc', 'p_bc'):
                w.req(ex, same(b.map.ext(c, nm, st), b.map.ext(c, nm)), 'without features %s of camera %d is not corrected' % (nm, c))
        for i in range(len(b.map.frames) - 1):
            for nm in ('q_wb', 'p_wb', 'v_wb'):
                w.req(ex, same(b.map.fr(i, nm, st), b.map.fr(i, nm)), 'without features %s of frame %d is not corrected' % (nm, i), w.where(b.map.frames[i], nm, st))


def inject(ck, b, ex):
    w, st = b.w, ex.st
    k = b.left(ex)[0]
    Hr = w.get(b.vu, 'Hx_r', st)
    N = ref.IMU + 6 * b.map.cams + 6 * (len(b.map.frames) - 1)
    if Hr.sh[1] != N + 1:
        return
    H, r = tm.mblk(Hr, 0, 0, Hr.sh[0], N), tm.mblk(Hr, 0, N, Hr.sh[0], 1)
    Pj = b.joint(k)
    PHt = ref.mul(Pj, tm.mtr(H))
    S = tm.madd(ref.mul(H, PHt), ref.scale(tm.mul(w.get(b.vu, 'measureNoise'), w.get(b.vu, 'measureNoise')), tm.mid(Hr.sh[0])))
    K = ref.mul(PHt, tm.mfun('inv', S.sh, S))
    dx = ref.mul(K, r)
    p, v, q = b.state(k)

    def q_after(q0, i):
        return tm.qnormd(tm.qmul(q0, ref.deltaq(ref.seg(dx, i))))
    want = {'nominalState.p_wb': tm.madd(p, ref.seg(dx, ref.P)), 'nominalState.v_wb': tm.madd(v, ref.seg(dx, ref.V)), 'nominalState.q_wb': q_after(q, ref.R)}
    for nm, x in want.items():
        y = b.item(k, nm, st)
        w.req(ex, same(y, x, 1e-5) if 'q_' not in nm else qsame(y, x, 1e-5), 'IMU %s is corrected by its part of K r' % nm, w.where(b.items[k], nm, st))
    for nm, i in (('bias_a', ref.BA), ('bias_g', ref.BG)):
        w.req(ex, same(w.get(b.pq, nm, st), tm.madd(w.get(b.pq, nm), ref.seg(dx, i)), 1e-5), '%s is corrected by its part of K r' % nm, w.where(b.pq, nm, st))
    for c in range(b.map.cams):
        i = ref.IMU + 6 * c
        o = w.seq(b.fm, 'extrinsics', st)[c]
        w.req(ex, same(b.map.ext(c, 'p_bc', st), tm.madd(b.map.ext(c, 'p_bc'), ref.seg(dx, i)), 1e-5), 'position of camera %d is corrected by its part of K r' % c, w.where(o, 'p_bc', st))
        w.req(ex, qsame(b.map.ext(c, 'q_bc', st), q_after(b.map.ext(c, 'q_bc'), i + 3), 1e-5), 'attitude of camera %d is corrected by its part of K r' % c, w.where(o, 'q_bc', st))
    n = len(b.map.frames)
    for f in range(n):
        o = b.map.frames[f]
        if f == n - 1:
            for a, nm in (('p_wb', 'nominalState.p_wb'), ('v_wb', 'nominalState.v_wb'), ('q_wb', 'nominalState.q_wb')):
                x = b.map.fr(f, a, st)
                y = want[nm]
                w.req(ex, same(x, y, 1e-5) if a != 'q_wb' else qsame(x, y, 1e-5), 'the newest frame takes over the corrected %s of the IMU' % a, w.where(o, a, st))
            continue
        i = ref.IMU + 6 * b.map.cams + 6 * f
        w.req(ex, same(b.map.fr(f, 'p_wb', st), tm.madd(b.map.fr(f, 'p_wb'), ref.seg(dx, i)), 1e-5), 'position of frame %d is corrected by its part of K r' % f, w.where(o, 'p_wb', st))
        w.req(ex, qsame(b.map.fr(f, 'q_wb', st), q_after(b.map.fr(f, 'q_wb'), i + 3), 1e-5), 'attitude of frame %d is corrected by its part of K r' % f, w.where(o, 'q_wb', st))
    # covariance
    A = ref.mul(tm.msub(tm.mid(N), ref.mul(K, H)), Pj)
    A = ref.clone(ref.scale(0.5, tm.madd(A, tm.mtr(A))))
    rem = b.removed(ex)
    if rem is not None and rem >= 0:
        A = ref.without(A, ref.IMU + 6 * b.map.cams + 6 * rem, 6)
    m = A.sh[0] - 15
    parts = tm.mblk(A, 0, 0, 15, 15), tm.mblk(A, 0, 15, 15, m), tm.mblk(A, 15, 15, m, m)
    for nm, x, y, wh in zip(('IMU', 'cross', 'camera'), stored(b, ex), parts, sites(b, ex)):
        w.req(ex, same(x, y, 1e-5), '%s part of the covariance becomes (I - K H) P' % nm, wh)


# ---- C17: time of the update, recomputation ----
def stepcheck(b, ex, i0, i1, nominal=True, cov=True):
    """propagated state i1 follows from i0 with the biases in force"""
    w, st = b.w, ex.st
    ba, bg = w.get(b.pq, 'bias_a', st), w.get(b.pq, 'bias_g', st)
    s0, m0, m1 = b.state(i0, st), b.meas(i0, st), b.meas(i1, st)
    t0, t1 = b.item(i0, 'timeStamp', st), b.item(i1, 'timeStamp', st)
    if nominal:
        for nm, x, y in zip(('p_wb', 'v_wb', 'q_wb'), b.state(i1, st), ref.step(s0, m0, m1, t0, t1, ba, bg, b.gvec)):
            w.req(ex, same(x, y, 1e-6) if nm != 'q_wb' else qsame(x, y, 1e-6), '%s of propagated state %d follows from its predecessor' % (nm, i1), w.where(b.items[i1], 'nominalState.' + nm, st))
    if cov:
        F, G = ref.transition(s0[2], m0, m1, t0, t1, ba, bg)
        Q = w.get(b.pq, 'Q', st)
        x = b.item(i1, 'imuCov', st)
        y = tm.madd(ref.mul(F, b.item(i0, 'imuCov', st), tm.mtr(F)), ref.mul(G, Q, tm.mtr(G)))
        w.req(ex, same(x, y, 1e-6), 'IMU covariance of propagated state %d follows from its predecessor' % i1, w.where(b.items[i1], 'imuCov', st))
        w.req(ex, same(b.item(i1, 'imuExCamCov', st), ref.mul(F, b.item(i0, 'imuExCamCov', st)), 1e-6), 'cross covariance of propagated state %d follows from its predecessor' % i1, w.where(b.items[i1], 'imuExCamCov', st))


def c17(ck):
    def shapes(ck):
        for tr, ni, s in (('none', 24, dict(T=0.5)), ('none', 0, {}), ('none', 1, {}), ('none', 2, {}), ('none', 4, dict(window=2)), ('one', 3, {}), ('one', 3, dict(window=2, few=99)), ('mono', 2, dict(cams=1))):
            s = dict(dict(cams=2, nframes=3, window=9), **s)
            b = Upd(ck, '%s, %d propagated states, %s' % (tr, ni, label(s)), tr, n=96 if tr == 'none' else 48, seeds=1, nitems=ni, processF=True, **s)
            w = b.w
            for ex in b.exits:
                if not b.reach(ex):
                    continue
                st = ex.st
                times = [b.item(k, 'timeStamp') for k in range(ni)]
                old = [tm.lt(b.thr, tm.sub(b.T, t)) for t in times]
                if not b.ok(ex):
                    w.req(ex, tm.and_(*old) if old else True, 'the update is refused only if every propagated state is too old')
                    continue
                lf = b.left(ex)
                if not lf or None in lf:
                    w.req(ex, False, 'the update succeeds only with a state at the image time')
                    continue
                k = lf[0]
                w.req(ex, lf == list(range(k, ni)), 'the states from the image time on are kept in order')
                w.req(ex, tm.and_(*(old[:k] + [tm.not_(old[k])])), 'exactly the states older than the image by more than the threshold are discarded')
                fr = b.map.frames[-1]
                for nm in ('p_wb', 'v_wb', 'q_wb'):
                    x, y = w.get(fr, nm, st), b.item(k, 'nominalState.' + nm, st)
                    w.req(ex, same(x, y, 1e-9), 'the newest frame has the %s of the state at the image time' % nm, w.where(fr, nm, st))
                for j in range(k, ni):
                    for nm in ('timeStamp', 'accel', 'gyro'):
                        w.req(ex, same(b.item(j, nm, st), b.item(j, nm), 0.0), '%s of state %d is kept' % (nm, j), w.where(b.items[j], nm, st))
                for j in range(k, ni - 1):
                    stepcheck(b, ex, j, j + 1)
                if tr == 'none':
                    for x, y, nm in zip(b.state(k, st), b.state(k), ('p_wb', 'v_wb', 'q_wb')):
                        w.req(ex, same(x, y, 1e-9), '%s at the image time is the propagated one' % nm, w.where(b.items[k], 'nominalState.' + nm, st))
                else:
                    triangulated(b, ex, k)
            if ni:
                w.coverage(b.exits, lambda ex: b.ok(ex), 'no update reached')
    ck.run(shapes)


def triangulated(b, ex, k):
    """the points were triangulated with the newest frame at the pose of state k"""
    from .geometry import analytic
    m, w = b.map, b.w
    for f in b.used(ex):
        if f is None:
            continue
        qs, ps, zs = [], [], []
        for (g, fr, c), z in m.norm.items():
            if g == f and c < m.cams:
                q, p = b.pose(fr - m.first, k)
                qc, pc = ref.camera(q, p, m.ext(c, 'q_bc'), m.ext(c, 'p_bc'))
                qs.append(qc), ps.append(pc), zs.append(z)
        w.req(ex, same(w.get(m.feats[f], 'p_w', ex.st), analytic(qs, ps, zs), 1e-3), 'point %d is triangulated with the newest frame at the state of the image time' % f, w.where(m.feats[f], 'p_w', ex.st))


# ---- C33: which features ----
def c33(ck):
    def shapes(ck):
        tracks = {4: (1, [(0, 1)] * 3), 6: (3, [(0, 1)]), 8: (1, [(0, 1)] * 2), 9: (2, [(0,), (0,)]), 12: (3, [(0, 1)])}
        crowd = {4: (1, [(0, 1, 2)] * 3, SOLVED), 6: (1, [(0, 1, 2)] * 3), 8: (2, [(2, 0)] * 2, SOLVED), 9: (1, [(0, 1, 2)])}
        for tracks, cams, cap in [(tracks, 2, c) for c in (0, 1, 2, 3, 20)] + [(crowd, 3, c) for c in ((2, 20) if not ck.thorough else (0, 1, 2, 3, 20))]:
            log = {}

            def outcome(eng, st, node, this, locs):
                pw = locs[3]
                o = tm.leaf('solved#%d' % pw, 'b')
                st.heap[pw] = ('v', tm.mleaf('point#%d' % pw, 3, 1, 'front'), ('entry', '', 0))
                # C24: fewer than two views never give a point
                return [(c, s) for c, s in eng.branch(st, o if len(st.heap[locs[0]][3]) > 1 else False)]
            b = Upd(ck, 'at most %d features, %d cameras' % (cap, cams), tracks, cams=cams, nframes=3, nitems=1, window=9, n=128, seeds=1,
                    pre=lambda w, b: (w.stub('Trianglator::TrianglateAnalytic', outcome), w.set(b.vu, 'maxUsedFeatures', cap),
                                      w.stub('MultiViewVisionUpdate::UpdateState', lambda eng, st, node, this, locs: [(True, st)]) if cap > 2 else None))
            w = b.w
            newest = {f for f in tracks if tracks[f][0] + len(tracks[f][1]) - 1 == 3}
            for ex in b.exits:
                if not b.ok(ex) or not b.reach(ex):
                    continue
                us = b.used(ex)
                w.req(ex, None not in us and len(set(us)) == len(us), 'the features used are different features of the manager')
                w.req(ex, len(us) <= cap, '%d features used, at most %d configured' % (len(us), cap))
                for f in us:
                    if f is None:
                        continue
                    w.req(ex, f in newest, 'feature %d, which is used, is seen in the newest frame' % f)
                    o = tm.leaf('solved#%d' % w.f(b.map.feats[f], 'p_w'), 'b')
                    w.req(ex, o, 'feature %d, which is used, was triangulated successfully in this update' % f)
                    w.req(ex, w.get(b.map.feats[f], 'status', ex.st) == SOLVED, 'feature %d, which is used, is marked solved' % f, w.where(b.map.feats[f], 'status', ex.st))

    def none(ck):
        for s in (dict(cams=2, nframes=3, window=9), dict(cams=1, nframes=4, window=3), dict(cams=1, nframes=4, window=3, few=99)):
            b = Upd(ck, 'no usable feature, ' + label(s), {4: (1, [(0,)] * s['nframes'])}, nitems=3, n=96, seeds=1,
                    pre=lambda w, b: w.stub('Trianglator::TrianglateAnalytic', lambda eng, st, node, this, locs: [(False, st)]), **s)
            w = b.w
            untouched(b)
            for ex in b.exits:
                if not b.ok(ex) or not b.reach(ex):
                    continue
                st, lf = ex.st, b.left(ex)
                w.req(ex, not b.used(ex), 'no feature is used when none was triangulated')
                rem = b.removed(ex)
                n = 6 * s['cams'] + 6 * s['nframes'] - (6 if rem is not None else 0)
                w.req(ex, w.get(b.pq, 'exCamCov', st).sh == (n, n), 'without features the newest frame is still cloned and the surplus one removed', w.where(b.pq, 'exCamCov', st))
                for j in range(lf[0], 2):
                    stepcheck(b, ex, j, j + 1)
            w.coverage(b.exits, lambda ex: b.ok(ex), 'no update reached')

    def stale(ck):
        # features of an earlier update do not take part again
        b = Upd(ck, 'leftovers of the previous update', {4: (1, [(0, 1)] * 2)}, nitems=2, n=96, seeds=1, pre=lambda w, b: w.push(b.vu, 'features', ('P', b.map.feats[4])))
        untouched2 = [ex for ex in b.exits if b.ok(ex) and b.reach(ex)]
        for ex in untouched2:
            b.w.req(ex, not b.used(ex), 'a feature of an earlier update that the newest frame does not see is not used')

    def plenty(ck):
        for n, cap in ((36, 20), (36, 32), (36, 50)):
            b = Upd(ck, '%d good features, at most %d' % (n, cap), {f: (2, [(0, 1)] * 2) for f in range(1, n + 1)}, cams=2, nframes=3, nitems=1, n=4, seeds=1, T=0.0,
                    pre=lambda w, b: (w.stub('Trianglator::TrianglateAnalytic', lambda eng, st, node, this, locs: [(True, st)]), w.set(b.vu, 'maxUsedFeatures', cap),
                                      w.stub('MultiViewVisionUpdate::UpdateState', lambda eng, st, node, this, locs: [(True, st)])))
            for ex in b.exits:
                if b.ok(ex) and b.reach(ex):
                    us = b.used(ex)
                    b.w.req(ex, None not in us and len(set(us)) == len(us) and len(us) <= cap, '%d features used, at most %d configured' % (len(us), cap))
    ck.run(shapes, none, stale, plenty)


# ---- C09: dimensions ----
def dims(b, ex, cams, frames, who):
    w, st = b.w, ex.st
    n = 6 * cams + 6 * frames
    w.req(ex, w.get(b.pq, 'exCamCov', st).sh == (n, n), '%s: camera part is %s, expected %d states for %d cameras and %d frames' % (who, w.get(b.pq, 'exCamCov', st).sh, n, cams, frames), w.where(b.pq, 'exCamCov', st))
    for p in w.seqv(b.pq, 'items', st):
        w.req(ex, w.get(p[1], 'imuCov', st).sh == (15, 15), '%s: IMU part covers 15 states' % who, w.where(p[1], 'imuCov', st))
        sh = w.get(p[1], 'imuExCamCov', st).sh
        w.req(ex, sh == (15, n), '%s: cross part is %s, expected 15x%d' % (who, sh, n), w.where(p[1], 'imuExCamCov', st))


def c09(ck):
    from .backend import Once

    def updates(ck):
        for s in SHAPES + (MORE if ck.thorough else []):
            if s['nframes'] < 2:
                continue
            s = dict(s)
            nf = s.pop('nframes') - 1
            b = Once(ck, 'update, %d cameras, %d frames before, window %d' % (s['cams'], nf, s['window']), nframes=nf, nitems=3, **s)
            for ex in b.exits:
                if b.reach(ex) and b.w.get(b.b, 'status', ex.st) == INITIALIZED:
                    dims(b, ex, s['cams'], len(b.w.seq(b.fm, 'frames', ex.st)), 'after an update')
            b.w.coverage(b.exits, lambda ex: b.w.get(b.b, 'status', ex.st) == INITIALIZED, 'no successful update reached')

    def measured(ck):
        for win, few in ((9, 0), (3, 99), (3, 0)):
            b = Once(ck, 'update with features, window %d' % win, cams=2, nframes=3, tracks={4: (1, [(0, 1)] * 3)}, sees={4: (0, 1)}, nitems=2, window=win, few=few, n=48, seeds=1)
            for ex in b.exits:
                if b.reach(ex) and b.w.get(b.b, 'status', ex.st) == INITIALIZED:
                    dims(b, ex, 2, len(b.w.seq(b.fm, 'frames', ex.st)), 'after an update')
            b.w.coverage(b.exits, lambda ex: b.w.get(b.b, 'status', ex.st) == INITIALIZED, 'no successful update reached')

    def start(ck):
        for cams in (1, 2):
            b = Once(ck, 'initialization, %d cameras' % cams, cams=cams, nframes=1, nitems=0, natt=3, status=NEED_INIT, start=True)
            for ex in b.exits:
                if b.reach(ex) and b.w.get(b.b, 'status', ex.st) == INITIALIZED:
                    dims(b, ex, cams, len(b.w.seq(b.fm, 'frames', ex.st)), 'after initialization')
            b.w.coverage(b.exits, lambda ex: b.w.get(b.b, 'status', ex.st) == INITIALIZED, 'no successful initialization reached')

    def refuse(ck):
        for cams, nf in ((1, 2), (2, 3)):
            right = 6 * cams + 6 * (nf - 1)
            for d in (6, right - 6, right + 6, right + 12, right):
                if d <= 0:
                    continue
                b = Upd(ck, 'stored camera dimension %d, %d cameras, %d frames' % (d, cams, nf), 'none', cams=cams, nframes=nf, nitems=1, dim=d, n=96, seeds=1)
                for ex in b.exits:
                    if b.reach(ex) and d != right:
                        b.w.req(ex, not b.ok(ex), 'an update with %d camera states stored for %d cameras and %d frames is refused' % (d, cams, nf))
                b.w.memory()
    ck.run(updates, measured, start, refuse)


# ---- C08: the same frame everywhere ----
def c08(ck):
    from .backend import Once
    from .map import keyframe_ref, hist

    def shapes(ck):
        for cams, nf, win, first in ((1, 2, 2, 1), (2, 3, 3, 2), (1, 3, 2, 1), (1, 3, 5, 1), (1, 1, 1, 1), (2, 4, 4, 6)):
            tracks = {1: (first, [(0,)] * nf), 2: (first + nf - 1, [(0,)])}
            b = Once(ck, '%d cameras, %d frames before, window %d' % (cams, nf, win), cams=cams, nframes=nf, first=first, tracks=tracks, sees={1: (0,)}, nitems=1, window=win, few=1, draw=draw_nokey, n=192, seeds=1,
                     pre=lambda w, b: w.stub('Trianglator::TrianglateAnalytic', lambda eng, st, node, this, locs: [(False, st)]))
            w, m = b.w, b.map
            sub = nf - 1
            links = w.mitems(m.frames[sub], 'features')
            prel = w.mitems(m.frames[sub - 1], 'features') if sub else {}
            key = True if sub == 0 else keyframe_ref(w, m, sub, links, prel)
            seen = set()
            for ex in b.exits:
                st = ex.st
                if not b.reach(ex) or w.get(b.b, 'status', st) != INITIALIZED:
                    continue
                fo = [p[1] for p in w.seqv(b.fm, 'frames', st)]
                gone = [i for i, f in enumerate(m.frames) if f not in fo]
                new = [f for f in fo if f not in m.frames]
                w.req(ex, len(new) == 1 and fo[-1:] == new, 'the newest frame stays in the window')
                over = nf + 1 > win
                w.req(ex, len(gone) == (1 if over else 0), '%d frames discarded from a window of %d, at most %d allowed' % (len(gone), nf + 1, win))
                if len(gone) != 1:
                    continue
                g = gone[0]
                seen.add(g)
                if sub:
                    w.req(ex, g in (0, sub), 'the frame discarded is the oldest or the second-newest')
                    w.req(ex, tm.iff(key, g == 0) if sub != 0 else True, 'the oldest frame is discarded exactly if the second-newest is a keyframe')
                # tracks: the observation of that frame is the one that goes
                feats = w.mitems(b.ftm, 'features', st)
                for f, (a, cs) in tracks.items():
                    obs = [o for i, o in enumerate(m.obs[f]) if a + i - first != g]
                    if f in b.msgobs:
                        obs = obs + [b.msgobs[f]]
                    have = [p[1] for p in w.seqv(feats[f][1], 'observes', st)] if f in feats else []
                    w.req(ex, have == obs, 'the track of feature %d loses the observation of the discarded frame' % f)
                # covariance: rows of that frame
                full = ref.without(ref.clone(b.joint(0)), ref.IMU + 6 * cams + 6 * g, 6)
                n = full.sh[0] - 15
                w.req(ex, same(w.get(b.pq, 'exCamCov', st), tm.mblk(full, 15, 15, n, n), 1e-9), 'the covariance loses the rows of frame %d, which left the window' % g, w.where(b.pq, 'exCamCov', st))
                w.req(ex, same(w.get(b.items[0], 'imuExCamCov', st), tm.mblk(full, 0, 15, 15, n), 1e-9), 'the cross covariance loses the columns of frame %d, which left the window' % g, w.where(b.items[0], 'imuExCamCov', st))
            if nf + 1 > win and sub:
                for g in (0, sub):
                    if g not in seen:
                        ck.undecided('%s: discarding frame %d not reached' % (w.name, g))
    ck.run(shapes)
