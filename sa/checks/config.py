"""C20: configuration files, the reader, and the consumers of each value."""
import re
from .. import term as tm
from ..core import same, qsame, Skip, NS
from . import ref
from .motion import mdraw

BAD = 'bad'                 # a token that is not a number


def cfgdraw(t, r, n):
    h = t.a[1] if len(t.a) > 1 else None
    if h == 'count':
        return r.integers(2, 40, n).astype(float)
    return mdraw(t, r, n)


class Files:
    """model of input file streams over a directory with the given contents: {name: [lines of tokens]}"""

    def __init__(self, w, files):
        self.w, self.files = w, files
        self.opened = set()
        w.eng.hooks['stream'] = self.hook

    # a stream value is ('X', type, kind, lines, row, column, failed)
    def make(self, t, kind, lines, row=0, col=0, bad=False):
        return ('X', t, kind, lines, row, col, bad)

    def norm(self, v):
        if len(v) >= 7:
            return v
        if len(v) == 3 and isinstance(v[2], tuple) and v[2][:1] == ('line',):
            return self.make(v[1], 'text', (v[2][1],))
        if len(v) == 3 and isinstance(v[2], str):
            if v[2] in self.files or v[2].startswith('/'):
                return self.openv(v[1], v[2])
            return self.make(v[1], 'text', ((v[2],) if v[2] else (),))
        return self.make(v[1], 'closed', ())

    def openv(self, t, name):
        self.opened.add(name)
        if name in self.files:
            return self.make(t, 'file', tuple(tuple(l) for l in self.files[name]))
        return self.make(t, 'closed', (), bad=True)

    def good(self, v):
        return not v[6]

    def getline(self, v):
        """(new stream, line or None)"""
        t, kind, lines, row, col, bad = v[1:]
        if bad or kind == 'closed' or row >= len(lines):
            return self.make(t, kind, lines, row, col, True), None
        return self.make(t, kind, lines, row + 1, 0, False), ('line', lines[row][col:])

    def token(self, v):
        t, kind, lines, row, col, bad = v[1:]
        if bad or kind == 'closed':
            return self.make(t, kind, lines, row, col, True), None
        while row < len(lines) and col >= len(lines[row]):
            row, col = row + 1, 0
        if row >= len(lines):
            return self.make(t, kind, lines, row, col, True), None
        x = lines[row][col]
        if isinstance(x, str):
            return self.make(t, kind, lines, row, col, True), None
        return self.make(t, kind, lines, row, col + 1, False), x

    def hook(self, e, rec, name, op, loc, v, args, st):
        g = self.w.eng
        if loc is None:
            out = []
            for l0, s in g.lv(args[0], st):
                s0 = g.load(s, l0)
                if not (isinstance(s0, tuple) and s0 and s0[0] == 'X'):
                    return None
                for l1, s2 in g.lv(args[1], s):
                    n, x = self.getline(self.norm(s0)) if name == 'getline' else self.token(self.norm(s0))
                    g.store(s2, l0, n)
                    if name == 'getline':
                        g.store(s2, l1, x if x is not None else ('line', ()))
                    else:
                        g.store(s2, l1, x if x is not None else 0.0)
                    out.append((('LOC', l0), s2))
            return out
        v = self.norm(v)
        if name == 'open':
            out = []
            for vs, s in g.evs(args[:1], st):
                if not isinstance(vs[0], str):
                    return None
                g.store(s, loc, self.openv(v[1], vs[0]))
                out.append(((), s))
            return out
        if name == 'close':
            g.store(st, loc, self.make(v[1], 'closed', (), bad=v[6]))
            return [((), st)]
        if name == 'is_open':
            return [(v[2] == 'file', st)]
        if name in ('operator bool', 'good') or name == 'operator!' or name == 'fail' or name == 'bad':
            return [(self.good(v) if name in ('operator bool', 'good') else not self.good(v), st)]
        if name == 'eof':
            return [(v[6] and v[4] >= len(v[3]), st)]
        if name == 'clear':
            g.store(st, loc, v[:6] + (False,))
            return [((), st)]
        if name == 'str' and args:
            out = []
            for vs, s in g.evs(args[:1], st):
                if not (isinstance(vs[0], tuple) and vs[0][:1] == ('line',)):
                    return None
                g.store(s, loc, self.make(v[1], 'text', (vs[0][1],), bad=v[6]))
                out.append(((), s))
            return out
        if name == 'operator>>':
            out = []
            for l1, s in g.lv(args[0], st):
                n, x = self.token(self.norm(g.load(s, loc)))
                g.store(s, loc, n)
                old = g.load(s, l1)
                isint = isinstance(old, int) and not isinstance(old, bool)
                g.store(s, l1, x if x is not None else (0 if isint else 0.0))
                out.append((('LOC', loc), s))
            return out
        return None


def num(name, hint='pos'):
    return tm.leaf(name, 's', hint)


def rows(name, r, c, hint='pos'):
    return [[num('%s[%d,%d]' % (name, i, j), hint) for j in range(c)] for i in range(r)]


DIR = '/cfg'
SHAPE = {'imu_frequence': (1, 1), 'imu_na_ng_nwa_nwg': (1, 4), 'imu_bias_a_g_init': (2, 3), 'gravity_norm': (1, 1), 'T_bc0': (4, 4), 'T_bc1': (4, 4), 'T_bc2': (4, 4),
         'window_size': (1, 1), 'vision_measure_noise': (1, 1), 'keyframe_policy': (1, 3)}
CORE = [k for k in SHAPE if k != 'T_bc2']


def good(name):
    r, c = SHAPE[name]
    m = rows(name, r, c, 'small' if 'bias' in name else None if name[0] == 'T' else 'pos')
    if name == 'window_size':
        m[0][0] = 7.0
    if name == 'keyframe_policy':
        m[0][0] = 12.0
    return m


def settings(w, cf):
    """setting -> its value: what the files say it should be"""
    def at(name, i, j):
        return lambda F: F[name][i][j]

    def vec(name, i):
        return lambda F: tm.mlit(3, 1, [F[name][i][j] for j in range(3)])
    return {
        ('imu_frequence', 'imu.period'): lambda F: tm.div(1.0, F['imu_frequence'][0][0]),
        ('imu_na_ng_nwa_nwg', 'imu.sigmaBiasAccel'): at('imu_na_ng_nwa_nwg', 0, 0),
        ('imu_na_ng_nwa_nwg', 'imu.sigmaBiasGyro'): at('imu_na_ng_nwa_nwg', 0, 1),
        ('imu_na_ng_nwa_nwg', 'imu.sigmaBiasAccelRandomWalk'): at('imu_na_ng_nwa_nwg', 0, 2),
        ('imu_na_ng_nwa_nwg', 'imu.sigmaBiasGyroRandomWalk'): at('imu_na_ng_nwa_nwg', 0, 3),
        ('imu_bias_a_g_init', 'imu.defaultBiasAccel'): vec('imu_bias_a_g_init', 0),
        ('imu_bias_a_g_init', 'imu.defaultBiasGyro'): vec('imu_bias_a_g_init', 1),
        ('gravity_norm', 'imu.gravityNorm'): at('gravity_norm', 0, 0),
        ('window_size', 'vision.maxFrameNum'): at('window_size', 0, 0),
        ('vision_measure_noise', 'vision.sigmaVision'): at('vision_measure_noise', 0, 0),
        ('keyframe_policy', 'vision.minKeyframeTrackedFeatureNum'): at('keyframe_policy', 0, 0),
        ('keyframe_policy', 'vision.minKeyframeMeanParallax'): at('keyframe_policy', 0, 1),
        ('keyframe_policy', 'vision.maxKeyframeTranslation'): at('keyframe_policy', 0, 2),
    }


def extr(F, c):
    m = F['T_bc%d' % c]
    R = tm.mlit(3, 3, [m[i][j] for i in range(3) for j in range(3)])
    return tm.qnormd(tm.qfrommat(R)), tm.mlit(3, 1, [m[i][3] for i in range(3)])


class Cfg:
    """a backend reading a directory"""

    def __init__(self, ck, name, F, broken=(), defaults='default', n=32):
        self.w = w = ck.world('configuration, ' + name, n=n, seeds=2, draw=cfgdraw)
        self.F = F
        self.broken = set(broken)
        self.files = Files(w, {'%s/%s.txt' % (DIR, k): v for k, v in F.items()})
        self.b = w.new('Backend')
        from .build import gravity
        self.gcell, _, _ = gravity(w)
        # the singleton holds recognisable defaults
        self.exits = w.run('Configurator::GetInstance', None, [])
        if len(self.exits) != 1 or not (isinstance(self.exits[0].ret, tuple) and self.exits[0].ret[0] == 'P'):
            raise Skip('no single configuration object')
        w.st = self.exits[0].st
        self.cf = w.val(self.exits[0].ret, w.st)[1]
        for f in ('imu', 'vision'):
            w.sym(w.f(self.cf, f), 'default.' + f, skip=('maxFrameNum', 'maxCameraNum', 'minKeyframeTrackedFeatureNum', 'maxFeatureNumForUpdate', 'default_q_bc', 'default_p_bc'))
        w.set(self.cf, 'vision.maxFrameNum', 9)
        w.set(self.cf, 'vision.minKeyframeTrackedFeatureNum', 33)
        w.set(self.cf, 'vision.maxFeatureNumForUpdate', 21)
        # extrinsics of an earlier directory
        for k in range(1):
            w.push(self.cf, 'vision.default_q_bc', tm.qleaf('old.q%d' % k))
            w.push(self.cf, 'vision.default_p_bc', tm.mleaf('old.p%d' % k, 3, 1))
        e = w.new('Extrinsic')
        w.sym(e, 'old.ext')
        w.push(self.b, 'frameManager.extrinsics', ('O', e))
        self.start = w.st

    def read(self):
        w = self.w
        return w.run('Backend::ConfigParams', self.b, [('CELL', w.cell(DIR))])

    def want(self, key):
        name, field = key
        if name in self.F and name not in self.broken:
            return settings(self.w, self.cf)[key](self.F)
        return self.w.get(self.cf, field, self.start)


def eq(a, b):
    return same(a, b, 1e-9) if isinstance(a, (tm.T, float)) or isinstance(b, (tm.T, float)) else a == b


def checkall(c, ex):
    w, st = c.w, ex.st
    keys = settings(w, c.cf)
    val = {}
    for k in keys:
        val[k[1]] = c.want(k)
        what = 'has the value of its file' if k[0] in c.F and k[0] not in c.broken else 'keeps its default, its file being %s' % ('malformed' if k[0] in c.F else 'missing')
        w.req(ex, eq(w.get(c.cf, k[1], st), val[k[1]]), 'the setting %s %s' % (k[1], what), w.where(c.cf, k[1], st))
    b = c.b
    for path, src in (('dataloader.imuPeriod', 'imu.period'), ('propagator.bias_a', 'imu.defaultBiasAccel'), ('propagator.bias_g', 'imu.defaultBiasGyro'),
                      ('attitudeEstimator.bias_a', 'imu.defaultBiasAccel'), ('attitudeEstimator.bias_g', 'imu.defaultBiasGyro'),
                      ('visionUpdator.measureNoise', 'vision.sigmaVision'), ('frameManager.maxWindowSize', 'vision.maxFrameNum'),
                      ('frameManager.minKeyframeMeanParallax', 'vision.minKeyframeMeanParallax'), ('frameManager.minKeyframeTrackedFeatureNum', 'vision.minKeyframeTrackedFeatureNum'),
                      ('frameManager.maxKeyframeTranslation', 'vision.maxKeyframeTranslation')):
        w.req(ex, eq(w.get(b, path, st), val[src]), 'the setting %s reaches %s' % (src, path), w.where(b, path, st))
    try:
        w.req(ex, eq(w.get(b, 'visionUpdator.maxUsedFeatures', st), w.get(c.cf, 'vision.maxFeatureNumForUpdate', c.start)), 'the cap on used features reaches the update', w.where(b, 'visionUpdator.maxUsedFeatures', st))
    except Skip:
        pass
    d = tm.mzero(12, 12)
    for k, nm in enumerate(('sigmaBiasAccel', 'sigmaBiasGyro', 'sigmaBiasAccelRandomWalk', 'sigmaBiasGyroRandomWalk')):
        for i in range(3):
            d = ref.put(d, 3 * k + i, 3 * k + i, tm.mlit(1, 1, [val['imu.' + nm]]))
    w.req(ex, same(w.get(b, 'propagator.Q', st), d, 1e-9), 'the four noise intensities reach the process noise', w.where(b, 'propagator.Q', st))
    g = tm.mlit(3, 1, [0.0, 0.0, val['imu.gravityNorm']])
    w.req(ex, same(st.heap[c.gcell][1], g, 1e-9), 'the gravity reaches the gravity vector', w.where(c.gcell, '', st))
    n = 0
    while 'T_bc%d' % n in c.F and 'T_bc%d' % n not in c.broken:
        n += 1
    es = w.seq(b, 'frameManager.extrinsics', st)
    w.req(ex, len(es) == n, '%d camera extrinsics are in force, found %d' % (n, len(es)))
    if len(es) == n:
        for i, o in enumerate(es):
            q, p = extr(c.F, i)
            w.req(ex, qsame(w.get(o, 'q_bc', st), q, 1e-9), 'camera %d has the rotation of its file' % i, w.where(o, 'q_bc', st))
            w.req(ex, same(w.get(o, 'p_bc', st), p, 1e-9), 'camera %d has the translation of its file' % i, w.where(o, 'p_bc', st))


def mutations(name):
    """(what, lines, accepted): variants of a file"""
    r, c = SHAPE[name]
    m = good(name)
    out = [('empty', [], False), ('without its last row', m[:-1], False), ('without its last number', m[:-1] + [m[-1][:-1]], False),
           ('with a word as first number', [[BAD] + m[0][1:]] + m[1:], False), ('with a word as last number', m[:-1] + [m[-1][:-1] + [BAD]], False),
           ('with an additional row', m + [[1.0] * c], True), ('with additional numbers', [row + [3.0, 4.0] for row in m], True),
           ('with additional words', [row + ['#'] for row in m], True)]
    if r > 1:
        out += [('with a blank line between rows', m[:1] + [[]] + m[1:], False), ('with its first row only', m[:1], False)]
    return out


def c20(ck):
    def full(ck):
        for cams in (0, 1, 2, 3):
            F = {k: good(k) for k in SHAPE if not k.startswith('T_') or int(k[4:]) < cams}
            c = Cfg(ck, 'complete, %d cameras' % cams, F)
            done(c)
        # a gap in the numbering ends the list of cameras
        F = {k: good(k) for k in SHAPE if k != 'T_bc1'}
        done(Cfg(ck, 'without camera 1', F))
        done(Cfg(ck, 'nothing there', {}))

    def done(c):
        ee = c.read()
        for ex in ee:
            checkall(c, ex)
        c.w.memory()
        c.w.coverage(ee, lambda ex: True, 'no exit')

    def one(ck):
        for name in CORE:
            F = {k: good(k) for k in CORE if k != name}
            done(Cfg(ck, 'without %s.txt' % name, F))
            for what, lines, ok in mutations(name):
                F = {k: good(k) for k in CORE}
                F[name] = lines
                done(Cfg(ck, '%s.txt %s' % (name, what), F, broken=() if ok else (name,)))

    def twice(ck):
        # malformed files one after another do not leak into each other
        for name in CORE[:4]:
            F = {k: good(k)[:0] for k in CORE}
            F[name] = good(name)
            done(Cfg(ck, 'only %s.txt is well formed' % name, F, broken=[k for k in CORE if k != name]))

    def pointers(ck):
        c = Cfg(ck, 'wiring', {k: good(k) for k in CORE})
        w = c.w
        for ex in c.read():
            for a, x in (('propagator.propagator', 'frameManager'), ('visionUpdator.propagator', 'propagator'), ('visionUpdator.featureManager', 'featureManager'),
                         ('visionUpdator.frameManager', 'frameManager'), ('visionUpdator.trianglator', 'trianglator'), ('visionUpdator.pnpSolver', 'pnpSolver')):
                p = w.get(c.b, a, ex.st)
                w.req(ex, p == ('P', w.f(c.b, x, ex.st)) or same(p, ('P', w.f(c.b, x, ex.st))), 'the component %s uses the %s of its own estimator' % (a, x), w.where(c.b, a, ex.st))
    ck.run(full, one, twice, pointers)
