"""C01-C04: the data loader.  Reference: an abstract queue machine over the same value graph."""
import numpy as np
from .. import term as tm
from ..core import same
from ..engine import Unmod

EPS = [0.0, 0.0, 0.0, 4e-7, 2e-6, 0.004, 0.0071, -0.004, -0.0071]


def draw(t, r, n):
    h = t.a[1] if len(t.a) > 1 else None
    if h == 'time':
        return r.integers(0, 5, n) * 0.25 + r.choice(EPS, n) + (7.5 if n % 2 else 0.0)
    if h == 'period':
        return r.choice([0.005, 0.0113, 0.3, 0.6], n)
    return None


class Model:
    """what the statements of C01-C04 say the loader holds"""

    def __init__(self):
        self.off, self.F, self.I, self.wF, self.wI, self.cond = None, (), (), None, None, True

    def copy(self, **kw):
        m = Model()
        m.off, m.F, m.I, m.wF, m.wI, m.cond = self.off, self.F, self.I, self.wF, self.wI, self.cond
        for k, v in kw.items():
            setattr(m, k, v)
        return m

    def also(self, c):
        return self.copy(cond=tm.and_(self.cond, c))


class Msg:
    """a message as the model sees it: identity, time stamp, contents"""

    def __init__(self, oid, t, gyro=None, accel=None, name=''):
        self.oid, self.t, self.gyro, self.accel, self.name = oid, t, gyro, accel, name


def push(m, kind, msg):
    """list of (model, queued)"""
    off = msg.t if m.off is None else m.off
    t = tm.sub(msg.t, off)
    n = Msg(msg.oid, t, msg.gyro, msg.accel, msg.name)
    w = m.wF if kind == 'F' else m.wI
    c = True if w is None else tm.lt(w, t)
    out = []
    for b in (True, False):
        cc = c if b else tm.not_(c)
        if cc is False:
            continue
        k = m.also(cc)
        k.off = off
        if b and kind == 'F':
            k.F, k.wF = m.F + (n,), t
        elif b:
            k.I, k.wI = m.I + (n,), t
        out.append((k, n))
    return out


def pop_one(m, period):
    """list of (model, success, feature, imu list)"""
    if not m.F and not m.I:
        return [(m, False, None, ())]
    if not m.F:
        return [(m.copy(I=m.I[1:]), True, None, m.I[:1])]
    if not m.I:
        return [(m.copy(F=m.F[1:]), True, m.F[0], ())]
    f, i = m.F[0], m.I[0]
    older = tm.le(f.t, i.t)
    near = tm.lt(tm.fn('fabs', tm.sub(f.t, i.t)), period)
    out = []
    k = m.also(tm.not_(older))
    out.append((k.copy(I=m.I[1:]), True, None, (i,)))
    k = m.also(tm.and_(older, near))
    out.append((k.copy(I=m.I[1:], F=m.F[1:]), True, f, (i,)))
    k = m.also(tm.and_(older, tm.not_(near)))
    out.append((k.copy(F=m.F[1:]), True, f, ()))
    return [x for x in out if x[0].cond is not False]


def pop_packed(m, _period):
    if not m.F or not m.I:
        return [(m, False, None, ())]
    f = m.F[0]
    out = []
    nolater = tm.le(m.I[-1].t, f.t)
    out.append((m.also(nolater), False, None, ()))
    m1 = m.also(tm.not_(nolater))
    early = tm.lt(m.I[0].t, f.t)
    out.append((m1.also(tm.not_(early)).copy(F=m.F[1:]), False, None, ()))
    m2 = m1.also(early)
    for n in range(1, len(m.I)):
        # exactly the first n samples are not later than the image
        k = m2.also(tm.and_(tm.le(m.I[n - 1].t, f.t), tm.lt(f.t, m.I[n].t)))
        if k.cond is False:
            continue
        left, right = m.I[n - 1], m.I[n]
        gap = tm.lt(1e-6, tm.fn('fabs', tm.sub(left.t, f.t)))
        rate = tm.div(tm.sub(f.t, left.t), tm.sub(right.t, left.t))

        def lerp(a, b):
            return tm.madd(tm.mscale(tm.sub(1.0, rate), a), tm.mscale(rate, b))
        mid = Msg(None, f.t, lerp(left.gyro, right.gyro), lerp(left.accel, right.accel), 'interpolated sample')
        a = k.also(gap)
        out.append((a.copy(F=m.F[1:], I=(mid,) + m.I[n:]), True, f, m.I[:n] + (mid,)))
        b = k.also(tm.not_(gap))
        out.append((b.copy(F=m.F[1:], I=(left,) + m.I[n:]), True, f, m.I[:n]))
    return [x for x in out if x[0].cond is not False]


def msgcond(w, st, p, msg):
    """condition under which the delivered pointer is the expected message"""
    if not (isinstance(p, tuple) and p and p[0] == 'P'):
        return False
    if msg.oid is not None and p[1] == msg.oid:
        return same(w.get(p[1], 'timeStamp', st), msg.t, 0.0 if msg.oid else 1e-12)
    c = same(w.get(p[1], 'timeStamp', st), msg.t, 1e-12)
    if msg.gyro is not None:
        c = tm.and_(c, same(w.get(p[1], 'gyro', st), msg.gyro), same(w.get(p[1], 'accel', st), msg.accel))
    elif msg.oid is not None:
        return False
    return c


class Hist:
    """runs a history of calls on a loader and compares each answer with the model"""

    def __init__(self, ck, name, aspects, n=384, clock=None):
        self.w = w = ck.world(name, draw=draw, n=n if clock is None else 2, seeds=1)
        self.clock = clock        # time stamps of the two streams, if they are given numbers
        self.ck, self.aspects = ck, aspects
        self.dl = w.new('DataLoader')
        self.period = tm.leaf('period', 's', 'period') if clock is None else 0.005
        w.set(self.dl, 'imuPeriod', self.period)
        self.pairs = [(w.st, Model())]
        self.k = 0

    def msg(self, kind, shape='ok'):
        w = self.w
        self.k += 1
        nm = '%s%d' % (kind.lower(), self.k)
        out = []
        tick = next(self.clock[kind]) if self.clock is not None else None
        # the same message is created in every state
        for st, m in self.pairs:
            sav, w.st = w.st, st
            if kind == 'I':
                o = w.new('IMUMessage')
            else:
                o = w.new('FeaturesMessage')
                if shape == 'bad':
                    w.push(o, 'ids', 3)
                elif shape == 'one':
                    w.push(o, 'ids', 3)
                    w.push(o, 'observes', ('P', w.new('FeatureObserve')))
            w.sym(o, nm, {'timeStamp': 'time'})
            if self.clock is not None:
                w.set(o, 'timeStamp', tick)
            c = w.cell(('P', o))
            g = (w.get(o, 'gyro'), w.get(o, 'accel')) if kind == 'I' else (None, None)
            out.append((st, m, c, Msg(o, w.get(o, 'timeStamp'), g[0], g[1], nm)))
            w.st = sav
        return out

    def prune(self, pairs):
        out = []
        w = self.w
        for st, m in pairs:
            if w.reach(tm.and_(st.gate(), m.cond)):
                out.append((st, m))
        self.pairs = out

    def push(self, kind, shape='ok'):
        w = self.w
        nxt = []
        fn = 'DataLoader::PushIMUMessage' if kind == 'I' else 'DataLoader::PushFeaturesMessage'
        for st, m, c, msg in self.msg(kind, shape):
            for ex in w.run(fn, self.dl, [('CELL', c)], st=st):
                if shape == 'bad':
                    nxt.append((ex.st, m))
                    if 'origin' in self.aspects:
                        w.req(ex, same(w.get(msg.oid, 'timeStamp', ex.st), msg.t, 0.0), 'a message that is not well-formed must not be shifted', w.where(msg.oid, 'timeStamp', ex.st), extra=m.cond)
                    continue
                for k, shifted in push(m, kind, msg):
                    if 'origin' in self.aspects:
                        w.req(ex, same(w.get(msg.oid, 'timeStamp', ex.st), shifted.t, 1e-12), 'the time stamp of message %s must be shifted by the common origin, once' % msg.name,
                              w.where(msg.oid, 'timeStamp', ex.st), extra=k.cond)
                    nxt.append((ex.st, k))
        self.prune(nxt)

    def null(self, kind):
        w = self.w
        nxt = []
        fn = 'DataLoader::PushIMUMessage' if kind == 'I' else 'DataLoader::PushFeaturesMessage'
        for st, m in self.pairs:
            sav, w.st = w.st, st
            c = w.cell(None)
            w.st = sav
            for ex in w.run(fn, self.dl, [('CELL', c)], st=st):
                nxt.append((ex.st, m))
        self.prune(nxt)

    def clear(self):
        w = self.w
        nxt = []
        for st, m in self.pairs:
            for ex in w.run('DataLoader::Clear', self.dl, [], st=st):
                k = Model()
                k.cond = m.cond
                nxt.append((ex.st, k))
        self.prune(nxt)

    def pop(self, packed=False, reuse=False, what='delivery'):
        w = self.w
        fn = 'DataLoader::PopPackedMessage' if packed else 'DataLoader::PopOneMessage'
        nxt = []
        for st, m in self.pairs:
            sav, w.st = w.st, st
            out = w.cell(None)
            if reuse:
                old = w.new('CombinedMessage')
                w.push(old, 'imuMeas', ('P', w.new('IMUMessage')))
                w.set(old, 'featMeas', ('P', w.new('FeaturesMessage')))
                out = w.cell(('P', old))
            w.st = sav
            for ex in w.run(fn, self.dl, [('CELL', out)], st=st):
                for k, ok, feat, imus in (pop_packed if packed else pop_one)(m, self.period):
                    g = k.cond
                    r = same(ex.ret, ok)
                    f = w.lastfn
                    wh = (f['fn'], f['file'], f['line'])
                    good = w.req(ex, r, '%s must %s here (%s pending)' % (f['fn'].split('::')[-1], 'deliver' if ok else 'report failure', self.pend(m)), wh, extra=g)
                    if good and ok:
                        p = ex.st.heap[out][1]
                        if not (isinstance(p, tuple) and p[0] == 'P'):
                            w.req(ex, False, 'no message object was delivered', wh, extra=g)
                        else:
                            fm = w.get(p[1], 'featMeas', ex.st)
                            w.req(ex, fm is None if feat is None else msgcond(w, ex.st, fm, feat),
                                  'delivered feature message: expected %s (%s pending)' % (feat.name if feat else 'none', self.pend(m)), wh, extra=g)
                            im = w.seqv(p[1], 'imuMeas', ex.st)
                            if len(im) != len(imus):
                                w.req(ex, False, 'delivered IMU samples: expected [%s], got %d (%s pending)' % (', '.join(x.name for x in imus), len(im), self.pend(m)), wh, extra=g)
                            else:
                                for x, y in zip(im, imus):
                                    w.req(ex, msgcond(w, ex.st, x, y), 'delivered IMU sample: expected %s (%s pending)' % (y.name, self.pend(m)), wh, extra=g)
                    nxt.append((ex.st, k))
        self.prune(nxt)

    def pend(self, m):
        return 'feature [%s], imu [%s]' % (' '.join(x.name for x in m.F), ' '.join(x.name for x in m.I))

    def run(self, ops):
        for o in ops:
            if o in 'FI':
                self.push(o, 'one' if self.k % 2 else 'ok')
            elif o == 'B':
                self.push('F', 'bad')
            elif o == 'n':
                self.null('I')
            elif o == 'N':
                self.null('F')
            elif o == 'p':
                self.pop()
            elif o == 'r':
                self.pop(reuse=True)
            elif o == 'P':
                self.pop(packed=True)
            elif o == 'R':
                self.pop(packed=True, reuse=True)
            elif o == 'C':
                self.clear()
            if self.ck.viol:
                return
        self.ck.nhist = getattr(self.ck, 'nhist', 0) + 1


def histories(ck, hs, aspects):
    for h in hs:
        try:
            Hist(ck, 'history ' + h, aspects).run(h)
        except Unmod as x:
            ck.undecided('history %s: %s' % (h, x))
        if len(ck.viol) > 5:
            return


def recordings(ck, hs, aspects, images=0.05):
    """long runs, as a sensor delivers them: given time stamps, so nothing forks"""
    def rising(start, step):
        while True:
            yield start
            start += step
    for name, h in hs:
        try:
            Hist(ck, 'recording: ' + name, aspects, clock={'I': rising(100.0, 0.005), 'F': rising(100.0012 + images, images)}).run(h)
        except Unmod as x:
            ck.undecided('recording %s: %s' % (name, x))


def interleave(a, b):
    """all interleavings of two words"""
    if not a or not b:
        return [a + b]
    return [a[0] + x for x in interleave(a[1:], b)] + [b[0] + x for x in interleave(a, b[1:])]


LONG = [('a backlog', ('I' * 10 + 'F') * 7 + 'p' * 80), ('images first', 'F' * 25 + 'I' * 60 + 'p' * 90), ('live', 'I' * 11 + ('Fpp' + 'Ip' * 10) * 3 + 'C' + 'IIFppp')]


def c01(ck):
    hs = []
    for s in ('II', 'FF', 'IIF', 'FFI', 'IFF', 'FII'):
        for x in set(interleave(s, 'p')):
            hs.append(x + 'ppp')
    hs += ['IIIpppp', 'FFFpppp', 'IFIFpppp', 'IpIpIp', 'FpFpFp', 'ICIp', 'FCFIpp', 'IIICIIpp', 'IBIpp', 'FBFpp', 'InIpp', 'FNFpp', 'FpBFp']
    hs += ['IFIPIpp', 'IIFIPIppp']
    if ck.thorough:
        hs += sorted({x + 'pppp' for s in ('IIFF', 'IFIF', 'FFII', 'IIIF') for x in interleave(s, 'pC')})
        hs += ['IIIIppppp', 'FFFFppppp', 'IFIFIFpppppp', 'IIFIPFIPIpp']
    histories(ck, hs, ('queue',))
    recordings(ck, LONG, ('queue',))
    ck.run(streams_apart)


def streams_apart(ck):
    """two loaders never influence each other"""
    for kind, fn in (('I', 'DataLoader::PushIMUMessage'), ('F', 'DataLoader::PushFeaturesMessage')):
        h = Hist(ck, 'two loaders, ' + kind, ('queue',))
        w = h.w
        a = h.dl
        b = w.new('DataLoader')
        w.set(b, 'imuPeriod', h.period)
        for who in (a, b, a, b):
            h.dl = who
            h.models = getattr(h, 'models', {a: [Model()], b: [Model()]})
            h.pairs = [(st, m) for st, m in h.pairs]
            break
        # push on a, then the history of b must behave as if a did not exist, and the other way round
        h.dl = a
        h.push(kind)
        after = h.pairs
        h.dl = b
        h.pairs = [(st, Model()) for st, _ in after]
        h.push(kind)
        h.push(kind)
        h.pop()
        h.pop()
        h.pop()


def c02(ck):
    hs = []
    for s in ('IF', 'FI', 'IIF', 'IFF', 'FII', 'IIFF'):
        for x in set(interleave(s, 'p')):
            hs.append(x + 'ppp')
    hs += ['p', 'r', 'IrFrr', 'FrIrr', 'IFIFrpppp', 'FFIIppppp', 'IpFpIpFp', 'CpIFp', 'IFCp']
    if ck.thorough:
        hs += sorted({x + 'ppppp' for s in ('IIIFF', 'IFIFI') for x in interleave(s, 'p')})
    histories(ck, hs, ('queue',))
    recordings(ck, LONG, ('queue',))
    from .backend import c02_handover
    c02_handover(ck)


def c03(ck):
    hs = ['I', 'F', 'II', 'FF', 'IF', 'FI', 'IIF', 'FIF', 'BI', 'BF', 'BFI', 'nI', 'NF', 'IBFI', 'ICI', 'ICF', 'FCI', 'FCF', 'IFCIF', 'IpI', 'FpFI', 'IFpCIFpp',
          'CICFp', 'ICp', 'FICp', 'IFICIFpp', 'BCI', 'IIFPI', 'IFIPCIFI']
    if ck.thorough:
        import itertools
        hs += [''.join(x) for n in (3, 4) for x in itertools.product('IFBC', repeat=n) if x[-1] != 'C' and 'C' in x]
    histories(ck, hs, ('origin', 'queue'))
    recordings(ck, LONG[:1], ('origin', 'queue'))


def c04(ck):
    hs = ['P', 'IP', 'FP', 'IFP', 'FIP', 'IIFP', 'IFIPp', 'IFIPpp', 'IIFIPppp', 'IFIPPp', 'IFIFIPPp', 'IIFIIPIPp', 'FIIPpp', 'IIFFIIPPpp', 'IFIPFIPp', 'IFIRp', 'RIFIR', 'FFIIPPpp', 'IFPIPp', 'IFICPIFIP']
    if ck.thorough:
        hs += sorted({x for s in ('IFIFI', 'IIFIFI', 'IIIFI') for x in (y + 'Ppp' for y in interleave(s, 'P'))})
    histories(ck, hs, ('queue',))
    recordings(ck, [('a slow camera', 'I' * 135 + 'F' * 4 + 'PPPP')], ('queue',), images=0.17)
    recordings(ck, [('bundles of a live stream', ('I' * 10 + 'F') + ('I' * 10 + 'FP') * 3), ('bundles of a backlog', ('I' * 10 + 'F') * 4 + 'I' * 4 + 'P' * 5 + 'p'), ('many images', 'I' * 45 + 'F' * 7 + 'PPPP')], ('queue',))
