"""C05-C08, C30: window frames, feature tracks, bookkeeping of a marginalization, keyframe decision."""
import itertools
from .. import term as tm
from ..core import same, Skip
from ..engine import Unmod
from .build import SOLVED, UNSOLVED, OLDEST, NEWEST, SUBNEW, NOMARG, NEED_INIT, INITIALIZED, fmap, draw, BackendWorld

POL = {'o': OLDEST, 's': SUBNEW, 'n': NEWEST, '-': NOMARG}


class Step:
    """one feature message: {feature id: cameras} in order, possibly with repetitions, and what the update does"""

    def __init__(self, text):
        # e.g. "1:0,2:01,3:|o"  feature 1 seen by camera 0, 2 by 0 and 1, 3 by none; afterwards the oldest frame goes
        body, self.policy = text.split('|')
        self.feats = []
        for x in body.split(','):
            if x:
                f, c = x.split(':')
                self.feats.append((int(f), None if c == 'N' else [int(k) for k in c]))


class History:
    """drives a backend through RunOnce with the vision update replaced by its outcome"""

    def __init__(self, ck, steps, aspects):
        self.ck, self.aspects = ck, aspects
        self.w = w = ck.world('history ' + ' '.join(steps), n=1, seeds=1)
        self.b = w.new('Backend')
        w.set(self.b, 'status', INITIALIZED)
        w.set(w.f(self.b, 'dataloader'), 'imuPeriod', 0.005)
        self.fm, self.ftm = w.f(self.b, 'frameManager'), w.f(self.b, 'featureManager')
        self.frames = []        # model: [key, ...] oldest first
        self.ids = []           # ids the frames must carry
        self.tracks = {}        # feature id -> [(frame key, observation)]
        self.t = 0
        self.obs = {}
        self.known = {}         # frame object -> key
        self.st = w.st
        for s in steps:
            if not self.step(Step(s)):
                break

    def run1(self, fn, this, args):
        exits = [e for e in self.w.run(fn, this, args, st=self.st) if self.w.reach(e.st.gate())]
        if len(exits) != 1:
            self.ck.undecided('%s: %d exits of %s' % (self.w.name, len(exits), fn))
            return None
        self.st = exits[0].st
        return exits[0]

    def message(self, step):
        w, st = self.w, self.st
        self.t += 1
        self.key = 'f%d' % self.t
        old = w.st
        w.st = st
        try:
            m = w.new('FeaturesMessage')
            w.set(m, 'timeStamp', float(self.t))
            self.reported = {}
            for f, cams in step.feats:
                if cams is None:
                    w.push(m, 'ids', f)
                    w.push(m, 'observes', None)
                    continue
                o = w.new('FeatureObserve')
                for c in cams:
                    z = tm.mleaf('z[%d,%d,%d]#%d' % (f, self.t, c, len(self.obs)), 2, 1, 'norm')
                    w.mput(o, 'norms', c, z)
                self.obs[o] = (f, self.key)
                w.push(m, 'ids', f)
                w.push(m, 'observes', ('P', o))
                if cams and f not in self.reported:
                    self.reported[f] = o
        finally:
            w.st = old
        return m

    def step(self, s):
        w = self.w
        m = self.message(s)
        fail = s.policy == 'x'

        def update(eng, st, node, this, locs):
            if not fail:
                w.set(this, 'margPolicy', POL[s.policy], st)
            return [(not fail, st)]
        w.stub('MultiViewVisionUpdate::Update', update)
        if s.policy == 'i':           # not initialised: the initialisation fails
            w.set(self.b, 'status', NEED_INIT, self.st)
            w.eng.stubs['ESKF_VIO_BACKEND::Backend::Initialize'] = lambda eng, st, node, this, locs: [(False, st)]
        if self.run1('Backend::GetFeaturesMessage', self.b, [('P', m)]) is None:
            return False
        ex = self.run1('Backend::RunOnce', self.b, [])
        if ex is None:
            return False
        w.set(self.b, 'status', INITIALIZED, self.st)
        # what must have happened
        prev = self.frames[-1] if self.frames else None
        self.ids.append(self.ids[-1] + 1 if self.ids else 1)
        self.frames.append(self.key)
        for f, o in self.reported.items():
            tr = self.tracks.get(f)
            if tr and tr[-1][0] == prev:
                tr.append((self.key, o))
            else:
                self.tracks[f] = [(self.key, o)]
        if s.policy in 'xi':
            while len(self.frames) > 1:
                self.drop(0)
        elif s.policy == 'o':
            self.drop(0)
        elif s.policy == 's':
            self.drop(len(self.frames) - 2)
        elif s.policy == 'n':
            self.drop(len(self.frames) - 1)
        return self.compare(ex, s)

    def drop(self, i):
        k = self.frames.pop(i)
        # the ids of the frames after the removed one are shifted, unless it was the oldest
        if i == 0:
            self.ids.pop(0)
        else:
            self.ids.pop()
        for f in list(self.tracks):
            self.tracks[f] = [e for e in self.tracks[f] if e[0] != k]
            if not self.tracks[f]:
                del self.tracks[f]

    def compare(self, ex, s):
        w, st, A = self.w, self.st, self.aspects
        n0 = len(self.ck.viol)
        fw = ('ESKF_VIO_BACKEND::Backend::RunOnce', '?', 0)
        frames = w.seqv(self.fm, 'frames', st)
        fo = [p[1] if isinstance(p, tuple) and p[:1] == ('P',) else None for p in frames]
        if None in fo:
            w.req(ex, False, 'the window holds no null frame')
            return False
        keys = [self.known.setdefault(o, self.key) for o in fo]
        ids = [w.get(o, 'id', st) for o in fo]
        if 'frames' in A:
            w.req(ex, ids == list(range(ids[0], ids[0] + len(ids))) if ids else True, 'frame ids increase by one: found %s' % ids, self.at('frames'))
        if 'which' in A:
            w.req(ex, keys == self.frames, 'after policy "%s" the window holds the frames %s, expected %s' % (s.policy, keys, self.frames), self.at('frames'))
        feats = w.mitems(self.ftm, 'features', st)
        if 'tracks' in A:
            w.req(ex, set(feats) == set(self.tracks), 'features with observations: %s, expected %s' % (sorted(feats), sorted(self.tracks)), self.at('features'))
        for f, p in feats.items():
            fo_ = p[1]
            obs = [o[1] if o is not None else None for o in w.seqv(fo_, 'observes', st)]
            first = w.get(fo_, 'firstFrameID', st)
            if 'tracks' in A:
                for k, o in enumerate(obs):
                    at = self.obs.get(o, ('?', '?'))
                    fr = keys[ids.index(first + k)] if first + k in ids else None
                    w.req(ex, at == (f, fr), 'observation %d of feature %d is the one reported by the frame with id %s' % (k, f, first + k), w.where(fo_, 'firstFrameID', st) or self.at('features'))
                w.req(ex, [o for _, o in self.tracks.get(f, [])] == obs, 'feature %d holds the observations of its uninterrupted track in the window' % f, self.at('features'))
            if 'count' in A:
                n = sum(len(w.mitems(o, 'norms', st)) for o in obs if o is not None)
                w.req(ex, w.get(fo_, 'observeNum', st) == n, 'observation count of feature %d: %s recorded, %d stored' % (f, w.get(fo_, 'observeNum', st), n), w.where(fo_, 'observeNum', st))
        if 'tracks' in A and fo and s.policy in '-os' and keys and keys[-1] == self.key:
            links = w.mitems(fo[-1], 'features', st)
            w.req(ex, set(links) == set(self.reported), 'the new frame is linked to the features accepted from its message', self.at('frames'))
            w.req(ex, all(feats.get(f) == p for f, p in links.items()), 'links of the new frame lead to the features of the manager', self.at('frames'))
        if 'lookup' in A:
            for i in sorted({0, 1} | set(ids) | {x + 1 for x in ids} | {x - 1 for x in ids if x} | {ids[-1] + 1 if ids else 1, 4294967295}):
                for e2 in w.run('FrameManager::GetFrame', self.fm, [i], st=st):
                    want = ('P', fo[ids.index(i)]) if i in ids else None
                    w.req(e2, e2.ret == want, 'looking up frame %d among %s' % (i, ids))
        return len(self.ck.viol) == n0

    def at(self, what):
        """place of the last store to the container"""
        f = self.ck.prog.find('Backend::RunOnce', 0)
        return (f['fn'], f['file'], f['line'])


STEPS = [
    ['1:0,2:01|-', '1:0,2:0,3:1|-', '1:01,3:1,4:0|-', '1:0,2:01,4:0|o', '2:0,3:1,4:01|o', '1:0,2:0,3:0,4:0|o'],
    ['1:0,2:01|-', '1:0,2:0,3:1|-', '1:01,3:1,4:0|-', '1:0,2:01,4:0|s', '2:0,3:1,4:01|s', '1:0,2:0,3:0,4:0|s'],
    ['1:0,2:01|-', '1:0,2:0,3:1|-', '1:01,3:1,4:0|n', '1:0,2:01,4:0|n', '2:0,3:1,4:01|-', '1:0,2:0,3:0,4:0|s'],
    ['1:0,2:0,3:0|-', '1:0,3:01|-', '1:0,2:1,3:0|-', '1:0,2:0|s', '1:0,2:0,3:0|o', '3:0|s', '1:0,2:0,3:0|-'],
    ['1:0|-', '2:0|-', '3:0|-', '4:0|s', '5:0|s', '1:0,2:0,3:0,4:0,5:0|o', '1:0,3:0|s'],
    ['1:0,1:1,2:|-', '1:01,2:0,1:0|-', '2:,1:0|-', '2:0,1:0|o', '|s', '1:0,2:0|-'],
    ['1:N,2:0|-', '2:N,1:0|-', '1:0,2:0,3:N|s', '|-', '|o', '1:0|o'],
    ['1:01,2:01,3:01|-', '1:01,2:1,3:0|-', '1:0,2:01,3:|x', '1:0,2:0,3:0|-', '1:1,3:01|o'],
    ['1:0,2:0|i', '1:0,2:01|i', '2:0,3:0|i', '1:0,2:0,3:0|-', '1:0,3:0|s'],
    ['1:0|n', '1:0|-', '1:0,2:0|n', '1:0,2:0|-'],
    ['1:0,2:0|-', '1:0|-', '1:0|s', '1:0,2:0|s', '1:0,2:0|-', '2:0|s'],
    ['7:0,8:01,9:1|-', '8:0|-', '7:0,8:0,9:0|o', '7:0,9:1|o', '7:01,8:01,9:01|s'],
    ['1:012,2:12|-', '1:2,2:012|-', '1:012|s', '2:0,1:1|o'],
]


def deep(ck, aspects):
    """all histories of four messages over two features with every policy"""
    pats = ['1:0', '2:01', '1:0,2:0', '']
    for a in itertools.product(pats, repeat=3):
        for p in itertools.product('-os', repeat=2):
            steps = ['1:0,2:0|-'] + [x + '|' + q for x, q in zip(a, ('-',) + p)] + ['1:0,2:1|-']
            History(ck, steps, aspects)
            if len(ck.viol) > 20:
                return


def long(seed, n, ids, window):
    """a long recording: a full window, tracks of all lengths, features that leave and come back"""
    import random
    r = random.Random(seed)
    live, out = set(), []
    for k in range(n):
        live = {f for f in live if r.random() < 0.9} | {f for f in range(1, ids + 1) if r.random() < 0.2}
        if k < 14:
            live |= {1, 2}
        out.append(','.join('%d:%s' % (f, r.choice(('0', '1', '01', '01'))) for f in sorted(live)) + '|' + ('-' if k < window else r.choice('osos')))
    return out


def hist(ck, aspects):
    for s in STEPS + [long(1, 22, 12, 11)]:
        History(ck, s, aspects)
    if ck.thorough:
        deep(ck, aspects)


def c05(ck):
    ck.run(lambda ck: hist(ck, ('tracks',)), add_api)


def add_api(ck):
    """the feature manager on its own: lists of different lengths are refused"""
    for n, m in ((1, 0), (0, 1), (2, 1)):
        w = ck.world('AddNewFeatures with %d ids and %d observations' % (n, m), n=1, seeds=1)
        ftm = w.new('FeatureManager')
        ids, obs, out = w.alloc('vec<u32>'), w.alloc('vec<P<R:ESKF_VIO_BACKEND::FeatureObserve>>'), w.alloc('vec<P<R:ESKF_VIO_BACKEND::Feature>>')
        for i in range(n):
            w.push(ids, '', i)
        for i in range(m):
            o = w.new('FeatureObserve')
            w.mput(o, 'norms', 0, tm.mleaf('z%d' % i, 2, 1))
            w.push(obs, '', ('P', o))
        for ex in w.run('FeatureManager::AddNewFeatures', ftm, [ids, obs, 1, out]):
            w.req(ex, w.eng.truth(w.val(ex.ret, ex.st)) is False and not w.mitems(ftm, 'features', ex.st), 'lists of different lengths are refused')


def c07(ck):
    ck.run(lambda ck: hist(ck, ('frames', 'lookup')), newframe, lookups)


def newframe(ck):
    """a new frame starts from the pose and velocity of its predecessor; an empty window restarts at id 1"""
    for nf, first in ((0, 1), (1, 1), (1, 7), (3, 2)):
        w, m = fmap(ck, 'AddNewFrame to a window of %d starting at %d' % (nf, first), nframes=nf, first=first)
        f = m.blank('Frame')
        w.sym(f, 'new')
        w.set(f, 'id', 99)
        for ex in w.run('FrameManager::AddNewFrame', m.fm, [('P', f)]):
            st = ex.st
            w.req(ex, w.get(f, 'id', st) == (first + nf if nf else 1), 'id of the new frame is %s' % w.get(f, 'id', st), w.where(f, 'id', st))
            w.req(ex, w.seqv(m.fm, 'frames', st) == [('P', x) for x in m.frames + [f]], 'the new frame is appended to the window')
            w.req(ex, same(w.get(f, 'timeStamp', st), w.get(f, 'timeStamp')), 'the time stamp of the new frame is kept', w.where(f, 'timeStamp', st))
            if nf:
                for x in ('q_wb', 'p_wb', 'v_wb'):
                    w.req(ex, same(w.get(f, x, st), m.fr(-1, x)), 'the new frame starts with the %s of its predecessor' % x, w.where(f, x, st))
            for k in range(nf):
                w.unchanged(ex, m.frames[k], 'earlier frames of the window are unchanged', 'frame %d' % k)


def lookups(ck):
    for nf, first in ((0, 1), (1, 3), (4, 2), (5, 1), (12, 30)):
        w, m = fmap(ck, 'lookups in a window of %d starting at %d' % (nf, first), nframes=nf, first=first)
        for i in list(range(0, first + nf + 2)) + [4294967295]:
            for ex in w.run('FrameManager::GetFrame', m.fm, [i]):
                want = ('P', m.frames[i - first]) if first <= i < first + nf else None
                w.req(ex, ex.ret == want, 'frame %d of a window %d..%d' % (i, first, first + nf - 1))
        for ex in w.run('FrameManager::GetMaxFrameID', m.fm, []):
            w.req(ex, w.val(ex.ret, ex.st) == (first + nf - 1 if nf else 0), 'largest id of the window')
        for idx in range(nf + 2):
            for ex in w.run('FrameManager::RemoveFrame', m.fm, [idx]):
                st = ex.st
                w.req(ex, w.val(ex.ret, ex.st) is (idx < nf), 'removing frame %d of %d succeeds exactly if it exists' % (idx, nf))
                left = [x for k, x in enumerate(m.frames) if k != idx]
                w.req(ex, w.seqv(m.fm, 'frames', st) == [('P', x) for x in left], 'removing frame %d of %d removes exactly that frame' % (idx, nf))
                ids = [w.get(x, 'id', st) for x in left]
                w.req(ex, not ids or ids == list(range(ids[0], ids[0] + len(ids))), 'ids stay consecutive after removing frame %d: %s' % (idx, ids))
                w.req(ex, not ids or ids[0] == (first + 1 if idx == 0 else first), 'first id after removing frame %d of %d: %s' % (idx, nf, ids[:1]))


def keyframe_ref(w, m, k, links, prelinks):
    """(condition that the frame is a keyframe) from the statement of C30"""
    tracked = 0
    par = 0.0
    fid, pid = m.first + k, m.first + k - 1
    for f in links:
        if f in prelinks and (f, fid, 0) in m.norm and (f, pid, 0) in m.norm:
            tracked += 1
            par = tm.add(par, tm.mnorm(tm.msub(m.norm[f, fid, 0], m.norm[f, pid, 0])))
    mean = tm.div(par, float(tracked)) if tracked else None
    dist = tm.mnorm(tm.msub(m.fr(k, 'p_wb'), m.fr(k - 1, 'p_wb')))
    few = w.get(m.fm, 'minKeyframeTrackedFeatureNum')
    c = tm.lt(tracked, few)
    if mean is not None:
        c = tm.or_(c, tm.lt(w.get(m.fm, 'minKeyframeMeanParallax'), mean))
    return tm.or_(c, tm.lt(w.get(m.fm, 'maxKeyframeTranslation'), dist))


def kdraw(t, r, n):
    h = t.a[1] if len(t.a) > 1 else None
    if h == 'parthr':
        return r.uniform(0.1, 1.2, n)
    if h == 'posthr':
        return r.uniform(0.3, 3.0, n)
    if h == 'norm':
        return r.uniform(-0.6, 0.6, (n,) + t.sh)
    return None


def c30(ck):
    def shapes(ck):
        B = {1: (1, [(0,), (0,), (0,)]), 2: (1, [(0, 1), (1,), (0,)]), 3: (1, [(0,), (0, 1)]), 4: (2, [(0, 1), (0,)]), 5: (3, [(0,)]), 6: (2, [(1,), (1,)])}
        cases = [('plain', B, 1, ()), ('late ids', {f: (t[0] + 4, t[1]) for f, t in B.items()}, 5, ()), ('no tracks', {}, 1, ()),
                 ('one track', {1: (1, [(0,)] * 3)}, 1, ()), ('second camera only', {1: (1, [(1,)] * 3), 2: (1, [(0,), (1,), (0,)])}, 1, ()),
                 ('restarted track', {1: (3, [(0,)]), 2: (1, [(0,)] * 3)}, 1, ((1, 0), (1, 1)))]
        for name, tracks, first, stale in cases:
            for few in (0, 1, 2, 3):
                w, m = fmap(ck, 'keyframe decision, %s, at least %d tracked' % (name, few), nframes=3, tracks=tracks, first=first, stale=stale, draw=kdraw, n=192)
                w.set(m.fm, 'minKeyframeTrackedFeatureNum', few)
                w.set(m.fm, 'minKeyframeMeanParallax', tm.leaf('parallaxThreshold', 's', 'parthr'))
                w.set(m.fm, 'maxKeyframeTranslation', tm.leaf('translationThreshold', 's', 'posthr'))
                for k in range(3):
                    links = w.mitems(m.frames[k], 'features')
                    pre = w.mitems(m.frames[k - 1], 'features') if k else {}
                    want = True if k == 0 else keyframe_ref(w, m, k, links, pre)
                    for ex in w.run('FrameManager::IsKeyFrame', m.fm, [('P', m.frames[k])]):
                        got = w.eng.truth(w.val(ex.ret, ex.st))
                        w.req(ex, tm.iff(got, want), 'frame %d of the window is a keyframe exactly if a threshold says so' % k)
                other = m.blank('Frame')
                for a in (('P', other), None):
                    for ex in w.run('FrameManager::IsKeyFrame', m.fm, [a]):
                        w.req(ex, w.eng.truth(w.val(ex.ret, ex.st)) is False, 'a frame outside the window is not a keyframe')
    ck.run(shapes)
