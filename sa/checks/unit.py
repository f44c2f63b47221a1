"""C12: every attitude that is kept has unit norm.

Two parts.  A qualifier analysis over every store to a quaternion that outlives the expression (members, references,
container elements), independent of any shape: the value stored is the product of unit quaternions, an inverse, a copy,
or normalised, or the same location is normalised before the block ends.  And the norm of every attitude reachable from
the object at every exit of its operations, over the shapes of the other checks."""
from .. import term as tm
from ..core import Skip, NS
from . import ref
from .build import HINT, INITIALIZED


# ---- qualifiers ----
def isq(n):
    return isinstance(n, dict) and base(n).startswith('Q:')


def base(n):
    return str(n.get('t', '')).replace('&', '').replace('c:', '')


def strip(n):
    """lvalue without positions, for comparison"""
    if isinstance(n, dict):
        return tuple(sorted((k, strip(v)) for k, v in n.items() if k not in ('l', 'key', 'fn', 't', 'const', 'rec', 'lv')))
    if isinstance(n, list):
        return tuple(strip(x) for x in n)
    return n


KEEP = ('inverse', 'conjugate')
UNIT = ('normalized', 'Identity', 'FromTwoVectors', 'UnitRandom')
READ = ('x', 'y', 'z', 'w', 'coeffs', 'vec')


class Qual:
    """local quaternion variables of one function: unit or not, in program order"""

    def __init__(self, ck, f):
        self.ck, self.f = ck, f
        self.env = {}
        self.refs = set()
        self.open = []           # stores still to be normalised: (lvalue, line)
        for p in f.get('params', []):
            if isq(p):
                self.env[p['id']] = True
                if '&' in p['t']:
                    self.refs.add(p['id'])
        self.done = []

    def unit(self, e):
        k = e.get('k') if isinstance(e, dict) else None
        if k == 'var':
            return self.env.get(e.get('id'), bool(e.get('ref')))
        if k == 'mem':
            return True
        if k == 'cond':
            return self.unit(e.get('a')) and self.unit(e.get('b')) if isq(e.get('a')) else False
        if k == 'cast':
            return self.unit(e.get('e')) if isq(e.get('e')) else False
        if k == 'ctor':
            a = e.get('args', [])
            return len(a) == 1 and isq(a[0]) and self.unit(a[0])
        if k == 'call':
            nm, a = e.get('name'), e.get('args', [])
            if nm in UNIT:
                return True
            if nm in KEEP:
                return isq(e.get('obj')) and self.unit(e['obj'])
            if nm == 'operator*':
                xs = ([e['obj']] if e.get('obj') else []) + a
                return len(xs) == 2 and all(isq(x) and self.unit(x) for x in xs)
            if nm == 'operator=':
                return bool(a) and isq(a[0]) and self.unit(a[0])
            if nm in ('operator[]', 'at', 'front', 'back', 'operator*'):
                return not isq(e.get('obj'))
        return False

    def local(self, e):
        return isinstance(e, dict) and e.get('k') == 'var' and e.get('id') in self.env and e['id'] not in self.refs and not e.get('ref')

    def stmt(self, s):
        if isinstance(s, list):
            for x in s:
                self.stmt(x)
            return
        if not isinstance(s, dict):
            return
        k = s.get('k')
        if k == 'decl':
            for v in s.get('vars', []):
                i = v.get('init')
                if isq(v):
                    self.expr(i)
                    r = '&' in v['t'] or v.get('ref')
                    self.env[v['id']] = bool(isinstance(i, dict) and (r or self.unit(i)))
                    if r:
                        self.refs.add(v['id'])
                else:
                    self.expr(i)
            return
        if 'b' in s and isinstance(s['b'], list) and k in (None, 'block'):
            n = len(self.open)
            self.stmt(s['b'])
            self.close(n)
            return
        if k in ('if', 'for', 'while', 'do', 'rfor', 'switch', 'case', 'default'):
            for kk, v in s.items():
                if isinstance(v, (dict, list)):
                    n = len(self.open)
                    self.stmt(v)
                    self.close(n)
            return
        self.expr(s)

    def close(self, n):
        for e, l in self.open[n:]:
            self.done.append((None, l, 'stored without unit norm'))
        del self.open[n:]

    def part(self, e, l):
        """e, an lvalue, is written: a part of a quaternion?"""
        while isinstance(e, dict) and e.get('k') == 'call' and e.get('obj') is not None:
            o = e['obj']
            if isq(o) and e.get('name') in READ:
                if self.local(o):
                    self.env[o['id']] = False
                else:
                    self.open.append((strip(o), l))
                return
            e = o

    def expr(self, e):
        if isinstance(e, list):
            for x in e:
                self.expr(x)
            return
        if not isinstance(e, dict):
            return
        if e.get('k') in ('decl', 'block', 'if', 'for', 'while', 'do', 'rfor', 'switch'):
            return self.stmt(e)
        if e.get('k') == 'asg':
            self.part(e.get('a'), e.get('l', 0))
        if e.get('k') == 'call':
            obj, nm, l = e.get('obj'), e.get('name'), e.get('l', 0)
            if isq(obj) and nm == 'operator=':
                a = e.get('args', [None])[0]
                self.expr(a)
                self.expr({k: v for k, v in obj.items() if k != 'k'})
                u = isq(a) and self.unit(a)
                if self.local(obj):
                    self.env[obj['id']] = u
                elif u:
                    self.done.append((True, l, 'the product, copy or normalised form of unit quaternions'))
                else:
                    self.open.append((strip(obj), l))
                return
            if isq(obj) and nm == 'normalize':
                if self.local(obj):
                    self.env[obj['id']] = True
                else:
                    s = strip(obj)
                    for x in [x for x in self.open if x[0] == s]:
                        self.open.remove(x)
                        self.done.append((True, x[1], 'normalised after the store'))
                return
            if nm and nm.startswith('operator') and nm.endswith(('=', '<<')) and nm not in ('operator==', 'operator!=', 'operator<=', 'operator>='):
                self.part(obj, l)
            if isq(obj) and nm == 'setIdentity' and self.local(obj):
                self.env[obj['id']] = True
            if nm in ('emplace_back', 'push_back') and str((obj or {}).get('t', '')).startswith('vec<Q'):
                a = e.get('args', [None])[0]
                self.done.append((True if isq(a) and self.unit(a) else None, l, 'appended'))
        for v in e.values():
            if isinstance(v, (dict, list)):
                self.expr(v)


def qualify(ck):
    stores = []
    for f in ck.prog.fns.values():
        if not f['fn'].startswith(NS) or f['fn'].startswith(NS + 'Utility::'):
            continue
        q = Qual(ck, f)
        q.stmt(f.get('body'))
        q.close(0)
        for ok, l, why in q.done:
            stores.append((f, ok, l, why))
            ck.sites += 1
    ck.rules.append('%d stores to kept quaternions, %d typed as unit: %s' % (len(stores), sum(1 for s in stores if s[1]),
                    '; '.join(sorted({'%s:%d' % (s[0]['fn'].replace(NS, ''), s[2]) for s in stores}))))
    return stores


# ---- norms ----
def attitudes(w, st, roots):
    """(path, object id, value) of every quaternion reachable"""
    out, seen = [], set()

    def go(o, path):
        if o in seen:
            return
        seen.add(o)
        ob = st.heap.get(o)
        if ob is None:
            return
        if ob[0] == 'v':
            v = ob[1]
            if isinstance(v, tm.T) and v.sh == 'q':
                out.append((path, o, v))
            elif isinstance(v, tuple) and v and v[0] in ('P', 'REF') and isinstance(v[1], int):
                go(v[1], path + '->')
        elif ob[0] == 'r':
            for f, x in ob[2].items():
                go(x, '%s.%s' % (path, f) if path else f)
        elif ob[0] == 's':
            for i, x in enumerate(ob[3]):
                go(x, '%s[%d]' % (path, i))
        elif ob[0] == 'm':
            for k, x in ob[4]:
                r = st.heap.get(x)
                go(r[2]['second'] if r and r[0] == 'r' and 'second' in r[2] else x, '%s[%s]' % (path, k))
    for o in roots:
        go(o, '')
    return out


def norms(w, ex, roots, start, msg, skip=(), extra=True):
    """obligation for every attitude that the operation changed or made"""
    n = 0
    for path, o, v in attitudes(w, ex.st, roots):
        if any(s in path for s in skip):
            continue
        old = start.heap.get(o)
        if old is not None and old[0] == 'v' and old[1] is v:
            continue
        n += 1
        w.req(ex, tm.close(ref.norm2(v), 1.0, 1e-6), '%s: the attitude %s has unit norm' % (msg, path.replace('->', '').strip('.')), w.where(o, '', ex.st), extra=extra)
    return n


def c12(ck):
    from .motion import runs, Filter, smp
    from .update import Upd
    from .backend import initworld, pnpworld, Once, idraw
    from .geometry import Pose, Robust
    from .config import Cfg, CORE, good, Files
    stores = qualify(ck)

    def body(q, exits, kind, data):
        for ex in exits:
            if ex.st.taint is not None or q.w.reach(ex.st.gate()):
                norms(q.w, ex, [q.pq], data[0], kind, skip=('initState',))

    def filt(ck):
        f = Filter(ck, 'first sample', n=512)
        w = f.w
        s = smp(w, 's')
        w.like['s.accel'] = (tm.madd(tm.mleaf('dir', 3, 1, 'gaccel'), w.get(f.at, 'bias_a')), 0)
        sts = []
        for ex in f.add(s):
            norms(w, ex, [f.at], w.st, 'first sample')
            if f.its(ex.st):
                sts.append(ex.st)
        for st in sts:
            t = smp(w, 't', s[2], th='posstep')
            for ex in f.add(t, st.copy()):
                norms(w, ex, [f.at], st, 'second sample')
        for n in (1, 2, 4):
            for zero in (False, True):
                f = Filter(ck, 'sample after %d%s' % (n, ', zero acceleration' if zero else ''), items=n)
                w = f.w
                s = smp(w, 's', w.get(f.items[-1], 'timeStamp'))
                if zero:
                    s = (tm.mzero(3, 1),) + s[1:]
                for ex in f.add(s):
                    norms(w, ex, [f.at], w.st, 'next sample')
                w.coverage(w.last, lambda ex: len(f.its(ex.st)) > n, 'no sample taken')
        # directions that are nearly or exactly opposite to gravity
        for sign in (1.0, -1.0):
            f = Filter(ck, 'first sample %s' % ('level' if sign > 0 else 'upside down'), n=64)
            w = f.w
            s = smp(w, 's')
            w.like['s.accel'] = (tm.madd(tm.mscale(sign, f.g), w.get(f.at, 'bias_a')), 0)
            for ex in f.add(s):
                norms(w, ex, [f.at], w.st, 'first sample')

    def lookup(ck):
        f = Filter(ck, 'attitude at a time', items=3, times=True)
        w = f.w
        old = tm.qleaf('given', 'unitq')
        for thr in ('tol',):
            c = w.cell(old)
            for ex in w.run('AttitudeEstimate::GetAttitude', f.at, [tm.leaf('when', 's', 'exact'), tm.leaf('thr', 's', thr), ('CELL', c)]):
                v = ex.st.heap[c][1]
                w.req(ex, tm.close(ref.norm2(v), 1.0, 1e-6), 'the attitude handed out has unit norm', w.where(c, '', ex.st))

    def upds(ck):
        S = [('none', dict(cams=1, nframes=3, window=2)), ('one', dict(cams=2, nframes=3)), ('two', dict(cams=2, nframes=3, window=2)), ('mono', dict(cams=1, nframes=3, window=2)), ('old', dict(cams=2, nframes=3, window=9, nitems=3))]
        if ck.thorough:
            S += [('one', dict(cams=3, nframes=4, window=3)), ('short', dict(cams=2, nframes=3, window=3)), ('foreign', dict(cams=2, nframes=3, window=2)), ('two', dict(cams=2, nframes=3, window=2, few=99))]
        for tracks, kw in S:
            b = Upd(ck, 'attitudes, tracks %s, %d cameras' % (tracks, kw['cams']), tracks, **dict(dict(nitems=3, window=9), **kw))
            k = 0
            for ex in b.exits:
                if b.ok(ex) and b.reach(ex):
                    k += norms(b.w, ex, [b.vu], b.entry, 'update')
            b.w.coverage(b.exits, b.ok, 'no update reached')

    def init(ck):
        for cams in (1, 2):
            b = initworld(ck, 'attitudes of an initialization, %d cameras' % cams, natt=4, cams=cams)
            for ex in b.exits:
                if b.reach(ex):
                    norms(b.w, ex, [b.b], b.w.st, 'initialization')
        for cams in (1, 2):
            b = pnpworld(ck, 'attitudes of a start from %d cameras' % cams, 11, cams)
            for ex in b.exits:
                if b.reach(ex):
                    norms(b.w, ex, [b.b], b.w.st, 'initialization')
            b.w.coverage(b.exits, lambda ex: b.status(ex) == INITIALIZED, 'no start reached')

    def frames(ck):
        for nframes in (0, 1, 3):
            b = Once(ck, 'a frame arrives, %d frames' % nframes, nframes=nframes, cams=1, tracks={4: (1, [(0,)] * nframes)} if nframes else {}, sees={4: (0,)}, nitems=2, natt=2, n=96, seeds=1,
                     pre=lambda w, b: w.stub('MultiViewVisionUpdate::Update', lambda eng, st, node, this, locs: [(True, st)]))
            for ex in b.exits:
                if b.reach(ex):
                    norms(b.w, ex, [b.b], b.w.st, 'new frame')

    def solver(ck):
        for fn in ('EstimatePose', 'EstimatePoseKernel'):
            for n, it in ((4, 1), (5, 2)):
                a = Pose(ck, 'attitude of %s, %d pairs, %d iterations' % (fn, n, it), n, iters=it)
                for ex in a.run(fn):
                    if a.ok(ex) is True:
                        norms(a.w, ex, [a.qc], a.w.st, 'solved pose')
                a.w.coverage(a.w.last, lambda ex: a.ok(ex) is True, 'no success reached')
        a = Robust(ck, 'attitude of EstimatePoseRANSAC', 6, 2)
        for ex in a.run('EstimatePoseRANSAC', a.w.alloc('vec<b>')):
            if a.ok(ex) is True:
                norms(a.w, ex, [a.qc], a.w.st, 'solved pose')

    def conf(ck):
        F = {k: good(k) for k in CORE}
        c = None
        for n in (1, 2):
            G = dict(F)
            if n == 1:
                G.pop('T_bc1')
            c = Cfg(ck, 'attitudes, %d cameras' % n, G)
            w = c.w
            for k in range(n):
                R = tm.qmat(tm.qleaf('file.q%d' % k, 'unitq'))
                for i in range(3):
                    for j in range(3):
                        w.like['T_bc%d[%d,%d]' % (k, i, j)] = (tm.mc(R, i, j), 0.01)
            ee = c.read()
            for ex in ee:
                norms(w, ex, [c.b, c.cf], c.start, 'configuration')
            w.coverage(ee, lambda ex: any('extrinsics' in p for p, _, _ in attitudes(w, ex.st, [c.b])), 'no extrinsics read')

    ck.run(lambda ck: runs(ck, body), filt, lookup, upds, init, frames, solver, conf)
    for f, ok, l, why in stores:
        ck.nob += 1
        nm = f['fn'].replace(NS, '')
        if ok:
            ck.nproved += 1
        elif f['key'] in ck.fns:
            ck.ntested += 1
        else:
            ck.undecided('%s:%d: a quaternion is stored whose norm neither the qualifiers nor a shape decide' % (nm, l))
