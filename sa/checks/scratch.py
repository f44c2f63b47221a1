"""C28: data that survives a call only to save allocations carries no information into the next."""
from .. import term as tm
from ..core import same, qsame, Skip, NS
from ..engine import base
from . import ref
from .build import SOLVED, INITIALIZED, NEED_INIT, BackendWorld, draw
from .update import Upd
from .backend import pnpworld, Once, cdraw, idraw
from .config import Cfg, good, CORE, SHAPE

SKIP = ('R:ESKF_VIO_BACKEND::Configurator',)


def leftovers(w, ex, objs):
    """what a call leaves behind: {('static', id): content}, {('member', i, name): content}; content is a tree"""
    st = ex.st
    out = {}
    for k, o in st.glob.items():
        if k in w.st.glob or k.startswith('g:'):
            continue
        t = tree(w, st, o)
        if t is not None:
            out['static', k] = t
    for i, o in enumerate(objs):
        for nm, x in st.heap[o][2].items():
            x0 = w.st.heap[o][2].get(nm)
            if x0 is None or st.heap[x][0] == 'v' and not isinstance(st.heap[x][1], (tm.T, float, int)):
                continue
            if [d for d in w.diff(w.st, st, x0, x, '', set())]:
                t = tree(w, st, x)
                if t is not None:
                    out['member', i, nm] = t
    return out


def tree(w, st, o, depth=0):
    ob = st.heap[o]
    if depth > 4:
        return None
    if ob[0] == 's':
        return ('s', ob[1], ob[2], [tree(w, st, x, depth + 1) for x in ob[3]])
    if ob[0] == 'v':
        v = ob[1]
        if isinstance(v, tm.T):
            return ('t', v.sh)
        if isinstance(v, float):
            return ('t', 's')
        if isinstance(v, (int, bool)):
            return ('i', v)
        if v is None or (isinstance(v, tuple) and v and v[0] == 'P'):
            return ('p',)
        return ('o', v)
    if ob[0] == 'r':
        return ('r', {k: tree(w, st, x, depth + 1) for k, x in ob[2].items()})
    return None


def plant(w, st, t, name, pointee, old=None):
    """object id with the structure of the tree and junk for numbers; None if it cannot be rebuilt"""
    if t is None:
        return None
    mk = lambda v: st.new(('v', v, ('entry', '', 0)))
    if t[0] == 't':
        if t[1] == 'q':
            return mk(tm.leaf(name, 'q', 'anyq'))
        if isinstance(t[1], tuple) and 0 in t[1]:
            return mk(tm.mzero(*t[1]))
        return mk(tm.leaf(name, t[1]))
    if t[0] == 'i':
        return mk(t[1])
    if t[0] == 'o':
        return mk(t[1])
    if t[0] == 'p':
        return mk(pointee)
    if t[0] == 's':
        xs = [plant(w, st, x, '%s[%d]' % (name, i), pointee) for i, x in enumerate(t[3])]
        if None in xs:
            return None
        return st.new(('s', t[1], t[2], tuple(xs)))
    if t[0] == 'r' and old is not None:
        ob = st.heap[old]
        f = dict(ob[2])
        for k, x in t[1].items():
            n = plant(w, st, x, '%s.%s' % (name, k), pointee, f.get(k))
            if n is not None:
                f[k] = n
        return st.new(('r', ob[1], f) + tuple(ob[3:]))
    return None


def dirty(w, left, objs, pointee):
    """the entry state with the leftovers of another call, numbers replaced"""
    st = w.st.copy()
    n = 0
    for k, t in left.items():
        if k[0] == 'static':
            o = plant(w, st, t, 'left.' + k[1].split('::')[-1], pointee)
            if o is not None:
                st.glob[k[1]] = o
                n += 1
        else:
            ob = st.heap[objs[k[1]]]
            if k[2] not in ob[2]:
                continue
            o = plant(w, st, t, 'left.' + k[2], pointee, ob[2][k[2]])
            if o is not None:
                f = dict(ob[2])
                f[k[2]] = o
                st.heap[objs[k[1]]] = ('r', ob[1], f) + tuple(ob[3:])
                n += 1
    return st, n


def compare(w, clean, used, roots, names, rets=True):
    """obligations: both runs end the same way, under every valuation"""
    for a in clean:
        if a.st.taint is None and not w.reach(a.st.gate()):
            continue
        for b in used:
            gate = tm.and_(a.st.gate(), b.st.gate())
            if gate is False or (b.st.taint is None and a.st.taint is None and not w.reach(gate)):
                continue
            st = b.st
            if a.st.taint is not None:
                w.ck.undecided('%s: %s' % (w.name, a.st.taint))
                continue
            if rets:
                ra, rb = w.val(a.ret, a.st), w.val(b.ret, b.st)
                if isinstance(ra, (bool, tm.T)) and isinstance(rb, (bool, tm.T)):
                    w.req(b, tm.iff(ra, rb) if isinstance(ra, tm.T) or isinstance(rb, tm.T) else ra is rb, 'the outcome does not depend on earlier calls', extra=a.st.gate())
            for o, nm in zip(roots, names):
                for p, cond, wh in w.diff(a.st, b.st, o, o, nm, set(), skip=()):
                    if isinstance(cond, tm.T) and cond.op == 'close':
                        cond = tm.close(cond.a[0], cond.a[1], 1e-9)
                    w.req(b, cond, 'the result does not depend on earlier calls: %s' % p, wh, extra=a.st.gate())
            w.req(b, True, 'the result does not depend on earlier calls')


def c28(ck):
    TRS = {'small': dict(tracks={4: (1, [(0,)] * 2)}, cams=1, nframes=2, nitems=2),
           'large': dict(tracks={4: (1, [(0, 1)] * 3), 7: (2, [(0,)] * 2)}, cams=2, nframes=3, window=3, nitems=2),
           'marg': dict(tracks={4: (1, [(0,)] * 3)}, cams=1, nframes=3, window=2, nitems=2)}
    cache = {}

    def parts(b):
        return [b.vu, b.w.f(b.b, 'trianglator'), b.w.f(b.b, 'pnpSolver')]

    def upd(kind, n):
        return Upd(ck, 'scratch, ' + kind, n=n, seeds=1, **TRS[kind])

    def left(kind):
        if kind not in cache:
            b = upd(kind, 8)
            best = {}
            for ex in b.exits:
                if ex.st.taint is None and b.reach(ex):
                    l = leftovers(b.w, ex, parts(b))
                    if sum(1 for _ in l) >= len(best):
                        best = l
            cache[kind] = best
        return cache[kind]

    def update(ck):
        for a in TRS:
            for kind in TRS if ck.thorough else [k for k in TRS if k != a][:2]:
                l = left(kind)
                b = upd(a, 12)
                w = b.w
                p = [('P', o) for o in b.map.feats.values()]
                st, n = dirty(w, l, parts(b), p[0] if p else None)
                if not n:
                    ck.notes.append('%s: nothing is left behind by an update' % w.name)
                ck.sites += n
                w.name = 'update after another one (%s after %s), %d leftovers' % (a, kind, n)
                ck.shapes.append(w.name)
                used = w.run('MultiViewVisionUpdate::Update', b.vu, [b.T, b.thr], st=st)
                compare(w, b.exits, used, [b.fm, b.ftm, b.pq, b.at, w.f(b.b, 'status')], ['window', 'tracks', 'propagation', 'attitude filter', 'status'])
                w.memory()
                w.coverage(used, lambda ex: w.eng.truth(w.val(ex.ret, ex.st)) is True, 'no successful update')

    def start(ck):
        # initialization: triangulation and pose of the second frame
        def make(good, cams, other):
            return pnpworld(ck, 'scratch, %d points, %d cameras' % (good, cams), good, cams, other)
        lefts = []
        for good_, cams, other in ((10, 2, 2), (14, 1, 0), (9, 2, 1), (7, 1, 3)):
            b = make(good_, cams, other)
            best = {}
            for ex in b.exits:
                if ex.st.taint is None and b.reach(ex):
                    l = leftovers(b.w, ex, parts(b))
                    if len(l) >= len(best):
                        best = l
            lefts.append(best)
        for (good_, cams, other), l in zip(((11, 1, 0), (10, 2, 1), (6, 1, 2), (10, 2, 0)), lefts):
            b = make(good_, cams, other)
            w = b.w
            st, n = dirty(w, l, parts(b), ('P', list(b.map.feats.values())[0]))
            ck.sites += n
            w.name = 'initialization after another one, %d leftovers' % n
            ck.shapes.append(w.name)
            if not n:
                ck.notes.append('%s: nothing is left behind' % w.name)
            used = w.run('Backend::RunOnce', b.b, [], st=st)
            roots = [b.fm, b.ftm, b.pq, b.at, w.f(b.b, 'status'), b.log]
            compare(w, b.exits, used, roots, ['window', 'tracks', 'propagation', 'attitude filter', 'status', 'arguments of the pose solver'])
            w.memory()

    def triangulate(ck):
        # views passed to the triangulators from reused buffers
        for a, kind in (('small', 'large'), ('marg', 'large'), ('large', 'small')):
            b = Once(ck, 'triangulation, ' + a, nframes=1, cams=2, tracks={4: (1, [(0, 1)]), 5: (1, [(0,)])}, sees={4: (0,), 5: (0, 1)}, status=NEED_INIT, nitems=0, natt=2, draw=idraw, n=64, seeds=1,
                     T=tm.add(tm.leaf('frame1.t', 's', 'time'), tm.leaf('gap', 's', 'gap')))
            w = b.w
            best = {}
            for ex in b.exits:
                if ex.st.taint is None:
                    l = leftovers(w, ex, parts(b))
                    if len(l) >= len(best):
                        best = l
            st, n = dirty(w, best, parts(b), ('P', list(b.map.feats.values())[0]))
            ck.sites += n
            used = w.run('Backend::RunOnce', b.b, [], st=st)
            compare(w, b.exits, used, [b.fm, b.ftm, b.pq, b.at, w.f(b.b, 'status')], ['window', 'tracks', 'propagation', 'attitude filter', 'status'])
            break

    def reader(ck):
        for names, broken in ((CORE, ()), ((), ()), (CORE, ('imu_bias_a_g_init', 'T_bc0')), (CORE, ('imu_frequence', 'keyframe_policy', 'window_size'))):
            for lrows, lcols in ((1, 1), (4, 4), (1, 4)):
                F = {k: good(k) for k in names}
                for k in broken:
                    F[k] = F[k][:-1] if len(F[k]) > 1 else [['bad']]
                c = Cfg(ck, 'scratch of %dx%d, %d files, %d malformed' % (lrows, lcols, len(F), len(broken)), F, broken, n=16)
                w = c.w
                clean = c.read()
                l = {}
                for ex in clean:
                    l.update(leftovers(w, ex, []))
                l = {k: (('t', (lrows, lcols)) if t[0] == 't' else t) for k, t in l.items() if t[0] in 'ts'}
                st, n = dirty(w, l, [], None)
                ck.sites += n
                used = w.run('Backend::ConfigParams', c.b, [('CELL', st.new(('v', '/cfg', ('entry', '', 0))))], st=st)
                compare(w, clean, used, [c.b, c.cf], ['estimator', 'configuration'])
                w.memory()
    ck.run(update, start, triangulate, reader)
    ck.rules.append('run from a clean entry state and from one holding the leftovers of another call with all numbers replaced; every exit of one agrees with every exit of the other under a common valuation')
