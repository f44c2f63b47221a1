"""Further library operations: algorithms over iterator ranges, ordered multi-containers, dense-matrix views and coefficient-wise
functions, rotations in angle-axis form, strings."""
import math
import numpy as np
from . import term as tm
from .term import T, isnum
from .engine import base, targs, mdims, is_scalar_t, is_int_t, CONT, MAPS, UB, Unmod, END, isref


def isO(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] == 'O'


def isI(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] == 'I'


def isIX(v, k=None):
    return isinstance(v, tuple) and len(v) > 0 and v[0] in ('IXA', 'IXL', 'IXS') and (k is None or v[0] == k)


def isIns(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] == 'INS'


SF = {'fmod': 2, 'remainder': 2, 'cbrt': 1, 'copysign': 2, 'round': 1, 'trunc': 1, 'exp2': 1, 'log10': 1, 'log2': 1, 'fma': 3, 'sinh': 1, 'cosh': 1,
      'tanh': 1, 'log1p': 1, 'expm1': 1, 'nearbyint': 1, 'rint': 1}
_NP = {'fmod': np.fmod, 'remainder': np.remainder, 'cbrt': np.cbrt, 'copysign': np.copysign, 'round': lambda x: np.copysign(np.floor(np.abs(x) + 0.5), x),
       'trunc': np.trunc, 'exp2': np.exp2, 'log10': np.log10, 'log2': np.log2, 'fma': lambda a, b, c: a * b + c, 'sinh': np.sinh, 'cosh': np.cosh,
       'tanh': np.tanh, 'log1p': np.log1p, 'expm1': np.expm1, 'nearbyint': np.rint, 'rint': np.rint}
for _n, _f in _NP.items():
    tm.register('sf_' + _n, _f)
tm.register('triU', lambda A: np.triu(A))
tm.register('triL', lambda A: np.tril(A))
tm.register('triSU', lambda A: np.triu(A, 1))
tm.register('triSL', lambda A: np.tril(A, -1))
tm.register('symU', lambda A: np.triu(A) + np.swapaxes(np.triu(A, 1), 1, 2))
tm.register('symL', lambda A: np.tril(A) + np.swapaxes(np.tril(A, -1), 1, 2))
tm.register('chol', lambda A: _rows(np.linalg.cholesky, A))
tm.register('maxc', lambda A: A.reshape(A.shape[0], -1).max(1))
tm.register('minc', lambda A: A.reshape(A.shape[0], -1).min(1))
tm.register('prod', lambda A: A.reshape(A.shape[0], -1).prod(1))
tm.register('l1', lambda A: np.abs(A).reshape(A.shape[0], -1).sum(1))
tm.register('linf', lambda A: np.abs(A).reshape(A.shape[0], -1).max(1))
for _n, _f in (('sqrt', np.sqrt), ('exp', np.exp), ('log', np.log), ('sin', np.sin), ('cos', np.cos), ('tan', np.tan), ('tanh', np.tanh), ('floor', np.floor),
               ('ceil', np.ceil), ('round', _NP['round']), ('sign', np.sign), ('atan', np.arctan), ('asin', np.arcsin), ('acos', np.arccos)):
    tm.register('ewf_' + _n, _f)
tm.register('ewf_pow', lambda a, b: np.power(a, np.reshape(b, (-1,) + (1,) * (a.ndim - 1)) if np.ndim(b) == 1 else b))
tm.register('reps', lambda A, r, c: np.tile(A, (1, int(r), int(c))))
tm.register('rev', lambda A: A[:, ::-1, ::-1])


def _rows(f, A):
    out = np.full(A.shape, np.nan)
    for n in range(A.shape[0]):
        try:
            out[n] = f(A[n])
        except (np.linalg.LinAlgError, ValueError):
            pass
    return out


def sfn(name, vs):
    if all(isnum(v) for v in vs):
        try:
            return float(_NP[name](*[np.float64(v) for v in vs]))
        except (OverflowError, ValueError, ZeroDivisionError):
            return float('nan')
    return tm.mfun('sf_' + name, 's', *[tm.lift(v) for v in vs])


def coefs(v):
    return [tm.mc(v, i, j) for i in range(v.sh[0]) for j in range(v.sh[1])]


def ew1(name, v):
    """coefficient-wise function"""
    if v.sh[0] * v.sh[1] <= 36 and name in ('sqrt', 'exp', 'log', 'sin', 'cos', 'floor', 'ceil', 'tan'):
        return tm.mlit(v.sh[0], v.sh[1], [tm.fn(name, c) for c in coefs(v)])
    return tm.mfun('ewf_' + name, v.sh, v)


class More:
    """mix-in of the transfer functions (see lib.Lib)"""

    # ---------- moved-from objects ----------
    def vacate(self, a, st):
        """the operand of std::move gives up what it owned"""
        while a['k'] in ('cast', 'tmp') and a.get('e') is not None:
            a = a['e']
        if a['k'] != 'call' or a.get('fn') != 'std::move' or len(a['args']) != 1:
            return
        x = a['args'][0]
        if x['k'] not in ('var', 'mem'):
            return
        t = base(x.get('t', ''))
        if t.startswith('P<'):
            for loc, s in self.g.lv(x, st):
                if s is st:
                    self.g.store(st, loc, None)
        elif t.startswith(('vec<', 'deq<', 'umap<', 'map<', 'set<')):
            for loc, s in self.g.lv(x, st):
                if s is not st:
                    continue
                v = self.g.load(st, loc)
                if isO(v):
                    ob = st.heap[v[1]]
                    st.heap[v[1]] = ob[:3] + ((),) if ob[0] == 's' else ob[:4] + ((),)

    # ---------- comparison ----------
    def less(self, st, a, b, f=None):
        """list of (condition, state): a < b, for cells"""
        g = self.g
        if f is not None:
            return [(g.truth(v), s) for v, s in self.callv(f, [a, b], st)]
        return [(self.lt(st, g.load(st, a), g.load(st, b)), st)]

    def lt(self, st, x, y):
        if isO(x) and isO(y):
            a, b = self.parts(st, x), self.parts(st, y)
            r = len(a) < len(b)
            for p, q in list(zip(a, b))[::-1]:
                r = tm.or_(self.lt(st, p, q), tm.and_(tm.not_(self.lt(st, q, p)), r))
            return r
        if isinstance(x, str) and isinstance(y, str):
            return x < y
        if isinstance(x, tuple) or isinstance(y, tuple) or x is None or y is None or tm.ismat(x) or tm.ismat(y):
            raise Unmod('order of %r and %r' % (type(x).__name__, type(y).__name__))
        return tm.lt(x, y)

    def eqv(self, st, x, y):
        if isO(x) and isO(y):
            a, b = self.parts(st, x), self.parts(st, y)
            if len(a) != len(b):
                return False
            return tm.and_(*[self.eqv(st, p, q) for p, q in zip(a, b)])
        if tm.ismat(x) and tm.ismat(y):
            return tm.close(x, y, 0.0)
        if isinstance(x, (tuple, str)) or isinstance(y, (tuple, str)) or x is None or y is None:
            return x == y
        return tm.eq(x, y)

    def parts(self, st, v):
        ob = self.g.obj(st, v[1])
        if ob[0] == 'r':
            return [self.g.load(st, c) for c in ob[2].values()]
        if ob[0] == 's':
            return [self.g.load(st, c) for c in ob[3]]
        raise Unmod('order of maps')

    # ---------- indexed views ----------
    def indices(self, st, v, n):
        """the indices an index argument selects out of n"""
        def at(x):
            if isIX(x, 'IXL'):
                return n - 1 + x[1]
            if isinstance(x, int) and not isinstance(x, bool):
                return x
            raise Unmod('symbolic index')
        if isIX(v, 'IXA'):
            return list(range(n))
        if isIX(v, 'IXS'):
            a = at(v[1])
            if v[2] is not None:
                return [a + k * v[4] for k in range(at(v[2]))]
            b = at(v[3])
            return list(range(a, b + (1 if v[4] > 0 else -1), v[4]))
        if isO(v):
            return [at(self.g.load(st, c)) for c in self.elems(st, v[1])]
        return [at(v)]

    def picked(self, e, st, loc, v, vs):
        """an indexed view: a list of two scalar indices, a location, or None after an out-of-range access"""
        R, C = v.sh
        if len(vs) == 1:
            vs = [vs[0], 0] if C == 1 else [0, vs[0]] if R == 1 else vs
        if len(vs) != 2:
            raise Unmod('symbolic coefficient index')
        ij = [self.indices(st, x, n) for x, n in zip(vs, (R, C))]
        if all(isinstance(x, int) or isIX(x, 'IXL') for x in vs):
            return [ij[0][0], ij[1][0]]
        self.g.stat['blocks'] += 1
        for xs, n in zip(ij, (R, C)):
            bad = [x for x in xs if not 0 <= x < n]
            if bad:
                self.g.ub(st, 'index %d selected out of %d rows or columns' % (bad[0], n), e.get('l'))
                return None
        runs = []
        for xs in ij:
            r = []
            for x in xs:
                if r and r[-1][0] + r[-1][1] == x:
                    r[-1] = (r[-1][0], r[-1][1] + 1)
                else:
                    r.append((x, 1))
            runs.append(tuple(r))
        return ('pick', loc) + tuple(runs)

    # ---------- algorithms ----------
    ALGO = ('transform', 'copy_if', 'copy', 'copy_n', 'remove_if', 'remove', 'sort', 'stable_sort', 'min_element', 'max_element', 'minmax_element', 'iota',
            'inner_product', 'accumulate', 'generate', 'fill_n', 'unique', 'lower_bound', 'upper_bound', 'binary_search', 'equal', 'rotate',
            'replace', 'replace_if', 'partition_point', 'partition', 'stable_partition', 'is_sorted', 'adjacent_find', 'mismatch', 'nth_element', 'move_backward',
            'copy_backward', 'adjacent_difference', 'partial_sum', 'reduce', 'generate_n', 'for_each_n', 'swap_ranges', 'transform_reduce', 'reverse_copy', 'is_sorted_until')

    def put(self, st, it, v):
        """writes through an output iterator; returns the next one"""
        g = self.g
        if isIns(it):
            ob = st.heap[it[1]]
            if ob[0] == 'm':
                k = self.key(v)
                if self.entry(st, it[1], k) is None:
                    self.newentry(st, it[1], k, None)
                return it
            c = self.cellof(st, ob[1], v)
            cur = ob[3]
            self.setseq(st, it[1], (c,) + cur if it[2] == 'front' else cur + (c,))
            return it
        g.store(st, self.deref_it(st, it), v)
        return self.it_step(st, it, 1)

    def fork(self, sts, f):
        """applies f(acc, state) -> [(acc, state)] to every member and joins what can be joined"""
        out = []
        for a, s in sts:
            out += f(a, s)
        if len(out) > 64:
            raise Unmod('algorithm with too many outcomes')
        return out

    def walk(self, st, items, ask, stop, hit, end):
        """asks about the items in turn: the result that belongs to the first whose answer is `stop`, or `end`"""
        g = self.g
        sts, done = [((), st)], []
        for k, x in enumerate(items):
            nxt = []
            for _, s1 in sts:
                for v, s2 in ask(x, s1):
                    for y, s3 in g.branch(s2, g.truth(v)):
                        (done if y == stop else nxt).append((hit[k] if y == stop else (), s3))
            if len(nxt) + len(done) > 64:
                raise Unmod('algorithm with too many outcomes')
            sts = nxt
        return done + [(end, s1) for _, s1 in sts]

    def algox(self, e, name, vs, s):
        g = self.g
        its = lambda a, b, st: self.range(st, a, b)
        if name == 'transform':
            two = len(vs) == 5
            a, b = vs[0], vs[1]
            src = its(a, b, s)
            f = vs[-1]
            second = []
            if two:
                it = vs[2]
                for _ in src:
                    second.append(self.deref_it(s, it))
                    it = self.it_step(s, it, 1)
            sts = [(vs[-2], s)]
            for k, c in enumerate(src):
                def step(it, st):
                    return [(self.put(s2, it, v), s2) for v, s2 in self.callv(f, [c] + ([second[k]] if two else []), st)]
                sts = self.fork(sts, step)
            return sts
        if name in ('copy', 'copy_n', 'copy_if'):
            if name == 'copy_n':
                src, it = [], vs[0]
                for _ in range(vs[1]):
                    src.append(self.deref_it(s, it))
                    it = self.it_step(s, it, 1)
            else:
                src = its(vs[0], vs[1], s)
            sts = [(vs[2], s)]
            for c in src:
                def step(it, st):
                    if name != 'copy_if':
                        return [(self.put(st, it, g.load(st, c)), st)]
                    return [(self.put(s3, it, g.load(s3, c)) if y else it, s3) for v, s2 in self.callv(vs[3], [c], st) for y, s3 in g.branch(s2, g.truth(v))]
                sts = self.fork(sts, step)
            return sts
        if name in ('remove_if', 'remove', 'partition', 'stable_partition'):
            oid = vs[0][1]
            if vs[0][3] != 's' or vs[0][4]:
                raise Unmod(name)
            sts = [(((), ()), s)]
            for c in its(vs[0], vs[1], s):
                def step(acc, st):
                    k, r = acc
                    rs = [(self.eqv(st, g.load(st, c), vs[2]), st)] if name == 'remove' else [(g.truth(v), s2) for v, s2 in self.callv(vs[2], [c], st)]
                    return [((k, r + (c,)) if y == ('remove' in name) else (k + (c,), r), s3) for v, s2 in rs for y, s3 in g.branch(s2, v)]
                sts = self.fork(sts, step)
            out = []
            for (k, r), s2 in sts:
                cur = g.obj(s2, oid)[3]
                a, b = vs[0][2], vs[1][2]
                if name.startswith('remove'):
                    # what is left behind the new end is unspecified
                    for c in r:
                        if s2.heap[c][0] == 'v' and isinstance(s2.heap[c][1], T) and isinstance(s2.heap[c][1].sh, tuple):
                            g.store(s2, c, tm.undef('removed', s2.heap[c][1].sh))
                self.setseq(s2, oid, cur[:a] + k + r + cur[b:])
                out.append((('I', oid, a + len(k), 's', False), s2))
            return out
        if name in ('sort', 'stable_sort', 'nth_element'):
            f = vs[2] if len(vs) == 3 and name != 'nth_element' else vs[3] if len(vs) == 4 else None
            a, b = (vs[0], vs[1]) if name != 'nth_element' else (vs[0], vs[2])
            if a[3] != 's' or a[4]:
                raise Unmod(name)
            sts = [((), s)]
            for c in its(a, b, s):
                def step(acc, st):
                    out = []
                    todo = [(len(acc), st)]
                    while todo:
                        i, s1 = todo.pop()
                        if i == 0:
                            out.append(((c,) + acc, s1))
                            continue
                        for v, s2 in self.less(s1, c, acc[i - 1], f):
                            for y, s3 in g.branch(s2, v):
                                if y:
                                    todo.append((i - 1, s3))
                                else:
                                    out.append((acc[:i] + (c,) + acc[i:], s3))
                    return out
                sts = self.fork(sts, step)
            out = []
            for o, s2 in sts:
                cur = g.obj(s2, a[1])[3]
                self.setseq(s2, a[1], cur[:a[2]] + o + cur[b[2]:])
                out.append(((), s2))
            return out
        if name == 'minmax_element':
            # the last of the greatest, the first of the least
            f = vs[2] if len(vs) > 2 else None
            cells = its(vs[0], vs[1], s)
            pos, it = [], vs[0]
            for _ in cells:
                pos.append(it)
                it = self.it_step(s, it, 1)
            if not cells:
                return [(('O', s.new(('r', 'std::pair', {'first': g.cell(s, vs[1]), 'second': g.cell(s, vs[1])}))), s)]
            sts = [((0, 0), s)]
            for k in range(1, len(cells)):
                def step(m, st):
                    out = []
                    for v, s2 in self.less(st, cells[k], cells[m[0]], f):
                        for y, s3 in g.branch(s2, v):
                            for v2, s4 in self.less(s3, cells[k], cells[m[1]], f):
                                out += [((k if y else m[0], m[1] if z else k), s5) for z, s5 in g.branch(s4, v2)]
                    return out
                sts = self.fork(sts, step)
            return [(('O', st.new(('r', 'std::pair', {'first': g.cell(st, pos[a]), 'second': g.cell(st, pos[b])}))), st) for (a, b), st in sts]
        if name == 'partition_point':
            sts, done, it = [((), s)], [], vs[0]
            for c in its(vs[0], vs[1], s):
                nxt = []
                for _, st in sts:
                    for v, s2 in self.callv(vs[2], [c], st):
                        for y, s3 in g.branch(s2, g.truth(v)):
                            if y:
                                nxt.append(((), s3))
                            else:
                                done.append((it, s3))
                sts = nxt
                it = self.it_step(s, it, 1)
            return done + [(vs[1], st) for _, st in sts]
        if name in ('min_element', 'max_element'):
            f = vs[2] if len(vs) > 2 else None
            cells = its(vs[0], vs[1], s)
            pos, it = [], vs[0]
            for _ in cells:
                pos.append(it)
                it = self.it_step(s, it, 1)
            if not cells:
                return [(vs[1], s)]
            sts = [(0, s)]
            for k in range(1, len(cells)):
                def step(m, st):
                    p = (cells[k], cells[m]) if name[:3] == 'min' else (cells[m], cells[k])
                    return [(k if y else m, s3) for v, s2 in self.less(st, p[0], p[1], f) for y, s3 in g.branch(s2, v)]
                sts = self.fork(sts, step)
            return [(pos[m], st) for m, st in sts]
        if name == 'iota':
            v = vs[2]
            for c in its(vs[0], vs[1], s):
                g.store(s, c, v)
                v = tm.add(v, 1)
            return [((), s)]
        if name in ('inner_product',) and len(vs) == 6:
            raise Unmod('inner product with operations')
        if name in ('inner_product',) and len(vs) == 4:
            acc, it = vs[3], vs[2]
            for c in its(vs[0], vs[1], s):
                acc = tm.add(acc, tm.mul(g.load(s, c), g.load(s, self.deref_it(s, it))))
                it = self.it_step(s, it, 1)
            return [(acc, s)]
        if name in ('accumulate', 'reduce'):
            cells = its(vs[0], vs[1], s)
            sts = [(vs[2] if len(vs) > 2 else 0, s)]
            for c in cells:
                def step(acc, st):
                    if len(vs) > 3:
                        return self.callv(vs[3], [g.cell(st, acc), c], st)
                    x = g.load(st, c)
                    return [(self.mbin('+', acc, x, False) if tm.ismat(acc) or tm.ismat(x) else g.binop('+', acc, x, e['t']), st)]
                sts = self.fork(sts, step)
            return sts
        if name in ('generate', 'generate_n'):
            if name == 'generate':
                cells = its(vs[0], vs[1], s)
                sts = [((), s)]
                for c in cells:
                    def step(acc, st):
                        out = []
                        for v, s2 in self.callv(vs[2], [], st):
                            g.store(s2, c, v)
                            out.append(((), s2))
                        return out
                    sts = self.fork(sts, step)
                return sts
            sts = [(vs[0], s)]
            for _ in range(vs[1]):
                sts = self.fork(sts, lambda it, st: [(self.put(s2, it, v), s2) for v, s2 in self.callv(vs[2], [], st)])
            return sts
        if name == 'fill_n':
            it = vs[0]
            for _ in range(vs[1]):
                it = self.put(s, it, vs[2])
            return [(it, s)]
        if name == 'unique':
            oid = vs[0][1]
            sts = [(((), ()), s)]
            for c in its(vs[0], vs[1], s):
                def step(acc, st):
                    k, r = acc
                    if not k:
                        return [(((c,), r), st)]
                    rs = self.callv(vs[2], [k[-1], c], st) if len(vs) > 2 else [(self.eqv(st, g.load(st, k[-1]), g.load(st, c)), st)]
                    return [((k, r + (c,)) if y else (k + (c,), r), s3) for v, s2 in rs for y, s3 in g.branch(s2, g.truth(v))]
                sts = self.fork(sts, step)
            out = []
            for (k, r), s2 in sts:
                cur = g.obj(s2, oid)[3]
                self.setseq(s2, oid, cur[:vs[0][2]] + k + r + cur[vs[1][2]:])
                out.append((('I', oid, vs[0][2] + len(k), 's', False), s2))
            return out
        if name in ('lower_bound', 'upper_bound', 'binary_search') and isI(vs[0]):
            f = vs[3] if len(vs) > 3 else None
            it = vs[0]
            sts = [(it, s, False)]
            done = []
            for c in its(vs[0], vs[1], s):
                nxt = []
                for it, st, _ in sts:
                    x = g.cell(st, vs[2])
                    for v, s2 in (self.less(st, x, c, f) if name == 'upper_bound' else self.less(st, c, x, f)):
                        for y, s3 in g.branch(s2, v):
                            if y == (name == 'upper_bound'):
                                done.append((it, s3, c))
                            else:
                                nxt.append((self.it_step(s3, it, 1), s3, False))
                sts = nxt
            if name != 'binary_search':
                return [(it, st) for it, st, _ in done + sts]
            out = [(False, st) for _, st, _ in sts]
            for it, st, c in done:
                x = g.cell(st, vs[2])
                out += [(tm.not_(v), s2) for v, s2 in self.less(st, x, c, f)]
            return out
        if name == 'equal':
            a = its(vs[0], vs[1], s)
            if len(vs) == 4 and isI(vs[3]):
                b = its(vs[2], vs[3], s)
                if len(a) != len(b):
                    return [(False, s)]
            elif len(vs) == 3:
                b, it = [], vs[2]
                for _ in a:
                    b.append(self.deref_it(s, it))
                    it = self.it_step(s, it, 1)
            else:
                f = vs[-1]
                if len(vs) == 5:
                    b = its(vs[2], vs[3], s)
                    if len(a) != len(b):
                        return [(False, s)]
                else:
                    b, it = [], vs[2]
                    for _ in a:
                        b.append(self.deref_it(s, it))
                        it = self.it_step(s, it, 1)
                return self.walk(s, list(zip(a, b)), lambda xy, st: self.callv(f, list(xy), st), False, [False] * len(a), True)
            return [(tm.and_(*[self.eqv(s, g.load(s, x), g.load(s, y)) for x, y in zip(a, b)]), s)]
        if name == 'rotate' and vs[0][3] == 's' and not vs[0][4]:
            oid, a, m, b = vs[0][1], vs[0][2], vs[1][2], vs[2][2]
            cur = g.obj(s, oid)[3]
            self.setseq(s, oid, cur[:a] + cur[m:b] + cur[a:m] + cur[b:])
            return [(('I', oid, a + b - m, 's', False), s)]
        if name in ('replace', 'replace_if'):
            sts = [((), s)]
            for c in its(vs[0], vs[1], s):
                def step(acc, st):
                    out = []
                    rs = [(self.eqv(st, g.load(st, c), vs[2]), st)] if name == 'replace' else self.callv(vs[2], [c], st)
                    for v, s2 in rs:
                        for y, s3 in g.branch(s2, g.truth(v)):
                            if y:
                                g.store(s3, c, vs[3])
                            out.append(((), s3))
                    return out
                sts = self.fork(sts, step)
            return sts
        if name in ('adjacent_find', 'is_sorted', 'is_sorted_until'):
            f = vs[2] if len(vs) > 2 else None
            c = its(vs[0], vs[1], s)
            at, it = [], vs[0]
            for _ in c:
                at.append(it)
                it = self.it_step(s, it, 1)
            if name == 'adjacent_find':
                ask = lambda xy, st: self.callv(f, list(xy), st) if f is not None else [(self.eqv(st, g.load(st, xy[0]), g.load(st, xy[1])), st)]
                return self.walk(s, list(zip(c, c[1:])), ask, True, at, vs[1])
            hit = [False] * len(c) if name == 'is_sorted' else at[1:]
            return self.walk(s, list(zip(c, c[1:])), lambda xy, st: self.less(st, xy[1], xy[0], f), True, hit, True if name == 'is_sorted' else vs[1])
        if name == 'mismatch':
            f = vs[-1] if not isI(vs[-1]) else None
            n = len(vs) - (f is not None)
            a = its(vs[0], vs[1], s)
            if n == 4:
                b = its(vs[2], vs[3], s)
                a = a[:len(b)]
            else:
                b = None
            at, i, j = [], vs[0], vs[2]
            q = []
            for k, x in enumerate(a):
                at.append((i, j))
                q.append((x, b[k] if b is not None else self.deref_it(s, j)))
                i, j = self.it_step(s, i, 1), self.it_step(s, j, 1)
            at.append((i, j))
            ask = lambda xy, st: self.callv(f, list(xy), st) if f is not None else [(self.eqv(st, g.load(st, xy[0]), g.load(st, xy[1])), st)]
            return [(self.pair(st, *x), st) for x, st in self.walk(s, q, ask, False, at[:-1], at[-1])]
        if name == 'adjacent_difference' and len(vs) == 3:
            it, last = vs[2], None
            for c in its(vs[0], vs[1], s):
                x = g.load(s, c)
                it = self.put(s, it, x if last is None else self.mbin('-', x, last, False) if tm.ismat(x) else tm.sub(x, last))
                last = x
            return [(it, s)]
        if name == 'for_each_n':
            sts, it = [((), s)], vs[0]
            if not isinstance(vs[1], int):
                raise Unmod('for_each_n')
            for _ in range(vs[1]):
                c = self.deref_it(s, it)
                sts = self.fork(sts, lambda a, st: [((), s2) for _, s2 in self.callv(vs[2], [c], st)])
                it = self.it_step(s, it, 1)
            return [(it, st) for _, st in sts]
        if name in ('copy_backward', 'move_backward'):
            it = vs[2]
            for c in its(vs[0], vs[1], s)[::-1]:
                it = self.it_step(s, it, -1)
                g.store(s, self.deref_it(s, it), g.load(s, c))
            return [(it, s)]
        if name == 'reverse_copy':
            it = vs[2]
            for c in its(vs[0], vs[1], s)[::-1]:
                it = self.put(s, it, g.load(s, c))
            return [(it, s)]
        if name == 'swap_ranges':
            it = vs[2]
            for c in its(vs[0], vs[1], s):
                d = self.deref_it(s, it)
                x, y = g.load(s, c), g.load(s, d)
                if isO(x) or isO(y):
                    raise Unmod('swap_ranges')
                g.store(s, c, y)
                g.store(s, d, x)
                it = self.it_step(s, it, 1)
            return [(it, s)]
        if name == 'transform_reduce' and len(vs) == 5 and not isI(vs[2]):
            sts = [(vs[2], s)]
            for c in its(vs[0], vs[1], s):
                def step(acc, st):
                    return [r for v, s2 in self.callv(vs[4], [c], st) for r in self.callv(vs[3], [g.cell(s2, acc), g.cell(s2, v)], s2)]
                sts = self.fork(sts, step)
            return sts
        if name == 'partial_sum' and len(vs) == 3:
            it, acc = vs[2], None
            for c in its(vs[0], vs[1], s):
                x = g.load(s, c)
                acc = x if acc is None else self.mbin('+', acc, x, False) if tm.ismat(x) else tm.add(acc, x)
                it = self.put(s, it, acc)
            return [(it, s)]
        raise Unmod('algorithm ' + name)

    # ---------- sequences ----------
    def seqmore(self, e, name, oid, ob, args, st):
        """further members of sequences; None if unknown"""
        g = self.g
        et, els, t = ob[1], ob[3], ob[2]
        if t.startswith(('mmap<', 'mset<')):
            return self.multi(e, name, oid, ob, args, st)
        if t.startswith('opt<'):
            if name == 'reset':
                self.setseq(st, oid, ())
                return [((), st)]
            if name == 'value_or':
                return [(g.load(s, els[0]) if els else v, s) for v, s in g.ev(args[0], st)]
            if name in ('emplace', 'operator='):
                out = []
                for v, s in g.ev(args[0], st):
                    if isinstance(v, tuple) and v and v[0] == 'X' and 'nullopt' in str(v):
                        self.setseq(s, oid, ())
                    elif isO(v) and s.heap[v[1]][0] == 's' and s.heap[v[1]][2] == t:
                        g.store(s, oid, v)
                    else:
                        self.setseq(s, oid, (self.cellof(s, et, v),))
                    out.append((('LOC', oid), s))
                return out
            return None
        if name == 'remove' and len(args) == 1:
            out = []
            for x, s in g.ev(args[0], st):
                sts = [((), s)]
                for c in els:
                    sts = self.fork(sts, lambda k, s1: [(k if y else k + (c,), s2) for y, s2 in g.branch(s1, self.eqv(s1, g.load(s1, c), x))])
                for k, s2 in sts:
                    self.setseq(s2, oid, k)
                    out.append(((), s2))
            return out
        if name == 'remove_if':
            out = []
            for f, s in g.ev(args[0], st):
                sts = [((), s)]
                for c in els:
                    sts = self.fork(sts, lambda k, s1: [(k if y else k + (c,), s3) for v, s2 in self.callv(f, [c], s1) for y, s3 in g.branch(s2, g.truth(v))])
                for k, s2 in sts:
                    self.setseq(s2, oid, k)
                    out.append(((), s2))
            return out
        if name == 'reverse' and not args:
            self.setseq(st, oid, els[::-1])
            return [((), st)]
        if name in ('sort', 'unique'):
            out = []
            for vs, s in g.evs(args, st):
                for _, s2 in self.algox(e, name, [self.begin(s, oid, False), self.end(s, oid, False)] + vs, s):
                    if name == 'unique':
                        cur = g.obj(s2, oid)[3]
                        self.setseq(s2, oid, cur[:_[2]])
                    out.append(((), s2))
            return out
        if name == 'splice' and len(args) >= 2:
            out = []
            for it, s in g.ev(args[0], st):
                for l2, s2 in g.lv(args[1], s):
                    rest = list(g.evs(args[2:], s2))
                    for vs, s3 in rest:
                        v = g.load(s3, l2)
                        o2 = v[1] if isO(v) else l2
                        if o2 == oid:
                            raise Unmod('splice within a list')
                        src = g.obj(s3, o2)[3]
                        a, b = (0, len(src)) if not vs else (vs[0][2], vs[0][2] + 1) if len(vs) == 1 else (vs[0][2], vs[1][2])
                        self.setseq(s3, o2, src[:a] + src[b:])
                        cur = g.obj(s3, oid)[3]
                        self.setseq(s3, oid, cur[:it[2]] + src[a:b] + cur[it[2]:])
                        out.append(((), s3))
            return out
        if name == 'emplace':
            out = []
            for it, s in g.ev(args[0], st):
                for c, s2 in self.emplace(s, et, e, args[1:]):
                    cur = g.obj(s2, oid)[3]
                    self.setseq(s2, oid, cur[:it[2]] + (c,) + cur[it[2]:])
                    out.append((('I', oid, it[2], 's', False), s2))
            return out
        if name in ('max_size', 'capacity'):
            return [(1 << 40, st)] if name == 'max_size' else None
        return None

    def multi(self, e, name, oid, ob, args, st):
        """multimap and multiset: a sequence ordered by key"""
        g = self.g
        t = ob[2]
        ismap = t.startswith('mmap<')

        def keyof(s, c):
            x = s.heap[c]
            return self.key(g.load(s, x[2]['first']) if ismap else g.load(s, c))
        if name in ('insert', 'emplace'):
            out = []
            for vs, s in g.evs(args, st):
                if vs and isI(vs[0]):
                    raise Unmod('hinted insertion')
                if ismap:
                    a = targs(t)
                    if len(vs) == 1:
                        p = g.obj(s, vs[0][1])[2]
                        k, v = g.load(s, p['first']), g.load(s, p['second'])
                    else:
                        k, v = vs
                    c = s.new(('r', 'std::pair', {'first': s.new(g.v(self.key(k))), 'second': self.cellof(s, a[1], v)}))
                else:
                    k = self.key(vs[0])
                    c = self.cellof(s, targs(t)[0], vs[0])
                cur = g.obj(s, oid)[3]
                i = 0
                while i < len(cur) and not k < keyof(s, cur[i]):
                    i += 1
                self.setseq(s, oid, cur[:i] + (c,) + cur[i:])
                out.append((('I', oid, i, 's', False), s))
            return out
        if name in ('find', 'count', 'lower_bound', 'upper_bound', 'equal_range', 'contains'):
            out = []
            for k, s in g.ev(args[0], st):
                k = self.key(k)
                cur = [keyof(s, c) for c in g.obj(s, oid)[3]]
                lo = sum(1 for x in cur if x < k)
                hi = sum(1 for x in cur if not k < x)
                I = lambda i: ('I', oid, i, 's', False)
                out.append(({'find': I(lo if lo < hi else len(cur)), 'count': hi - lo, 'lower_bound': I(lo), 'upper_bound': I(hi), 'contains': lo < hi}[name]
                            if name != 'equal_range' else self.pair(s, I(lo), I(hi)), s))
            return out
        if name == 'erase' and not (args and base(args[0]['t']) in ('it', 'rit')):
            out = []
            for k, s in g.ev(args[0], st):
                if isI(k):
                    raise Unmod('erase')
                k = self.key(k)
                cur = g.obj(s, oid)[3]
                left = tuple(c for c in cur if keyof(s, c) != k)
                self.setseq(s, oid, left)
                out.append((len(cur) - len(left), s))
            return out
        return None

    def ordered(self, e, name, oid, ob, args, st):
        """lower_bound and the like of std::map and std::set"""
        g = self.g
        out = []
        for k, s in g.ev(args[0], st):
            k = self.key(k)
            ks = self.order(s, oid)
            lo = next((x for x in ks if not x < k), END)
            hi = next((x for x in ks if k < x), END)
            I = lambda i: ('I', oid, i, 'm', False)
            out.append((I(lo) if name == 'lower_bound' else I(hi) if name == 'upper_bound' else self.pair(s, I(lo), I(hi)), s))
        return out

    # ---------- strings ----------
    def strmore(self, e, name, op, loc, v, args, st):
        g = self.g
        if not isinstance(v, str):
            return None
        if name in ('substr', 'find', 'rfind', 'compare', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of', 'starts_with', 'ends_with'):
            out = []
            for vs, s in g.evs(args, st):
                if not vs or not all(isinstance(x, (str, int)) for x in vs):
                    return None
                if isinstance(vs[0], int) and name != 'substr':
                    vs = [chr(vs[0])] + list(vs[1:])
                npos = (1 << 64) - 1
                if name == 'substr':
                    if vs[0] > len(v):
                        raise UB('substr beyond the end')
                    r = v[vs[0]:] if len(vs) < 2 or vs[1] >= len(v) else v[vs[0]:vs[0] + vs[1]]
                elif name == 'compare':
                    r = (v > vs[0]) - (v < vs[0])
                else:
                    a = vs[1] if len(vs) > 1 else 0
                    if name == 'find':
                        r = v.find(vs[0], a)
                    elif name == 'rfind':
                        r = v.rfind(vs[0])
                    elif name == 'starts_with':
                        r = v.startswith(vs[0])
                    elif name == 'ends_with':
                        r = v.endswith(vs[0])
                    else:
                        ok = [i for i, c in enumerate(v) if (c in vs[0]) != ('not' in name)]
                        ok = [i for i in ok if i >= a] if 'first' in name else ok
                        r = -1 if not ok else ok[0] if 'first' in name else ok[-1]
                    if r == -1 and not isinstance(r, bool):
                        r = npos
                out.append((r, s))
            return out
        if name in ('back', 'front', 'operator[]', 'at') :
            out = []
            for vs, s in g.evs(args, st):
                i = len(v) - 1 if name == 'back' else 0 if name == 'front' else vs[0]
                if not 0 <= i < len(v):
                    raise UB('character %d of a string of %d' % (i, len(v)))
                out.append((ord(v[i]), s))
            return out
        if name == 'pop_back' and v:
            g.store(st, loc, v[:-1])
            return [((), st)]
        if name == 'push_back':
            out = []
            for x, s in g.ev(args[0], st):
                g.store(s, loc, v + chr(x) if isinstance(x, int) else '?')
                out.append(((), s))
            return out
        return None

    # ---------- dense matrices ----------
    def dense(self, v):
        """value of a triangular view"""
        if isinstance(v, tuple) and v and v[0] == 'TV':
            m = self.g.load(self.tvst, v[1]) if False else v[3]
            f = {1: 'triL', 2: 'triU', 9: 'triSL', 10: 'triSU'}.get(v[2])
            if f is None:
                raise Unmod('triangular view')
            return tm.mfun(f, m.sh, m)
        return v

    def tvmeth(self, e, name, op, loc, v, args, st):
        g = self.g
        _, ml, mode, m = v
        if name == 'transpose':
            return [(tm.mtr(self.dense(v)), st)]
        if name in ('solve', 'solveInPlace'):
            out = []
            A = self.dense(v)
            if name == 'solve':
                for b, s in g.ev(args[0], st):
                    if b.sh[0] != A.sh[0]:
                        raise UB('solve of a %dx%d system with %d rows' % (A.sh + (b.sh[0],)))
                    d = tm.mfun('solve', b.sh, A, b)
                    h = g.hooks.get('solve')
                    if h:
                        h(g, s, A, b, d)
                    out.append((d, s))
                return out
            for l, s in g.lv(args[0], st):
                b = g.load(s, l)
                g.store(s, l, tm.mfun('solve', b.sh, A, b))
                out.append(((), s))
            return out
        if name in ('setZero', 'operator='):
            other = {1: 'triSU', 2: 'triSL', 9: 'triU', 10: 'triL'}.get(mode)
            f = {1: 'triL', 2: 'triU', 9: 'triSL', 10: 'triSU'}.get(mode)
            if other is None:
                raise Unmod('triangular view')
            out = []
            for vs, s in g.evs(args, st):
                cur = g.load(s, ml)
                r = tm.mfun(other, cur.sh, cur)
                if vs:
                    x = self.dense(vs[0])
                    if not tm.ismat(x) or x.sh != cur.sh:
                        raise Unmod('triangular assignment')
                    r = tm.madd(r, tm.mfun(f, x.sh, x))
                g.store(s, ml, r)
                out.append(((), s))
            return out
        if name in ('toDenseMatrix', 'eval', 'derived', 'nestedExpression'):
            return [(self.dense(v), st)]
        if name in ('rows', 'cols'):
            return [(m.sh[name == 'cols'], st)]
        if name == 'operator*':
            return [(self.mbin('*', self.dense(v), self.dense(x), False), s) for x, s in g.ev(args[0], st)]
        raise Unmod('triangular view operation ' + name)

    def vwmeth(self, e, name, op, loc, v, args, st):
        """colwise() and rowwise()"""
        g = self.g
        _, ml, way = v
        m = g.load(st, ml)
        R, C = m.sh
        col = way == 'c'
        parts = [tm.mblk(m, 0, j, R, 1) for j in range(C)] if col else [tm.mblk(m, i, 0, 1, C) for i in range(R)]
        red = {'sum': tm.msum, 'norm': tm.mnorm, 'squaredNorm': tm.mnorm2, 'mean': lambda x: tm.div(tm.msum(x), float(x.sh[0] * x.sh[1])),
               'maxCoeff': lambda x: tm.mfun('maxc', 's', x), 'minCoeff': lambda x: tm.mfun('minc', 's', x), 'prod': lambda x: tm.mfun('prod', 's', x)}
        if name in red:
            r = [red[name](x) for x in parts]
            return [(tm.mlit(1, C, r) if col else tm.mlit(R, 1, r), st)]

        def join(ps):
            out = tm.mzero(R if col else sum(p.sh[0] for p in ps), sum(p.sh[1] for p in ps) if col else C)
            if col and ps and ps[0].sh[0] != R:
                out = tm.mzero(ps[0].sh[0], len(ps))
            if not col and ps and ps[0].sh[1] != C:
                out = tm.mzero(len(ps), ps[0].sh[1])
            for k, p in enumerate(ps):
                out = tm.mset(out, 0 if col else k, k if col else 0, p)
            return out
        if name in ('operator+', 'operator-', 'operator+=', 'operator-=', 'operator=', 'operator*', 'operator/', 'operator*=', 'operator/='):
            out = []
            for x, s in g.ev(args[0], st):
                if not tm.ismat(x):
                    raise Unmod('vectorwise operation')
                x = x if x.sh == parts[0].sh else tm.mtr(x)
                o = name[8]
                f = {'+': tm.madd, '-': tm.msub, '=': lambda a, b: b, '*': lambda a, b: tm.mew('*', a, b), '/': lambda a, b: tm.mew('/', a, b)}[o]
                r = join([f(p, x) for p in parts])
                if name.endswith('='):
                    g.store(s, ml, r)
                    out.append((('LOC', ml), s))
                else:
                    out.append((r, s))
            return out
        if name in ('normalized', 'normalize'):
            r = join([tm.mdivs(p, tm.mnorm(p)) for p in parts])
            if name == 'normalize':
                g.store(st, ml, r)
                return [((), st)]
            return [(r, st)]
        if name == 'homogeneous' and col:
            return [(join([tm.mset(tm.mset(tm.mzero(R + 1, 1), 0, 0, p), R, 0, tm.mlit(1, 1, [1.0])) for p in parts]), st)]
        if name == 'hnormalized' and col:
            return [(join([tm.mdivs(tm.mblk(p, 0, 0, R - 1, 1), tm.mc(p, R - 1, 0)) for p in parts]), st)]
        if name == 'reverse':
            return [(join([tm.mlit(p.sh[0], p.sh[1], coefs(p)[::-1]) for p in parts]), st)]
        raise Unmod('vectorwise operation ' + name)

    def mmore(self, e, rec, name, op, loc, v, args, st):
        """further matrix operations; None if unknown"""
        g = self.g
        if name in ('applyOnTheLeft', 'applyOnTheRight') and len(args) == 1:
            out = []
            for x, s in g.ev(args[0], st):
                x = self.dense(x)
                cur = g.load(s, loc)
                g.store(s, loc, self.mbin('*', x, cur, False) if name.endswith('Left') else self.mbin('*', cur, x, False))
                out.append(((), s))
            return out
        if name in ('colwise', 'rowwise'):
            return [(('VW', loc, name[0]), st)]
        if name == 'triangularView':
            ta = [x for x in (e.get('ta') or []) if isinstance(x, int) and not isinstance(x, bool)]
            return [(('TV', loc, ta[0] if ta else 0, v), st)]
        if name == 'selfadjointView':
            ta = [x for x in (e.get('ta') or []) if isinstance(x, int) and not isinstance(x, bool)]
            if not ta or ta[0] not in (1, 2):
                return None
            return [(tm.mfun('symL' if ta[0] == 1 else 'symU', v.sh, v), st)]
        if name in ('cwiseAbs2', 'abs2', 'square'):
            return [(tm.mew('*', v, v), st)]
        if name == 'cube':
            return [(tm.mew('*', tm.mew('*', v, v), v), st)]
        if name == 'cwiseInverse':
            return [(tm.mew('/', 1.0, v), st)]
        if name in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'tanh', 'floor', 'ceil', 'round', 'sign', 'atan', 'asin', 'acos') and not args:
            return [(ew1(name, v), st)]
        if name in ('cwiseSqrt', 'cwiseSign'):
            return [(ew1(name[5:].lower(), v), st)]
        if name in ('pow',) and args:
            return [(tm.mfun('ewf_pow', v.sh, v, tm.lift(x)), s) for x, s in g.ev(args[0], st)]
        if name in ('max', 'min') and args:
            return [(tm.mew(name, v, x), s) for x, s in g.ev(args[0], st)]
        if name == 'prod':
            r = 1.0
            if v.sh[0] * v.sh[1] <= 36:
                for c in coefs(v):
                    r = tm.mul(r, c)
                return [(r, st)]
            return [(tm.mfun('prod', 's', v), st)]
        if name == 'lpNorm':
            p = [x for x in (e.get('ta') or []) if isinstance(x, int) and not isinstance(x, bool)]
            if not p or p[0] not in (1, 2, -1):
                return None
            return [(tm.mnorm(v) if p[0] == 2 else tm.mfun('l1' if p[0] == 1 else 'linf', 's', v), st)]
        if name in ('isApprox', 'isZero', 'isOnes', 'isIdentity', 'isConstant', 'isApproxToConstant'):
            ex = [a for a in args]
            dbl = 'f64' in base(e['obj'].get('t', '')) or 'f64' in str(e.get('rec'))
            out = []
            for vs, s in g.evs([a for a in ex if a.get('k') != 'defarg'], st):
                vs = list(vs)
                x = vs.pop(0) if name in ('isApprox', 'isConstant', 'isApproxToConstant') and vs else None
                prec = vs[0] if vs and isnum(vs[0]) else None
                if prec is None:
                    if vs:
                        return None
                    prec = 1e-12 if dbl else 1e-5
                if name == 'isApprox':
                    d2 = tm.mnorm2(tm.msub(v, x))
                    a, b = tm.mnorm2(v), tm.mnorm2(x)
                    out.append((tm.le(d2, tm.mul(prec * prec, tm.ite(tm.lt(b, a), b, a))), s))
                else:
                    want = {'isZero': lambda i, j: 0.0, 'isOnes': lambda i, j: 1.0, 'isIdentity': lambda i, j: 1.0 if i == j else 0.0}.get(name, lambda i, j: x)
                    cs = []
                    for i in range(v.sh[0]):
                        for j in range(v.sh[1]):
                            y = want(i, j)
                            c = tm.mc(v, i, j)
                            cs.append(tm.le(tm.fn('fabs', c if isnum(y) and y == 0.0 else tm.sub(c, y)), prec))
                    out.append((tm.and_(*cs), s))
            return out
        if name in ('unaryExpr', 'binaryExpr'):
            out = []
            for vs, s in g.evs(args, st):
                f = vs[-1]
                sts = [((), s)]
                for i in range(v.sh[0]):
                    for j in range(v.sh[1]):
                        def step(acc, s1):
                            ls = [g.cell(s1, tm.mc(v, i, j))] + ([g.cell(s1, tm.mc(vs[0], i, j))] if name == 'binaryExpr' else [])
                            return [(acc + (y,), s2) for y, s2 in self.callv(f, ls, s1)]
                        sts = self.fork(sts, step)
                out += [(tm.mlit(v.sh[0], v.sh[1], list(a)), s2) for a, s2 in sts]
            return out
        if name == 'replicate':
            out = []
            for vs, s in g.evs(args, st):
                ta = [x for x in (e.get('ta') or []) if isinstance(x, int) and not isinstance(x, bool)]
                r, c = vs if len(vs) == 2 else ta[:2]
                m = tm.mzero(v.sh[0] * r, v.sh[1] * c)
                for i in range(r):
                    for j in range(c):
                        m = tm.mset(m, i * v.sh[0], j * v.sh[1], v)
                out.append((m, s))
            return out
        if name == 'reverse':
            return [(tm.mlit(v.sh[0], v.sh[1], coefs(v)[::-1]), st)]
        if name == 'resizeLike':
            out = []
            for x, s in g.ev(args[0], st):
                if x.sh != v.sh:
                    g.store(s, loc, tm.undef('resized', x.sh))
                out.append(((), s))
            return out
        if name in ('begin', 'cbegin', 'end', 'cend', 'data'):
            return None
        return None

    def rotmore(self, e, rec, name, op, loc, v, args, st):
        """further operations of quaternions and of rotations in angle-axis form (held as quaternions); None if unknown"""
        g = self.g
        if rec == 'Eigen::AngleAxis':
            vec = tm.qvec(v)
            n = tm.mnorm(vec)
            if name == 'angle':
                return [(tm.mul(2.0, tm.atan2(n, tm.fn('fabs', tm.qc(v, 0)))), st)]
            if name == 'axis':
                w = tm.qc(v, 0)
                ax = tm.mdivs(vec, n)
                return [(tm.mscale(tm.ite(tm.lt(w, 0.0), -1.0, 1.0), ax), st)]
        if name == 'angularDistance':
            out = []
            for x, s in g.ev(args[0], st):
                d = tm.qmul(v, tm.qconj(x))
                out.append((tm.mul(2.0, tm.atan2(tm.mnorm(tm.qvec(d)), tm.fn('fabs', tm.qc(d, 0)))), s))
            return out
        if name == 'isApprox':
            if len(args) < 1:
                return None
            out = []
            for vs, s in g.evs(args[:1], st):
                d2 = tm.mnorm2(tm.msub(tm.qcoeffs(v), tm.qcoeffs(vs[0])))
                a, b = tm.mnorm2(tm.qcoeffs(v)), tm.mnorm2(tm.qcoeffs(vs[0]))
                prec = 1e-12 if 'f64' in base(e['obj'].get('t', '')) else 1e-5
                out.append((tm.le(d2, tm.mul(prec * prec, tm.ite(tm.lt(b, a), b, a))), s))
            return out
        return None
