"""Value graph: hash-consed terms for the numeric values of the analysed program.

Discrete values (sizes, ids, enum values, pointers) never become terms; they are ordinary Python values in the
abstract states.  A term is a node of a value graph: an operator over other terms.  Scalars carry the shape 's'
(real), 'i' (integer) or 'b' (boolean), matrices (rows, cols), quaternions 'q' (coefficient order w, x, y, z).

`Valuation` assigns values to the leaves and computes the value of any node.  It is the identity test of the domain
(random interpretation: two nodes that agree under independent random valuations are equal as functions with
probability 1 up to the stated tolerance; two nodes that disagree under one valuation are different).
"""
import math
import zlib
import numpy as np

NUM = (bool, int, float)


class T:
    __slots__ = ('op', 'a', 'sh', 'id', 'opq', '__weakref__')

    def __repr__(self):
        return show(self, 4)


_tab = {}
_cnt = [0]


def mk(op, a, sh):
    key = (op, sh) + tuple(('#', x.id) if isinstance(x, T) else (type(x).__name__, repr(x) if isinstance(x, float) else x) for x in a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.sh = op, a, sh
        t.id = _cnt[0]
        _cnt[0] += 1
        t.opq = op == 'opaque' or any(isinstance(x, T) and x.opq for x in a)
        _tab[key] = t
    return t


def reset():
    _tab.clear()
    _mcs.clear()


def show(t, d=6):
    if not isinstance(t, T):
        return repr(t)
    if t.op in ('leaf', 'mleaf', 'opaque', 'undef'):
        return str(t.a[0])
    if t.op == 'k':
        return repr(t.a[0])
    if t.op == 'mk':
        return 'const%s' % (t.sh,)
    if d <= 0:
        return '..'
    return '%s(%s)' % (t.op, ', '.join(show(x, d - 1) for x in t.a))


def isnum(x):
    return isinstance(x, NUM)


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return mk('k', (x,), 'b')
    if isinstance(x, int):
        return mk('k', (x,), 'i')
    return mk('k', (float(x),), 's')


def leaf(name, sh='s', hint=None):
    return mk('leaf', (name, hint), sh)


def istime(t):
    return t.op == 'leaf' and t.sh == 's' and (t.a[1] in ('time', 'imutime', 'exact', 'tick') or 'timestamp' in str(t.a[0]).lower())


def shift(t, memo=None):
    """by how much the value moves when every time stamp moves by one; None if that is not a constant"""
    if not isinstance(t, T):
        return 0
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    r = None
    if t.op == 'leaf':
        r = 1 if istime(t) else 0
    else:
        c = [shift(x, memo) for x in t.a if isinstance(x, T)]
        if t.op in ('add', 'sub', 'neg', 'tofloat') and t.sh == 's' and None not in c:
            f = [shift(x, memo) for x in t.a]
            r = f[0] + f[1] if t.op == 'add' else f[0] - f[1] if t.op == 'sub' else -f[0] if t.op == 'neg' else f[0]
        elif t.op == 'ite' and None not in c and shift(t.a[1], memo) == shift(t.a[2], memo):
            r = shift(t.a[1], memo)
        elif t.op in ('lt', 'le', 'eq') and None not in c and shift(t.a[0], memo) == shift(t.a[1], memo):
            r = 0
        elif all(x == 0 for x in c):
            r = 0
    memo[t.id] = r
    return r


_fresh = [0]


def opaque(why, sh='s'):
    _fresh[0] += 1
    return mk('opaque', ('%s#%d' % (why, _fresh[0]),), sh)


def undef(name, sh='s'):
    _fresh[0] += 1
    return mk('undef', ('undef:%s#%d' % (name, _fresh[0]),), sh)


def sh_of(x):
    if isinstance(x, T):
        return x.sh
    if isinstance(x, bool):
        return 'b'
    if isinstance(x, int):
        return 'i'
    return 's'


def _num2(a, b):
    return 'i' if sh_of(a) in 'ib' and sh_of(b) in 'ib' else 's'


def _s(x):
    """1x1 matrices convert to scalars"""
    if isinstance(x, T) and x.sh == (1, 1):
        return mc(x, 0, 0)
    return x


def add(a, b):
    a, b = _s(a), _s(b)
    if isnum(a) and isnum(b):
        return a + b
    if isnum(a) and a == 0:
        return b
    if isnum(b) and b == 0:
        return a
    a, b = lift(a), lift(b)
    if a.id > b.id:
        a, b = b, a
    return mk('add', (a, b), _num2(a, b))


def neg(a):
    a = _s(a)
    if isnum(a):
        return -a
    if a.op == 'neg':
        return a.a[0]
    return mk('neg', (a,), a.sh)


def sub(a, b):
    a, b = _s(a), _s(b)
    if isnum(a) and isnum(b):
        return a - b
    if isnum(b) and b == 0:
        return a
    if a is b:
        return 0.0
    return mk('sub', (lift(a), lift(b)), _num2(a, b))


def mul(a, b):
    a, b = _s(a), _s(b)
    if isnum(a) and isnum(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if isnum(x):
            if x == 1:
                return y
            if x == 0:
                return 0.0
    a, b = lift(a), lift(b)
    if a.id > b.id:
        a, b = b, a
    return mk('mul', (a, b), _num2(a, b))


def div(a, b):
    a, b = _s(a), _s(b)
    if isnum(a) and isnum(b):
        if isinstance(a, int) and isinstance(b, int):
            if b == 0:
                return opaque('int division by zero', 'i')
            q = abs(a) // abs(b)
            return q if (a >= 0) == (b >= 0) else -q
        if b == 0:
            if a == 0 or a != a:
                return float('nan')
            neg_ = (a < 0) != (math.copysign(1.0, b) < 0)
            return float('-inf') if neg_ else float('inf')
        return a / b
    if isnum(b) and b == 1:
        return a
    sh = _num2(a, b)
    return mk('idiv' if sh == 'i' else 'div', (lift(a), lift(b)), sh)


def mod(a, b):
    if isnum(a) and isnum(b):
        if b == 0:
            return opaque('mod 0', 'i')
        return int(math.fmod(a, b))
    return mk('mod', (lift(a), lift(b)), 'i')


_F = {'sqrt': lambda x: math.sqrt(x) if x >= 0 else float('nan'), 'fabs': abs, 'log': lambda x: math.log(x) if x > 0 else float('nan'),
      'exp': math.exp, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'floor': math.floor, 'ceil': math.ceil,
      'acos': lambda x: math.acos(x) if abs(x) <= 1 else float('nan'), 'asin': lambda x: math.asin(x) if abs(x) <= 1 else float('nan'),
      'atan': math.atan}


def fn(name, a):
    a = _s(a)
    if isnum(a):
        try:
            if a != a:
                return a
            return _F[name](a)
        except (OverflowError, ValueError):
            return float('nan')
    return mk(name, (a,), 'i' if name == 'fabs' and a.sh == 'i' else 's')


def atan2(a, b):
    a, b = _s(a), _s(b)
    if isnum(a) and isnum(b):
        return math.atan2(a, b)
    return mk('atan2', (lift(a), lift(b)), 's')


def pow_(a, b):
    if isnum(a) and isnum(b):
        try:
            return float(a) ** b
        except Exception:
            return float('nan')
    if b == 2:
        return mul(a, a)
    return mk('pow', (lift(a), lift(b)), 's')


def lt(a, b):
    a, b = _s(a), _s(b)
    if isnum(a) and isnum(b):
        return a < b
    if a is b:
        return False
    return mk('lt', (lift(a), lift(b)), 'b')


def le(a, b):
    a, b = _s(a), _s(b)
    if isnum(a) and isnum(b):
        return a <= b
    if a is b:
        return True
    return mk('le', (lift(a), lift(b)), 'b')


def eq(a, b):
    a, b = _s(a), _s(b)
    if isnum(a) and isnum(b):
        return a == b
    if a is b:
        return True
    if sh_of(a) == 'b' and isinstance(b, bool):
        return a if b else not_(a)
    if sh_of(b) == 'b' and isinstance(a, bool):
        return b if a else not_(b)
    a, b = lift(a), lift(b)
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), 'b')


def not_(a):
    if isnum(a):
        return not a
    if a.op == 'not':
        return a.a[0]
    return mk('not', (a,), 'b')


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        if isnum(x):
            if not x:
                return False
            continue
        for y in (x.a if x.op == 'and' else (x,)):
            if y.id not in seen:
                seen.add(y.id)
                out.append(y)
    for y in out:
        if y.op == 'not' and y.a[0].id in seen:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), 'b')


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        if isnum(x):
            if x:
                return True
            continue
        for y in (x.a if x.op == 'or' else (x,)):
            if y.id not in seen:
                seen.add(y.id)
                out.append(y)
    for y in out:
        if y.op == 'not' and y.a[0].id in seen:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(sorted(out, key=lambda y: y.id)), 'b')


def iff(a, b):
    if isnum(a):
        return b if a else not_(b)
    if isnum(b):
        return a if b else not_(a)
    return True if a is b else mk('iff', (a, b), 'b')


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if isnum(c):
        return a if c else b
    if a is b or (isnum(a) and isnum(b) and type(a) is type(b) and (a == b or (a != a and b != b))):
        return a
    if sh_of(a) == 'b' and sh_of(b) == 'b':
        if a is True and b is False:
            return c
        if a is False and b is True:
            return not_(c)
    a, b = lift(a), lift(b)
    sh = a.sh
    if a.sh != b.sh:
        if a.sh in ('s', 'i') and b.sh in ('s', 'i'):
            sh = 's'
        else:
            return opaque('ite of different shapes', a.sh)
    return mk('ite', (c, a, b), sh)


def isnan(a):
    a = _s(a)
    if isnum(a):
        return a != a
    if a.op == 'leaf':
        return False if not (len(a.a) > 1 and a.a[1] == 'nanable') else mk('isnan', (a,), 'b')
    return mk('isnan', (a,), 'b')


def isfinite(a):
    a = _s(a)
    if isnum(a):
        return math.isfinite(a)
    if a.op == 'leaf' and not (len(a.a) > 1 and a.a[1] == 'nanable'):
        return True
    return mk('isfinite', (a,), 'b')


def trunc(a):
    a = _s(a)
    if isnum(a):
        if isinstance(a, bool):
            return int(a)
        return int(a) if math.isfinite(a) else opaque('int of nan', 'i')
    if a.sh in ('i', 'b'):
        return a if a.sh == 'i' else mk('b2i', (a,), 'i')
    return mk('trunc', (a,), 'i')


def tofloat(a):
    a = _s(a)
    if isnum(a):
        return float(a)
    if a.sh == 's':
        return a
    return mk('tofloat', (a,), 's')


# ---- matrices ----
_mdata = {}


def mconst(arr):
    arr = np.asarray(arr, dtype=float)
    if arr.ndim == 1:
        arr = arr.reshape(-1, 1)
    key = (arr.shape, arr.tobytes())
    tag = zlib.crc32(arr.tobytes()) ^ hash(key) & 0xffffffffffff
    _mdata[tag] = arr
    return mk('mk', (tag,), arr.shape)


def mdata(t):
    return _mdata[t.a[0]]


def mzero(r, c):
    return mconst(np.zeros((r, c)))


def mid(r, c=None):
    return mconst(np.eye(r, c if c is not None else r))


def mleaf(name, r, c, hint=None):
    return mk('leaf', (name, hint), (r, c))


def ismat(x):
    return isinstance(x, T) and isinstance(x.sh, tuple)


def mlit(r, c, xs):
    if all(isnum(x) for x in xs):
        return mconst(np.array([float(x) for x in xs]).reshape(r, c))
    return mk('mlit', tuple(lift(x) for x in xs), (r, c))


def _chk(a, b, what):
    if a.sh != b.sh:
        raise DimError('%s of %dx%d and %dx%d' % ((what,) + a.sh + b.sh))


class DimError(Exception):
    pass


def _zero(a):
    return a.op == 'mk' and not mdata(a).any()


def madd(a, b):
    _chk(a, b, 'sum')
    if _zero(a):
        return b
    if _zero(b):
        return a
    if a.op == 'mk' and b.op == 'mk':
        return mconst(mdata(a) + mdata(b))
    if a.id > b.id:
        a, b = b, a
    return mk('madd', (a, b), a.sh)


def msub(a, b):
    _chk(a, b, 'difference')
    if _zero(b):
        return a
    if a.op == 'mk' and b.op == 'mk':
        return mconst(mdata(a) - mdata(b))
    return mk('msub', (a, b), a.sh)


def mneg(a):
    if a.op == 'mk':
        return mconst(-mdata(a))
    return mk('mneg', (a,), a.sh)


def mscale(s, a):
    if isnum(s):
        if s == 1:
            return a
        if a.op == 'mk':
            return mconst(mdata(a) * s)
    return mk('mscale', (lift(s), a), a.sh)


def mdivs(a, s):
    if isnum(s) and s == 1:
        return a
    return mk('mdivs', (a, lift(s)), a.sh)


def _ident(a):
    return a.op == 'mk' and a.sh[0] == a.sh[1] and np.array_equal(mdata(a), np.eye(a.sh[0]))


def mmul(a, b):
    if a.sh[1] != b.sh[0]:
        raise DimError('product of %dx%d and %dx%d' % (a.sh + b.sh))
    if _ident(a):
        return b
    if _ident(b):
        return a
    if _zero(a) or _zero(b):
        return mzero(a.sh[0], b.sh[1])
    return mk('mmul', (a, b), (a.sh[0], b.sh[1]))


def mtr(a):
    if a.op == 'mtr':
        return a.a[0]
    if a.op == 'mk':
        return mconst(mdata(a).T)
    return mk('mtr', (a,), (a.sh[1], a.sh[0]))


def mblk(a, i, j, r, c):
    if (i, j) == (0, 0) and (r, c) == a.sh:
        return a
    if a.op == 'mk':
        return mconst(mdata(a)[i:i + r, j:j + c])
    if a.op == 'mset':
        b, k, l, x = a.a
        p, q = x.sh
        if k <= i and l <= j and i + r <= k + p and j + c <= l + q:
            return mblk(x, i - k, j - l, r, c)
        if i + r <= k or k + p <= i or j + c <= l or l + q <= j:
            return mblk(b, i, j, r, c)
    if a.op == 'mblk':
        b, k, l = a.a
        return mblk(b, k + i, l + j, r, c)
    return mk('mblk', (a, i, j), (r, c))


def mset(a, i, j, x):
    if x.sh == a.sh:
        return x
    if 0 in x.sh:
        return a
    if a.op == 'mk' and x.op == 'mk':
        d = mdata(a).copy()
        d[i:i + x.sh[0], j:j + x.sh[1]] = mdata(x)
        return mconst(d)
    if a.op == 'mset' and a.a[1] == i and a.a[2] == j and a.a[3].sh == x.sh:
        a = a.a[0]
    return mk('mset', (a, i, j, x), a.sh)


_mcs = {}


def mc(a, i, j=0):
    if a.op == 'mk':
        return float(mdata(a)[i, j])
    k = (a.id, i, j)
    r = _mcs.get(k)
    if r is None:
        r = _mcs[k] = _mc(a, i, j)
    return r


def _mc(a, i, j):
    if a.op == 'mlit':
        x = a.a[i * a.sh[1] + j]
        return x.a[0] if x.op == 'k' else x
    if a.op == 'mset':
        b, k, l, x = a.a
        if k <= i < k + x.sh[0] and l <= j < l + x.sh[1]:
            return mc(x, i - k, j - l)
        return mc(b, i, j)
    if a.op == 'mblk':
        return mc(a.a[0], a.a[1] + i, a.a[2] + j)
    if a.op == 'mtr':
        return mc(a.a[0], j, i)
    if a.op == 'mneg':
        return neg(mc(a.a[0], i, j))
    if a.op == 'madd':
        return add(mc(a.a[0], i, j), mc(a.a[1], i, j))
    if a.op == 'msub':
        return sub(mc(a.a[0], i, j), mc(a.a[1], i, j))
    if a.op == 'mscale':
        s = a.a[0]
        return mul(s.a[0] if s.op == 'k' else s, mc(a.a[1], i, j))
    if a.op == 'mdivs':
        s = a.a[1]
        return div(mc(a.a[0], i, j), s.a[0] if s.op == 'k' else s)
    if a.op == 'ite':
        c, x, y = a.a
        return ite(c, mc(x, i, j), mc(y, i, j))
    if a.op == 'qvec':
        return qc(a.a[0], i + 1)
    return mk('mc', (a, i, j), 's')


def msetc(a, i, j, v):
    if a.op == 'mlit':
        xs = list(a.a)
        xs[i * a.sh[1] + j] = lift(v)
        return mlit(a.sh[0], a.sh[1], [x.a[0] if x.op == 'k' else x for x in xs])
    if a.sh[0] * a.sh[1] <= 16:
        xs = [mc(a, p, q) for p in range(a.sh[0]) for q in range(a.sh[1])]
        xs[i * a.sh[1] + j] = tofloat(v) if not isnum(v) or isinstance(v, int) else v
        return mlit(a.sh[0], a.sh[1], xs)
    return mset(a, i, j, mlit(1, 1, [v]))


def mfun(name, sh, *a):
    return mk('mf:' + name, tuple(a), sh)


def mnorm2(a):
    return mk('norm2', (a,), 's')


def mnorm(a):
    return mk('sqrt', (mnorm2(a),), 's')


def mdot(a, b):
    return mk('dot', (a, b), 's')


def mtrace(a):
    return mk('trace', (a,), 's')


def msum(a):
    return mk('msum', (a,), 's')


def mcross(a, b):
    return mk('mcross', (a, b), a.sh)


def mdiag(v):
    n = v.sh[0] * v.sh[1]
    return mk('mdiag', (v,), (n, n))


def mgetdiag(a):
    return mk('mgetdiag', (a,), (min(a.sh), 1))


def mall_finite(a):
    return mk('mfinite', (a,), 'b')


# elementwise
def mew(op, a, b):
    return mk('ew:' + op, (lift(a), lift(b)), a.sh if ismat(a) else b.sh)


# ---- quaternions ----
def qlit(w, x, y, z):
    return mk('qlit', tuple(lift(v) for v in (w, x, y, z)), 'q')


QID = None


def qid():
    return qlit(1.0, 0.0, 0.0, 0.0)


def qleaf(name, hint='unitq'):
    return mk('leaf', (name, hint), 'q')


def qc(q, k):
    if q.op == 'qlit':
        x = q.a[k]
        return x.a[0] if x.op == 'k' else x
    if q.op == 'ite':
        return ite(q.a[0], qc(q.a[1], k), qc(q.a[2], k))
    return mk('qc', (q, k), 's')


def qsetc(q, k, v):
    xs = [qc(q, i) for i in range(4)]
    xs[k] = v
    return qlit(*xs)


def qmul(a, b):
    i = qid()
    if a is i:
        return b
    if b is i:
        return a
    return mk('qmul', (a, b), 'q')


def qinv(a):
    if a is qid():
        return a
    return mk('qinv', (a,), 'q')


def qconj(a):
    if a is qid():
        return a
    return mk('qconj', (a,), 'q')


def qnormd(a):
    if a.op == 'qnormd' or a is qid():
        return a
    return mk('qnormd', (a,), 'q')


def qmat(a):
    if a is qid():
        return mid(3)
    return mk('qmat', (a,), (3, 3))


def qrot(a, v):
    if a is qid():
        return v
    return mk('qrot', (a, v), (3, 1))


def qfrommat(m):
    return mk('qfrommat', (m,), 'q')


def q2v(a, b):
    return mk('q2v', (a, b), 'q')


def qvec(a):
    return mk('qvec', (a,), (3, 1))


def qcoeffs(a):
    return mlit(4, 1, [qc(a, 1), qc(a, 2), qc(a, 3), qc(a, 0)])


# ---- approximate equality, as an obligation ----
def close(a, b, tol=1e-6):
    """a equals b up to rounding"""
    if isnum(a) and isnum(b):
        if a != a and b != b:
            return True
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * (1 + abs(a) + abs(b))
    if a is b:
        return True
    a, b = lift(a), lift(b)
    if isinstance(a.sh, tuple) and a.sh != b.sh:
        return False
    return mk('close', (a, b, float(tol)), 'b')


def qclose(a, b, tol=1e-6):
    """same rotation as quaternions up to sign and rounding"""
    if a is b:
        return True
    return mk('qclose', (a, b, float(tol)), 'b')


# ---- valuations ----
def qm(a, b):
    w1, x1, y1, z1 = np.moveaxis(a, -1, 0)
    w2, x2, y2, z2 = np.moveaxis(b, -1, 0)
    return np.stack([w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2, w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
                     w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2, w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2], -1)


def qmatn(q):
    w, x, y, z = np.moveaxis(q, -1, 0)
    R = np.empty(q.shape[:-1] + (3, 3))
    R[..., 0, 0] = 1 - 2 * (y * y + z * z)
    R[..., 0, 1] = 2 * (x * y - w * z)
    R[..., 0, 2] = 2 * (x * z + w * y)
    R[..., 1, 0] = 2 * (x * y + w * z)
    R[..., 1, 1] = 1 - 2 * (x * x + z * z)
    R[..., 1, 2] = 2 * (y * z - w * x)
    R[..., 2, 0] = 2 * (x * z - w * y)
    R[..., 2, 1] = 2 * (y * z + w * x)
    R[..., 2, 2] = 1 - 2 * (x * x + y * y)
    return R


def qfromR(R):
    out = np.empty(R.shape[:-2] + (4,))
    for n in range(R.shape[0]):
        M = R[n]
        t = np.trace(M)
        if not np.isfinite(t):
            out[n] = np.nan
            continue
        if t > 0:
            s = np.sqrt(t + 1.0)
            w = 0.5 * s
            s = 0.5 / s
            out[n] = [w, (M[2, 1] - M[1, 2]) * s, (M[0, 2] - M[2, 0]) * s, (M[1, 0] - M[0, 1]) * s]
        else:
            i = int(np.argmax(np.diag(M)))
            j, k = (i + 1) % 3, (i + 2) % 3
            s = np.sqrt(max(M[i, i] - M[j, j] - M[k, k] + 1.0, 0))
            v = np.zeros(4)
            v[1 + i] = 0.5 * s
            s = 0.5 / s if s > 0 else np.nan
            v[0] = (M[k, j] - M[j, k]) * s
            v[1 + j] = (M[j, i] + M[i, j]) * s
            v[1 + k] = (M[k, i] + M[i, k]) * s
            out[n] = v
    return out


def _safe(f, outshapes):
    def g(*a):
        ok = np.ones(a[0].shape[0], bool)
        for x in a:
            ok &= np.isfinite(x).reshape(x.shape[0], -1).all(1)
        b = [np.where(ok.reshape((-1,) + (1,) * (x.ndim - 1)), x, np.broadcast_to(np.eye(x.shape[1], x.shape[2]), x.shape)) for x in a]
        try:
            r = f(*b)
        except np.linalg.LinAlgError:
            r = None
            rows = []
            for n in range(a[0].shape[0]):
                try:
                    rows.append(f(*[x[n:n + 1] for x in b])[0])
                except np.linalg.LinAlgError:
                    rows.append(None)
            shp = next((x.shape for x in rows if x is not None), None)
            if shp is None:
                return None
            r = np.stack([x if x is not None else np.full(shp, np.nan) for x in rows])
        r = np.array(r)
        r[~ok] = np.nan
        return r
    return g


def _solve(A, b):
    return np.linalg.solve(A, b)


def _eigvals(A):
    return np.linalg.eigh((A + np.swapaxes(A, 1, 2)) / 2)[0][..., None]


def _fix(v):
    # canonical sign, so that the same matrix always gives the same eigenvectors
    return v


def _svdv(A):
    # of a matrix that is not finite, Eigen leaves V unset: some finite numbers
    r = _safe(lambda A: np.swapaxes(np.linalg.svd(A, full_matrices=True)[2], 1, 2), None)(A)
    bad = ~np.isfinite(A).reshape(A.shape[0], -1).all(1)
    if r is not None and bad.any():
        r[bad] = np.random.default_rng(3).normal(0, 1, (int(bad.sum()),) + r.shape[1:])
    return r


MF = {
    'inv': _safe(np.linalg.inv, None),
    'solve': _safe(_solve, None),
    'svdV': _svdv,
    'svdU': _safe(lambda A: np.linalg.svd(A, full_matrices=True)[0], None),
    'svdS': _safe(lambda A: np.linalg.svd(A, full_matrices=False)[1][..., None], None),
    'eigval': _safe(_eigvals, None),
    'eigvec': _safe(lambda A: np.linalg.eigh((A + np.swapaxes(A, 1, 2)) / 2)[1], None),
    'qrQ': _safe(lambda A: np.linalg.qr(A, mode='complete')[0], None),
    'qrR': _safe(lambda A: np.linalg.qr(A, mode='complete')[1], None),
    'pinv': _safe(lambda A: np.linalg.pinv(A), None),
    'proj': _safe(lambda A: np.eye(A.shape[1]) - A @ np.linalg.pinv(A), None),
}


def register(name, f):
    """f: batch function over numpy arrays (used by specifications)"""
    MF[name] = f


class Valuation:
    """Random values for the leaves, lazily; `draw` maps (leaf term, rng, n) to an array or None for the default."""

    def __init__(self, n=64, seed=1, draw=None, noise=0.0, fixed=None, junk=0, like=None):
        self.like = like if like is not None else {}
        self.n, self.seed, self.draw, self.noise, self.junk = n, seed, draw, noise, junk
        self.memo = {}
        self.rounding = 0.0
        self.fixed = fixed or {}

    def rng(self, name):
        return np.random.default_rng([self.seed & 0xffffffff, zlib.crc32(str(name).encode())])

    def leafval(self, t):
        name = t.a[0]
        hint = t.a[1] if len(t.a) > 1 else None
        if name in self.fixed:
            return np.array(self.fixed[name], dtype=float if t.sh not in ('b',) else bool)
        salt = ':%d' % self.junk if hint == 'junk' or t.op in ('undef',) else ''
        r = self.rng(name + salt)
        if name in self.like:
            lt, sigma = self.like[name]
            v = np.array(self(lt), dtype=float)
            if sigma:
                v = v + sigma * r.normal(0, 1, v.shape)
            return v
        if self.draw is not None:
            v = self.draw(t, r, self.n)
            if v is not None:
                return np.asarray(v)
        return default_draw(t, hint, r, self.n)

    def __call__(self, t):
        if not isinstance(t, T):
            return np.full(self.n, t, dtype=bool if isinstance(t, bool) else float)
        m = self.memo
        if t.id in m:
            return m[t.id]
        stack = [t]
        with np.errstate(all='ignore'):
            while stack:
                x = stack[-1]
                if x.id in m:
                    stack.pop()
                    continue
                todo = [y for y in x.a if isinstance(y, T) and y.id not in m]
                if todo:
                    stack.extend(todo)
                    continue
                stack.pop()
                v = self.node(x)
                if isinstance(x.sh, tuple) and v.shape != (self.n,) + x.sh:
                    raise AssertionError('shape of %s: %s expected %s' % (show(x, 2), v.shape, x.sh))
                m[x.id] = v
        return m[t.id]

    def node(self, t):
        m = self.memo
        op = t.op
        v = [m[y.id] if isinstance(y, T) else y for y in t.a]
        N = self.n
        if op in ('leaf', 'opaque', 'undef'):
            return self.leafval(t)
        if op == 'k':
            return np.full(N, t.a[0], dtype=bool if isinstance(t.a[0], bool) else float)
        if op == 'mk':
            return np.broadcast_to(mdata(t), (N,) + t.sh)
        if op == 'add':
            return v[0] + v[1]
        if op == 'sub':
            return v[0] - v[1]
        if op == 'mul':
            return v[0] * v[1]
        if op == 'div':
            return v[0] / v[1]
        if op == 'idiv':
            return np.trunc(v[0] / v[1])
        if op == 'mod':
            return np.fmod(v[0], v[1])
        if op == 'neg':
            return -v[0]
        if op in ('sqrt', 'fabs', 'log', 'exp', 'sin', 'cos', 'tan', 'floor', 'ceil', 'trunc'):
            return getattr(np, op)(v[0])
        if op in ('acos', 'asin', 'atan'):
            return getattr(np, 'arc' + op[1:])(v[0])
        if op == 'atan2':
            return np.arctan2(v[0], v[1])
        if op == 'pow':
            return np.power(v[0], v[1])
        if op in ('tofloat', 'b2i'):
            return v[0].astype(float)
        if op == 'lt':
            return v[0] < v[1]
        if op == 'le':
            return v[0] <= v[1]
        if op == 'eq':
            return v[0] == v[1]
        if op == 'not':
            return ~v[0].astype(bool)
        if op == 'and':
            r = v[0].astype(bool)
            for x in v[1:]:
                r = r & x.astype(bool)
            return r
        if op == 'or':
            r = v[0].astype(bool)
            for x in v[1:]:
                r = r | x.astype(bool)
            return r
        if op == 'iff':
            return v[0].astype(bool) == v[1].astype(bool)
        if op == 'ite':
            c = v[0].astype(bool)
            if v[1].ndim > 1:
                c = c.reshape((N,) + (1,) * (v[1].ndim - 1))
            return np.where(c, v[1], v[2])
        if op == 'isnan':
            return np.isnan(v[0])
        if op == 'isfinite':
            return np.isfinite(v[0])
        if op == 'mfinite':
            return np.isfinite(v[0]).reshape(N, -1).all(1)
        if op == 'mlit':
            return np.stack([np.asarray(x, float) for x in v], -1).reshape((N,) + t.sh)
        if op == 'madd':
            return v[0] + v[1]
        if op == 'msub':
            return v[0] - v[1]
        if op == 'mneg':
            return -v[0]
        if op == 'mscale':
            return v[0][:, None, None] * v[1]
        if op == 'mdivs':
            return v[0] / v[1][:, None, None]
        if op == 'mmul':
            r = v[0] @ v[1]
            if self.rounding:
                # every entry that is not a copy of (or minus) an entry of a factor is rounded
                def copies(a):
                    return ((np.abs(a) == 1) | (a == 0)).all(2) & ((a != 0).sum(2) <= 1)
                exact = copies(v[0])[:, :, None] | copies(np.swapaxes(v[1], 1, 2))[:, None, :]
                r = np.where(exact, r, r * (1 + self.rounding * self.rng('round%d' % t.id).standard_normal(r.shape)))
            return r
        if op == 'mtr':
            return np.swapaxes(v[0], 1, 2)
        if op == 'mblk':
            _, i, j = t.a
            return v[0][:, i:i + t.sh[0], j:j + t.sh[1]]
        if op == 'mset':
            _, i, j, x = t.a
            r = v[0].copy()
            r[:, i:i + x.sh[0], j:j + x.sh[1]] = v[3]
            return r
        if op == 'mc':
            return v[0][:, t.a[1], t.a[2]]
        if op == 'norm2':
            return (v[0].reshape(N, -1) ** 2).sum(1)
        if op == 'dot':
            return (v[0].reshape(N, -1) * v[1].reshape(N, -1)).sum(1)
        if op == 'trace':
            return np.trace(v[0], axis1=1, axis2=2)
        if op == 'msum':
            return v[0].reshape(N, -1).sum(1)
        if op == 'mcross':
            return np.cross(v[0].reshape(N, 3), v[1].reshape(N, 3)).reshape((N,) + t.sh)
        if op == 'mdiag':
            d = v[0].reshape(N, -1)
            r = np.zeros((N,) + t.sh)
            k = np.arange(d.shape[1])
            r[:, k, k] = d
            return r
        if op == 'mgetdiag':
            return np.diagonal(v[0], axis1=1, axis2=2)[..., None]
        if op.startswith('ew:'):
            a, b = v
            if a.ndim == 1 and b.ndim == 3:
                a = a[:, None, None]
            if b.ndim == 1 and a.ndim == 3:
                b = b[:, None, None]
            o = op[3:]
            if o == '+':
                return a + b
            if o == '-':
                return a - b
            if o == '*':
                return a * b
            if o == '/':
                return a / b
            if o == '<':
                return (a < b).astype(float)
            if o == '<=':
                return (a <= b).astype(float)
            if o == 'max':
                return np.maximum(a, b)
            if o == 'min':
                return np.minimum(a, b)
        if op == 'msel':
            return np.where(v[0] != 0, v[1], v[2])
        if op == 'mnan':
            return np.isnan(v[0]).reshape(N, -1).any(1)
        if op == 'mabs':
            return np.abs(v[0])
        if op == 'mvlit':
            return np.concatenate([np.asarray(x).reshape(N, -1) for x in v], 1)[..., None]
        if op == 'qlit':
            return np.stack([np.asarray(x, float) for x in v], -1)
        if op == 'qc':
            return v[0][:, t.a[1]]
        if op == 'qmul':
            return qm(v[0], v[1])
        if op == 'qconj':
            return v[0] * np.array([1, -1, -1, -1.])
        if op == 'qinv':
            return v[0] * np.array([1, -1, -1, -1.]) / (v[0] ** 2).sum(-1, keepdims=True)
        if op == 'qnormd':
            return v[0] / np.sqrt((v[0] ** 2).sum(-1, keepdims=True))
        if op == 'qmat':
            return qmatn(v[0])
        if op == 'qrot':
            return qmatn(v[0]) @ v[1]
        if op == 'qfrommat':
            return qfromR(v[0])
        if op == 'qvec':
            return v[0][:, 1:, None]
        if op == 'q2v':
            a = v[0].reshape(N, 3)
            b = v[1].reshape(N, 3)
            a = a / np.linalg.norm(a, axis=1, keepdims=True)
            b = b / np.linalg.norm(b, axis=1, keepdims=True)
            q = np.concatenate([1 + (a * b).sum(1, keepdims=True), np.cross(a, b)], 1)
            for i in np.nonzero(q[:, 0] < 1e-12)[0]:          # opposite directions: half a turn about any normal
                nrm = np.cross(a[i], np.eye(3)[np.argmin(np.abs(a[i]))])
                q[i] = np.concatenate([[0.0], nrm])
            return q / np.linalg.norm(q, axis=1, keepdims=True)
        if op == 'close':
            a, b, tol = v
            a = np.asarray(a, float)
            b = np.asarray(b, float)
            d = np.abs(a - b).reshape(N, -1)
            s = tol * (1 + np.abs(a).reshape(N, -1).max(1) + np.abs(b).reshape(N, -1).max(1)) if d.shape[1] else 0
            if not d.shape[1]:
                return np.ones(N, bool)
            okk = ((d <= np.asarray(s).reshape(-1, 1)) | (np.isnan(a) & np.isnan(b)).reshape(N, -1) | (a == b).reshape(N, -1)).all(1)
            return okk
        if op == 'qclose':
            a, b, tol = v
            return np.minimum(np.abs(a - b).max(1), np.abs(a + b).max(1)) <= tol * 10
        if op.startswith('mf:'):
            f = MF[op[3:]]
            r = f(*v)
            if r is None:
                r = np.full((N,) + (t.sh if isinstance(t.sh, tuple) else ()), np.nan)
            elif self.noise and op[3:] in ('inv', 'solve', 'eigval', 'pinv', 'svdS'):
                r = r * (1 + self.noise * self.rng('noise%d' % t.id).standard_normal(r.shape))
            return r
        raise NotImplementedError(op)


def default_draw(t, hint, r, n):
    sh = t.sh
    if sh == 's':
        if hint == 'time':
            return r.integers(0, 9, n) * 0.25
        if hint == 'pos':
            return r.uniform(0.2, 2.0, n)
        if hint == 'small':
            return r.normal(0, 0.05, n)
        return r.normal(0, 1, n)
    if sh == 'i':
        return r.integers(0, 6, n).astype(float)
    if sh == 'b':
        return r.integers(0, 2, n).astype(bool)
    if sh == 'q':
        q = r.normal(0, 1, (n, 4))
        if hint == 'nearid':
            q = np.array([1, 0, 0, 0.]) + 0.1 * q
        if hint == 'anyq':
            return q
        return q / np.linalg.norm(q, axis=1, keepdims=True)
    s = (n,) + sh
    if hint == 'spd':
        A = r.normal(0, 1, s)
        return A @ np.swapaxes(A, 1, 2) + 0.5 * np.eye(sh[0])
    if hint == 'sym':
        A = r.normal(0, 1, s)
        return A + np.swapaxes(A, 1, 2)
    if hint == 'small':
        return r.normal(0, 0.05, s)
    if hint == 'norm':
        return r.normal(0, 0.3, s)
    if hint == 'front':
        v = r.normal(0, 0.5, s)
        v[:, -1, :] = np.abs(v[:, -1, :]) + 2
        return v
    return r.normal(0, 1, s)


def leaves(t, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ('leaf', 'opaque', 'undef'):
            acc[x.a[0]] = x
        st.extend(x.a)
    return acc


def size(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        st.extend(x.a)
    return len(seen)
