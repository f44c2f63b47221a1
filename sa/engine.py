"""Abstract interpreter over the typed program.

Abstract state = (store, environment, path condition).  The store is a finite set of cells; discrete contents (container
shapes, keys, pointers, counters, enum values) are tracked exactly and partition the states, numeric contents are nodes
of the value graph (term.py).  States of one partition are joined at every control-flow merge, numeric contents by gated
nodes.  Branch conditions that the path condition does not decide propagate to both successors.

A construct without a transfer function taints the state: nothing is ever reported from a tainted state.
"""
import os
from . import term as tm
from .term import T, isnum
TRACE = bool(os.environ.get("VERIF_TRACE"))


class UB(Exception):
    """the operation has undefined behaviour in this state"""


class Unmod(Exception):
    """no transfer function"""


def base(t):
    while True:
        if t.startswith('&&'):
            t = t[2:]
        elif t.startswith('&'):
            t = t[1:]
        elif t.startswith('c:'):
            t = t[2:]
        else:
            return t


def isref(t):
    return t.startswith('&')


VIEWT = ('MX:Block:', 'MX:VectorBlock:', 'MX:Transpose:', 'MX:Diagonal:', 'MX:ArrayWrapper:', 'MX:MatrixWrapper:', 'MX:IndexedView:', 'MX:Ref:', 'MX:Reverse:')


LAZY = ('MX:CwiseBinaryOp:', 'MX:CwiseUnaryOp:', 'MX:CwiseTernaryOp:', 'MX:Product:', 'MX:Replicate:', 'MX:Select:', 'MX:Inverse:')


def islazy(t):
    """an unevaluated expression of the matrix library"""
    return base(t).startswith(LAZY)


def isview(t):
    """an Eigen expression that stands for (part of) another matrix"""
    return base(t).startswith(VIEWT)


def byloc(t):
    return t.startswith('&') or isview(t)


def targs(t):
    """template arguments of a type descriptor"""
    i = t.index('<')
    s = t[i + 1:-1]
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        if ch == ';' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return out


def mdims(t):
    r, c = t.rsplit(':', 1)[1].split(',')
    return int(r), int(c)


SOLVERS = (('HouseholderQR', 'qr'), ('HouseholderQr', 'qr'), ('CompleteOrthogonal', 'qr'), ('EigenSolver', 'eig'), ('LDLT', 'ldlt'), ('LLT', 'llt'), ('SVD', 'svd'), ('LU', 'lu'))


def solver_t(t):
    """kind of decomposition object a type denotes"""
    if t.startswith(('MX:', 'E:', 'X:')):
        for k, n in SOLVERS:
            if k in t:
                return n
    return None


def is_scalar_t(t):
    return t in ('f32', 'f64', 'f128')


def is_int_t(t):
    return (t[:1] in 'ui' and t[1:].isdigit()) or t.startswith('e:')


CONT = ('vec<', 'deq<', 'il<', 'array<', 'arr<')
MAPS = ('umap<', 'map<', 'set<')

END = '#end'


class State:
    __slots__ = ('heap', 'nxt', 'frames', 'pc', 'lits', 'ev', 'glob', 'taint', 'rands')

    def __init__(s):
        s.heap, s.nxt, s.frames, s.pc, s.lits, s.ev, s.glob, s.taint, s.rands = {}, 1, [{}], (), {}, (), {}, None, 0

    def copy(s):
        n = State.__new__(State)
        n.heap = dict(s.heap)
        n.nxt = s.nxt
        n.frames = [dict(f) for f in s.frames]
        n.pc = s.pc
        n.lits = dict(s.lits)
        n.ev = s.ev
        n.glob = dict(s.glob)
        n.taint = s.taint
        n.rands = s.rands
        return n

    def new(s, obj):
        o = s.nxt
        s.nxt += 1
        s.heap[o] = obj
        return o

    def gate(s):
        return tm.and_(*s.pc)


def _finleaf(t):
    if not isinstance(t, T):
        return t == t
    if t.op in ('leaf', 'k'):
        return not (t.op == 'leaf' and t.a[1] == 'nanable')
    if t.op in ('add', 'sub', 'neg', 'mc', 'tofloat', 'fabs'):
        return all(_finleaf(x) for x in t.a if isinstance(x, T))
    return False


class Eng:
    def __init__(self, prog, loopcap=400, maxstates=600):
        self.p = prog
        self.ubs = []
        self.narrowed = []          # (state pc, where, message, tainted)
        self.lazies = {}       # variables of expression types: operands and initialiser
        self.unmod = {}        # message -> count
        self.capped = []       # as ubs: loops cut off
        self.looplines = set()
        self.most = 0
        self.stubs = {}
        self.loopcap = loopcap
        self.maxstates = maxstates
        self.cur = []          # call stack of function records
        self.stat = {'calls': 0, 'stmts': 0, 'derefs': 0, 'index': 0, 'front': 0, 'blocks': 0, 'loops': 0, 'iter': 0}
        self.fns = set()
        self.lines = set()
        self.maprev = False
        self.line = 0
        self.rand = None       # callable(state) -> int
        self.hooks = {}
        self.over = False
        from . import lib
        self.lib = lib.Lib(self)

    # ---- diagnostics ----
    def where(self, l=None):
        f = self.cur[-1] if self.cur else None
        return (f['fn'] if f else '?', f['file'] if f else '?', l if l is not None else self.line)

    def ub(self, st, msg, l=None):
        self.ubs.append((st.pc, self.where(l), msg, st.taint))

    def taint(self, st, why):
        self.unmod[why] = self.unmod.get(why, 0) + 1
        if st.taint is None:
            st.taint = '%s (%s:%s)' % (why, self.where()[0], self.line)

    # ---- allocation ----
    def v(self, val):
        return ('v', val, (self.cur[-1]['fn'] if self.cur else '?', self.cur[-1]['file'] if self.cur else '?', self.line))

    def alloc(self, st, t, name='tmp'):
        """default-initialised object of type t"""
        t = base(t)
        if solver_t(t):
            return st.new(self.v(('X', t)))
        if t.startswith(('M:', 'MX:')):
            r, c = mdims(t)
            if r < 0 or c < 0:
                return st.new(self.v(tm.mzero(max(r, 0), max(c, 0))))
            return st.new(self.v(tm.undef(name, (r, c))))
        if t.startswith(('Q:', 'QX')):
            return st.new(self.v(tm.undef(name, 'q')))
        if t.startswith(('P<', 'p<', 'W<')) or t == 'null':
            return st.new(self.v(None))
        if t.startswith(('array<', 'arr<')):
            a = targs(t)
            n = int(a[1]) if a[1].isdigit() else 0
            return st.new(('s', a[0], t, tuple(self.alloc(st, a[0], name) for _ in range(n))))
        if t.startswith(CONT):
            return st.new(('s', targs(t)[0], t, ()))
        if t.startswith(('mmap<', 'mset<')):
            a = targs(t)
            return st.new(('s', a[0] if len(a) < 2 else 'pair<%s;%s>' % (a[0], a[1]), t, ()))
        if t.startswith(MAPS):
            a = targs(t)
            return st.new(('m', a[0], a[1] if len(a) > 1 else None, t, ()))
        if t.startswith('pair<'):
            a = targs(t)
            return st.new(('r', 'std::pair', {'first': self.lib.zero(st, a[0]), 'second': self.lib.zero(st, a[1])}))
        if t.startswith('tup<'):
            return st.new(('r', 'std::tuple', {str(i): self.lib.zero(st, a) for i, a in enumerate(targs(t))}))
        if t.startswith('opt<'):
            return st.new(('s', targs(t)[0], t, ()))
        if t == 'str':
            return st.new(self.v(''))
        if t == 'b':
            return st.new(self.v(tm.undef(name, 'b')))
        if is_int_t(t):
            return st.new(self.v(tm.undef(name, 'i')))
        if is_scalar_t(t):
            return st.new(self.v(tm.undef(name)))
        if t.startswith('R:'):
            return self.alloc_rec(st, t[2:], name)
        if t in ('it', 'rit', 'lambda', 'void'):
            return st.new(self.v(None))
        if t.startswith(('E:', 'X:')):
            return st.new(self.v(('X', t)))
        raise Unmod('object of type ' + t)

    def alloc_rec(self, st, rec, name, init=True):
        r = self.p.recs.get(rec)
        if r is None:
            raise Unmod('record ' + rec)
        fields = {}
        for b in r['bases']:
            b = base(b)
            if b.startswith('R:'):
                o = self.alloc_rec(st, b[2:], name)
                fields.update(st.heap[o][2])
        for f in r['fields']:
            if isref(f['t']):
                fields[f['name']] = st.new(self.v(None))
            else:
                fields[f['name']] = self.alloc(st, f['t'], name + '.' + f['name'])
        o = st.new(('r', rec, fields))
        if init:
            for f in r['fields']:
                if 'init' in f:
                    self.init_into(st, fields[f['name']], f['t'], f['init'], o)
        return o

    def zeroed(self, st, oid):
        """zero-initialises the members of an object that no constructor has set"""
        for c in st.heap[oid][2].values():
            x = st.heap[c]
            if x[0] == 'v' and isinstance(x[1], T) and x[1].op == 'undef' and x[1].sh in ('s', 'i', 'b'):
                st.heap[c] = self.v({'s': 0.0, 'i': 0, 'b': False}[x[1].sh])
            elif x[0] == 'r' and not self.userctor(x[1]):
                self.zeroed(st, c)

    def userctor(self, rec):
        return any(f.get('ctor') and f.get('rec') == rec and not f['params'] for f in self.p.fns.values())

    def init_into(self, st, oid, t, e, this=None):
        """initialises a fresh cell in place; the initialiser may not branch"""
        if this is not None:
            st.frames.append({'#this': this})
        rs = self.ev(e, st)
        if len(rs) != 1 or rs[0][1] is not st:
            raise Unmod('branching member initialiser')
        if this is not None:
            st.frames.pop()
        self.store(st, oid, rs[0][0], t)

    def clone(self, st, oid):
        ob = st.heap[oid]
        k = ob[0]
        if k == 'v':
            return st.new(ob)
        if k == 'r':
            if ob[1] in self.p.copies:
                raise Unmod('copy constructor of ' + ob[1])
            return st.new(('r', ob[1], {f: self.clone(st, x) for f, x in ob[2].items()}))
        if k == 's':
            return st.new(('s', ob[1], ob[2], tuple(self.clone(st, x) for x in ob[3])))
        if k == 'm':
            return st.new(('m', ob[1], ob[2], ob[3], tuple((key, self.clone(st, x)) for key, x in ob[4])))
        raise UB('use of an object whose lifetime has ended')

    def kill(self, st, oid):
        ob = st.heap.get(oid)
        if ob is None or ob[0] == 'x':
            return
        if ob[0] == 'r':
            for x in ob[2].values():
                self.kill(st, x)
        elif ob[0] == 's':
            for x in ob[3]:
                self.kill(st, x)
        elif ob[0] == 'm':
            for _, x in ob[4]:
                self.kill(st, x)
        st.heap[oid] = ('x',)

    # ---- locations ----
    def obj(self, st, loc):
        if not isinstance(loc, int):
            v = self.load(st, loc)
            if isinstance(v, tuple) and v and v[0] == 'O':
                loc = v[1]
            else:
                raise Unmod('object expected')
        ob = st.heap.get(loc)
        if ob is None:
            raise Unmod('stale cell')
        if ob[0] == 'x':
            raise UB('use of a reference to an element that was removed')
        return ob

    def load(self, st, loc):
        if isinstance(loc, int):
            ob = st.heap.get(loc)
            if ob is None:
                raise Unmod('stale cell')
            if ob[0] == 'v':
                return ob[1]
            if ob[0] == 'x':
                raise UB('use of a reference to an element that was removed')
            return ('O', loc)
        k = loc[0]
        if k == 'tmp':
            return loc[1]
        b = self.load(st, loc[1])
        if k == 'arr':
            return b
        if not isinstance(b, T):
            raise Unmod('matrix or quaternion expected, found %r' % (b,))
        if k == 'blk':
            return tm.mblk(b, *loc[2:])
        if k == 'mc':
            return tm.mc(b, loc[2], loc[3])
        if k == 'pick':
            R, C = sum(r for _, r in loc[2]), sum(c for _, c in loc[3])
            if len(loc[2]) == len(loc[3]) == 1:
                return tm.mblk(b, loc[2][0][0], loc[3][0][0], R, C)
            nb, x = tm.mzero(R, C), 0
            for i, r in loc[2]:
                y = 0
                for j, c in loc[3]:
                    nb = tm.mset(nb, x, y, tm.mblk(b, i, j, r, c))
                    y += c
                x += r
            return nb
        if k == 'qc':
            return tm.qc(b, loc[2])
        if k == 'diag':
            return tm.mgetdiag(b)
        if k == 'tr':
            return tm.mtr(b)
        if k == 'qv':
            return tm.qvec(b)
        if k == 'qco':
            return tm.qcoeffs(b)
        raise Unmod('location ' + k)

    def store(self, st, loc, v, t=None):
        if isinstance(loc, int):
            ob = st.heap.get(loc)
            if ob is None:
                raise Unmod('stale cell')
            if ob[0] == 'x':
                raise UB('store through a reference to an element that was removed')
            if isinstance(v, tuple) and v and v[0] == 'O':
                if ob[0] == 'v':
                    raise Unmod('aggregate stored into a scalar')
                self.assign_obj(st, loc, v[1])
                return
            if ob[0] != 'v':
                if v == () and ob[0] == 'r':
                    return
                raise Unmod('scalar stored into an aggregate')
            v = self.conv(ob[1], v)
            st.heap[loc] = self.v(v)
            h = self.hooks.get('store')
            if h:
                h(st, loc, v)
            return
        k = loc[0]
        if k == 'tmp':
            if isinstance(loc[1], tuple) and loc[1][0] == 'O':
                self.store(st, loc[1][1], v)
                return
            return
        if k == 'arr':
            self.store(st, loc[1], v)
            return
        b = self.load(st, loc[1])
        if not isinstance(b, T):
            raise Unmod('matrix store')
        if k == 'blk':
            _, _, i, j, r, c = loc
            if v.sh != (r, c):
                if v.sh == (c, r) and 1 in v.sh:
                    v = tm.mtr(v)
                else:
                    raise UB('%dx%d value assigned to a %dx%d block' % (v.sh + (r, c)))
            nb = tm.mset(b, i, j, v)
        elif k == 'mc':
            nb = tm.msetc(b, loc[2], loc[3], v)
        elif k == 'pick':
            R, C = sum(r for _, r in loc[2]), sum(c for _, c in loc[3])
            if v.sh != (R, C):
                if v.sh != (C, R) or 1 not in v.sh:
                    raise UB('%dx%d value assigned to %d rows and %d columns' % (v.sh + (R, C)))
                v = tm.mtr(v)
            nb, x = b, 0
            for i, r in loc[2]:
                y = 0
                for j, c in loc[3]:
                    nb = tm.mset(nb, i, j, tm.mblk(v, x, y, r, c))
                    y += c
                x += r
        elif k == 'qc':
            nb = tm.qsetc(b, loc[2], v)
        elif k == 'diag':
            nb = b
            for i in range(min(b.sh)):
                nb = tm.msetc(nb, i, i, tm.mc(v, i, 0))
        elif k == 'tr':
            nb = tm.mtr(v)
        elif k == 'qv':
            nb = tm.qlit(tm.qc(b, 0), tm.mc(v, 0), tm.mc(v, 1), tm.mc(v, 2))
        elif k == 'qco':
            nb = tm.qlit(tm.mc(v, 3), tm.mc(v, 0), tm.mc(v, 1), tm.mc(v, 2))
        else:
            raise Unmod('store to ' + k)
        self.store(st, loc[1], nb)

    def conv(self, old, v):
        if isinstance(v, T) and isinstance(old, T):
            if old.sh == 'q' and v.sh == (3, 3):
                return tm.qfrommat(v)
            if old.sh == (3, 3) and v.sh == 'q':
                return tm.qmat(v)
            if old.sh in ('s', 'i', 'b') and v.sh == (1, 1):
                return tm.mc(v, 0, 0)
        return v

    def assign_obj(self, st, dst, src):
        if dst == src:
            return
        d, s = st.heap[dst], st.heap[src]
        if s[0] == 'x':
            raise UB('use of a reference to an element that was removed')
        if d[0] == 'r' and s[0] == 'r':
            for f, x in d[2].items():
                if f in s[2]:
                    y = s[2][f]
                    if st.heap[y][0] == 'v':
                        st.heap[x] = self.v(st.heap[y][1])
                    else:
                        self.assign_obj(st, x, y)
            return
        n = self.clone(st, src)
        if d[0] in 'sm':
            for x in (d[3] if d[0] == 's' else [y for _, y in d[4]]):
                self.kill(st, x)
        o = st.heap.pop(n)
        if d[0] == 's' and o[0] == 's':
            o = ('s', d[1], d[2], o[3])
        elif d[0] == 'm' and o[0] == 's':
            o = ('m', d[1], d[2], d[3], tuple((st.heap[x][1], x) for x in o[3]))
        st.heap[dst] = o

    def deref(self, st, p, l=None):
        self.stat['derefs'] += 1
        if p is None:
            raise UB('dereference of a null pointer')
        if isinstance(p, tuple):
            if p[0] == 'P':
                if isinstance(p[1], int) and st.heap[p[1]][0] == 'x':
                    raise UB('dereference of a dangling pointer')
                return p[1]
            if p[0] == 'I':
                return self.lib.deref_it(st, p)
            if p[0] == 'O':
                ob = st.heap[p[1]]
                if ob[0] == 's' and ob[3]:
                    return ob[3][0]
        raise Unmod('dereference of %r' % (p,))

    # ---- path conditions ----
    def decide(self, st, c):
        if isnum(c):
            return bool(c)
        if c is None:
            return False
        if isinstance(c, tuple):
            return True
        x = st.lits.get(c.id)
        if x is not None:
            return x
        if c.op == 'not':
            r = self.decide(st, c.a[0])
            return None if r is None else not r
        if c.op == 'and':
            rs = [self.decide(st, y) for y in c.a]
            if False in rs:
                return False
            return True if all(r is True for r in rs) else None
        if c.op == 'or':
            rs = [self.decide(st, y) for y in c.a]
            if True in rs:
                return True
            return False if all(r is False for r in rs) else None
        return None

    def learn(self, st, c, val):
        if isnum(c):
            return
        if c.op == 'not':
            return self.learn(st, c.a[0], not val)
        if c.id in st.lits:
            return
        st.lits[c.id] = val
        if (c.op == 'and' and val) or (c.op == 'or' and not val):
            for y in c.a:
                self.learn(st, y, val)
        elif c.op in ('lt', 'le', 'eq'):
            a, b = c.a
            fin = _finleaf(a) and _finleaf(b)

            def put(t, x):
                if isinstance(t, T):
                    st.lits.setdefault(t.id, x)
            ra = a.a[0] if a.op == 'k' else a
            rb = b.a[0] if b.op == 'k' else b
            if c.op == 'lt':
                if val:
                    put(tm.le(ra, rb), True), put(tm.lt(rb, ra), False), put(tm.le(rb, ra), False), put(tm.eq(ra, rb), False)
                elif fin:
                    put(tm.le(rb, ra), True)
            elif c.op == 'le':
                if val:
                    put(tm.lt(rb, ra), False)
                elif fin:
                    put(tm.lt(rb, ra), True), put(tm.lt(ra, rb), False), put(tm.eq(ra, rb), False)
            elif val:
                put(tm.lt(ra, rb), False), put(tm.lt(rb, ra), False), put(tm.le(ra, rb), True), put(tm.le(rb, ra), True)

    def assume(self, st, c, val):
        self.learn(st, c, val)
        st.pc = st.pc + (c if val else tm.not_(c),)

    def branch(self, st, c):
        """list of (bool, state)"""
        if isinstance(c, T) and c.sh not in ('b',):
            c = tm.not_(tm.eq(c, 0))
        d = self.decide(st, c)
        if d is not None:
            return [(d, st)]
        s2 = st.copy()
        self.assume(st, c, True)
        self.assume(s2, c, False)
        return [(True, st), (False, s2)]

    # ---- joins ----
    def merge(self, sts, mark=None):
        if len(sts) < 2:
            return sts
        if mark is None:
            mark = sts[0].frames[-1].get('#mark')
        out = []
        for s in sts:
            out.append(s)
            # prefer pairs that differ in their last literal only
            while len(out) > 1:
                m = self.merge2(out[-2], out[-1], mark)
                if m is None:
                    break
                out[-2:] = [m]
        if len(out) > 1:
            i = 0
            while i < len(out):
                j = i + 1
                while j < len(out):
                    m = self.merge2(out[i], out[j], mark)
                    if m is not None:
                        out[i] = m
                        del out[j]
                    else:
                        j += 1
                i += 1
        if len(out) > self.maxstates:
            self.over = True
            out = out[:self.maxstates]
        return out

    def _mval(self, sel, a, b):
        if a is b:
            return a, True
        if isinstance(a, T) or isinstance(b, T) or isinstance(a, float) or isinstance(b, float):
            if a is None or b is None or isinstance(a, (tuple, str)) or isinstance(b, (tuple, str)):
                return None, False
            sa, sb = tm.sh_of(a), tm.sh_of(b)
            if sa != sb and not (sa in 'si' and sb in 'si' if isinstance(sa, str) and isinstance(sb, str) else False):
                return None, False
            if sa == 'i' or sa == 'b':
                # discrete values that are not symbolic partition the states
                if isnum(a) and isnum(b):
                    return None, False
                if sa == 'b' and (isnum(a) or isnum(b)):
                    return None, False
            return tm.ite(sel, a, b), True
        if type(a) is type(b) and a == b:
            return a, True
        return None, False

    def merge2(self, s1, s2, mark=None, v1=None, v2=None):
        """joins s2 into s1, or None when their discrete contents differ.  Cells from `mark` on belong to the running call:
        they are matched by reachability, older ones by identity."""
        if len(s1.frames) != len(s2.frames):
            return None
        p1, p2 = s1.pc, s2.pc
        n = 0
        while n < len(p1) and n < len(p2) and p1[n] is p2[n]:
            n += 1
        r1, r2 = p1[n:], p2[n:]
        sel = tm.and_(*r1) if r1 else True
        if sel is True and r2:
            sel = tm.not_(tm.and_(*r2))
        r = self._fast(s1, s2, sel)
        if r is None:
            if mark is None:
                return None
            r = self._match(s1, s2, sel, mark, v1, v2)
            if r is None:
                return None
        s1.heap, s1.frames, s1.glob = r
        s1.nxt = max(s1.nxt, s2.nxt)
        s1.rands = max(s1.rands, s2.rands)
        s1.taint = s1.taint or s2.taint
        g = tm.or_(tm.and_(*r1), tm.and_(*r2))
        if r1 and r2 and len(r1) == len(r2) == 1 and tm.not_(r1[0]) is r2[0]:
            g = True
        s1.pc = p1[:n]
        lits2 = s2.lits
        s1.lits = {k: x for k, x in s1.lits.items() if lits2.get(k) is x}
        if g is not True:
            s1.pc = s1.pc + (g,)
            self.learn(s1, g, True)
        return s1

    def merge3(self, s1, s2, mark, v1, v2):
        """join of states whose results are different references: only by matching"""
        f = self._fast
        self._fast = lambda *a: None
        try:
            return self.merge2(s1, s2, mark, v1, v2)
        finally:
            self._fast = f

    def _fast(self, s1, s2, sel):
        """same cells, same frames"""
        if s1.ev != s2.ev or s1.glob != s2.glob:
            return None
        h1, h2 = s1.heap, s2.heap
        upd = []
        for o, a in h1.items():
            b = h2.get(o)
            if b is None or a is b:
                continue
            if a[0] != b[0]:
                return None
            if a[0] == 'v':
                v, ok = self._mval(sel, a[1], b[1])
                if not ok:
                    return None
                if v is not a[1]:
                    upd.append((o, ('v', v, a[2] if a[2] == b[2] or isnum(a[1]) else b[2])))
            elif a != b:
                return None
        frames = []
        for f1, f2 in zip(s1.frames, s2.frames):
            if f1 == f2:
                frames.append(f1)
                continue
            nf = {}
            for k, x in f1.items():
                if k in f2:
                    if f2[k] != x:
                        return None
                    nf[k] = x
            frames.append(nf)
        for o, b in h2.items():
            if o not in h1:
                h1[o] = b
        for o, b in upd:
            h1[o] = b
        return h1, frames, s1.glob

    def _match(self, s1, s2, sel, mark, v1, v2):
        h1, h2 = s1.heap, s2.heap
        mp, inv, work = {}, {}, []

        def pair(x, y):
            if x < mark or y < mark:
                return x == y
            z = mp.get(x)
            if z is not None:
                return z == y
            if y in inv:
                return False
            mp[x] = y
            inv[y] = x
            work.append((x, y))
            return True

        def ref(x, y):
            """values that may hold references"""
            if isinstance(x, tuple) and isinstance(y, tuple):
                if not x or not y:
                    return x == y
                k = x[0]
                if len(x) != len(y) or k != y[0]:
                    return False
                if k in ('P', 'O', 'LOC', 'REF', 'I', 'blk', 'pick', 'mc', 'qc', 'diag', 'tr', 'qv', 'qco', 'arr', 'CI'):
                    return ref(x[1], y[1]) if not isinstance(x[1], int) or not isinstance(y[1], int) else (pair(x[1], y[1]) and x[2:] == y[2:])
                if k == 'tmp':
                    return x[1] is y[1] or ref(x[1], y[1])
                if k == 'L':
                    return x[1] == y[1] and x[3] == y[3] and len(x[4]) == len(y[4]) and all(p[0] == q[0] and bind(p[1], q[1]) for p, q in zip(x[4], y[4]))
                return all(p is q or (isinstance(p, tuple) and ref(p, q)) or p == q for p, q in zip(x, y))
            return x is y or (type(x) is type(y) and not isinstance(x, T) and x == y)

        def bind(x, y):
            return pair(x, y) if isinstance(x, int) and isinstance(y, int) and not isinstance(x, bool) else ref(x, y)

        res = {}

        def node(o, a, b):
            if a[0] != b[0]:
                return False
            if a[0] == 'v':
                x, y = a[1], b[1]
                if isinstance(x, tuple) and isinstance(y, tuple):
                    if not ref(x, y):
                        return False
                    res[o] = a
                    return True
                v, ok = self._mval(sel, x, y)
                if not ok:
                    return False
                res[o] = a if v is x else ('v', v, a[2] if a[2] == b[2] or isnum(x) else b[2])
                return True
            res[o] = a
            if a[0] == 'r':
                return a[1] == b[1] and a[2].keys() == b[2].keys() and all(pair(x, b[2][f]) for f, x in a[2].items())
            if a[0] == 's':
                return len(a[3]) == len(b[3]) and all(pair(x, y) for x, y in zip(a[3], b[3]))
            if a[0] == 'm':
                return len(a[4]) == len(b[4]) and all(x[0] == y[0] and pair(x[1], y[1]) for x, y in zip(a[4], b[4]))
            return True

        later = []
        for o, a in h1.items():
            if o >= mark:
                continue
            b = h2.get(o)
            if b is None:
                continue
            if a is b:
                res[o] = a
                if a[0] != 'v' or isinstance(a[1], tuple):
                    later.append((o, a, b))
            elif not node(o, a, b):
                return None
        for o, b in h2.items():
            if o < mark and o not in h1:
                res[o] = b
        if len(s1.ev) != len(s2.ev) or not all(ref(x, y) for x, y in zip(s1.ev, s2.ev)):
            return None
        if not ref(v1, v2) and not (isinstance(v1, T) or isinstance(v2, T)):
            if isinstance(v1, tuple) or isinstance(v2, tuple):
                return None
        glob = dict(s1.glob)
        for k, y in s2.glob.items():
            if k not in glob:
                if k.startswith('s:'):
                    return None
                glob[k] = y
                for o in self.closure(h2, y):
                    if o not in h1:
                        res[o] = h2[o]
            elif not bind(glob[k], y):
                return None
        for k, x in s1.glob.items():
            if k not in s2.glob:
                if k.startswith('s:'):
                    return None
                for o in self.closure(h1, x):
                    res[o] = h1[o]
        frames = []
        for f1, f2 in zip(s1.frames, s2.frames):
            nf = {}
            for k, x in f1.items():
                if k in f2:
                    if k in ('#mark', '#up'):
                        if x != f2[k]:
                            return None
                    elif not bind(x, f2[k]):
                        return None
                    nf[k] = x
            frames.append(nf)
        for o, a, b in later:
            if not node(o, a, b):
                return None
        while work:
            x, y = work.pop()
            a, b = h1.get(x), h2.get(y)
            if a is None or b is None:
                return None
            if not node(x, a, b):
                return None
        return res, frames, glob

    def closure(self, heap, o):
        out, work = set(), [o]
        while work:
            o = work.pop()
            if not isinstance(o, int) or o in out or o not in heap:
                continue
            out.add(o)
            a = heap[o]
            if a[0] == 'r':
                work += a[2].values()
            elif a[0] == 's':
                work += a[3]
            elif a[0] == 'm':
                work += [x for _, x in a[4]]
        return out

    # ---- expressions ----
    def evs(self, es, st):
        """evaluates a list left to right: list of ([values], state)"""
        acc = [([], st)]
        for e in es:
            nxt = []
            for vs, s in acc:
                for v, s2 in self.ev(e, s):
                    nxt.append((vs + [v], s2))
            acc = nxt
        return acc

    def guard(self, st, l, f):
        """runs a transfer function on one state"""
        if l:
            self.line = l
        try:
            return f()
        except UB as x:
            self.ub(st, str(x), l)
            return []
        except tm.DimError as x:
            self.ub(st, 'matrix dimensions: ' + str(x), l)
            return []
        except Unmod as x:
            self.taint(st, str(x))
            return None
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as x:
            if TRACE:
                raise
            self.taint(st, 'no transfer function here (%s)' % (str(x)[:80] or type(x).__name__))
            return None

    def opq(self, e):
        t = base(e.get('t', 'void')) if isinstance(e, dict) else 'void'
        if t.startswith(('M:', 'MX:')):
            r, c = mdims(t)
            return tm.opaque('unmodelled', (max(r, 1), max(c, 1)))
        if t.startswith('Q'):
            return tm.opaque('unmodelled', 'q')
        if t == 'b':
            return tm.opaque('unmodelled', 'b')
        if is_int_t(t):
            return tm.opaque('unmodelled', 'i')
        if is_scalar_t(t):
            return tm.opaque('unmodelled')
        return None

    def ev(self, e, st):
        if e is None:
            return [((), st)]
        k = e['k']
        if k in ('var', 'mem', 'idx'):
            out = []
            for loc, s in self.lv(e, st):
                r = self.guard(s, e.get('l'), lambda: [(self.load(s, loc), s)])
                out += [(self.opq(e), s)] if r is None else r
            return out
        m = getattr(self, 'e_' + k, None)
        if m is None:
            self.taint(st, 'expression ' + k + ' ' + str(e.get('cls', '')))
            return [(self.opq(e), st)]
        return m(e, st)

    def e_const(self, e, st):
        return [(e['v'], st)]

    def e_int(self, e, st):
        return [(e['v'], st)]

    def e_flt(self, e, st):
        return [(float(e['v']), st)]

    def e_bool(self, e, st):
        return [(bool(e['v']), st)]

    def e_str(self, e, st):
        return [(e.get('v', ''), st)]

    def e_null(self, e, st):
        return [(None, st)]

    def e_zero(self, e, st):
        t = base(e['t'])
        if is_scalar_t(t):
            return [(0.0, st)]
        if t == 'b':
            return [(False, st)]
        if is_int_t(t):
            return [(0, st)]
        if t.startswith(('P<', 'p<')):
            return [(None, st)]
        r = self.guard(st, e.get('l'), lambda: [(self.load(st, self.lib.zero(st, t)), st)])
        return r if r is not None else [(None, st)]

    def e_this(self, e, st):
        return [(('P', self.this(st)), st)]

    def this(self, st):
        f = st.frames[-1]
        while '#this' not in f and '#up' in f:
            f = st.frames[f['#up']]
        return f.get('#this')

    def e_fnref(self, e, st):
        return [(('F', e['key']), st)]

    def e_lambda(self, e, st):
        # captures by value are copied when the lambda is made
        sts = [((), st)]
        for c in e.get('caps', []):
            if c.get('copy'):
                nxt = []
                for acc, s in sts:
                    f = s.frames[-1]
                    while '#this' not in f and '#up' in f:
                        f = s.frames[f['#up']]
                    r = self.guard(s, e.get('l'), lambda: [self.clone(s, f['#this'])])
                    nxt.append((acc + ((('#this', r[0]),) if r else ()), s))
                sts = nxt
                continue
            if c.get('byref') or 'id' not in c:
                continue
            nxt = []
            for acc, s in sts:
                if c.get('init') is not None:
                    for v, s2 in self.ev(c['init'], s):
                        nxt.append((acc + ((c['id'], self.cell2(s2, v, None)),), s2))
                else:
                    f = s.frames[-1]
                    while c['id'] not in f and '#up' in f:
                        f = s.frames[f['#up']]
                    loc = f.get(c['id'])
                    if loc is not None:
                        acc += ((c['id'], self.clone(s, loc) if isinstance(loc, int) else loc if loc[0] in ('blk', 'tr', 'diag', 'arr', 'pick', 'qv') else self.cell2(s, self.load(s, loc), None)),)
                    nxt.append((acc, s))
            sts = nxt
        return [(('L', e['fn'], e, len(s.frames) - 1, acc), s) for acc, s in sts]

    def e_delete(self, e, st):
        return [((), s) for _, s in self.ev(e['e'], st)]

    def e_new(self, e, st):
        out = []
        of = base(e['of'])
        if e.get('init') is not None:
            for v, s in self.ev(e['init'], st):
                if isinstance(v, tuple) and v and v[0] == 'O':
                    out.append((('P', v[1]), s))
                else:
                    out.append((('P', s.new(self.v(v))), s))
            return out
        r = self.guard(st, e.get('l'), lambda: [(('P', self.alloc(st, of)), st)])
        return r if r is not None else [(None, st)]

    def e_ilist(self, e, st):
        out = []
        t = base(e['t'])
        for vs, s in self.evs(e['args'], st):
            def f():
                if t.startswith(('array<', 'arr<')):
                    et, n = targs(t)
                    xs = list(vs)
                    if t.startswith('array<') and len(xs) == 1 and isinstance(xs[0], tuple) and xs[0] and xs[0][0] == 'O' and self.obj(s, xs[0][1])[0] == 's' \
                            and self.obj(s, xs[0][1])[2].startswith('arr<') and not base(et).startswith(('arr<',)):
                        return [(('O', s.new(('s', et, t, self.obj(s, xs[0][1])[3]))), s)]
                    cs = [self.cell(s, v) for v in xs]
                    while n.isdigit() and len(cs) < int(n):
                        cs.append(self.lib.zero(s, et))
                    return [(('O', s.new(('s', et, t, tuple(cs)))), s)]
                if t.startswith(CONT):
                    return [(('O', s.new(('s', targs(t)[0], t, tuple(self.cell(s, v) for v in vs)))), s)]
                if t.startswith('R:'):
                    o = self.alloc_rec(s, t[2:], 'agg', init=True)
                    for fl, v in zip(e.get('fields', []), vs):
                        self.store(s, s.heap[o][2][fl], v)
                    return [(('O', o), s)]
                if len(vs) == 1:
                    return [(vs[0], s)]
                if not vs and (is_scalar_t(t) or is_int_t(t) or t == 'b'):
                    return [(False if t == 'b' else 0.0 if is_scalar_t(t) else 0, s)]
                if t.startswith('tup<') and len(vs) == len(targs(t)):
                    return [(('O', s.new(('r', 'std::tuple', {str(i): self.cell(s, v) for i, v in enumerate(vs)}))), s)]
                if t.startswith('pair<') and len(vs) == 2:
                    return [(('O', s.new(('r', 'std::pair', {'first': self.cell(s, vs[0]), 'second': self.cell(s, vs[1])}))), s)]
                raise Unmod('initialiser list of ' + t)
            r = self.guard(s, e.get('l'), f)
            out += [(self.opq(e), s)] if r is None else r
        return out

    def cell(self, st, v):
        """fresh cell holding a copy of v"""
        if isinstance(v, tuple) and v and v[0] == 'O':
            return self.clone(st, v[1])
        return st.new(self.v(v))

    def e_cast(self, e, st):
        t = base(e['t'])
        out = []
        for v, s in self.ev(e['e'], st):
            if t == 'f32':
                self.narrow(s, v, base(e.get('from', t)), e.get('l'))
            r = self.guard(s, e.get('l'), lambda: [(self.cast(v, t, base(e.get('from', t))), s)])
            out += [(self.opq(e), s)] if r is None else r
        return out

    def narrow(self, st, v, frm, l):
        """remembers where a quantity that moves with the time stamps is rounded to single precision"""
        if frm == 'f64' and isinstance(v, T) and v.sh == 's' and tm.shift(v) not in (0, None):
            self.narrowed.append((st.pc, self.where(l), 'a time stamp is rounded to single precision', st.taint))

    def cast(self, v, t, frm):
        if is_scalar_t(t):
            if isinstance(v, (bool, int)):
                return float(v)
            if isinstance(v, T):
                return tm.tofloat(v)
            return v
        if t == 'b':
            if isinstance(v, T):
                return v if v.sh == 'b' else tm.not_(tm.eq(v, 0))
            if isinstance(v, (bool, int, float)):
                return v != 0
            return v is not None
        if is_int_t(t):
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, float):
                v = tm.trunc(v)
            if isinstance(v, int):
                return self.wrap(v, t)
            if isinstance(v, T):
                return tm.trunc(v)
        return v

    def wrap(self, v, t):
        t = base(t)
        if isinstance(v, bool) or not isinstance(v, int) or t.startswith('e:'):
            return v
        if t[0] == 'u':
            return v & ((1 << int(t[1:])) - 1)
        if t[0] == 'i':
            n = int(t[1:])
            v &= (1 << n) - 1
            return v - (1 << n) if v >> (n - 1) else v
        return v

    def e_cond(self, e, st):
        out = []
        mark = st.nxt
        for c, s in self.ev(e['q'], st):
            for b, s2 in self.branch(s, c):
                out += self.ev(e['a'] if b else e['c'], s2)
        return self.mergevals(out, mark)

    def mergevals(self, rs, mark=None):
        """joins (value, state) pairs whose values can be joined"""
        if len(rs) < 2:
            return rs
        out = [rs[0]]
        for v, s in rs[1:]:
            done = False
            for i, (v0, s0) in enumerate(out):
                n = 0
                while n < len(s0.pc) and n < len(s.pc) and s0.pc[n] is s.pc[n]:
                    n += 1
                r1 = s0.pc[n:]
                sel = tm.and_(*r1) if r1 else True
                if sel is True and s.pc[n:]:
                    sel = tm.not_(tm.and_(*s.pc[n:]))
                mv, ok = self._mval(sel, v0, v)
                if not ok:
                    if isinstance(v0, tuple) and (v0 == v or (mark is not None and isinstance(v, tuple) and v0 and v and v0[0] == v[0])):
                        mv, ok = v0, True
                if not ok:
                    continue
                m = self.merge2(s0, s, mark, v0, v) if v0 is v or v0 == v or not isinstance(v0, tuple) else self.merge3(s0, s, mark, v0, v)
                if m is not None:
                    out[i] = (mv, m)
                    done = True
                    break
            if not done:
                out.append((v, s))
        return out

    def e_bin(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            out = []
            mark = st.nxt
            for a, s in self.ev(e['a'], st):
                for b, s2 in self.branch(s, a):
                    if b == (op == '||'):
                        out.append((b, s2))
                    else:
                        for c, s3 in self.ev(e['c'], s2):
                            c = self.truth(c)
                            if isnum(c):
                                out.append((bool(c), s3))
                            else:
                                for b3, s4 in self.branch(s3, c):
                                    out.append((b3, s4))
            return self.mergevals(out, mark)
        if op == ',':
            out = []
            for _, s in self.ev(e['a'], st):
                out += self.ev(e['c'], s)
            return out
        out = []
        for (a, b), s in self.evs([e['a'], e['c']], st):
            r = self.guard(s, e.get('l'), lambda: [(self.binop(op, a, b, e.get('t', '')), s)])
            out += [(self.opq(e), s)] if r is None else r
        return out

    def truth(self, v):
        if isinstance(v, T):
            return v if v.sh == 'b' else tm.not_(tm.eq(v, 0))
        if isinstance(v, NUMT):
            return v != 0
        return v is not None

    def binop(self, op, a, b, t):
        bt = base(t)
        if isinstance(a, tuple) or isinstance(b, tuple) or a is None or b is None:
            if op == '==':
                return a == b
            if op == '!=':
                return a != b
            raise Unmod('pointer operator ' + op)
        if isinstance(a, str) or isinstance(b, str):
            if op == '==':
                return a == b
            if op == '!=':
                return a != b
            if op == '+':
                return a + b
            raise Unmod('string operator ' + op)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if op == '<':
                return tm.lt(a, b)
            if op == '>':
                return tm.lt(b, a)
            if op == '<=':
                return tm.le(a, b)
            if op == '>=':
                return tm.le(b, a)
            r = tm.eq(a, b)
            return r if op == '==' else tm.not_(r)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if op == '+':
            r = tm.add(a, b)
        elif op == '-':
            r = tm.sub(a, b)
        elif op == '*':
            r = tm.mul(a, b)
        elif op == '/':
            if isinstance(b, int) and b == 0 and is_int_t(bt):
                raise UB('integer division by zero')
            r = tm.div(a, b)
        elif op == '%':
            if isinstance(b, int) and b == 0:
                raise UB('integer remainder by zero')
            r = tm.mod(a, b)
        elif op in ('&', '|', '^', '<<', '>>') and isinstance(a, int) and isinstance(b, int):
            if op in ('<<', '>>'):
                if b < 0:
                    raise UB('negative shift count')
                r = a << min(b, 64) if op == '<<' else a >> b
            else:
                r = {'&': a & b, '|': a | b, '^': a ^ b}[op]
        elif op in ('&', '|') and tm.sh_of(a) == 'b' and tm.sh_of(b) == 'b':
            r = tm.and_(a, b) if op == '&' else tm.or_(a, b)
        else:
            raise Unmod('operator ' + op)
        if isinstance(r, int) and not isinstance(r, bool) and is_int_t(bt):
            r = self.wrap(r, bt)
        if isinstance(r, int) and is_scalar_t(bt):
            r = float(r)
        return r

    def e_un(self, e, st):
        op = e['op']
        if op == '&':
            if e['e'].get('k') == 'fnref':
                return self.ev(e['e'], st)
            out = []
            for loc, s in self.lv(e['e'], st):
                out.append((('P', loc), s))
            return out
        if op in ('++', '--', '*'):
            out = []
            for loc, s in self.e_unlv(e, st, True):
                if isinstance(loc, tuple) and loc and loc[0] == 'val':
                    out.append((loc[1], s))
                else:
                    r = self.guard(s, e.get('l'), lambda: [(self.load(s, loc), s)])
                    out += [(self.opq(e), s)] if r is None else r
            return out
        out = []
        for v, s in self.ev(e['e'], st):
            if op == '!':
                out.append((tm.not_(self.truth(v)), s))
            elif op == '-':
                r = -v if isnum(v) else tm.neg(v)
                out.append((self.wrap(r, e['t']) if isinstance(r, int) and not isinstance(r, bool) else r, s))
            elif op == '+':
                out.append((v, s))
            elif op == '~' and isinstance(v, int):
                out.append((self.wrap(~v, e['t']), s))
            else:
                self.taint(s, 'unary ' + op)
                out.append((self.opq(e), s))
        return out

    def e_unlv(self, e, st, val=False):
        op = e['op']
        out = []
        if op == '*':
            for p, s in self.ev(e['e'], st):
                r = self.guard(s, e.get('l'), lambda: [(self.deref(s, p), s)])
                out += [(('tmp', self.opq(e)), s)] if r is None else r
            return out
        for loc, s in self.lv(e['e'], st):
            def f():
                v = self.load(s, loc)
                if isinstance(v, tuple) and v and v[0] == 'P':
                    raise Unmod('pointer arithmetic')
                n = self.binop('+' if op == '++' else '-', v, 1, e['t'])
                self.store(s, loc, n)
                return [(('val', v) if e.get('post') and val else loc, s)]
            r = self.guard(s, e.get('l'), f)
            out += [(loc, s)] if r is None else r
        return out

    def e_asg(self, e, st):
        out = []
        for loc, s in self.asg(e, st):
            r = self.guard(s, e.get('l'), lambda: [(self.load(s, loc), s)])
            out += [(self.opq(e), s)] if r is None else r
        return out

    def asg(self, e, st):
        out = []
        op = e['op']
        for v, s in self.ev(e['c'], st):
            for loc, s2 in self.lv(e['a'], s):
                def f():
                    if op == '=':
                        self.store(s2, loc, v)
                    else:
                        x = self.binop(op[:-1], self.load(s2, loc), v, e.get('ct', e['t']))
                        if base(e['t']) == 'f32':
                            self.narrow(s2, x, base(e.get('ct', e['t'])), e.get('l'))
                        self.store(s2, loc, self.cast(x, base(e['t']), ''))
                    return [(loc, s2)]
                r = self.guard(s2, e.get('l'), f)
                out += [(loc, s2)] if r is None else r
        return out

    # ---- lvalues ----
    def lv(self, e, st):
        k = e['k']
        if k == 'var':
            if 'cv' in e:
                return [(('tmp', e['cv']), st)]
            if 'cf' in e:
                return [(('tmp', float(e['cf'])), st)]
            i = e['id']
            if i[0] in 'gs' and i[1:2] == ':':
                r = self.guard(st, e.get('l'), lambda: [(self.globloc(st, i, e), st)])
                return [(('tmp', self.opq(e)), st)] if r is None else r
            f = st.frames[-1]
            while i not in f and '#up' in f:
                f = st.frames[f['#up']]
            if i in f:
                if '#lz:%s:0' % i in f:
                    r = self.relazy(i, f, e, st)
                    if r is not None:
                        return r
                return [(f[i], st)]
            self.taint(st, 'unbound variable ' + e.get('name', i))
            return [(('tmp', self.opq(e)), st)]
        if k == 'mem':
            out = []
            if e.get('arrow'):
                for p, s in self.ev(e['b'], st):
                    r = self.guard(s, e.get('l'), lambda: [(self.field(s, self.deref(s, p), e), s)])
                    out += [(('tmp', self.opq(e)), s)] if r is None else r
                return out
            for b, s in self.lv(e['b'], st):
                r = self.guard(s, e.get('l'), lambda: [(self.field(s, b, e), s)])
                out += [(('tmp', self.opq(e)), s)] if r is None else r
            return out
        if k == 'idx':
            out = []
            for i, s in self.ev(e['i'], st):
                for b, s2 in self.lv(e['b'], s):
                    def f():
                        ob = self.obj(s2, b)
                        if ob[0] != 's' or not isinstance(i, int):
                            raise Unmod('array index')
                        self.stat['index'] += 1
                        if not 0 <= i < len(ob[3]):
                            raise UB('array index %d of %d' % (i, len(ob[3])))
                        return [(ob[3][i], s2)]
                    r = self.guard(s2, e.get('l'), f)
                    out += [(('tmp', self.opq(e)), s2)] if r is None else r
            return out
        if k == 'un' and e['op'] in ('*', '++', '--') and not e.get('post'):
            return self.e_unlv(e, st)
        if k == 'asg':
            return self.asg(e, st)
        if k == 'cond' and e.get('lv'):
            out = []
            for c, s in self.ev(e['q'], st):
                for b, s2 in self.branch(s, c):
                    out += self.lv(e['a'] if b else e['c'], s2)
            return out
        if k == 'call':
            out = []
            for r, s in self.do_call(e, st):
                out.append((self.toloc(r), s))
            return out
        if k == 'bin' and e['op'] == ',':
            out = []
            for _, s in self.ev(e['a'], st):
                out += self.lv(e['c'], s)
            return out
        if k in ('ctor', 'cast') and isview(e['t']):
            if k == 'cast' or e['args'] and len([a for a in e['args'] if not a['t'].startswith('p<')]) == 1:
                return self.lv(e['e'] if k == 'cast' else e['args'][0], st)
        return [(self.toloc(v), s) for v, s in self.ev(e, st)]

    def toloc(self, r):
        if isinstance(r, tuple) and r:
            if r[0] == 'LOC':
                return r[1]
            if r[0] == 'O':
                return r[1]
        return ('tmp', r)

    def field(self, st, loc, e):
        ob = self.obj(st, loc)
        if ob[0] != 'r':
            raise Unmod('member %s of a non-record' % e['f'])
        o = ob[2].get(e['f'])
        if o is None:
            raise Unmod('field %s of %s' % (e['f'], ob[1]))
        if e.get('ref'):
            v = st.heap[o]
            if v[0] == 'v' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'REF':
                return v[1][1]
        return o

    def globloc(self, st, i, e):
        if i.startswith('g:std::'):
            return ('tmp', ('X', 'ostream'))
        k = {'g:Eigen::all': ('IXA',), 'g:Eigen::last': ('IXL', 0), 'g:Eigen::lastp1': ('IXL', 1)}.get(i.replace('placeholders::', ''))
        if k is not None:
            return ('tmp', k)
        o = st.glob.get(i)
        if o is None:
            v = self.p.vars.get(i)
            if v is None:
                raise Unmod('global ' + i)
            o = self.alloc(st, v['t'], i)
            st.glob[i] = o
            if v.get('init') is not None:
                self.init_into(st, o, v['t'], v['init'])
        return o

    # ---- calls ----
    def e_call(self, e, st):
        out = []
        for r, s in self.do_call(e, st):
            if isinstance(r, tuple) and r and r[0] == 'LOC':
                q = self.guard(s, e.get('l'), lambda: [(self.load(s, r[1]), s)])
                out += [(self.opq(e), s)] if q is None else q
            else:
                out.append((r, s))
        return out

    def bind_args(self, f, args, st):
        """evaluates call arguments as the parameters require: list of ([locations], state)"""
        acc = [([], st)]
        for i, a in enumerate(args):
            ref = i < len(f['params']) and byloc(f['params'][i]['t'])
            nxt = []
            for vs, s in acc:
                if ref:
                    for loc, s2 in self.lv(a, s):
                        if not isinstance(loc, int) and loc[0] == 'tmp':
                            r = self.guard(s2, a.get('l'), lambda: [self.cell2(s2, loc[1], f['params'][i]['t'])])
                            loc = r[0] if r else loc
                        nxt.append((vs + [loc], s2))
                else:
                    for v, s2 in self.ev(a, s):
                        r = self.guard(s2, a.get('l'), lambda: [self.cell2(s2, v, f['params'][i]['t'] if i < len(f['params']) else None)])
                        if r is None:
                            r = [s2.new(self.v(None))]
                        if r:
                            nxt.append((vs + [r[0]], s2))
            acc = nxt
        return acc

    def cell2(self, st, v, t):
        if isinstance(v, tuple) and v and v[0] == 'O':
            return self.clone(st, v[1])
        if isinstance(v, tuple) and v and v[0] == 'L' and v[4] and isinstance(v[2], dict) and v[2].get('mut'):
            v = v[:4] + (tuple((k, self.clone(st, o) if isinstance(o, int) else o) for k, o in v[4]),)
        if t is not None and isinstance(v, T):
            b = base(t)
            if b.startswith('Q:') and v.sh == (3, 3):
                v = tm.qfrommat(v)
            elif b.startswith('M:') and v.sh == 'q':
                v = tm.qmat(v)
            elif is_scalar_t(b) and v.sh == (1, 1):
                v = tm.mc(v, 0, 0)
        return st.new(self.v(v))

    def do_call(self, e, st):
        key = e.get('key')
        f = self.p.fns.get(key) if key else None
        stub = None
        if key:
            stub = self.stubs.get(key) or self.stubs.get(e.get('fn'))
        if f is None and stub is None and e.get('op') == '()' and e.get('obj') is not None and base(e['obj'].get('t', '')) == 'lambda':
            out = []
            for c, s in self.ev(e['obj'], st):
                out += self.call_value(e, c, e['args'], s)
            return out
        if f is None and stub is None:
            if e.get('repo') and e.get('obj') is not None and e.get('name') and not e['name'].startswith('operator') and not e.get('qual'):
                # without a body here: an abstract function
                out = []
                for p, s in (self.ev if e.get('arrow') else self.lv)(e['obj'], st):
                    r = self.guard(s, e.get('l'), lambda: [self.deref(s, p) if e.get('arrow') else p])
                    for o in r or []:
                        ob = s.heap.get(o) if isinstance(o, int) else None
                        c = [x for x in self.p.fns.values() if ob is not None and ob[0] == 'r' and x.get('rec') == ob[1] and x.get('name') == e['name'] and len(x['params']) == len(e['args'])]
                        if len(c) == 1 and c[0].get('virt'):
                            out += [y for locs, s2 in self.bind_args(c[0], e['args'], s) for y in self.call(c[0], o, locs, s2, e.get('l'))]
                        else:
                            self.taint(s, 'function %s without a body' % e['name'])
                            out.append((self.opq(e), s))
                return out
            if e.get('repo'):
                # a defaulted member of a repository record
                return self.lib.call(e, st)
            if 'callee' in e or key is None:
                out = []
                for c, s in self.ev(e.get('callee'), st):
                    out += self.call_value(e, c, e['args'], s)
                return out
            return self.lib.call(e, st)
        out = []
        # receiver
        if e.get('obj') is not None and not (f or {}).get('smeth'):
            if e.get('arrow'):
                recv = []
                for p, s in self.ev(e['obj'], st):
                    r = self.guard(s, e.get('l'), lambda: [(self.deref(s, p), s)])
                    recv += [] if r is None else r
            else:
                recv = self.lv(e['obj'], st)
        else:
            recv = [(None, st)]
        for this, s in recv:
            if this is not None and not isinstance(this, int):
                r = self.guard(s, e.get('l'), lambda: [self.cell2(s, self.load(s, this), None)])
                if not r:
                    continue
                this = r[0]
            if f is not None and f.get('virt') and stub is None and isinstance(this, int) and not e.get('qual'):
                ob = s.heap.get(this)
                if ob is not None and ob[0] == 'r' and ob[1] != f.get('rec'):
                    # dynamic dispatch
                    c = [x for x in self.p.fns.values() if x.get('rec') == ob[1] and x.get('name') == f['name'] and [p['t'] for p in x['params']] == [p['t'] for p in f['params']]]
                    if len(c) == 1:
                        out += [y for locs, s2 in self.bind_args(c[0], e['args'], s) for y in self.call(c[0], this, locs, s2, e.get('l'))]
                        continue
                    if any(x.get('rec') == ob[1] and x.get('name') == f['name'] for x in self.p.fns.values()):
                        self.taint(s, 'virtual call')
            ff = f if f is not None else {'params': [], 'ret': e.get('t', 'void')}
            for locs, s2 in self.bind_args(ff, e['args'], s):
                if stub is not None:
                    r = self.guard(s2, e.get('l'), lambda: stub(self, s2, e, this, locs))
                    out += [(self.opq(e), s2)] if r is None else r
                else:
                    out += self.call(f, this, locs, s2, e.get('l'))
        return out

    def call_value(self, e, c, args, st):
        if isinstance(c, tuple) and c and c[0] == 'F':
            f = self.p.fns.get(c[1])
            if f:
                out = []
                for locs, s in self.bind_args(f, args, st):
                    out += self.call(f, None, locs, s, e.get('l'))
                return out
        if isinstance(c, tuple) and c and c[0] == 'L':
            node = self.instance(c[2], e.get('key'))
            out = []
            for locs, s in self.bind_args(node, args, st):
                out += self.call_lambda(c, locs, s, node)
            return out
        self.taint(st, 'call through a value')
        return [(self.opq(e), st)]

    def instance(self, node, key=None):
        """the instantiation of a generic lambda that is called"""
        for x in node.get('specs', []):
            if x['fn'] == key:
                return x
        return node

    def call_lambda(self, c, locs, st, node=None):
        node = node or c[2]
        if 'body' not in node or (node is c[2] and 'specs' in node):
            self.taint(st, 'generic lambda')
            return [(None, st)]
        fr = {'#up': c[3], '#mark': st.nxt}
        fr.update(c[4])
        mark = st.nxt
        for p, l in zip(node['params'], locs):
            fr[p['id']] = l
        st.frames.append(fr)
        out = []
        for sig, s in self.ex(node['body'], st):
            s.frames.pop()
            out.append((sig[1] if isinstance(sig, tuple) else (), s))
        return self.mergevals(out, mark)

    def call(self, f, this, locs, st, l=None):
        """executes a function of the program; list of (result, state)"""
        if len(self.cur) > 40:
            self.taint(st, 'recursion')
            return [(None, st)]
        self.stat['calls'] += 1
        self.fns.add(f['key'])
        mark = st.nxt
        fr = {'#mark': mark}
        if this is not None:
            fr['#this'] = this
        for p, loc in zip(f['params'], locs):
            fr[p['id']] = loc
        st.frames.append(fr)
        self.cur.append(f)
        saveline = self.line
        states = [st]
        if f.get('ctor'):
            for i in f.get('inits', []):
                nxt = []
                for s in states:
                    nxt += self.run_init(i, this, s)
                states = nxt
        out = []
        byret = byloc(f.get('ret') or '')
        for s0 in states:
            for sig, s in self.ex(f['body'], s0, byret):
                if isinstance(sig, tuple) and sig[0] == 'ret':
                    r = sig[1]
                else:
                    r = ()
                s.frames.pop()
                out.append((r, s))
        self.cur.pop()
        self.line = saveline
        return self.mergevals(out, mark)

    def run_init(self, i, this, st):
        if 'f' not in i:
            if i.get('deleg'):
                x = i['e'] or {}
                f = self.p.fns.get(x.get('key')) if x.get('k') == 'ctor' else None
                if f is None:
                    self.taint(st, 'delegating constructor')
                    return [st]
                return [s2 for locs, s in self.bind_args(f, x['args'], st) for _, s2 in self.call(f, this, locs, s, x.get('l'))]
            return [st]
        ob = st.heap[this]
        o = ob[2][i['f']]
        if i['e'] is None:
            return [st]
        out = []
        if isref(i['t']):
            for loc, s in self.lv(i['e'], st):
                s.heap[o] = self.v(('REF', loc))
                out.append(s)
            return out
        for v, s in self.ev(i['e'], st):
            r = self.guard(s, i['e'].get('l'), lambda: [self.store(s, o, v, i['t'])])
            out += [s] if r is None or r else []
        return out

    def construct(self, rec, args, st, key=None, l=None):
        """constructs a record of the program from argument expressions: list of (('O', oid), state)"""
        if rec in self.p.dtors:
            self.taint(st, 'destructor of ' + rec)
        f = self.p.fns.get(key) if key else None
        if f is None:
            c = [g for g in self.p.fns.values() if g.get('ctor') and g.get('rec') == rec and len(g['params']) == len(args)]
            f = c[0] if len(c) == 1 else None
        if f is None:
            if len(args) == 1 and base(args[0].get('t', '')) == 'R:' + rec:
                return [(('O', self.clone(s, v[1])) if isinstance(v, tuple) and v and v[0] == 'O' else v, s) for v, s in self.ev(args[0], st)]
            if args:
                raise Unmod('constructor of %s with %d arguments' % (rec, len(args)))
            return [(('O', self.alloc_rec(st, rec, rec.split('::')[-1])), st)]
        out = []
        for locs, s in self.bind_args(f, args, st):
            o = self.alloc_rec(s, rec, rec.split('::')[-1], init=False)
            for _, s2 in self.call(f, o, locs, s, l):
                out.append((('O', o), s2))
        return out

    def e_ctor(self, e, st):
        t = base(e['t'])
        if t.startswith('R:'):
            if e.get('copy') and t[2:] in self.p.copies and e.get('key') in self.p.fns:
                r = self.guard(st, e.get('l'), lambda: self.construct(t[2:], e['args'], st, e['key'], e.get('l')))
                return [(self.opq(e), st)] if r is None else r
            if e.get('copy'):
                out = []
                for v, s in self.ev(e['args'][0], st):
                    if isinstance(v, tuple) and v and v[0] == 'O':
                        r = self.guard(s, e.get('l'), lambda: [(('O', self.clone(s, v[1])), s)])
                        out += [(v, s)] if r is None else r
                    else:
                        self.taint(s, 'copy construction')
                        out.append((v, s))
                return out
            r = self.guard(st, e.get('l'), lambda: self.construct(t[2:], e['args'], st, e.get('key'), e.get('l')))
            if e.get('zi') and not e['args']:
                for v, s in r or []:
                    self.zeroed(s, v[1])
            return [(self.opq(e), st)] if r is None else r
        return self.lib.ctor(e, t, st)

    # ---- statements: list of (signal, state); signal None | 'brk' | 'cont' | ('ret', value) ----
    def ex(self, n, st, byret=False):
        self._byret = byret
        saved = getattr(self, '_br', False)
        self._br = byret
        try:
            return self.stmt(n, st)
        finally:
            self._br = saved

    def stmt(self, n, st):
        if n is None:
            return [(None, st)]
        self.stat['stmts'] += 1
        self.line = n.get('l', self.line)
        m = getattr(self, 's_' + n['k'], None)
        if m is None:
            self.taint(st, 'statement ' + n['k'] + ' ' + str(n.get('cls', '')))
            return [(None, st)]
        return m(n, st)

    def seq(self, ns, sts):
        """runs statements over states; returns signals"""
        out = []
        cur = list(sts)
        for n in ns:
            nxt = []
            for s in cur:
                for sig, s2 in self.stmt(n, s):
                    if sig is None:
                        nxt.append(s2)
                    else:
                        out.append((sig, s2))
            cur = self.merge(nxt)
            if not cur:
                break
        return self.mergesig(out) + [(None, s) for s in cur]

    def mergesig(self, rs):
        if len(rs) < 2:
            return rs
        groups = {}
        out = []
        rets = []
        for sig, s in rs:
            if isinstance(sig, tuple):
                rets.append((sig[1], s))
            else:
                groups.setdefault(sig, []).append(s)
        for sig, ss in groups.items():
            out += [(sig, s) for s in self.merge(ss)]
        for v, s in self.mergevals(rets, rets[0][1].frames[-1].get('#mark') if rets else None):
            out.append((('ret', v), s))
        return out

    def s_block(self, n, st):
        keep = st.frames[-1].keys()
        return self.unscope(self.seq(n['b'], [st]), set(keep))

    def unscope(self, rs, keep):
        """variables of a block end with it"""
        ch = False
        for _, s in rs:
            f = s.frames[-1]
            if len(f) > len(keep):
                s.frames[-1] = {k: x for k, x in f.items() if k in keep}
                ch = True
        return self.mergesig2(rs) if ch and len(rs) > 1 else rs

    def s_expr(self, n, st):
        e = n['e']
        if e is None:
            return [(None, st)]
        if e['k'] == 'call':
            return [(None, s) for _, s in self.do_call(e, st)]
        if e['k'] == 'asg':
            return [(None, s) for _, s in self.asg(e, st)]
        if e['k'] == 'un' and e['op'] in ('++', '--'):
            return [(None, s) for _, s in self.e_unlv(e, st)]
        return [(None, s) for _, s in self.ev(e, st)]

    def s_nop(self, n, st):
        return [(None, st)]

    def s_break(self, n, st):
        return [('brk', st)]

    def s_cont(self, n, st):
        return [('cont', st)]

    def s_ret(self, n, st):
        e = n.get('e')
        if e is None:
            return [(('ret', ()), st)]
        if self._br:
            return [(('ret', ('LOC', loc)), s) for loc, s in self.lv(e, st)]
        return [(('ret', v), s) for v, s in self.ev(e, st)]

    def s_decl(self, n, st):
        states = [st]
        for v in n['vars']:
            nxt = []
            for s in states:
                nxt += self.decl(v, s)
            states = nxt
        return [(None, s) for s in states]

    def decl(self, v, st):
        t = v['t']
        if v.get('static') or v['id'].startswith('s:'):
            if v['id'] in st.glob:
                return [st]
            if byloc(t):
                out = []
                for loc, s in self.lv(v['init'], st):
                    s.glob[v['id']] = loc
                    out.append(s)
                return out
            out = []
            if v.get('init') is None:
                st.glob[v['id']] = self.alloc(st, t, v['name'])
                return [st]
            for x, s in self.ev(v['init'], st):
                s.glob[v['id']] = self.own(s, x, v['init'], t)
                out.append(s)
            return out
        init = v.get('init')
        out = []
        if isref(t) or isview(t) and init is not None:
            for loc, s in self.lv(init, st):
                if not isinstance(loc, int) and loc[0] == 'tmp':
                    loc = s.new(self.v(loc[1]))
                    if islazy(t):
                        self.lazy(v, s)
                s.frames[-1][v['id']] = loc
                self.bindings(v, loc, s)
                out.append(s)
            return out
        if init is None:
            r = self.guard(st, v.get('l'), lambda: [self.alloc(st, t, v['name'])])
            st.frames[-1][v['id']] = r[0] if r else st.new(self.v(None))
            return [st]
        for x, s in self.ev(init, st):
            r = self.guard(s, v.get('l'), lambda: [self.own(s, x, init, t)])
            if r is None:
                r = [s.new(self.v(None))]
            if r:
                s.frames[-1][v['id']] = r[0]
                if islazy(t):
                    self.lazy(v, s)
                self.bindings(v, r[0], s)
                out.append(s)
        return out

    # A variable of an expression type of the matrix library is evaluated at each use: the operands at its declaration
    # are kept, and a use after one of them has changed evaluates the expression again.
    def lazy(self, v, s):
        ops = []

        def rec(n):
            if isinstance(n, dict):
                if n.get('k') == 'call' and n.get('name') == 'eval':
                    return
                b = base(n['t']) if isinstance(n.get('t'), str) else ''
                if n.get('lv') and (n.get('k') == 'mem' or n.get('k') == 'var' or n.get('k') in ('idx', 'call') and b.startswith('M:')) and (b.startswith('M:') or n['k'] == 'var'):
                    ops.append(n)
                    return
                for x in n.values():
                    rec(x)
            elif isinstance(n, list):
                for x in n:
                    rec(x)
        rec(v['init'])
        for j, n in enumerate(ops):
            if 'cv' in n or 'cf' in n:
                continue
            x = self.peek(n, s)
            if x is None:
                return
            s.frames[-1]['#lz:%s:%d' % (v['id'], j)] = s.new(self.v(x))
        if ops:
            s.frames[-1].setdefault('#lz:%s:0' % v['id'], s.new(self.v(None)))
            self.lazies[v['id']] = (ops, v['init'])

    def peek(self, n, s):
        """value of a simple lvalue, without effects"""
        try:
            c = s.copy()
            r = self.lv(n, c)
            if len(r) != 1 or r[0][1].taint is not s.taint or r[0][1] is not c:
                return None
            return self.load(c, r[0][0])
        except (Unmod, UB):
            return None

    def relazy(self, i, f, e, st):
        """the value of an expression variable whose operands have changed; None if they have not"""
        ops, init = self.lazies.get(i, ((), None))
        for j, n in enumerate(ops):
            c = f.get('#lz:%s:%d' % (i, j))
            old = st.heap[c][1] if isinstance(c, int) and c in st.heap else None
            if old is None:
                continue
            x = self.peek(n, st) if f is st.frames[-1] else None
            if x is old or x is None or x == old:
                continue
            if f is not st.frames[-1] or not (isinstance(x, T) and tm.ismat(x)):
                self.taint(st, 'expression variable with changed operands')
                return None
            return [(('tmp', v), s) for v, s in self.ev(init, st)]
        return None

    def bindings(self, v, loc, s):
        if 'bindings' in v:
            ob = s.heap.get(loc) if isinstance(loc, int) else None
            if ob and ob[0] == 'r':
                for b, o in zip(v['bindings'], ob[2].values()):
                    s.frames[-1][b] = o
            elif ob and ob[0] == 's':
                for b, o in zip(v['bindings'], ob[3]):
                    s.frames[-1][b] = o
            else:
                self.taint(s, 'structured binding')

    def own(self, st, x, init, t):
        """cell for a variable initialised with x (prvalues are moved, lvalues copied)"""
        if isinstance(x, tuple) and x and x[0] == 'O':
            if init is not None and init['k'] in ('ctor', 'ilist', 'new') or (init is not None and init['k'] == 'call' and not init.get('lv')):
                # a temporary; functions returning by value may return a member, so copy unless it is a constructor
                if init['k'] in ('ctor', 'ilist'):
                    return x[1]
            return self.clone(st, x[1])
        return self.cell2(st, x, t)

    def s_if(self, n, st):
        states = [(None, st)]
        keep = set(st.frames[-1])
        for k in ('init', 'cv'):
            if n.get(k) is not None:
                nxt = []
                for _, s in states:
                    nxt += self.stmt(n[k], s)
                states = nxt
        out = []
        for _, s in states:
            for c, s2 in self.ev(n['q'], s):
                r = self.guard(s2, n['q'].get('l'), lambda: self.branch(s2, c))
                for b, s3 in (r or []):
                    if b:
                        out += self.stmt(n['a'], s3)
                    elif n.get('c') is not None:
                        out += self.stmt(n['c'], s3)
                    else:
                        out.append((None, s3))
        for _, s in out:
            if len(s.frames[-1]) > len(keep):
                s.frames[-1] = {k: y for k, y in s.frames[-1].items() if k in keep}
        return self.mergesig2(out)

    def mergesig2(self, out):
        norm = [s for sig, s in out if sig is None]
        oth = [(sig, s) for sig, s in out if sig is not None]
        return [(None, s) for s in self.merge(norm)] + self.mergesig(oth)

    def loop(self, st, cond, body, inc, pre=True, cv=None, line=None, raw=False):
        self.stat['loops'] += 1
        if self.cur and line is not None:
            self.looplines.add((self.cur[-1]['key'], line))
        out, exits = [], []
        active = [st]
        n = 0
        first = not pre
        while active:
            n += 1
            self.stat['iter'] += 1
            if n > self.most:
                self.most = n
            if n > self.loopcap:
                for s in active:
                    self.capped.append((s.pc, self.where(line), 'the loop is still running after %d rounds' % (n - 1), s.taint))
                    self.taint(s, 'loop bound of the analysis reached')
                break
            nxt = []
            for s in active:
                if first:
                    bs = [(True, s)]
                elif cond is None:
                    bs = [(True, s)]
                else:
                    bs = []
                    ss = [s]
                    if cv is not None:
                        ss = [x for _, x in self.stmt(cv, s)]
                    for sx in ss:
                        for c, s2 in self.ev(cond, sx):
                            r = self.guard(s2, cond.get('l'), lambda: self.branch(s2, c))
                            bs += r or []
                for b, s2 in bs:
                    if not b:
                        exits.append(s2)
                        continue
                    for sig, s3 in self.stmt(body, s2):
                        if sig is None or sig == 'cont':
                            if inc is not None:
                                nxt += [s4 for _, s4 in self.s_expr({'e': inc}, s3)]
                            else:
                                nxt.append(s3)
                        elif sig == 'brk':
                            exits.append(s3)
                        else:
                            out.append((sig, s3))
            first = False
            active = self.merge(nxt)
        if raw:                # the caller joins after the loop variables are gone
            return [(None, s) for s in exits] + out
        return [(None, s) for s in self.merge(exits)] + self.mergesig(out)

    def s_while(self, n, st):
        return self.loop(st, n['q'], n['b'], None, cv=n.get('cv'), line=n.get('l'))

    def s_do(self, n, st):
        return self.loop(st, n['q'], n['b'], None, pre=False, line=n.get('l'))

    def s_for(self, n, st):
        out = []
        keep = set(st.frames[-1])
        for _, s in self.stmt(n.get('init'), st):
            out += self.loop(s, n.get('q'), n['b'], n.get('inc'), line=n.get('l'), raw=True)
        for _, s in out:
            s.frames[-1] = {k: x for k, x in s.frames[-1].items() if k in keep}
        return self.mergesig2(out)

    def s_rfor(self, n, st):
        out = []
        keep = set(st.frames[-1])
        self.stat['loops'] += 1
        if self.cur:
            self.looplines.add((self.cur[-1]['key'], n.get('l')))
        for loc, s in self.lv(n['range'], st):
            s.frames[-1]['#range%d' % n.get('l', 0)] = loc
            r = self.guard(s, n.get('l'), lambda: [self.lib.elems(s, loc)])
            if not r:
                if r is None:
                    out.append((None, s))
                continue
            els = r[0]
            active, exits = [s], []
            v = n['var']
            for o in els:
                self.stat['iter'] += 1
                nxt = []
                for s2 in active:
                    def bind():
                        if byloc(v['t']):
                            l2 = o
                        else:
                            l2 = self.clone(s2, o) if isinstance(o, int) else self.cell(s2, self.load(s2, o))
                        s2.frames[-1][v['id']] = l2
                        self.bindings(v, l2, s2)
                        return [1]
                    if not self.guard(s2, n.get('l'), bind):
                        continue
                    for sig, s3 in self.stmt(n['b'], s2):
                        if sig is None or sig == 'cont':
                            if isinstance(o, int) and s3.heap.get(o, ('x',))[0] == 'x':
                                self.ub(s3, 'range-for goes on from an element the body erased', n.get('l'))
                                continue
                            cur = s3.heap.get(loc) if isinstance(loc, int) else None
                            if cur and cur[0] == 's' and cur[2].startswith('vec<') and len(cur[3]) != len(els):
                                self.ub(s3, 'range-for over a vector whose size the body changed', n.get('l'))
                                continue
                            nxt.append(s3)
                        elif sig == 'brk':
                            exits.append(s3)
                        else:
                            out.append((sig, s3))
                active = self.merge(nxt)
                if not active:
                    break
            for x in exits + active:
                x.frames[-1] = {k: y for k, y in x.frames[-1].items() if k in keep}
            out += [(None, x) for x in self.merge(exits + active)]
        for _, s in out:
            if len(s.frames[-1]) > len(keep):
                s.frames[-1] = {k: y for k, y in s.frames[-1].items() if k in keep}
        return self.mergesig2(out)

    def s_switch(self, n, st):
        out = []
        body = n['b']['b'] if n['b'] and n['b']['k'] == 'block' else [n['b']]
        # flatten labels
        flat = []
        for b in body:
            labels = []
            while b is not None and b['k'] in ('case', 'default'):
                labels.append(b['v'] if b['k'] == 'case' else 'default')
                b = b['b']
            flat.append((labels, b))
        vals = [x for ls, _ in flat for x in ls if x != 'default']
        for c, s in self.ev(n['q'], st):
            cand = []
            if isinstance(c, int):
                cand.append((c if c in vals else 'default', s))
            else:
                rest = s
                for x in vals:
                    nr = None
                    for b, s2 in self.branch(rest, tm.eq(c, x)):
                        if b:
                            cand.append((x, s2))
                        else:
                            nr = s2
                    rest = nr
                    if rest is None:
                        break
                if rest is not None:
                    cand.append(('default', rest))
            for x, s2 in cand:
                i = next((k for k, (ls, _) in enumerate(flat) if x in ls), None)
                if i is None:
                    out.append((None, s2))
                    continue
                for sig, s3 in self.seq([b for _, b in flat[i:]], [s2]):
                    out.append((None if sig == 'brk' else sig, s3))
        return self.mergesig2(out)


NUMT = (bool, int, float)
