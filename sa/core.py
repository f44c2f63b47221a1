"""Shapes (partitions of the entry states), obligations, reports, evidence."""
import json
import os
import sys
import time
import traceback
import numpy as np
from . import ir, term as tm
from .engine import Eng, State, UB, Unmod, base, isref, targs
from .term import T, isnum

NS = 'ESKF_VIO_BACKEND::'
# properties about points in time
TIMED = ('C01', 'C02', 'C03', 'C04', 'C13', 'C14', 'C17', 'C27', 'C29', 'C34', 'C36')


class Skip(Exception):
    """the shape cannot be set up on this tree (a private member has gone): undecided"""


class Exit:
    def __init__(self, ret, st):
        self.ret, self.st = ret, st


class World:
    """one shape: an entry state with concrete discrete structure and symbolic numbers"""

    def __init__(self, ck, name, n=96, draw=None, seeds=2, loopcap=400, assume=()):
        self.ck, self.name = ck, name
        self.eng = Eng(ck.prog, loopcap=loopcap if ck.harvest is None else min(loopcap, 100))
        self.eng.rand = lambda st: (st.rands * 7919 + 13) % 104729
        self.st = State()
        self.n, self.draw, self.seeds = n, draw, seeds
        self.like = {}         # leaf name -> (term around which it is drawn, spread)
        self.vals = [tm.Valuation(n, ck.seed * 1000 + 7 * i + 1, draw, like=self.like) for i in range(seeds)]
        self.assumed = list(assume)
        self.nexits = 0
        self.nub = 0

    # ---- building ----
    def new(self, rec, init=True):
        """default-constructed object of a record of the program"""
        r = self.eng.construct(NS + rec, [], self.st)
        if len(r) != 1 or r[0][1] is not self.st:
            raise Skip('branching constructor of ' + rec)
        return r[0][0][1]

    def alloc(self, t):
        return self.eng.alloc(self.st, t)

    def ptr(self, oid):
        return ('P', oid)

    def cell(self, v, st=None):
        return (st or self.st).new(('v', v, ('entry', '', 0)))

    def f(self, oid, path, st=None):
        """oid of a field; the path follows pointers"""
        st = st or self.st
        for p in path.split('.'):
            ob = st.heap[oid]
            while ob[0] == 'v' and isinstance(ob[1], tuple) and ob[1] and ob[1][0] in ('P', 'REF'):
                oid = ob[1][1]
                ob = st.heap[oid]
            if ob[0] == 's':
                oid = ob[3][int(p)]
                continue
            if ob[0] == 'm':
                e = dict(ob[4])[int(p)]
                oid = st.heap[e][2]['second'] if ob[2] is not None else e
                continue
            if ob[0] != 'r':
                raise Skip('no member %s' % path)
            if p not in ob[2]:
                p = self.ck.alias(ob[1], p)
            oid = ob[2][p]
        return oid

    def get(self, oid, path='', st=None):
        st = st or self.st
        if path:
            oid = self.f(oid, path, st)
        ob = st.heap[oid]
        return ob[1] if ob[0] == 'v' else ('O', oid)

    def set(self, oid, path, v, st=None):
        st = st or self.st
        o = self.f(oid, path, st) if path else oid
        if isinstance(v, tuple) and v and v[0] == 'O':
            self.eng.assign_obj(st, o, v[1])
        else:
            st.heap[o] = ('v', v, ('entry', '', 0))

    def where(self, oid, path='', st=None):
        st = st or self.st
        if path:
            oid = self.f(oid, path, st)
        ob = st.heap[oid]
        if ob[0] == 'v' and ob[2][0] != 'entry':
            return ob[2]
        return None

    def seq(self, oid, path='', st=None):
        """element oids of a sequence"""
        st = st or self.st
        if path:
            oid = self.f(oid, path, st)
        return list(st.heap[oid][3])

    def seqv(self, oid, path='', st=None):
        st = st or self.st
        return [self.get(o, '', st) for o in self.seq(oid, path, st)]

    def push(self, oid, path, v):
        o = self.f(oid, path) if path else oid
        ob = self.st.heap[o]
        c = v[1] if isinstance(v, tuple) and v and v[0] == 'O' else self.cell(v)
        self.st.heap[o] = ('s', ob[1], ob[2], ob[3] + (c,))
        return c

    def mput(self, oid, path, k, v):
        o = self.f(oid, path) if path else oid
        ob = self.st.heap[o]
        c = v[1] if isinstance(v, tuple) and v and v[0] == 'O' else self.cell(v)
        p = self.st.new(('r', 'std::pair', {'first': self.cell(k), 'second': c}))
        self.st.heap[o] = ob[:4] + (ob[4] + ((k, p),),)
        return c

    def mitems(self, oid, path='', st=None):
        st = st or self.st
        if path:
            oid = self.f(oid, path, st)
        out = {}
        for k, p in st.heap[oid][4]:
            out[k] = self.get(st.heap[p][2]['second'], '', st) if st.heap[p][0] == 'r' else None
        return out

    def sym(self, oid, prefix, hints=None, skip=()):
        """gives every number inside a record a leaf named after its path"""
        hints = hints or {}
        ob = self.st.heap[oid]
        if ob[0] == 'r':
            for f, x in ob[2].items():
                if f not in skip:
                    self.sym(x, prefix + '.' + f, hints, skip)
        elif ob[0] == 's':
            for i, x in enumerate(ob[3]):
                self.sym(x, '%s[%d]' % (prefix, i), hints, skip)
        elif ob[0] == 'v':
            v = ob[1]
            h = hints.get(prefix.split('.')[-1])
            if isinstance(v, float) or (isinstance(v, T) and v.sh == 's'):
                self.st.heap[oid] = ('v', tm.leaf(prefix, 's', h), ('entry', '', 0))
            elif isinstance(v, T) and v.sh == 'q':
                self.st.heap[oid] = ('v', tm.qleaf(prefix, h or 'unitq'), ('entry', '', 0))
            elif isinstance(v, T) and isinstance(v.sh, tuple) and 0 not in v.sh:
                self.st.heap[oid] = ('v', tm.mleaf(prefix, v.sh[0], v.sh[1], h), ('entry', '', 0))
        return oid

    def assume(self, c):
        self.assumed.append(c)
        if isinstance(c, T):
            self.eng.learn(self.st, c, True)

    # ---- running ----
    def stub(self, fn, f):
        """replaces a function of the program by a summary; without that function the shape is not meaningful"""
        k = NS + fn
        if not any(g['fn'] == k for g in self.ck.prog.fns.values()):
            raise Skip('no function ' + fn)
        self.eng.stubs[k] = f

    def run(self, fn, this=None, args=(), st=None, nparams=None):
        """analyses a function from the entry state; list of Exit"""
        st = st.copy() if st is not None else self.st.copy()
        f = fn if isinstance(fn, dict) else self.ck.prog.find(fn, nparams if nparams is not None else len(args))
        self.ck.entry.add(f['fn'])
        locs = []
        for p, a in zip(f['params'], args):
            if isref(p['t']) and isinstance(a, int) and not isinstance(a, bool) and base(p['t'])[0:1] not in ('u', 'i', 'f') and base(p['t']) != 'b':
                locs.append(a)
            elif isinstance(a, tuple) and a and a[0] == 'CELL':
                locs.append(a[1])
            else:
                locs.append(self.eng.cell2(st, a, p['t']))
        self.lastargs = locs
        self.lastfn = f
        rs = self.eng.call(f, this, locs, st)
        self.nexits += len(rs)
        self.ck.absorb(self)
        self.precision()
        self.last = [Exit(r, s) for r, s in rs]
        return self.last

    def val(self, v, st):
        """numeric or pointer value of a result"""
        if isinstance(v, tuple) and v and v[0] == 'LOC':
            return self.eng.load(st, v[1])
        return v

    # ---- obligations ----
    def mask(self, gate, val):
        m = val(gate).astype(bool).copy()
        for a in self.assumed:
            m &= val(a).astype(bool)
        return m

    def req(self, ex, cond, msg, where=None, extra=True):
        """obligation: on this exit (under `extra`), cond holds"""
        st = ex.st if isinstance(ex, Exit) else ex
        ck = self.ck
        if ck.harvest is not None:
            return None
        ck.nob += 1
        if where is None:
            f = getattr(self, 'lastfn', None)
            where = (f['fn'], f['file'], f['line']) if f else ('?', '?', 0)
        if cond is True or extra is False:
            ck.nproved += 1
            return True
        if st.taint is not None:
            ck.undecided('%s: %s: %s' % (self.name, msg, st.taint))
            return None
        gate = tm.and_(st.gate(), extra)
        if (isinstance(cond, T) and cond.opq) or (isinstance(gate, T) and gate.opq):
            ck.undecided('%s: %s: depends on an unmodelled value' % (self.name, msg))
            return None
        reached = 0
        for val in self.vals:
            m = self.mask(gate, val)
            reached += int(m.sum())
            if not m.any():
                continue
            c = val(cond).astype(bool)
            bad = m & ~c
            if bad.any():
                i = int(np.argmax(bad))
                ck.violate(self, msg, where, self.witness(val, i, [cond, gate]))
                return False
        if reached:
            ck.ntested += 1
            ck.samples += reached
        else:
            ck.nunreached += 1
        return True

    def reach(self, gate):
        """number of valuations that satisfy a condition"""
        if gate is True:
            return self.n * len(self.vals)
        return sum(int(self.mask(gate, v).sum()) for v in self.vals)

    def witness(self, val, i, terms):
        ls = {}
        for t in terms:
            if isinstance(t, T):
                tm.leaves(t, ls)
        out = {}
        for k in sorted(ls, key=str)[:40]:
            x = val(ls[k])[i]
            out[str(k)] = np.round(np.asarray(x, float), 6).tolist() if np.asarray(x).size <= 16 else 'array%s' % (np.asarray(x).shape,)
        return out

    def same(self, a, b, tol=1e-6):
        """equality of two abstract values"""
        return same(a, b, tol)

    def unchanged(self, ex, oid, msg, path=None, skip=()):
        """obligation: everything reachable from oid is as at entry"""
        d = self.diff(self.st, ex.st, oid, oid, path or '', set(), skip)
        for p, cond, wh in d:
            self.req(ex, cond, '%s: %s' % (msg, p), wh)
        if not d:
            self.req(ex, True, msg)

    def diff(self, s0, s1, o0, o1, path, seen, skip=()):
        """conditions under which the contents of two objects agree: list of (path, cond, where)"""
        if (o0, o1) in seen or path in skip:
            return []
        seen.add((o0, o1))
        a, b = s0.heap.get(o0), s1.heap.get(o1)
        if a is b and a is not None and a[0] == 'v' and not (isinstance(a[1], tuple) and a[1] and a[1][0] == 'P'):
            return []
        if a is None or b is None or a[0] != b[0]:
            return [(path, False, None)]
        out = []
        if a[0] == 'v':
            x, y = a[1], b[1]
            if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == 'P' and y[0] == 'P' and isinstance(x[1], int) and isinstance(y[1], int):
                return self.diff(s0, s1, x[1], y[1], path + '->', seen, skip)
            c = same(x, y, 0.0)
            if c is not True:
                out.append((path, c, b[2] if b[2][0] != 'entry' else None))
        elif a[0] == 'r':
            for f in a[2]:
                if f in b[2]:
                    out += self.diff(s0, s1, a[2][f], b[2][f], path + '.' + f, seen, skip)
        elif a[0] == 's':
            if len(a[3]) != len(b[3]):
                return [(path + ': %d elements instead of %d' % (len(b[3]), len(a[3])), False, None)]
            for i, (x, y) in enumerate(zip(a[3], b[3])):
                out += self.diff(s0, s1, x, y, '%s[%d]' % (path, i), seen, skip)
        elif a[0] == 'm':
            da, db = dict(a[4]), dict(b[4])
            if set(da) != set(db):
                return [(path + ': keys %s instead of %s' % (sorted(db), sorted(da)), False, None)]
            for k in da:
                x, y = da[k], db[k]
                if s0.heap[x][0] == 'r':
                    x, y = s0.heap[x][2]['second'], s1.heap[y][2]['second']
                    out += self.diff(s0, s1, x, y, '%s[%s]' % (path, k), seen, skip)
        return out

    def feasible(self, pc, taint):
        """(decided, witness) of an event met under a path condition"""
        if taint is not None:
            return False, taint
        gate = tm.and_(*pc)
        if isinstance(gate, T) and gate.opq:
            return False, 'depends on an unmodelled value'
        for val in self.vals:
            m = self.mask(gate, val)
            if m.any():
                return True, self.witness(val, int(np.argmax(m)), [gate])
        return True, None

    def memory(self, only=None):
        """obligation: no feasible undefined behaviour was met in this shape"""
        ck = self.ck
        if ck.harvest is not None:
            return
        for pc, where, msg, taint in self.eng.ubs[self.nub:]:
            ck.nob += 1
            if taint is not None:
                ck.undecided('%s: %s: %s' % (self.name, msg, taint))
                continue
            gate = tm.and_(*pc)
            if isinstance(gate, T) and gate.opq:
                ck.undecided('%s: %s: depends on an unmodelled value' % (self.name, msg))
                continue
            hit = False
            for val in self.vals:
                m = self.mask(gate, val)
                if m.any():
                    ck.violate(self, msg, where, self.witness(val, int(np.argmax(m)), [gate]))
                    hit = True
                    break
            if not hit:
                ck.nunreached += 1
        self.nub = len(self.eng.ubs)

    def precision(self):
        """obligation of the properties that speak of times: no time stamp loses digits on the way"""
        ck = self.ck
        ev, self.eng.narrowed = self.eng.narrowed, []
        if ck.harvest is not None or ck.pid not in TIMED:
            return
        for pc, where, msg, taint in ev:
            dec, wit = self.feasible(pc, taint)
            if dec and wit is not None:
                ck.nob += 1
                ck.violate(self, msg, where, wit)

    def coverage(self, exits, pred, msg):
        """the shape is meaningful: some exit satisfying pred is reached by a valuation"""
        for ex in exits:
            if ex.st.taint is None and pred(ex) and self.reach(ex.st.gate()):
                return True
        ck = self.ck
        if ck.harvest is None and not self.eng.unmod and not any(ex.st.taint for ex in exits):
            # every computation is modelled, and the way to such an exit runs into undefined behaviour
            for pc, where, what, taint in self.eng.ubs[self.nub:]:
                dec, wit = self.feasible(pc, taint)
                if dec and wit is not None:
                    ck.nob += 1
                    ck.violate(self, '%s: %s' % (msg, what), where, wit)
                    return False
        ck.missing.append('%s: %s' % (self.name, msg))
        return False


def same(a, b, tol=1e-6):
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T) or isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (tuple, str)) or isinstance(b, (tuple, str)) or a is None or b is None:
            return False
        sa, sb = tm.sh_of(a), tm.sh_of(b)
        if sa == 'b' or sb == 'b':
            if sa != sb:
                return False
            return tm.iff(a, b)
        if isinstance(sa, tuple) != isinstance(sb, tuple) or (sa == 'q') != (sb == 'q'):
            if sa == (1, 1) or sb == (1, 1):
                return tm.close(tm._s(a), tm._s(b), tol)
            return False
        if isinstance(sa, tuple) and sa != sb:
            return False
        return tm.close(a, b, tol)
    return a == b


def qsame(a, b, tol=1e-6):
    if not (isinstance(a, T) and isinstance(b, T) and a.sh == 'q' and b.sh == 'q'):
        return False
    return tm.qclose(a, b, tol)


class Check:
    def __init__(self, pid, prog, seed, tier):
        self.pid, self.prog, self.seed, self.tier = pid, prog, seed, tier
        self.thorough = tier == 'thorough'
        self.nob = self.nproved = self.ntested = self.nunreached = self.samples = 0
        self.und = {}
        self.viol = []
        self.shapes = []
        self.entry = set()
        self.fns = set()
        self.stat = {}
        self.missing = []
        self.exits = 0
        self.notes = []
        self.rules = []
        self.sites = 0
        self.harvest = None       # a set of event kinds: no obligations, events of the interpreter only
        self.events = {}
        self.loops = set()
        self.most = 0             # rounds of the longest loop
        self.nevents = 0
        self.current = None
        self.t0 = time.time()

    def world(self, name, **kw):
        self.shapes.append(name)
        self.flush()
        w = World(self, name, **kw)
        if self.harvest is not None:
            self.current = w
        return w

    def flush(self):
        """takes over the events of the last shape"""
        w, self.current = self.current, None
        if w is None:
            return
        self.loops |= w.eng.looplines
        self.most = max(self.most, w.eng.most)
        for kind, evs in (('memory', w.eng.ubs), ('loop', w.eng.capped)):
            if kind not in self.harvest:
                continue
            for pc, where, msg, taint in evs:
                self.nevents += 1
                k = (kind, where, msg)
                if self.events.get(k, (None, None, None))[0] is True:
                    continue
                dec, wit = w.feasible(pc, taint)
                if not dec:
                    self.events.setdefault(k, (None, w.name, wit))
                elif wit is not None:
                    self.events[k] = (True, w.name, wit)
                else:
                    self.events.setdefault(k, (False, w.name, None))

    def alias(self, rec, field):
        raise Skip('member %s::%s not found' % (rec, field))

    def absorb(self, w):
        self.fns |= w.eng.fns
        for k, v in w.eng.stat.items():
            self.stat[k] = self.stat.get(k, 0) + v
        w.eng.stat = {k: 0 for k in w.eng.stat}
        for m in w.eng.unmod:
            self.und.setdefault('%s: no transfer function: %s' % (w.name, m), 0)

    def undecided(self, why):
        self.und[why] = self.und.get(why, 0) + 1

    def violate(self, w, msg, where, witness):
        self.viol.append({'shape': w.name if w is not None else '', 'what': msg, 'function': where[0], 'file': where[1], 'line': where[2], 'witness': witness})

    def rule(self, ok, msg, where, n=1):
        """obligation of a purely structural rule"""
        self.nob += n
        if ok is None:
            self.undecided(msg)
        elif ok:
            self.nproved += n
        else:
            self.violate(None, msg, where, {})

    def run(self, *fns):
        """runs shape functions; a member that cannot be found leaves the shape undecided"""
        for fn in fns:
            try:
                fn(self)
            except Skip as x:
                self.undecided('%s: %s' % (fn.__name__, x))
            except (Unmod, UB, tm.DimError) as x:
                self.undecided('%s: setup: %s' % (fn.__name__, x))
            if len(self.viol) > 40:
                break
