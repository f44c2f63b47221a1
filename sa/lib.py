"""Transfer functions of the library operations the program uses (std containers, smart pointers, iterators, Eigen)."""
import math
import numpy as np
from . import term as tm
from .term import T, isnum
from .libx import More, SF, sfn, isIns, isIX
from .engine import base, targs, mdims, is_scalar_t, is_int_t, CONT, MAPS, UB, Unmod, END, isref, solver_t


def isO(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] == 'O'


def isI(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] == 'I'


def isS(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] == 'S'


class Lib(More):
    def __init__(self, eng):
        self.g = eng

    # ---------- containers ----------
    def order(self, st, oid):
        """keys of a map in iteration order"""
        ob = self.g.obj(st, oid)
        ks = [k for k, _ in ob[4]]
        if ob[3].startswith(('map<', 'set<')):
            return sorted(ks)
        return list(reversed(ks)) if self.g.maprev else ks

    def entry(self, st, oid, key):
        for k, o in self.g.obj(st, oid)[4]:
            if k == key:
                return o
        return None

    def elems(self, st, loc):
        ob = self.g.obj(st, loc) if isinstance(loc, int) else None
        if ob is None or ob[0] == 'v':
            v = self.g.load(st, loc)
            if isinstance(v, T) and isinstance(v.sh, tuple) and 1 in v.sh:
                return [('mc', loc, i, 0) if v.sh[1] == 1 else ('mc', loc, 0, i) for i in range(max(v.sh))]
            ob = self.g.obj(st, loc)
        if ob[0] == 's':
            return list(ob[3])
        if ob[0] == 'm':
            d = dict(ob[4])
            oid = loc if isinstance(loc, int) else self.g.load(st, loc)[1]
            return [d[k] for k in self.order(st, oid)]
        raise Unmod('range-for over ' + ob[0])

    def deref_it(self, st, it):
        _, oid, pos, kind, rev = it
        ob = self.g.obj(st, oid)
        if kind == 's':
            n = len(ob[3])
            i = n - 1 - pos if rev else pos
            if not 0 <= i < n:
                raise UB('dereference of an iterator at position %d of %d elements' % (i, n))
            return ob[3][i]
        if pos == END:
            raise UB('dereference of the end iterator of a map')
        o = self.entry(st, oid, pos)
        if o is None:
            raise UB('dereference of an iterator to an erased element')
        return o

    def it_step(self, st, it, n):
        _, oid, pos, kind, rev = it
        if kind == 's':
            return ('I', oid, pos + n, kind, rev)
        ks = self.order(st, oid)
        if rev:
            ks = ks[::-1]
        if pos == END:
            i = len(ks)
        elif pos in ks:
            i = ks.index(pos)
        else:
            raise UB('increment of an iterator to an erased element')
        i += n
        if i > len(ks) or i < 0:
            raise UB('iterator moved out of its container')
        return ('I', oid, ks[i] if i < len(ks) else END, kind, rev)

    def it_norm(self, st, it):
        """position as an index, for differences"""
        _, oid, pos, kind, rev = it
        if kind == 's':
            return pos
        ks = self.order(st, oid)
        if rev:
            ks = ks[::-1]
        return len(ks) if pos == END else ks.index(pos)

    def begin(self, st, oid, rev):
        ob = self.g.obj(st, oid)
        if ob[0] == 's':
            return ('I', oid, 0, 's', rev)
        ks = self.order(st, oid)
        if rev:
            ks = ks[::-1]
        return ('I', oid, ks[0] if ks else END, 'm', rev)

    def end(self, st, oid, rev):
        ob = self.g.obj(st, oid)
        if ob[0] == 's':
            return ('I', oid, len(ob[3]), 's', rev)
        return ('I', oid, END, 'm', rev)

    def zero(self, st, t):
        """value-initialised cell"""
        b = base(t)
        g = self.g
        if is_scalar_t(b):
            return st.new(g.v(0.0))
        if b == 'b':
            return st.new(g.v(False))
        if is_int_t(b):
            return st.new(g.v(0))
        if b.startswith('R:'):
            r = g.construct(b[2:], [], st)
            if len(r) == 1 and r[0][1] is st:
                if not g.userctor(b[2:]):
                    g.zeroed(st, r[0][0][1])
                return r[0][0][1]
            raise Unmod('branching default constructor')
        if b.startswith(('array<', 'arr<')):
            a = targs(b)
            if a[1].isdigit():
                return st.new(('s', a[0], b, tuple(self.zero(st, a[0]) for _ in range(int(a[1])))))
        return g.alloc(st, t, 'elem')

    def cellof(self, st, et, v):
        b = base(et)
        if isO(v):
            return self.g.clone(st, v[1])
        if is_scalar_t(b) and isinstance(v, (bool, int)):
            v = float(v)
        if is_scalar_t(b) and isinstance(v, T) and isinstance(v.sh, tuple):
            v = tm.mc(v, 0, 0)
        if b.startswith('Q:') and isinstance(v, T) and v.sh == (3, 3):
            v = tm.qfrommat(v)
        if b == 'b' and isinstance(v, int):
            v = bool(v)
        if is_int_t(b) and isinstance(v, int):
            v = self.g.wrap(v, b)
        return st.new(self.g.v(v))

    def emplace(self, st, et, e, args):
        """list of (cell, state) for an element built from argument expressions"""
        b = base(et)
        g = self.g
        out = []
        if len(args) == 0:
            return [(self.zero(st, et), st)]
        if len(args) == 1:
            for v, s in g.ev(args[0], st):
                if b.startswith('R:') and not isO(v):
                    for r, s2 in self.construct_vals(b[2:], [v], s):
                        out.append((r, s2))
                elif b.startswith('R:') and isO(v) and g.obj(s, v[1])[1] != b[2:]:
                    for r, s2 in self.construct_vals(b[2:], [v], s):
                        out.append((r, s2))
                elif b.startswith(CONT) and isinstance(v, int):
                    out.append((s.new(('s', targs(b)[0], b, tuple(self.zero(s, targs(b)[0]) for _ in range(v)))), s))
                elif b.startswith('M:') and isinstance(v, int):
                    out.append((s.new(g.v(tm.undef('v', (v, 1)))), s))
                else:
                    out.append((self.cellof(s, et, v), s))
                    self.vacate(args[0], s)
            return out
        for vs, s in g.evs(args, st):
            if b.startswith('R:'):
                out += self.construct_vals(b[2:], vs, s)
            elif b.startswith('pair<'):
                a = targs(b)
                out.append((s.new(('r', 'std::pair', {'first': self.cellof(s, a[0], vs[0]), 'second': self.cellof(s, a[1], vs[1])})), s))
            elif b.startswith(('M:', 'Q:')):
                out.append((s.new(g.v(self.mctor(s, b, vs))), s))
            else:
                raise Unmod('emplace of ' + b)
        return out

    def construct_vals(self, rec, vals, st):
        g = self.g
        c = [f for f in g.p.fns.values() if f.get('ctor') and f.get('rec') == rec and len(f['params']) == len(vals)]
        if len(c) > 1:
            c = [f for f in c if all(self.fits(p['t'], v) for p, v in zip(f['params'], vals))]
        if len(c) != 1:
            raise Unmod('constructor of ' + rec)
        f = c[0]
        locs = []
        for p, v in zip(f['params'], vals):
            if isO(v) and isref(p['t']):
                locs.append(v[1])
            else:
                locs.append(g.cell2(st, v, p['t']))
        o = g.alloc_rec(st, rec, rec.split('::')[-1], init=False)
        return [(o, s) for _, s in g.call(f, o, locs, st)]

    def fits(self, t, v):
        b = base(t)
        if isinstance(v, T):
            if v.sh == 'q':
                return b.startswith('Q')
            if isinstance(v.sh, tuple):
                return b.startswith('M')
            return b[0] in 'uif' or b == 'b'
        if isinstance(v, (bool, int, float)):
            return b[0] in 'uif' or b == 'b'
        if v is None or v[0] == 'P':
            return b.startswith(('P<', 'p<'))
        return not b.startswith(('P<', 'p<', 'M:', 'Q:')) and b[0:1] not in ('f',)

    # ---------- dispatch ----------
    def call(self, e, st):
        g = self.g
        rec = e.get('rec') or ''
        name = e.get('name') or ''
        op = e.get('op')
        l = e.get('l')
        args = e['args']
        t0 = base(args[0]['t']) if args else ''
        # output streams and logging
        if name == 'operator<<' and (rec.startswith('std::basic_ostream') or (rec == '' and 'ostream' in t0) or
                                     (rec == '' and base(e.get('t', '')).startswith('X:std::basic_ostream'))):
            out = []
            for _, s in g.evs(([e['obj']] if e.get('obj') else []) + args, st):
                out.append((('X', 'ostream'), s))
            return out
        if name in ('printf', 'fprintf', 'puts', 'putchar', 'fflush', 'endl'):
            return [(0, s) for _, s in g.evs(args, st)]
        if e.get('obj') is None or e.get('smeth'):
            return self.free(e, st)
        out = []
        if e.get('arrow'):
            recv = []
            for p, s in g.ev(e['obj'], st):
                r = g.guard(s, l, lambda: [(g.deref(s, p), s)])
                recv += [] if r is None else r
        else:
            recv = g.lv(e['obj'], st)
        for loc, s in recv:
            r = g.guard(s, l, lambda: self.meth(e, rec, name, op, loc, args, s))
            out += [(g.opq(e), s)] if r is None else r
        return out

    def meth(self, e, rec, name, op, loc, args, st):
        g = self.g
        if e.get('repo'):
            # implicitly defined member of a repository record
            if name == 'operator=':
                out = []
                for v, s in g.ev(args[0], st):
                    g.store(s, loc, v)
                    out.append((('LOC', loc), s))
                return out
            raise Unmod('member ' + name)
        v = g.load(st, loc)
        if isinstance(v, tuple) and v and v[0] in ('L', 'F') and name == 'operator()':
            return g.call_value(e, v, args, st)
        if isI(v) or rec == 'std::reverse_iterator' or 'iterator' in rec:
            return self.itmeth(e, name, op, loc, v, args, st)
        if isinstance(v, tuple) and v and v[0] == 'BM':
            return self.bmeth(e, name, v, args, st)
        if isinstance(v, tuple) and v and v[0] == 'VW':
            return self.vwmeth(e, name, op, loc, v, args, st)
        if isinstance(v, tuple) and v and v[0] == 'TV':
            return self.tvmeth(e, name, op, loc, v, args, st)
        if isinstance(v, T):
            if v.sh == 'q':
                return self.qmeth(e, rec, name, op, loc, v, args, st)
            return self.mmeth(e, rec, name, op, loc, v, args, st)
        if rec.startswith('Eigen::symbolic') and name in ('operator+', 'operator-') and isIX(v, 'IXL') and args:
            return [(('IXL', v[1] + (x if name == 'operator+' else -x)), s) for x, s in g.ev(args[0], st)]
        if rec.startswith('Eigen::'):
            if isS(v) or isinstance(v, tuple) and v and v[0] in ('X', 'CI'):
                return self.solver(e, rec, name, op, loc, v, args, st)
            raise Unmod('Eigen operation %s::%s' % (rec, name))
        if isO(v):
            ob = g.obj(st, v[1])
            if ob[0] == 's':
                return self.seqmeth(e, name, op, v[1], args, st)
            if ob[0] == 'm':
                return self.mapmeth(e, name, op, v[1], args, st)
            if ob[0] == 'r' and ob[1] in ('std::pair', 'std::tuple'):
                if name == 'operator=':
                    return [(('LOC', loc), s) for x, s in self.stores(loc, args, st)]
                if name == 'swap':
                    pass
        if isinstance(v, tuple) and v and v[0] == 'TIE' and name == 'operator=':
            out = []
            for x, s in g.ev(args[0], st):
                if isO(x) and g.obj(s, x[1])[0] == 'r':
                    src = [g.load(s, c) for c in g.obj(s, x[1])[2].values()]
                elif isinstance(x, tuple) and x and x[0] == 'TIE':
                    src = [g.load(s, c) for c in x[1]]
                else:
                    raise Unmod('assignment to a tie')
                if len(src) != len(v[1]):
                    raise Unmod('assignment to a tie')
                src = [('O', g.clone(s, y[1])) if isO(y) else y for y in src]
                for c, y in zip(v[1], src):
                    if c is not None:
                        g.store(s, c, y)
                out.append((('LOC', loc), s))
            return out
        if isinstance(v, str) or rec == 'std::basic_string':
            return self.strmeth(e, name, op, loc, v, args, st)
        if rec in ('std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::unique_ptr') or v is None or (isinstance(v, tuple) and v[0] == 'P'):
            return self.ptrmeth(e, name, op, loc, v, args, st)
        if rec in ('std::_Bit_reference', 'std::function') or rec.startswith('std::chrono') or rec.startswith('std::basic_i') or rec.startswith('std::basic_stringstream') or rec.startswith('std::basic_f'):
            if rec == 'std::_Bit_reference':
                if name == 'operator=':
                    return [(('LOC', loc), s) for x, s in self.stores(loc, args, st)]
                return [(v, st)]
            if rec == 'std::function':
                if name == 'operator bool':
                    return [(v is not None, st)]
                return [(('LOC', loc), s) for x, s in self.stores(loc, args, st)]
            h = g.hooks.get('stream')
            if h:
                r = h(e, rec, name, op, loc, v, args, st)
                if r is not None:
                    return r
            if rec.startswith('std::chrono'):
                return [(g.opq(e), s) for _, s in g.evs(args, st)]
        if isinstance(v, (bool, int, float)) and name.startswith('operator') and not args:
            return [(v, st)]
        if isinstance(v, (bool, int)) and name == 'operator=':
            return [(('LOC', loc), s) for x, s in self.stores(loc, args, st)]
        raise Unmod('%s::%s on %r' % (rec, name, v if not isinstance(v, T) else v.sh))

    def stores(self, loc, args, st):
        out = []
        for x, s in self.g.ev(args[0], st):
            if isO(x) and args[0].get('k') == 'call' and args[0].get('fn') == 'std::move':
                x = ('O', self.g.clone(s, x[1]))
                self.vacate(args[0], s)
            else:
                self.vacate(args[0], s)
            self.g.store(s, loc, x)
            out.append((x, s))
        return out

    # ---------- iterators ----------
    def itmeth(self, e, name, op, loc, v, args, st):
        g = self.g
        if name == 'operator=':
            return [(('LOC', loc), s) for x, s in self.stores(loc, args, st)]
        if not isI(v):
            raise Unmod('iterator operation %s on %r' % (name, v))
        if name == 'operator*':
            g.stat['derefs'] += 1
            return [(('LOC', self.deref_it(st, v)), st)]
        if name == 'operator->':
            g.stat['derefs'] += 1
            return [(('P', self.deref_it(st, v)), st)]
        if name in ('operator++', 'operator--'):
            n = self.it_step(st, v, 1 if name == 'operator++' else -1)
            g.store(st, loc, n)
            return [((('LOC', loc) if not args else v), st)]
        if name in ('operator==', 'operator!='):
            return [((v == x) == (name == 'operator=='), s) for x, s in g.ev(args[0], st)]
        if name in ('operator+', 'operator-', 'operator+=', 'operator-='):
            out = []
            for x, s in g.ev(args[0], st):
                if isI(x):
                    out.append((self.it_norm(s, v) - self.it_norm(s, x), s))
                    continue
                if not isinstance(x, int):
                    raise Unmod('iterator offset')
                if x >= 1 << 63:
                    x -= 1 << 64
                n = self.it_step(s, v, x if name[8] == '+' else -x)
                if name.endswith('='):
                    g.store(s, loc, n)
                    out.append((('LOC', loc), s))
                else:
                    out.append((n, s))
            return out
        if name == 'operator[]':
            return [(('LOC', self.deref_it(s, self.it_step(s, v, x))), s) for x, s in g.ev(args[0], st)]
        if name == 'base':
            ob = g.obj(st, v[1])
            return [(('I', v[1], len(ob[3]) - v[2], 's', False), st)]
        raise Unmod('iterator operation ' + name)

    # ---------- sequences ----------
    def setseq(self, st, oid, els):
        ob = st.heap[oid]
        st.heap[oid] = ('s', ob[1], ob[2], tuple(els))

    def seqmeth(self, e, name, op, oid, args, st):
        g = self.g
        ob = g.obj(st, oid)
        et, els = ob[1], ob[3]
        if ob[2].startswith(('mmap<', 'mset<', 'opt<')) or name in ('remove', 'remove_if', 'reverse', 'sort', 'unique', 'splice', 'max_size') or (
                name == 'emplace' and args and base(args[0]['t']) in ('it', 'rit')):
            r = self.seqmore(e, name, oid, ob, args, st)
            if r is not None:
                return r
            if name == 'emplace':
                raise Unmod('emplace at position')
        if name in ('emplace_back', 'push_back', 'emplace_front', 'push_front', 'push', 'emplace'):
            if name == 'emplace' and args and base(args[0]['t']) in ('it', 'rit'):
                raise Unmod('emplace at position')
            out = []
            for c, s in self.emplace(st, et, e, args):
                cur = g.obj(s, oid)[3]
                self.setseq(s, oid, (c,) + cur if name.endswith('front') else cur + (c,))
                out.append((('LOC', c), s))
            return out
        if name in ('front', 'back', 'top'):
            g.stat['front'] += 1
            if not els:
                raise UB('%s() of an empty container' % name)
            return [(('LOC', els[0] if name == 'front' else els[-1]), st)]
        if name in ('pop_front', 'pop_back', 'pop'):
            g.stat['front'] += 1
            if not els:
                raise UB('%s() of an empty container' % name)
            if name == 'pop_back':
                g.kill(st, els[-1])
                self.setseq(st, oid, els[:-1])
            else:
                g.kill(st, els[0])
                self.setseq(st, oid, els[1:])
            return [((), st)]
        if name in ('size', 'length'):
            return [(len(els), st)]
        if name == 'empty':
            return [(not els, st)]
        if name == 'clear':
            for c in els:
                g.kill(st, c)
            self.setseq(st, oid, ())
            return [((), st)]
        if name in ('reserve', 'shrink_to_fit'):
            return [((), s) for _, s in g.evs(args, st)]
        if name in ('begin', 'cbegin'):
            return [(self.begin(st, oid, False), st)]
        if name in ('end', 'cend'):
            return [(self.end(st, oid, False), st)]
        if name in ('rbegin', 'crbegin'):
            return [(self.begin(st, oid, True), st)]
        if name in ('rend', 'crend'):
            return [(self.end(st, oid, True), st)]
        if name in ('operator[]', 'at'):
            out = []
            for i, s in g.ev(args[0], st):
                g.stat['index'] += 1
                if not isinstance(i, int):
                    raise Unmod('symbolic index')
                cur = g.obj(s, oid)[3]
                if not 0 <= i < len(cur):
                    g.ub(s, 'index %s of %d elements' % (i if i < 1 << 31 else i - (1 << 64), len(cur)), e.get('l'))
                    continue
                out.append((('LOC', cur[i]), s))
            return out
        if name == 'resize':
            out = []
            for vs, s in g.evs(args, st):
                n = vs[0]
                if not isinstance(n, int) or n > 100000:
                    if isinstance(n, int):
                        g.ub(s, 'resize to %d' % n, e.get('l'))
                        continue
                    raise Unmod('symbolic resize')
                cur = g.obj(s, oid)[3]
                for c in cur[n:]:
                    g.kill(s, c)
                add = tuple((self.cellof(s, et, vs[1]) if len(vs) > 1 else self.zero(s, et)) for _ in range(n - len(cur)))
                self.setseq(s, oid, cur[:n] + add)
                out.append(((), s))
            return out
        if name == 'assign':
            out = []
            for vs, s in g.evs(args, st):
                if isI(vs[0]):
                    new = [self.g.clone(s, o) for o in self.range(s, vs[0], vs[1])]
                elif isinstance(vs[0], int):
                    new = [self.cellof(s, et, vs[1]) for _ in range(vs[0])]
                elif isO(vs[0]):
                    new = [self.g.clone(s, o) for o in g.obj(s, vs[0][1])[3]]
                else:
                    raise Unmod('assign')
                for c in g.obj(s, oid)[3]:
                    g.kill(s, c)
                self.setseq(s, oid, new)
                out.append(((), s))
            return out
        if name == 'operator=':
            return [(('LOC', oid), s) for x, s in self.stores(oid, args, st)]
        if name == 'swap':
            out = []
            for l2, s in g.lv(args[0], st):
                s.heap[oid], s.heap[l2] = s.heap[l2], s.heap[oid]
                out.append(((), s))
            return out
        if name == 'erase':
            out = []
            for vs, s in g.evs(args, st):
                cur = g.obj(s, oid)[3]
                a = vs[0][2]
                b = vs[1][2] if len(vs) > 1 else a + 1
                if not (0 <= a <= b <= len(cur)) or (len(vs) == 1 and a >= len(cur)):
                    g.ub(s, 'erase at position %d of %d elements' % (a, len(cur)), e.get('l'))
                    continue
                for c in cur[a:b]:
                    g.kill(s, c)
                self.setseq(s, oid, cur[:a] + cur[b:])
                out.append((('I', oid, a, 's', False), s))
            return out
        if name in ('insert',):
            out = []
            for vs, s in g.evs(args, st):
                cur = g.obj(s, oid)[3]
                a = vs[0][2]
                if len(vs) == 2 and isO(vs[1]) and g.obj(s, vs[1][1])[0] == 's' and g.obj(s, vs[1][1])[2].startswith(('il<', 'arr<')) and not et.startswith(('arr<', 'il<')):
                    new = tuple(g.clone(s, o) for o in g.obj(s, vs[1][1])[3])
                elif len(vs) == 3 and isI(vs[1]):
                    new = tuple(g.clone(s, o) for o in self.range(s, vs[1], vs[2]))
                elif len(vs) == 3:
                    new = tuple(self.cellof(s, et, vs[2]) for _ in range(vs[1]))
                else:
                    new = (self.cellof(s, et, vs[1]),)
                    self.vacate(args[1], s)
                self.setseq(s, oid, cur[:a] + new + cur[a:])
                out.append((('I', oid, a, 's', False), s))
            return out
        if name in ('has_value', 'operator bool'):
            return [(bool(els), st)]
        if name in ('value', 'operator*'):
            if not els:
                raise UB('value of an empty optional')
            return [(('LOC', els[0]), st)]
        if name == 'operator->':
            if not els:
                raise UB('value of an empty optional')
            return [(('P', els[0]), st)]
        if name == 'fill':
            out = []
            for v, s in g.ev(args[0], st):
                for c in g.obj(s, oid)[3]:
                    g.store(s, c, v)
                out.append(((), s))
            return out
        raise Unmod('container operation ' + name)

    def range(self, st, a, b):
        """cells between two iterators"""
        out = []
        it = a
        n = 0
        while it != b:
            out.append(self.deref_it(st, it))
            it = self.it_step(st, it, 1)
            n += 1
            if n > 10000:
                raise UB('iterator range that does not end')
        return out

    # ---------- maps ----------
    def setmap(self, st, oid, ent):
        ob = st.heap[oid]
        st.heap[oid] = ob[:4] + (tuple(ent),)

    def key(self, k):
        if isinstance(k, T) or k is None:
            raise Unmod('symbolic key')
        if isinstance(k, float) and k != k:
            raise Unmod('nan key')
        return k

    def newentry(self, st, oid, k, cell):
        ob = st.heap[oid]
        kc = st.new(self.g.v(k))
        p = kc if ob[2] is None else st.new(('r', 'std::pair', {'first': kc, 'second': cell}))
        self.setmap(st, oid, ob[4] + ((k, p),))
        return p

    def pair(self, st, a, b):
        g = self.g
        return ('O', st.new(('r', 'std::pair', {'first': st.new(g.v(a)), 'second': st.new(g.v(b))})))

    def mapmeth(self, e, name, op, oid, args, st):
        g = self.g
        ob = g.obj(st, oid)
        kt, vt, ent = ob[1], ob[2], ob[4]
        if name in ('size',):
            return [(len(ent), st)]
        if name == 'empty':
            return [(not ent, st)]
        if name == 'clear':
            for _, c in ent:
                g.kill(st, c)
            self.setmap(st, oid, ())
            return [((), st)]
        if name in ('begin', 'cbegin'):
            return [(self.begin(st, oid, False), st)]
        if name in ('end', 'cend'):
            return [(self.end(st, oid, False), st)]
        if name in ('rbegin', 'crbegin'):
            return [(self.begin(st, oid, True), st)]
        if name in ('rend', 'crend'):
            return [(self.end(st, oid, True), st)]
        if name in ('reserve', 'rehash'):
            return [((), s) for _, s in g.evs(args, st)]
        if name == 'operator=':
            return [(('LOC', oid), s) for x, s in self.stores(oid, args, st)]
        if name in ('find', 'count', 'contains', 'at', 'operator[]'):
            out = []
            for k, s in g.ev(args[0], st):
                k = self.key(k)
                o = self.entry(s, oid, k)
                if name == 'find':
                    out.append((('I', oid, k if o is not None else END, 'm', False), s))
                elif name == 'count':
                    out.append((1 if o is not None else 0, s))
                elif name == 'contains':
                    out.append((o is not None, s))
                elif name == 'at':
                    if o is None:
                        g.ub(s, 'at() with a key that is not in the map', e.get('l'))
                        continue
                    out.append((('LOC', s.heap[o][2]['second']), s))
                else:
                    if o is None:
                        o = self.newentry(s, oid, k, self.zero(s, vt))
                    out.append((('LOC', s.heap[o][2]['second']), s))
            return out
        if name == 'erase':
            out = []
            for vs, s in g.evs(args, st):
                cur = g.obj(s, oid)[4]
                if isI(vs[0]):
                    if len(vs) > 1:
                        raise Unmod('range erase of a map')
                    if vs[0][2] == END:
                        g.ub(s, 'erase of the end iterator', e.get('l'))
                        continue
                    if self.entry(s, oid, vs[0][2]) is None:
                        g.ub(s, 'erase of an element that was already erased', e.get('l'))
                        continue
                    nxt = self.it_step(s, vs[0], 1)
                    k = vs[0][2]
                    r = nxt
                else:
                    k = self.key(vs[0])
                    r = 1 if self.entry(s, oid, k) is not None else 0
                for kk, c in cur:
                    if kk == k:
                        g.kill(s, c)
                self.setmap(s, oid, [x for x in cur if x[0] != k])
                out.append((r, s))
            return out
        if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            out = []
            for vs, s in g.evs(args, st):
                if len(vs) == 2 and isI(vs[0]) and isI(vs[1]):
                    for o in self.range(s, vs[0], vs[1]):
                        x = s.heap[o]
                        k = self.key(x[1] if x[0] == 'v' else s.heap[x[2]['first']][1])
                        if self.entry(s, oid, k) is None:
                            self.newentry(s, oid, k, None if vt is None else g.clone(s, x[2]['second']))
                    out.append(((), s))
                    continue
                if vt is None:
                    k, val = self.key(vs[0]), None
                elif len(vs) == 1:
                    p = g.obj(s, vs[0][1])[2]
                    k = self.key(g.load(s, p['first']))
                    val = g.load(s, p['second'])
                else:
                    k = self.key(vs[0])
                    val = vs[1] if len(vs) > 1 else None
                o = self.entry(s, oid, k)
                ins = o is None
                if ins:
                    if vt is None:
                        self.newentry(s, oid, k, None)
                    elif len(vs) == 1 and name == 'try_emplace':
                        self.newentry(s, oid, k, self.zero(s, vt))
                    else:
                        self.newentry(s, oid, k, self.cellof(s, vt, val))
                elif name == 'insert_or_assign':
                    g.store(s, s.heap[o][2]['second'], val)
                out.append((self.pair(s, ('I', oid, k, 'm', False), ins), s))
            return out
        if name in ('lower_bound', 'upper_bound', 'equal_range') and ob[3].startswith(('map<', 'set<')):
            return self.ordered(e, name, oid, ob, args, st)
        if name == 'swap':
            out = []
            for l2, s in g.lv(args[0], st):
                s.heap[oid], s.heap[l2] = s.heap[l2], s.heap[oid]
                out.append(((), s))
            return out
        raise Unmod('map operation ' + name)

    # ---------- pointers, strings ----------
    def ptrmeth(self, e, name, op, loc, v, args, st):
        g = self.g
        if name == 'operator->' or name == 'get' or name == '_M_get':
            return [(v, st)]
        if name == 'operator*':
            return [(('LOC', g.deref(st, v)), st)]
        if name == 'operator bool':
            return [(v is not None, st)]
        if name == 'reset':
            if not args:
                g.store(st, loc, None)
                return [((), st)]
            return [((), s) for x, s in self.stores(loc, args, st)]
        if name == 'operator=':
            return [(('LOC', loc), s) for x, s in self.stores(loc, args, st)]
        if name == 'swap':
            out = []
            for l2, s in g.lv(args[0], st):
                a, b = g.load(s, loc), g.load(s, l2)
                g.store(s, loc, b)
                g.store(s, l2, a)
                out.append(((), s))
            return out
        if name == 'use_count':
            return [(tm.opaque('use_count', 'i'), st)]
        if name in ('operator==', 'operator!='):
            return [((v == x) == (name == 'operator=='), s) for x, s in g.ev(args[0], st)]
        raise Unmod('pointer operation ' + name)

    def strmeth(self, e, name, op, loc, v, args, st):
        g = self.g
        if name in ('c_str', 'data'):
            return [(v, st)]
        if name == 'empty':
            if isinstance(v, str):
                return [(v == '', st)]
            if isinstance(v, tuple) and v[0] == 'line':
                return [(len(v[1]) == 0, st)]
        if name in ('size', 'length') and isinstance(v, str):
            return [(len(v), st)]
        if name == 'operator=':
            return [(('LOC', loc), s) for x, s in self.stores(loc, args, st)]
        if name in ('operator+=', 'append'):
            out = []
            for x, s in g.ev(args[0], st):
                g.store(s, loc, v + x if isinstance(v, str) and isinstance(x, str) else '?')
                out.append((('LOC', loc), s))
            return out
        if name == 'clear':
            g.store(st, loc, '')
            return [((), st)]
        r = self.strmore(e, name, op, loc, v, args, st)
        if r is not None:
            return r
        raise Unmod('string operation ' + name)

    # ---------- constructors ----------
    def ctor(self, e, t, st):
        g = self.g
        args = e['args']
        if len(args) == 1 and (e.get('copy') or base(args[0]['t']) == t):
            out = []
            for v, s in g.ev(args[0], st):
                if isO(v):
                    r = g.guard(s, e.get('l'), lambda: [(('O', g.clone(s, v[1])), s)])
                    out += [(v, s)] if r is None else r
                else:
                    out.append((v, s))
                if args[0]['k'] == 'call':
                    self.vacate(args[0], s)
            return out
        out = []
        if t.startswith(('vec<', 'deq<')) and len(args) == 1 and args[0]['k'] == 'ilist':
            return g.ev(args[0], st)
        for vs, s in g.evs(args, st):
            r = g.guard(s, e.get('l'), lambda: [(self.build(s, t, vs, e), s)])
            out += [(g.opq(e), s)] if r is None else r
        return out

    def build(self, st, t, vs, e):
        g = self.g
        sk = solver_t(t)
        if sk:
            if vs and isinstance(vs[0], T):
                return ('S', sk, vs[0]) + tuple(x for x in vs[1:2] if isinstance(x, int) and sk == 'svd')
            if vs and isS(vs[0]):
                return vs[0]
            return ('X', t)
        if t.startswith(('M:', 'Q:', 'MX:', 'QX')):
            return self.mctor(st, t, vs)
        if t.startswith(('P<', 'p<', 'W<')):
            return vs[0] if vs else None
        if t.startswith(CONT):
            et = targs(t)[0]
            vs = [v for v in vs if v != ('X', 'X:std::allocator')]
            if not vs:
                return ('O', g.alloc(st, t))
            if isinstance(vs[0], int):
                if vs[0] > 100000:
                    raise UB('container of %d elements' % vs[0])
                return ('O', st.new(('s', et, t, tuple((self.cellof(st, et, vs[1]) if len(vs) > 1 else self.zero(st, et)) for _ in range(vs[0])))))
            if isI(vs[0]):
                return ('O', st.new(('s', et, t, tuple(g.clone(st, o) for o in self.range(st, vs[0], vs[1])))))
            if isO(vs[0]):
                return ('O', st.new(('s', et, t, g.obj(st, g.clone(st, vs[0][1]))[3])))
        if t.startswith(('mmap<', 'mset<')):
            o = g.alloc(st, t)
            if vs and isO(vs[0]):
                if g.obj(st, vs[0][1])[2] == t:
                    return ('O', g.clone(st, vs[0][1]))
                for c in self.elems(st, vs[0][1]):
                    v = g.load(st, c)
                    self.multi({'args': []}, 'insert', o, g.obj(st, o), [{'k': 'const', 'v': v, 't': ''}], st)
            elif vs:
                raise Unmod('constructor of ' + t)
            return ('O', o)
        if t.startswith(MAPS):
            o = g.alloc(st, t)
            if vs and isO(vs[0]):
                for c in self.elems(st, vs[0][1]):
                    x = st.heap[c]
                    k = x[1] if x[0] == 'v' else st.heap[x[2]['first']][1]
                    if self.entry(st, o, k) is None:
                        self.newentry(st, o, k, None if x[0] == 'v' else g.clone(st, x[2]['second']))
            elif vs and isI(vs[0]):
                for c in self.range(st, vs[0], vs[1]):
                    k = g.load(st, c)
                    if self.entry(st, o, k) is None:
                        self.newentry(st, o, k, None)
            return ('O', o)
        if t.startswith('pair<'):
            a = targs(t)
            if len(vs) == 2:
                return ('O', st.new(('r', 'std::pair', {'first': self.cellof(st, a[0], vs[0]), 'second': self.cellof(st, a[1], vs[1])})))
            if not vs:
                return ('O', g.alloc(st, t))
            if isO(vs[0]):
                return ('O', g.clone(st, vs[0][1]))
        if t.startswith('tup<'):
            a = targs(t)
            if len(vs) == 1 and isO(vs[0]) and g.obj(st, vs[0][1])[0] == 'r' and (len(a) != 1):
                return ('O', g.clone(st, vs[0][1]))
            if not vs:
                return ('O', g.alloc(st, t))
            if len(vs) == len(a):
                return ('O', st.new(('r', 'std::tuple', {str(i): self.cellof(st, a[i], v) for i, v in enumerate(vs)})))
        if t == 'str':
            return vs[0] if vs else ''
        if t in ('it', 'rit'):
            if len(vs) == 1 and isI(vs[0]):
                return vs[0]
            if not vs:
                return None
        if t.startswith('X:std::function'):
            return vs[0] if vs else None
        if t.startswith('E:Eigen::AngleAxis'):
            if not vs:
                return tm.undef('angleaxis', 'q')
            if len(vs) == 2 and tm.ismat(vs[1]):
                h = tm.mul(0.5, vs[0])
                sn = tm.fn('sin', h)
                return tm.qlit(tm.fn('cos', h), *[tm.mul(sn, tm.mc(vs[1], i) if vs[1].sh[1] == 1 else tm.mc(vs[1], 0, i)) for i in range(3)])
            if isinstance(vs[0], T) and vs[0].sh == 'q':
                return vs[0]
            if isinstance(vs[0], T) and vs[0].sh == (3, 3):
                return tm.qfrommat(vs[0])
        if t.startswith('E:') and vs and isinstance(vs[0], T):
            for k, n in (('HouseholderQR', 'qr'), ('SelfAdjointEigenSolver', 'eig'), ('LDLT', 'ldlt'), ('LLT', 'llt'), ('JacobiSVD', 'svd'), ('BDCSVD', 'svd'), ('LU', 'lu')):
                if k in t:
                    return ('S', n, vs[0]) + tuple(x for x in vs[1:2] if isinstance(x, int) and n == 'svd')
        if len(vs) == 1 and isIX(vs[0]):
            return vs[0]
        if t.startswith(('E:', 'X:')) and not vs:
            return ('X', t)
        if t.startswith('X:std::basic_i') or t.startswith('X:std::basic_f') or t.startswith('X:std::basic_stringstream'):
            return ('X', t) + tuple(vs[:1])
        if t.startswith('opt<'):
            if len(vs) == 1 and isinstance(vs[0], tuple) and vs[0] and vs[0][0] == 'X':
                vs = []
            if len(vs) == 1 and isO(vs[0]) and st.heap[vs[0][1]][2] == t:
                return ('O', g.clone(st, vs[0][1]))
            return ('O', st.new(('s', targs(t)[0], t, tuple(self.cellof(st, targs(t)[0], v) for v in vs))))
        if len(vs) == 1 and (is_scalar_t(t) or is_int_t(t) or t == 'b'):
            return vs[0]
        raise Unmod('constructor of ' + t)

    def mctor(self, st, t, vs):
        if t.startswith('Q'):
            if not vs:
                return tm.undef('q', 'q')
            if len(vs) == 4:
                return tm.qlit(*vs)
            v = vs[0]
            if isinstance(v, T) and v.sh == 'q':
                return v
            if isinstance(v, T) and v.sh == (3, 3):
                return tm.qfrommat(v)
            if isinstance(v, T) and v.sh == (4, 1):
                return tm.qlit(tm.mc(v, 3), tm.mc(v, 0), tm.mc(v, 1), tm.mc(v, 2))
            raise Unmod('quaternion constructor')
        r, c = mdims(t)
        vs = [self.dense(v) for v in vs if not (isinstance(v, tuple) and v and v[0] == 'X' and 'PrivateType' in str(v))]
        if not vs:
            if r < 0 or c < 0:
                return tm.mzero(max(r, 0), max(c, 0))
            return tm.undef('m', (r, c))
        if len(vs) == 1:
            v = vs[0]
            if isinstance(v, T) and v.sh == 'q':
                return tm.qmat(v)
            if isinstance(v, T) and isinstance(v.sh, tuple):
                if r > 0 and c > 0 and v.sh != (r, c):
                    if v.sh == (c, r) and 1 in v.sh:
                        return tm.mtr(v)
                    raise UB('%dx%d value for a %dx%d matrix' % (v.sh + (r, c)))
                return v
            if isinstance(v, int) and (r < 0 or c < 0):
                return tm.undef('m', (v, 1) if c == 1 else (1, v))
            if (r, c) == (1, 1):
                return tm.mlit(1, 1, [v])
            raise Unmod('matrix constructor')
        if len(vs) == 2 and (r < 0 or c < 0) and all(isinstance(v, int) for v in vs):
            return tm.undef('m', (vs[0], vs[1]))
        if r > 0 and c > 0 and r * c == len(vs):
            return tm.mlit(r, c, vs)
        raise Unmod('matrix constructor')

    # ---------- Eigen ----------
    def view(self, e, name, loc, v, vs):
        """location of a sub-matrix view, or None"""
        ints = [x for x in (e.get('ta') or []) if isinstance(x, int) and not isinstance(x, bool)]
        R, C = v.sh
        try:
            tr, tc = mdims(base(e['t'])) if base(e['t']).startswith(('M:', 'MX:')) else (-1, -1)
        except Exception:
            tr, tc = -1, -1
        n = [x for x in vs]
        if not all(isinstance(x, int) for x in n):
            raise Unmod('symbolic block position')
        col = C == 1
        if name == 'block':
            if len(n) == 2:
                i, j, r, c = n[0], n[1], ints[0], ints[1]
            else:
                i, j, r, c = n[:4]
        elif name in ('topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'):
            r, c = (n[0], n[1]) if len(n) == 2 else (ints[0], ints[1])
            i = 0 if name.startswith('top') else R - r
            j = 0 if 'Left' in name else C - c
        elif name in ('topRows', 'bottomRows'):
            r, c = (n[0] if n else ints[0]), C
            i, j = (0 if name == 'topRows' else R - r), 0
        elif name in ('leftCols', 'rightCols'):
            r, c = R, (n[0] if n else ints[0])
            i, j = 0, (0 if name == 'leftCols' else C - c)
        elif name == 'middleRows':
            i, j, r, c = n[0], 0, (n[1] if len(n) > 1 else ints[0]), C
        elif name == 'middleCols':
            i, j, r, c = 0, n[0], R, (n[1] if len(n) > 1 else ints[0])
        elif name == 'row':
            i, j, r, c = n[0], 0, 1, C
        elif name == 'col':
            i, j, r, c = 0, n[0], R, 1
        elif name in ('segment', 'head', 'tail'):
            L = R * C
            if name == 'segment':
                k, m = n[0], (n[1] if len(n) > 1 else ints[0])
            elif name == 'head':
                k, m = 0, (n[0] if n else ints[0])
            else:
                m = n[0] if n else ints[0]
                k = L - m
            i, j, r, c = (k, 0, m, 1) if col else (0, k, 1, m)
        else:
            return None
        self.g.stat['blocks'] += 1
        if i < 0 or j < 0 or r < 0 or c < 0 or i + r > R or j + c > C or i > 1 << 31 or j > 1 << 31:
            raise UB('block of %dx%d at (%d, %d) in a %dx%d matrix' % (r, c, i, j, R, C))
        return ('blk', loc, i, j, r, c)

    VIEWS = ('block', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'topRows', 'bottomRows', 'leftCols',
             'rightCols', 'middleRows', 'middleCols', 'row', 'col', 'segment', 'head', 'tail')

    def isscalar(self, x):
        return isnum(x) or (isinstance(x, T) and x.sh in ('s', 'i', 'b'))

    def mbin(self, op, a, b, arr):
        """binary operator on matrices / arrays / scalars"""
        a, b = self.dense(a), self.dense(b)
        sa, sb = self.isscalar(a), self.isscalar(b)
        if sa and sb:
            return {'+': tm.add, '-': tm.sub, '*': tm.mul, '/': tm.div}[op](a, b)
        if arr:
            if op in ('+', '-', '*', '/'):
                return tm.mew(op, a, b)
            if op == '<':
                return tm.mew('<', a, b)
            if op == '>':
                return tm.mew('<', b, a) if not sb else tm.mk('ew:<', (tm.lift(b), a), a.sh)
            if op == '<=':
                return tm.mew('<=', a, b)
            if op == '>=':
                return tm.mk('ew:<=', (tm.lift(b), tm.lift(a)), a.sh)
            raise Unmod('array operator ' + op)
        if op == '*':
            if sa:
                return tm.mscale(a, b)
            if sb:
                return tm.mscale(b, a)
            if isinstance(a, T) and a.sh == 'q':
                if b.sh == 'q':
                    return tm.qmul(a, b)
                if b.sh == (3, 1):
                    return tm.qrot(a, b)
                return tm.mmul(tm.qmat(a), b)
            if b.sh == 'q':
                return tm.mmul(a, tm.qmat(b))
            if a.sh == (1, 1) and b.sh[0] != 1:
                return tm.mscale(tm.mc(a, 0, 0), b)
            if b.sh == (1, 1) and a.sh[1] != 1:
                return tm.mscale(tm.mc(b, 0, 0), a)
            return tm.mmul(a, b)
        if op == '/':
            return tm.mdivs(a, b)
        if op in '+-':
            if sa or sb:
                # 1x1 expressions mixed with scalars
                x = tm.mc(a, 0, 0) if not sa else a
                y = tm.mc(b, 0, 0) if not sb else b
                return tm.add(x, y) if op == '+' else tm.sub(x, y)
            return tm.madd(a, b) if op == '+' else tm.msub(a, b)
        raise Unmod('matrix operator ' + op)

    def compared(self, v):
        """coefficients of an array comparison"""
        if isinstance(v, tuple) and v and v[0] == 'BM':
            return v[2]
        if isinstance(v, T) and v.op in ('ew:<', 'ew:<='):
            f = tm.lt if v.op == 'ew:<' else tm.le
            a, b = (tm.lift(x) if isnum(x) else x for x in v.a[:2])
            return tuple(f(*[x if not tm.ismat(x) else tm.mc(x, i, j) for x in (a, b)]) for j in range(v.sh[1]) for i in range(v.sh[0]))
        raise Unmod('coefficients of a condition')

    def bools(self, name, cs, st):
        if name == 'count':
            n = 0
            for c in cs:
                n = tm.add(n, tm.ite(c, 1, 0)) if isinstance(c, T) else n + int(bool(c))
            return [(n, st)]
        return [((tm.or_ if name == 'any' else tm.and_)(*cs), st)]

    def bmeth(self, e, name, v, args, st):
        if name in ('any', 'all', 'count') and not args:
            return self.bools(name, v[2], st)
        if name in ('operator!',):
            return [(('BM', v[1], tuple(tm.not_(c) for c in v[2])), st)]
        if name in ('operator&&', 'operator||'):
            f = tm.and_ if name == 'operator&&' else tm.or_
            return [(('BM', v[1], tuple(f(a, b) for a, b in zip(v[2], self.compared(x)))), s) for x, s in self.g.ev(args[0], st)]
        if name in ('eval', 'derived', 'array', 'matrix'):
            return [(v, st)]
        raise Unmod('condition operation ' + name)

    def mmeth(self, e, rec, name, op, loc, v, args, st):
        g = self.g
        arr = rec == 'Eigen::ArrayBase' or (isinstance(loc, tuple) and loc[0] == 'arr')
        r = self.mmore(e, rec, name, op, loc, v, args, st) if isinstance(v.sh, tuple) else None
        if r is not None:
            return r
        if not isinstance(v.sh, tuple):
            if v.sh in ('s', 'i', 'b'):
                if name in ('value', 'operator()', 'coeff', 'eval', 'operator bool') or name.startswith('operator ') :
                    return [(v, st)]
                if name == 'norm':
                    return [(tm.fn('fabs', v), st)]
                if name == 'operator=':
                    return [(('LOC', loc), s) for x, s in self.stores(loc, args, st)]
            raise Unmod('method %s of a scalar' % name)
        if name in self.VIEWS:
            out = []
            for vs, s in g.evs(args, st):
                r = g.guard(s, e.get('l'), lambda: [(('LOC', self.view(e, name, loc, v, vs)), s)])
                out += [(g.opq(e), s)] if r is None else r
            return out
        if name in ('operator()', 'coeff', 'coeffRef', 'operator[]'):
            out = []
            for vs, s in g.evs(args, st):
                if not all(isinstance(x, int) for x in vs):
                    x = self.picked(e, s, loc, v, vs)
                    if isinstance(x, tuple):
                        out.append((('LOC', x), s))
                    if not isinstance(x, list):
                        continue
                    vs = x
                if len(vs) == 2:
                    i, j = vs
                else:
                    i, j = (vs[0], 0) if v.sh[1] == 1 else (0, vs[0]) if v.sh[0] == 1 else (vs[0] % max(v.sh[0], 1), vs[0] // max(v.sh[0], 1))
                g.stat['index'] += 1
                if not (0 <= i < v.sh[0] and 0 <= j < v.sh[1]):
                    g.ub(s, 'coefficient (%d, %d) of a %dx%d matrix' % ((i, j) + v.sh), e.get('l'))
                    continue
                out.append((('LOC', ('mc', loc, i, j)), s))
            return out
        if name in ('x', 'y', 'z', 'w') and not args:
            i = 'xyzw'.index(name)
            return [(('LOC', ('mc', loc, i, 0) if v.sh[1] == 1 else ('mc', loc, 0, i)), st)]
        if name == 'transpose':
            return [(('LOC', ('tr', loc)), st)]
        if name == 'adjoint':
            return [(tm.mtr(v), st)]
        if name == 'diagonal':
            if args and not (args[0].get('k') == 'int' and args[0].get('v') == 0):
                raise Unmod('secondary diagonal')
            return [(('LOC', ('diag', loc)), st)]
        if name == 'array':
            return [(('LOC', ('arr', loc)), st)]
        if name in ('matrix', 'eval', 'noalias', 'derived', 'const_cast_derived', 'cast', 'nestedExpression', 'toDenseMatrix'):
            return [(('LOC', loc[1] if name == 'matrix' and isinstance(loc, tuple) and loc[0] == 'arr' else loc), st)]
        if name == 'rows':
            return [(v.sh[0], st)]
        if name == 'cols':
            return [(v.sh[1], st)]
        if name == 'size':
            return [(v.sh[0] * v.sh[1], st)]
        if name == 'transposeInPlace':
            g.store(st, loc, tm.mtr(v))
            return [((), st)]
        if name == 'norm' or name == 'stableNorm':
            return [(tm.mnorm(v), st)]
        if name == 'squaredNorm':
            return [(tm.mnorm2(v), st)]
        if name == 'trace':
            return [(tm.mtrace(v), st)]
        if name == 'sum':
            return [(tm.msum(v), st)]
        if name == 'mean':
            return [(tm.div(tm.msum(v), float(v.sh[0] * v.sh[1])), st)]
        if name in ('maxCoeff', 'minCoeff') and not args:
            tm.register('maxc', lambda A: A.reshape(A.shape[0], -1).max(1))
            tm.register('minc', lambda A: A.reshape(A.shape[0], -1).min(1))
            return [(tm.mfun(name[:3] + 'c', 's', v), st)]
        if name in ('maxCoeff', 'minCoeff') and len(args) == 2 and base(args[0].get('t', '')).startswith('p<'):
            f = 'max' if name == 'maxCoeff' else 'min'
            red = np.argmax if f == 'max' else np.argmin
            tm.register(f + 'c', lambda A: getattr(A.reshape(A.shape[0], -1), f)(1))
            sh = v.sh
            tm.register(f + 'i', lambda A: np.array([float(red(x.T.reshape(-1)) % x.shape[0]) for x in A]))
            tm.register(f + 'j', lambda A: np.array([float(red(x.T.reshape(-1)) // x.shape[0]) for x in A]))
            out = []
            for vs, s in g.evs(args, st):
                for p, k in zip(vs, 'ij'):
                    x = tm.mfun(f + k, 'i', v)
                    g.store(s, g.deref(s, p), x)
                out.append((tm.mfun(f + 'c', 's', v), s))
            return out
        if name == 'determinant':
            tm.register('det', lambda A: np.linalg.det(A))
            return [(tm.mfun('det', 's', v), st)]
        if name == 'normalized':
            return [(tm.mdivs(v, tm.mnorm(v)), st)]
        if name == 'normalize':
            g.store(st, loc, tm.mdivs(v, tm.mnorm(v)))
            return [((), st)]
        if name in ('any', 'all', 'count') and not args:
            return self.bools(name, self.compared(v), st)
        if name in ('isFinite', 'isNaN', 'isInf') and not args:
            cs = [tm.mc(v, i, j) for j in range(v.sh[1]) for i in range(v.sh[0])]
            f = {'isFinite': tm.isfinite, 'isNaN': tm.isnan, 'isInf': lambda x: tm.and_(tm.not_(tm.isfinite(x)), tm.not_(tm.isnan(x)))}[name]
            return [(('BM', v.sh, tuple(f(c) for c in cs)), st)]
        if name == 'allFinite':
            return [(tm.mall_finite(v), st)]
        if name == 'hasNaN':
            return [(tm.mk('mnan', (v,), 'b'), st)]
        if name in ('value',):
            return [(tm.mc(v, 0, 0), st)]
        if name.startswith('operator ') :
            return [(tm.mc(v, 0, 0), st)]
        if name == 'asDiagonal':
            return [(tm.mdiag(v), st)]
        if name == 'hnormalized':
            n = v.sh[0] - 1
            return [(tm.mlit(n, 1, [tm.div(tm.mc(v, i), tm.mc(v, n)) for i in range(n)]), st)]
        if name == 'homogeneous':
            return [(tm.mlit(v.sh[0] + 1, 1, [tm.mc(v, i) for i in range(v.sh[0])] + [1.0]), st)]
        if name == 'inverse':
            return [(tm.mew('/', 1.0, v) if arr else tm.mfun('inv', v.sh, v), st)]
        if name in ('abs', 'cwiseAbs'):
            return [(tm.mk('mabs', (v,), v.sh), st)]
        if name in ('ldlt', 'llt', 'lu', 'partialPivLu', 'fullPivLu', 'colPivHouseholderQr', 'householderQr', 'fullPivHouseholderQr', 'jacobiSvd', 'bdcSvd', 'selfadjointView'):
            kind = {'jacobiSvd': 'svd', 'bdcSvd': 'svd', 'householderQr': 'qr', 'ldlt': 'ldlt', 'llt': 'llt'}.get(name, 'lu')
            if name == 'selfadjointView':
                raise Unmod('selfadjointView')
            return [(('S', kind, v) + tuple(x for x in vs[:1] if isinstance(x, int) and kind == 'svd'), s) for vs, s in g.evs(args, st)]
        if name == 'setZero' or name == 'setOnes':
            out = []
            for vs, s in g.evs(args, st):
                sh = v.sh if not vs else (vs[0], vs[1]) if len(vs) == 2 else (vs[0], 1)
                if not all(isinstance(x, int) for x in sh):
                    raise Unmod('symbolic size')
                if any(x < 0 or x > 100000 for x in sh):
                    g.ub(s, 'matrix of size %dx%d' % sh, e.get('l'))
                    continue
                z = tm.mzero(*sh)
                g.store(s, loc, z if name == 'setZero' else tm.mew('+', z, 1.0))
                out.append((('LOC', loc), s))
            return out
        if name == 'setIdentity':
            out = []
            for vs, s in g.evs(args, st):
                g.store(s, loc, tm.mid(*(vs if len(vs) == 2 else v.sh)))
                out.append((('LOC', loc), s))
            return out
        if name in ('setConstant', 'fill'):
            out = []
            for x, s in g.ev(args[-1], st):
                g.store(s, loc, tm.mew('+', tm.mzero(*v.sh), x))
                out.append((('LOC', loc), s))
            return out
        if name in ('resize', 'conservativeResize'):
            out = []
            for vs, s in g.evs(args, st):
                keep = [str(a.get('enum')).endswith('NoChange') or 'NoChange' in base(a.get('t', '')) for a in args]
                sh = tuple(v.sh[i] if keep[i] else vs[i] for i in (0, 1)) if len(vs) == 2 else (1, vs[0]) if base(e['obj']['t']).split(':')[-1].startswith('1,') else (vs[0], 1)
                if any(not isinstance(x, int) for x in sh):
                    raise Unmod('symbolic size')
                if any(x < 0 or x > 100000 for x in sh):
                    g.ub(s, 'matrix of size %dx%d' % sh, e.get('l'))
                    continue
                if sh != v.sh:
                    n = tm.undef('resized', sh)
                    if name == 'conservativeResize':
                        r, c = min(sh[0], v.sh[0]), min(sh[1], v.sh[1])
                        if (r, c) == sh:
                            n = tm.mblk(v, 0, 0, r, c)
                        elif r and c:
                            n = tm.mset(n, 0, 0, tm.mblk(v, 0, 0, r, c))
                    g.store(s, loc, n)
                out.append((((), s)))
            return out
        if name == 'swap':
            out = []
            for l2, s in g.lv(args[0], st):
                a, b = g.load(s, loc), g.load(s, l2)
                g.store(s, loc, b)
                g.store(s, l2, a)
                out.append(((), s))
            return out
        if name == 'operator=':
            out = []
            for x, s in g.ev(args[0], st):
                x = self.dense(x)
                if isnum(x) or (isinstance(x, T) and x.sh in ('s', 'i')):
                    x = tm.mew('+', tm.mzero(*v.sh), x)
                if isinstance(x, T) and x.sh == 'q':
                    x = tm.qmat(x)
                if not isinstance(x, T):
                    raise Unmod('matrix assigned from %r' % (x,))
                # assignment of a row to a column vector and the like
                if isinstance(loc, int):
                    bt = base(e['obj']['t'])
                    if bt.startswith('M:'):
                        r, c = mdims(bt)
                        if r > 0 and c > 0 and x.sh != (r, c):
                            if x.sh == (c, r):
                                x = tm.mtr(x)
                            else:
                                raise UB('%dx%d value assigned to a %dx%d matrix' % (x.sh + (r, c)))
                g.store(s, loc, x)
                out.append((('LOC', loc), s))
            return out
        if name in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
            out = []
            for x, s in g.ev(args[0], st):
                cur = g.load(s, loc)
                g.store(s, loc, self.mbin(name[8], cur, x, arr and not (isinstance(x, T) and name[8] == '*' and not arr)))
                out.append((('LOC', loc), s))
            return out
        if name in ('operator-', 'operator+') and not args:
            return [(tm.mneg(v) if name == 'operator-' else v, st)]
        if name == 'operator<<':
            out = []
            for x, s in g.ev(args[0], st):
                out.append((self.comma(s, ('CI', loc, 0, 0, 0), x), s))
            return out
        if name.startswith('operator') and len(args) == 1:
            out = []
            for x, s in g.ev(args[0], st):
                if name in ('operator==', 'operator!=') and arr:
                    q = [tm.eq(tm.mc(v, i, j), x if self.isscalar(x) else tm.mc(x, i, j)) for j in range(v.sh[1]) for i in range(v.sh[0])]
                    out.append((('BM', v.sh, tuple(q if name == 'operator==' else [tm.not_(c) for c in q])), s))
                elif name in ('operator==', 'operator!='):
                    r = tm.close(v, x, 0.0)
                    out.append((r if name == 'operator==' else tm.not_(r), s))
                else:
                    r = g.guard(s, e.get('l'), lambda: [(self.mbin(name[8:], v, x, arr), s)])
                    out += [(g.opq(e), s)] if r is None else r
            return out
        if name in ('dot', 'cross', 'cwiseProduct', 'cwiseQuotient', 'cwiseMax', 'cwiseMin', 'lazyProduct'):
            out = []
            for x, s in g.ev(args[0], st):
                r = {'dot': tm.mdot, 'cross': tm.mcross, 'lazyProduct': tm.mmul, 'cwiseProduct': lambda a, b: tm.mew('*', a, b),
                     'cwiseQuotient': lambda a, b: tm.mew('/', a, b), 'cwiseMax': lambda a, b: tm.mew('max', a, b),
                     'cwiseMin': lambda a, b: tm.mew('min', a, b)}[name](v, x)
                out.append((r, s))
            return out
        if name == 'select':
            out = []
            for (a, b), s in g.evs(args, st):
                a = a if tm.ismat(a) else tm.mew('+', tm.mzero(*v.sh), a)
                b = b if tm.ismat(b) else tm.mew('+', tm.mzero(*v.sh), b)
                out.append((tm.mk('msel', (v, a, b), v.sh), s))
            return out
        if name == 'householderQ':
            return [(('LOC', loc), st)]
        raise Unmod('matrix operation %s::%s' % (rec, name))

    def comma(self, st, ci, x):
        _, loc, i, j, h = ci
        g = self.g
        m = g.load(st, loc)
        if self.isscalar(x):
            x = tm.mlit(1, 1, [x])
        R, C = m.sh
        if j == C and C > 0:
            i, j, h = i + h, 0, 0
        if j == 0:
            h = x.sh[0]
        if i + x.sh[0] > R or j + x.sh[1] > C:
            raise UB('too many coefficients in a comma initialiser')
        m2 = m
        if x.sh == (1, 1) and R * C <= 16:
            m2 = tm.msetc(m, i, j, tm.mc(x, 0, 0))
        else:
            m2 = tm.mset(m, i, j, x)
        if loc and not isinstance(loc, int) and loc[0] == 'tmp':
            return ('CI', ('tmp', m2), i, j + x.sh[1], h)
        g.store(st, loc, m2)
        return ('CI', loc, i, j + x.sh[1], h)

    def solver(self, e, rec, name, op, loc, v, args, st):
        g = self.g
        if v[0] == 'CI':
            if name == 'operator,':
                return [(self.comma(s, v, x), s) for x, s in g.ev(args[0], st)]
            if name == 'finished':
                return [(('LOC', v[1]), st)]
        if v[0] == 'X':
            if name == 'compute':
                kind = solver_t('E:' + rec) or 'ldlt'
                out = []
                for vs, s in g.evs(args, st):
                    g.store(s, loc, ('S', kind, vs[0]) + tuple(x for x in vs[1:2] if isinstance(x, int) and kind == 'svd'))
                    out.append((('LOC', loc), s))
                return out
            raise Unmod('%s::%s' % (rec, name))
        kind, M = v[1], v[2]
        n, m = M.sh
        if name == 'compute':
            out = []
            for vs, s in g.evs(args, st):
                g.store(s, loc, ('S', kind, vs[0]) + (tuple(x for x in vs[1:2] if isinstance(x, int) and kind == 'svd') or tuple(v[3:])))
                out.append((('LOC', loc), s))
            return out
        if name == 'solve':
            out = []
            for b, s in g.ev(args[0], st):
                if n != m:
                    out.append((tm.mmul(tm.mfun('pinv', (m, n), M), b), s))
                else:
                    if b.sh[0] != n:
                        g.ub(s, 'solve of a %dx%d system with %d rows' % (n, m, b.sh[0]), e.get('l'))
                        continue
                    d = tm.mfun('solve', b.sh, M, b)
                    h = g.hooks.get('solve')
                    if h:
                        h(g, s, M, b, d)
                    out.append((d, s))
            return out
        if name == 'matrixL' and kind == 'llt':
            return [(tm.mfun('chol', (n, n), M), st)]
        if name == 'matrixV' or name == 'matrixU' and kind == 'svd':
            d, o = (n, m) if name == 'matrixU' else (m, n)
            x = tm.mfun('svd' + name[-1], (d, d), M)
            if d > o and kind == 'svd':
                # the thin factor consists of the first columns
                if len(v) < 4 or not v[3] & (12 if name == 'matrixU' else 48):
                    raise Unmod('singular vectors that were not asked for')
                if v[3] & (8 if name == 'matrixU' else 32):
                    x = tm.mblk(x, 0, 0, d, o)
            return [(x, st)]
        if name == 'singularValues':
            return [(tm.mfun('svdS', (min(n, m), 1), M), st)]
        if name == 'eigenvalues':
            return [(tm.mfun('eigval', (n, 1), M), st)]
        if name == 'eigenvectors':
            return [(tm.mfun('eigvec', (n, n), M), st)]
        if name in ('householderQ', 'matrixQ'):
            return [(tm.mfun('qrQ', (n, n), M), st)]
        if name == 'inverse':
            return [(tm.mfun('inv', (n, n), M), st)]
        if name == 'info':
            return [(0, st)]
        if name == 'rank' and not args:
            tm.register('rank', lambda A: np.array([float(np.linalg.matrix_rank(x)) for x in A]))
            return [(tm.mfun('rank', 's', M), st)]
        if name in ('isInvertible', 'isInjective') and not args:
            tm.register('rank', lambda A: np.array([float(np.linalg.matrix_rank(x)) for x in A]))
            return [(tm.eq(tm.mfun('rank', 's', M), float(m)), st)]
        raise Unmod('solver operation %s::%s' % (rec, name))

    def qmeth(self, e, rec, name, op, loc, v, args, st):
        g = self.g
        if name in ('w', 'x', 'y', 'z'):
            return [(('LOC', ('qc', loc, 'wxyz'.index(name))), st)]
        if name == 'vec':
            return [(('LOC', ('qv', loc)), st)]
        if name == 'coeffs':
            return [(('LOC', ('qco', loc)), st)]
        if name in ('inverse',):
            return [(tm.qinv(v), st)]
        if name == 'conjugate':
            return [(tm.qconj(v), st)]
        if name == 'normalized':
            return [(tm.qnormd(v), st)]
        if name == 'normalize':
            g.store(st, loc, tm.qnormd(v))
            return [((), st)]
        if name in ('toRotationMatrix', 'matrix'):
            return [(tm.qmat(v), st)]
        if name == 'setIdentity':
            g.store(st, loc, tm.qid())
            return [(('LOC', loc), st)]
        if name == 'norm':
            return [(tm.mnorm(tm.qcoeffs(v)), st)]
        if name == 'squaredNorm':
            return [(tm.mnorm2(tm.qcoeffs(v)), st)]
        if name in ('derived', 'cast', 'eval', 'const_cast_derived'):
            return [(('LOC', loc), st)]
        if name == 'operator=':
            out = []
            for x, s in g.ev(args[0], st):
                if isinstance(x, T) and x.sh == (3, 3):
                    x = tm.qfrommat(x)
                elif isinstance(x, T) and x.sh == (4, 1):
                    x = tm.qlit(tm.mc(x, 3), tm.mc(x, 0), tm.mc(x, 1), tm.mc(x, 2))
                if not (isinstance(x, T) and x.sh == 'q'):
                    raise Unmod('quaternion assignment')
                g.store(s, loc, x)
                out.append((('LOC', loc), s))
            return out
        if name in ('operator*', 'operator*='):
            out = []
            for x, s in g.ev(args[0], st):
                r = self.mbin('*', v, x, False)
                if name == 'operator*=':
                    g.store(s, loc, r)
                    out.append((('LOC', loc), s))
                else:
                    out.append((r, s))
            return out
        if name == '_transformVector':
            return [(tm.qrot(v, x), s) for x, s in g.ev(args[0], st)]
        if name == 'setFromTwoVectors':
            out = []
            for (a, b), s in g.evs(args, st):
                g.store(s, loc, tm.q2v(a, b))
                out.append((('LOC', loc), s))
            return out
        if name == 'dot':
            return [(tm.mdot(tm.qcoeffs(v), tm.qcoeffs(x)), s) for x, s in g.ev(args[0], st)]
        r = self.rotmore(e, rec, name, op, loc, v, args, st)
        if r is not None:
            return r
        raise Unmod('quaternion operation ' + name)

    # ---------- free functions ----------
    def free(self, e, st):
        g = self.g
        name = e.get('name') or ''
        rec = e.get('rec') or ''
        args = e['args']
        out = []
        if name in ('swap', 'iter_swap') and len(args) == 2:
            for l1, s in g.lv(args[0], st):
                for l2, s2 in g.lv(args[1], s):
                    def f():
                        nonlocal l1, l2
                        if name == 'iter_swap':
                            l1, l2 = self.deref_it(s2, g.load(s2, l1)), self.deref_it(s2, g.load(s2, l2))
                        a, b = g.load(s2, l1), g.load(s2, l2)
                        if isO(a):
                            a = ('O', g.clone(s2, a[1]))
                        if isO(b):
                            b = ('O', g.clone(s2, b[1]))
                        g.store(s2, l1, b)
                        g.store(s2, l2, a)
                        return [((), s2)]
                    r = g.guard(s2, e.get('l'), f)
                    out += [((), s2)] if r is None else r
            return out
        if name == 'tie' and rec == '' and base(e.get('t', '')).startswith('tup<'):
            sts = [((), st)]
            for a in args:
                nxt = []
                for ls, s in sts:
                    if 'ignore' in str(a.get('name', a.get('n', ''))):
                        nxt.append((ls + (None,), s))
                        continue
                    nxt += [(ls + (l,), s2) for l, s2 in g.lv(a, s)]
                sts = nxt
            return [(('TIE', ls), s) for ls, s in sts]
        if name == 'get' and len(args) == 1 and base(args[0]['t']).startswith(('pair<', 'tup<')):
            k = [x for x in (e.get('ta') or []) if isinstance(x, int) and not isinstance(x, bool)]
            for l, s in g.lv(args[0], st):
                v = g.load(s, l)
                if not isO(v) or not k:
                    raise Unmod('std::get')
                out.append((('LOC', list(g.obj(s, v[1])[2].values())[k[0]]), s))
            return out
        if name in ('move', 'forward', 'as_const', 'ref', 'cref') and len(args) == 1:
            return [(('LOC', loc), s) for loc, s in g.lv(args[0], st)]
        if name in ('addressof',):
            return [(('P', loc), s) for loc, s in g.lv(args[0], st)]
        if name == 'make_shared' or name == 'make_unique':
            t = targs(base(e['t']))[0]
            r = g.guard(st, e.get('l'), lambda: [(('P', v[1]), s) for v, s in g.construct(base(t)[2:], args, st)] if base(t).startswith('R:')
                        else [(('P', c), s) for c, s in self.emplace(st, t, e, args)])
            return [(g.opq(e), st)] if r is None else r
        if name in ('getline',) or name == 'operator>>':
            h = g.hooks.get('stream')
            if h:
                r = h(e, rec, name, e.get('op'), None, None, args, st)
                if r is not None:
                    return r
            g.taint(st, 'stream operation ' + name)
            return [(g.opq(e), st)]
        if name in ('advance',) and len(args) == 2:
            for l1, s in g.lv(args[0], st):
                for n, s2 in g.ev(args[1], s):
                    def f():
                        k = n - (1 << 64) if isinstance(n, int) and n >= 1 << 63 else n
                        if not isinstance(k, int):
                            raise Unmod('advance')
                        g.store(s2, l1, self.it_step(s2, g.load(s2, l1), k))
                        return [((), s2)]
                    r = g.guard(s2, e.get('l'), f)
                    out += [((), s2)] if r is None else r
            return out
        if name == 'exchange' and len(args) == 2:
            for l1, s in g.lv(args[0], st):
                for v, s2 in g.ev(args[1], s):
                    def f():
                        old = g.load(s2, l1)
                        if isO(old):
                            old = ('O', g.clone(s2, old[1]))
                        g.store(s2, l1, v)
                        return [(old, s2)]
                    r = g.guard(s2, e.get('l'), f)
                    out += [(g.opq(e), s2)] if r is None else r
            return out
        if name in ('back_inserter', 'front_inserter', 'inserter') and args:
            for l1, s in g.lv(args[0], st):
                v = g.load(s, l1)
                o = v[1] if isO(v) else l1
                if name == 'inserter' and g.obj(s, o)[0] == 's':
                    for it, s2 in g.ev(args[1], s):
                        if it != self.end(s2, o, False):
                            g.taint(s2, 'inserter')
                        out.append((('INS', o, 'back'), s2))
                    continue
                out.append((('INS', o, name[:-9]), s))
            return out
        if name in ('for_each', 'any_of', 'all_of', 'none_of', 'count_if', 'find_if', 'find_if_not') or name in self.ALGO:
            r = g.guard(st, e.get('l'), lambda: self.algo(e, name, args, st))
            return [(g.opq(e), st)] if r is None else r
        for vs, s in g.evs(args, st):
            r = g.guard(s, e.get('l'), lambda: self.freev(e, name, rec, vs, s))
            out += [(g.opq(e), s)] if r is None else r
        return out

    def algo(self, e, name, args, st):
        g = self.g
        out = []
        for vs, s in g.evs(args, st):
            if name in ('for_each', 'any_of', 'all_of', 'none_of', 'count_if', 'find_if', 'find_if_not'):
                a, b, f = vs
                cells = self.range(s, a, b)
                its = []
                it = a
                for _ in cells:
                    its.append(it)
                    it = self.it_step(s, it, 1)
                active = [(0, s)]
                for c, it in zip(cells, its):
                    nxt = []
                    for n, s2 in active:
                        for v, s3 in self.callv(f, [c], s2):
                            if name == 'for_each':
                                nxt.append((n, s3))
                                continue
                            for bv, s4 in g.branch(s3, g.truth(v)):
                                if name == 'count_if':
                                    nxt.append((n + int(bv), s4))
                                elif name == 'any_of' and bv:
                                    out.append((True, s4))
                                elif name == 'all_of' and not bv:
                                    out.append((False, s4))
                                elif name == 'none_of' and bv:
                                    out.append((False, s4))
                                elif name == 'find_if' and bv or name == 'find_if_not' and not bv:
                                    out.append((it, s4))
                                else:
                                    nxt.append((n, s4))
                    active = g.mergevals(nxt)
                fin = {'for_each': lambda n: vs[2], 'any_of': lambda n: False, 'all_of': lambda n: True, 'none_of': lambda n: True,
                       'count_if': lambda n: n, 'find_if': lambda n: b, 'find_if_not': lambda n: b}[name]
                out += [(fin(n), s2) for n, s2 in active]
            else:
                out += self.algox(e, name, vs, s)
        return g.mergevals(out)

    def pickspec(self, node, locs, st):
        """the instantiation of a generic lambda for the given arguments (those with equal parameter types are equal)"""
        specs = [x for x in node.get('specs', []) if len(x['params']) == len(locs)]
        if not specs:
            return node
        if len({tuple(base(p['t']) for p in x['params']) for x in specs}) == 1:
            return specs[0]
        ok = []
        for x in specs:
            for p, l in zip(x['params'], locs):
                h = st.heap.get(l) if isinstance(l, int) else None
                b = base(p['t'])
                if h is None:
                    continue
                if b.startswith('R:') and (h[0] != 'r' or h[1] != b[2:]) or h[0] == 'r' and h[1] not in b or h[0] == 's' and base(h[2]) != b:
                    break
            else:
                ok.append(x)
        if len({tuple(base(p['t']) for p in x['params']) for x in ok}) == 1:
            return ok[0]
        return node

    def callv(self, f, locs, st):
        if isinstance(f, tuple) and f and f[0] == 'L':
            ls, node = [], self.pickspec(f[2], locs, st)
            for p, l in zip(node['params'], locs):
                ls.append(l if isref(p['t']) else self.g.clone(st, l))
            return self.g.call_lambda(f, ls, st, node)
        if isinstance(f, tuple) and f and f[0] == 'F' and f[1] in self.g.p.fns:
            fn = self.g.p.fns[f[1]]
            ls = [l if isref(p['t']) else self.g.clone(st, l) for p, l in zip(fn['params'], locs)]
            return self.g.call(fn, None, ls, st)
        if isinstance(f, tuple) and f and f[0] == 'X' and f[1].startswith('X:std::') and len(locs) <= 2:
            op = {'greater': '>', 'less': '<', 'greater_equal': '>=', 'less_equal': '<=', 'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/',
                  'equal_to': '==', 'not_equal_to': '!=', 'logical_and': '&&', 'logical_or': '||', 'negate': '-', 'logical_not': '!'}.get(f[1][7:].split('<')[0])
            v = [self.g.load(st, l) for l in locs]
            if op in ('>', '<', '>=', '<=') and len(v) == 2:
                a, b = (v[1], v[0]) if op in ('>', '<=') else (v[0], v[1])
                r = self.lt(st, a, b)
                return [(tm.not_(r) if '=' in op else r, st)]
            if op in ('==', '!=') and len(v) == 2:
                r = self.eqv(st, v[0], v[1])
                return [(r if op == '==' else tm.not_(r), st)]
            if op in ('+', '-', '*', '/') and len(v) == 2 and not isO(v[0]) and not isO(v[1]):
                x, y = v
                if tm.ismat(x) or tm.ismat(y):
                    return [(self.mbin(op, x, y, False), st)]
                return [(self.g.binop(op, x, y, 'i32' if isinstance(x, int) and isinstance(y, int) else 'f64'), st)]
        if isO(f) and isinstance(f[1], int) and st.heap[f[1]][0] == 'r':
            c = [x for x in self.g.p.fns.values() if x.get('rec') == st.heap[f[1]][1] and x['fn'].endswith('::operator()') and len(x['params']) == len(locs)]
            if len(c) == 1:
                ls = [l if isref(p['t']) else self.g.clone(st, l) for p, l in zip(c[0]['params'], locs)]
                return self.g.call(c[0], f[1], ls, st)
        raise Unmod('callback')

    def dims(self, e, vs):
        t = base(e['t'])
        r, c = mdims(t)
        if len(vs) == 2:
            r, c = vs
        elif len(vs) == 1 and isinstance(vs[0], int):
            r, c = (vs[0], 1) if c == 1 else (1, vs[0])
        if not isinstance(r, int) or not isinstance(c, int) or r < 0 or c < 0:
            raise Unmod('matrix of unknown size')
        return r, c

    def freev(self, e, name, rec, vs, s):
        g = self.g
        if name in ('seq', 'seqN', 'lastN') and str(e.get('fn', '')).startswith('Eigen::'):
            inc = vs[2 if name != 'lastN' else 1] if len(vs) > (2 if name != 'lastN' else 1) else 1
            if name == 'lastN' and isinstance(vs[0], int) and isinstance(inc, int):
                return [(('IXS', ('IXL', -(vs[0] - 1) * inc), vs[0], None, inc), s)]
            if name != 'lastN' and isinstance(inc, int):
                return [(('IXS', vs[0], vs[1] if name == 'seqN' else None, vs[1] if name == 'seq' else None, inc), s)]
        if name in ('operator==', 'operator!=') and len(vs) == 2:
            a, b = vs
            if tm.ismat(a) or tm.ismat(b):
                raise Unmod('matrix comparison')
            if isinstance(a, T) or isinstance(b, T) or isnum(a):
                r = tm.eq(a, b)
                return [(r if name[8] == '=' else tm.not_(r), s)]
            if isO(a) and isO(b):
                r = self.eqv(s, a, b)
                return [(r if name[8] == '=' else tm.not_(r), s)]
            if isO(a) or isO(b):
                raise Unmod('container comparison')
            return [((a == b) == (name[8] == '='), s)]
        if name in ('operator<', 'operator>', 'operator<=', 'operator>=') and len(vs) == 2 and isI(vs[0]):
            a, b = self.it_norm(s, vs[0]), self.it_norm(s, vs[1])
            return [({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[name[8:]], s)]
        if name in ('operator<', 'operator>', 'operator<=', 'operator>=') and len(vs) == 2 and (isO(vs[0]) and isO(vs[1]) or isinstance(vs[0], str) and isinstance(vs[1], str)):
            a, b = vs if name in ('operator<', 'operator>=') else (vs[1], vs[0])
            r = self.lt(s, a, b)
            return [(tm.not_(r) if name.endswith('=') else r, s)]
        if name in ('operator*', 'operator+', 'operator-', 'operator/') and len(vs) == 2:
            a, b = vs
            if isI(a) and isI(b):
                return [(self.it_norm(s, a) - self.it_norm(s, b), s)]
            if isI(a):
                return [(self.it_step(s, a, b if name[8] == '+' else -b), s)]
            if isI(b):
                return [(self.it_step(s, b, a), s)]
            if isinstance(a, str) or isinstance(b, str) or (isinstance(a, tuple) and a and a[0] == 'line'):
                return [((a if isinstance(a, str) else '?') + (b if isinstance(b, str) else '?'), s)]
            arr = 'Array' in base(e['t'])
            return [(self.mbin(name[8], a, b, arr), s)]
        if name == 'operator-' and len(vs) == 1 and isinstance(vs[0], T):
            return [(tm.mneg(vs[0]), s)]
        if name in ('Zero', 'Identity', 'Ones', 'Constant', 'UnitX', 'UnitY', 'UnitZ', 'Unit', 'Random', 'LinSpaced'):
            if base(e['t']).startswith(('Q:', 'QX')):
                return [(tm.qid(), s)]
            if name == 'Constant':
                r, c = self.dims(e, vs[:-1])
                return [(tm.mew('+', tm.mzero(r, c), vs[-1]), s)]
            r, c = self.dims(e, vs if name != 'Unit' else [])
            if name == 'Zero':
                return [(tm.mzero(r, c), s)]
            if name == 'Identity':
                return [(tm.mid(r, c), s)]
            if name == 'Ones':
                return [(tm.mew('+', tm.mzero(r, c), 1.0), s)]
            if name.startswith('Unit'):
                k = 'XYZ'.index(name[4]) if len(name) > 4 else vs[0]
                return [(tm.mlit(r, c, [1.0 if i == k else 0.0 for i in range(r * c)]), s)]
            if name == 'Random':
                return [(tm.undef('random', (r, c)), s)]
        if name == 'FromTwoVectors':
            return [(tm.q2v(*vs), s)]
        if name in ('fabs', 'abs', 'fabsf', 'absf') and len(vs) == 1:
            v = vs[0]
            if tm.ismat(v):
                return [(tm.mk('mabs', (v,), v.sh), s)]
            return [(abs(v) if isnum(v) else tm.fn('fabs', v), s)]
        n = name.rstrip('f') if name in ('sqrtf', 'logf', 'expf', 'sinf', 'cosf', 'acosf', 'asinf', 'floorf', 'ceilf', 'tanf', 'atanf') else name
        if n in ('sqrt', 'log', 'exp', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'floor', 'ceil') and len(vs) == 1:
            return [(tm.fn(n, vs[0]), s)]
        if name == 'atan2' or name == 'atan2f':
            return [(tm.atan2(*vs), s)]
        if name in ('pow', 'powf'):
            return [(tm.pow_(*vs), s)]
        if name in ('hypot',):
            return [(tm.fn('sqrt', tm.add(tm.mul(vs[0], vs[0]), tm.mul(vs[1], vs[1]))), s)]
        if name in ('min', 'max') and len(vs) == 1 and isO(vs[0]):
            xs = [g.load(s, c) for c in self.elems(s, vs[0][1])]
            r = xs[0]
            for x in xs[1:]:
                c = tm.lt(x, r) if name == 'min' else tm.lt(r, x)
                r = (x if c else r) if isnum(c) else tm.ite(c, x, r)
            return [(r, s)]
        if name == 'minmax' and len(vs) == 2:
            c = tm.lt(vs[1], vs[0])
            lo, hi = ((vs[1], vs[0]) if c else (vs[0], vs[1])) if isnum(c) else (tm.ite(c, vs[1], vs[0]), tm.ite(c, vs[0], vs[1]))
            return [(self.pair(s, lo, hi), s)]
        n = name[:-1] if name.endswith('f') and name[:-1] in SF else name
        if n in SF and len(vs) == SF[n] and not any(tm.ismat(v) for v in vs):
            return [(sfn(n, vs), s)]
        if name in ('lround', 'lrint', 'llround') and len(vs) == 1:
            return [(tm.trunc(sfn('round' if 'round' in name else 'rint', vs)), s)]
        if name == 'signbit' and isnum(vs[0]):
            return [(math.copysign(1.0, vs[0]) < 0, s)]
        if name == 'isnormal':
            return [(tm.and_(tm.isfinite(vs[0]), tm.le(1.17549435e-38, tm.fn('fabs', vs[0]))), s)]
        if name in ('stod', 'stof', 'stoi', 'stoul', 'stol', 'atof', 'atoi') and isinstance(vs[0], str) and vs[0] != '?':
            try:
                return [(float(vs[0]) if name in ('stod', 'stof', 'atof') else int(vs[0]), s)]
            except ValueError:
                raise Unmod('number in a string')
        if name in ('min', 'max', 'fmin', 'fmax') and len(vs) == 2:
            a, b = vs
            c = tm.lt(b, a) if name.endswith('min') else tm.lt(a, b)
            if isnum(c):
                return [(b if c else a, s)]
            if tm.sh_of(a) == 's' or tm.sh_of(b) == 's':
                return [(tm.ite(c, b, a), s)]
            return [(b if x else a, s2) for x, s2 in g.branch(s, c)]
        if name == 'clamp' and len(vs) == 3:
            v, lo, hi = vs
            return [(tm.ite(tm.lt(v, lo), lo, tm.ite(tm.lt(hi, v), hi, v)), s)]
        if name in ('isnan', '__builtin_isnan'):
            return [(tm.isnan(vs[0]), s)]
        if name in ('isfinite', '__builtin_isfinite'):
            return [(tm.isfinite(vs[0]), s)]
        if name in ('isinf',):
            return [(tm.and_(tm.not_(tm.isfinite(vs[0])), tm.not_(tm.isnan(vs[0]))), s)]
        if name == 'dummy_precision':
            return [(1e-12 if base(e['t']) == 'f64' else 1e-5, s)]
        if name.startswith('__builtin_nan') or name in ('nan', 'nanf', 'quiet_NaN', 'signaling_NaN'):
            return [(float('nan'), s)]
        if name in ('infinity', '__builtin_inf', '__builtin_huge_val', '__builtin_inff'):
            return [(float('inf'), s)]
        if name in ('lowest', 'max', 'min', 'epsilon') and not vs:
            t = base(e['t'])
            if t == 'f32':
                return [({'lowest': -3.4028234663852886e38, 'max': 3.4028234663852886e38, 'min': 1.17549435e-38, 'epsilon': 1.1920929e-07}[name], s)]
            if t == 'f64':
                return [({'lowest': -1.7976931348623157e308, 'max': 1.7976931348623157e308, 'min': 2.2250738585072014e-308, 'epsilon': 2.220446049250313e-16}[name], s)]
            if is_int_t(t) and name in ('max', 'min', 'lowest'):
                b = int(t[1:])
                u = t[0] == 'u'
                return [((1 << b) - 1 if u and name == 'max' else 0 if u else (1 << (b - 1)) - 1 if name == 'max' else -(1 << (b - 1)), s)]
        if name == 'make_pair' or name == 'pair':
            p = s.new(('r', 'std::pair', {'first': g.cell(s, vs[0]), 'second': g.cell(s, vs[1])}))
            return [(('O', p), s)]
        if name == 'make_tuple':
            return [(('O', s.new(('r', 'std::tuple', {str(i): g.cell(s, v) for i, v in enumerate(vs)}))), s)]
        if name in ('next', 'prev'):
            k = vs[1] if len(vs) > 1 else 1
            return [(self.it_step(s, vs[0], k if name == 'next' else -k), s)]
        if name == 'distance':
            return [(self.it_norm(s, vs[1]) - self.it_norm(s, vs[0]), s)]
        if name in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend') and len(vs) == 1 and isO(vs[0]):
            rev = 'r' in name[:2] and name[0] == 'r'
            return [((self.begin if 'begin' in name else self.end)(s, vs[0][1], rev), s)]
        if name == 'size' and isO(vs[0]):
            return [(len(self.elems(s, vs[0][1])), s)]
        if name == 'empty' and isO(vs[0]):
            return [(not self.elems(s, vs[0][1]), s)]
        if name == 'find' and isI(vs[0]):
            it = vs[0]
            while it != vs[1]:
                x = g.load(s, self.deref_it(s, it))
                r = g.binop('==', x, vs[2], 'b')
                if not isnum(r):
                    raise Unmod('symbolic find')
                if r:
                    break
                it = self.it_step(s, it, 1)
            return [(it, s)]
        if name == 'fill' and isI(vs[0]):
            for c in self.range(s, vs[0], vs[1]):
                g.store(s, c, vs[2])
            return [((), s)]
        if name == 'count' and isI(vs[0]):
            n = 0
            for c in self.range(s, vs[0], vs[1]):
                r = g.binop('==', g.load(s, c), vs[2], 'b')
                if not isnum(r):
                    raise Unmod('symbolic count')
                n += bool(r)
            return [(n, s)]
        if name == 'reverse' and isI(vs[0]) and vs[0][3] == 's':
            ob = g.obj(s, vs[0][1])
            a, b = vs[0][2], vs[1][2]
            self.setseq(s, vs[0][1], ob[3][:a] + ob[3][a:b][::-1] + ob[3][b:])
            return [((), s)]
        if name in ('to_string',):
            return [(str(vs[0]) if isnum(vs[0]) else '?', s)]
        if name in ('rand', 'srand', 'random'):
            if name == 'srand':
                return [((), s)]
            if g.rand is None:
                return [(tm.opaque('rand', 'i'), s)]
            v = g.rand(s)
            s.rands += 1
            return [(v, s)]
        if name == 'now' or rec.startswith('std::chrono') or 'chrono' in (e.get('fn') or ''):
            return [(g.opq(e), s)]
        if name in ('static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast'):
            return [(vs[0], s)]
        raise Unmod('function ' + (e.get('fn') or name))
