"""Ranking of loops: a measure read off the loop condition must move by a step on every path to the back edge."""
import re
from ..core import NS

INF = 10 ** 6
GROW = {'push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'emplace', 'insert', 'resize', 'assign', 'emplace_hint', 'try_emplace', 'insert_or_assign', 'operator[]map', 'swap',
        'merge', 'splice', 'append', 'operator='}
SHRINK = {'pop_front', 'pop_back', 'pop', 'erase', 'clear'}
CONSTM = {'size', 'empty', 'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'crbegin', 'crend', 'front', 'back', 'at', 'operator[]', 'find', 'count', 'reserve', 'capacity', 'data', 'shrink_to_fit', 'lower_bound', 'upper_bound'}


def text(n):
    """canonical text of an expression, casts and member-access sugar left out"""
    if isinstance(n, list):
        return ','.join(text(x) for x in n)
    if not isinstance(n, dict):
        return str(n)
    k = n.get('k')
    if k in ('cast', 'paren', 'wrap'):
        return text(n['e'])
    if k == 'var':
        return n['id']
    if k == 'this':
        return 'this'
    if k == 'mem':
        return text(n['b']) + '.' + n['f']
    if k == 'call':
        nm = n.get('name')
        if nm in ('operator->', 'get') and n.get('obj') is not None:
            return text(n['obj'])
        return (text(n['obj']) + '.' if n.get('obj') is not None else '') + str(nm) + '(' + text(n.get('args', [])) + ')'
    if k == 'int':
        return str(n['v'])
    return str(k) + '{' + ','.join('%s=%s' % (a, text(b)) for a, b in sorted(n.items()) if a not in ('k', 'l', 't', 'lv', 'ref')) + '}'


def strip(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'paren', 'wrap'):
        n = n['e']
    return n


def conjuncts(n):
    n = strip(n)
    if isinstance(n, dict) and n.get('k') == 'bin' and n.get('op') == '&&':
        return conjuncts(n['a']) + conjuncts(n['c'])
    return [n]


def sub(n, f):
    if isinstance(n, dict):
        f(n)
        for v in n.values():
            sub(v, f)
    elif isinstance(n, list):
        for v in n:
            sub(v, f)


def params(key):
    """parameter texts of a function key"""
    i = key.rfind('(')
    d = 0
    for j in range(len(key) - 1, -1, -1):
        if key[j] == ')':
            d += 1
        elif key[j] == '(':
            d -= 1
            if d == 0:
                i = j
                break
    s = key[i + 1:key.rfind(')')]
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def mutref(p):
    return p.rstrip().endswith('&') and not re.match(r'const\b', p.strip()) and not p.rstrip().endswith('&&')


class Measure:
    """step(node) -> None (no effect), (lo, hi) steps, or 'bad'"""

    def __init__(self, prog, kind, what, exact, step):
        self.prog, self.kind, self.what, self.exact, self.step = prog, kind, what, exact, step


def seq(a, b):
    return (min(INF, a[0] + b[0]), min(INF, a[1] + b[1]), a[2] or b[2])


def alt(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return (min(a[0], b[0]), max(a[1], b[1]), a[2] or b[2])


Z = (0, 0, False)


class Effect:
    """steps of a measure along the paths of a statement: {exit kind: (least, most, disturbed)}"""

    def __init__(self, m):
        self.m = m

    def ex(self, n):
        if isinstance(n, list):
            r = Z
            for x in n:
                r = seq(r, self.ex(x))
            return r
        if not isinstance(n, dict):
            return Z
        k = n.get('k')
        if k == 'lambda':
            r = self.kids(n)
            return Z if r == Z else (0, INF, True)
        if k == 'bin' and n.get('op') in ('&&', '||'):
            return seq(self.ex(n['a']), alt(Z, self.ex(n['c'])))
        s = self.m.step(n)
        r = self.kids(n)
        if s == 'bad':
            return (0, INF, True)
        if s is not None:
            return seq(r, (s[0], s[1], False))
        return r

    def kids(self, n):
        if n.get('k') in ('cond', 'ter', 'ternary', '?:'):
            vs = [self.ex(v) for kk, v in n.items() if isinstance(v, (dict, list))]
            r = Z
            for v in vs:
                r = seq(r, alt(Z, v))
            return r
        r = Z
        for kk, v in n.items():
            if isinstance(v, (dict, list)):
                r = seq(r, self.ex(v))
        return r

    def st(self, n):
        if n is None:
            return {'norm': Z}
        if isinstance(n, list):
            out = {}
            cur = Z
            for x in n:
                r = self.st(x)
                for kk, v in r.items():
                    if kk != 'norm':
                        out[kk] = alt(out.get(kk), seq(cur, v))
                if 'norm' not in r:
                    cur = None
                    break
                cur = seq(cur, r['norm'])
            if cur is not None:
                out['norm'] = cur
            return out
        k = n.get('k')
        if k == 'block':
            return self.st(n['b'])
        if k == 'if':
            pre = Z
            for kk in ('init', 'cv'):
                if n.get(kk):
                    pre = seq(pre, self.flat(n[kk]))
            pre = seq(pre, self.ex(n.get('q')))
            out = {}
            for b in (n.get('b') or n.get('th') or n.get('a'), n.get('c') or n.get('el')):
                for kk, v in self.st(b).items():
                    out[kk] = alt(out.get(kk), seq(pre, v))
            return out
        if k in ('for', 'while', 'do', 'rfor'):
            pre = self.flat(n['init']) if n.get('init') else Z
            if k == 'rfor':
                pre = self.ex(n['range'])
            q = self.ex(n.get('q')) if n.get('q') else Z
            r = self.st(n['b'])
            inc = self.ex(n.get('inc')) if n.get('inc') else Z
            body = None
            for kk in ('norm', 'cont'):
                if kk in r:
                    body = alt(body, r[kk])
            body = seq(body, inc) if body is not None else Z
            tot = alt(body, r.get('brk'))
            per = seq(tot or Z, q)
            many = (0, INF if per[1] else 0, per[2])
            if k == 'do':
                many = (min(x[0] for x in (body, r.get('brk')) if x is not None) if tot else 0, many[1], many[2])
            out = {kk: seq(pre, seq((0, many[1], many[2]), v)) for kk, v in r.items() if kk not in ('norm', 'cont', 'brk')}
            out['norm'] = seq(pre, seq(q if k != 'do' else Z, many))
            return out
        if k == 'break':
            return {'brk': Z}
        if k in ('continue', 'cont'):
            return {'cont': Z}
        if k in ('ret', 'return', 'throw'):
            return {'ret': self.ex([v for kk, v in n.items() if isinstance(v, (dict, list))])}
        if k == 'expr':
            return {'norm': self.ex(n['e'])}
        if k == 'decl':
            return {'norm': self.flat(n)}
        if k in ('null', 'nop'):
            return {'norm': Z}
        # an unknown statement may do anything
        r = self.flat(n)
        return {'norm': r if r == Z else (0, INF, True), 'cont': Z, 'brk': Z} if k in ('switch', 'case', 'try', 'label', 'goto') else {'norm': r}

    def flat(self, n):
        if isinstance(n, dict) and n.get('k') == 'block':
            return self.st(n).get('norm', Z)
        return self.ex([v for v in (n.values() if isinstance(n, dict) else n) if isinstance(v, (dict, list))])


# ------------------------------------------------------------------ measures

class Modset:
    """fields a function may grow, with everything it calls"""

    def __init__(self, prog):
        self.prog = prog
        self.own, self.calls = {}, {}
        for k, f in prog.fns.items():
            g, c = set(), set()

            def vis(n):
                if n.get('k') == 'call':
                    c.add(n.get('key'))
                    o = strip(n.get('obj'))
                    if n.get('name') in GROW and isinstance(o, dict):
                        g.add(self.root(o))
                elif n.get('k') == 'asg' and strip(n['a']).get('k') in ('mem', 'var'):
                    g.add(self.root(strip(n['a'])))
            sub(f.get('body'), vis)
            self.own[k], self.calls[k] = g, c
        self.memo = {}

    @staticmethod
    def root(o):
        if o.get('k') == 'mem':
            return (o.get('rec'), o['f'])
        if o.get('k') == 'var':
            return '*' if o.get('ref') else o['id']
        return '?'

    def grows(self, key):
        if key in self.memo:
            return self.memo[key]
        seen, todo, out = set(), [key], set()
        while todo:
            k = todo.pop()
            if k in seen or k not in self.own:
                continue
            seen.add(k)
            out |= self.own[k]
            todo += self.calls[k]
        self.memo[key] = out
        return out


def growth(ms, node):
    """step function: does the node grow or replace the container?"""
    c = text(node)
    node = strip(node)
    last = ms.root(node) if isinstance(node, dict) and node.get('k') == 'mem' else None

    def f(n):
        k = n.get('k')
        if k == 'call':
            o = n.get('obj')
            if o is not None and text(o) == c:
                if n.get('name') in GROW:
                    return True
            if n.get('key') in ms.own:
                g = ms.grows(n['key'])
                if last in g or any(x in ('*',) and text(a) == c for x in g for a in n.get('args', [])):
                    return True
            elif o is None or text(o) != c:
                for a, p in zip(n.get('args', []), params(n.get('key', ''))):
                    if text(a) == c and mutref(p) and n.get('name') not in ('begin', 'end', 'move', 'forward'):
                        return True
        if k == 'asg' and text(n['a']) == c:
            return True
        return False
    return f


def measures(ms, loop, where):
    """candidate measures of a loop"""
    out = []
    if loop['k'] == 'rfor':
        g = growth(ms, loop['range'])
        out.append(Measure(ms.prog, 'range', 'the elements of the range', 'none', lambda n: 'bad' if g(n) else None))
        return out
    q = loop.get('q')
    if q is None:
        return out
    for cj in conjuncts(q):
        if not isinstance(cj, dict):
            continue
        k = cj.get('k')
        pairs = []
        if k == 'call' and cj.get('op') in ('!=', '<') or k == 'bin' and cj.get('op') in ('!=', '<', '<=', '>', '>='):
            op = cj['op']
            if k == 'call':
                xs = ([cj['obj']] if cj.get('obj') is not None else []) + cj.get('args', [])
                a, b = xs if len(xs) == 2 else (None, None)
            else:
                a, b = cj['a'], cj['c']
            if a is not None:
                a, b = strip(a), strip(b)
                pairs = [(a, op, b), (b, {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '!=': '!='}[op], a)]
        for a, op, b in pairs:
            # iterator against the end of a container
            if a.get('k') == 'var' and b.get('k') == 'call' and b.get('name') in ('end', 'rend', 'cend', 'crend') and op in ('!=', '<'):
                out.append(walk(ms, a['id'], b['obj'] if b.get('obj') is not None else (b.get('args') or [b])[0], op))
            elif a.get('k') in ('var', 'mem', 'un') and op in ('<', '<=', '!='):
                v = a
                if v.get('k') == 'un' and v.get('op') == '++':
                    v = strip(v['e'])
                if v.get('k') in ('var', 'mem') and str(v.get('t', '')).replace('c:', '').lstrip('r:') in ('u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'it') or v.get('k') == 'var':
                    out.append(count(ms, text(v), b, op, +1, v.get('t')))
            if a.get('k') in ('var', 'mem', 'un') and op in ('>', '>=', '!=') and b.get('k') == 'int' and b.get('v') in (0, 1):
                v = a
                if v.get('k') == 'un' and v.get('op') == '--':
                    v = strip(v['e'])
                out.append(count(ms, text(v), b, op, -1, v.get('t')))
            # size of a container against a bound from below
            if a.get('k') == 'call' and a.get('name') == 'size' and op in ('>', '>=', '!=') and a.get('obj') is not None:
                out.append(queue(ms, a['obj'], op == '!='))
        if k in ('var', 'mem') or k == 'un' and cj.get('op') == '--':
            v = cj if k != 'un' else strip(cj['e'])
            out.append(count(ms, text(v), None, '!=', -1, v.get('t')))
        if k == 'un' and cj.get('op') == '!' and strip(cj['e']).get('k') == 'call' and strip(cj['e']).get('name') == 'empty':
            out.append(queue(ms, strip(cj['e'])['obj'], False))
        fr = []
        sub(cj, lambda n: fr.append(n) if n.get('k') == 'call' and n.get('name') in ('front', 'back', 'top') and n.get('obj') is not None else None)
        for n in fr:
            out.append(queue(ms, n['obj'], False))
        fl = []
        sub(cj, lambda n: fl.append(n) if n.get('k') == 'call' and n.get('name') in ('getline', 'operator>>', 'read') else None)
        for n in fl:
            s = text((n.get('args') or [n.get('obj')])[0] if n.get('name') == 'getline' or n.get('obj') is None else n['obj'])
            out.append(Measure(ms.prog, 'file', 'the rest of the file', 'none', lambda n, s=s: 'bad' if n.get('k') == 'call' and n.get('obj') is not None and text(n['obj']) == s and n.get('name') in ('open', 'seekg', 'clear', 'putback', 'unget') else None))
        # names of files numbered by a counter
        cs = []
        sub(cj, lambda n: cs.append(n) if n.get('k') == 'call' and n.get('name') == 'to_string' else None)
        for n in cs:
            for a in n.get('args', []):
                out.append(count(ms, text(strip(a)), None, 'files', +1, None))
    return out


def const(n):
    n = strip(n)
    if isinstance(n, dict) and n.get('k') == 'int':
        return n['v']
    if isinstance(n, dict) and n.get('k') == 'un' and n.get('op') == '-':
        v = const(n['e'])
        return -v if v is not None else None
    return None


def stepof(n, v):
    """signed change the node makes to the scalar v: None, an int, or 'bad'"""
    k = n.get('k')
    if k == 'un' and n.get('op') in ('++', '--') and text(n['e']) == v:
        return 1 if n['op'] == '++' else -1
    if k == 'un' and n.get('op') == '&' and text(n['e']) == v:
        return 'bad'
    if k == 'asg' and text(n['a']) == v:
        op = n.get('op', '=')
        c = const(n['c'])
        if op == '+=' and c is not None:
            return c
        if op == '-=' and c is not None:
            return -c
        if op == '=':
            e = strip(n['c'])
            if e.get('k') == 'bin' and e.get('op') in ('+', '-') and text(e['a']) == v and const(e['c']) is not None:
                return const(e['c']) * (1 if e['op'] == '+' else -1)
        return 'bad'
    if k == 'call':
        o = n.get('obj')
        if o is not None and text(o) == v:
            if n.get('name') in ('operator++', 'operator--'):
                return 1 if n['name'] == 'operator++' else -1
            if n.get('name') == 'operator+=' and const(n['args'][0]) is not None:
                return const(n['args'][0])
            if n.get('name') == 'operator=':
                return 'bad'
        for a, p in zip(n.get('args', []), params(n.get('key', ''))):
            if isinstance(a, dict) and text(a) == v and mutref(p):
                return 'bad'
    return None


def walk(ms, v, c, op):
    g = growth(ms, c)

    def step(n):
        # it = C.erase(it)
        e = None
        if n.get('k') == 'asg' and text(n['a']) == v:
            e = strip(n['c'])
        elif n.get('k') == 'call' and n.get('name') == 'operator=' and n.get('obj') is not None and text(n['obj']) == v and n.get('args'):
            e = strip(n['args'][0])
        if e is not None:
            while isinstance(e, dict) and e.get('k') in ('ctor', 'construct', 'new') and len(e.get('args', [])) == 1:
                e = strip(e['args'][0])
            if isinstance(e, dict) and e.get('k') == 'call' and e.get('name') in ('erase', 'next') and e.get('args') and v in text(e['args']):
                return (1, 1)
            return 'bad'
        s = stepof(n, v)
        if s is not None:
            return (s, s) if s != 'bad' and s > 0 else 'bad'
        if g(n) and not (n.get('k') == 'call' and n.get('name') in SHRINK):
            return 'bad'
        return None
    return Measure(ms.prog, 'walk', 'the rest of the walk over the container', 'one', step)


def count(ms, v, bound, op, d, t):
    btxt = text(bound) if bound is not None else ''
    conts, names = [], set()
    if bound is not None:
        sub(bound, lambda n: conts.append(n['obj']) if n.get('k') == 'call' and n.get('name') in ('size', 'rows', 'cols') and n.get('obj') is not None else None)
        sub(bound, lambda n: names.add(text(n)) if n.get('k') in ('var', 'mem') else None)
    gs = [growth(ms, c) for c in conts]

    def step(n):
        s = stepof(n, v)
        if s is not None:
            if s == 'bad' or s * d <= 0:
                return 'bad'
            return (abs(s), abs(s))
        if n.get('k') == 'asg' and text(n['a']) in names and not (d > 0 and n.get('op') == '-='):
            return 'bad'
        if n.get('k') == 'un' and n.get('op') in ('++', '--') and text(n['e']) in names and n['op'] == '++':
            return 'bad'
        if any(g(n) for g in gs):
            return 'bad'
        if n.get('k') == 'call' and n.get('key') in ms.own and '.' in v and v.split('.')[-1] in {x[1] for x in ms.grows(n['key']) if isinstance(x, tuple)}:
            return 'bad'
        return None
    m = Measure(ms.prog, 'count', 'the distance of the counter to its bound', 'one' if op == '!=' else 'some', step)
    m.t, m.bound = t, bound
    return m


def queue(ms, node, exact):
    c, g = text(node), growth(ms, node)

    def step(n):
        if n.get('k') == 'call' and n.get('obj') is not None and text(n['obj']) == c and n.get('name') in SHRINK:
            return (1, 1)
        if g(n):
            return 'bad'
        return None
    return Measure(ms.prog, 'queue', 'the number of elements', 'one' if exact else 'some', step)


def rank(ms, loop):
    """(kind, text) of the measure that proves the loop finite, or (None, why)"""
    best = 'no measure recognised in the loop condition'
    for m in measures(ms, loop, None):
        e = Effect(m)
        r = e.st(loop['b'])
        back = None
        for kk in ('norm', 'cont'):
            if kk in r:
                back = alt(back, r[kk])
        if back is None:
            return 'once', 'no path reaches the back edge'
        if loop.get('inc'):
            back = seq(back, e.ex(loop['inc']))
        if loop.get('q'):
            back = seq(back, e.ex(loop['q']))
        lo, hi, bad = back
        if bad:
            best = '%s is disturbed' % m.what
            continue
        if m.exact == 'none' or m.exact == 'some' and lo >= 1 or m.exact == 'one' and lo == hi == 1:
            return m.kind, m.what
        best = '%s does not change on every path' % m.what if lo == 0 else '%s can change by more than one' % m.what
    return None, best


def loops(prog):
    """all loops of the analysed program: [(function, node)]"""
    out = []
    for k, f in sorted(prog.fns.items()):
        acc = []
        sub(f.get('body'), lambda n: acc.append(n) if n.get('k') in ('for', 'while', 'do', 'rfor') else None)
        out += [(f, n) for n in acc]
    return out


def recursion(prog):
    """functions that can reach themselves through direct calls"""
    calls = {}
    for k, f in prog.fns.items():
        c = set()
        sub(f.get('body'), lambda n: c.add(n.get('key')) if n.get('k') in ('call', 'ctor') else None)
        calls[k] = {x for x in c if x in prog.fns}
    out = []
    for k in prog.fns:
        seen, todo = set(), list(calls[k])
        while todo:
            x = todo.pop()
            if x == k:
                out.append(k)
                break
            if x not in seen:
                seen.add(x)
                todo += calls[x]
    return out
