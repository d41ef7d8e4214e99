"""Path-sensitive abstract interpreter over the exported AST.

Forward analysis with a disjunctive (trace-partitioned) abstract state: a store of
abstract values plus a numeric/propositional fact set.  A conditional that the
facts do not decide splits the partition.  Nothing of the analysed program is
compiled to code or run."""
import operator
import sys
import time
from .val import *
from .ir import AnalysisError
from . import ir

sys.setrecursionlimit(20000)


class Infeasible(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, kind, info=None):
        self.kind, self.info = kind, info


class Limit(Exception):
    pass


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class State:
    __slots__ = ('cells', 'env', 'facts', 'next', 'ev', 'trace', 'fn', 'taint', 'ghost', 'depth')

    def __init__(self):
        self.cells = {}
        self.env = {}
        self.facts = Facts()
        self.next = 1
        self.ev = ()
        self.trace = None
        self.fn = None
        self.taint = ()
        self.ghost = {}
        self.depth = 0

    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.env = dict(self.env)
        s.facts = self.facts.copy()
        s.next, s.ev, s.trace, s.fn, s.taint, s.depth = self.next, self.ev, self.trace, self.fn, self.taint, self.depth
        s.ghost = dict(self.ghost)
        return s

    def path(self):
        out = []
        t = self.trace
        while t:
            out.append(t[1])
            t = t[0]
        return out[::-1]


class Out:
    """Outcome of one partition."""
    __slots__ = ('st', 'kind', 'v')

    def __init__(self, st, kind, v):
        self.st, self.kind, self.v = st, kind, v

    def __repr__(self):
        return '<%s %r>' % (self.kind, self.v)


class Frame:
    __slots__ = ('prefix', 'pos', 'dec', 'nested', 'cache', 'pending')


# library functions which pass a callable on, or whose model calls it
CALLABLES = {'move', 'forward', 'move_if_noexcept', 'as_const', 'addressof', 'ref', 'cref', 'launder', 'min', 'max', 'swap', 'exchange',
             'make_pair', 'make_tuple', 'tie', 'forward_as_tuple', 'make_unique', 'make_shared', 'make_optional', 'get', 'visit',
             'upper_bound', 'lower_bound', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'for_each', 'equal',
             'count_if', 'accumulate', 'transform', 'invoke', 'mem_fn', 'generate', 'generate_n', 'mismatch'}
FUNCTORS = {'std::less', 'std::greater', 'std::equal_to', 'std::not_equal_to', 'std::less_equal', 'std::greater_equal', 'std::plus',
            'std::minus', 'std::multiplies', 'std::logical_not', 'std::bit_or', 'std::bit_and'}

CONST_CMP = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}

class Interp:
    def __init__(self, prog, unroll=3, max_paths=4000, max_steps=3000000):
        self.p = prog
        self.unroll = unroll
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.steps = 0
        self.symdec = 0
        self._nd = {}
        self.npaths = 0
        self.frame = None
        self.found = []
        self.deadline = None
        self.st = State()
        self.hooks = {}
        self.visited = {}       # functions analysed: qual -> file:line
        self.sites = set()      # obligations looked at (kind, file, line)
        self.unsupported = {}
        self.size = {}
        self.statics = {}
        from . import lib
        self.lib = lib.MODELS
        self.libctor = lib.CTORS

    # ------------------------------------------------------------------ driver
    def explore(self, fn, st0):
        """All partitions of running fn from st0 -> list of Out."""
        saved = self.frame
        outs = []
        stack = [()]
        cache = {}
        if saved is None:
            self.found = outs
        try:
            while stack:
                pre = stack.pop()
                f = Frame()
                f.prefix, f.pos, f.dec, f.nested, f.cache, f.pending = pre, 0, [], 0, cache, stack
                self.frame = f
                self.st = st0.copy()
                self.npaths += 1
                if self.npaths > self.max_paths * 20 or len(outs) > self.max_paths:
                    raise Limit('too many partitions')
                if self.deadline and time.time() > self.deadline:
                    raise Limit('out of time')
                try:
                    v = fn()
                    outs.append(Out(self.st, 'return', v))
                except Infeasible:
                    pass
                except ReturnX as r:
                    outs.append(Out(self.st, 'return', r.v))
                except BreakX:
                    outs.append(Out(self.st, 'break', None))
                except ContinueX:
                    outs.append(Out(self.st, 'continue', None))
                except PathEnd as e:
                    outs.append(Out(self.st, e.kind, e.info))
        finally:
            self.frame = saved
        return outs

    def choose(self, n):
        f = self.frame
        if f.pos < len(f.prefix):
            c = f.prefix[f.pos]
            f.pos += 1
            f.dec.append(c)
            return c
        for i in range(n - 1, 0, -1):
            f.pending.append(tuple(f.dec) + (i,))
        f.dec.append(0)
        f.pos += 1
        return 0

    def nested(self, fn):
        """Explore fn compositionally from the current state, then continue in each outcome."""
        f = self.frame
        f.nested += 1
        key = (tuple(f.dec), f.nested)
        outs = f.cache.get(key)
        if outs is None:
            st = self.st
            outs = self.explore(fn, st)
            seen = []
            f.cache[key] = outs
            self.st = st
        if not outs:
            raise Infeasible()
        i = self.choose(len(outs)) if len(outs) > 1 else 0
        o = outs[i]
        self.st = o.st.copy()
        return o

    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit('step budget')
        if self.deadline and not self.steps & 1023 and time.time() > self.deadline:
            raise Limit('out of time')

    # ------------------------------------------------------------------ facts
    def loc(self, node):
        fn = self.st.fn
        l = node.get('l') if isinstance(node, dict) else None
        return '%s:%s' % (fn['file'] if fn else '?', l if l else (fn['line'] if fn else '?'))

    def note(self, node, txt):
        self.st.trace = (self.st.trace, '%s: %s' % (self.loc(node), txt))

    def taint(self, why):
        if why not in self.st.taint:
            self.st.taint = self.st.taint + (why,)

    def top(self, why, node=None):
        w = why if node is None else '%s at %s' % (why, self.loc(node))
        self.unsupported[w] = self.unsupported.get(w, 0) + 1
        return Top(w)

    def branch(self, kind, l, node=None):
        """Decide or split on 'le0' / 'eq0' of Lin l.  Returns bool."""
        fa = self.st.facts
        l = self.renorm(l)
        if len(l.t) == 1 and l.t[0][0].key[0] == 'xor':
            # which bits two numbers differ in
            x, y = l.t[0][0].key[1:3]
            k, c = l.t[0][1], l.c
            if kind == 'eq0' and c == 0:
                return self.branch('eq0', x - y, node)
            if kind == 'le0' and fa.bounds(x)[0] >= 0 and fa.bounds(y)[0] >= 0:
                n = 1 - c if k == 1 else c if k == -1 else 0      # xor < n, or xor >= n
                if n > 0 and n & (n - 1) == 0:
                    return self.branch('eq0', self.div(x, n) - self.div(y, n), node) == (k == 1)
        r = fa.le0(l) if kind == 'le0' else fa.eq0(l)
        if l.t:
            self.symdec += 1
        if r is not None:
            return r
        c = self.choose(2)
        if c == 0:
            ok = fa.add(-INF, l, 0) if kind == 'le0' else fa.add(0, l, 0)
            if not ok:
                raise Infeasible()
            self.note(node, '%r %s' % (l, '<= 0' if kind == 'le0' else '== 0'))
            if kind == 'eq0':
                self.after_eq(l)
            return True
        ok = fa.add(1, l, INF) if kind == 'le0' else fa.add_ne(l)
        if not ok:
            raise Infeasible()
        self.note(node, '%r %s' % (l, '> 0' if kind == 'le0' else '!= 0'))
        return False

    def after_eq(self, l):
        # a+b == 2^n-1 and xor etc. need nothing more here
        pass

    def assume(self, lo, l, hi):
        if not self.st.facts.add(lo, l, hi):
            raise Infeasible()

    def branch_prop(self, key, node=None):
        fa = self.st.facts
        if key in fa.prop:
            return fa.prop[key]
        c = self.choose(2)
        fa._w()
        fa.prop[key] = (c == 0)
        self.note(node, '%s%r' % ('' if c == 0 else 'not ', key))
        return c == 0

    def truth(self, v, node=None):
        """Python bool of an abstract scalar, splitting when necessary."""
        v = self.force(v)
        if isinstance(v, Lin):
            if v.const is not None:
                return v.c != 0
            return not self.branch('eq0', v, node)
        if isinstance(v, Ptr):
            return v.cell is not None
        if isinstance(v, Str):
            return True
        if isinstance(v, (Fn, Lam)):
            return True
        if isinstance(v, Top):
            self.taint(v.why)
            return self.choose(2) == 0
        raise PathEnd('unknown', 'truth of %r' % (v,))

    def oblige(self, ok, kind, node, text=''):
        """ok: bool, or (kind,Lin) condition that must hold.  Splits off the failing partition
        as outcome 'ub'."""
        self.sites.add((kind, self.loc(node)))
        if isinstance(ok, tuple):
            ok = self.branch(ok[0], ok[1], node)
        if not ok:
            raise PathEnd('ub', (kind, self.loc(node), text))

    # ------------------------------------------------------------------ ints
    def trange(self, t):
        if t['k'] == 'bool':
            return 0, 1
        w = t['w']
        if t.get('sg'):
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return 0, (1 << w) - 1

    def wrap(self, l, t):
        """Value of mathematical integer l converted to integer type t."""
        if t['k'] == 'bool':
            return L(int(self.truth(l)))
        lo, hi = self.trange(t)
        if l.const is not None:
            m = hi - lo + 1
            return Lin((l.c - lo) % m + lo)
        x, y = self.st.facts.bounds(l)
        if x >= lo and y <= hi:
            return l
        m = hi - lo + 1
        return self.mod(l - lo, m, fork=False) + lo

    def overflow(self, l, t, node):
        """Result of signed arithmetic: undefined behaviour is assumed away."""
        lo, hi = self.trange(t)
        if not t.get('sg') or t['w'] < 32:
            return self.wrap(l, t)
        if l.const is not None and not (lo <= l.c <= hi):
            self.oblige(False, 'signed-overflow', node, 'signed overflow')
        x, y = self.st.facts.bounds(l)
        if x < lo and x != -INF or y > hi and y != INF:
            self.st.facts.add(lo, l, hi)
        return l

    def mod(self, l, m, fork=True):
        if m == 1:
            return ZERO
        if l.const is not None:
            return Lin(l.c % m)
        d = {}
        c = l.c
        for a, k in l.t:
            # nested mod with multiple modulus
            if a.key[0] == 'mod' and a.key[2] % m == 0:
                for b, k2 in a.key[1].t:
                    d[b] = d.get(b, 0) + k * k2
                c += k * a.key[1].c
            else:
                d[a] = d.get(a, 0) + k
        for a in list(d):
            k = d[a] % m
            if k > m // 2:
                k -= m
            d[a] = k
        r = mk(c % m, d)
        if r.const is not None:
            return Lin(r.c % m)
        lo, hi = self.st.facts.bounds(r)
        # with the original constant the range may fall in one block
        if lo != -INF and hi != INF:
            b0, b1 = lo // m, hi // m
            if b0 == b1:
                return r - b0 * m
            if fork and b1 - b0 < 8:
                return r - self.block(r, m, b0, b1) * m
        return L(atom(('mod', r, m), 0, m - 1))

    def block(self, r, m, b0, b1):
        n = b1 - b0 + 1
        i = self.choose(n)
        b = b0 + i
        if not self.st.facts.add(b * m, r, b * m + m - 1):
            raise Infeasible()
        return b

    def div(self, l, m, fork=True):
        """floor division by positive constant"""
        if m == 1:
            return l
        if l.const is not None:
            return Lin(l.c // m)
        # floor(floor(x/a)/m) = floor(x/(a*m))
        if len(l.t) == 1 and l.t[0][1] == 1 and l.t[0][0].key[0] == 'div':
            a = l.t[0][0]
            return self.div(a.key[1] + l.c * a.key[2], a.key[2] * m, fork)
        q, r = {}, {}
        for a, k in l.t:
            if k % m == 0:
                q[a] = k // m
            else:
                r[a] = k
        Q = mk(l.c // m, q)
        R = mk(l.c % m, r)
        if R.const is not None:
            return Q + R.c // m
        lo, hi = self.st.facts.bounds(R)
        if lo != -INF and hi != INF:
            b0, b1 = lo // m, hi // m
            if b0 == b1:
                return Q + b0
            if fork and b1 - b0 < 8:
                return Q + self.block(R, m, b0, b1)
        return Q + L(divatom(R, m))

    def renorm(self, l, fork=False):
        """Re-simplify mod/div atoms under the current facts."""
        for _ in range(4):
            done = True
            for a, k in l.t:
                if a.key[0] == 'mod':
                    n = self.mod(a.key[1], a.key[2], fork=fork)
                elif a.key[0] == 'div':
                    n = self.div(a.key[1], a.key[2], fork=fork)
                else:
                    continue
                if n != L(a):
                    l = l - L(a).scale(k) + n.scale(k)
                    done = False
                    break
            if done:
                break
        return self.recombine(l)

    def recombine(self, l):
        """m*div(R,m) + mod(R,m) = R"""
        mods = [(a, k) for a, k in l.t if a.key[0] == 'mod']
        if not mods:
            return l
        for a, k in l.t:
            if a.key[0] != 'div' or k % a.key[2]:
                continue
            m = a.key[2]
            q = k // m
            r = L(atom(('mod', a.key[1], m), 0, m - 1))
            for b, kb in mods:
                if kb == q and b.key[2] == m and self.samemod(b.key[1], a.key[1], m):
                    return self.recombine(l - L(a).scale(k) - L(b).scale(kb) + a.key[1].scale(q))
        return l

    def samemod(self, x, y, m):
        d = x - y
        for _ in range(8):
            for a, k in d.t:
                if a.key[0] == 'mod' and a.key[2] * k % m == 0:
                    d = d - L(a).scale(k) + a.key[1].scale(k)
                    break
            else:
                break
        return d.c % m == 0 and all(k % m == 0 for _, k in d.t)

    def expand(self, l):
        """Split mod/div atoms into blocks when there are few."""
        return self.congruence(self.shifted(self.renorm(l, fork=True)))

    def shifted(self, l):
        """Remainders of expressions that differ by a constant: one determines the other."""
        mods = sorted((a for a, _ in l.t if a.key[0] == 'mod'), key=lambda a: (-(a.key[1].c % a.key[2]), a.id))
        for i, a in enumerate(mods):
            for b in mods[i + 1:]:
                m = a.key[2]
                if b.key[2] != m:
                    continue
                d = a.key[1] - b.key[1]
                if any(k % m for _, k in d.t):
                    continue
                d = d.c % m
                k = dict(l.t)[a]
                if d == 0:
                    n = L(b)
                elif self.branch('le0', L(b) + (d - m + 1)):
                    n = L(b) + d
                else:
                    n = L(b) + (d - m)
                return self.shifted(self.renorm(l - L(a).scale(k) + n.scale(k)))
        return l

    def congruence(self, l):
        """a[i] - a[j] = 0 when i = j"""
        els = [(a, k) for a, k in l.t if a.key[0] == 'el']
        if len(els) < 2:
            return l
        for x in range(len(els)):
            for y in range(x + 1, len(els)):
                (a, ka), (b, kb) = els[x], els[y]
                if a.key[1] == b.key[1] and (ka > 0) != (kb > 0) and a.rng == b.rng:
                    d = a.key[2] - b.key[2]
                    if self.branch('eq0', self.renorm(d)):
                        k = min(abs(ka), abs(kb)) * (1 if ka > 0 else -1)
                        return self.congruence(l - L(a).scale(k) + L(b).scale(k))
        return l

    def bitspans(self, l):
        """list of (lo,hi) bit ranges of a disjoint sum, or None"""
        out = []
        used = 0
        if l.c < 0:
            return None
        if l.c:
            used = l.c
            out.append((None, l.c))
        for a, k in l.t:
            if k <= 0 or k & (k - 1):
                return None
            lo, hi = self.st.facts.abound(a)
            if lo < 0 or hi == INF:
                return None
            s = k.bit_length() - 1
            n = int(hi).bit_length()
            mask = ((1 << n) - 1) << s
            if used & mask:
                return None
            used |= mask
            out.append((a, mask))
        return used

    def align(self, l):
        """largest power of two dividing every value of l (capped)"""
        g = l.c
        for _, k in l.t:
            g |= k
        return (g & -g) if g else 1 << 64

    def disjoint(self, a, b):
        for x, y in ((a, b), (b, a)):
            lo, hi = self.st.facts.bounds(y)
            if lo >= 0 and hi < self.align(x):
                return True
        ua, ub = self.bitspans(a), self.bitspans(b)
        return ua is not None and ub is not None and not (ua & ub)

    def and_(self, a, b):
        if a.const is not None and b.const is not None:
            return Lin(a.c & b.c)
        if b.const is None and a.const is not None:
            a, b = b, a
        if b.const is not None:
            m = b.c
            if m == 0:
                return ZERO
            if m == -1:
                return a
            if m < 0:
                # m = ...111xxxx : x & m = x - (x & ~m)
                return a - self.and_(a, Lin(~m))
            res = ZERO
            bit = 0
            while m >> bit:
                if not (m >> bit) & 1:
                    bit += 1
                    continue
                lo = bit
                while (m >> bit) & 1:
                    bit += 1
                part = self.mod(self.div(a, 1 << lo), 1 << (bit - lo))
                res = res + part.scale(1 << lo)
            return res
        if a == b:
            return a
        if self.disjoint(a, b):
            return ZERO
        if b.t and a.t and b.t[0][0].id < a.t[0][0].id:
            a, b = b, a
        return L(datom('and', a, b))

    def or_(self, a, b):
        if a == b:
            return a
        if self.disjoint(a, b):
            return a + b
        return a + b - self.and_(a, b)

    def xor_(self, a, b):
        if a.const is not None and b.const is not None:
            return Lin(a.c ^ b.c)
        if a == b:
            return ZERO
        if a.const is not None:
            a, b = b, a
        if b.const is not None:
            m = b.c
            if m == -1:
                return a.scale(-1) - 1
            return a + b - self.and_(a, b).scale(2)
        if b.t[0][0].id < a.t[0][0].id:
            a, b = b, a
        # x ^ (M - y) with bytes is not normalised further
        return L(datom('xor', a, b))

    def as_lin(self, v, node=None):
        v = self.force(v)
        if isinstance(v, Lin):
            return v
        if isinstance(v, Top):
            return v
        raise PathEnd('unknown', 'integer expected, got %r at %s' % (v, self.loc(node)))

    def arith(self, op, a, b, t, node):
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            if a.const is not None:
                r = b.scale(a.c)
            elif b.const is not None:
                r = a.scale(b.c)
            else:
                if b.t[0][0].id < a.t[0][0].id:
                    a, b = b, a
                r = L(datom('mul', a, b))
        elif op in ('/', '%'):
            if b.const is not None:
                self.oblige(b.c != 0, 'division by zero', node)
            else:
                self.oblige(not self.branch('eq0', b, node), 'division by zero', node)
            if t.get('sg') and t['w'] >= 32:
                lo = self.trange(t)[0]
                x, y = self.st.facts.bounds(b)
                u, v = self.st.facts.bounds(a)
                if b.const is None and x == y == -1:
                    b = L(-1)
                if x <= -1 <= y and u <= lo <= v and self.branch('eq0', self.expand(b + 1), node):
                    self.oblige(not self.branch('eq0', self.expand(a - lo), node), 'division overflow', node)
                    if b.const is None:
                        b = L(-1)
            if b.const is not None and b.c < 0 and a.const is None and t.get('sg'):
                q = self.arith('/', a, L(-b.c), dict(t, w=64), node) if b.c != -1 else a
                r = q.scale(-1) if op == '/' else a + q.scale(b.c)
            elif b.const is not None and b.c > 0:
                a = self.renorm(a)
                neg = t.get('sg') and not self.branch('le0', a.scale(-1), node)  # a >= 0 ?
                if not neg:
                    r = self.div(a, b.c) if op == '/' else self.mod(a, b.c)
                else:
                    na = a.scale(-1)
                    r = (self.div(na, b.c) if op == '/' else self.mod(na, b.c)).scale(-1)
            elif a.const is not None and b.const is not None:
                q = abs(a.c) // abs(b.c) * (1 if (a.c < 0) == (b.c < 0) else -1)
                r = Lin(q if op == '/' else a.c - q * b.c)
            else:
                lo, hi = self.trange(t)
                r = L(atom(('vdiv' if op == '/' else 'vmod', a, b), lo, hi))
        elif op == '<<':
            if b.const is not None:
                self.oblige(0 <= b.c < t['w'], 'shift out of range', node)
                r = a.scale(1 << b.c)
            else:
                r = L(atom(('shl', a, b)))
        elif op == '>>':
            if b.const is not None:
                self.oblige(0 <= b.c < t['w'], 'shift out of range', node)
                x = a.t[0][0].key if len(a.t) == 1 and a.t[0][1] == 1 and a.c == 0 else ('',)
                r = self.xor_(self.div(x[1], 1 << b.c), self.div(x[2], 1 << b.c)) if x[0] == 'xor' else self.div(a, 1 << b.c)
            else:
                r = L(atom(('shr', a, b)))
        elif op == '&':
            r = self.and_(a, b)
            for u, v in ((a, b), (b, a)):
                if v.const is not None and v.c >= 0 and len(u.t) == 1 and u.t[0][1] == 1 and u.c == 0 and u.t[0][0].key[0] == 'xor':
                    r = self.xor_(self.and_(u.t[0][0].key[1], v), self.and_(u.t[0][0].key[2], v))
        elif op == '|':
            r = self.or_(a, b)
        elif op == '^':
            r = self.xor_(a, b)
        else:
            raise PathEnd('unknown', 'operator ' + op)
        if op in ('+', '-', '*', '<<') and t.get('sg'):
            return self.overflow(r, t, node)
        return self.wrap(r, t)

    def compare(self, op, a, b, node=None):
        """bool result of scalar comparison (splits)"""
        a, b = self.force(a), self.force(b)
        if isinstance(a, Top) or isinstance(b, Top):
            w = a if isinstance(a, Top) else b
            self.taint(w.why)
            return self.choose(2) == 0
        if isinstance(a, Lin) and isinstance(b, Lin):
            if not a.t and not b.t:
                return CONST_CMP[op](a.c, b.c)
            d = self.expand(a - b) if any(x.key[0] in ('mod', 'div', 'el') for x, _ in (a - b).t) else a - b
            if op == '==':
                return self.cmp_eq(d, node)
            if op == '!=':
                return not self.cmp_eq(d, node)
            if op == '<':
                return self.branch('le0', d + 1, node)
            if op == '<=':
                return self.branch('le0', d, node)
            if op == '>':
                return self.branch('le0', d.scale(-1) + 1, node)
            if op == '>=':
                return self.branch('le0', d.scale(-1), node)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.cmp_ptr(op, a, b, node)
        if op in ('==', '!=') and isinstance(a, (Fn, Lam)) and isinstance(b, (Fn, Lam)):
            return (a == b) == (op == '==')
        raise PathEnd('unknown', 'comparison of %r and %r at %s' % (a, b, self.loc(node)))

    def cmp_eq(self, d, node):
        # xor(a,b) == 2^n-1  <=>  a + b == 2^n-1 for n-bit operands
        if len(d.t) == 1 and abs(d.t[0][1]) == 1 and d.t[0][0].key[0] == 'xor':
            at = d.t[0][0]
            v = -d.c * d.t[0][1]
            hi = self.st.facts.bounds(L(at))[1]
            x, y = at.key[1], at.key[2]
            if v == 0:
                d = x - y
            elif v == hi and self.st.facts.bounds(x)[0] >= 0:
                d = x + y - int(hi)
        return self.branch('eq0', d, node)

    def cmp_ptr(self, op, a, b, node):
        for x in (a, b):
            if not isinstance(x, Ptr):
                if isinstance(x, Lin) and x == ZERO:
                    continue
                if isinstance(x, (Str, Fn)):   # char* against null
                    other = b if x is a else a
                    if isinstance(other, Ptr) and other.cell is None:
                        return op == '!='
                raise PathEnd('unknown', 'pointer comparison at %s' % self.loc(node))
        if isinstance(a, Lin):
            a = NULL
        if isinstance(b, Lin):
            b = NULL
        if a.cell is None or b.cell is None:
            same = a.cell is None and b.cell is None
            return same if op == '==' else not same
        if a.cell == b.cell and len(a.path) == len(b.path) and a.path and a.path[:-1] == b.path[:-1]:
            pa, pb = a.path[-1], b.path[-1]
            if pa[0] == pb[0] == 'i':
                return self.compare(op, pa[1], pb[1], node)
            if pa[0] == pb[0] == 'm' and op in ('==', '!='):
                return (pa[1] == pb[1]) == (op == '==')
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        raise PathEnd('unknown', 'pointer ordering at %s' % self.loc(node))

    # ------------------------------------------------------------------ memory
    def alloc(self, v, tag=''):
        c = '%s%d' % (tag, self.st.next)
        self.st.next += 1
        self.st.cells[c] = v
        return Ptr(c)

    def T(self, i):
        return self.p.types[i]

    def force(self, v):
        if not isinstance(v, Sym):
            return v
        t = self.T(v.tid)
        k = t['k']
        if k == 'int' or k == 'bool':
            return L(v.at(*self.trange(t)))
        if k == 'enum':
            e = self.p.enums.get(t['name'])
            if e and e['consts']:
                vs = [x[1] for x in e['consts']]
                return L(v.at(min(vs), max(vs)))
            return L(v.at(*self.trange(t)))
        if k == 'ptr' and self.T(t['to']).get('char'):
            return Str((('sub', v.name if v.idx is None else '%s[%r]' % (v.name, v.idx), ZERO, L(Sym(v.tid, v.name + '.len', v.idx).at(0, 1 << 30))),))
        if k == 'rec':
            b = t['base']
            nm = v.name if v.idx is None else '%s[%r]' % (v.name, v.idx)
            if b in ('std::basic_string', 'std::basic_string_view'):
                return Str((('sub', nm, ZERO, L(Sym(v.tid, v.name + '.len', v.idx).at(0, 1 << 30))),))
            if b in ('std::vector', 'absl::InlinedVector', 'absl::Span', 'std::deque'):
                n = L(Sym(v.tid, v.name + '.n', v.idx).at(0, 1 << 30))
                return Seq((S(nm, ZERO, n, t['args'][0]),), t['args'][0])
            if b == 'std::optional':
                d = L(Sym(v.tid, v.name + '.has', v.idx).at(0, 1))
                if self.branch('eq0', d):
                    return Opt(None)
                return Opt(Sym(t['args'][0], v.name + '.val', v.idx))
            if b == 'std::variant':
                n = len(t['args'])
                d = L(Sym(v.tid, v.name + '.alt', v.idx).at(0, n - 1))
                for i in range(n - 1):
                    if self.branch('eq0', d - i):
                        return Var(i, Sym(t['args'][i], '%s.alt%d' % (v.name, i), v.idx))
                return Var(n - 1, Sym(t['args'][n - 1], '%s.alt%d' % (v.name, n - 1), v.idx))
            if b == 'std::pair':
                return Obj('std::pair', {'first': Sym(t['args'][0], v.name + '.first', v.idx),
                                         'second': Sym(t['args'][1], v.name + '.second', v.idx)})
            if b == 'std::monostate':
                return Obj('std::monostate', {})
            r = self.p.records.get(t['rec'])
            if r is not None and t.get('repo'):
                if r['union']:
                    return Top('symbolic union ' + v.name)
                return Obj(t['rec'], {f: Sym(tid, v.name + '.' + f, v.idx) for f, tid in self.fields(t['rec'])})
        return Top('symbolic %s of type %s' % (v.name, t['s']))

    def fields(self, rec):
        r = self.p.records[rec]
        out = []
        for b in r['bases']:
            bt = self.T(b)
            if bt.get('repo'):
                out += self.fields(bt['rec'])
        for f in r['fields']:
            out.append((f['name'] or '<anon>', f['t']))
        return out

    def fielddecl(self, rec, name):
        r = self.p.records.get(rec)
        if not r:
            return None
        for f in r['fields']:
            if (f['name'] or '<anon>') == name:
                return f
        for b in r['bases']:
            bt = self.T(b)
            if bt.get('repo'):
                f = self.fielddecl(bt['rec'], name)
                if f:
                    return f
        return None

    def sub(self, v, p, node=None):
        v = self.force(v)
        if isinstance(v, Top):
            return v
        k = p[0]
        if k == 'f':
            if isinstance(v, Obj):
                x = v.f.get(p[1])
                if x is None:
                    r = self.p.records.get(v.cls)
                    if r and r['union']:
                        return Top('inactive union member ' + p[1])
                    return Top('no field %s in %s' % (p[1], v.cls))
                return x
            if isinstance(v, Tup):
                return v.v[int(p[1])]
            return Top('field %s of %r' % (p[1], v))
        if k == 'o':
            if isinstance(v, Opt):
                self.oblige(v.v is not None, 'empty optional accessed', node)
                return v.v
            return Top('optional of %r' % (v,))
        if k == 'v':
            if isinstance(v, Var):
                self.oblige(v.i == p[1], 'variant accessed in the wrong state', node,
                            'holds alternative %d, alternative %d requested' % (v.i, p[1]))
                return v.v
            return Top('variant of %r' % (v,))
        if k == 'i':
            if isinstance(v, Seq):
                return self.seq_get(v, p[1], node)
            if isinstance(v, View):
                return self.load(v.p.ext(('i', v.off + p[1])), node)
            if isinstance(v, Str):
                return self.char_at(v, p[1], node)
            if isinstance(v, Lin):
                return v
            return Top('index of %r' % (v,))
        if k == 'm':
            if isinstance(v, MapV):
                e = v.ents[self.entry(v, p[1], node)]
                if v.kind in ('set', 'flat_hash_set'):
                    return e[0]
                return Obj('std::pair', {'first': e[0], 'second': e[1]})
            return Top('map entry of %r' % (v,))
        raise PathEnd('unknown', 'path %r' % (p,))

    def peek(self, ptr, node=None):
        """Like load, but a symbolic variant is left undecided."""
        if isinstance(ptr, Ptr) and ptr.cell in self.st.cells:
            v = self.st.cells[ptr.cell]
            for p in ptr.path:
                v = self.sub(v, p, node)
            if self.lazy_variant(v):
                return v
        return self.load(ptr, node)

    def lazy_variant(self, v):
        if not isinstance(v, Sym):
            return False
        t = self.T(v.tid)
        return t['k'] == 'rec' and t['base'] == 'std::variant'

    def alt_is(self, v, i, node=None):
        """does the variant hold alternative i?"""
        if isinstance(v, Var):
            return v.i == i
        n = len(self.T(v.tid)['args'])
        return self.branch('eq0', L(Sym(v.tid, v.name + '.alt', v.idx).at(0, n - 1)) - i, node)

    def load(self, ptr, node=None):
        if isinstance(ptr, Top):
            return ptr
        if not isinstance(ptr, Ptr):
            raise PathEnd('unknown', 'load through %r at %s' % (ptr, self.loc(node)))
        if ptr.cell is None:
            self.oblige(False, 'null pointer dereferenced', node)
        if ptr.cell not in self.st.cells:
            raise PathEnd('unknown', 'dangling cell %r at %s' % (ptr, self.loc(node)))
        v = self.st.cells[ptr.cell]
        for p in ptr.path:
            v = self.sub(v, p, node)
        r = self.force(v)
        return r

    def store(self, ptr, val, node=None):
        if isinstance(ptr, Top):
            self.taint('store through ' + ptr.why)
            return
        if not isinstance(ptr, Ptr):
            raise PathEnd('unknown', 'store through %r at %s' % (ptr, self.loc(node)))
        if ptr.cell is None:
            self.oblige(False, 'null pointer dereferenced', node)
        if ptr.cell not in self.st.cells:
            raise PathEnd('unknown', 'dangling cell at %s' % self.loc(node))
        self.st.cells[ptr.cell] = self._put(self.st.cells[ptr.cell], ptr.path, val, node)

    def _put(self, v, path, val, node):
        if not path:
            return val
        p = path[0]
        v = self.force(v)
        if isinstance(v, Top):
            self.taint('store into ' + v.why)
            return v
        k = p[0]
        if k == 'f' and isinstance(v, Obj):
            old = v.f.get(p[1])
            r = self.p.records.get(v.cls)
            if r and r['union']:
                nv = self._put(old, path[1:], val, node) if len(path) > 1 else val
                return Obj(v.cls, {p[1]: nv})
            if old is None:
                self.taint('store into unknown field')
                return v
            return v.with_(p[1], self._put(old, path[1:], val, node))
        if k == 'f' and isinstance(v, Tup):
            i = int(p[1])
            x = list(v.v)
            x[i] = self._put(x[i], path[1:], val, node)
            return Tup(x, v.refs)
        if k == 'o' and isinstance(v, Opt):
            self.oblige(v.v is not None, 'empty optional accessed', node)
            return Opt(self._put(v.v, path[1:], val, node))
        if k == 'v' and isinstance(v, Var):
            self.oblige(v.i == p[1], 'variant accessed in the wrong state', node)
            return Var(v.i, self._put(v.v, path[1:], val, node))
        if k == 'i' and isinstance(v, Seq):
            return self.seq_put(v, p[1], path[1:], val, node)
        if k == 'i' and isinstance(v, View):
            self.store(Ptr(v.p.cell, v.p.path + (('i', v.off + p[1]),) + path[1:]), val, node)
            return v
        if k == 'i' and isinstance(v, Str):
            return self.str_put(v, p[1], val, node)
        if k == 'm' and isinstance(v, MapV):
            i = self.entry(v, p[1], node)
            key, old = v.ents[i]
            o = self._put(Obj('std::pair', {'first': key, 'second': old}), path[1:], val, node)
            return v.set(i, o.f['second'])
        self.taint('store into %r' % (v,))
        return v

    def entry(self, m, k, node=None):
        """position of a map entry being accessed"""
        i = m.pos(k)
        self.oblige(i is not None, 'removed map entry accessed', node)
        self.oblige(i < len(m.ents), 'end iterator dereferenced', node)
        return i

    # ------------------------------------------------------------------ sequences
    def elem(self, arr, idx, tid):
        return self.force(Sym(tid, arr, idx)) if True else None

    def locate(self, seq, i, node, allow_end=False):
        """Find the part holding index i: returns (part number, offset in part).  Splits."""
        pos = ZERO
        for k, p in enumerate(seq.parts):
            n = p.n
            # i < pos + n ?
            if self.branch('le0', i - pos - n + 1, node):
                return k, i - pos
            pos = pos + n
        return len(seq.parts), i - pos

    def bounds_ok(self, seq, i, node, end=False):
        i = self.expand(i)
        n = seq.len()
        self.oblige(('le0', i.scale(-1)), 'index below start', node)
        self.oblige(('le0', i - n + (0 if end else 1)), 'index past the end', node, 'index %r, size %r' % (i, n))
        return i

    def seq_get(self, seq, i, node=None):
        if i.const is not None and 0 <= i.c < len(seq.parts) and seq.concrete():
            return seq.parts[i.c].v
        i = self.bounds_ok(seq, i, node)
        for idx, val in reversed(seq.log):
            if callable(idx):
                return Top('read of array updated in a summarised loop')
            if self.branch('eq0', idx - i, node):
                return val
        k, off = self.locate(seq, i, node)
        if k >= len(seq.parts):
            raise Infeasible()
        p = seq.parts[k]
        if isinstance(p, E):
            return p.v
        if isinstance(p, S):
            return self.elem(p.arr, self.renorm(p.off + off), p.tid)
        return self.subst(p.body, p.var, off)

    def seq_put(self, seq, i, rest, val, node):
        i = self.bounds_ok(seq, i, node)
        if seq.log or (i.const is None and not all(isinstance(p, E) for p in seq.parts)) or \
           (i.const is not None and not all(isinstance(p, E) for p in seq.parts) and seq.parts and isinstance(seq.parts[0], S)):
            if rest:
                old = self.seq_get(seq, i, node)
                val = self._put(old, rest, val, node)
            return Seq(seq.parts, seq.tid, seq.log + ((i, val),))
        k, off = self.locate(seq, i, node)
        if k >= len(seq.parts):
            raise Infeasible()
        p = seq.parts[k]
        if isinstance(p, E):
            nv = self._put(p.v, rest, val, node) if rest else val
            return Seq(seq.parts[:k] + (E(nv),) + seq.parts[k + 1:], seq.tid, seq.log)
        if rest:
            val = self._put(self.seq_get(seq, i, node), rest, val, node)
        return Seq(seq.parts, seq.tid, seq.log + ((i, val),))

    def seq_split(self, seq, i, node, part=None):
        """(prefix parts, suffix parts) at index i (0 <= i <= len)."""
        i = self.expand(i)
        pos = ZERO
        for k, p in enumerate(seq.parts):
            if self.st.facts.eq0(i - pos) or (k == 0 and i == ZERO):
                return seq.parts[:k], seq.parts[k:]
            n = p.n
            if isinstance(p, E):
                # i == pos ?
                if self.branch('le0', i - pos, node):
                    return seq.parts[:k], seq.parts[k:]
            else:
                if self.branch('le0', i - pos - n + 1, node):
                    off = i - pos
                    if isinstance(p, S):
                        return (seq.parts[:k] + (S(p.arr, p.off, off, p.tid),),
                                (S(p.arr, p.off + off, n - off, p.tid),) + seq.parts[k + 1:])
                    v2 = atom(('s', '%s+' % p.var), 0, INF)
                    return (seq.parts[:k] + (C(p.var, off, p.body),),
                            (C(p.var, n - off, self.subst(p.body, p.var, L(p.var) + off)),) + seq.parts[k + 1:])
            pos = pos + n
        return seq.parts, ()

    def seq_slice(self, seq, i, j, node):
        if seq.log:
            if i == ZERO and j == seq.len():
                return seq
            return None
        n = seq.len()
        i, j = self.expand(i), self.expand(j)
        self.oblige(('le0', i.scale(-1)), 'range begins before the start', node)
        self.oblige(('le0', i - j), 'range ends before it begins', node)
        self.oblige(('le0', j - n), 'range past the end', node, 'end %r, size %r' % (j, n))
        if len(seq.parts) == 1 and isinstance(seq.parts[0], S):
            p = seq.parts[0]
            return Seq((S(p.arr, p.off + i, j - i, p.tid),), seq.tid)
        a, b = self.seq_split(seq, j, node)
        a, b = self.seq_split(Seq(a, seq.tid), i, node)
        return Seq(b, seq.tid)

    def seq_of(self, v, node=None):
        """Sequence value behind a container / view value."""
        v = self.force(v)
        if isinstance(v, Seq):
            return v
        if isinstance(v, View):
            s = self.load(v.p, node)
            if isinstance(s, Seq):
                if v.off == ZERO and s.len() == v.n:
                    return s
                r = self.seq_slice(s, v.off, v.off + v.n, node)
                if r is not None:
                    return r
        if isinstance(v, Str) and v.const is not None:
            return Seq([E(Lin(ord(c))) for c in v.const])
        return None

    def subst(self, v, var, val):
        """Replace atom var by Lin val inside a value."""
        if isinstance(v, Lin):
            return self.subst_lin(v, var, val)
        if isinstance(v, Sym):
            return Sym(v.tid, v.name, None if v.idx is None else self.subst_lin(v.idx, var, val))
        if isinstance(v, Obj):
            return Obj(v.cls, {k: self.subst(x, var, val) for k, x in v.f.items()})
        if isinstance(v, Opt):
            return Opt(None if v.v is None else self.subst(v.v, var, val))
        if isinstance(v, Var):
            return Var(v.i, self.subst(v.v, var, val))
        if isinstance(v, Tup):
            return Tup([self.subst(x, var, val) for x in v.v], v.refs)
        if isinstance(v, Seq):
            return Seq([self.subst_part(p, var, val) for p in v.parts], v.tid,
                       tuple((self.subst_lin(i, var, val), self.subst(x, var, val)) for i, x in v.log))
        if isinstance(v, Str):
            return Str([self.subst_piece(p, var, val) for p in v.p])
        if isinstance(v, View):
            return View(self.subst(v.p, var, val), self.subst_lin(v.off, var, val), self.subst_lin(v.n, var, val))
        if isinstance(v, Ptr):
            return Ptr(v.cell, tuple((p[0], self.subst_lin(p[1], var, val)) if p[0] == 'i' else p for p in v.path))
        return v

    def subst_part(self, p, var, val):
        if isinstance(p, E):
            return E(self.subst(p.v, var, val))
        if isinstance(p, S):
            return S(p.arr, self.subst_lin(p.off, var, val), self.subst_lin(p.n, var, val), p.tid)
        return C(p.var, self.subst_lin(p.n, var, val), self.subst(p.body, var, val) if p.var is not var else p.body)

    def subst_piece(self, p, var, val):
        if isinstance(p, str):
            return p
        return tuple(self.subst(x, var, val) if isinstance(x, (Lin, Str, Obj, Seq)) else x for x in p)

    def subst_lin(self, l, var, val):
        r = Lin(l.c)
        hit = False
        for a, k in l.t:
            if a is var:
                r = r + val.scale(k)
                hit = True
            else:
                n = self.subst_atom(a, var, val)
                if n is not None:
                    hit = True
                    r = r + n.scale(k)
                else:
                    r = r + L(a).scale(k)
        return r if hit else l

    def subst_atom(self, a, var, val):
        k = a.key
        if k[0] == 's':
            return None
        new = []
        ch = False
        for x in k[1:]:
            if isinstance(x, Lin):
                y = self.subst_lin(x, var, val)
                if y is not x and y != x:
                    ch = True
                new.append(y)
            else:
                new.append(x)
        if not ch:
            return None
        if k[0] == 'mod':
            return self.mod(new[0], new[1], fork=False)
        if k[0] == 'div':
            return self.div(new[0], new[1], fork=False)
        if k[0] == 'xor':
            return self.xor_(new[0], new[1])
        if k[0] == 'and':
            return self.and_(new[0], new[1])
        return L(atom((k[0],) + tuple(new), *a.rng))

    # ------------------------------------------------------------------ strings
    def str_len(self, s):
        n = ZERO
        for p in s.p:
            if isinstance(p, str):
                n = n + len(p)
            elif p[0] == 'sub':
                n = n + p[3]
            elif p[0] in ('lower', 'upper'):
                n = n + self.str_len(p[1])
            elif p[0] == 'fmt' and p[1] == '%c':
                n = n + 1
            else:
                n = n + L(atom(('strlen', Str((p,))), 0, 1 << 30))
        return n

    def str_bound(self, s):
        """literal a symbolic string is known to equal, if any"""
        c = s.const
        if c is not None:
            return c
        return self.st.facts.prop.get(('strval', s))

    def str_eq(self, a, b, node=None):
        if a == b:
            return True
        ca, cb = self.str_bound(a), self.str_bound(b)
        if ca is not None and cb is not None:
            return ca == cb
        # strip common literal prefixes / equal pieces
        pa, pb = list(a.p), list(b.p)
        while pa and pb:
            if pa[0] == pb[0]:
                pa.pop(0); pb.pop(0); continue
            if isinstance(pa[0], str) and isinstance(pb[0], str):
                n = min(len(pa[0]), len(pb[0]))
                if pa[0][:n] != pb[0][:n]:
                    return False
                pa[0], pb[0] = pa[0][n:], pb[0][n:]
                if not pa[0]:
                    pa.pop(0)
                if not pb[0]:
                    pb.pop(0)
                continue
            r = self.fmt_eq(pa[0], pb[0], node)
            if r:
                pa.pop(0); pb.pop(0); continue
            if r is False and len(pa) == len(pb) == 1:
                return False
            break
        while pa and pb:
            if pa[-1] == pb[-1]:
                pa.pop(); pb.pop(); continue
            if isinstance(pa[-1], str) and isinstance(pb[-1], str):
                n = min(len(pa[-1]), len(pb[-1]))
                if pa[-1][-n:] != pb[-1][-n:]:
                    return False
                pa[-1], pb[-1] = pa[-1][:-n], pb[-1][:-n]
                if not pa[-1]:
                    pa.pop()
                if not pb[-1]:
                    pb.pop()
                continue
            r = self.fmt_eq(pa[-1], pb[-1], node)
            if r:
                pa.pop(); pb.pop(); continue
            if r is False and len(pa) == len(pb) == 1:
                return False
            break
        a, b = Str(pa), Str(pb)
        if a == b:
            return True
        if a.const is not None:
            a, b = b, a
        if b.const is not None:
            lit = b.const
            known = self.st.facts.prop.get(('strval', a))
            if known is not None:
                return known == lit
            # lower(x) equals a literal only when the literal has no upper-case letters
            if len(a.p) == 1 and not isinstance(a.p[0], str):
                if a.p[0][0] == 'lower' and lit != lit.lower():
                    return False
                if a.p[0][0] == 'upper' and lit != lit.upper():
                    return False
                if a.p[0][0] == 'fmt':
                    r = self.fmt_never(a.p[0], lit)
                    if r:
                        return False
                if a.p[0][0] in ('lower', 'upper') and lit == '':
                    return self.str_eq(a.p[0][1], b, node)
            n = self.str_len(a)
            if self.st.facts.eq0(n - len(lit)) is False:
                return False
            if self.st.facts.prop.get(('strne', a, lit)) or self.str_excluded(a, lit):
                return False
            r = self.str_eq_chars(a, lit, node)
            if r is not None:
                return r
            if self.choose(2) == 0:
                if not self.st.facts.add(len(lit), n, len(lit)):
                    raise Infeasible()
                self.st.facts._w()
                self.st.facts.prop[('strval', a)] = lit
                if a.is_sub():
                    _, nm, off, _n = a.p[0]
                    for i, ch in enumerate(lit):
                        self.assume(ord(ch), L(self.char_atom(nm, off + i)), ord(ch))
                self.note(node, '%r == "%s"' % (a, lit))
                return True
            if len(lit) == 0:
                self.assume(1, n, INF)
            self.st.facts._w()
            self.st.facts.prop[('strne', a, lit)] = True
            self.note(node, '%r != "%s"' % (a, lit))
            return False
        x, y = self.chars_of(a, node), self.chars_of(b, node)
        if x is not None and y is not None:
            return len(x) == len(y) and all(self.branch('eq0', self.expand(i - j), node) for i, j in zip(x, y))
        if hash(b) < hash(a):
            a, b = b, a
        return self.branch_prop(('streq', a, b), node)

    def str_lt(self, a, b, node=None):
        """Lexicographic order; splits."""
        x, y = self.str_bound(a), self.str_bound(b)
        if x is not None and y is not None:
            return x < y
        if self.str_eq(a, b, node):
            return False
        x, y = self.str_bound(a), self.str_bound(b)
        if x is not None and y is not None:
            return x < y
        if y is not None:
            return self.str_below(a, y, node)
        if x is not None:
            return not self.str_below(b, x, node)
        self.taint('order of texts at %s' % self.loc(node))
        return self.branch_prop(('strlt', a, b), node)

    def str_below(self, a, lit, node):
        """Is the text, known to differ from lit, below it?"""
        lo, hi = self.st.facts.prop.get(('strord', a)) or (None, None)
        if hi is not None and hi <= lit:
            return True
        if lit == '' or lo is not None and lo >= lit:
            return False
        if any(isinstance(p, str) or p[0] not in ('sub', 'lower', 'upper') for p in a.p) or any(k[0] == 'chars' for k in self.st.facts.prop if isinstance(k, tuple)):
            self.taint('order of a text at %s' % self.loc(node))
        c = self.choose(2) == 0
        self.st.facts._w()
        self.st.facts.prop[('strord', a)] = (lo, lit) if c else (lit, hi)
        self.note(node, '%r %s "%s"' % (a, '<' if c else '>', lit))
        return c

    def str_excluded(self, a, lit):
        """Do decisions about the order of a text (or of its case conversion) rule the value out?"""
        todo = [(a, lit)]
        x = a.p[0][1] if len(a.p) == 1 and not isinstance(a.p[0], str) and a.p[0][0] in ('lower', 'upper') else a
        todo += [(Str((('upper', x),)), lit.upper()), (Str((('lower', x),)), lit.lower())]
        for s, v in todo:
            lo, hi = self.st.facts.prop.get(('strord', s)) or (None, None)
            if lo is not None and v <= lo or hi is not None and v >= hi:
                return True
        return False

    def char_piece(self, v):
        """string piece for a character value"""
        if v.const is None and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
            k = v.t[0][0].key
            if k[0] == 'el' and isinstance(k[1], str) and k[1].startswith('chars:'):
                return ('sub', k[1][6:], k[2], ONE)
        e = self.expand(v)
        return chr(e.c & 0xff) if e.const is not None else ('fmt', '%c', v)

    def chars_of(self, s, node=None):
        """The characters of a string of known length, or None."""
        out = []
        for p in s.p:
            if isinstance(p, str):
                out += [L(ord(ch) if ord(ch) < 128 else ord(ch) - 256) for ch in p]
            elif p[0] == 'sub':
                n = self.expand(p[3])
                if n.const is None or n.c > 64:
                    return None
                if not self.st.facts.prop.get(('chars', p[1])):
                    return None
                out += [L(self.char_atom(p[1], self.expand(p[2] + i))) for i in range(n.c)]
            elif p[0] in ('lower', 'upper'):
                r = self.chars_of(p[1], node)
                if r is None:
                    return None
                out += [self.ascii_case(p[0], c, node) for c in r]
            elif p[0] == 'fmt' and p[1] == '%c' and isinstance(p[2], Lin):
                out.append(p[2])
            else:
                return None
        return out

    def fmt_eq(self, x, y, node):
        """Formatted numbers in the same format are equal exactly when the numbers are."""
        if isinstance(x, str) or isinstance(y, str) or x[0] != 'fmt' or y[0] != 'fmt' or x[1] != y[1]:
            return None
        if not isinstance(x[2], Lin) or not isinstance(y[2], Lin):
            return None
        return self.compare('==', x[2], y[2], node)

    def str_eq_chars(self, a, lit, node):
        """Comparison by characters, once characters of the string have been looked at."""
        if len(a.p) != 1 or isinstance(a.p[0], str):
            x = self.chars_of(a, node)
            if x is None:
                return None
            return len(x) == len(lit) and all(self.branch('eq0', self.expand(i - ord(ch)), node) for i, ch in zip(x, lit))
        case, x = None, a
        if a.p[0][0] in ('lower', 'upper'):
            case, x = a.p[0]
        if not x.is_sub() or not self.st.facts.prop.get(('chars', x.p[0][1])):
            return None
        _, nm, off, n = x.p[0]
        if not self.branch('eq0', n - len(lit), node):
            return False
        for i, ch in enumerate(lit):
            c = L(self.char_atom(nm, off + i))
            if self.branch('eq0', c - ord(ch), node):
                continue
            o = ch.upper() if case == 'lower' else ch.lower() if case == 'upper' else ch
            if o == ch or not self.branch('eq0', c - ord(o), node):
                return False
        return True

    def fmt_never(self, p, lit):
        conv = p[1]
        if conv.endswith('d') and lit:
            return not lit.lstrip('-').isdigit()
        return False

    def char_atom(self, nm, idx):
        return atom(('el', 'chars:%s' % (nm,), idx), -128, 127)

    def char_at(self, s, i, node=None):
        b = self.str_bound(s)
        if b is not None and i.const is not None:
            self.oblige(0 <= i.c <= len(b), 'string index out of range', node)
            return Lin(ord(b[i.c])) if i.c < len(b) else ZERO
        n = self.str_len(s)
        self.oblige(('le0', i.scale(-1)), 'string index out of range', node)
        self.oblige(('le0', i - n), 'string index out of range', node)
        pos = ZERO
        for p in s.p:
            ln = self.str_len(Str((p,)))
            if self.branch('le0', i - pos - ln + 1, node):
                off = i - pos
                if isinstance(p, str):
                    if off.const is not None:
                        return Lin(ord(p[off.c]))
                    return self.top('symbolic index in literal', node)
                if p[0] == 'sub':
                    if not self.st.facts.prop.get(('chars', p[1])):
                        self.st.facts._w()
                        self.st.facts.prop[('chars', p[1])] = True
                    return L(self.char_atom(p[1], p[2] + off))
                if p[0] in ('lower', 'upper'):
                    c = self.char_at(p[1], off, node)
                    return self.ascii_case(p[0], c, node)
                if p[0] == 'fmt' and p[1] == '%c' and isinstance(p[2], Lin):
                    return p[2]
                return self.top('character of formatted text', node)
            pos = pos + ln
        return ZERO

    def ascii_case(self, which, c, node):
        lo, hi, d = (65, 90, 32) if which == 'lower' else (97, 122, -32)
        if self.branch('le0', c.scale(-1) + lo, node) and self.branch('le0', c - hi, node):
            return c + d
        return c

    def str_put(self, s, i, val, node):
        c = s.const
        val = self.force(val)
        if c is not None and i.const is not None and isinstance(val, Lin) and val.const is not None and i.c < len(c):
            return Str((c[:i.c] + chr(val.c & 0xff) + c[i.c + 1:],))
        i = self.expand(i)
        if i.const is not None and isinstance(val, Lin):
            x = self.chars_of(s, node)
            if x is not None and 0 <= i.c < len(x):
                x[i.c] = val
                return Str(tuple(self.char_piece(v) for v in x))
        self.taint('string element store')
        return s

    def str_sub(self, s, i, n, node):
        """substring [i, i+n) (n Lin or None for rest)."""
        total = self.str_len(s)
        i = self.expand(i)
        self.oblige(('le0', i.scale(-1)), 'substring out of range', node)
        self.oblige(('le0', i - total), 'substring out of range', node)
        if n is None:
            n = total - i
        elif not self.branch('le0', i + n - total, node):
            n = total - i
        b = self.str_bound(s)
        if b is not None and i.const is not None and n.const is not None:
            return Str((b[i.c:i.c + n.c],))
        out = []
        pos = ZERO
        end = i + n
        for p in s.p:
            ln = self.str_len(Str((p,)))
            # piece [pos, pos+ln); intersection with [i,end)
            if self.branch('le0', end - pos, node):
                break
            if self.branch('le0', pos + ln - i, node):
                pos = pos + ln
                continue
            lo = i - pos if not self.branch('le0', i - pos, node) else ZERO
            hi = ln if self.branch('le0', pos + ln - end, node) else end - pos
            if lo == ZERO and hi == ln:
                out.append(p)
            elif isinstance(p, str):
                if lo.const is None or hi.const is None:
                    raise PathEnd('unknown', 'symbolic substring of literal at %s' % self.loc(node))
                out.append(p[lo.c:hi.c])
            elif p[0] == 'sub':
                out.append(('sub', p[1], p[2] + lo, hi - lo))
            elif p[0] in ('lower', 'upper'):
                out.append((p[0], self.str_sub(p[1], lo, hi - lo, node)))
            else:
                raise PathEnd('unknown', 'substring of formatted text at %s' % self.loc(node))
            pos = pos + ln
        return Str(out)

    def str_of(self, v, node=None):
        v = self.force(v)
        if isinstance(v, Str):
            return v
        if isinstance(v, Ptr) and v.cell is not None:
            if v.path and v.path[-1][0] == 'i':
                # pointer into an array or string of characters
                base = self.load(Ptr(v.cell, v.path[:-1]), node)
                if isinstance(base, Str):
                    return self.str_sub(base, v.path[-1][1], None, node)
            x = self.load(v, node)
            if isinstance(x, Str):
                return x
            v = x
        if isinstance(v, Top):
            self.taint(v.why)
            return Str((('top', v.why),))
        raise PathEnd('unknown', 'string expected, got %r at %s' % (v, self.loc(node)))

    def str_case(self, which, s):
        out = []
        for p in s.p:
            if isinstance(p, str):
                out.append(p.lower() if which == 'lower' else p.upper())
            elif p[0] in ('lower', 'upper'):
                out.append((which, p[1]))
            else:
                out.append((which, Str((p,))))
        return Str(out)

    # ------------------------------------------------------------------ equality of values
    def value_eq(self, a, b, node=None):
        """C++ operator== on (library) values; splits."""
        if a.__class__ is Lin and b.__class__ is Lin and not a.t and not b.t:
            return a.c == b.c
        if isinstance(a, Var) and self.lazy_variant(b):
            a, b = b, a
        if isinstance(b, Var) and self.lazy_variant(a):
            return self.alt_is(a, b.i, node) and self.value_eq(self.force(a).v, b.v, node)
        a, b = self.force(a), self.force(b)
        if isinstance(a, Top) or isinstance(b, Top):
            self.taint((a if isinstance(a, Top) else b).why)
            return self.choose(2) == 0
        if isinstance(a, Str) or isinstance(b, Str):
            return self.str_eq(self.str_of(a, node), self.str_of(b, node), node)
        if isinstance(a, (Lin, Ptr, Fn, Lam)) and isinstance(b, (Lin, Ptr, Fn, Lam)):
            return self.compare('==', a, b, node)
        if isinstance(a, Opt) and isinstance(b, Opt):
            if a.v is None or b.v is None:
                return a.v is None and b.v is None
            return self.value_eq(a.v, b.v, node)
        if isinstance(a, Opt):
            return a.v is not None and self.value_eq(a.v, b, node)
        if isinstance(b, Opt):
            return self.value_eq(b, a, node)
        if isinstance(a, Var) and isinstance(b, Var):
            return a.i == b.i and self.value_eq(a.v, b.v, node)
        if isinstance(a, (Seq, View)) and isinstance(b, (Seq, View)):
            return self.seq_eq(self.seq_of(a), self.seq_of(b), node)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return all(self.value_eq(x, y, node) for x, y in zip(self.elems(a, node), self.elems(b, node)))
        if isinstance(a, Obj) and isinstance(b, Obj):
            r = self.repo_op('operator==', a, b, node)
            if r is not None:
                return self.truth(r)
            if a.cls == b.cls:
                for k in a.f:
                    if not self.value_eq(a.f[k], b.f[k], node):
                        return False
                return True
        if isinstance(a, MapV) and isinstance(b, MapV) and a.unk is None and b.unk is None:
            if len(a.ents) != len(b.ents):
                return False
            if a.kind not in ('map', 'set', 'btree_map', 'multimap', 'btree_set'):
                rest = list(b.ents)
                for k1, v1 in a.ents:
                    i = next((i for i, (k2, v2) in enumerate(rest) if self.value_eq(k1, k2, node)), None)
                    if i is None or not self.value_eq(v1, rest.pop(i)[1], node):
                        return False
                return True
            for (k1, v1), (k2, v2) in zip(a.ents, b.ents):
                if not self.value_eq(k1, k2, node) or not self.value_eq(v1, v2, node):
                    return False
            return True
        raise PathEnd('unknown', 'equality of %r and %r at %s' % (a, b, self.loc(node)))

    def elems(self, t, node=None):
        """What comparing a tuple compares."""
        return [self.peek(x, node) if t.ref(i) and isinstance(x, Ptr) else x for i, x in enumerate(t.v)]

    def value_lt(self, a, b, node=None):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            for x, y in zip(self.elems(a, node), self.elems(b, node)):
                if self.value_lt(x, y, node):
                    return True
                if self.value_lt(y, x, node):
                    return False
            return False
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.compare('<', a, b, node)
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.cls == 'std::pair':
                for k in ('first', 'second'):
                    if self.value_lt(a.f[k], b.f[k], node):
                        return True
                    if self.value_lt(b.f[k], a.f[k], node):
                        return False
                return False
            r = self.repo_op('operator<', a, b, node)
            if r is not None:
                return self.truth(r)
            spaceship = [f for f in self.p.find(a.cls + '::operator<=>', 1) if f.get('cls') == a.cls and not f.get('defaulted')]
            if spaceship:
                o = self.repo_op('operator<=>', a, b, node)
                if isinstance(o, Obj) and o.cls == 'ordering':
                    return self.compare('<', o.f['v'], ZERO, node)
                raise PathEnd('unknown', 'result of a three-way comparison at %s' % self.loc(node))
            # defaulted three-way comparison: lexicographic by member
            if self.p.find(a.cls + '::operator<=>', body=False):
                for k in a.f:
                    if self.value_lt(a.f[k], b.f[k], node):
                        return True
                    if self.value_lt(b.f[k], a.f[k], node):
                        return False
                return False
        if isinstance(a, Str) and isinstance(b, Str):
            return self.str_lt(a, b, node)
        if isinstance(a, Opt) and isinstance(b, Opt):
            if b.v is None:
                return False
            if a.v is None:
                return True
            return self.value_lt(a.v, b.v, node)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return self.cmp_ptr('<', a, b, node)
        raise PathEnd('unknown', 'ordering of %r and %r at %s' % (a, b, self.loc(node)))

    def repo_op(self, name, a, b, node):
        """Call a user-defined comparison of the repository, if there is one."""
        fs = self.p.find(a.cls + '::' + name, 1)
        fs = [f for f in fs if f.get('cls') == a.cls]
        if fs:
            return self.call_def(fs[0], self.alloc(a, 't'), [b if self.T(fs[0]['params'][0]['t'])['k'] != 'ref' else self.alloc(b, 't')], node)
        return None

    def seq_eq(self, a, b, node=None):
        if a is None or b is None:
            raise PathEnd('unknown', 'sequence comparison at %s' % self.loc(node))
        if a == b:
            return True
        if not self.branch('eq0', a.len() - b.len(), node):
            return False
        if a.log or b.log:
            raise PathEnd('unknown', 'comparison of updated arrays at %s' % self.loc(node))
        lo, hi = self.st.facts.bounds(a.len())
        l2, h2 = self.st.facts.bounds(b.len())
        lo, hi = max(lo, l2), min(hi, h2)
        if lo == hi and hi <= 64:
            for i in range(int(lo)):
                if not self.value_eq(self.seq_get(a, Lin(i), node), self.seq_get(b, Lin(i), node), node):
                    return False
            return True
        # unknown length: split on the outcome and keep the meaning for later
        key = ('seqeq', a, b)
        fa = self.st.facts
        if key in fa.prop:
            return fa.prop[key]
        c = self.choose(2)
        fa._w()
        fa.prop[key] = (c == 0)
        fa.fa = fa.fa + (SeqEqFact(self, a, b, c == 0),)
        self.note(node, 'sequences %s' % ('equal' if c == 0 else 'differ'))
        return c == 0

    # ------------------------------------------------------------------ functions
    def fsize(self, f):
        n = self.size.get(f['usr'])
        if n is None:
            n = count(f.get('body')) + count(f.get('inits'))
            self.size[f['usr']] = n
        return n

    def call_def(self, f, this, args, node):
        """Analyse a call of a function defined in the repository."""
        self.step()
        self.visited[f['q']] = '%s:%s' % (f['file'], f['line'])
        h = self.hooks.get(f['q'])
        if h:
            r = h(self, f, this, args, node)
            if r is not NotImplemented:
                return r
        if 'body' not in f and not f.get('ctor'):
            return self.call_nobody(f, this, args, node)
        if f.get('defaulted') and f['name'] == 'operator=' and this is not None and args and isinstance(args[0], Ptr) and \
                self.plain_assign(f['cls']) and all(isinstance(x, Obj) and x.cls == f['cls'] for x in (self.load(this, node), self.load(args[0], node))):
            return self.call_nobody(f, this, args, node)
        if self.st.depth > 60:
            raise PathEnd('unknown', 'recursion too deep in ' + f['q'])
        if self.fsize(f) > 80 and self.frame is not None:
            def run():
                return self.run_def(f, this, args, node)
            saved = (self.st.env, self.st.fn, self.st.depth)
            o = self.nested(run)
            self.st.env, self.st.fn, self.st.depth = dict(saved[0]), saved[1], saved[2]
            if o.kind == 'return':
                return o.v
            raise PathEnd(o.kind, o.v)
        return self.run_def(f, this, args, node)

    def run_def(self, f, this, args, node):
        st = self.st
        saved = (st.env, st.fn, st.depth)
        st.env = {}
        st.fn = f
        st.depth += 1
        if this is not None:
            st.env['this'] = this
        if f.get('noreturn'):
            pass
        for i, p in enumerate(f['params']):
            if i < len(args):
                a = args[i]
            elif 'def' in p:
                a = self.ev(p['def'])
            else:
                a = self.top('missing argument')
            self.bind(p['id'], p['t'], a)
        ret = VOID
        try:
            if f.get('ctor'):
                self.ctor_inits(f, this)
            if 'body' in f:
                self.exec(f['body'])
        except ReturnX as r:
            ret = r.v
        except PathEnd as e:
            if e.kind == 'ub' and len(e.info) == 3:
                e.info = e.info + (f['q'],)
            raise
        st = self.st
        st.env, st.fn, st.depth = saved
        return ret

    def bind(self, vid, tid, v):
        if self.T(tid)['k'] == 'ref':
            if isinstance(v, Ptr) or isinstance(v, Top):
                self.st.env[vid] = v if isinstance(v, Ptr) else self.alloc(v)
            else:
                self.st.env[vid] = self.alloc(v, 't')
        else:
            self.st.env[vid] = self.alloc(v, 'v')

    def plain_assign(self, rec, seen=()):
        """Is assigning a record the same as copying its value (no user-provided assignment of a part)?"""
        r = self.p.records.get(rec)
        if r is None or rec in seen:
            return r is not None
        for t in [fd['t'] for fd in r['fields']] + r['bases']:
            t = self.T(t)
            while t['k'] == 'arr':
                t = self.T(t['to'])
            if t['k'] == 'rec' and t.get('repo'):
                q = self.p.records.get(t['rec'])
                if q is None or any(m['name'] == 'operator=' and not m['def'] and not m['del'] for m in q['methods']):
                    return False
                if not self.plain_assign(t['rec'], seen + (rec,)):
                    return False
        return True

    def call_nobody(self, f, this, args, node):
        name = f['name']
        if name in ('operator=',) and this is not None and args:
            src = args[0]
            rv = self.T(f['params'][0]['t']).get('rv')
            v = self.move_out(src) if rv else self.load(src, node)
            self.store(this, v, node)
            return this
        if name == 'operator==' and args:
            a = self.load(this, node) if this is not None else self.load(args[0], node)
            b = self.load(args[0] if this is not None else args[1], node)
            return L(int(self.fieldwise_eq(a, b, node)))
        if f.get('dtor'):
            return VOID
        return self.top('function %s has no body' % f['q'], node)

    def fieldwise_eq(self, a, b, node):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            for k in a.f:
                if not self.value_eq(a.f[k], b.f[k], node):
                    return False
            return True
        return self.value_eq(a, b, node)

    def ctor_inits(self, f, this):
        for i in f.get('inits', ()):
            if i.get('deleg'):
                v = self.rv(i['e'])
                self.store(this, v)
            elif 'f' in i:
                path = self.field_path(f['cls'], i['f'])
                fd = self.fielddecl(f['cls'], i['f'])
                v = self.ev(i['e'])
                if fd is not None and self.T(fd['t'])['k'] != 'ref' and isinstance(v, Ptr) and i['e'] and i['e'].get('lv'):
                    v = self.load(v)
                if fd is not None and 'bits' in fd and isinstance(v, Lin):
                    v = self.mod(v, 1 << fd['bits']) if not self.T(fd['t']).get('sg') else v
                self.store(this.ext(*path), v)
            elif 'base' in i:
                self.init_base(i, this)

    def init_base(self, i, this):
        e = i['e']
        while e and e['k'] in ('cast', 'tmp'):
            e = e['e']
        if e and e['k'] == 'ctor':
            fn = self.p.funcs.get(e['fn']['usr'])
            if fn is not None and ('body' in fn or fn.get('inits')) and not e['fn'].get('copy') and not e['fn'].get('move'):
                args = [self.ev(a) for a in e['a']]
                self.call_def(fn, this, args, e)

    def field_path(self, cls, name):
        r = self.p.records[cls]
        for f in r['fields']:
            if f['name'] == name:
                return (('f', name),)
        for f in r['fields']:
            if f.get('anon'):
                sub = self.T(f['t'])['rec']
                if any(g['name'] == name for g in self.p.records[sub]['fields']):
                    return (('f', '<anon>'), ('f', name))
        return (('f', name),)

    def default_value(self, tid, node=None, zero=False):
        t = self.T(tid)
        k = t['k']
        if k in ('int', 'bool', 'enum'):
            return ZERO if zero else Top('uninitialised')
        if k == 'ptr':
            return NULL if zero else Top('uninitialised')
        if k == 'arr':
            return Seq([E(self.default_value(t['to'], node, zero)) for _ in range(max(0, t['n']))], t['to'])
        if k == 'rec':
            if t.get('repo'):
                return self.new_obj(t['rec'])
            from . import lib
            return lib.default_of(self, t, tid)
        return Top('default of ' + t['s'])

    def new_obj(self, rec):
        """Object with default member initialisers / uninitialised members."""
        f = {}
        r = self.p.records[rec]
        if r['union']:
            return Obj(rec, {})
        for b in r['bases']:
            bt = self.T(b)
            if bt.get('repo'):
                f.update(self.new_obj(bt['rec']).f)
        for fd in r['fields']:
            nm = fd['name'] or '<anon>'
            t = self.T(fd['t'])
            if t['k'] in ('int', 'bool', 'enum', 'ptr'):
                f[nm] = Top('uninitialised member ' + nm)
            elif t['k'] == 'rec' and t.get('repo'):
                f[nm] = self.new_obj(t['rec'])
            else:
                f[nm] = self.default_value(fd['t'])
        return Obj(rec, f)

    def construct(self, e, tid=None):
        """ctor node -> value"""
        fn = e['fn']
        t = self.T(e['t'])
        while t['k'] == 'arr':
            t = self.T(t['to'])
        if t.get('repo'):
            if (fn.get('copy') or fn.get('move')) and len(e['a']) >= 1:
                d = self.p.funcs.get(fn['usr'])
                if d is None or d.get('defaulted') or 'body' not in d:
                    src = self.ev(e['a'][0])
                    if not isinstance(src, Ptr):
                        return src
                    return self.move_out(src, e) if fn.get('move') else self.load(src, e)
            args = [self.ev(a) for a in e['a']]
            return self.construct_rec(t['rec'], fn, args, e)
        args = [self.ev(a) for a in e['a']]
        h = self.libctor.get(t.get('base'))
        if h is None:
            h2 = self.hooks.get('ctor:' + t.get('base', '?'))
            if h2:
                return h2(self, e, fn, t, args)
            return self.top('constructor of ' + t['s'][:60], e)
        return h(self, e, fn, t, args)

    def construct_rec(self, rec, fn, args, node):
        d = self.p.funcs.get(fn['usr']) if fn else None
        this = self.alloc(self.new_obj(rec), 'o')
        h = self.hooks.get('ctor:' + rec)
        if h:
            r = h(self, fn, this, args, node)
            if r is not NotImplemented:
                return r
        if d is None or ('body' not in d and not d.get('inits')):
            # implicit default construction: run default member initialisers
            if fn is None or fn.get('dflt'):
                self.default_members(rec, this)
            elif args:
                return self.top('constructor %s not available' % rec, node)
        else:
            self.call_def(d, this, args, node)
        return self.st.cells[this.cell]

    def default_members(self, rec, this):
        r = self.p.records[rec]
        for fd in r['fields']:
            if 'init' in fd:
                sv = (self.st.env, self.st.fn)
                self.st.env = {'this': this}
                v = self.rv(fd['init'])
                self.st.env = sv[0]
                self.store(this.ext(('f', fd['name'])), v)
            else:
                t = self.T(fd['t'])
                if t['k'] == 'rec' and t.get('repo') and not self.p.records[t['rec']]['union']:
                    cands = [f for f in self.p.ctors(t['rec']) if
                             all('def' in p for p in f['params']) and not f.get('copy') and not f.get('move') and 'body' in f]
                    if cands:
                        v = self.construct_rec(t['rec'], {'usr': cands[0]['usr']}, [], None)
                        self.store(this.ext(('f', fd['name'])), v)
                    else:
                        self.default_members(t['rec'], this.ext(('f', fd['name'])))

    def move_out(self, ptr, node=None):
        v = self.load(ptr, node)
        m = self.moved(v)
        if m is not v:
            self.store(ptr, m, node)
        return v

    def moved(self, v):
        """State of an object after having been moved from (libstdc++ behaviour for owning
        pointers and containers)."""
        if isinstance(v, Ptr) and v.cell is not None:
            return v   # raw pointers and iterators are unchanged; unique_ptr handled by its model
        if isinstance(v, UPtr):
            return UPtr(None)
        if isinstance(v, Seq):
            return Seq((), v.tid)
        if isinstance(v, MapV):
            return MapV((), v.kind)
        if isinstance(v, Str):
            return Str(())
        if isinstance(v, Obj):
            return Obj(v.cls, {k: self.moved(x) for k, x in v.f.items()})
        if isinstance(v, Opt) and v.v is not None:
            return Opt(self.moved(v.v))
        if isinstance(v, Var):
            return Var(v.i, self.moved(v.v))
        if isinstance(v, Tup):
            return Tup([x if v.ref(i) else self.moved(x) for i, x in enumerate(v.v)], v.refs)
        return v

    # ------------------------------------------------------------------ expressions
    def rv(self, e):
        """Value of an expression (loads glvalues)."""
        v = self.ev(e)
        if e and e.get('lv') and isinstance(v, Ptr):
            return self.load(v, e)
        return self.force(v)

    def ev(self, e):
        self.step()
        if e is None:
            return VOID
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            return self.top('expression %s' % e.get('cls', e['k']), e)
        return m(e)

    def e_int(self, e):
        return Lin(e['v'])

    def e_str(self, e):
        return Str((e.get('v', ''),)) if not e.get('lv') else self.alloc(Str((e.get('v', ''),)), 'l')

    def e_float(self, e):
        return Top('float')

    def e_null(self, e):
        return NULL

    def e_zero(self, e):
        return self.default_value(e['t'], e, zero=True)

    def e_this(self, e):
        return self.st.env['this']

    def e_opaque(self, e):
        return self.top('opaque value', e)

    def e_other(self, e):
        return self.top('expression ' + e.get('cls', '?'), e)

    def e_throw(self, e):
        raise PathEnd('throw', self.loc(e))

    def e_stmtexpr(self, e):
        return self.top('statement expression', e)

    def e_arrcopy(self, e):
        return self.rv(e['e'])

    def e_ref(self, e):
        if 'g' in e:
            return self.global_ptr(e)
        if 'memf' in e:
            return MPtr(e['memf'])
        p = self.st.env.get(e['id'])
        if p is None:
            return self.top('variable %s' % e['name'], e)
        return p

    def global_ptr(self, e):
        u = e['g']
        c = 'G' + u
        if c not in self.st.cells:
            g = self.p.globals.get(u)
            if g is None:
                gq = e.get('gq', '')
                if gq.endswith('npos'):
                    self.st.cells[c] = Lin((1 << 64) - 1)
                elif gq.endswith('nullopt'):
                    self.st.cells[c] = Opt(None)
                elif gq.startswith('std::ios_base::') or gq.startswith('std::ios::'):
                    self.st.cells[c] = ZERO
                else:
                    self.st.cells[c] = self.top('global ' + (gq or e['name']), e)
            elif 'init' not in g:
                self.st.cells[c] = self.default_value(g['t'], e, zero=True)
            else:
                sv = (self.st.env, self.st.fn)
                self.st.env = {}
                self.st.cells[c] = self.rv(g['init'])
                self.st.env = sv[0]
        if e['t'] is not None and self.T(self.p.globals[u]['t'] if u in self.p.globals else e['t'])['k'] == 'ref':
            v = self.st.cells[c]
            if isinstance(v, Ptr):
                return v
        return Ptr(c)

    def e_mem(self, e):
        b = self.ev(e['b'])
        if not e.get('arrow') and not (e['b'] and e['b'].get('lv')):
            b = self.alloc(b, 't')
        if isinstance(b, Top):
            return b
        if e.get('arrow') and isinstance(b, Ptr) and b.cell is None:
            self.oblige(False, 'null pointer dereferenced', e)
        p = b.ext(('f', e['f'] or '<anon>'))
        # reference members are transparent
        r = self.cur_field_type(e)
        if r is not None and r['k'] == 'ref':
            return self.load(p, e)
        if not e.get('lv'):
            return self.load(p, e)
        return p

    def cur_field_type(self, e):
        bt = self.T(e['b']['t'])
        while bt['k'] in ('ptr', 'ref'):
            bt = self.T(bt['to'])
        if bt['k'] == 'rec' and bt.get('repo'):
            fd = self.fielddecl(bt['rec'], e['f'])
            if fd:
                return self.T(fd['t'])
        return None

    def e_fnref(self, e):
        return Fn(e['fn'])

    def e_methref(self, e):
        return Fn(e['fn'])

    def e_tmp(self, e):
        v = self.ev(e['e'])
        if e['e'] and e['e'].get('lv') and isinstance(v, Ptr):
            return v
        return self.alloc(v, 't')

    def e_stdinit(self, e):
        v = self.ev(e['e'])
        if isinstance(v, Ptr):
            v = self.load(v, e)
        return v

    def e_init(self, e):
        t = self.T(e['t'])
        if t['k'] == 'arr':
            vs = [E(self.rv(a)) for a in e['a']]
            n = t['n']
            while n > len(vs) and n < 100000:
                vs.append(E(self.rv(e['fill']) if e.get('fill') else self.default_value(t['to'], e, zero=True)))
            return Seq(vs, t['to'])
        if t['k'] == 'rec' and t.get('repo'):
            fs = [f for f in self.p.records[t['rec']]['fields']]
            f = {}
            if e.get('transp') and len(e['a']) == 1:
                return self.rv(e['a'][0])
            if self.p.records[t['rec']]['union']:
                if e['a']:
                    f[e.get('uf') or fs[0]['name']] = self.rv(e['a'][0])
                return Obj(t['rec'], f)
            bases = [b for b in self.p.records[t['rec']]['bases']]
            args = list(e['a'])
            for b in bases:
                if args:
                    bv = self.rv(args.pop(0))
                    if isinstance(bv, Obj):
                        f.update(bv.f)
                    elif isinstance(bv, Lam):
                        f['<lambda%d>' % len(f)] = bv
            for fd, a in zip(fs, args):
                if self.T(fd['t'])['k'] == 'ref':
                    f[fd['name'] or '<anon>'] = self.ev(a)
                else:
                    f[fd['name'] or '<anon>'] = self.rv(a)
            for fd in fs[len(args):]:
                f[fd['name'] or '<anon>'] = self.rv(fd['init']) if 'init' in fd else self.default_value(fd['t'], e, zero=True)
            return Obj(t['rec'], f)
        if len(e['a']) == 1:
            return self.ev(e['a'][0])
        if not e['a']:
            return self.default_value(e['t'], e, zero=True)
        if t['k'] == 'rec' and t['base'] == 'std::pair':
            return Obj('std::pair', {'first': self.rv(e['a'][0]), 'second': self.rv(e['a'][1])})
        return self.top('initialiser of ' + t['s'][:50], e)

    def e_cast(self, e):
        ck = e['ck']
        sub = e['e']
        if ck == 'LValueToRValue':
            p = self.ev(sub)
            if isinstance(p, Ptr):
                return self.load(p, e)
            return self.force(p)
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase',
                  'BitCast', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'BaseToDerived', 'LValueBitCast', 'Dependent'):
            v = self.ev(sub)
            if sub and sub.get('lv') and not e.get('lv') and isinstance(v, Ptr) and ck in ('NoOp',):
                return self.load(v, e)
            return v
        if ck == 'Dynamic':
            p = self.ev(sub)
            t = self.T(e['t'])
            want = t
            while want['k'] in ('ref', 'ptr'):
                want = self.T(want['to'])
            if isinstance(p, Ptr) and p.cell is None:
                return NULL
            v = self.load(p, e) if isinstance(p, Ptr) else self.force(p)
            cls = getattr(v, 'cls', None)
            if cls is None or want.get('rec') is None:
                return self.top('dynamic cast', e)
            if self.derives(cls, want['rec']):
                return p
            if t['k'] == 'ptr':
                return NULL
            raise PathEnd('throw', self.loc(e))
        if ck == 'ArrayToPointerDecay':
            p = self.ev(sub)
            if isinstance(p, Ptr):
                v = self.load(p, e)
                if isinstance(v, Str):
                    return v
                return p.ext(('i', ZERO))
            return p
        if ck in ('NullToPointer',):
            return NULL
        if ck in ('NullToMemberPointer',):
            return NULL
        if ck == 'ToVoid':
            self.ev(sub)
            return VOID
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            v = self.as_lin(self.rv(sub), e)
            t = self.T(e['t'])
            if isinstance(v, Top):
                return v
            if t['k'] in ('int', 'bool', 'enum'):
                return self.wrap(v, t)
            return v
        if ck == 'IntegralToBoolean':
            v = self.rv(sub)
            return L(int(self.truth(v, e)))
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            return L(int(self.truth(self.rv(sub), e)))
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'FloatingToBoolean'):
            self.rv(sub)
            return self.top('floating point', e)
        if ck == 'ToUnion':
            return self.rv(sub)
        if ck == 'Dynamic':
            p = self.ev(sub)
            t = self.T(e['t'])
            if isinstance(p, Ptr) and p.cell is None:
                return p
            if isinstance(p, Ptr) and t['k'] in ('ptr', 'ref') and self.T(t['to'])['k'] == 'rec':
                v = self.load(p, e)
                if isinstance(v, Obj):
                    if self.derives(v.cls, self.T(t['to'])['rec']):
                        return p
                    if t['k'] == 'ptr':
                        return NULL
        return self.top('cast ' + ck, e)

    def e_un(self, e):
        op = e['op']
        if op == '&':
            return self.ev(e['e'])
        if op == '*':
            p = self.rv(e['e'])
            if isinstance(p, UPtr):
                p = p.p()
            if isinstance(p, Str):
                return self.alloc(self.char_at(p, ZERO, e), 't')
            if isinstance(p, Ptr) and p.cell is None:
                self.oblige(False, 'null pointer dereferenced', e)
            if isinstance(p, (Ptr, Fn, Lam)):
                return p
            return self.top('dereference', e)
        if op == '!':
            return L(int(not self.truth(self.rv(e['e']), e)))
        if op in ('++', '--'):
            p = self.ev(e['e'])
            old = self.load(p, e)
            t = self.T(e['e']['t'])
            d = 1 if op == '++' else -1
            if isinstance(old, Lin):
                new = self.arith('+', old, Lin(d), t, e)
            elif isinstance(old, Ptr):
                new = self.ptr_add(old, Lin(d), e)
            elif isinstance(old, Str) and d == 1:
                new = self.str_sub(old, ONE, None, e)
            else:
                new = self.top('increment', e)
            self.store(p, new, e)
            if e.get('post'):
                return old
            return p
        v = self.as_lin(self.rv(e['e']), e)
        if isinstance(v, Top):
            return v
        t = self.T(e['t'])
        if op == '-':
            return self.overflow(v.scale(-1), t, e) if t.get('sg') else self.wrap(v.scale(-1), t)
        if op == '+':
            return v
        if op == '~':
            return self.wrap(v.scale(-1) - 1, t)
        return self.top('unary ' + op, e)

    def ptr_add(self, p, d, node):
        if isinstance(p, Ptr) and p.path and p.path[-1][0] == 'i':
            return Ptr(p.cell, p.path[:-1] + (('i', p.path[-1][1] + d),))
        if isinstance(p, Ptr) and p.path and p.path[-1][0] == 'm' and d.const is not None:
            m = self.load(Ptr(p.cell, p.path[:-1]), node)
            if not isinstance(m, MapV):
                return self.top('map iterator', node)
            i = m.pos(p.path[-1][1])
            self.oblige(i is not None, 'iterator of a removed map entry advanced', node)
            self.oblige(0 <= i + d.c <= len(m.ents), 'map iterator moved outside the map', node)
            return Ptr(p.cell, p.path[:-1] + (m.key(i + d.c),))
        if isinstance(p, Str):
            return self.str_sub(p, d, None, node)
        return self.top('pointer arithmetic', node)

    def e_bin(self, e):
        op = e['op']
        if op == '&&':
            return L(int(self.truth(self.rv(e['a']), e) and self.truth(self.rv(e['b']), e)))
        if op == '||':
            return L(int(self.truth(self.rv(e['a']), e) or self.truth(self.rv(e['b']), e)))
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        if op in ('.*', '->*'):
            return self.member_ptr(e)[0]
        a = self.rv(e['a'])
        b = self.rv(e['b'])
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return L(int(self.compare(op, a, b, e)))
        t = self.T(e['t'])
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, Str):
            if op == '+':
                return self.ptr_add(a, b, e) if isinstance(a, (Ptr, Str)) else self.ptr_add(b, a, e)
            if op == '-' and isinstance(b, Lin):
                return self.ptr_add(a, b.scale(-1), e)
            if op == '-' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.cell == b.cell and a.path[:-1] == b.path[:-1]:
                return a.path[-1][1] - b.path[-1][1]
            return self.top('pointer arithmetic', e)
        return self.arith(op, self.as_lin(a, e), self.as_lin(b, e), t, e)

    def member_ptr(self, e):
        """(location or method, object) denoted by  a.*b  or  a->*b."""
        p = self.rv(e['a']) if e['op'] == '->*' else self.ev(e['a'])
        m = self.rv(e['b'])
        if isinstance(p, UPtr):
            p = p.p()
        if isinstance(p, (Obj, Seq)):
            p = self.alloc(p, 't')
        if isinstance(m, Fn):
            return m, p
        if not isinstance(m, MPtr) or not isinstance(p, Ptr):
            self.taint('pointer to member')
            return self.top('pointer to member', e), p
        if p.cell is None:
            self.oblige(False, 'null pointer dereferenced', e)
        q = p.ext(('f', m.f))
        return (q if e.get('lv') else self.load(q, e)), p

    def e_assign(self, e):
        # C++17: right operand first
        v = self.ev(e['b'])
        if e['b'].get('lv') and isinstance(v, Ptr):
            v = self.load(v, e)
        p = self.ev(e['a'])
        if e['a'].get('bits') and isinstance(v, Lin):
            if not self.T(e['a']['t']).get('sg'):
                v = self.mod(v, 1 << e['a']['bits'])
        self.store(p, v, e)
        return p

    def e_cassign(self, e):
        p = self.ev(e['a'])
        a = self.load(p, e)
        b = self.rv(e['b'])
        op = e['op'][:-1]
        if isinstance(a, Ptr):
            self.store(p, self.ptr_add(a, b if op == '+' else b.scale(-1), e), e)
            return p
        ct = self.T(e.get('ct', e['t']))
        crt = self.T(e.get('crt', e['t']))
        a = self.as_lin(a, e)
        b = self.as_lin(b, e)
        if isinstance(a, Lin):
            a = self.wrap(a, ct)
        r = self.arith(op, a, b, crt, e)
        if isinstance(r, Lin):
            r = self.wrap(r, self.T(e['t']))
            if e['a'].get('bits'):
                r = self.mod(r, 1 << e['a']['bits'])
        self.store(p, r, e)
        return p

    def e_cond(self, e):
        if self.truth(self.rv(e['c']), e):
            return self.ev(e['a'])
        return self.ev(e['b'])

    def e_sub(self, e):
        a = self.rv(e['a']) if self.T(e['a']['t'])['k'] == 'ptr' else self.ev(e['a'])
        b = self.as_lin(self.rv(e['b']), e)
        if isinstance(a, Top) or isinstance(b, Top):
            return self.top('subscript', e)
        if isinstance(a, Str):
            return self.alloc(self.char_at(a, b, e), 't')
        if isinstance(a, Ptr):
            if a.cell is None:
                self.oblige(False, 'null pointer dereferenced', e)
            return self.ptr_add(a, b, e)
        return self.top('subscript of %r' % (a,), e)

    def e_lambda(self, e):
        caps = []
        for c in e['caps']:
            if c.get('this') or c.get('starthis'):
                caps.append(('this', self.st.env.get('this')))
            else:
                p = self.st.env.get(c['id'])
                if p is None and c.get('e'):
                    v = self.ev(c['e'])
                    p = v if isinstance(v, Ptr) and c.get('ref') else self.alloc(v, 'c')
                elif not c.get('ref') and p is not None:
                    p = self.alloc(self.load(p, e), 'c')
                caps.append((c['id'], p))
        return Lam(e, tuple(caps))

    def accepts(self, params, args, tids):
        """Do the parameters have exactly the types of the arguments?"""
        if len(params) != len(args):
            return False
        for i, (q, a) in enumerate(zip(params, args)):
            t = self.bare(q['t'])
            if tids and i < len(tids) and tids[i] is not None:
                if self.bare(tids[i]) != t:
                    return False
            else:
                v = self.peek(a) if isinstance(a, Ptr) and a.cell is not None else a
                if isinstance(v, Obj) and v.cls != self.T(self.deref(q['t'])).get('rec'):
                    return False
        return True

    def deref(self, tid):
        while self.T(tid)['k'] == 'ref':
            tid = self.T(tid)['to']
        return tid

    def bare(self, tid):
        s = self.T(self.deref(tid))['s']
        return s[6:] if s.startswith('const ') else s

    def call_lambda(self, lam, args, node, usr=None, tids=None):
        e = lam.node
        params, body = e.get('params'), e.get('body')
        if e.get('generic'):
            ins = [i for i in e['insts'] if usr is None or i['usr'] == usr] or e['insts']
            if len(ins) > 1:
                ins = [i for i in ins if self.accepts(i['params'], args, tids)] or ins
            if not ins:
                return self.top('generic lambda', node)
            params, body = ins[0]['params'], ins[0].get('body')
        st = self.st
        saved = st.env
        st.env = dict(saved)
        for k, p in lam.caps:
            if p is not None:
                st.env[k] = p
        for p, a in zip(params, args):
            self.bind(p['id'], p['t'], self.by_value(p['t'], a, node))
        ret = VOID
        try:
            self.exec(body)
        except ReturnX as r:
            ret = r.v
        self.st.env = saved
        return ret

    def by_value(self, tid, a, node):
        """An argument that a library algorithm passes as a reference to an element."""
        if isinstance(a, Ptr) and a.cell is not None:
            t = self.T(tid)
            if t['k'] in ('int', 'bool', 'enum', 'float') or (t['k'] == 'rec' and (t.get('repo') or 'iterator' not in t['s'])):
                return self.load(a, node)
        return a

    def invoke(self, f, args, node, tids=None):
        """Call an abstract callable value."""
        if isinstance(f, Ptr):
            f = self.load(f, node)
        if isinstance(f, Lam):
            return self.call_lambda(f, args, node, tids=tids)
        if isinstance(f, MPtr) and len(args) == 1:
            p = args[0]
            if isinstance(p, Ptr):
                v = self.load(p, node)
                return v.ext(('f', f.f)) if isinstance(v, Ptr) else p.ext(('f', f.f))
        if isinstance(f, Fn) and f.fn.get('cls') is not None and not f.fn.get('static') and args:
            p = args[0] if isinstance(args[0], Ptr) else self.alloc(args[0], 't')
            return self.call(f.fn, p, args[1:], node)
        if isinstance(f, Fn):
            d = self.p.funcs.get(f.fn['usr'])
            if d is not None:
                args = [self.by_value(q['t'], a, node) for q, a in zip(d['params'], args)] + args[len(d['params']):]
            return self.call(f.fn, None, args, node)
        if isinstance(f, Obj):
            lams = [(i['params'], x) for n, x in f.f.items() if n.startswith('<lambda') for i in (x.node['insts'] if x.node.get('generic') else [x.node])]
            if lams:
                ok = [x for q, x in lams if self.accepts(q, args, tids)]
                return self.call_lambda(ok[0], args, node, tids=tids) if ok else self.top('call of an overload set', node)
            fs = self.p.find(f.cls + '::operator()')
            if len(fs) > 1:
                fs = [d for d in fs if self.accepts(d['params'], args, tids)] or fs
            if fs:
                args = [self.by_value(q['t'], a, node) for q, a in zip(fs[0]['params'], args)]
                return self.call_def(fs[0], self.alloc(f, 't'), args, node)
            if f.cls in ('std::less', 'std::greater', 'std::equal_to', 'std::not_equal_to'):
                a, b = [self.load(x, node) if isinstance(x, Ptr) else x for x in args]
                if f.cls == 'std::not_equal_to':
                    return L(int(not self.value_eq(a, b, node)))
                if f.cls == 'std::less':
                    return L(int(self.value_lt(a, b, node)))
                if f.cls == 'std::greater':
                    return L(int(self.value_lt(b, a, node)))
                return L(int(self.value_eq(a, b, node)))
        return self.top('call of unknown callable', node)

    def e_call(self, e):
        fn = e.get('fn')
        if fn is None:
            c = e.get('callee')
            while c and c['k'] == 'paren':
                c = c['e']
            if c and c['k'] == 'bin' and c['op'] in ('.*', '->*'):
                m, p = self.member_ptr(c)
                args = [self.ev(a) for a in e['a']]
                if not isinstance(m, Fn):
                    self.taint('call through a pointer to member')
                    return self.top('call through a pointer to member', e)
                return self.call(m.fn, p, args, e)
            f = self.rv(c) if c else Top('callee')
            args = [self.ev(a) for a in e['a']]
            if isinstance(f, Ptr):
                f = self.load(f, e)
            return self.invoke(f, args, e)
        this = None
        if 'obj' in e:
            o = e['obj']
            this = self.ev(o)
            if e.get('arrow'):
                if o.get('lv') and isinstance(this, Ptr):
                    this = self.load(this, e)
                if isinstance(this, UPtr):
                    this = this.p()
                if isinstance(this, Ptr) and this.cell is None:
                    self.oblige(False, 'null pointer dereferenced', e, 'member call ' + fn['n'])
            elif not o.get('lv'):
                this = self.alloc(this, 't')
        if fn.get('static'):
            this = None
        if e.get('opcall') == '=' and this is not None:
            # right operand of an assignment is evaluated first; operands here are pure locations
            pass
        args = [self.ev(a) for a in e['a']]
        return self.call(fn, this, args, e)

    def call(self, fn, this, args, e):
        if isinstance(this, Top):
            self.taint(this.why)
            return self.top('method of unknown object', e)
        if fn['n'] == 'operator()' and isinstance(this, Ptr):
            f = self.load(this, e)
            if isinstance(f, Lam):
                return self.call_lambda(f, args, e, fn['usr'])
        elif fn['n'].startswith('operator ') and isinstance(this, Ptr) and this.cell is not None:
            f = self.load(this, e)
            if isinstance(f, Lam):      # conversion of a captureless lambda to a function pointer
                return f
        if fn.get('repo'):
            d = self.p.funcs.get(fn['usr'])
            if fn.get('virt') and this is not None and not e.get('nonvirt'):
                v = self.load(this, e)
                if isinstance(v, Obj):
                    d2 = self.dispatch(v.cls, fn['usr'])
                    if d2 is not None:
                        d = d2
            if d is None:
                h = self.hooks.get(fn['q'])
                if h:
                    return h(self, fn, this, args, e)
                return self.top('no definition of ' + fn['q'], e)
            return self.call_def(d, this, args, e)
        q = fn['q']
        h = self.hooks.get(q) or self.lib.get(q)
        if h is None:
            h = self.lib.get(fn['n']) if '::' not in q else None
        if h is None:
            from . import lib
            h = lib.lookup(self, fn)
        if h is not None and q.startswith('std::') and q.count('::') == 1 and fn['n'] not in CALLABLES \
                and any(self.is_callable(a) for a in args):
            h = None        # the model knows nothing about the callable
        if h is None:
            # arguments may be modified by an unknown callee
            if self.T(fn['rt'])['k'] == 'void' or (this is not None and not fn.get('constm') and not fn.get('static')) \
                    or any(self.is_callable(a) for a in args):
                self.taint('effects of ' + q)
            for a, pt in zip(args, fn.get('pt', ())):
                t = self.T(pt)
                if t['k'] == 'rec' and isinstance(a, (Ptr, View)):
                    self.taint('effects of ' + q)
                if t['k'] in ('ref', 'ptr') and isinstance(a, Ptr) and a.cell is not None and not self.T(t['to']).get('const'):
                    self.store(a, self.top('modified by ' + q), e)
            return self.top('library function ' + q, e)
        return h(self, fn, this, args, e)

    def is_callable(self, a):
        if isinstance(a, Ptr) and a.cell is not None and not (a.path and a.path[-1][0] in 'im'):
            a = self.st.cells.get(a.cell) if not a.path else a
        return isinstance(a, (Lam, Fn, MPtr)) or (isinstance(a, Obj) and a.cls in FUNCTORS)

    def derives(self, cls, base):
        if cls == base:
            return True
        r = self.p.records.get(cls)
        return r is not None and any(self.derives(self.T(b).get('rec'), base) for b in r['bases'])

    def dispatch(self, cls, usr):
        """Final overrider of virtual method usr for dynamic class cls."""
        todo = [cls]
        while todo:
            c = todo.pop(0)
            r = self.p.records.get(c)
            if not r:
                continue
            for m in r['methods']:
                if m['usr'] == usr and 'body' in self.p.funcs.get(usr, {}):
                    return self.p.funcs[usr]
                if self.overrides(m, usr):
                    return self.p.funcs.get(m['usr'])
            for b in r['bases']:
                bt = self.T(b)
                if bt.get('repo'):
                    todo.append(bt['rec'])
        return None

    def overrides(self, m, usr):
        seen = list(m.get('over', ()))
        while seen:
            o = seen.pop()
            if o == usr:
                return True
            for r in self.p.records.values():
                for mm in r['methods']:
                    if mm['usr'] == o:
                        seen += mm.get('over', [])
        return False

    def e_ctor(self, e):
        t = self.T(e['t'])
        if t['k'] == 'arr':
            n = t['n']
            return Seq([E(self.construct(e)) for _ in range(n)], t['to'])
        return self.construct(e)

    def e_inhctor(self, e):
        return self.top('inherited constructor', e)

    def e_new(self, e):
        if e.get('array'):
            return self.top('array new', e)
        v = self.rv(e['init']) if e.get('init') else self.default_value(e['at'], e)
        return self.alloc(v, 'n')

    def e_delete(self, e):
        self.ev(e['e'])
        return VOID

    # ------------------------------------------------------------------ statements
    def exec(self, s):
        if s is None:
            return
        self.step()
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            raise PathEnd('unknown', 'statement %s at %s' % (s.get('cls', s['k']), self.loc(s)))
        m(s)

    def s_block(self, s):
        ds = [d for x in s['b'] if x and x['k'] == 'decl' for d in x['d']
              if not d.get('static') and self.needs_dtor(d['t'])]
        if not ds:
            for x in s['b']:
                self.exec(x)
            return
        for d in ds:
            self.st.env.pop(d['id'], None)
        try:
            for x in s['b']:
                self.exec(x)
        except (ReturnX, BreakX, ContinueX) as ex:
            self.leave(ds)
            raise ex
        self.leave(ds)

    def leave(self, ds):
        """End of scope: destructors of the variables declared so far, in reverse order."""
        for d in reversed(ds):
            p = self.st.env.pop(d['id'], None)
            if isinstance(p, Ptr):
                self.destroy(p, d['t'])

    def needs_dtor(self, tid):
        c = self._nd.get(tid)
        if c is None:
            self._nd[tid] = False
            c = self._nd[tid] = self._needs_dtor(tid)
        return c

    def dtor_of(self, rec):
        fs = [f for f in self.p.find(rec + '::~' + rec.split('<')[0].split('::')[-1]) if f.get('cls') == rec and 'body' in f and not f.get('defaulted')]
        return fs[0] if fs else None

    def _needs_dtor(self, tid):
        t = self.T(tid)
        if t['k'] == 'arr':
            return self.needs_dtor(t['to'])
        if t['k'] != 'rec':
            return False
        if t.get('repo'):
            if t['rec'] not in self.p.records:
                return False
            if self.dtor_of(t['rec']):
                return True
            r = self.p.records[t['rec']]
            return any(self.needs_dtor(x) for x in list(r['bases']) + [f['t'] for f in r['fields']])
        b = t.get('base')
        args = [a for a in t.get('args', ()) if isinstance(a, int)]
        if b == 'std::unique_ptr' and args:
            if len(args) > 1 and self.T(args[1]).get('base') != 'std::default_delete':
                return True
            return self.needs_dtor(args[0])
        if b == 'std::optional' and args:
            return self.needs_dtor(args[0])
        return False

    def destroy(self, p, tid):
        if not self.needs_dtor(tid) or p.cell not in self.st.cells:
            return
        t = self.T(tid)
        v = self.load(p)
        if t.get('repo') and isinstance(v, Obj):
            f = self.dtor_of(t['rec'])
            if f is not None:
                self.call_def(f, p, [], {'k': 'dtor', 'l': None})
            r = self.p.records[t['rec']]
            for fd in reversed(r['fields']):
                if fd['name'] and self.needs_dtor(fd['t']):
                    self.destroy(p.ext(('f', fd['name'])), fd['t'])
            for b in r['bases']:
                if self.needs_dtor(b):
                    self.destroy(p, b)
        elif isinstance(v, UPtr):
            self.destroy_uptr(v, t)
        elif isinstance(v, Opt) and v.v is not None:
            self.destroy(p.ext(('o',)), t['args'][0])

    def destroy_uptr(self, v, t):
        if v.t is None:
            return
        args = [a for a in t.get('args', ()) if isinstance(a, int)]
        dt = self.T(args[1]) if len(args) > 1 else None
        if dt is None or dt.get('base') == 'std::default_delete':
            self.destroy(v.t, args[0])
            return
        d = v.d
        if d is None and dt['k'] == 'rec':
            d = Obj(dt['rec'], {}) if dt.get('repo') else None
        if d is None:
            self.taint('deleter of ' + t['s'][:60])
            return
        self.invoke(d, [v.p()], {'k': 'call', 'l': None})

    def s_null(self, s):
        pass

    def s_expr(self, s):
        v = self.ev(s['e'])

    def s_decl(self, s):
        for d in s['d']:
            self.decl(d)

    def decl(self, d):
        t = self.T(d['t'])
        if d.get('static'):
            key = 'S%d' % d['id']
            if key not in self.st.cells:
                self.static(key, d, t)
            v = self.st.cells[key]
            self.st.env[d['id']] = v if t['k'] == 'ref' and isinstance(v, Ptr) else Ptr(key)
            return
        if t['k'] == 'ref':
            v = self.ev(d['init'])
            self.st.env[d['id']] = v if isinstance(v, Ptr) else self.alloc(v, 't')
        else:
            if d.get('init'):
                v = self.rv(d['init'])
            else:
                v = self.default_value(d['t'], d)
            self.st.env[d['id']] = self.alloc(v, 'v')
        if d.get('bind'):
            base = self.st.env[d['id']]
            for i, b in enumerate(d['bind']):
                if b.get('e') and not b.get('hold'):
                    p = self.ev(b['e'])
                    self.st.env[b['id']] = p if isinstance(p, Ptr) else self.alloc(p, 't')
                else:
                    v = self.load(base)
                    if isinstance(v, Obj) and v.cls == 'std::pair':
                        self.st.env[b['id']] = base.ext(('f', ('first', 'second')[i]))
                    elif isinstance(v, Tup):
                        self.st.env[b['id']] = base.ext(('f', str(i)))
                    else:
                        self.st.env[b['id']] = self.alloc(self.top('binding'), 't')
                if b.get('hold'):
                    self.st.env[b['hold']['id']] = self.st.env[b['id']]

    def static(self, key, d, t):
        """First execution of a static's declaration.  An initialisation which depends on nothing before it is analysed once."""
        def init():
            self.st.cells[key] = ZERO
            if t['k'] == 'ref':
                return self.ev(d['init'])
            return self.rv(d['init']) if d.get('init') else self.default_value(d['t'], d, zero=True)
        c = self.statics.get(key)
        if c is None and self.frame is not None:
            st = self.st
            base = st.copy()
            base.next = 10 ** 9 * (len(self.statics) + 1)
            outs = self.explore(init, base)
            self.st = st
            c = False
            if len(outs) == 1 and outs[0].kind == 'return':
                o = outs[0].st
                if o.ev == st.ev and o.taint == st.taint and o.trace is st.trace and all(o.cells.get(k) is v for k, v in st.cells.items()):
                    c = (outs[0].v, {k: v for k, v in o.cells.items() if k not in st.cells and k != key})
            self.statics[key] = c
        if c:
            for k, v in c[1].items():
                self.st.cells.setdefault(k, v)
            self.st.cells[key] = c[0]
        else:
            self.st.cells[key] = init()

    def cond_of(self, s):
        if s.get('var'):
            self.decl(s['var'])
        return self.truth(self.rv(s['c']), s['c'])

    def s_if(self, s):
        if s.get('init'):
            self.exec(s['init'])
        if self.cond_of(s):
            self.exec(s['t'])
        elif s.get('e'):
            self.exec(s['e'])

    def s_return(self, s):
        if 'e' not in s:
            raise ReturnX(VOID)
        e = s['e']
        raise ReturnX(self.ev(e))

    def s_break(self, s):
        raise BreakX()

    def s_continue(self, s):
        raise ContinueX()

    def s_label(self, s):
        self.exec(s['s'])

    def s_case(self, s):
        self.exec(s['s'])

    def s_default(self, s):
        self.exec(s['s'])

    def s_switch(self, s):
        if s.get('init'):
            self.exec(s['init'])
        if s.get('var'):
            self.decl(s['var'])
        v = self.as_lin(self.rv(s['c']), s)
        body = s['b']['b'] if s['b'] and s['b']['k'] == 'block' else [s['b']]
        # flatten nested labels
        flat = []   # (labels, stmt)
        for st in body:
            labels = []
            while st is not None and st['k'] in ('case', 'default'):
                labels.append(st.get('v') if st['k'] == 'case' else 'default')
                if st['k'] == 'case' and 'v2' in st:
                    labels[-1] = (st['v'], st['v2'])
                st = st['s']
            flat.append((labels, st))
        start = None
        dflt = None
        for i, (ls, _) in enumerate(flat):
            if 'default' in ls:
                dflt = i
        if isinstance(v, Top):
            self.taint(v.why)
            targets = [i for i, (ls, _) in enumerate(flat) if ls] + ([None] if dflt is None else [])
            start = targets[self.choose(len(targets))]
        else:
            for i, (ls, _) in enumerate(flat):
                for l in ls:
                    if l == 'default':
                        continue
                    if isinstance(l, tuple):
                        if self.branch('le0', v.scale(-1) + l[0], s) and self.branch('le0', v - l[1], s):
                            start = i
                            break
                    elif self.branch('eq0', v - l, s):
                        start = i
                        break
                if start is not None:
                    break
            if start is None:
                start = dflt
        if start is None:
            return
        try:
            for ls, st in flat[start:]:
                self.exec(st)
        except BreakX:
            pass

    def loop(self, s, cond, body, inc, first=True):
        """Iterate; conditions that the facts decide do not count against the unrolling bound."""
        n = 0
        sd = 0
        total = 0
        while True:
            if first or total:
                if cond is not None:
                    before = len(self.frame.dec)
                    s0 = self.symdec
                    c = cond()
                    forked = len(self.frame.dec) != before
                    if not c:
                        return
                    if forked:
                        n += 1
                    elif self.symdec != s0:
                        sd += 1
                else:
                    sd += 1
            if n > self.unroll or sd > self.unroll + 5:
                raise PathEnd('cut', 'unrolling bound at %s' % self.loc(s))
            total += 1
            if total > 20000:
                raise PathEnd('unknown', 'loop does not settle at %s' % self.loc(s))
            try:
                body()
            except BreakX:
                return
            except ContinueX:
                pass
            if inc is not None:
                inc()

    def s_while(self, s):
        self.loop(s, lambda: self.cond_of(s), lambda: self.exec(s['b']), None)

    def s_do(self, s):
        self.loop(s, lambda: self.truth(self.rv(s['c']), s), lambda: self.exec(s['b']), None, first=False)

    def s_for(self, s):
        if s.get('init'):
            self.exec(s['init'])
        self.loop(s, (lambda: self.cond_of(s)) if s.get('c') else None, lambda: self.exec(s['b']),
                  (lambda: self.ev(s['inc'])) if s.get('inc') else None)

    def s_rfor(self, s):
        if s.get('init'):
            self.exec(s['init'])
        self.exec(s['range'])
        self.exec(s['begin'])
        self.exec(s['end'])

        def body():
            self.exec(s['var'])
            self.exec(s['b'])
        self.loop(s, lambda: self.truth(self.rv(s['c']), s), body, lambda: self.ev(s['inc']))

    def s_try(self, s):
        self.exec(s['b'])


class SeqEqFact:
    """Meaning of an undecided sequence comparison for witness valuations."""

    def __init__(self, ip, a, b, eq):
        self.ip, self.a, self.b, self.eq = ip, a, b, eq
        self.key = (a, b, eq)

    def __eq__(self, o):
        return isinstance(o, SeqEqFact) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __call__(self, val):
        x, y = val_seq(val, self.a), val_seq(val, self.b)
        if x is None or y is None:
            return False
        return (x == y) == self.eq


def val_seq(val, seq, limit=4096):
    """Concrete element list of a sequence of integers under a valuation."""
    out = []
    if seq.log:
        return None
    for p in seq.parts:
        if isinstance(p, E):
            if not isinstance(p.v, Lin):
                return None
            out.append(val.lin(p.v))
        else:
            n = val.lin(p.n)
            if n > limit or n < 0:
                return None
            if not isinstance(p, S):
                return None
            off = val.lin(p.off)
            for i in range(n):
                a = atom(('el', p.arr, Lin(off + i)), 0, 255)
                out.append(val.atom(a))
    return out


class UPtr:
    """std::unique_ptr value."""
    __slots__ = ('t', 'd')

    def __init__(self, t, d=None):
        self.d = d
        self.t = t if (t is not None and t.cell is not None) else None

    def p(self):
        return NULL if self.t is None else self.t

    def __eq__(self, o):
        return isinstance(o, UPtr) and self.t == o.t

    def __hash__(self):
        return hash(('u', self.t))

    def __repr__(self):
        return 'uptr(%r)' % (self.t,)


def count(n):
    if isinstance(n, dict):
        c = 1 if 'k' in n else 0
        for v in n.values():
            if isinstance(v, (dict, list)):
                c += count(v)
        return c
    if isinstance(n, list):
        return sum(count(x) for x in n)
    return 0
