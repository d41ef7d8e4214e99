"""Numeric abstract domain: integer linear expressions over canonical atoms with
conjunctions of linear bounds, congruence/bit-field normal forms and opaque atoms.

An atom is an interned tuple.  Kinds:
  ('s', name)            symbolic input
  ('el', array, Lin)     element of a symbolic array
  ('mod', Lin, m)        Lin mod m (mathematical, 0 <= . < m)
  ('div', Lin, m)        floor(Lin / m)
  ('xor'|'and'|'mul'|..., ...)  uninterpreted, canonically ordered
"""
import random


class Atom:
    __slots__ = ('id', 'key', 'rng', 'info')
    table = {}
    lst = []

    def __repr__(self):
        k = self.key
        if k[0] == 's':
            return k[1]
        if k[0] == 'el':
            return '%s[%r]' % (k[1], k[2])
        return '%s(%s)' % (k[0], ','.join(map(repr, k[1:])))


INF = float('inf')


def atom(key, lo=-INF, hi=INF):
    a = Atom.table.get(key)
    if a is not None and a.rng != (lo, hi) and key[0] in ('s', 'el'):
        key = key + ((lo, hi),)
        a = Atom.table.get(key)
    if a is None:
        a = Atom()
        a.id = len(Atom.lst)
        a.key = key
        a.rng = (lo, hi)
        a.info = None
        Atom.table[key] = a
        Atom.lst.append(a)
    return a


class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, tuple((a.id, k) for a, k in t)))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        s = []
        for a, k in self.t:
            s.append(('%r' % a) if k == 1 else '%d*%r' % (k, a))
        if self.c or not s:
            s.append(str(self.c))
        return '+'.join(s).replace('+-', '-')

    @property
    def const(self):
        return None if self.t else self.c

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        d = dict(self.t)
        for a, k in o.t:
            d[a] = d.get(a, 0) + k
        return mk(self.c + o.c, d)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + o.scale(-1)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((a, x * k) for a, x in self.t))

    def atoms(self):
        return [a for a, _ in self.t]


def mk(c, d):
    return Lin(c, tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda p: p[0].id)))


def L(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, bool):
        return Lin(int(x))
    if isinstance(x, int):
        return Lin(x)
    if isinstance(x, Atom):
        return Lin(0, ((x, 1),))
    raise TypeError(x)


def sym(name, lo=-INF, hi=INF):
    return L(atom(('s', name), lo, hi))


ZERO, ONE = Lin(0), Lin(1)


def direction(l):
    """(dir, k, c): l = k*dir + c with dir primitive and positive leading coefficient."""
    if not l.t:
        return None, 0, l.c
    from math import gcd
    g = 0
    for _, k in l.t:
        g = gcd(g, abs(k))
    if l.t[0][1] < 0:
        g = -g
    return tuple((a, k // g) for a, k in l.t), g, l.c


def subatoms(a, out):
    """Atoms reachable inside an atom (transitively)."""
    for x in a.key[1:]:
        if isinstance(x, Lin):
            for b in x.atoms():
                if b not in out:
                    out.add(b)
                    subatoms(b, out)
    return out


def drange(k, x, y):
    """interval of a binary operation from operand intervals"""
    (l1, h1), (l2, h2) = x, y
    if k == 'and':
        if l1 >= 0 and l2 >= 0:
            return 0, min(h1, h2)
        if l1 >= 0:
            return 0, h1
        if l2 >= 0:
            return 0, h2
    elif k == 'xor':
        if l1 >= 0 and l2 >= 0 and h1 != INF and h2 != INF:
            return 0, (1 << max(int(h1).bit_length(), int(h2).bit_length())) - 1
    elif k == 'mul':
        if l1 >= 0 and l2 >= 0 and h1 != INF and h2 != INF:
            return l1 * l2, h1 * h2
        if -INF not in (l1, l2) and INF not in (h1, h2):
            c = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
            return min(c), max(c)
    return -INF, INF


def datom(k, a, b):
    """derived atom with the range its operands always have"""
    e = Facts()
    return atom((k, a, b), *drange(k, e.bounds(a), e.bounds(b)))


def divatom(r, m):
    lo, hi = Facts().bounds(r)
    return atom(('div', r, m), -INF if lo == -INF else lo // m, INF if hi == INF else hi // m)


_diff = {}


def isdiff(d):
    r = _diff.get(d)
    if r is None:
        r = _diff[d] = (len(d) == 1 and d[0][1] == 1) or (len(d) == 2 and d[0][1] == 1 and d[1][1] == -1)
    return r


class Facts:
    """Conjunction of linear bounds (keyed by direction), boolean propositions and
    universally quantified history facts.  Copy-on-write."""
    __slots__ = ('lin', 'prop', 'fa', 'own', 'cache', 'ne', 'dbm', 'nodes')

    def __init__(self):
        self.lin = {}
        self.dbm = {}          # (a, b) -> w: a - b <= w, closed; None stands for zero
        self.nodes = ()
        self.prop = {}
        self.fa = ()
        self.ne = frozenset()
        self.own = True
        self.cache = {}

    def copy(self):
        f = Facts.__new__(Facts)
        f.lin, f.prop, f.fa, f.ne = self.lin, self.prop, self.fa, self.ne
        f.dbm, f.nodes = self.dbm, self.nodes
        self.own = f.own = False
        f.cache = self.cache
        return f

    def _w(self):
        if not self.own:
            self.lin = dict(self.lin)
            self.prop = dict(self.prop)
            self.dbm = dict(self.dbm)
            self.own = True
        self.cache = {}

    # -- difference bounds (zone domain), incrementally closed
    def _node(self, a):
        if a in self.nodes:
            return
        d = self.dbm
        lo, hi = a.rng
        for x in self.nodes:
            w = d.get((None, x))
            if w is not None and hi != INF:
                d[(a, x)] = hi + w
            w = d.get((x, None))
            if w is not None and lo != -INF:
                d[(x, a)] = w - lo
        if hi != INF:
            d[(a, None)] = hi
        if lo != -INF:
            d[(None, a)] = -lo
        self.nodes = self.nodes + (a,)

    def _edge(self, a, b, w):
        """a - b <= w; False when the zone becomes empty."""
        d = self.dbm
        o = d.get((a, b))
        if o is not None and o <= w:
            return True
        r = d.get((b, a))
        if r is not None and r + w < 0:
            return False
        ns = self.nodes + (None,)
        pre = [(x, 0 if x is a else d.get((x, a))) for x in ns]
        suf = [(x, 0 if x is b else d.get((b, x))) for x in ns]
        pre = [(x, v) for x, v in pre if v is not None]
        suf = [(x, v) for x, v in suf if v is not None]
        for x, v in pre:
            v += w
            for y, u in suf:
                if x is y:
                    continue
                t = v + u
                o = d.get((x, y))
                if o is None or t < o:
                    d[(x, y)] = t
        return True

    def _zone(self, d, lo, hi):
        if len(d) == 1:
            a, b = d[0][0], None
            self._node(a)
        else:
            a, b = d[0][0], d[1][0]
            self._node(a)
            self._node(b)
        return (hi == INF or self._edge(a, b, hi)) and (lo == -INF or self._edge(b, a, -lo))

    def zbound(self, d):
        if len(d) == 1:
            a, b = d[0][0], None
        else:
            a, b = d[0][0], d[1][0]
        hi = self.dbm.get((a, b))
        lo = self.dbm.get((b, a))
        return (-INF if lo is None else -lo), (INF if hi is None else hi)

    # -- bounds --------------------------------------------------------------
    def abound(self, a):
        lo, hi = a.rng
        b = self.lin.get(((a, 1),))
        if b:
            lo, hi = max(lo, b[0]), min(hi, b[1])
        if a in self.nodes:
            x, y = self.zbound(((a, 1),))
            lo, hi = max(lo, x), min(hi, y)
        k = a.key[0]
        if k == 'div':
            l2, h2 = self.bounds(a.key[1], 1)
            m = a.key[2]
            if l2 != -INF:
                lo = max(lo, l2 // m)
            if h2 != INF:
                hi = min(hi, h2 // m)
        elif k in ('and', 'xor', 'mul') and lo != hi:
            x, y = drange(k, self.bounds(a.key[1], 1), self.bounds(a.key[2], 1))
            lo, hi = max(lo, x), min(hi, y)
        return lo, hi

    def ibound(self, l):
        lo = hi = l.c
        for a, k in l.t:
            x, y = self.abound(a)
            if k > 0:
                lo += k * x if x != -INF else -INF
                hi += k * y if y != INF else INF
            else:
                lo += k * y if y != INF else -INF
                hi += k * x if x != -INF else INF
        return lo, hi

    def bounds(self, l, depth=3):
        key = (l, depth)
        r = self.cache.get(key)
        if r is not None:
            return r
        r = self._bounds(l, depth)
        self.cache[key] = r
        return r

    def _bounds(self, l, depth):
        if not l.t:
            return l.c, l.c
        lo, hi = self.ibound(l)
        d, k, c = direction(l)
        b = self.lin.get(d)
        isd = isdiff(d)
        if isd:
            x, y = self.zbound(d)
            b = (max(b[0], x), min(b[1], y)) if b else (x, y)
        if b:
            x, y = b
            if k > 0:
                lo = max(lo, k * x + c if x != -INF else -INF)
                hi = min(hi, k * y + c if y != INF else INF)
            else:
                lo = max(lo, k * y + c if y != INF else -INF)
                hi = min(hi, k * x + c if x != -INF else INF)
        if depth > 0 and lo != hi and (len(l.t) > 1 or lo == -INF or hi == INF or depth >= 3):
            myatoms = set(a for a, _ in l.t)
            for fd, (x, y) in self.lin.items():
                if len(fd) < 2 or fd == d or (isd and isdiff(fd)):
                    continue
                sh = None
                for a, fk in fd:
                    if a in myatoms:
                        sh = (a, fk)
                        break
                if sh is None:
                    continue
                for a, fk in fd:
                    if a not in myatoms:
                        continue
                    lk = dict(l.t)[a]
                    if lk % fk:
                        continue
                    q = lk // fk
                    # l = q*fd + rest
                    rest = l - Lin(0, tuple((b2, k2 * q) for b2, k2 in fd))
                    if len(rest.t) > len(l.t) + 1:
                        continue
                    rl, rh = self.bounds(rest, depth - 1)
                    if q > 0:
                        nlo = rl + q * x if rl != -INF and x != -INF else -INF
                        nhi = rh + q * y if rh != INF and y != INF else INF
                    else:
                        nlo = rl + q * y if rl != -INF and y != INF else -INF
                        nhi = rh + q * x if rh != INF and x != -INF else INF
                    if nlo > lo:
                        lo = nlo
                    if nhi < hi:
                        hi = nhi
        return lo, hi

    def add(self, lo, l, hi):
        """lo <= l <= hi.  Returns False when the conjunction becomes empty."""
        if not l.t:
            return lo <= l.c <= hi
        x, y = self.bounds(l)
        if hi < x or lo > y:
            return False
        if lo <= x and hi >= y:
            return True
        d, k, c = direction(l)
        if k > 0:
            nlo = -((c - lo) // k) if lo != -INF else -INF   # ceil((lo-c)/k)
            nhi = (hi - c) // k if hi != INF else INF
        else:
            nhi = (c - lo) // (-k) if lo != -INF else INF
            nlo = -((hi - c) // (-k)) if hi != INF else -INF
        b = self.lin.get(d, (-INF, INF))
        nlo, nhi = max(nlo, b[0]), min(nhi, b[1])
        dl = Lin(0, d)
        il, ih = self.ibound(dl)
        if nlo > min(nhi, ih) or nhi < il:
            return False
        self._w()
        self.lin[d] = (nlo, nhi)
        # disequalities at the border
        for nd in self.ne:
            d2, k2, c2 = direction(nd)
            if d2 == d and (-c2) % k2 == 0:
                v = (-c2) // k2
                b = self.lin[d]
                if b[0] == v:
                    self.lin[d] = (v + 1, b[1])
                elif b[1] == v:
                    self.lin[d] = (b[0], v - 1)
                if self.lin[d][0] > self.lin[d][1]:
                    return False
        if isdiff(d):
            return self._zone(d, *self.lin[d])
        return True

    def add_ne(self, l):
        x, y = self.bounds(l)
        if x == y == 0:
            return False
        if x > 0 or y < 0:
            return True
        if x == 0:
            return self.add(1, l, INF)
        if y == 0:
            return self.add(-INF, l, -1)
        self._w()
        self.ne = self.ne | {l}
        return True

    def eq0(self, l):
        """True / False / None for l == 0."""
        x, y = self.bounds(l)
        if x == y == 0:
            return True
        if x > 0 or y < 0:
            return False
        if l in self.ne or l.scale(-1) in self.ne:
            return False
        from math import gcd
        g = 0
        for _, k in l.t:
            g = gcd(g, abs(k))
        if g and l.c % g:
            return False
        # l = k*dir + c with congruence
        return None

    def le0(self, l):
        x, y = self.bounds(l)
        if y <= 0:
            return True
        if x > 0:
            return False
        return None

    def facts_list(self):
        return [(lo, Lin(0, d), hi) for d, (lo, hi) in self.lin.items()]


# -- witness valuations ------------------------------------------------------
class Valuation:
    """Assignment of integers to base atoms; derived atoms are computed."""

    def __init__(self, rnd):
        self.v = {}
        self.rnd = rnd
        self.memo = {}
        self.els = {}

    def set(self, a, x):
        self.v[a] = x
        self.memo = {}

    def base(self, a):
        if a not in self.v:
            lo, hi = a.rng
            self.v[a] = pick(self.rnd, lo, hi)
        return self.v[a]

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        k = a.key
        if k[0] == 's':
            r = self.base(a)
        elif k[0] == 'el':
            i = self.lin(k[2])
            kk = (k[1], i)
            if kk not in self.els:
                self.els[kk] = pick(self.rnd, *a.rng)
            r = self.els[kk]
        elif k[0] == 'mod':
            r = self.lin(k[1]) % k[2]
        elif k[0] == 'div':
            r = self.lin(k[1]) // k[2]
        elif k[0] == 'xor':
            r = self.lin(k[1]) ^ self.lin(k[2])
        elif k[0] == 'and':
            r = self.lin(k[1]) & self.lin(k[2])
        elif k[0] == 'mul':
            r = self.lin(k[1]) * self.lin(k[2])
        elif k[0] == 'shl':
            r = self.lin(k[1]) << max(0, min(64, self.lin(k[2])))
        elif k[0] == 'vdiv':
            x, y = self.lin(k[1]), self.lin(k[2])
            r = (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1) if y else 0
        elif k[0] == 'vmod':
            x, y = self.lin(k[1]), self.lin(k[2])
            r = (abs(x) % abs(y)) * (1 if x >= 0 else -1) if y else 0
        else:
            args = tuple(self.lin(x) if isinstance(x, Lin) else x for x in k)
            if args not in self.els:
                self.els[args] = pick(self.rnd, *a.rng)
            r = self.els[args]
        self.memo[a] = r
        return r

    def lin(self, l):
        r = l.c
        for a, k in l.t:
            r += k * self.atom(a)
        return r


def pick(rnd, lo, hi):
    if lo == -INF:
        lo = -(1 << 20) if hi == INF else hi - (1 << 20)
    if hi == INF:
        hi = lo + (1 << 20)
    if lo >= hi:
        return lo
    c = rnd.random()
    if c < 0.2:
        return lo
    if c < 0.35:
        return hi
    if c < 0.5:
        return min(hi, lo + 1 + int(rnd.random() * 4))
    return rnd.randint(lo, hi)


def find_witness(facts, extra=(), tries=400, seed=1, relevant=()):
    """Search a valuation satisfying all facts and the extra constraints (lo, Lin, hi);
    'ne' constraints are Lin != 0.  Local repair search; None when none was found."""
    cons = facts.facts_list() + list(extra)
    nes = list(facts.ne)
    rnd = random.Random(seed)
    for t in range(tries):
        val = Valuation(rnd)
        for step in range(60):
            bad = []
            for c in cons:
                x = val.lin(c[1])
                if not (c[0] <= x <= c[2]):
                    bad.append((c, x))
            # intrinsic ranges of base atoms are respected by construction except after repair
            badne = [l for l in nes if val.lin(l) == 0]
            if not bad and not badne:
                ok = True
                for a, x in list(val.v.items()):
                    if not (a.rng[0] <= x <= a.rng[1]):
                        ok = False
                if ok and _foralls_ok(facts, val):
                    return val
                break
            if bad:
                (lo, l, hi), x = rnd.choice(bad)
                target = lo if x < lo else hi
                if rnd.random() < 0.3 and lo != hi:
                    target = pick(rnd, lo, hi)
                _repair(val, l, x, target, rnd)
            else:
                l = rnd.choice(badne)
                _repair(val, l, 0, rnd.choice([-1, 1, 2, 5]), rnd)
    return None


def _repair(val, l, x, target, rnd):
    cand = [(a, k) for a, k in l.t]
    rnd.shuffle(cand)
    for a, k in cand:
        d = target - x
        q = d // k if d % k == 0 else (d // k) + rnd.choice([0, 1])
        if q == 0 and d:
            q = 1 if (d > 0) == (k > 0) else -1
        if _adjust(val, a, val.atom(a) + q, rnd):
            return True
    return False


def _adjust(val, a, want, rnd):
    """Try to change base atoms so that atom a evaluates to want."""
    k = a.key
    lo, hi = a.rng
    if not (lo <= want <= hi):
        want = max(lo, min(hi, want))
    if k[0] == 's':
        val.set(a, want)
        return True
    if k[0] == 'el':
        val.els[(k[1], val.lin(k[2]))] = want
        val.memo = {}
        return True
    if k[0] in ('mod', 'div'):
        inner = k[1]
        x = val.lin(inner)
        m = k[2]
        tgt = x - (x % m) + want if k[0] == 'mod' else want * m + x % m
        return _repair(val, inner, x, tgt, rnd)
    if k[0] in ('xor', 'and', 'mul', 'vdiv', 'vmod', 'shl'):
        inner = k[1] if isinstance(k[1], Lin) and k[1].t else k[2]
        if isinstance(inner, Lin) and inner.t:
            if k[0] == 'xor':
                other = val.lin(k[2] if inner is k[1] else k[1])
                return _repair(val, inner, val.lin(inner), want ^ other, rnd)
            return _repair(val, inner, val.lin(inner), val.lin(inner) + rnd.choice([-1, 1, 7, -7]), rnd)
        return False
    args = tuple(val.lin(x) if isinstance(x, Lin) else x for x in k)
    val.els[args] = want
    val.memo = {}
    return True


def _foralls_ok(facts, val):
    for fa in facts.fa:
        if not fa(val):
            return False
    return True


def empty(facts, limit=6000):
    """Emptiness test of the linear part (Fourier-Motzkin elimination with integer
    tightening).  True only when the conjunction certainly has no member."""
    base = set()
    atoms = {}
    if not _gather(facts, base, atoms, [(l, lo, hi) for lo, l, hi in facts.facts_list()]):
        return True
    if _refuted(base, atoms, limit):
        return True
    # disequalities: each leaves two sides; a refuted side makes the other a consequence
    nes = [l for l in facts.ne if len(l.t) <= 4]
    if len(nes) > 24:
        nes = []
    changed = True
    while changed and nes:
        changed = False
        for l in list(nes):
            sides = []
            for lo, hi in ((-INF, -1), (1, INF)):
                c, at = set(base), dict(atoms)
                if _gather(facts, c, at, [(l, lo, hi)]) and not _refuted(c, at, limit):
                    sides.append((c, at))
            if not sides:
                return True
            if len(sides) == 1:
                base, atoms = sides[0]
                nes.remove(l)
                changed = True
    return False


def _gather(facts, cons, atoms, todo):
    """Add lo <= l <= hi, the bounds of the atoms involved and the definitions of divisions and remainders."""
    from math import gcd

    def addc(l):
        g = 0
        for a, k in l.t:
            if a.id not in atoms:
                atoms[a.id] = a
                new.append(a)
            g = gcd(g, abs(k))
        if not g:
            return l.c <= 0
        cons.add((tuple(sorted((a.id, k // g) for a, k in l.t)), -((-l.c) // g)))
        return True
    new = []
    for l, lo, hi in todo:
        if hi != INF and not addc(l - int(hi)):
            return False
        if lo != -INF and not addc(l.scale(-1) + int(lo)):
            return False
    while new:
        a = new.pop()
        lo, hi = facts.abound(a)
        if hi != INF and not addc(L(a) - int(hi)):
            return False
        if lo != -INF and not addc(L(a).scale(-1) + int(lo)):
            return False
        if a.key[0] == 'div':
            r = a.key[1] - L(a).scale(a.key[2])
            addc(r - (a.key[2] - 1))
            addc(r.scale(-1))
        elif a.key[0] == 'mod':
            q = L(divatom(a.key[1], a.key[2]))
            r = a.key[1] - L(a) - q.scale(a.key[2])
            addc(r)
            addc(r.scale(-1))
    return True


def _refuted(cons, atoms, limit):
    from math import gcd
    byvar = set(atoms)
    while byvar:
        best = None
        for v in byvar:
            p = n = 0
            for t, c in cons:
                for i, k in t:
                    if i == v:
                        if k > 0:
                            p += 1
                        else:
                            n += 1
            cost = p * n - p - n
            if best is None or cost < best[0]:
                best = (cost, v)
        v = best[1]
        byvar.discard(v)
        P, N, O = [], [], {}
        for t, c in cons:
            k = dict(t).get(v, 0)
            if k > 0:
                P.append((t, c, k))
            elif k < 0:
                N.append((t, c, -k))
            else:
                if t not in O or O[t] < c:
                    O[t] = c
        if len(P) * len(N) + len(O) > limit:
            return False
        for t1, c1, k1 in P:
            for t2, c2, k2 in N:
                d = {}
                for i, k in t1:
                    d[i] = d.get(i, 0) + k * k2
                for i, k in t2:
                    d[i] = d.get(i, 0) + k * k1
                d.pop(v, None)
                t = [(i, k) for i, k in d.items() if k]
                c = c1 * k2 + c2 * k1
                if not t:
                    if c > 0:
                        return True
                    continue
                g = 0
                for _, k in t:
                    g = gcd(g, abs(k))
                tt = tuple(sorted((i, k // g) for i, k in t))
                cc = -((-c) // g)
                if tt not in O or O[tt] < cc:
                    O[tt] = cc
        cons = set(O.items())
    return any(not t and c > 0 for t, c in cons)
