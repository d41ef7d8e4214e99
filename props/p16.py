"""Status flag lattice."""
from nsa.spec import *
import itertools

EXPLANATION = (
    'Abstract interpretation of the status-flag operations on their complete finite domain, against an independent oracle: '
    'the best abstraction of the set of concrete (entry, current) flag values, where emulation mode forces the two width '
    'bits.  Construction and the setters must yield the best abstraction; merging must contain both operands, keep agreed '
    'known bits, be commutative, idempotent and absorbing.')
ASSUMPTIONS = ['a flag state is entered with the width bits set in emulation mode, as the hardware guarantees']

NAMES = ('B_off', 'B_on', 'B_original', 'B_unknown')
ALL = list(itertools.product(range(4), repeat=4))   # e, m, x, c as indices into NAMES
BITS = list(itertools.product((0, 1), repeat=4))
VALID = [b for b in BITS if not b[0] or (b[1] and b[2])]


def admits(a, entry, cur):
    return a == 3 or (a == 0 and cur == 0) or (a == 1 and cur == 1) or (a == 2 and cur == entry)


def concrete(s, pool=BITS):
    """All (entry, current) flag values the abstract state stands for."""
    return [(en, cu) for en in VALID for cu in pool if all(admits(s[i], en[i], cu[i]) for i in range(4))]


def force(cu):
    e, m, x, c = cu
    return (e, m | e, x | e, c)


def best(pairs):
    out = []
    for i in range(4):
        vs = {cu[i] for _, cu in pairs}
        if vs == {0}:
            out.append(0)
        elif vs == {1}:
            out.append(1)
        elif all(cu[i] == en[i] for en, cu in pairs):
            out.append(2)
        else:
            out.append(3)
    return tuple(out)


def contains(s, pairs):
    return all(admits(s[i], en[i], cu[i]) for en, cu in pairs for i in range(4))


class Flags:
    def __init__(self, ip):
        self.ip = ip
        E = ip.p.enum('nsasm::BitState')
        for n in NAMES:
            if n not in E:
                raise AnalysisError('flag state %s not found' % n)
        self.v = [E[n] for n in NAMES]
        self.back = {v: i for i, v in enumerate(self.v)}

    def make(self, s):
        return self.ip.alloc(self.ip.val(self.ip.new('nsasm::StatusFlags', *[L(self.v[i]) for i in s])), 'flags')

    def raw(self, s, states):
        """a state that may only be reachable through a history of operations"""
        return self.make(s)

    def read(self, f):
        out = []
        for n in ('EBit', 'MBit', 'XBit', 'CBit'):
            v = self.ip.val(self.ip.m(f, n))
            if not isinstance(v, Lin) or v.const is None:
                raise PathEnd('unknown', 'flag bit not constant')
            if v.c not in self.back:
                raise PathEnd('fail', ('flag bits are one of the four states', v.c))
            out.append(self.back[v.c])
        return tuple(out)


def name(s):
    return ','.join('%s=%s' % (k, NAMES[i][2:]) for k, i in zip('emxc', s))


_n = {}


def norm(s):
    if s not in _n:
        _n[s] = best([(en, force(cu)) for en, cu in concrete(s)])
    return _n[s]


def check(c):
    states = sorted({norm(s) for s in ALL})

    for e in range(4):
        def construct(ip, e=e):
            F = Flags(ip)
            for s in [s for s in ALL if s[0] == e]:
                got = F.read(F.make(s))
                ip.require(got == norm(s), 'emulation mode forces the width bits; otherwise the bits are as given',
                           lambda: '%s became %s, specified %s' % (name(s), name(got), name(norm(s))))
        c.scenario('construct, e %s' % NAMES[e], construct)

    for s in states:
        def ops(ip, s=s):
            F = Flags(ip)
            for b in range(4):
                for i, n in ((1, 'SetMBit'), (2, 'SetXBit'), (3, 'SetCBit')):
                    f = F.make(s)
                    ip.m(f, n, L(F.v[b]))
                    t = list(s)
                    t[i] = b
                    got, want = F.read(f), norm(tuple(t))
                    ip.require(got == want, 'setting a bit sets that bit, subject to emulation mode',
                               lambda: '%s, %s(%s): %s, specified %s' % (name(s), n, NAMES[b], name(got), name(want)))
            f = F.make(s)
            ip.m(f, 'SetIncoming')
            got, want = F.read(f), tuple(2 if b == 3 else b for b in s)
            ip.require(got == want, 'on entry every unknown bit is at its original value', lambda: '%s: %s' % (name(s), name(got)))
            f = F.make(s)
            ip.m(f, 'ExchangeCE')
            after = [(en, force((cu[3], cu[1], cu[2], cu[0]))) for en, cu in concrete(s, VALID)]
            got, want = F.read(f), best(after)
            ip.require(contains(got, after), 'exchanging carry and emulation covers every concrete outcome',
                       lambda: '%s: %s, specified %s' % (name(s), name(got), name(want)))
            for i in range(4):
                ip.require(want[i] > 1 or got[i] == want[i], 'exchanging carry and emulation keeps known bits',
                           lambda: '%s: %s, specified %s' % (name(s), name(got), name(want)))
        c.scenario('operations on ' + name(s), ops)

        def merge(ip, s=s):
            F = Flags(ip)
            a = F.make(s)
            ga = concrete(s, VALID)
            for t in states:
                b = F.make(t)
                r = ip.alloc(ip.val(ip.call_op('nsasm::operator|', 'nsasm::StatusFlags', a, b)), 'merged')
                got = F.read(r)
                ip.require(contains(got, ga) and contains(got, concrete(t, VALID)), 'a merged state covers both operands',
                           lambda: '%s | %s = %s' % (name(s), name(t), name(got)))
                for i in range(4):
                    ip.require(not (s[i] == t[i] and s[i] < 2) or got[i] == s[i], 'a bit known in both operands stays known',
                               lambda: '%s | %s = %s' % (name(s), name(t), name(got)))
                if s == t:
                    ip.require(got == s, 'merging equal states changes nothing', lambda: '%s | itself = %s' % (name(s), name(got)))
                u = F.make(s)
                ip.m(u, 'operator|=', b)
                ip.require(F.read(u) == got, 'merging in place agrees with merging')
                ip.m(u, 'operator|=', b)
                ip.require(F.read(u) == got, 'merging again adds nothing', lambda: '%s | %s twice' % (name(s), name(t)))
                eq = ip.truth(ip.val(ip.m(a, 'operator==', b)))
                ne = ip.truth(ip.val(ip.m(a, 'operator!=', b)))
                ip.require(eq == (s == t) and ne == (s != t), 'states are equal exactly when all bits are',
                           lambda: '%s and %s' % (name(s), name(t)))
        c.scenario('merge with ' + name(s), merge)

    def bits(ip):
        F = Flags(ip)
        for a, b in itertools.product(range(4), repeat=2):
            v = ip.val(ip.call_op('nsasm::operator|', 'BitState', L(F.v[a]), L(F.v[b])))
            ip.req_eq(v, L(F.v[a if a == b else 3]), 'differing bits merge to unknown')
    c.scenario('merge bits', bits)
