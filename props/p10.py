"""Claimed byte ranges."""
from props.common import *

EXPLANATION = (
    'Abstract interpretation of the claimed-range set. Inductive step: from every canonical state of up to m chunks '
    '(m = 4 quick, 6 thorough; chunk bounds fully symbolic) one arbitrary claim is analysed; the claim result must equal "no '
    'byte was already claimed", membership of an arbitrary address must equal "covered by an earlier chunk or this claim", '
    'and the new state must again be canonical (ascending, non-empty, non-touching chunks), which closes the induction for '
    'states of that size. Short histories of unordered claims are analysed in addition, and claims given as address and '
    'length are compared with the bank-wrapped byte set.')
ASSUMPTIONS = ['chunks passed in are not empty', 'a run claimed by address and length is at most one bank long',
               'binary search is modelled as the partition point of the sequence']
D = 'nsasm::DataRange'
TOP = 1 << 24


def pair(ip, lo, hi):
    a = ip.new('nsasm::Address', lo, kinds=['int'])
    b = ip.new('nsasm::Address', hi, kinds=['int'])
    return Obj('std::pair', {'first': ip.val(a), 'second': ip.val(b)})


def claim(ip, d, lo, hi):
    return ip.truth(ip.val(ip.m(d, 'ClaimBytes', pair(ip, lo, hi), nparams=1)))


def chunk(ip, n):
    lo, hi = sym(n + '.first', 0, TOP - 1), sym(n + '.end', 1, TOP)
    ip.assume(-INF, lo - hi, -1)
    return lo, hi


def covered(ip, x, chunks):
    return any(ip.cond('<=', lo, x) and ip.cond('<', x, hi) for lo, hi in chunks)


def overlaps(ip, lo, hi, chunks):
    return any(ip.cond('<', lo, h) and ip.cond('<', l, hi) for l, h in chunks)


def bounds(ip, d):
    s = ip.seq_of(ip.val(ip.m(d, 'Chunks')))
    if s is None or not s.concrete():
        raise PathEnd('unknown', 'chunk list not understood')
    out = []
    for e in s.parts:
        v = ip.force(e.v)
        out.append(tuple(ip.addr_val(ip.alloc(v.f[k])) for k in ('first', 'second')))
    return out


def canonical(ip, d):
    prev = None
    for lo, hi in bounds(ip, d):
        ip.require(('le0', lo - hi + 1), 'chunks are not empty')
        if prev is not None:
            ip.require(('le0', prev - lo + 1), 'chunks are ascending and do not touch')
        prev = hi


def state(ip, m):
    """Arbitrary canonical state of m chunks."""
    d = ip.loc_of(ip.new(D))
    cs, prev = [], None
    for i in range(m):
        lo, hi = chunk(ip, 'c%d' % i)
        if prev is not None:
            ip.assume(-INF, prev - lo, -1)
        prev = hi
        ip.require(claim(ip, d, lo, hi), 'claiming free bytes succeeds')
        cs.append((lo, hi))
    return d, cs


def contains(ip, d, x):
    return ip.truth(ip.val(ip.m(d, 'Contains', ip.new('nsasm::Address', x, kinds=['int']))))


def check(c):
    top = 4 if c.tier == 'quick' else 6
    for m in range(top + 1):
        def result(ip, m=m):
            d, cs = state(ip, m)
            lo, hi = chunk(ip, 'new')
            r = claim(ip, d, lo, hi)
            ip.require(r == (not overlaps(ip, lo, hi, cs)), 'a claim succeeds exactly when none of its bytes was claimed')
        c.scenario('claim over %d chunks: result' % m, result)

        def form(ip, m=m):
            d, cs = state(ip, m)
            lo, hi = chunk(ip, 'new')
            claim(ip, d, lo, hi)
            canonical(ip, d)
        c.scenario('claim over %d chunks: canonical form' % m, form)

        def member(ip, m=m):
            d, cs = state(ip, m)
            lo, hi = chunk(ip, 'new')
            claim(ip, d, lo, hi)
            x = sym('x', 0, TOP - 1)
            ip.require(contains(ip, d, x) == covered(ip, x, cs + [(lo, hi)]),
                       'a byte is in the set exactly when some claim covered it')
        c.scenario('claim over %d chunks: members' % m, member)

        def before(ip, m=m):
            d, cs = state(ip, m)
            canonical(ip, d)
            x = sym('x', 0, TOP - 1)
            ip.require(contains(ip, d, x) == covered(ip, x, cs), 'a byte is in the set exactly when some claim covered it')
        c.scenario('%d ordered chunks' % m, before)

    wide = 12 if c.tier == 'quick' else 24

    def across(ip, part):
        d, cs = state(ip, wide)
        lo, hi = chunk(ip, 'new')
        ip.assume(-INF, lo - cs[1][0], -1)
        ip.assume(1, hi - cs[-2][1], INF)
        r = claim(ip, d, lo, hi)
        if part == 0:
            ip.require(not r, 'a claim succeeds exactly when none of its bytes was claimed')
            canonical(ip, d)
            return
        x = sym('x', 0, TOP - 1)
        ip.require(contains(ip, d, x) == covered(ip, x, [(lo, hi), cs[0], cs[-1]]), 'a byte is in the set exactly when some claim covered it')
    c.scenario('claim across %d chunks: result and form' % wide, lambda ip: across(ip, 0))
    c.scenario('claim across %d chunks: members' % wide, lambda ip: across(ip, 1))

    for k in (2, 3) if c.tier == 'quick' else (2, 3, 4):
        def history(ip, k=k):
            d = ip.loc_of(ip.new(D))
            cs = []
            for i in range(k):
                lo, hi = chunk(ip, 'h%d' % i)
                r = claim(ip, d, lo, hi)
                if i == k - 1:
                    ip.require(r == (not overlaps(ip, lo, hi, cs)), 'a claim succeeds exactly when none of its bytes was claimed')
                cs.append((lo, hi))
            canonical(ip, d)
        c.scenario('history of %d claims' % k, history, max_paths=40000)

    def runs(ip, m, part):
        d, cs = state(ip, m)
        a, bank, o = region_addr(ip, 0, 255, 0, 65535)
        ln = sym('length', -(1 << 31), 0x10000)
        r = ip.truth(ip.val(ip.m(d, 'ClaimBytes', a, ln, nparams=2)))
        base = bank.scale(65536)
        new = []
        if ip.cond('>', ln, 0):
            if ip.cond('<=', o + ln, 65536):
                new = [(base + o, base + o + ln)]
            else:
                new = [(base + o, base + 65536), (base, base + o + ln - 65536)]
        if part == 0:
            ip.require(r == (not any(overlaps(ip, lo, hi, cs) for lo, hi in new)),
                       'a run is claimed successfully exactly when none of its bytes was claimed')
            canonical(ip, d)
            return
        x = sym('x', 0, TOP - 1)
        ip.require(contains(ip, d, x) == covered(ip, x, cs + new), 'a run claims exactly its bank-wrapped bytes')
    for m in range(2 if c.tier == 'quick' else 3):
        c.scenario('run over %d chunks: result' % m, lambda ip, m=m: runs(ip, m, 0), max_paths=20000)
        c.scenario('run over %d chunks: members' % m, lambda ip, m=m: runs(ip, m, 1), max_paths=20000)

    # every bank byte in one claim, twice
    def whole(ip):
        d = ip.loc_of(ip.new(D))
        b = sym('bank', 0, 255)
        o = sym('offset', 0, 65535)
        ip.require(ip.truth(ip.val(ip.m(d, 'ClaimBytes', ip.addr(b, o), L(65536), nparams=2))), 'a whole bank can be claimed')
        x = sym('x', 0, 65535)
        ip.require(contains(ip, d, b.scale(65536) + x), 'a whole-bank claim covers the bank')
        ip.require(not ip.truth(ip.val(ip.m(d, 'ClaimBytes', ip.addr(b, x), ONE, nparams=2))), 'claimed bytes conflict')
    c.scenario('whole bank', whole)
