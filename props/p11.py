"""Range map: disjoint address ranges with values."""
from props.p10 import *

EXPLANATION = (
    'Abstract interpretation of the range map (instantiated for int) over symbolic ranges: existing entries of the listed '
    'shapes (number of chunks per entry) in any address order, then one arbitrary insertion. The insertion succeeds exactly '
    'when it overlaps no entry; a refused insertion changes nothing; an arbitrary address looks up the value of the entry '
    'covering it and nothing otherwise, also when entries touch.')
ASSUMPTIONS = ['entries are canonical range sets (the only ones the range set can build, see P10)']
M = 'nsasm::RangeMap<int>'


def rng(ip, name, n):
    """An arbitrary range set of n chunks."""
    d = ip.loc_of(ip.new(D))
    cs, prev = [], None
    for i in range(n):
        lo, hi = chunk(ip, '%s%d' % (name, i))
        if prev is not None:
            ip.assume(-INF, prev - lo, -1)
        prev = hi
        claim(ip, d, lo, hi)
        cs.append((lo, hi))
    return d, cs


def insert(ip, m, d, v):
    return ip.truth(ip.val(ip.m(m, 'Insert', ip.load(d), ip.alloc(v))))


def lookup(ip, m, x):
    o = ip.val(ip.m(m, 'Lookup', ip.new('nsasm::Address', x, kinds=['int'])))
    if isinstance(o, Top):
        raise PathEnd('unknown', o.why)
    return None if o.v is None else ip.force(o.v)


def check(c):
    quick = c.tier == 'quick'
    shapes = [(), (1,), (2,), (1, 1), (2, 1)] + ([] if quick else [(1, 2), (3,), (1, 1, 1), (2, 2)])
    for sh in shapes:
        for n in (1, 2) if len(sh) < 2 or not quick else (1,):
            def run(ip, sh=sh, n=n, mode=0):
                m = ip.loc_of(ip.new(M))
                ents = []
                for i, k in enumerate(sh):
                    d, cs = rng(ip, 'r%d.' % i, k)
                    free = not any(overlaps(ip, lo, hi, e[0]) for lo, hi in cs for e in ents)
                    if not free:
                        raise Infeasible()
                    v = sym('v%d' % i, -(1 << 31), (1 << 31) - 1)
                    ip.require(insert(ip, m, d, v), 'a range that overlaps no entry is inserted')
                    ents.append((cs, v))
                d, cs = rng(ip, 'new', n)
                v = sym('v', -(1 << 31), (1 << 31) - 1)
                r = insert(ip, m, d, v)
                if mode == 0:
                    ip.require(r == (not any(overlaps(ip, lo, hi, e[0]) for lo, hi in cs for e in ents)),
                               'an insertion succeeds exactly when it overlaps no entry')
                    return
                if r:
                    ents.append((cs, v))
                x = sym('x', 0, TOP - 1)
                want = None
                for e, val in ents:
                    if covered(ip, x, e):
                        want = val
                        break
                if mode == 1:
                    got = lookup(ip, m, x)
                    ip.require((got is None) == (want is None), 'an address has a value exactly when an entry covers it')
                    if got is not None:
                        ip.req_eq(got, want, 'an address has the value of the entry covering it')
                else:
                    got = ip.truth(ip.val(ip.m(m, 'Contains', ip.new('nsasm::Address', x, kinds=['int']))))
                    ip.require(got == (want is not None), 'containment agrees with lookup')
            s = 'entries %s, new of %d chunk%s' % ('+'.join(map(str, sh)) or 'none', n, 's' * (n > 1))
            c.scenario(s + ': insertion', run, max_paths=40000)
            c.scenario(s + ': lookup', lambda ip, run=run: run(ip, mode=1), max_paths=40000)
            c.scenario(s + ': containment', lambda ip, run=run: run(ip, mode=2), max_paths=40000)
