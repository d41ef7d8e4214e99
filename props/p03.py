"""ROM reads."""
from props.common import *

EXPLANATION = (
    'Abstract interpretation of the ROM read entry point for every mapping mode with symbolic image size, address and '
    'length: success exactly when every byte of the bank-wrapped run is mapped and inside the image, the result length '
    'equals the request, and an arbitrary element of the result equals the image byte the hardware map names. Loops are '
    'partitioned by iteration up to the bound given by the tier; lengths that need more iterations are reported as beyond '
    'the bound.')
ASSUMPTIONS = ['standard library containers behave as modelled in nsa/lib.py', 'image size below 16 MiB']


def check(c):
    for mode, short in MODES:
        for rname, b0, b1, o0, o1 in regions():
            for kind in ('in bank', 'wrapping', 'over a bank'):
                def run(ip, mode=mode, short=short, b0=b0, b1=b1, o0=o0, o1=o1, kind=kind):
                    n = sym('image size', 0, MAXROM)
                    a, bank, o = region_addr(ip, b0, b1, o0, o1)
                    ln = sym('length', 1, 0x20000)
                    if kind == 'in bank':
                        ip.assume(-INF, o + ln, 0x10000)
                    elif kind == 'wrapping':
                        ip.assume(0x10001, o + ln, INF)
                        ip.assume(1, ln, 0x10000)
                    else:
                        ip.assume(0x10001, ln, INF)
                    rom = ip.loc_of(make_rom(ip, mode, n))
                    r = ip.loc_of(ip.m(rom, 'Read', a, ln))
                    if not ip.ok(r):
                        ip.require(not readable(ip, short, bank, o, ln, n),
                                   'a read is refused only when some byte is unmapped or past the end')
                        return
                    ip.require(readable(ip, short, bank, o, ln, n),
                               'a read succeeds only when every byte is mapped and inside the image')
                    s = r_seq(ip, r)
                    ip.req_eq(s.len(), ln, 'the result has the requested length')
                    j = sym('j', 0, 0x1ffff)
                    ip.assume(-INF, j - ln, -1)
                    ip.req_eq(ip.seq_get(s, j), byte(ip, 'data', offset_of(ip, short, bank, o, j)),
                              'each byte is the image byte at its mapped offset')
                c.scenario('%s %s %s' % (mode, rname, kind), run, unroll=8 if c.tier == 'quick' else 16)

        def edge(ip, mode=mode):
            n = sym('image size', 0, MAXROM)
            a, bank, o = region_addr(ip, 0, 255, 0, 65535)
            ln = sym('length', -(1 << 31), 0)
            r = ip.loc_of(ip.m(make_rom(ip, mode, n), 'Read', a, ln))
            ok = ip.ok(r)
            if ip.cond('<', ln, 0):
                ip.require(not ok, 'a negative length is rejected')
            else:
                ip.require(ok, 'an empty read succeeds')
                ip.req_eq(r_seq(ip, r).len(), ZERO, 'an empty read returns nothing')
        c.scenario('%s empty and negative lengths' % mode, edge)


def r_seq(ip, r):
    s = ip.seq_of(ip.value(r))
    if s is None:
        raise PathEnd('unknown', 'result of the read is not a sequence')
    return s
