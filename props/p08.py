"""Little-endian reads of the generic input source."""
from props.common import *

EXPLANATION = (
    'Abstract interpretation of the byte/word/long helpers of the input-source interface over a ROM with symbolic mapping, '
    'size, contents and address: the value is the little-endian combination of the bytes at the bank-wrapped addresses, '
    'and the helper fails exactly when one of those bytes cannot be read.')
ASSUMPTIONS = []
HELP = (('ReadByte', 1), ('ReadWord', 2), ('ReadLong', 3))


def check(c):
    for name, k in HELP:
        for mode, short in MODES:
            for rname, b0, b1, o0, o1 in regions():
                def run(ip, name=name, k=k, mode=mode, short=short, b0=b0, b1=b1, o0=o0, o1=o1):
                    n = sym('image size', 0, MAXROM)
                    a, bank, o = region_addr(ip, b0, b1, o0, o1)
                    rom = ip.loc_of(make_rom(ip, mode, n))
                    r = ip.loc_of(ip.m(rom, name, a))
                    good = all(in_rom(ip, short, bank, o, L(i), n) for i in range(k))
                    ip.require(ip.ok(r) == good, 'a read succeeds exactly when all its bytes are readable')
                    if good:
                        want = ZERO
                        for i in range(k):
                            want = want + byte(ip, 'data', offset_of(ip, short, bank, o, L(i))).scale(256 ** i)
                        ip.req_eq(ip.value(r), want, 'bytes combine little-endian')
                c.scenario('%s %s %s' % (name, mode, rname), run)
