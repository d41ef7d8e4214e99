"""Identity-checking sink."""
from props.common import *
from props.p04 import own, span

EXPLANATION = (
    'Abstract interpretation of the identity-checking sink over a symbolic image, mapping mode, address and data: a write '
    'is accepted exactly when every byte is mapped, inside the image and equal to the image byte at its mapped offset.')
ASSUMPTIONS = ['runs longer than the unroll bound are reported as beyond the bound']


def check(c):
    for mode, short in MODES:
        for rname, b0, b1, o0, o1 in regions():
            for k in (1, 2, 3) + ((4, 5, 9, 17) if rname == "mirror" else ()) + ((33,) if rname == "mirror" and c.tier == "thorough" else ()):
                def run(ip, mode=mode, short=short, b0=b0, b1=b1, o0=o0, o1=o1, k=k):
                    n = sym('image size', 0, MAXROM)
                    a, bank, o = region_addr(ip, b0, b1, o0, o1)
                    rom = ip.alloc(make_rom(ip, mode, n), 'rom')
                    it = ip.loc_of(ip.new('nsasm::RomIdentityTest', own(rom)))
                    r = ip.loc_of(ip.m(it, 'Write', a, span(ip, 'new', L(k))))
                    ok = ip.ok(r)
                    good = True
                    for i in range(k):
                        m = offset_of(ip, short, bank, o, L(i))
                        if m is None or not ip.cond('<', m, n):
                            good = False
                            break
                    if not good:
                        ip.require(not ok, 'a write outside the image is refused')
                        return
                    for i in range(k):
                        m = offset_of(ip, short, bank, o, L(i))
                        if not ip.cond('==', byte(ip, 'data', m), byte(ip, 'new', L(i))):
                            good = False
                            break
                    ip.require(ok == good, 'a write is accepted exactly when it equals the image')
                c.scenario('%d bytes %s %s' % (k, mode, rname), run, unroll=k + 2)

        def empty(ip, mode=mode):
            n = sym('image size', 0, MAXROM)
            a, bank, o = region_addr(ip, 0, 255, 0, 65535)
            rom = ip.alloc(make_rom(ip, mode, n), 'rom')
            it = ip.loc_of(ip.new('nsasm::RomIdentityTest', own(rom)))
            ip.require(ip.ok(ip.loc_of(ip.m(it, 'Write', a, span(ip, 'new', ZERO)))), 'an empty write is accepted')
        c.scenario('empty %s' % mode, empty)
