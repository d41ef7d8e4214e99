"""SNES address -> ROM offset."""
from nsa.spec import *

EXPLANATION = (
    'Disjunctive abstract interpretation of the address-mapping function over a symbolic bank (0..255), bank offset '
    '(0..65535) and mapping mode: every partition of its affine/interval abstract state is compared with the hardware '
    'memory map written down independently in props/p01.py.')
ASSUMPTIONS = ['addresses are 24-bit', 'clang front end gives the meaning of the source']


def spec_offset(ip, mode, bank, ba):
    """None when unmapped; otherwise the offset, splitting on the specification's own regions."""
    if ip.cond('>=', bank, 0x7e) and ip.cond('<=', bank, 0x7f):
        return None
    low = ip.cond('<', bank, 0x40)
    mirror = not low and ip.cond('>=', bank, 0x80) and ip.cond('<', bank, 0xc0)
    if (low or mirror) and ip.cond('<', ba, 0x8000):
        return None
    upper = ip.cond('>=', bank, 0x80)
    if mode == 'lo':
        if ip.cond('<', ba, 0x8000):
            return None
        b = bank - 0x80 if upper else bank
        return b.scale(0x8000) + ba - 0x8000
    if ip.cond('>=', bank, 0xc0):
        b = bank - 0xc0
    elif upper:
        b = bank - 0x80
    elif ip.cond('>=', bank, 0x40):
        b = bank - 0x40
    else:
        b = bank
    off = b.scale(0x10000) + ba
    if mode == 'exhi' and not upper:
        off = off + 0x400000
    return off


def check(c):
    p = c.prog()
    modes = p.enum('nsasm::Mapping')
    names = {'kLoRom': 'lo', 'kHiRom': 'hi', 'kExHiRom': 'exhi'}
    for k, short in names.items():
        if k not in modes:
            raise AnalysisError('mapping mode %s not found' % k)

        def run(ip, k=k, short=short):
            bank, ba = sym('bank', 0, 255), sym('offset', 0, 65535)
            r = ip.fcall('nsasm::SnesToROMAddress', ip.addr(bank, ba), L(modes[k]))
            r = ip.loc_of(r)
            want = spec_offset(ip, short, bank, ba)
            if want is None:
                ip.require(not ip.ok(r), 'an unmapped address is rejected')
            else:
                ip.require(ip.ok(r), 'a cartridge address is accepted', lambda: repr(ip.val(r)))
                ip.req_eq(ip.value(r), want, 'ROM offset equals the hardware mapping')
        c.scenario('mapping ' + k, run)
