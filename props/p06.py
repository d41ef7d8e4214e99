"""Loading a ROM image from a file."""
from props.common import *

EXPLANATION = (
    'Abstract interpretation of the ROM loader over a file of symbolic size and contents in which every stdio call may '
    'succeed or fail: acceptance exactly when the size is a legal image size (with or without the 512-byte copier '
    'header), no call failed and exactly one of the two candidate checksum pairs is complementary; the loaded image then '
    'answers an arbitrary one-byte read with the byte of the file that the detected mapping names.')
ASSUMPTIONS = ['files are smaller than 2 GiB', 'stdio behaves as modelled in nsa/lib.py']
MAXF = (1 << 31) - 1


def load(ip):
    size = sym('file.size', 0, 1 << 62)
    ip.assume(0, size, MAXF)
    r = ip.loc_of(ip.fcall('nsasm::LoadRomFile', ip.alloc(symstr('path'))))
    return size, r


def failed(ip):
    """did any file operation fail on this partition?"""
    for e in ip.st.ev:
        if e[0] in ('fopen', 'fseek', 'ftell', 'fread', 'fwrite', 'fclose') and e[-1] is False:
            return True
    return False


def fbyte(ip, i):
    return byte(ip, 'file', i)


def complementary(ip, base):
    a = ip.cond('==', fbyte(ip, base + 0x2c) + fbyte(ip, base + 0x2e), 0xff)
    return a and ip.cond('==', fbyte(ip, base + 0x2d) + fbyte(ip, base + 0x2f), 0xff)


def spec(ip, size):
    """(ok, header length, mapping)"""
    if ip.cond('<=', size, 0):
        return None
    rem = ip.mod(size, 0x1000, fork=False)
    if ip.branch('eq0', rem):
        h = 0
    elif ip.branch('eq0', rem - 0x200):
        h = 0x200
    else:
        return None
    n = size - h
    if ip.cond('<', n, 0x10000):
        return None
    lo = complementary(ip, L(h + 0x7fb0))
    hi = complementary(ip, L(h + 0xffb0))
    if lo == hi:
        return None
    if lo:
        return h, n, 'lo'
    return (h, n, 'hi') if ip.cond('<', n, 0x400000) else (h, n, 'exhi')


def check(c):
    def accept(ip):
        size, r = load(ip)
        ok = ip.ok(r)
        if failed(ip):
            ip.require(not ok, 'a failed file operation makes the load fail')
            return
        want = spec(ip, size)
        ip.require(ok == (want is not None), 'a file is accepted exactly when it is a recognisable image')
        if ok:
            ip.require(ip.truth(ip.lib['std::unique_ptr::operator bool'](ip, None, ip.value_loc(r), [], None)), 'a successful load yields an image')
            rom = ip.value_loc(r)
            ip.require(ip.val(ip.m(rom, 'Path')) == symstr('path'), 'the image remembers the path it was loaded from')
    c.scenario('acceptance', accept)

    for rname, b0, b1, o0, o1 in regions():
        def contents(ip, b0=b0, b1=b1, o0=o0, o1=o1):
            size, r = load(ip)
            if not ip.ok(r):
                return
            want = spec(ip, size)
            if want is None:
                return
            h, n, short = want
            a, bank, o = region_addr(ip, b0, b1, o0, o1)
            x = ip.loc_of(ip.m(ip.value_loc(r), 'Read', a, ONE))
            m = spec_offset(ip, short, bank, o)
            if m is None or not ip.cond('<', m, n):
                ip.require(not ip.ok(x), 'reads outside the detected mapping fail')
                return
            ip.require(ip.ok(x), 'reads inside the detected mapping succeed')
            s = ip.seq_of(ip.value(x))
            ip.req_eq(s.len(), ONE, 'one byte is returned')
            ip.req_eq(ip.seq_get(s, ZERO), fbyte(ip, m + h), 'the image holds the file contents after any copier header')
        c.scenario('contents ' + rname, contents)
