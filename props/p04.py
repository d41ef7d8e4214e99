"""Overwriting sink: writes land exactly, and the saved file is header plus image."""
from props.common import *
from nsa.interp import UPtr

EXPLANATION = (
    'Abstract interpretation of the overwriting sink over a symbolic image (size, contents, header), mapping mode, address '
    'and data: acceptance exactly when every byte maps inside the image; the saved file -- observed as the sequence handed '
    'to the modelled stdio calls, each of which may fail -- equals header plus image with precisely the written bytes '
    'replaced, checked at an arbitrary file position. Run lengths beyond the unroll bound are reported as beyond the bound.')
ASSUMPTIONS = ['a copier header is absent or 512 bytes (the only sizes the loader produces)', 'stdio behaves as modelled in nsa/lib.py']


def overwriter(ip, mode, n, hn):
    rom = ip.alloc(make_rom(ip, mode, n, hn), 'rom')
    return ip.loc_of(ip.new('nsasm::RomOverwriter', own(rom)))


def own(p):
    """unique_ptr owning the object at p"""
    return UPtr(p)


def span(ip, name, n):
    return View(ip.alloc(bytes_in(ip, name, n), 'buf'), ZERO, L(n))


def written(ip, ev0):
    """Concatenation of everything written to the file since event ev0, or None when a call failed."""
    out, bad = [], False
    for e in ip.st.ev[ev0:]:
        if e[0] in ('fopen', 'fwrite', 'fclose') and e[-1] is False:
            bad = True
        if e[0] == 'fwrite' and not bad:
            if e[2] is None:
                raise PathEnd('unknown', 'contents of a write not understood')
            out.append(e[2])
    return None if bad else out


def save(ip, ow, clause='saving reports success exactly when every file operation succeeded'):
    ev0 = len(ip.st.ev)
    r = ip.loc_of(ip.m(ow, 'CreateFile', ip.alloc(symstr('out path'))))
    w = written(ip, ev0)
    ip.require(ip.ok(r) == (w is not None), clause)
    return w


def total(w):
    n = ZERO
    for s in w:
        n = n + s.len()
    return n


def at(ip, w, j):
    for s in w:
        n = s.len()
        if ip.cond('<', j, n):
            return ip.seq_get(s, j)
        j = j - n
    return None


def check(c):
    def plain(ip, hn):
        n = sym('image size', 1, MAXROM)
        ow = overwriter(ip, 'kLoRom', n, L(hn))
        w = save(ip, ow)
        if w is None:
            return
        ip.req_eq(total(w), n + hn, 'the saved file is as long as header plus image')
        j = sym('j', 0, MAXROM + 0x200)
        ip.assume(-INF, j - n - hn, -1)
        want = byte(ip, 'header', j) if ip.cond('<', j, hn) else byte(ip, 'data', j - hn)
        ip.req_eq(at(ip, w, j), want, 'an untouched image is saved unchanged')
        e = [e for e in ip.st.ev if e[0] == 'fopen'][-1]
        ip.require(e[1] == symstr('out path'), 'the file is created at the path given')
        ip.require(e[2] is not None and e[2][:1] == 'w' and 'b' in e[2], 'the file is created for binary writing')
    c.scenario('save without header', lambda ip: plain(ip, 0))
    c.scenario('save with header', lambda ip: plain(ip, 0x200))

    for mode, short in MODES:
        for rname, b0, b1, o0, o1 in regions():
            def accept(ip, mode=mode, short=short, b0=b0, b1=b1, o0=o0, o1=o1):
                n = sym('image size', 0, MAXROM)
                a, bank, o = region_addr(ip, b0, b1, o0, o1)
                ln = sym('length', 0, 0xffff)
                ow = overwriter(ip, mode, n, ZERO)
                r = ip.loc_of(ip.m(ow, 'Write', a, span(ip, 'new', ln)))
                ok = ip.ok(r)
                if ip.cond('==', ln, 0):
                    ip.require(ok, 'an empty write succeeds')
                    return
                good = readable(ip, short, bank, o, ln, n)
                ip.require(ok == good, 'a write is accepted exactly when every byte maps inside the image')
            c.scenario('acceptance %s %s' % (mode, rname), accept, unroll=6 if c.tier == 'quick' else 12)

            for k in (1, 2, 4):
                def exact(ip, mode=mode, short=short, b0=b0, b1=b1, o0=o0, o1=o1, k=k):
                    n = sym('image size', 1, MAXROM)
                    a, bank, o = region_addr(ip, b0, b1, o0, o1)
                    ow = overwriter(ip, mode, n, ZERO)
                    r = ip.loc_of(ip.m(ow, 'Write', a, span(ip, 'new', L(k))))
                    if not ip.ok(r):
                        return
                    ev0 = len(ip.st.ev)
                    ip.m(ow, 'CreateFile', ip.alloc(symstr('out path')))
                    w = written(ip, ev0)
                    if w is None:
                        return
                    ip.req_eq(total(w), n, 'writing does not change the size of the image')
                    j = sym('j', 0, MAXROM)
                    ip.assume(-INF, j - n, -1)
                    want = byte(ip, 'data', j)
                    for i in range(k):
                        m = offset_of(ip, short, bank, o, L(i))
                        if m is not None and ip.cond('==', m, j):
                            want = byte(ip, 'new', L(i))
                    ip.req_eq(at(ip, w, j), want, 'exactly the written bytes replace the image bytes they map to')
                c.scenario('%d byte%s %s %s' % (k, 's' * (k > 1), mode, rname), exact, unroll=k + 2)
