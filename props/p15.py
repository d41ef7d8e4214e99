"""Diagnostics: location merging and rendering."""
from props.common import *
from props.p04 import overwriter, span
from props.p06 import load

EXPLANATION = (
    'Abstract interpretation of location construction, merging and rendering and of the diagnostic text, over every '
    'combination of absent/present path and position, with symbolic paths, messages and positions.')
ASSUMPTIONS = []


def text(ip, name):
    """a non-empty symbolic string"""
    n = sym(name + '.len', 1, 1 << 30)
    return Str((('sub', name, ZERO, n),))


def build(ip, kind, tag):
    """(location, path, position) for a kind like 'path+line'."""
    path = text(ip, 'path ' + tag) if 'path' in kind else None
    pos = None
    if 'line' in kind:
        n = sym('line ' + tag, -(1 << 31), (1 << 31) - 1)
        pos = ('%d', n)
        if path is not None:
            return ip.new('nsasm::Location', path, n), path, pos
        return ip.new('nsasm::Location', n, kinds=[r'^int$']), path, pos
    if 'addr' in kind:
        n = sym('address ' + tag, 0, (1 << 24) - 1)
        pos = ('%06x', n)
        loc = ip.alloc(ip.val(ip.fcall('nsasm::Location::FromAddress', n)), 'loc')
        if path is not None:
            ip.m(loc, 'Update', ip.loc_of(ip.new('nsasm::Location', path, kinds=['string'])))
        return loc, path, pos
    if path is not None:
        return ip.new('nsasm::Location', path, kinds=['string']), path, pos
    return ip.new('nsasm::Location'), path, pos


def rendered(ip, path, pos):
    if path is None:
        return Str(())
    if pos is None:
        return path
    return path + Str((':' if pos[0] == '%d' else ':0x', ('fmt', pos[0], pos[1])))


def same(ip, got, want):
    got = ip.val(got)
    if isinstance(got, Top):
        raise PathEnd('unknown', got.why)
    return ip.str_eq(got, want)


KINDS = ('none', 'path', 'line', 'addr', 'path+line', 'path+addr')


def check(c):
    for k in KINDS:
        def one(ip, k=k):
            loc, path, pos = build(ip, k, 'a')
            loc = ip.loc_of(loc)
            s = ip.m(loc, 'ToString')
            w = rendered(ip, path, pos)
            ip.require(same(ip, s, w), 'a location renders as path and position', lambda: '%r, specified %r' % (ip.val(s), w))
        c.scenario('render ' + k, one)
        for k2 in KINDS:
            def two(ip, k=k, k2=k2):
                loc, path, pos = build(ip, k, 'a')
                loc = ip.loc_of(loc)
                loc2, path2, pos2 = build(ip, k2, 'b')
                ip.m(loc, 'Update', ip.loc_of(loc2))
                s = ip.m(loc, 'ToString')
                w = rendered(ip, path2 if path2 is not None else path, pos2 if pos2 is not None else pos)
                ip.require(same(ip, s, w), 'merging overrides exactly the parts the newer location has', lambda: '%r, specified %r' % (ip.val(s), w))
            c.scenario('merge %s <- %s' % (k, k2), two)

            def err(ip, k=k, k2=k2):
                e, msg = error(ip, 'm')
                loc, path, pos = build(ip, k, 'a')
                loc2, path2, pos2 = build(ip, k2, 'b')
                ip.fcall('nsa_spec::SetLocations', e, ip.loc_of(loc), ip.loc_of(loc2))
                s = ip.m(e, 'ToString')
                w = diag(ip, path2 if path2 is not None else path, pos2 if pos2 is not None else pos, msg)
                ip.require(same(ip, s, w), 'a diagnostic is its location, a colon and its message', lambda: '%r, specified %r' % (ip.val(s), w))
            c.scenario('diagnostic at %s, %s' % (k, k2), err)

        def one_err(ip, k=k):
            e, msg = error(ip, 'm')
            loc, path, pos = build(ip, k, 'a')
            ip.fcall('nsa_spec::SetLocation', e, ip.loc_of(loc))
            s = ip.m(e, 'ToString')
            w = diag(ip, path, pos, msg)
            ip.require(same(ip, s, w), 'a diagnostic is its location, a colon and its message', lambda: '%r, specified %r' % (ip.val(s), w))
            e2, msg2 = error(ip, 'other')
            for neg, op in ((False, 'operator=='), (True, 'operator!=')):
                got = ip.truth(ip.val(ip.m(e, op, e2)))
                eq = ip.str_eq(msg, msg2)
                ip.require(got == (eq != neg), 'diagnostics compare by message', lambda: op)
        c.scenario('diagnostic at ' + k, one_err)

    for rec in ('nsasm::ErrorOr<int>', 'nsasm::ErrorOr<void>'):
        def results(ip, rec=rec):
            val = rec.endswith('<int>')

            def call(name, a, b):
                fs = [f for f in ip.p.find('nsa_spec::' + name, 2) if rec in ip.p.types[f['params'][0]['t']]['s']]
                return ip.truth(ip.val(ip.call_def(fs[0], None, [a, b], {'k': 'call'})))

            def res(tag, good):
                if good:
                    v = sym('value ' + tag, -(1 << 31), (1 << 31) - 1)
                    return ip.loc_of(success(ip, rec, v) if val else success(ip, rec)), v
                e, msg = error(ip, tag)
                return ip.loc_of(ip.new(rec, e, kinds=['Error'])), msg
            for ga in (True, False):
                for gb in (True, False):
                    (a, va), (b, vb) = res('a', ga), res('b', gb)
                    ip.require(ip.ok(a) == ga and ip.ok(b) == gb, 'a result is a failure exactly when it was made from a diagnostic')
                    if not ga:
                        t = ip.val(ip.m(ip.alloc(ip.error(a), 'e'), 'ToString'))
                        ip.require(same(ip, t, va), 'a failed result carries its diagnostic', lambda: repr(t))
                    elif val:
                        got = ip.value(a)
                        ip.require(ip.cond('==', got, va), 'a result carries its value')
                    eq = ga == gb and ((not val or ip.cond('==', va, vb)) if ga else ip.str_eq(va, vb))
                    ip.require(call('Same', a, b) == eq, 'results compare by value or diagnostic')
                    ip.require(call('Differ', a, b) != eq, 'results compare by value or diagnostic')
        c.scenario('results ' + rec, results)

    rom_diagnostics(c)


def located(ip, r, path, bank, o, n, clause, exact=False):
    """the diagnostic names the path and an address of the run [o, o+n) of the bank"""
    s = ip.val(ip.m(ip.alloc(ip.error(r), 'e'), 'ToString'))
    if isinstance(s, Top):
        raise PathEnd('unknown', s.why)
    p = list(s.p)
    good = len(p) >= 4 and p[0] == path.p[0] and p[1] == ':0x' and isinstance(p[2], tuple) and p[2][:2] == ('fmt', '%06x') and \
        isinstance(p[3], str) and p[3].startswith(': ') and len(p[3]) > 2
    if not good and any(isinstance(x, tuple) and x[0] == 'top' for x in p):
        raise PathEnd('unknown', 'diagnostic text %r' % (s,))
    ip.require(good, clause, lambda: repr(s))
    off = ip.expand(p[2][2] - bank.scale(65536))
    ip.require(ip.cond('>=', off, 0) and ip.cond('<=', off, 0xffff), clause + ' (bank)', lambda: repr(off))
    d = ip.mod(off - o, 65536, fork=True)
    ip.require(ip.cond('<', d, n), clause + ' (offset)', lambda: repr(off))


def rom_diagnostics(c):
    for mode, short in MODES:
        for rname, b0, b1, o0, o1 in regions():
            def read(ip, mode=mode, b0=b0, b1=b1, o0=o0, o1=o1):
                n = sym('image size', 0, MAXROM)
                a, bank, o = region_addr(ip, b0, b1, o0, o1)
                ln = sym('length', 1, 0x10000)
                path = text(ip, 'path')
                modes = ip.p.enum('nsasm::Mapping')
                rom = ip.loc_of(ip.new('nsasm::Rom', L(modes[mode]), path, bytes_in(ip, 'header', ZERO), bytes_in(ip, 'data', n)))
                r = ip.loc_of(ip.m(rom, 'Read', a, ln))
                if ip.ok(r):
                    return
                located(ip, r, path, bank, o, ln, 'a failed read is reported at the image path and an address of the run')
            c.scenario('failed read %s %s' % (mode, rname), read)

    def loading(ip):
        size = sym('file.size', 0, 1 << 62)
        ip.assume(0, size, (1 << 31) - 1)
        path = text(ip, 'path')
        r = ip.loc_of(ip.fcall('nsasm::LoadRomFile', ip.alloc(path)))
        if not ip.ok(r):
            names_file(ip, r, path, 'a failed load names the file')
    c.scenario('failed load', loading)

    def saving(ip):
        path = text(ip, 'out path')
        ow = overwriter(ip, 'kHiRom', sym('image size', 1, MAXROM), L(0x200))
        r = ip.loc_of(ip.m(ow, 'CreateFile', ip.alloc(path)))
        if not ip.ok(r):
            names_file(ip, r, path, 'a failed save names the file')
    c.scenario('failed save', saving)


def names_file(ip, r, path, clause):
    s = ip.val(ip.m(ip.alloc(ip.error(r), 'e'), 'ToString'))
    if isinstance(s, Top):
        raise PathEnd('unknown', s.why)
    ip.require(len(s.p) >= 2 and s.p[0] == path.p[0] and isinstance(s.p[1], str) and s.p[1].startswith(': ') and len(s.p[1]) > 2,
               clause, lambda: repr(s))


def error(ip, name):
    msg = text(ip, name)
    fmt = Str(('%s',))
    e = ip.new('nsasm::Error', fmt, ip.loc_of(msg), kinds=['FormatSpec', r'basic_string<'])
    return ip.alloc(e, 'error'), msg


def diag(ip, path, pos, msg):
    return msg if path is None else rendered(ip, path, pos) + Str((': ',)) + msg
