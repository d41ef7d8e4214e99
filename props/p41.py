"""Source files."""
from props.common import *
import itertools

EXPLANATION = (
    'Abstract interpretation of opening source files over every text, up to a length, of ordinary characters, line ends, carriage '
    'returns, blanks and zero characters, with every outcome of opening and reading: the lines of the file, in order, are the '
    'lines of the text up to white space around them.')
ASSUMPTIONS = ['input streams behave as the standard says, as modelled in nsa/lib.py']
WS = ' \t\r\v\f'


def lines_of(ip, f):
    b, e = ip.m(f, 'begin'), ip.m(f, 'end')
    if not all(isinstance(x, Ptr) and x.path and x.path[-1][0] == 'i' for x in (b, e)):
        raise PathEnd('unknown', 'lines of a file')
    k = ip.expand(e.path[-1][1] - b.path[-1][1]).const
    out = []
    for i in range(k):
        s = ip.str_of(ip.val(ip.m(f, 'operator[]', L(i), pred=lambda f: 'size_t' in ip.p.types[f['params'][0]['t']]['s'] or 'long' in ip.p.types[f['params'][0]['t']]['s'])))
        if s.const is None:
            raise PathEnd('unknown', 'line %r' % (s,))
        out.append(s.const)
    return out


def same(got, text):
    """the lines of the text up to surrounding white space and to empty lines at its end"""
    want = [l.strip(WS) for l in text.split('\n')]
    got = [l.strip(WS) for l in got]
    while want and not want[-1]:
        want.pop()
    while got and not got[-1]:
        got.pop()
    return got == want


def check(c):
    deep = c.tier == 'thorough'
    n = 6 if deep else 4

    def opened(ip, first, bad):
        k = ip.choose(n + 1) if first else 0
        text = first + ''.join('a\nb\r \0'[ip.choose(6)] for _ in range(max(0, k - 1))) if first else ''
        stop = None if not bad else ip.choose(len(text) + 1)
        opens = bad or ip.choose(2) == 0
        ip.stream = (text, opens, stop)
        r = ip.alloc(ip.fcall('nsasm::OpenFile', ip.alloc(symstr('path'))), 'r')
        good = opens and not bad
        ip.require(ip.ok(r) == good, 'a file is opened exactly when it exists and can be read to its end', lambda: '%r, opens %s, fails at %s' % (text, opens, stop))
        s = [e for e in ip.st.ev if e[0] == 'stream']
        ip.require(len(s) >= 1 and all(e[1] == symstr('path') for e in s), 'the file named is read')
        if not good:
            t = ip.str_of(ip.val(ip.m(ip.loc_of(ip.error(r)), 'ToString')))
            ip.require(any(p in t.p for p in symstr('path').p), 'the error names the file', lambda: repr(t))
            return
        f = ip.value_loc(r)
        ip.require(same(lines_of(ip, f), text), 'the lines of a file are those of its text', lambda: '%r: %r' % (text, lines_of(ip, f)))
        ip.require(ip.str_of(ip.val(ip.m(f, 'path'))) == symstr('path'), 'a file knows its path')

    def fake(ip, first):
        text = first + ''.join('a\nb\r \t'[ip.choose(6)] for _ in range(ip.choose(n)))
        f = ip.loc_of(ip.fcall('nsasm::MakeFakeFile', ip.alloc(symstr('path')), Str((text,) if text else ())))
        ip.require(same(lines_of(ip, f), text), 'the lines of contents given are those of their text', lambda: '%r: %r' % (text, lines_of(ip, f)))
        ip.require(ip.str_of(ip.val(ip.m(f, 'path'))) == symstr('path'), 'a file knows its path')
    for ch in ('', 'a', '\n', ' ', '\r', '\0'):
        for bad in (False, True):
            c.scenario('opening a file starting with %r%s' % (ch, ', read error' if bad else ''), lambda ip, ch=ch, bad=bad: opened(ip, ch, bad), unroll=30, max_paths=60000)
        if ch != '\0':
            c.scenario('contents starting with %r' % ch, lambda ip, ch=ch: fake(ip, ch), unroll=30, max_paths=60000)
