"""The memory dump tool."""
from props.common import *
from props.p04 import own

EXPLANATION = (
    'Abstract interpretation of the dump tool\'s main function over every combination of present, malformed and well-formed '
    'arguments with symbolic values, an image of symbolic size and contents, and every outcome of loading it. Standard output '
    'is compared piece by piece with the specified listing.')
ASSUMPTIONS = ['loading and reading are replaced by, respectively, an arbitrary outcome and the verified read semantics of the image',
               'dumps of more values than the loop bound are reported as beyond the bound']


def prog(c):
    return c.prog(['util/quick_dump.cc'] + lib_units())


def arg(i):
    return symstr('arg%d' % i)


def run(ip, argc, load_ok=True, n=None):
    """(exit status, printed text, argument outcomes)"""
    def loader(ip, f, this, args, node):
        emit(ip, 'load', ip.str_of(ip.val(args[0]), node))
        if not load_ok:
            e = ip.new('nsasm::Error', Str(('%s',)), ip.loc_of(symstr('load error')), kinds=['FormatSpec', 'basic_string<'])
            return ip.val(ip.new(f_ret(ip, f), ip.alloc(e, 'e'), kinds=['Error']))
        rom = ip.alloc(make_rom(ip, 'kHiRom', n), 'rom')
        return ip.val(ip.new(f_ret(ip, f), ip.alloc(own(rom), 'u'), kinds=['unique_ptr']))
    ip.hooks['nsasm::LoadRomFile'] = loader
    argv = ip.alloc(Seq(tuple(E(arg(i)) for i in range(argc)), u8(ip)), 'argv').ext(('i', ZERO))
    try:
        rc = ip.val(ip.fcall('main', L(argc), argv, pred=lambda f: f['file'].endswith('quick_dump.cc')))
    except PathEnd as e:
        if e.kind != 'exit':
            raise
        rc = L(e.v) if isinstance(e.v, (int, Lin)) else Top('exit status')
    text = Str(())
    for e in ip.st.ev:
        if e[0] == 'print':
            text = text + e[1]
    return rc, text


def f_ret(ip, f):
    t = ip.p.types[f['ret']]
    return t['rec']


def emit(ip, *x):
    ip.st.ev = ip.st.ev + (x,)


def scanned(ip):
    """index of argument -> whether it was well-formed, for every argument looked at"""
    out = {}
    for e in ip.st.ev:
        if e[0] == 'sscanf':
            s, fm, m = e[1], e[2], e[4]
            for i in range(8):
                if s == arg(i):
                    out[i] = (fm, m == 1)
    return out


def items(s):
    """Split printed text into lines of words; formatted values stay atomic."""
    lines, line, word = [], [], []

    def endw():
        nonlocal word
        if word:
            line.append(tuple(word))
        word = []
    for p in s.p:
        if isinstance(p, str):
            for ch in p:
                if ch == '\n':
                    endw()
                    lines.append(tuple(line))
                    line = []
                elif ch in ' \t,':
                    endw()
                    if ch == ',':
                        line.append((',',))
                else:
                    if word and isinstance(word[-1], str):
                        word[-1] += ch
                    else:
                        word.append(ch)
        else:
            word.append(p)
    endw()
    if line:
        raise PathEnd('fail', ('every line of the listing is ended', repr(s)))
    return lines


def value_of(ip, w, digits):
    """numeric value of a word such as $1f or a formatted number"""
    if len(w) == 1 and isinstance(w[0], str) and w[0].startswith('$') and len(w[0]) == digits + 1:
        return L(int(w[0][1:], 16))
    if len(w) == 2 and w[0] == '$' and isinstance(w[1], tuple) and w[1][0] == 'fmt' and w[1][1] in ('%%0%dx' % digits,):
        return w[1][2]
    if any(isinstance(x, tuple) and x[0] == 'top' for x in w):
        raise PathEnd('unknown', 'printed value %r' % (w,))
    raise PathEnd('fail', ('values are printed as a dollar sign and %d hexadecimal digits' % digits, repr(w)))


WORD = {1: '.db', 2: '.dw', 3: '.dl'}


def check(c):
    pr = prog(c)

    for argc in (0, 1, 2, 3):
        def few(ip, argc=argc):
            rc, text = run(ip, argc, n=ZERO)
            ip.require(not any(e[0] == 'load' for e in ip.st.ev), 'too few arguments load nothing')
            ip.require(bool(text.p) and any(isinstance(p, str) and 'Usage' in p for p in text.p), 'too few arguments explain the usage')
        if argc:
            c.scenario('%d arguments' % (argc - 1), few, prog=pr)

    def unloadable(ip):
        rc, text = run(ip, 4, load_ok=False)
        ip.require(ip.truth(rc), 'a ROM that does not load makes the tool fail')
        ip.require(text == symstr('load error') + Str(('\n',)), 'the load error is printed', lambda: repr(text))
    c.scenario('load failure', unloadable, prog=pr)

    quick = c.tier == 'quick'

    def dump(ip, argc, count, stride, per, where, well):
        """count/stride/per: exact value, or ('le'|'ge', bound) for the raw argument"""
        n = sym('image size', 1, MAXROM)
        ip.scan = {}

        def pin(i, spec):
            if isinstance(spec, tuple):
                v = sym('argument %d' % i, *((-(1 << 31), spec[1]) if spec[0] == 'le' else (spec[1], (1 << 31) - 1)))
            else:
                v = L(spec)
            ip.scan[arg(i)] = (v, well)
        pin(3, count)
        if argc > 4:
            pin(4, stride)
        if argc > 5:
            pin(5, per)
        st = stride if argc > 4 and stride in (2, 3) else 1
        want = count if not isinstance(count, tuple) else 1
        pl = 8 if argc < 6 else 1 if per == ('le', 1) else want + 1 if isinstance(per, tuple) else per
        if where == 'inside':        # the run stays in its bank and in the image
            off = sym('o', 0, 0xff00)
            bank = sym('bank', 0, 0x3f)
            start = L(0xc00000) + bank.scale(65536) + off
            ip.assume(256, n - bank.scale(65536) - off, INF)
        elif where == 'wrap':
            start = L(0xd0ffff)
            ip.assume(0x110000, n, INF)
        elif where == 'end':         # the image ends somewhere around the run
            start = L(0xc12000)
            ip.assume(0x11ff0, n, 0x12000 + want * st + 3)
        elif where == 'good':
            start = L(0xc12000)
            ip.assume(0x13000, n, INF)
        elif where == 'bad':
            start = sym('start', 0x1000000, (1 << 32) - 1)
        ip.scan[arg(2)] = (start, well)
        rc, text = run(ip, argc, n=n)
        got = scanned(ip)
        for i in range(2, argc):
            if i not in got or not got[i][1] or (i == 2 and where == 'bad'):
                ip.require(ip.truth(rc), 'a malformed argument makes the tool fail', 'argument %d' % i)
                ip.require(any(isinstance(p, str) and 'Usage' in p for p in text.p), 'a malformed argument explains the usage', lambda: repr(text))
                return
        ip.require(got[2][0] == '%x' and all(got[i][0] == '%d' for i in range(3, argc)), 'the address is hexadecimal, the rest decimal')
        o = start - L(0xc00000)
        vals = []
        for i in range(want):
            v = ZERO
            for b in range(st):
                k = i * st + b
                if where == 'wrap':
                    m = L(0x100000 + ((0xffff + k) & 0xffff))
                else:
                    m = o + k
                if not ip.cond('<', m, n):
                    ip.require(ip.truth(rc), 'a failed read makes the tool fail')
                    lines = items(text)
                    ip.require(len(lines) == 1 and bool(lines[0]) and lines[0][0] != ('.org',), 'a failed read prints its error and no listing', lambda: repr(text))
                    return
                v = v + byte(ip, 'data', m).scale(1 << (8 * b))
            vals.append(v)
        ip.require(not ip.truth(rc), 'a complete dump succeeds')
        lines = items(text)
        ip.require(len(lines) == 1 + (want + pl - 1) // pl, 'the listing has one line per group of values', lambda: repr(text))
        ip.require(len(lines[0]) == 2 and lines[0][0] == ('.org',), 'the listing starts with its origin', lambda: repr(lines[0]))
        ip.req_eq(value_of(ip, lines[0][1], 6), start, 'the origin is the address given')
        k = 0
        for ln in lines[1:]:
            ip.require(ln[0] == (WORD[st],), 'values are listed with the directive of their width', lambda: repr(ln))
            vs = ln[1:]
            ip.require(all((w == (',',)) == (i % 2 == 1) for i, w in enumerate(vs)) and len(vs) % 2 == 1, 'values are separated by commas', lambda: repr(ln))
            vs = vs[::2]
            ip.require(len(vs) == min(pl, want - k), 'a line holds as many values as asked', lambda: repr(ln))
            for w in vs:
                ip.req_eq(value_of(ip, w, 2 * st), vals[k], 'each value is the one stored at its address')
                k += 1

    def add(argc, count, stride, per, where, well=True):
        nm = 'dump %s values' % (count,)
        if argc > 4:
            nm += ', stride %s' % (stride,)
        if argc > 5:
            nm += ', %s per line' % (per,)
        nm += ', %s, %s' % (where, 'well-formed' if well else 'any arguments')
        c.scenario(nm, lambda ip: dump(ip, argc, count, stride, per, where, well), prog=pr, unroll=24)

    for argc in (4, 5, 6):
        for where in ('good', 'bad'):
            add(argc, ('le', 1), ('le', 1), ('le', 1), where, False)
    for k in (1, 2, 7, 8, 9, 16, 17) if quick else range(1, 20):
        add(4, k, None, None, 'inside')
    for where in ('inside', 'wrap', 'end'):
        for stride in (('le', 0), 1, 2, 3, ('ge', 4)):
            for k in (('le', 1), 1, 2, 3) if quick else (('le', 1), 1, 2, 3, 4, 5):
                add(5, k, stride, None, where)
    for stride in (1, 2, 3):
        for per in (('le', 1), 2, 3, 4, ('ge', 7)):
            for k in (1, 3, 4, 5) if quick else (1, 2, 3, 4, 5, 6):
                add(6, k, stride, per, 'inside')
