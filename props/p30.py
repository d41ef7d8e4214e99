"""Source text into tokens."""
from props.common import *
from props.p12 import REAL, PSEUDO, DIRS

EXPLANATION = (
    'Abstract interpretation of the tokenizer over texts of fixed length whose characters are symbolic, with the tables of names '
    'replaced by arbitrary outcomes, against an independent statement of the lexical syntax: every text splits into the longest '
    'possible tokens in order; the value and the width of a literal follow from its digits; a literal that does not fit and a '
    'character no token begins with are refused, at the location of the line.')
ASSUMPTIONS = ['the name tables behave as P12 states']
SINGLE = '()[],:#+-*/@{}><^'
KEYWORDS = {'export': 'P_export', 'noreturn': 'P_noreturn', 'yields': 'P_yields'}
SPACE = ' \t\n\v\f\r'
HEX = ((48, 57, 48), (97, 102, 87), (65, 70, 55))


class Source:
    """A text of n symbolic characters; fixed characters may be given."""

    def __init__(self, ip, n, name='text'):
        self.ip, self.n, self.name = ip, n, name
        ip.st.facts.prop[('chars', name)] = True
        self.c = [L(ip.char_atom(name, L(i))) for i in range(n)]
        self.text = Str((('sub', name, ZERO, L(n)),))

    def fix(self, i, s):
        for k, ch in enumerate(s):
            self.ip.assume(ord(ch), self.c[i + k], ord(ch))

    def among(self, i, lo, hi):
        self.ip.assume(ord(lo), self.c[i], ord(hi))

    def sub(self, i, j):
        return Str((('sub', self.name, L(i), L(j - i)),))

    def is_(self, i, s):
        """character i is one of s"""
        if i >= self.n:
            return False
        for ch in s:
            if self.ip.cond('==', self.c[i], ord(ch)):
                return True
        return False

    def within(self, i, *ranges):
        if i >= self.n:
            return False
        return any(self.ip.cond('>=', self.c[i], r[0]) and self.ip.cond('<=', self.c[i], r[1]) for r in ranges)


def tables(ip):
    """Prescribed outcomes for the name tables; only texts of a possible length are names."""
    def hook(kind, lens):
        def look(ip, f, this, args, node):
            s = ip.str_of(ip.val(args[0]))
            n = ip.expand(ip.str_len(s))
            if n.const is None:
                raise PathEnd('unknown', 'name of unknown length %r' % (s,))
            return named(ip, kind, s) if n.c in lens else Opt(None)
        return look
    ip.hooks['nsasm::ToMnemonic'] = hook('mnemonic', {3})
    ip.hooks['nsasm::ToSuffix'] = hook('suffix', {2})
    ip.hooks['nsasm::ToDirectiveName'] = hook('directive', {len(d) + 1 for d in DIRS})


def named(ip, kind, s):
    """what the table says about s: an optional value; the same for every spelling that differs in case only"""
    s = Str(tuple(q for x in s.p for q in (x[1].p if not isinstance(x, str) and x[0] in ('lower', 'upper') else (x.lower(),) if isinstance(x, str) else (x,))))
    cs = ip.chars_of(s)
    if cs is None:
        raise PathEnd('unknown', 'name %r' % (s,))
    cs = tuple(ip.expand(x) for x in cs)

    def lower(x):
        x = ip.expand(x)
        return x + 32 if x.const is not None and 65 <= x.c <= 90 else x

    for e in ip.st.ev:
        if e[0] == 'named' and e[1] == kind and len(e[2]) == len(cs) and all((lower(x) - lower(y)) == ZERO or ip.st.facts.eq0(lower(x) - lower(y)) is True for x, y in zip(e[2], cs)):
            return e[3]
    key = repr(cs)
    r = Opt(sym('%s %s' % (kind, key), 0, 255)) if ip.branch_prop(('is a', kind, key)) else Opt(None)
    ip.st.ev = ip.st.ev + (('named', kind, cs, r),)
    return r


IDENT1 = ((97, 122), (65, 90), (95, 95))
IDENT = IDENT1 + ((48, 57),)


def split(ip, t):
    """The specified tokens of a text, or the message an error must contain."""
    i, out = 0, []

    def run(i, *ranges):
        j = i
        while t.within(j, *ranges):
            j += 1
        return j

    def value(i, j, base):
        v = ZERO
        for k in range(i, j):
            for lo, hi, off in HEX:
                if ip.cond('>=', t.c[k], lo) and ip.cond('<=', t.c[k], hi):
                    v = v.scale(base) + t.c[k] - off
                    break
        return v

    while True:
        while i < t.n and (t.within(i, (9, 13)) or t.is_(i, ' ')):
            i += 1
        if i == t.n or t.is_(i, ';'):
            return out + [('end',)]
        for ch, codes in (('+', (43, 'P_plusplus', 'P_plusplusplus')), ('-', (45, 'P_minusminus', 'P_minusminusminus')), (':', (58, 'P_scope'))):
            k = 0
            while k < len(codes) and t.is_(i + k, ch):
                k += 1
            if k:
                out.append(('punctuation', codes[k - 1]))
                i += k
                break
        else:
            k = next((ch for ch in SINGLE if ch not in '+-:' and t.is_(i, ch)), None)
            if k:
                out.append(('punctuation', ord(k)))
                i += 1
                continue
            j = None
            if t.is_(i, '$') and t.within(i + 1, *HEX):
                i += 1
                j = run(i, *HEX)
            elif t.is_(i, '0') and t.is_(i + 1, 'xX') and t.within(i + 2, *HEX):
                i += 2
                j = run(i, *HEX)
            if j:
                n = j - i
                lit = (value(i, j, 16), 'T_byte' if n <= 2 else 'T_word' if n <= 4 else 'T_long')
            elif t.is_(i, '%') and t.within(i + 1, (48, 49)):
                i += 1
                j = run(i, (48, 49))
                n = j - i
                lit = (value(i, j, 2), 'T_byte' if n <= 8 else 'T_word' if n <= 16 else 'T_long')
            elif t.within(i, (48, 57)):
                j = run(i, (48, 57))
                lit = (value(i, j, 10), 'T_unknown')
            if j:
                if ip.cond('>', lit[0], (1 << 31) - 1):
                    return 'a literal is too large'
                out.append(('literal',) + lit)
                i = j
                continue
            if t.is_(i, '.'):
                j = run(i + 1, *IDENT)
                s = t.sub(i, j)
                for kind, lens in (('directive', {len(d) + 1 for d in DIRS}), ('suffix', {2})):
                    v = named(ip, kind, s) if j - i in lens else Opt(None)
                    if v.v is not None:
                        out.append((kind, v.v))
                        break
                else:
                    return 'a dotted word is no name'
                i = j
                continue
            if t.within(i, *IDENT1):
                j = run(i + 1, *IDENT)
                s = t.sub(i, j)
                v = named(ip, 'mnemonic', s) if j - i == 3 else Opt(None)
                if v.v is not None:
                    out.append(('mnemonic', v.v))
                elif j - i == 1 and t.is_(i, 'AaSsXxYy'):
                    out.append(('punctuation', next(ord(ch) for ch in 'ASXY' if t.is_(i, ch + ch.lower()))))
                else:
                    w = next((w for w in KEYWORDS if len(w) == j - i and all(t.is_(i + k, ch + ch.upper()) for k, ch in enumerate(w))), None)
                    out.append(('punctuation', KEYWORDS[w]) if w else ('identifier', s))
                i = j
                continue
            return 'no token begins with a character'


KINDS = ('Identifier', 'Literal', 'Mnemonic', 'Suffix', 'DirectiveName', 'Punctuation', 'EndOfLine')
KIND = dict(identifier='Identifier', literal='Literal', mnemonic='Mnemonic', suffix='Suffix', directive='DirectiveName', punctuation='Punctuation', end='EndOfLine')


def is_null(v):
    return isinstance(v, Ptr) and v.cell is None


def judge(ip, t, want=None):
    """Compare the tokenizer with the specification (or with given tokens)."""
    tables(ip)
    line = sym('line', 1, 1 << 20)
    loc = ip.alloc(ip.val(ip.new('nsasm::Location', Str(('prog.asm',)), line)), 'loc')
    r = ip.alloc(ip.fcall('nsasm::Tokenize', t.text, loc), 'tokens')
    if want is None:
        want = split(ip, t)
    ok = ip.ok(r)
    if isinstance(want, str):
        ip.require(not ok, 'text is refused exactly when it cannot be split into tokens', want + ' but the text is accepted')
        located(ip, r, loc)
        return
    ip.require(ok, 'text is refused exactly when it cannot be split into tokens', lambda: 'refused: %r' % (want,))
    seq = ip.seq_of(ip.value(r))
    if seq is None or not seq.concrete():
        raise PathEnd('unknown', 'tokens %r' % (seq,))
    ip.require(len(seq.parts) == len(want), 'text splits into the longest tokens', lambda: '%d tokens, specified %r' % (len(seq.parts), want))
    for p, w in zip(seq.parts, want):
        token(ip, p.v, w)
        tl = ip.val(ip.m(ip.loc_of(p.v), 'Location'))
        ip.require(ip.value_eq(tl, ip.load(loc)), 'every token carries the location of its text', lambda: repr(tl))


def located(ip, r, loc):
    text = ip.str_of(ip.val(ip.m(ip.loc_of(ip.error(r)), 'ToString')))
    at = ip.str_of(ip.val(ip.m(loc, 'ToString'))) + Str((': ',))
    n = len(at.p)
    head = Str(text.p[:n - 1] + (text.p[n - 1][:len(at.p[-1])],)) if len(text.p) >= n and isinstance(text.p[n - 1], str) else None
    ip.require(head == at, 'a refusal names the location', lambda: repr(text))


def token(ip, v, w):
    E = lambda q, x: L(ip.p.enum(q)[x]) if isinstance(x, str) else L(x)
    at = ip.loc_of(v)
    got = {}
    for k in KINDS:
        q = ip.m(at, k)
        q = ip.force(q)
        got[k] = None if is_null(q) else ip.load(q)
    have = [k for k in KINDS if got[k] is not None]
    ip.require(have == [KIND[w[0]]], 'every token has the kind of its text', lambda: '%s, specified %r' % (have, w))
    g = got[have[0]]
    ty = ip.val(ip.m(at, 'Type'))
    T = ip.p.enum('nsasm::NumericType')
    if w[0] == 'literal':
        ip.req_eq(g, w[1], 'a literal has the value its digits spell')
        ip.req_eq(ty, L(T[w[2]]), 'the width of a literal follows from its digits')
        return
    ip.req_eq(ty, L(T['T_unknown']), 'only literals have a width')
    if w[0] == 'punctuation':
        ip.req_eq(g, E('nsasm::Punctuation', w[1]), 'symbols and reserved words are the longest that fit')
    elif w[0] in ('mnemonic', 'suffix', 'directive'):
        ip.req_eq(g, w[1], 'a name stands for what its table says')
    elif w[0] == 'identifier':
        ip.require(ip.str_eq(ip.str_of(g), w[1]), 'an identifier is its text', lambda: 'got %r, specified %r' % (g, w[1]))


def check(c):
    p = c.prog()
    deep = c.tier == 'thorough'

    def arbitrary(n, **kw):
        def run(ip):
            t = Source(ip, n)
            judge(ip, t)
        c.scenario('any %d characters' % n, run, unroll=40, max_paths=40000)
    for n in (0, 1):
        arbitrary(n)
    # two characters: split by the class of the first
    firsts = [('space', 9, 32), ('punctuation !-/', 33, 47), ('digit', 48, 57), ('punctuation :-@', 58, 64), ('capital', 65, 90),
              ('punctuation [-`', 91, 96), ('letter', 97, 122), ('punctuation {-~', 123, 127), ('control', -128, 8)]
    for nm, lo, hi in firsts:
        def two(ip, lo=lo, hi=hi):
            t = Source(ip, 2)
            ip.assume(lo, t.c[0], hi)
            judge(ip, t)
        c.scenario('two characters from a ' + nm, two, unroll=40, max_paths=60000)

    if deep:
        for nm, lo, hi in firsts:
            for nm2, lo2, hi2 in firsts:
                def three(ip, lo=lo, hi=hi, lo2=lo2, hi2=hi2):
                    t = Source(ip, 3)
                    ip.assume(lo, t.c[0], hi)
                    ip.assume(lo2, t.c[1], hi2)
                    judge(ip, t)
                c.scenario('three characters from a %s, a %s' % (nm, nm2), three, unroll=40, max_paths=100000, max_steps=20000000)

    # runs of the repeatable symbols
    for n in (3, 4, 5) + ((6, 7) if deep else ()):
        for ch in '+-:':
            def symbols(ip, n=n, ch=ch):
                t = Source(ip, n)
                t.fix(0, ch * (n - 1))
                judge(ip, t)
            c.scenario('%d times %s and any character' % (n - 1, ch), symbols, unroll=40)

            def mixed(ip, n=n, ch=ch):
                t = Source(ip, n)
                for i in range(n):
                    ip.assume(43, t.c[i], 45 if ch != ':' else 43)
                judge(ip, t)
            if ch == '+' and n <= 5:
                c.scenario('%d of plus, comma, minus' % n, mixed, unroll=40)

    # literals
    forms = [('hex $', '$', HEX, (1, 2, 3, 4, 5, 7, 8, 9)), ('hex 0x', '0x', HEX, (1, 2, 3, 4, 5, 8)), ('hex 0X', '0X', HEX, (2, 4)),
             ('binary', '%', ((48, 49),), (1, 2, 8, 9, 16, 17, 30, 31, 32, 33)), ('decimal', '', ((48, 57),), (1, 2, 5, 9, 10, 11, 18, 20))]
    if deep:
        forms = [(a, b, r, tuple(range(1, 40 if a == 'binary' else 24))) for a, b, r, ns in forms]
    for nm, pre, ranges, ns in forms:
        for n in ns:
            for base in ranges:
                for any_at in (sorted({0, n - 1}) if ranges is HEX else (None,)):
                    def literal(ip, n=n, pre=pre, base=base, any_at=any_at, ranges=ranges):
                        t = Source(ip, len(pre) + n + 1)
                        t.fix(0, pre)
                        for i in range(n):
                            if any_at is None and base == (48, 49):
                                if i not in (0, 1, n // 2, n - 1):
                                    t.fix(len(pre) + i, '1' if i % 3 else '0')
                                elif not t.within(len(pre) + i, (48, 48), (49, 49)):
                                    raise Infeasible()
                            elif i != any_at:
                                ip.assume(base[0], t.c[len(pre) + i], base[1])
                            else:
                                ip.require(True, 'digits')
                                if not t.within(len(pre) + i, *ranges):
                                    raise Infeasible()
                        t.fix(len(pre) + n, ';')
                        judge(ip, t)
                    c.scenario('%s literal of %d digits%s' % (nm, n, '' if any_at is None else ', %s, digit %d any' % (chr(base[0]), any_at)),
                               literal, unroll=60)
        # what ends a literal
        for n in (1, 2, 3):
            def munch(ip, n=n, pre=pre, ranges=ranges):
                t = Source(ip, len(pre) + n + 1)
                t.fix(0, pre)
                for i in range(n):
                    ip.assume(ranges[-1][0], t.c[len(pre) + i], ranges[-1][1])
                judge(ip, t)
            c.scenario('%s literal of %d digits and any character' % (nm, n), munch, unroll=60)
    for pre in ('0x', '0X', '$', '%', '0', '00x', '1x', '$$', '%%'):
        def odd(ip, pre=pre):
            t = Source(ip, len(pre) + 1)
            t.fix(0, pre)
            judge(ip, t)
        c.scenario('%s and any character' % pre, odd, unroll=40)

    # words
    words = list(KEYWORDS) + ['exports', 'expor', 'yield', 'yieldsx', 'noreturns', 'noretur', 'export_', 'sa', 'xy', 'loop2', '_', '_a', 'a_', 'lda', 'ldax', 'jsl',
                              'a', 's', 'x', 'y', 'b']
    for w in words:
        def word(ip, w=w):
            t = Source(ip, len(w) + 1)
            for i, ch in enumerate(w):
                if not t.is_(i, ch + (ch.upper() if ch.isalpha() else '')):
                    raise Infeasible()
            t.fix(len(w), ' ')
            judge(ip, t)
        c.scenario('the word %s in any case' % w, word, unroll=40, max_paths=20000)
    for n in (1, 2, 3, 4, 6, 8):
        for lo, hi in (('a', 'z'), ('A', 'Z'), ('0', '9'), ('_', '_')):
            def ident(ip, n=n, lo=lo, hi=hi):
                t = Source(ip, n + 1)
                if not t.within(0, *IDENT1):
                    raise Infeasible()
                for i in range(1, n):
                    t.among(i, lo, hi)
                judge(ip, t)
            if n > 1 or lo == 'a':
                c.scenario('identifier of %d with %s-%s and any character' % (n, lo, hi), ident, unroll=40, max_paths=20000)
    for n in (1, 2, 3, 4, 5, 6, 7, 8):
        for lo, hi in (('a', 'z'), ('A', 'Z'), ('0', '9'), ('_', '_')):
            def dotted(ip, n=n, lo=lo, hi=hi):
                t = Source(ip, n + 1)
                t.fix(0, '.')
                for i in range(1, n):
                    t.among(i, lo, hi)
                judge(ip, t)
            if n > 1 or lo == 'a':
                c.scenario('dotted word of %d with %s-%s and any character' % (n, lo, hi), dotted, unroll=40, max_paths=20000)

    # sequences
    def sequence(ip, kinds):
        """tokens of the given kinds, separated by one arbitrary white space character each"""
        forms = {'word': 'foo', 'mn': 'lda', 'reg': 'x', 'kw': 'Yields', 'hex': '$1f', 'dec': '42', 'bin': '%101', 'dir': '.org', 'suf': '.b', 'op': '++', 'br': '('}
        txt = ''
        spaces = []
        for k in kinds:
            spaces.append(len(txt))
            txt += ' ' + forms[k]
        t = Source(ip, len(txt) + 2)
        t.fix(len(txt), ';')
        for i, ch in enumerate(txt):
            if i not in spaces:
                t.fix(i, ch)
        for i in spaces:
            if not (ip.cond('==', t.c[i], 32)):
                ip.assume(9, t.c[i], 13)
        judge(ip, t)
    names_ = ['word', 'mn', 'reg', 'kw', 'hex', 'dec', 'bin', 'dir', 'suf', 'op', 'br']
    for a in names_:
        for b in names_:
            c.scenario('%s then %s' % (a, b), lambda ip, a=a, b=b: sequence(ip, (a, b)), unroll=40)

    # tokens as values
    def equality(ip):
        P = p.enum('nsasm::Punctuation')
        loc = ip.alloc(ip.val(ip.new('nsasm::Location')), 'loc')
        loc2 = ip.alloc(ip.val(ip.new('nsasm::Location', Str(('other',)))), 'loc2')
        def mk(kind, v, l):
            rx = {'identifier': 'string', 'literal': '^int$', 'mnemonic': 'Mnemonic', 'suffix': 'Suffix', 'directive': 'DirectiveName', 'punctuation': 'nsasm::Punctuation',
                  'char': '^char$', 'end': 'EndOfLine'}[kind]
            args = [ip.loc_of(v) if kind == 'identifier' else v, ip.load(l)]
            f = [f for f in p.find('nsasm::Token::Token', None) if len(f['params']) >= 2 and re.search(rx, tstr(p, f['params'][0]['t']))]
            if not f:
                raise AnalysisError('Token constructor for %s not found' % kind)
            if len(f[0]['params']) > 2:
                args.append(L(p.enum('nsasm::NumericType')['T_word' if l is loc else 'T_byte']))
            return ip.alloc(ip.construct_rec('nsasm::Token', {'usr': f[0]['usr']}, args, {'k': 'ctor'}), 'tok')
        vals = [('identifier', Str(('foo',))), ('identifier', Str(('Foo',))), ('identifier', Str(('lda',))), ('literal', L(43)), ('literal', L(44)),
                ('mnemonic', L(0)), ('mnemonic', L(43)), ('suffix', L(1)), ('directive', L(0)), ('directive', L(1)), ('punctuation', L(43)), ('char', L(43)),
                ('punctuation', L(P['P_plusplus'])), ('char', L(88)), ('end', ip.new_obj('nsasm::EndOfLine'))]
        norm = lambda k, v: ('punctuation' if k == 'char' else k, repr(v))
        for k1, v1 in vals:
            for k2, v2 in vals:
                a, b = mk(k1, v1, loc), mk(k2, v2, loc2)
                same = norm(k1, v1) == norm(k2, v2)
                tk = lambda f: 'Token' in tstr(p, f['params'][0]['t'])
                eq = ip.truth(ip.val(ip.m(a, 'operator==', b, pred=tk)))
                ne = ip.truth(ip.val(ip.m(a, 'operator!=', b, pred=tk)))
                ip.require(eq == same and ne != same, 'tokens are equal exactly when they say the same', '%s %r and %s %r' % (k1, v1, k2, v2))
    c.scenario('equality of tokens', equality)

    def spelling(ip):
        P = p.enum('nsasm::Punctuation')
        want = {v: k for v, k in ((58, ':'), (P['P_scope'], '::'), (P['P_export'], 'export'), (P['P_noreturn'], 'noreturn'), (P['P_yields'], 'yields'),
                                  (P['P_plusplus'], '++'), (P['P_plusplusplus'], '+++'), (P['P_minusminus'], '--'), (P['P_minusminusminus'], '---'))}
        want.update((ord(ch), ch) for ch in SINGLE + 'ASXY')
        f = [f for f in p.find('nsasm::ToString', 1) if tstr(p, f['params'][0]['t']).endswith('Punctuation')]
        if not f:
            raise AnalysisError('ToString(Punctuation) not found')
        for v, s in want.items():
            g = ip.str_of(ip.val(ip.call_def(f[0], None, [L(v)], {'k': 'call'})))
            ip.require(g.const == s, 'a symbol prints as it is written', lambda: '%r, specified %r' % (g, s))
    c.scenario('spelling of symbols', spelling)


def tstr(p, t):
    t = p.types[t]
    while t['k'] == 'ref':
        t = p.types[t['to']]
    return t['s']
