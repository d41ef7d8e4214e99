"""Tokens into statements."""
from props.common import *
from props.p16 import Flags
from props.p24 import text
from props.p29 import KIND
from props.p30 import tstr

EXPLANATION = (
    'Abstract interpretation of the parser over lines of tokens whose kinds and values are symbolic, decided only as far as the '
    'parser looks, with prescribed outcomes for mode names and for the selection of addressing modes, against an independent '
    'recursive-descent statement of the grammar: the same lines are refused, always at their location, and all others yield '
    'the same labels, instructions, directives and expression trees in order, with nothing of the line lost.')
ASSUMPTIONS = ['the tokens of a line end with its end, as P30 states',
               'addressing modes are selected as P25 states, and modes named as P19 states']
MODE = (0, 0, 1, 3)
IDENT, INT, MNEM, SUFF, DIR, PUNCT, END = range(7)
PUNCTS = '()[],:#+-*/@{}><^ASXY'


class Refuse(Exception):
    pass


class Line:
    """n symbolic tokens, then the end of the line.  given[i] fixes token i: a character or P_ name, or a kind."""

    def __init__(self, ip, n, given=(), tag=''):
        self.ip = ip
        p = ip.p
        self.loc = ip.alloc(ip.val(ip.new('nsasm::Location', Str(('prog.asm',)), L(7))), 'loc')
        f = [f for f in p.find('nsasm::Token::Token') if 'EndOfLine' in tstr(p, f['params'][0]['t'])]
        if not f:
            raise AnalysisError('end-of-line token not found')
        end = ip.val(ip.construct_rec('nsasm::Token', {'usr': f[0]['usr']}, [ip.new_obj('nsasm::EndOfLine'), ip.load(self.loc)], {'k': 'ctor'}))
        fl = [(k, t) for k, t in ip.fields('nsasm::Token') if p.types[t].get('base') == 'std::variant']
        ty = [k for k, t in ip.fields('nsasm::Token') if p.types[t].get('name') == 'nsasm::NumericType']
        if len(fl) != 1 or len(ty) != 1:
            raise AnalysisError('value of a token not found')
        self.alts = [tstr(p, t) for t in p.types[fl[0][1]]['args']]
        want = ('basic_string', 'int', 'Mnemonic', 'Suffix', 'DirectiveName', 'Punctuation', 'EndOfLine')
        self.alt = [next(i for i, s in enumerate(self.alts) if (s == w if w == 'int' else w in s)) for w in want]
        self.T = p.enum('nsasm::NumericType')
        self.P = p.enum('nsasm::Punctuation')
        toks = []
        for i in range(n):
            v = Sym(fl[0][1], 'token%s%d' % (tag, i))
            t = end.with_(fl[0][0], v)
            t = t.with_(ty[0], L(self.T[('T_word', 'T_byte', 'T_long', 'T_unknown')[i % 4]]))
            toks.append(t)
        self.toks = [ip.alloc(t, 'token') for t in toks + [end]]
        self.syms = [t.f[fl[0][0]] for t in toks]
        self.n = n
        for i in range(n):
            self.fix(i, given[i] if i < len(given) else None)
        tid = ip.tid('nsasm::Token')
        self.seq = ip.alloc(Seq(tuple(E(ip.load(t)) for t in self.toks), tid), 'tokens')
        self.span = View(self.seq, ZERO, L(n + 1))
        self.tv = fl[0][0]

    def d(self, i):
        s = self.syms[i]
        return L(Sym(s.tid, s.name + '.alt', s.idx).at(0, len(self.alts) - 1))

    def fix(self, i, g):
        ip = self.ip
        if g is None:
            if not ip.st.facts.add_ne(self.d(i) - self.alt[END]):
                raise Infeasible()
            return
        k = g if isinstance(g, int) else DIR if g.startswith('D_') else PUNCT
        ip.assume(self.alt[k], self.d(i), self.alt[k])
        if k == DIR and not isinstance(g, int):
            v = ip.p.enum('nsasm::DirectiveName')[g]
            ip.assume(v, self.value(i), v)
        if k == PUNCT and not isinstance(g, int):
            v = self.P[g] if g.startswith('P_') else ord(g)
            ip.assume(v, self.value(i), v)

    def kind(self, i, k):
        if i == self.n:
            return k == END
        return self.ip.alt_is(self.syms[i], self.alt[k])

    def value(self, i):
        v = self.ip.force(self.syms[i])
        return self.ip.force(v.v)

    def p(self, i, ch):
        """token i is the symbol or reserved word ch"""
        v = self.P[ch] if ch.startswith('P_') else ord(ch)
        return self.kind(i, PUNCT) and self.ip.cond('==', self.value(i), v)


def hooks(ip, mode=True):
    """Prescribed selection of addressing modes, register widths and mode names."""
    def deduce(ip, f, this, args, node):
        m, sa = ip.val(args[0]), ip.val(args[1])
        ts = tuple(text(ip, ip.loc_of(a)) for a in args[2:4])
        return outcome(ip, ret_rec(ip, f), m, sa, ts)

    def outcome(ip, rec, m, sa, ts):
        key = ('mode of', repr(ip.expand(m)), repr(sa), ts)
        if ip.branch_prop(key):
            return success(ip, rec, sym('mode %s' % (key[1:],), 0, 26))
        return failure(ip, rec, Str(('no such mode',)))

    ip.hooks['nsasm::DeduceMode'] = deduce

    def sized(ip, f, this, args, node):
        U = ip.p.enum('nsasm::StatusFlagUsed')
        return L(U['kUsesMFlag'] if ip.branch_prop(('sized', repr(ip.expand(ip.val(args[0]))))) else U['kNotVariable'])
    ip.hooks['nsasm::FlagControllingInstructionSize'] = sized

    def from_name(ip, f, this, args, node):
        s = ip.str_of(ip.val(args[0]))
        if ip.branch_prop(('mode name', s)):
            return Opt(ip.val(Flags(ip).make(MODE)))
        return Opt(None)
    ip.hooks['nsasm::StatusFlags::FromName'] = from_name


class Grammar:
    """The specified reading of a line."""

    def __init__(self, ip, line):
        self.ip, self.t, self.i = ip, line, 0
        self.out = []

    def at_end(self, suffix=False):
        t, i = self.t, self.i
        return t.kind(i, END) or t.p(i, ':') or (suffix and (t.p(i, 'P_yields') or t.p(i, 'P_noreturn')))

    def take(self, *chs):
        """consume the symbol if it is next"""
        for ch in chs:
            if self.t.p(self.i, ch):
                self.i += 1
                return ch
        return None

    def need(self, *chs):
        r = self.take(*chs)
        if not r:
            raise Refuse('%s expected' % '/'.join(chs))
        return r

    def ended(self, suffix=False):
        if not self.at_end(suffix):
            raise Refuse('more than fits')

    def word(self):
        if not self.t.kind(self.i, IDENT):
            raise Refuse('name expected')
        s = self.ip.str_of(self.t.value(self.i))
        self.i += 1
        return s

    # ---- expressions
    def expr(self):
        a = self.term()
        while not self.at_end():
            op = self.take('+', '-')
            if not op:
                break
            a = ('bin', op, a, self.term())
        return a

    def term(self):
        a = self.factor()
        while not self.at_end():
            op = self.take('*', '/')
            if not op:
                break
            a = ('bin', op, a, self.factor())
        return a

    def factor(self):
        op = self.take('-', '<', '>', '^')
        if op:
            return ('un', op, self.factor())
        t = self.t
        if t.kind(self.i, INT):
            v = t.value(self.i)
            ty = self.ip.val(self.ip.m(t.toks[self.i], 'Type'))
            self.i += 1
            return ('lit', v, ty)
        long_ = self.take('@')
        if self.take('P_scope'):
            return ('id', Str(()), self.word(), long_)
        if t.kind(self.i, IDENT):
            a = self.word()
            if self.take('P_scope'):
                return ('id', a, self.word(), long_)
            return ('id', None, a, long_)
        if long_:
            raise Refuse('name expected after @')
        if self.take('('):
            a = self.expr()
            self.need(')')
            return a
        raise Refuse('expression expected')

    # ---- instructions
    def operand(self):
        """(syntactic mode, arguments)"""
        if self.at_end(True):
            return 'SA_imp', ()
        if self.take('A'):
            self.ended(True)
            return 'SA_acc', ()
        if self.take('#'):
            a = self.expr()
            if self.at_end(True):
                return 'SA_imm', (a,)
            self.need(',')
            self.need('#')
            b = self.expr()
            self.ended(True)
            return 'SA_mov', (a, b)
        if self.take('['):
            a = self.expr()
            self.need(']')
            if self.at_end(True):
                return 'SA_lng', (a,)
            self.need(',')
            self.need('Y')
            self.ended(True)
            return 'SA_lng_y', (a,)
        start = self.i
        if self.take('('):
            a = self.expr()
            if self.take(','):
                if self.need('X', 'S') == 'X':
                    self.need(')')
                    self.ended(True)
                    return 'SA_ind_x', (a,)
                for ch in '),Y':
                    self.need(ch)
                self.ended(True)
                return 'SA_stk_y', (a,)
            self.need(')')
            if self.at_end(True):
                return 'SA_ind', (a,)
            if self.take(','):
                self.need('Y')
                self.ended(True)
                return 'SA_ind_y', (a,)
            self.i = start
        a = self.expr()
        if self.at_end(True):
            return 'SA_dir', (a,)
        self.need(',')
        r = self.need('X', 'Y', 'S')
        self.ended(True)
        return {'X': 'SA_dir_x', 'Y': 'SA_dir_y', 'S': 'SA_stk'}[r], (a,)

    def convention(self):
        if self.take('P_noreturn'):
            return 'never'
        if self.take('P_yields'):
            self.mode()
            return 'yields'
        return 'default'

    def mode(self):
        if not self.ip.branch_prop(('mode name', self.word())):
            raise Refuse('no mode name')

    def instruction(self):
        ip, t = self.ip, self.t
        m = t.value(self.i)
        self.i += 1
        suffix = L(ip.p.enum('nsasm::Suffix')['S_none'])
        if t.kind(self.i, SUFF):
            suffix = t.value(self.i)
            self.i += 1
        sa, args = self.operand()
        es = [build(ip, a) for a in args]
        key = ('mode of', repr(ip.expand(m)), repr(L(ip.p.enum('nsasm::SyntacticAddressingMode')[sa])),
               tuple(text(ip, es[k]) if k < len(es) else Str(('<NULL>',)) for k in range(2)))
        if not ip.branch_prop(key):
            raise Refuse('no such addressing mode')
        if not ip.cond('==', suffix, ip.p.enum('nsasm::Suffix')['S_none']) and not ip.branch_prop(('sized', repr(ip.expand(m)))):
            raise Refuse('length suffix on an instruction without length')
        conv = self.convention()
        M = ip.p.enum('nsasm::Mnemonic')
        if conv != 'default' and not ip.cond('==', m, M['M_jsl']) and not ip.cond('==', m, M['M_jsr']):
            raise Refuse('return convention on an instruction that does not call')
        self.ended()
        self.out.append(('instruction', m, suffix, sym('mode %s' % (key[1:],), 0, 26), es, conv))
        self.i += 1

    # ---- directives
    def directive(self):
        ip, t = self.ip, self.t
        d = t.value(self.i)
        self.i += 1
        D = ip.p.enum('nsasm::DirectiveName')
        name = next(k for k in D if ip.cond('==', d, D[k]))
        k = KIND[name]
        arg, lst, flags, conv = None, [], False, 'default'
        if k in ('single_arg', 'constant_arg', 'name_arg', 'remote_arg'):
            a = self.expr()
            if k == 'constant_arg' and names_in(a):
                raise Refuse('constant expected')
            if k == 'name_arg' and not (a[0] == 'id' and a[1] is None):
                raise Refuse('plain name expected')
            arg = build(ip, a)
        if k == 'list_arg':
            lst.append(build(ip, self.expr()))
            while not self.at_end():
                self.need(',')
                lst.append(build(ip, self.expr()))
        if k in ('flag_arg', 'remote_arg', 'calling_convention_arg'):
            self.mode()
            flags = True
            if k != 'flag_arg':
                conv = self.convention()
        self.ended()
        self.out.append(('directive', L(D[name]), arg, lst, flags, conv))
        self.i += 1

    def line(self):
        t = self.t
        while self.i <= t.n:
            exported = bool(self.take('P_export'))
            if exported and not t.kind(self.i, IDENT):
                raise Refuse('name expected after export')
            if t.kind(self.i, IDENT):
                self.out.append(('label', self.word(), exported))
                if self.take(':'):
                    continue
            if self.at_end():
                self.i += 1
                continue
            b = self.take('{', '}')
            if b:
                D = self.ip.p.enum('nsasm::DirectiveName')
                self.out.append(('directive', L(D['D_begin' if b == '{' else 'D_end']), None, [], False, 'default'))
            elif t.kind(self.i, DIR):
                self.directive()
            elif t.kind(self.i, MNEM):
                self.instruction()
            else:
                raise Refuse('nothing a statement begins with')
        return self.out


def names_in(a):
    return a[0] == 'id' or any(names_in(x) for x in a[1:] if isinstance(x, tuple))


def build(ip, a):
    """the expression object of a specified tree"""
    if a[0] == 'lit':
        return ip.alloc(ip.new('nsasm::Literal', a[1], a[2]), 'lit')
    if a[0] == 'id':
        T = ip.p.enum('nsasm::NumericType')
        fi = ip.new('nsasm::FullIdentifier', *([a[1]] if a[1] is not None else []), a[2])
        return ip.alloc(ip.new('nsasm::IdentifierExpression', fi, L(T['T_long' if a[3] else 'T_word'])), 'id')
    h = lambda x: ip.val(ip.new('nsasm::ExpressionOrNull', build(ip, x), kinds=['const nsasm::Expression']))
    mk = {('bin', '+'): 'Plus', ('bin', '-'): 'Minus', ('bin', '*'): 'Multiply', ('bin', '/'): 'Divide',
          ('un', '-'): 'Negate', ('un', '<'): 'Lowbyte', ('un', '>'): 'Highbyte', ('un', '^'): 'Bankbyte'}[a[:2]]
    op = ip.val(ip.fcall('nsasm::Make%sOp' % mk))
    cls = 'nsasm::BinaryExpression' if a[0] == 'bin' else 'nsasm::UnaryExpression'
    return ip.alloc(ip.new(cls, *[h(x) for x in a[2:]], op), 'expr')


def same_expr(ip, at, want, clause):
    g = text(ip, at)
    w = text(ip, want) if want is not None else Str(('<NULL>',))
    ip.require(ip.str_eq(g, w), clause, lambda: '%r, specified %r' % (g, w))
    if want is not None:
        ip.req_eq(ip.val(ip.m(at, 'Type')), ip.val(ip.m(want, 'Type')), clause)


def convention(ip, kind):
    if kind == 'never':
        return ip.val(ip.new('nsasm::ReturnConvention', ip.new_obj('nsasm::NoReturn'), kinds=['NoReturn']))
    if kind == 'yields':
        return ip.val(ip.new('nsasm::ReturnConvention', Flags(ip).make(MODE), kinds=['StatusFlags']))
    return ip.val(ip.new('nsasm::ReturnConvention'))


def parse(ip, line):
    """Run the parser and compare with the grammar."""
    hooks(ip)
    r = ip.alloc(ip.fcall('nsasm::Parse', line.span), 'parsed')
    ok = ip.ok(r)
    try:
        want = Grammar(ip, line).line()
    except Refuse as e:
        ip.require(not ok, 'a line is refused exactly when it is outside the grammar', str(e) + ', but the line is accepted')
        m = ip.str_of(ip.val(ip.m(ip.loc_of(ip.error(r)), 'ToString')))
        ip.require(bool(m.p) and isinstance(m.p[0], str) and m.p[0].startswith('prog.asm:7: '), 'a refusal names the location of the line', lambda: repr(m))
        return
    ip.require(ok, 'a line is refused exactly when it is outside the grammar', lambda: 'refused: %r' % (want,))
    seq = ip.seq_of(ip.value(r))
    if seq is None or not seq.concrete():
        raise PathEnd('unknown', 'parsed line %r' % (seq,))
    ip.require(len(seq.parts) == len(want), 'nothing of a line is lost or invented', lambda: '%d items, specified %d' % (len(seq.parts), len(want)))
    for e, w in zip(seq.parts, want):
        at = ip.alloc(ip.force(e.v), 'item')
        v = ip.load(at)
        lab = isinstance(v.v, Obj) and v.v.cls == 'nsasm::ParsedLabel'
        ip.require(lab == (w[0] == 'label'), 'labels, instructions and directives come in the order of the line', lambda: repr(w))
        x = at.ext(('v', v.i))
        if lab:
            ip.require(ip.truth(ip.val(ip.m(x, 'IsIdentifier'))), 'a label is the name before its colon')
            s = ip.str_of(ip.val(ip.m(x, 'Identifier')))
            ip.require(ip.str_eq(s, w[1]), 'a label is the name before its colon', lambda: repr(s))
            ip.require(ip.truth(ip.val(ip.m(x, 'IsExported'))) == w[2], 'a label is exported exactly when the line says so')
            continue
        const = lambda f: not f.get('const')
        q = ip.force(ip.m(x, 'Instruction' if w[0] == 'instruction' else 'Directive'))
        ip.require(q.cell is not None, 'labels, instructions and directives come in the order of the line', lambda: repr(w))
        f = lambda k: q.ext(('f', k))
        ip.require(ip.value_eq(ip.load(f('location')), ip.load(line.loc)), 'every statement carries the location of its line')
        if w[0] == 'instruction':
            ip.req_eq(ip.load(f('mnemonic')), w[1], 'an instruction has the mnemonic, suffix and mode written')
            ip.req_eq(ip.load(f('suffix')), w[2], 'an instruction has the mnemonic, suffix and mode written')
            ip.req_eq(ip.load(f('addressing_mode')), w[3], 'an instruction has the mnemonic, suffix and mode written')
            for k in range(2):
                same_expr(ip, f('arg%d' % (k + 1)), w[4][k] if k < len(w[4]) else None, 'operands are the expressions written')
            ip.require(ip.value_eq(ip.load(f('return_convention')), convention(ip, w[5])), 'a call has the return convention written', w[5])
        else:
            ip.req_eq(ip.load(f('name')), w[1], 'a directive is the one written')
            same_expr(ip, f('argument'), w[2], 'arguments are the expressions written')
            ls = ip.seq_of(ip.load(f('list_argument')))
            if ls is None or not ls.concrete():
                raise PathEnd('unknown', 'list %r' % (ls,))
            ip.require(len(ls.parts) == len(w[3]), 'arguments are the expressions written', lambda: '%d in the list' % len(ls.parts))
            for a, b in zip(ls.parts, w[3]):
                same_expr(ip, ip.alloc(ip.force(a.v), 'arg'), b, 'arguments are the expressions written')
            if w[4]:
                ip.require(ip.value_eq(ip.load(f('flag_state_argument')), ip.val(Flags(ip).make(MODE))), 'a directive has the mode written')
            ip.require(ip.value_eq(ip.load(f('return_convention_argument')), convention(ip, w[5])), 'a directive has the return convention written', w[5])


STARTS = [INT, IDENT, MNEM, SUFF, DIR] + list('()[],:#+-*/@{}><^ASXY') + ['P_scope', 'P_export', 'P_noreturn', 'P_yields', 'P_plusplus', 'P_minusminusminus']
NAME = {INT: 'number', IDENT: 'name', MNEM: 'mnemonic', SUFF: 'suffix', DIR: 'directive', PUNCT: 'symbol'}


def show(g):
    return ' '.join(NAME[x] if isinstance(x, int) else x for x in g)


def check(c):
    deep = c.tier == 'thorough'

    def lines(given, n):
        def run(ip):
            parse(ip, Line(ip, len(given) + n, given))
        c.scenario('%s and any %d' % (show(given) or 'line', n), run, unroll=40, max_paths=60000, max_steps=8000000)

    # what a line may begin with
    lines((), 0)
    lines((), 1)
    for s in STARTS:
        lines((s,), 1)
    for g in ((IDENT,), (IDENT, ':'), ('P_export', IDENT), ('P_export', IDENT, ':'), (MNEM, ':'), ('{',), ('}',), ('{', '}'), (':',), (':', ':'), ('D_halt', ':'),
              ('D_db', INT, ':'), (MNEM, INT, ':'), (IDENT, ':', IDENT), (IDENT, MNEM, ':'), ('{', IDENT, MNEM, '}')):
        lines(g, 1 if len(g) > 2 and not deep else 2)

    # every prefix of every operand form, then anything
    seen = set()
    forms = [('A',), ('#', INT), ('#', INT, ',', '#', INT), ('[', INT, ']'), ('[', INT, ']', ',', 'Y'), ('(', INT, ')'), ('(', INT, ',', 'X', ')'),
             ('(', INT, ')', ',', 'Y'), ('(', INT, ',', 'S', ')', ',', 'Y'), (INT,), (INT, ',', 'X'), (INT, ',', 'Y'), (INT, ',', 'S'), (IDENT,),
             ('(', INT, ')', '+', INT), ('(', INT, '+', INT, ')'), ('(', IDENT, ')', '*', INT, ',', 'X'), ('(', '(', INT, ')', ')'), (SUFF, INT), (SUFF, '#', INT),
             ('P_noreturn',), ('P_yields', IDENT), (INT, 'P_yields', IDENT), (INT, 'P_noreturn'), ('[', IDENT, ']', 'P_noreturn'), ('(', IDENT, ')', 'P_yields', IDENT)]
    for f in forms:
        for k in range(len(f) + 1):
            g = (MNEM,) + f[:k]
            if g not in seen:
                seen.add(g)
                lines(g, 2 if deep or len(g) < 3 and f[0] != SUFF else 1)

    # directives
    for d, k in KIND.items():
        lines((d,), 2 if k not in ('single_arg', 'list_arg') or d in ('D_equ', 'D_db') else 1)
    for g in (('D_db', INT, ','), ('D_db', INT, ',', INT), ('D_dw', IDENT, ',', INT, ','), ('D_remote', INT), ('D_remote', INT, IDENT), ('D_remote', INT, IDENT, 'P_yields'),
              ('D_remote', INT, IDENT, 'P_noreturn'), ('D_entry', IDENT), ('D_entry', IDENT, 'P_yields'), ('D_entry', IDENT, 'P_yields', IDENT), ('D_entry', IDENT, 'P_noreturn'),
              ('D_mode', IDENT), ('D_org', INT), ('D_org', INT, '+'), ('D_org', '(', IDENT, ')'), ('D_module', IDENT, 'P_scope'), ('D_module', '(', IDENT, ')'),
              ('D_equ', INT, '*'), ('D_dl', INT, ',', INT, ',', INT)):
        lines(g, 2 if deep else 1)

    # expressions
    for g in ((INT,), (IDENT,), (IDENT, 'P_scope'), (IDENT, 'P_scope', IDENT), ('P_scope',), ('P_scope', IDENT), ('@',), ('@', 'P_scope'), ('@', IDENT, 'P_scope'), ('@', 'P_scope', IDENT),
              ('(',), ('(', INT), ('(', INT, ')'), ('-',), ('-', '-'), ('<', '>'), ('^', '('), (INT, '+'), (INT, '-', INT), (INT, '*', INT), (INT, '+', INT, '*', INT),
              (INT, '*', '(', INT), ('(', '(', INT, ')')):
        lines(('D_equ',) + g, 2 if deep or len(g) < 2 else 1)

    def chain(ip, n, unary):
        import itertools
        every = list(itertools.product('+-*/', repeat=n))
        g = ['D_equ', INT]
        for o in every[ip.choose(len(every))]:
            g += [o] + unary + [INT]
        parse(ip, Line(ip, len(g), g))
    for n in (1, 2, 3) + ((4,) if deep else ()):
        for u in ([], ['-'], ['^']):
            c.scenario('chains of %d operators%s' % (n, ' and ' + u[0] if u else ''), lambda ip, n=n, u=u: chain(ip, n, u), unroll=40)

    def nested(ip, n):
        import itertools
        every = list(itertools.product('+*', repeat=2 * n))
        ops = every[ip.choose(len(every))]
        g = [INT]
        for k in range(n):
            g = ['('] + g + [ops[2 * k], IDENT, ')', ops[2 * k + 1], INT] if k % 2 else [INT, ops[2 * k], '(', IDENT, ops[2 * k + 1]] + g + [')']
        parse(ip, Line(ip, len(g) + 1, ['D_equ'] + g))
    for n in (1, 2):
        c.scenario('nests of depth %d' % n, lambda ip, n=n: nested(ip, n), unroll=40)

    p = c.prog()

    def labels(ip):
        """labels print as written"""
        n = Str((('sub', 'label', ZERO, sym('label.len', 1, 64)),))
        for ex in (0, 1):
            x = ip.alloc(ip.new('nsasm::ParsedLabel', n, L(ex)), 'label')
            s = ip.str_of(ip.val(ip.m(x, 'ToString')))
            ip.require(ip.str_eq(s, Str(('export ',)) + n if ex else n), 'a label prints as written', lambda: repr(s))
    c.scenario('text of labels', labels)

    def expression(ip, g, n):
        """the entry point for a lone expression"""
        hooks(ip)
        line = Line(ip, len(g) + n, g)
        rec = ret_rec(ip, p.fn('nsasm::Tokenize', 2))
        fails = ip.cond('==', sym('text has tokens', 0, 1), 0)
        ip.hooks['nsasm::Tokenize'] = lambda ip, f, this, args, node: failure(ip, rec, Str(('bad text',))) if fails else success(ip, rec, ip.load(line.seq))
        r = ip.alloc(ip.fcall('nsasm::ParseExpression', symstr('source')), 'parsed')
        ok = ip.ok(r)
        if fails:
            ip.require(not ok, 'text that is no expression is refused')
            return
        gr = Grammar(ip, line)
        try:
            want = gr.expr()
            gr.ended()
        except Refuse as e:
            ip.require(not ok, 'text that is no expression is refused', str(e))
            return
        ip.require(ok, 'an expression is accepted')
        same_expr(ip, ip.value_loc(r), build(ip, want), 'an expression is the one written')
    for g, n in (((), 1), ((INT,), 1), ((IDENT, '+'), 2), (('(', INT), 2)):
        c.scenario('expression %s and any %d' % (show(g), n), lambda ip, g=g, n=n: expression(ip, g, n), unroll=40, max_paths=20000)
