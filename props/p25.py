"""Addressing mode deduction and operand syntax."""
from props.common import *
from props.isa import *
from props.p24 import ident, held, text, TYPES, WIDTH

EXPLANATION = (
    'Abstract interpretation of addressing-mode deduction for every mnemonic, every syntactic form and every operand type with '
    'symbolic operand values: the deduced mode is the one legal 65816 mode of that form whose operand has the size of the '
    'argument, immediate operands follow the width of their register, and everything else is refused. Operands print in the '
    'syntax of their mode, so that a printed instruction reads back as the same form.')
ASSUMPTIONS = ['the opcode matrix in props/isa.py transcribes the processor data sheet']
FORMS = {'SA_imp': {0: ''}, 'SA_acc': {0: 'A'}, 'SA_dir': {1: 'd', 2: 'a', 3: 'al'}, 'SA_dir_x': {1: 'd,x', 2: 'a,x', 3: 'al,x'},
         'SA_dir_y': {1: 'd,y', 2: 'a,y'}, 'SA_ind': {1: '(d)', 2: '(a)'}, 'SA_ind_x': {1: '(d,x)', 2: '(a,x)'}, 'SA_ind_y': {1: '(d),y'},
         'SA_lng': {1: '[d]', 2: '[a]'}, 'SA_lng_y': {1: '[d],y'}, 'SA_stk': {1: 's'}, 'SA_stk_y': {1: '(s),y'}, 'SA_mov': {1: 'sd'},
         'SA_imm': {1: '#b', 2: '#w'}}
LOOSE = ('SA_imm', 'SA_stk', 'SA_stk_y', 'SA_mov')     # a number without a size is taken when it fits
PRINT = {'A_imp': '', 'A_acc': '', 'A_imm_b': ' #%s', 'A_imm_w': ' #%s', 'A_dir_b': ' %s', 'A_dir_w': ' %s', 'A_dir_l': ' %s',
         'A_dir_bx': ' %s, X', 'A_dir_by': ' %s, Y', 'A_dir_wx': ' %s, X', 'A_dir_wy': ' %s, Y', 'A_dir_lx': ' %s, X', 'A_ind_b': ' (%s)',
         'A_ind_w': ' (%s)', 'A_ind_bx': ' (%s, X)', 'A_ind_by': ' (%s), Y', 'A_ind_wx': ' (%s, X)', 'A_lng_b': ' [%s]', 'A_lng_w': ' [%s]',
         'A_lng_by': ' [%s], Y', 'A_stk': ' %s, S', 'A_stk_y': ' (%s, S), Y', 'A_mov': ' #%s, #%s', 'A_rel8': ' %s', 'A_rel16': ' %s',
         'A_imm_fm': ' #%s', 'A_imm_fx': ' #%s'}


def check(c):
    p = c.prog()
    M, A, SA, T = (p.enum('nsasm::' + x) for x in ('Mnemonic', 'AddressingMode', 'SyntacticAddressingMode', 'NumericType'))

    def deduce(ip, m, sa, a1, a2):
        r = ip.loc_of(ip.val(ip.fcall('nsasm::DeduceMode', L(M[m]), L(SA[sa]), a1, a2)))
        return ip.value(r) if ip.ok(r) else None

    def ops_of(m):
        n = m.split('_')[1]
        if m.startswith('PM_'):
            n = {'add': 'adc', 'sub': 'sbc'}[n]
        return {o for x, o in TABLE if x == n}

    def judge(ip, got, want, what):
        ip.require((got is None) == (want is None), 'a form is accepted exactly when the instruction has it',
                   lambda: '%s: %s' % (what, 'accepted' if got is not None else 'refused'))
        if want is not None:
            ip.req_eq(got, L(A[want]), 'the deduced mode is the mode of the form and operand size')

    def forms(ip, m):
        ops = ops_of(m)
        lit = lambda t: ip.alloc(ip.new('nsasm::Literal', ZERO, L(T[t])), 'lit')
        for sa, by in FORMS.items():
            for ty in TYPES:
                w = WIDTH[ty]
                want = None
                if ops & {'r', 'rl'}:
                    want = None            # branches need a name
                elif sa in ('SA_imp', 'SA_acc'):
                    want = 'A_acc' if 'A' in ops else 'A_imp' if sa == 'SA_imp' and '' in ops else None
                elif sa == 'SA_imm' and ops & {'#m', '#x'}:
                    want = 'A_imm_fm' if '#m' in ops else 'A_imm_fx'
                elif w:
                    want = MODES[by[w]][0] if by.get(w) in ops else None
                elif sa in LOOSE:
                    want = next((MODES[o][0] for o in by.values() if o in ops), None)
                judge(ip, deduce(ip, m, sa, lit(ty), lit(ty)), want, '%s %s %s' % (m, sa, ty))
    for m in M:
        c.scenario('forms of ' + m, lambda ip, m=m: forms(ip, m))

    def branch(ip, m):
        want = next((MODES[o][0] for o in ('r', 'rl') if o in ops_of(m)), None)
        for ty in ('T_word', 'T_long'):
            for mod in (None, '', 'other'):
                e = ident(ip, mod, 'there', ty)
                judge(ip, deduce(ip, m, 'SA_dir', e, e), want if mod is None else None, 'branch to %r' % mod)
        for sa in FORMS:
            if sa != 'SA_dir':
                e = ident(ip, None, 'there', 'T_word')
                judge(ip, deduce(ip, m, sa, e, e), None, 'branch ' + sa)
    for m in M:
        if ops_of(m) & {'r', 'rl'}:
            c.scenario('branch ' + m, lambda ip, m=m: branch(ip, m))

    def loose(ip, m, sa, mode, lo, hi):
        vs = [sym('value', -(1 << 31), (1 << 31) - 1), sym('value 2', -(1 << 31), (1 << 31) - 1)]
        es = [ip.alloc(ip.new('nsasm::Literal', v, L(T['T_unknown'])), 'lit') for v in vs]
        got = deduce(ip, m, sa, *es)
        fit = all(ip.cond('<=', lo, v) and ip.cond('<', v, hi) for v in (vs if sa == 'SA_mov' else vs[:1]))
        judge(ip, got, mode if fit else None, 'unsized number')

    def unknown(ip, m, sa):
        e = ident(ip, None, 'name', 'T_unknown')
        judge(ip, deduce(ip, m, sa, e, e), None, 'operand of unknown size and value')
    for m in M:
        ops = ops_of(m)
        if ops & {'r', 'rl', '#m', '#x'} and not ops & {'s'}:
            continue
        for sa in LOOSE:
            for w, o in FORMS[sa].items():
                if o in ops and not (sa == 'SA_imm' and ops & {'#m', '#x'}):
                    lo, hi = -(1 << 8 * w - 1), 1 << 8 * w
                    c.scenario('unsized %s %s' % (m, sa), lambda ip, m=m, sa=sa, o=o, lo=lo, hi=hi: loose(ip, m, sa, MODES[o][0], lo, hi))
                    c.scenario('unknown %s %s' % (m, sa), lambda ip, m=m, sa=sa: unknown(ip, m, sa))

    def args(ip):
        e = [ident(ip, None, n, 'T_word') for n in ('one', 'two')]
        for a in A:
            s = ip.str_of(ip.val(ip.fcall('nsasm::ArgsToString', L(A[a]), e[0], e[1])))
            t = PRINT[a].replace('%s', 'one', 1).replace('%s', 'two', 1)
            ip.req_eq(s, Str((t,)), 'operands print in the syntax of their mode')
    c.scenario('operand syntax', args)
