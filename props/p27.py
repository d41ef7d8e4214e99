"""Control flow of instructions, and their printed form."""
from props.common import *
from props.isa import *
from props.p16 import Flags
from props.p25 import PRINT

EXPLANATION = (
    'Abstract interpretation of the control-flow queries of an instruction for every mnemonic and mode, with symbolic operand '
    'values and addresses and every return convention: which instructions end a run of code, which are relative branches, and '
    'where jumps and calls with a fixed target go. The printed form is compared part by part.')
ASSUMPTIONS = ['the opcode matrix in props/isa.py transcribes the processor data sheet']
EXITS = set('jmp rtl rts rti stp bra brl'.split())


def check(c):
    p = c.prog()
    M = p.enum('nsasm::Mnemonic')
    combos = []
    for m, o in TABLE:
        for mode in (('A_imm_b', 'A_imm_w', MODES[o][0]) if o in ('#m', '#x') else (MODES[o][0],)):
            combos.append(('M_' + m, o, mode))
            if m in ('adc', 'sbc'):
                combos.append(({'adc': 'PM_add', 'sbc': 'PM_sub'}[m], o, mode))

    def convention(ip, ins, kind):
        if kind == 'never':
            r = ip.new('nsasm::ReturnConvention', ip.new_obj('nsasm::NoReturn'), kinds=['NoReturn'])
        elif kind == 'yields':
            r = ip.new('nsasm::ReturnConvention', Flags(ip).make((0, 1, 0, 3)), kinds=['StatusFlags'])
        else:
            return
        ip.store(ins.ext(('f', 'return_convention')), ip.val(r))

    def flow(ip, m, o, mode):
        a, bank, off = region_addr(ip, 0, 255, 0, 65535)
        big = (1 << 31) - 1
        v = sym('operand', -big - 1, big)
        lit = lambda x: ip.alloc(ip.new('nsasm::Literal', x, L(p.enum('nsasm::NumericType')['T_unknown'])), 'lit')
        for kind in ('default', 'yields', 'never'):
            for operand in ('value', 'name'):
                e = lit(v) if operand == 'value' else identifier(ip, 'there')
                n = 0 if o in ('', 'A') else 2 if o == 'sd' else 1
                ins = instruction(ip, m, mode, e if n else None, e if n > 1 else None)
                convention(ip, ins, kind)
                what = '%s %s, %s' % (m, mode, kind)
                ip.require(ip.truth(ip.val(ip.m(ins, 'IsExitInstruction'))) == (m[2:] in EXITS or kind == 'never'),
                           'control continues after an instruction unless it jumps, returns, stops or calls what never returns', what)
                ip.require(ip.truth(ip.val(ip.m(ins, 'IsLocalBranch'))) == (o in ('r', 'rl') and m != 'M_per'),
                           'exactly the relative branches are local branches', what)
                r = ip.val(ip.m(ins, 'FarBranchTarget', a))
                far = (m[2:], o) in (('jmp', 'a'), ('jmp', 'al'), ('jsr', 'a'), ('jsl', 'al')) and operand == 'value'
                if not isinstance(r, Opt):
                    raise PathEnd('unknown', 'far branch target %r' % (r,))
                ip.require((r.v is not None) == far, 'exactly jumps and calls of a fixed known address have a target', what)
                if far:
                    want = ip.mod(v, 1 << 24) if o == 'al' else bank.scale(65536) + ip.mod(v, 65536)
                    ip.req_eq(ip.addr_val(r.v), want, 'a short target lies in the bank of the instruction, a long one is absolute')
    for m, o, mode in combos:
        c.scenario('flow %s %s' % (m, mode), lambda ip, a=(m, o, mode): flow(ip, *a))

    def text(ip, sub):
        S_ = p.enum('nsasm::Suffix')
        for m, o, mode in sub:
            n = 0 if o in ('', 'A') else 2 if o == 'sd' else 1
            ins0 = lambda s: instruction(ip, m, mode, identifier(ip, 'one') if n else None, identifier(ip, 'two') if n > 1 else None, s)
            for s, t in (('S_none', ''), ('S_b', '.b'), ('S_w', '.w')):
                for kind in ('default', 'yields', 'never'):
                    ins = ins0(s)
                    convention(ip, ins, kind)
                    conv = ip.str_of(ip.val(ip.m(ins.ext(('f', 'return_convention')), 'ToSuffixString')))
                    name = m.split('_')[1]
                    want = Str((name + t + PRINT[mode].replace('%s', 'one', 1).replace('%s', 'two', 1),)) + conv
                    ip.req_eq(ip.str_of(ip.val(ip.m(ins, 'ToString'))), want, 'an instruction prints as its name, suffix, operands and return convention')
    for k in range(0, len(combos), 40):
        c.scenario('text %d' % k, lambda ip, k=k: text(ip, combos[k:k + 40]))
