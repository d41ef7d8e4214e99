"""Instructions are accepted exactly where the flag state fits them."""
from props.common import *
from props.isa import *
from props.p16 import Flags

EXPLANATION = (
    'Abstract interpretation of the consistency check and of fixing flag-dependent modes for every mnemonic, every addressing '
    'mode, every suffix and every knowledge state of the width bits, against the opcode matrix and the operand-width classes of '
    'the processor.')
ASSUMPTIONS = ['the opcode matrix in props/isa.py transcribes the processor data sheet']


def check(c):
    p = c.prog()
    M, A, S_ = (p.enum('nsasm::' + x) for x in ('Mnemonic', 'AddressingMode', 'Suffix'))
    legal = set()
    for m, o in TABLE:
        for mode in (('A_imm_b', 'A_imm_w', MODES[o][0]) if o in ('#m', '#x') else (MODES[o][0],)):
            legal.add(('M_' + m, mode))
    imm = {'M_' + m: o for m, o in TABLE if o in ('#m', '#x')}

    def accepted(m, mode, suffix, bm, bx):
        e = {'PM_add': 'M_adc', 'PM_sub': 'M_adc'}.get(m, m)
        if (e, mode) not in legal:
            return False
        n = e[2:]
        if suffix != 'S_none':
            if n not in M_WIDE | X_WIDE:
                return False
            b = bm if n in M_WIDE else bx
            if b == (0 if suffix == 'S_b' else 1):
                return False
        if mode == 'A_imm_fm':
            return bm in (0, 1)
        if mode == 'A_imm_fx':
            return bx in (0, 1)
        if mode in ('A_imm_b', 'A_imm_w') and e in imm:
            return (bm if imm[e] == '#m' else bx) == (1 if mode == 'A_imm_b' else 0)
        return True

    def run(ip, m):
        F = Flags(ip)
        for mode in A:
            for suffix in ('S_none', 'S_b', 'S_w'):
                variable = {'PM_add': 'M_adc', 'PM_sub': 'M_adc'}.get(m, m) in imm and mode.startswith('A_imm') or suffix != 'S_none'
                for bm, bx in ([(a, b) for a in range(4) for b in range(4)] if variable else [(3, 3), (0, 1)]):
                    f = F.make((0, bm, bx, 3))
                    ins = instruction(ip, m, mode, suffix=suffix)
                    ok = ip.ok(ip.alloc(ip.m(ins, 'CheckConsistency', f), 'r'))
                    ip.require(ok == accepted(m, mode, suffix, bm, bx), 'an instruction is consistent exactly where it is legal and the width bits fit it',
                               lambda: '%s %s %s with m %s x %s: %s' % (m, mode, suffix, bm, bx, 'accepted' if ok else 'refused'))
    for m in M:
        c.scenario('consistency of ' + m, lambda ip, m=m: run(ip, m))

    def fix(ip, mode):
        F = Flags(ip)
        for bm in range(4):
            for bx in range(4):
                ins = instruction(ip, 'M_adc', mode)
                ok = ip.ok(ip.alloc(ip.m(ins, 'FixAddressingMode', F.make((0, bm, bx, 3))), 'r'))
                b = {'A_imm_fm': bm, 'A_imm_fx': bx}.get(mode)
                want = mode if b is None or b > 1 else 'A_imm_b' if b == 1 else 'A_imm_w'
                ip.require(ok == (b is None or b < 2), 'a flag-dependent mode is fixed exactly when its width bit is known', '%s m %d x %d' % (mode, bm, bx))
                ip.req_eq(ip.val(ins.ext(('f', 'addressing_mode'))), L(A[want]), 'a flag-dependent mode becomes the one its width bit selects; others stay')
    for mode in A:
        c.scenario('fixing ' + mode, lambda ip, mode=mode: fix(ip, mode))
