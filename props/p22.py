"""Instruction decoding."""
from props.common import *
from props.isa import *
from nsa.val import View

EXPLANATION = (
    'Abstract interpretation of the instruction decoder for every opcode, every known or unknown state of the width flags and '
    'byte strings of symbolic contents and length: decoding succeeds exactly when the whole instruction is present and its size '
    'is known, and yields the mnemonic, the definite mode, and the operands the bytes encode.')
ASSUMPTIONS = ['the opcode matrix in props/isa.py transcribes the processor data sheet']


def flags(ip, m, x):
    """flag state with the given M and X bits outside emulation mode"""
    B = ip.p.enum('nsasm::BitState')
    return ip.new('nsasm::StatusFlags', L(B['B_off']), L(B[m]), L(B[x]), L(B['B_unknown']))


def evaluate(ip, expr_loc):
    """(value, None) or (None, True) of an expression outside any context"""
    ctx = ip.alloc(ip.new('nsasm::NullLookupContext'), 'ctx')
    r = ip.alloc(ip.m(expr_loc, 'Evaluate', ctx), 'r')
    if not ip.ok(r):
        return None
    return ip.value(r)


def check(c):
    p = c.prog()
    M, A, T = p.enum('nsasm::Mnemonic'), p.enum('nsasm::AddressingMode'), p.enum('nsasm::NumericType')

    def one(ip, i, m, x):
        n = sym('length', 1, 1 << 16)
        data = bytes_in(ip, 'code', n)
        fl = flags(ip, m, x)
        ip.assume(i, byte(ip, 'code', 0), i)
        loc = ip.alloc(data, 'code')
        r = ip.loc_of(ip.val(ip.fcall('nsasm::Decode', View(loc, ZERO, n), ip.alloc(fl, 'fl'))))
        ok = ip.ok(r)
        mn, o = TABLE[i]
        mode, size = MODES[o]
        if mode in ('A_imm_fm', 'A_imm_fx'):
            bit = m if mode == 'A_imm_fm' else x
            if bit not in ('B_on', 'B_off'):
                ip.require(not ok, 'an immediate operand of unknown size is not decoded')
                return
            mode, size = ('A_imm_b', 1) if bit == 'B_on' else ('A_imm_w', 2)
        ip.require(ok == ip.cond('<', L(size), n), 'an instruction is decoded exactly when all its bytes are there')
        if not ok:
            return
        d = ip.value_loc(r)
        f = lambda k: ip.val(d.ext(('f', k)))
        ip.req_eq(f('mnemonic'), L(M['M_' + mn]), 'the mnemonic is that of the opcode')
        ip.req_eq(f('addressing_mode'), L(A[mode]), 'the mode is that of the opcode, with the operand size the flags imply')
        ip.req_eq(f('suffix'), L(p.enum('nsasm::Suffix')['S_none']), 'a decoded instruction has no suffix')
        b = lambda k: byte(ip, 'code', k)
        for k in (1, 2):
            e = d.ext(('f', 'arg%d' % k))
            present = ip.truth(ip.val(ip.m(e, 'operator bool')))
            want = (1 if size else 0) if mode != 'A_mov' else 2
            ip.require(present == (k <= want), 'an instruction has the operands of its mode')
            if not present:
                continue
            v = evaluate(ip, e)
            ip.require(v is not None, 'a decoded operand has a value')
            ty = ip.val(ip.m(e, 'Type'))
            if mode == 'A_mov':
                ip.req_eq(v, b(2) if k == 1 else b(1), 'a block move names its source bank first, stored last')
                ip.req_eq(ty, L(T['T_byte']), 'an operand has the type of its size')
                continue
            raw = sum((b(1 + j).scale(1 << 8 * j) for j in range(size)), ZERO)
            if mode in ('A_rel8', 'A_rel16'):
                half = 1 << (8 * size - 1)
                if not ip.cond('<', raw, half):
                    raw = raw - 2 * half
                tn = 'T_signed_byte' if size == 1 else 'T_signed_word'
            else:
                tn = {1: 'T_byte', 2: 'T_word', 3: 'T_long'}[size]
            ip.req_eq(v, raw, 'an operand is the little-endian value of its bytes, signed for branches')
            ip.req_eq(ty, L(T[tn]), 'an operand has the type of its size')
    BS = ('B_on', 'B_off', 'B_unknown', 'B_original')
    for i in range(256):
        o = TABLE[i][1]
        for m in (BS if o == '#m' else ('B_unknown',)):
            for x in (BS if o == '#x' else ('B_on',) if o == '#m' else ('B_unknown',)):
                c.scenario('opcode %02x %s%s' % (i, m if o == '#m' else '', x if o == '#x' else ''),
                           lambda ip, i=i, m=m, x=x: one(ip, i, m, x))

    def empty(ip):
        loc = ip.alloc(bytes_in(ip, 'code', ZERO), 'code')
        r = ip.loc_of(ip.val(ip.fcall('nsasm::Decode', View(loc, ZERO, ZERO), ip.alloc(flags(ip, 'B_on', 'B_on'), 'fl'))))
        ip.require(not ip.ok(r), 'nothing is decoded from no bytes')
    c.scenario('no bytes', empty)
