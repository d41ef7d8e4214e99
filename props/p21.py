"""The opcode table."""
from nsa.spec import *
from props.isa import *

EXPLANATION = (
    'Abstract interpretation of the opcode table functions. Every opcode is decoded and compared with an independent 65816 '
    'opcode matrix; every pair of a mnemonic and an addressing mode is encoded and compared with the inverse of that matrix, so '
    'decoding and encoding are inverse and no illegal combination is accepted; operand width, branch and legality predicates '
    'are compared for every mnemonic; instruction sizes are compared for every addressing mode.')
ASSUMPTIONS = ['the opcode matrix in props/isa.py transcribes the processor data sheet']


def prog(c):
    return c.prog(lib_units())


def check(c):
    p = prog(c)
    M, A, F = p.enum('nsasm::Mnemonic'), p.enum('nsasm::AddressingMode'), p.enum('nsasm::Family')
    SF = p.enum('nsasm::StatusFlagUsed')
    mnem = sorted(M, key=lambda k: M[k])
    code = {}
    for i, (m, o) in enumerate(TABLE):
        code[('M_' + m, MODES[o][0])] = i
        if o in ('#m', '#x'):
            code[('M_' + m, 'A_imm_b')] = i
            code[('M_' + m, 'A_imm_w')] = i

    def rows(ip, lo):
        for i in range(lo, lo + 16):
            m, o = TABLE[i]
            r = ip.loc_of(ip.val(ip.fcall('nsasm::DecodeOpcode', L(i))))
            v = ip.load(r)
            ip.req_eq(ip.val(r.ext(('f', 'first'))), L(M['M_' + m]), 'an opcode decodes to its mnemonic')
            ip.req_eq(ip.val(r.ext(('f', 'second'))), L(A[MODES[o][0]]), 'an opcode decodes to its addressing mode')
            ip.req_eq(ip.val(ip.fcall('nsasm::FamilyForOpcode', L(i))), L(F[family(i)]), 'an opcode belongs to its processor family')
    for lo in range(0, 256, 16):
        c.scenario('opcodes %02x to %02x' % (lo, lo + 15), lambda ip, lo=lo: rows(ip, lo), prog=p, unroll=300)

    def encode(ip, ms):
        for m in ms:
            for a in A:
                r = ip.val(ip.fcall('nsasm::EncodeOpcode', L(M[m]), L(A[a])))
                if isinstance(r, Top):
                    raise PathEnd('unknown', r.why)
                want = code.get((m, a))
                ip.require((r.v is None) == (want is None), 'exactly the legal combinations of mnemonic and mode have an opcode',
                           lambda: '%s %s' % (m, a))
                if want is not None:
                    ip.req_eq(r.v, L(want), 'a combination of mnemonic and mode encodes as its opcode')
                ip.require(ip.truth(ip.val(ip.fcall('nsasm::IsLegalCombination', L(M[m]), L(A[a])))) == (want is not None),
                           'a combination is legal exactly when it has an opcode', lambda: '%s %s' % (m, a))

    def kinds(ip, ms):
        def yes(fn, m):
            return ip.truth(ip.val(ip.fcall('nsasm::' + fn, L(M[m]))))
        for m in ms:
            n = m.split('_')[1]
            base = {'add': 'adc', 'sub': 'sbc'}.get(n, n) if m.startswith('PM_') else n
            ops = {o for x, o in TABLE if x == base}
            ip.require(yes('ImmediateArgumentUsesMBit', m) == ('#m' in ops), 'an immediate operand has accumulator width exactly as specified', m)
            ip.require(yes('ImmediateArgumentUsesXBit', m) == ('#x' in ops), 'an immediate operand has index width exactly as specified', m)
            if m.startswith('M_'):
                ip.require(yes('TakesOffsetArgument', m) == bool(ops & {'r', 'rl'}), 'relative operands belong to the branches and PER', m)
                ip.require(yes('TakesLongOffsetArgument', m) == ('rl' in ops), 'long relative operands belong to BRL and PER', m)
            want = 'kUsesMFlag' if base in M_WIDE else 'kUsesXFlag' if base in X_WIDE else 'kNotVariable'
            ip.req_eq(ip.val(ip.fcall('nsasm::FlagControllingInstructionSize', L(M[m]))), L(SF[want]),
                      'the width of an instruction follows the flag of its register')
    for k in range(0, len(mnem), 8):
        ms = mnem[k:k + 8]
        c.scenario('encoding %s to %s' % (ms[0], ms[-1]), lambda ip, ms=ms: encode(ip, ms), prog=p, unroll=300)
        c.scenario('operands %s to %s' % (ms[0], ms[-1]), lambda ip, ms=ms: kinds(ip, ms), prog=p, unroll=300)

    def sizes(ip):
        T = p.enum('nsasm::NumericType')
        for a, v in A.items():
            n = SIZES[a]
            r = ip.val(ip.fcall('nsasm::InstructionLength', L(v)))
            if n is not None:
                ip.req_eq(r, L(1 + n), 'an instruction is its opcode and its operand bytes long')
                t = {0: 'T_unknown', 1: 'T_byte', 2: 'T_word', 3: 'T_long'}[1 if a == 'A_mov' else n]
                ip.req_eq(ip.val(ip.fcall('nsasm::Arg1Type', L(v))), L(T[t]), 'the first operand has the type of its size')
            else:
                ip.require(('le0', r), 'a width-dependent mode has no length of its own')
    c.scenario('instruction sizes', sizes, prog=p)
