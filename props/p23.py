"""Instruction encoding."""
from props.common import *
from props.isa import *

EXPLANATION = (
    'Abstract interpretation of instruction assembly for every legal combination of mnemonic and mode with symbolic operand '
    'values, addresses and outcomes of name lookup and of the sink: exactly one write, at the instruction address, of the '
    'opcode and the little-endian operand (the addition and subtraction pseudo-instructions preceded by the carry setup), '
    'as long as the reported size; branches encode the bank-wrapped displacement from the next instruction and fail when it '
    'does not fit or the target lies in another bank; failures of lookup and sink are passed on.')
ASSUMPTIONS = ['the opcode matrix in props/isa.py transcribes the processor data sheet']


def check(c):
    p = c.prog()
    A = p.enum('nsasm::AddressingMode')
    combos = []
    for i, (m, o) in enumerate(TABLE):
        for mode in ('A_imm_b', 'A_imm_w') if o in ('#m', '#x') else (MODES[o][0],):
            combos.append(('M_' + m, mode, (L(i),)))
            if m in ('adc', 'sbc'):
                pm, pre = ('PM_add', 0x18) if m == 'adc' else ('PM_sub', 0x38)
                combos.append((pm, mode, (L(pre), L(i))))

    def setup(ip, m, mode, resolve=True):
        a, bank, o = region_addr(ip, 0, 255, 0, 65535)
        big = (1 << 31) - 1
        v = [sym('operand %d' % k, -big - 1, big) for k in (1, 2)]
        known = [ip.cond('==', sym('operand %d resolves' % k, 0, 1), 1) if resolve and SIZES[mode] and (k == 1 or mode == 'A_mov') else True
                 for k in (1, 2)]
        if mode in ('A_rel8', 'A_rel16'):
            if ip.cond('==', sym('target is an address', 0, 1), 1):
                v[0] = sym('target bank', 0, 255).scale(65536) + sym('target offset', 0, 65535)
            else:
                v[0] = sym('below', -big - 1, -1) if ip.cond('==', sym('target is negative', 0, 1), 1) else sym('beyond', 1 << 24, big)
        ctx = names(ip, {'one': v[0] if known[0] else None, 'two': v[1] if known[1] else None})
        ins = instruction(ip, m, mode, identifier(ip, 'one') if SIZES[mode] else None,
                          identifier(ip, 'two') if mode == 'A_mov' else None)
        return a, bank, o, v, known, ctx, ins

    def run(ip, m, mode, head):
        a, bank, o, v, known, ctx, ins = setup(ip, m, mode)
        sink = writer(ip)
        r = ip.loc_of(ip.m(ins, 'Assemble', a, ctx, sink))
        ok = ip.ok(r)
        ws = writes(ip)
        size = SIZES[mode]
        low = lambda x, k: ip.mod(ip.div(x, 1 << 8 * k), 256)
        out = list(head)
        good = all(known)
        if good and mode == 'A_mov':
            out += [low(v[1], 0), low(v[0], 0)]
        elif good and mode in ('A_rel8', 'A_rel16'):
            good = ip.cond('==', sym('target is an address', 0, 1), 1) and ip.cond('==', sym('target bank', 0, 255), bank)
            if good:
                # displacement from the next instruction, wrapping in the bank
                d = sym('target offset', 0, 65535) - o - (len(head) + size)
                if not ip.cond('<=', -32768, d):
                    d = d + 65536
                elif not ip.cond('<=', d, 32767):
                    d = d - 65536
                if not ip.cond('<=', ZERO, d):
                    d, neg = d + 65536, True
                else:
                    neg = False
                if mode == 'A_rel8':
                    if neg:
                        good = ip.cond('<=', 65536 - 128, d)
                        d = d - (65536 - 256)
                    else:
                        good = ip.cond('<=', d, 127)
                    out += [d]
                else:
                    out += [ip.mod(d, 256), ip.div(d, 256)]
        elif good:
            out += [low(v[0], k) for k in range(size)]
        if not good:
            ip.require(not ok, 'an operand without value, or a branch out of reach, is refused')
            ip.require(not ws, 'a refused instruction writes nothing')
            return
        ip.require(len(ws) == 1, 'an instruction is written at once', lambda: '%d writes' % len(ws))
        ip.req_eq(ws[0][1], bank.scale(65536) + o, 'an instruction is written at its address')
        ip.require(ok == ws[0][3], 'assembling succeeds exactly when the sink accepts')
        ip.require(len(ws[0][2]) == len(out), 'an instruction is its opcode and operand bytes long', lambda: '%d bytes' % len(ws[0][2]))
        for k, x in enumerate(out):
            ip.req_eq(ws[0][2][k], x, 'the bytes are the opcode and the little-endian operand')
        ip.req_eq(ip.val(ip.m(ins, 'SerializedSize')), L(len(out)), 'the reported size is the number of bytes written')
    for m, mode, head in combos:
        c.scenario('%s %s' % (m, mode), lambda ip, m=m, mode=mode, head=head: run(ip, m, mode, head))

    legal = {(m, mode) for m, mode, _ in combos}

    def refused(ip, m, modes):
        for mode in modes:
            a, bank, o, v, known, ctx, ins = setup(ip, m, mode, False)
            r = ip.loc_of(ip.m(ins, 'Assemble', a, ctx, writer(ip, lambda k: True)))
            ip.require(not ip.ok(r), 'an illegal or indefinite combination is refused', mode)
            ip.require(not writes(ip), 'a refused instruction writes nothing')
    for m in p.enum('nsasm::Mnemonic'):
        bad = [x for x in A if (m, x) not in legal and x not in ('A_rel8', 'A_rel16', 'A_mov')]
        c.scenario('refused %s' % m, lambda ip, m=m, bad=bad: refused(ip, m, bad))
