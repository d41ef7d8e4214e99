"""Tidying of a disassembly."""
from props.p37 import *

EXPLANATION = (
    'Abstract interpretation of tidying disassemblies of every arrangement, up to a bound, of branches, calls of addresses inside '
    'and outside, carry setups and additions, entered once or several times (also when an entry fails): labels, the operands of '
    'branches and far jumps, and folded instructions are compared with the specification, which starts from the image itself.')
ASSUMPTIONS = ['disassembly before tidying is as P37 specifies']


def check(c):
    deep = c.tier == 'thorough'

    def run(ip, lines, entries, base=BASE):
        mem, at = layout(lines, base)
        img, d = Image(mem), disassembler(ip, mem)
        what = ', '.join(k if isinstance(k, str) else '%s %d' % k for k in lines) + ', entered at %s' % (entries,)
        try:
            for i, f in entries:
                enter(ip, d, img, at[i] if isinstance(i, int) and i < len(at) else base - 0x100, f, what)
        except Outside:
            return
        ip.require(ip.ok(ip.alloc(ip.m(d, 'Cleanup'), 'r')), 'tidying succeeds')
        M, A, S_ = (ip.p.enum('nsasm::' + x) for x in ('Mnemonic', 'AddressingMode', 'Suffix'))
        # what is folded: a carry setup and the unlabelled addition or subtraction at the next byte
        fold = {}
        for a, i in img.ins.items():
            n = after(a, 1)
            j = img.ins.get(n)
            if j and n not in img.labels and (i[0], j[0]) in (('clc', 'adc'), ('sec', 'sbc')):
                fold[a] = n
        gone = set(fold.values())
        got = result(ip, d)
        left = set(img.ins) - gone
        ip.require(set(got) == left, 'exactly the additions following a clear carry and the subtractions following a set carry are folded into it, unless something branches there',
                   lambda: '%s: %s, specified %s' % (what, ['%06x' % a for a in got], ['%06x' % a for a in sorted(left)]))
        labels = {}
        last = {True: 0, False: 0}
        for a in sorted(left):
            at_ = got[a]
            lab = label(ip, at_)
            e = const(ip, field(ip, at_, 'is_entry')) != 0
            where = lambda: '%s: %06x: label %r, entry %s' % (what, a, lab, e)
            ip.require((lab != '') == (a in img.labels), 'exactly branch targets and entry points keep a label', where)
            ip.require(e == (a in img.entries), 'exactly the entry points are marked as such', where)
            if lab:
                last[e] += 1
                ip.require(lab == '%s%d' % ('entry' if e else 'label', last[e]), 'entry points and other labels are numbered in the order of their addresses', where)
                labels[lab] = a
        for a in sorted(left):
            src = fold.get(a, a)
            mn, mode, n, v = img.ins[src]
            ins = got[a].ext(('f', 'instruction'))
            where = lambda: '%s: at %06x, %s' % (what, a, img.ins[src])
            want = {'adc': 'PM_add', 'sbc': 'PM_sub'}[mn] if a in fold else 'M_' + mn
            ip.require(const(ip, field(ip, ins, 'mnemonic')) == M[want] and const(ip, field(ip, ins, 'addressing_mode')) == A['A_' + mode],
                       'a folded pair becomes the addition or subtraction it is, in its mode; others stay', where)
            s = state_of(ip, got[a], 'current_execution_state')
            t = state_of(ip, got[a], 'next_execution_state')
            ip.require(flags_match(s, img.state[a]), 'the state before an instruction stays', where)
            ip.require(img.exits(src, img.ins[src]) or flags_match(t, img.effect(src, img.ins[src], img.state[src])), 'the state after a folded pair is the one after its last instruction', where)
            bit = SUFFIXED.get(mn)
            sw = 'S_none' if bit is None or img.state[src][bit] not in (OFF, ON) else 'S_b' if img.state[src][bit] == ON else 'S_w'
            ip.require(const(ip, field(ip, ins, 'suffix')) == S_[sw], 'widths shown stay', where)
            if n == 1:
                continue
            arg = ins.ext(('f', 'arg1'))
            x, lab = operand(ip, ins)
            far = img.far(src, img.ins[src])
            if mode in ('rel8', 'rel16'):
                ip.require(lab is not None and labels.get(lab) == img.target(a, img.ins[a]), 'a branch names the new label of its target', lambda: '%s: %s' % (where(), lab))
            elif far is not None and far in img.entries:
                o = ip.val(ip.m(arg, 'SimpleIdentifier'))
                if isinstance(o, Top) or not isinstance(o, Opt):
                    raise PathEnd('unknown', 'identifier %r' % (o,))
                nm = None if o.v is None else ip.str_of(ip.force(o.v)).const
                ip.require(nm is not None and labels.get(nm) == far, 'a jump to an entry point names its label', lambda: '%s: %s' % (where(), nm))
                T = ip.p.enum('nsasm::NumericType')
                ty = const(ip, ip.m(arg, 'Type'))
                ip.require(ty == T['T_long' if mode == 'dir_l' else 'T_word'], 'a jump by name stays as long as it was', where)
            else:
                ip.require(x == v and lab is None, 'other operands stay', lambda: '%s: %s' % (where(), x))

    W, N = (0, 1, 1, UNK), (0, 0, 1, UNK)

    def scen(name, per, split, entries):
        for k in per[split]:
            p = list(per)
            p[split] = [k]
            c.scenario('%s (line %d: %s)' % (name, split, k if isinstance(k, str) else '%s to %d' % k),
                       lambda ip, p=p: run(ip, [ks[ip.choose(len(ks))] for ks in p], entries), unroll=80, max_paths=60000, max_steps=90000000)
    to = lambda n, *ops: [(o, t) for o in ops for t in range(n)]
    scen('carry', [['clc', 'sec', 'nop'], ['clc', 'sec', 'adc d', 'sbc d', 'adc #'], ['adc d', 'sbc #', 'nop', 'clc', 'rts'], ['sbc d', 'rts'] + to(4, 'beq', 'bra'), ['rts']], 0, [(0, W)])
    scen('labels', [['nop', ('beq', 2), ('bra', 3)], ['nop', ('beq', 0), ('bcs', 3)], ['clc', ('beq', 1), 'rts'], ['adc d', ('bra', 0), ('brl', 4)], ['rts']], 1, [(0, W), (2, W)])
    for es in ([(0, W), (3, W)], [(3, W), (0, W)], [(0, W), (2, W), (3, N)], [(0, W)], [(0, W), (9, W)], [(9, W), (3, W), (0, W)]):
        scen('far jumps entered at %s' % [i for i, _ in es], [to(4, 'jsr', 'jsl') + ['jsr', 'jsl'], ['nop', 'clc', 'jml'] + to(4, 'jmp', 'jml')[2::3], ['adc d', 'rts'] + to(4, 'beq')[::3], ['rts', 'clc', ('jmp', 2)], ['rts', 'adc d'], ['rts']][:6 if deep else 6],
             1, es)
    # addition in a state of unknown width, entered at the addition, and entered twice
    for es in ([(0, W), (1, W)], [(0, W), (0, N)], [(0, N)], [(1, W)], [(1, W), (0, N)]):
        scen('carry entered at %s' % es, [['clc', 'sec'], ['adc d', 'sbc d', 'adc wide', 'sbc #', 'clc'], ['nop', 'adc d'], ['rts']], 0, es)

    def wrapped(ip):
        """a carry setup at the end of a bank does not meet the start of the next one"""
        op, ad = (('clc', 'adc d'), ('sec', 'sbc d'))[ip.choose(2)]
        base = (0x12ffff, 0x12fffe, 0x12fffd)[ip.choose(3)]
        first, _ = layout([op, ad, 'rts'], base)
        second, _ = layout(['nop', ad, 'rts'], 0x12ffff + 0x10000)      # its addition is at the start of bank 13
        third, _ = layout([ad, 'rts'], 0x130000)
        mem = {**third, **second, **first}
        img, d = Image(mem), disassembler(ip, mem)
        try:
            enter(ip, d, img, base, W, 'wrapped')
            if ip.choose(2):
                enter(ip, d, img, 0x13ffff, W, 'wrapped')
        except Outside:
            return
        ip.require(ip.ok(ip.alloc(ip.m(d, 'Cleanup'), 'r')), 'tidying succeeds')
        got = result(ip, d)
        fold = after(base, 1)
        ip.require(set(got) == set(img.ins) - {fold} or base == 0x12ffff and set(got) == set(img.ins), 'only instructions that follow each other are folded',
                   lambda: '%s of %s' % (['%06x' % a for a in got], ['%06x' % a for a in img.ins]))
    c.scenario('end of a bank', wrapped, unroll=80)
