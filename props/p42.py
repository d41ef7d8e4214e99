"""The linear disassembler."""
from props.p40 import *
from props.p37 import Outside, Image, layout, operand, const, field, after, flags_match, BASE, FAR
import itertools

EXPLANATION = (
    'Abstract interpretation of the linear disassembler\'s main function over images of every arrangement, up to a bound, of '
    'instructions which change the flags, branch, jump, return or depend on the flags, with every outcome of loading the ROM: the '
    'instructions listed, their addresses and the states after them are compared with the oracle\'s own decoding of the bytes.')
ASSUMPTIONS = ['instructions decode, execute and flow as P22, P26 and P27 specify', 'reading the image fails as P03 specifies']
UNIT = 'dumb_disassemble.cc'
MODES_ = {'m8x8': (0, 1, 1, UNK), 'm16x16': (0, 0, 0, UNK)}


def join(ss):
    return tuple(b[0] if len(set(b)) == 1 else UNK for b in zip(*ss))


def image(ip, mem):
    t = u8(ip)

    def read(ip, f, this, args, node):
        a, n = ip.expand(ip.addr_val(args[0])).const, ip.expand(ip.val(args[1])).const
        if a is None or n is None:
            raise PathEnd('unknown', 'read at %r' % (args,))
        bs = [mem.get(after(a, i)) for i in range(n)]
        rec = ret_rec(ip, f)
        return failure(ip, rec, Str(('not mapped',))) if None in bs or n < 1 else success(ip, rec, Seq(tuple(E(L(b)) for b in bs), t))
    ip.hooks['nsasm::Rom::Read'] = read


def texts(ip):
    """the text of an instruction is its number among those printed; what it is is recorded"""
    M, A = ({v: k for k, v in ip.p.enum('nsasm::' + x).items()} for x in ('Mnemonic', 'AddressingMode'))

    def text(ip, f, this, args, node):
        ins = ip.loc_of(this)
        mn, mode = M[const(ip, field(ip, ins, 'mnemonic'))][2:], A[const(ip, field(ip, ins, 'addressing_mode'))][2:]
        emit(ip, 'text', mn, mode, operand(ip, ins)[0] if mode != 'imp' else 0)
        return Str(('insn%d' % (len(events(ip, 'text')) - 1),))
    ip.hooks['nsasm::Instruction::ToString'] = text


def check(c):
    pr = c.prog(['util/dumb_disassemble.cc'] + lib_units())
    deep = c.tier == 'thorough'

    for argc in (1, 2, 3):
        def few(ip, argc=argc):
            load_rom(ip)
            rc, text = main_of(ip, [arg(i) for i in range(argc)], UNIT)
            ip.require(not events(ip, 'load'), 'too few arguments do nothing')
            ip.require(any(isinstance(p, str) and 'Usage' in p for p in text.p), 'too few arguments explain the usage')
        c.scenario('%d arguments' % (argc - 1), few, prog=pr)

    def start(ip, text, mode, value):
        load_rom(ip, sym('image size', 1, MAXROM))
        ip.scan = {Str((text,)): (L(value), True) if value is not None else (L(0), None)}
        rc, out = main_of(ip, [arg(0), arg(1), Str((text,)), Str((mode,))], UNIT)
        o = {k[1]: v for k, v in ip.st.facts.prop.items() if k[0] == 'outcome'}
        return rc, out, o.get('the ROM loads')

    def bad(ip, text, mode, value):
        image(ip, {0x8000: 0x60})
        rc, out, loads = start(ip, text, mode, value)
        ip.require(ip.truth(rc), 'the tool fails when its arguments are malformed or the ROM does not load', lambda: repr((text, mode)))
        ip.require(bool(out.p), 'and says so')
        ip.require(not (out.const or '').count('$'), 'and lists nothing')
    for t, m, v in (('zz', 'm8x8', None), ('', 'm8x8', None), ('1000000', 'm8x8', 0x1000000), ('ffffffff', 'm8x8', 0xffffffff), ('8000', 'm9x8', 0x8000), ('8000', 'what', 0x8000), ('8000', '', 0x8000)):
        c.scenario('address %r, mode %r' % (t, m), lambda ip, t=t, m=m, v=v: bad(ip, t, m, v), prog=pr)

    def run(ip, lines, mode, base):
        mem, at = layout(lines, base)
        what = repr(lines)
        image(ip, mem)
        texts(ip)
        rc, out, loads = start(ip, '%x' % base, mode, base)
        if not loads:
            ip.require(ip.truth(rc) and bool(out.p), 'the tool fails when the ROM does not load')
            return
        if out.const is None:
            raise PathEnd('unknown', 'printed text %r' % (out,))
        img, ins = Image(mem), events(ip, 'text')
        a, states, jumps = base, [MODES_[mode]], {}      # states: those the next instruction may be listed in
        n = 0
        rows = [l for l in out.const.split('\n') if l.strip()]
        while True:
            ends = None
            try:
                i = img.decode(a, states[0])
            except Outside:
                raise PathEnd('cut', 'bytes outside the instructions considered')
            name = ip.str_of(ip.val(ip.m(ip.alloc(address(ip, a), 'a'), 'ToString'))).const
            ip.require(bool(rows) and name in rows[0], 'every address reached is listed in order', lambda: '%s: %s at %s' % (what, rows[:1], name))
            row = rows.pop(0)
            if i is None:
                ip.require('insn' not in row and ip.truth(rc), 'listing fails where the bytes cannot be read or have an unknown width', lambda: '%s: %s' % (what, row))
                ip.require(not any('insn' in r for r in rows), 'and ends there', what)
                return
            mn, md, size, v = i
            ip.require('insn%d' % n in row.split() and n < len(ins) and ins[n][1:] == (mn, md, v if size > 1 else 0), 'an instruction is decoded from the bytes at its address in the state it is reached in',
                       lambda: '%s: %s: %s, specified %s' % (what, row, ins[n:n + 1], i))
            n += 1
            nxt = [img.effect(a, i, s) for s in states]
            shown = [s for s in nxt if row.partition(';')[2].partition(' to ')[0].strip() == text_of(ip, s)]
            ip.require(img.exits(a, i) or bool(shown), 'an instruction is shown with the state after it', lambda: '%s: %s, specified %s' % (what, row, [text_of(ip, s) for s in nxt]))
            states = shown or nxt
            if md in ('rel8', 'rel16'):
                t = img.target(a, i)
                ip.require(ip.str_of(ip.val(ip.m(ip.alloc(address(ip, t), 'a'), 'ToString'))).const in row, 'a branch is shown with its target', lambda: '%s: %s' % (what, row))
                jumps.setdefault(t, []).extend(x for s in states for x in (s, img.taken(i, s)))
            b = after(a, size)
            if img.exits(a, i):
                if b not in jumps:
                    break
                k = jumps[b]
                states = sorted({join(x) for n_ in range(1, len(k) + 1) for x in itertools.combinations(k, n_)}) if len(k) < 6 else k
                # the flags that decide widths must be the same in all of them for the comparison to go on
                if len({s[:3] for s in states}) > 1:
                    raise PathEnd('cut', 'several states')
            a = b
        ip.require(not ip.truth(rc), 'listing succeeds at an exit that no branch continues', what)
        ip.require(not any('insn' in r for r in rows), 'and ends there', lambda: '%s: %s' % (what, rows))
        later = sorted(t for t in jumps if t > b)
        if later:
            ip.require(bool(rows) and ip.str_of(ip.val(ip.m(ip.alloc(address(ip, later[0]), 'a'), 'ToString'))).const in rows[0], 'the nearest branch target after the end is named', lambda: '%s: %s' % (what, rows))
        if jumps:
            ip.require(ip.str_of(ip.val(ip.m(ip.alloc(address(ip, min(jumps)), 'a'), 'ToString'))).const in ''.join(rows), 'the earliest branch target is named', lambda: '%s: %s' % (what, rows))
    n = 4 if deep else 3
    flat = ['sep', 'rep', 'lda #', 'wide', 'ldx #', 'nop', 'rts', 'jmp', 'sec', 'jsr', 'end']
    for mode in MODES_:
        for first in flat[:-1] + [('beq', 2), ('bcs', 3), ('bra', 2), ('beq', 0), ('brl', 1)]:
            def lines(ip, first=first, mode=mode):
                ls = [first]
                for k in range(n - 1):
                    opts = flat if k < n - 2 else flat[2:8]
                    j = ip.choose(len(opts) + (2 if k < n - 2 else 0))
                    ls.append(opts[j] if j < len(opts) else [('bcc', 2), ('beq', 1)][j - len(opts)])
                run(ip, ls + ['rts'], mode, BASE)
            c.scenario('%s from %s' % (mode, first), lines, prog=pr, unroll=40)
    for base in (0x12fffc, 0x12fffe):
        for ls in (['nop', 'lda d', 'rts'], ['wide', 'wide', 'rts'], [('bra', 2), 'nop', 'nop', 'rts']):
            c.scenario('%s at %06x' % (ls, base), lambda ip, ls=ls, base=base: run(ip, ls, 'm16x16', base), prog=pr, unroll=40)
