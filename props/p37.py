"""Disassembly of code by following it."""
from props.p35 import *
from nsa.interp import UPtr

EXPLANATION = (
    'Abstract interpretation of disassembly over images of every arrangement, up to a bound, of instructions which change the flags, '
    'branch, call, jump, return or depend on the flags, from one entry point or two in sequence. The oracle decodes the image itself '
    'and computes the least fixed point of the flags over all paths from all entry points: the result must hold exactly the reached '
    'instructions, with their operands, states, labels, suffixes and return conventions; anything unreadable or of unknown width on '
    'a path must fail and change nothing.')
ASSUMPTIONS = ['instructions decode, execute and flow as P22, P26 and P27 specify', 'reading the image fails as P01 specifies for a ROM']
OFF, ON = 0, 1

# opcode -> (mnemonic, mode, operand bytes or 'm'/'x')
OPS = {0xea: ('nop', 'imp', 0), 0xe2: ('sep', 'imm_b', 1), 0xc2: ('rep', 'imm_b', 1), 0xa9: ('lda', 'imm', 'm'), 0xa2: ('ldx', 'imm', 'x'), 0xa5: ('lda', 'dir_b', 1),
       0xa6: ('ldx', 'dir_b', 1), 0xf0: ('beq', 'rel8', 1), 0x80: ('bra', 'rel8', 1), 0xb0: ('bcs', 'rel8', 1), 0x90: ('bcc', 'rel8', 1), 0x82: ('brl', 'rel16', 2),
       0x20: ('jsr', 'dir_w', 2), 0x22: ('jsl', 'dir_l', 3), 0x4c: ('jmp', 'dir_w', 2), 0x5c: ('jmp', 'dir_l', 3), 0x60: ('rts', 'imp', 0), 0x38: ('sec', 'imp', 0),
       0x18: ('clc', 'imp', 0), 0x69: ('adc', 'imm', 'm'), 0x65: ('adc', 'dir_b', 1), 0xe9: ('sbc', 'imm', 'm'), 0xe5: ('sbc', 'dir_b', 1), 0x6b: ('rtl', 'imp', 0), 0xfc: ('jsr', 'ind_wx', 2),
       0x6c: ('jmp', 'ind_w', 2)}
SUFFIXED = {'lda': 1, 'adc': 1, 'sbc': 1, 'ldx': 2}


def after(a, n):
    return a // 65536 * 65536 + (a + n) % 65536


class Outside(Exception):
    """a path runs into bytes that are none of the instructions considered"""


class Image:
    """bytes by address; the oracle's own disassembly of them"""

    def __init__(self, mem, conventions=None):
        self.mem, self.conv = mem, conventions or {}
        self.state, self.ins, self.labels, self.entries = {}, {}, set(), set()

    def decode(self, a, s):
        """(mnemonic, mode, length, operand) or None"""
        op = self.mem.get(a)
        if op is None:
            return None
        if op not in OPS:
            raise Outside()
        mn, mode, n = OPS[op]
        if n in ('m', 'x'):
            b = s[1 if n == 'm' else 2]
            if b not in (OFF, ON):
                return None
            n = 1 if b == ON else 2
            mode = 'imm_b' if n == 1 else 'imm_w'
        bs = [self.mem.get(after(a, 1 + i)) for i in range(n)]
        if None in bs:
            return None
        v = sum(b << 8 * i for i, b in enumerate(bs))
        if mode in ('rel8', 'rel16') and v >> (8 * n - 1):
            v -= 1 << 8 * n
        return mn, mode, 1 + n, v

    def far(self, a, i):
        mn, mode, n, v = i
        return v if mode == 'dir_l' and mn in ('jmp', 'jsl') else a // 65536 * 65536 + v if mode == 'dir_w' and mn in ('jmp', 'jsr') else None

    def convention(self, a, i):
        return self.conv.get(self.far(a, i)) if i[0] in ('jsr', 'jsl') else None

    def exits(self, a, i):
        return i[0] in ('rts', 'rtl', 'bra', 'brl', 'jmp') or self.convention(a, i) == 'never'

    def effect(self, a, i, s):
        e, m, x, c = s
        mn, v = i[0], i[3]
        if mn in ('sep', 'rep'):
            b = int(mn == 'sep')
            w = b if b == ON or e == OFF else ON if e == ON else UNK     # emulation mode keeps registers narrow
            if v & 0x20:
                m = w
            if v & 0x10:
                x = w
            if v & 1:
                c = b
        elif mn in ('sec', 'clc'):
            c = int(mn == 'sec')
        elif mn in ('adc', 'sbc'):
            c = UNK
        elif mn in ('jsr', 'jsl'):
            c = UNK
            k = self.convention(a, i)
            if k and k != 'never':
                return k
        elif mn == 'bcs':
            c = OFF
        elif mn == 'bcc':
            c = ON
        return e, m, x, c

    def taken(self, i, s):
        return s[:3] + ({'bcs': ON, 'bcc': OFF}.get(i[0], s[3]),)

    def target(self, a, i):
        return after(a, i[2] + i[3])

    def enter(self, start, flags):
        """None when disassembly must fail; else the far targets found, {address: state}"""
        keep = dict(self.state), dict(self.ins), set(self.labels), set(self.entries)
        todo = [(start, tuple(ORIG if b == UNK else b for b in flags))]
        changed = set()
        while todo:
            a, s = todo.pop()
            s = s if a not in self.state else tuple(x if x == y else UNK for x, y in zip(s, self.state[a]))
            if s == self.state.get(a):
                continue
            i = self.decode(a, s)
            if i is None:
                self.state, self.ins, self.labels, self.entries = keep
                return None
            self.state[a], self.ins[a] = s, i
            changed.add(a)
            if not self.exits(a, i):
                todo.append((after(a, i[2]), self.effect(a, i, s)))
            if i[1] in ('rel8', 'rel16'):
                self.labels.add(self.target(a, i))
                todo.append((self.target(a, i), self.taken(i, s)))
        self.labels.add(start)
        self.entries.add(start)
        out = {}
        for a in changed:
            t = self.far(a, self.ins[a])
            if t is not None:
                s = self.state[a]
                out[t] = s if t not in out else tuple(x if x == y else UNK for x, y in zip(s, out[t]))
        return out


def source(ip, mem):
    """a source of the bytes of mem, failing for any other"""
    t = u8(ip)

    def read(ip, f, this, args, node):
        a, n = ip.expand(ip.addr_val(args[0])).const, ip.expand(ip.val(args[1])).const
        if a is None or n is None:
            raise PathEnd('unknown', 'read at %r' % (args,))
        bs = [mem.get(after(a, i)) for i in range(n)]
        rec = ret_rec(ip, f)
        return failure(ip, rec, Str(('not mapped',))) if None in bs or n < 1 else success(ip, rec, Seq(tuple(E(L(b)) for b in bs), t))
    ip.hooks['nsa_spec::Source::Read'] = read
    ip.hooks['nsa_spec::Source::Path'] = lambda ip, f, this, args, node: Str(('image',))
    return UPtr(ip.alloc(ip.new('nsa_spec::Source'), 'image'))


def result(ip, d):
    """{address: location of the disassembled instruction}"""
    return table(ip, ip.m(d, 'Result'))


def field(ip, at, k):
    v = ip.load(at.ext(('f', k)))
    if isinstance(v, Top):
        raise PathEnd('unknown', '%s: %s' % (k, v.why))
    return v


def const(ip, v):
    v = ip.expand(ip.val(v)) if isinstance(ip.val(v), Lin) else ip.val(v)
    if not isinstance(v, Lin) or v.const is None:
        raise PathEnd('unknown', 'value %r' % (v,))
    return v.const


def state_of(ip, at, k):
    return Flags(ip).read(ip.loc_of(ip.m(at.ext(('f', k)), 'Flags', pred=lambda f: not f.get('const'))))


def label(ip, at):
    s = ip.str_of(field(ip, at, 'label'))
    if s.const is None:
        raise PathEnd('unknown', 'label %r' % (s,))
    return s.const


class Nothing(dict):
    """no name has a value"""

    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return None


def operand(ip, ins):
    """(value, label) of the first operand"""
    arg = ins.ext(('f', 'arg1'))
    r = ip.alloc(ip.m(arg, 'Evaluate', names(ip, Nothing())), 'r')
    v = const(ip, ip.value(r)) if ip.ok(r) else None
    lab = ip.str_of(ip.val(ip.m(arg, 'ToString'))).const if ip.truth(ip.val(ip.m(arg, 'IsLabel'))) else None
    return v, lab


def compare(ip, d, img, what):
    """the result of the disassembler against the oracle's"""
    M, A, S_ = (ip.p.enum('nsasm::' + x) for x in ('Mnemonic', 'AddressingMode', 'Suffix'))
    got = result(ip, d)
    ip.require(set(got) == set(img.ins), 'exactly the instructions reached from the entry points are disassembled',
               lambda: '%s: %s, specified %s' % (what, ['%06x' % a for a in got], ['%06x' % a for a in sorted(img.ins)]))
    labels = {}
    for a, at in sorted(got.items()):
        mn, mode, n, v = img.ins[a]
        where = lambda: '%s: at %06x, %s' % (what, a, img.ins[a])
        ins = at.ext(('f', 'instruction'))
        ip.require(const(ip, field(ip, ins, 'mnemonic')) == M['M_' + mn] and const(ip, field(ip, ins, 'addressing_mode')) == A['A_' + mode],
                   'an instruction is decoded from its bytes', where)
        s = state_of(ip, at, 'current_execution_state')
        ip.require(flags_match(s, img.state[a]), 'an instruction is disassembled in the join of the states on all paths to it',
                   lambda: '%s: state %s, specified %s' % (where(), s, img.state[a]))
        t = state_of(ip, at, 'next_execution_state')
        nxt = img.effect(a, img.ins[a], img.state[a])
        ip.require(img.exits(a, img.ins[a]) or flags_match(t, nxt), 'the state after an instruction is its effect on the state before',
                   lambda: '%s: state %s, specified %s' % (where(), t, nxt))
        bit = SUFFIXED.get(mn)
        want = 'S_none' if bit is None or img.state[a][bit] not in (OFF, ON) else 'S_b' if img.state[a][bit] == ON else 'S_w'
        ip.require(const(ip, field(ip, ins, 'suffix')) == S_[want], 'an instruction of flag-dependent width shows the width exactly when the flag is known',
                   lambda: '%s: %s, specified %s' % (where(), field(ip, ins, 'suffix'), want))
        ip.require(same_conv(ip, ins.ext(('f', 'return_convention')), img.convention(a, img.ins[a])), 'a call shows the return convention of its target', where)
        lab = label(ip, at)
        ip.require((lab != '') == (a in img.labels), 'exactly branch targets and entry points have labels', where)
        if lab:
            ip.require(lab not in labels, 'labels are distinct', where)
            labels[lab] = a
    for a, at in got.items():
        mn, mode, n, v = img.ins[a]
        if n > 1:
            x, lab = operand(ip, at.ext(('f', 'instruction')))
            if mode in ('rel8', 'rel16'):
                ip.require(lab is not None and labels.get(lab) == img.target(a, img.ins[a]), 'a branch names the label of its target', lambda: '%s: at %06x: %s' % (what, a, lab))
            else:
                ip.require(x == v and lab is None, 'an instruction has the operand in its bytes', lambda: '%s: at %06x: %s' % (what, a, x))
    return got


def enter(ip, d, img, start, flags, what, far=True):
    want = img.enter(start, flags)
    r = ip.alloc(ip.m(d, 'Disassemble', ip.new('nsasm::Address', L(start), kinds=['int']), Flags(ip).make(flags)), 'r')
    ip.require(ip.ok(r) == (want is not None), 'disassembly fails exactly when code on a path cannot be read or has an unknown width', lambda: '%s: %s' % (what, 'failed' if want is not None else 'succeeded'))
    if want is None:
        return False
    got = {a: Flags(ip).read(v) for a, v in table(ip, ip.value_loc(r)).items()}
    every = {}      # (a change of registers alone may report further calls)
    for a, i in img.ins.items():
        t, s = img.far(a, i), img.state[a]
        if t is not None:
            every[t] = s if t not in every else tuple(x if x == y else UNK for x, y in zip(s, every[t]))
    ip.require(set(want) <= set(got) and set(got) <= set(every) and (len(img.entries) > 1 or set(got) == set(want)),
               'the far targets of the code found or changed are returned', lambda: '%s: %s, specified %s' % (what, got, want))
    for t in got:
        ip.require(all(any(flags_match(got[t][k:k + 1], w[k:k + 1]) for w in (want.get(t, every[t]), every[t])) or k == 3 and got[t][k] == UNK for k in range(4)),
                   'a far target is returned with the join of the states at its calls', lambda: '%s: %06x: %s, specified %s' % (what, t, got[t], want.get(t, every[t])))
    return True


def disassembler(ip, mem, conventions=None):
    d = ip.alloc(ip.new('nsasm::Disassembler', source(ip, mem)), 'd')
    if conventions:
        f = ip.method('nsasm::Disassembler', 'AddTargetReturnConventions', 1)
        t = ip.p.types[f['params'][0]['t']]
        m = MapV([(ip.val(ip.new('nsasm::Address', L(a), kinds=['int'])), ip.val(conv(ip, k))) for a, k in sorted(conventions.items())])
        ip.m(d, 'AddTargetReturnConventions', ip.alloc(m, 'conventions'))
    return d


BASE = 0x128000
FAR = 0x9000


def layout(lines, base=BASE):
    """memory with each line at its place (lines refer to lines by number), and the addresses of the lines"""
    size = {'sep': 2, 'rep': 2, 'lda #': 2, 'ldx #': 2, 'lda d': 2, 'ldx d': 2, 'jsr': 3, 'jsl': 4, 'jmp': 3, 'jml': 4, 'nop': 1, 'rts': 1, 'sec': 1, 'clc': 1, 'wide': 3,
            'adc d': 2, 'sbc d': 2, 'adc #': 2, 'sbc #': 2, 'other': 3, 'jmp ()': 3, 'jsr ()': 3, 'sep x': 2, 'rep x': 2, 'end': 0, 'adc wide': 3}
    code = {'sep': [0xe2, 0x20], 'rep': [0xc2, 0x20], 'lda #': [0xa9, 0xea], 'ldx #': [0xa2, 0x18], 'lda d': [0xa5, 3], 'ldx d': [0xa6, 4], 'jsr': [0x20, 0x00, 0x90],
            'jsl': [0x22, 0, 0x90, 0x34], 'jmp': [0x4c, 0, 0x90], 'jml': [0x5c, 0, 0x90, 0x34], 'nop': [0xea], 'rts': [0x60], 'sec': [0x38], 'clc': [0x18], 'wide': [0xa9, 0x38, 0xea],
            'adc d': [0x65, 5], 'sbc d': [0xe5, 6], 'adc #': [0x69, 0x38], 'sbc #': [0xe9, 0x18], 'other': [0x20, 0, 0x91], 'jmp ()': [0x6c, 0, 1], 'jsr ()': [0xfc, 0, 1],
            'sep x': [0xe2, 0x10], 'rep x': [0xc2, 0x10], 'end': [], 'adc wide': [0x69, 0xea, 0xea]}
    at, a = [], base
    for k in lines:
        at.append(a)
        a = after(a, size[k] if isinstance(k, str) else 4 if k[0] in ('jsl', 'jml') else 3 if k[0] in ('brl', 'jsr', 'jmp') else 2)
    mem = {}
    for k, a in zip(lines, at):
        if isinstance(k, str):
            bs = code[k]
        else:
            op, t = k
            if op[0] == 'j':
                bs = [{'jsr': 0x20, 'jmp': 0x4c, 'jsl': 0x22, 'jml': 0x5c}[op]] + [at[t] >> 8 * i & 255 for i in range(3 if op[2] == 'l' else 2)]
                mem.update((after(a, i), b) for i, b in enumerate(bs))
                continue
            n = 3 if op == 'brl' else 2
            d = (at[t] - a - n) % 65536
            bs = [0x82, d & 255, d >> 8] if op == 'brl' else [{'beq': 0xf0, 'bra': 0x80, 'bcs': 0xb0, 'bcc': 0x90}[op], d & 255]
        for i, b in enumerate(bs):
            mem[after(a, i)] = b
    return mem, at


def check(c):
    deep = c.tier == 'thorough'
    ENTRY = (0, 1, 1, UNK)

    def one(ip, lines, flags=ENTRY, conventions=None, base=BASE):
        mem, at = layout(lines, base)
        img, d = Image(mem, conventions), disassembler(ip, mem, conventions)
        what = ', '.join(k if isinstance(k, str) else '%s %d' % k for k in lines)
        try:
            enter(ip, d, img, at[0], flags, what)
        except Outside:
            return
        compare(ip, d, img, what)

    def two(ip, lines, entries, conventions=None):
        """entered at several lines in sequence"""
        mem, at = layout(lines)
        img, d = Image(mem, conventions), disassembler(ip, mem, conventions)
        what = ', '.join(k if isinstance(k, str) else '%s %d' % k for k in lines) + ', entered at %s' % (entries,)
        for i, f in entries:
            try:
                enter(ip, d, img, at[i], f, what)
            except Outside:
                return
            compare(ip, d, img, what)

    def choose(ip, per, **kw):
        one(ip, [ks[ip.choose(len(ks))] for ks in per], **kw)

    def scen(name, per, split, f=None, **kw):
        for k in per[split]:
            p = list(per)
            p[split] = [k]
            c.scenario('%s (line %d: %s)' % (name, split, k if isinstance(k, str) else '%s to %d' % k),
                       lambda ip, p=p: (f or choose)(ip, p, **kw), unroll=80, max_paths=60000, max_steps=90000000)
    to = lambda n, *ops: [(o, t) for o in ops for t in range(n)]
    scen('three instructions', [['sep', 'rep', 'lda #', 'rts'] + to(4, 'beq', 'bra')] * 3 + [['rts']], 0)
    scen('loops', [['rep', 'sep'] + to(5, 'beq')[2:], ['lda d', 'sep', 'jsr'] + to(5, 'beq'), ['rep', 'lda #'] + to(5, 'bcs'), ['nop', 'jmp'] + to(5, 'bra', 'brl')[1::3], ['rts']], 1)
    if deep:
        full = ['sep', 'rep', 'lda d', 'jsr'] + to(5, 'beq')
        scen('five instructions', [full, full, full, ['sep', 'rts'] + to(5, 'bra'), ['rts', 'lda #']], 1)
        scen('carry', [['sec', 'clc', 'nop'], ['adc d', 'nop'] + to(5, 'bcs', 'bcc'), ['sec', 'clc'] + to(5, 'bcs', 'bcc'), ['nop', 'adc d'] + to(5, 'bcc', 'bra'), ['rts']], 1)
    every = ['nop', 'sec', 'clc', 'adc d', 'sbc d', 'lda #', 'ldx #', 'lda d', 'ldx d', 'jsr', 'jsl', 'jmp', 'jml', 'rts', 'jmp ()', 'jsr ()', 'sep x', 'rep x', 'wide', 'end'] + to(4, 'bcs', 'bcc', 'brl')[::3]
    scen('every instruction', [every, every, ['rts'], ['rts']], 0)
    for f in ((0, 0, 1, UNK), (0, 1, 0, UNK), (0, UNK, 1, UNK), (0, 1, UNK, UNK), (1, 1, 1, UNK), (0, 0, 0, 0), (0, 1, 1, 1), (UNK, UNK, UNK, UNK)):
        c.scenario('entered in state %s' % (f,), lambda ip, f=f: choose(ip, [['lda #', 'ldx #', 'lda d', 'ldx d', 'sep', 'rep', 'jsr', 'nop', 'wide'], ['lda #', 'ldx #', 'wide', 'jmp', ('beq', 0), ('bcs', 2)], ['rts']], flags=f),
                   unroll=80, max_steps=60000000)
    for cv in ('never', (0, 0, 1, UNK), (0, 1, 0, UNK)):
        for base in (BASE, 0x348000):
            c.scenario('calls returning as %s from %06x' % (cv, base), lambda ip, cv=cv, base=base: choose(
                ip, [['jsr', 'jsl', 'jmp', 'jml', 'jsr ()'], ['lda #', 'jsr', 'other', ('beq', 0), 'sep', 'wide'], ['rts', 'jsl', ('bra', 0)], ['rts']],
                conventions={(base & 0xff0000) + 0x9000: cv, 0x349000: cv}, base=base), unroll=80, max_steps=60000000)
    states = [(0, 1, 1, UNK), (0, 0, 1, UNK), (0, 1, 0, UNK), (1, 1, 1, UNK)]
    body = [['lda d', 'jsr', ('beq', 2), 'sep'], ['ldx d', 'jsl', ('bcs', 0), 'lda #'], ['nop', 'jsr', ('bra', 0)], ['rts', ('bra', 1)], ['rts']]
    for f in states:
        for g in states:
            if f != g and (deep or f == states[0] or g == states[0]):
                for i, j in ((0, 0), (0, 2), (1, 0)) + (((2, 1), (3, 0)) if deep else ()):
                    c.scenario('entered at %d as %s, then at %d as %s' % (i, f, j, g), lambda ip, f=f, g=g, i=i, j=j: two(
                        ip, [ks[ip.choose(len(ks))] for ks in body], [(i, f), (j, g)]), unroll=80, max_steps=90000000)
    for cv in ('never', (0, 1, 1, UNK)):
        c.scenario('entered twice, calls returning as %s' % (cv,), lambda ip, cv=cv: two(
            ip, [('jsr', 'rep', 'jsl')[ip.choose(3)], ('jsr', 'lda d', 'jmp')[ip.choose(3)], 'jsl', 'lda d', 'rts'], [(0, states[0]), (ip.choose(3), states[1]), (1, states[2])],
            {0x129000: cv, 0x349000: cv}), unroll=80, max_steps=60000000)

    def borders(ip):
        """code up to the end of the readable bytes, and across the end of a bank"""
        base, end = ((0x12fffc, None), (0x12fffd, 0x12ffff), (0x12fffe, 0x12ffff), (0x12ffff, 0x12ffff))[ip.choose(4)]
        seq = [['nop', 'nop', 'nop', 'rts'], ['lda d', 'rts'], ['lda d', 'nop', 'rts'], ['jsr', 'rts'], ['rts'], ['nop', 'rts'], ['nop', 'lda d', 'rts'], ['jsl', 'rts'],
               ['nop', 'jsr', 'rts'], ['nop', 'nop', 'rts'], ['nop', ('bra', 0)], [('beq', 1), ('bra', 0)], ['nop', 'nop', 'nop', ('brl', 1)]][ip.choose(13)]
        mem, at = layout(seq, base)
        if end is not None:
            mem = {a: b for a, b in mem.items() if base <= a <= end}
        img, d = Image(mem), disassembler(ip, mem)
        enter(ip, d, img, base, (0, 1, 1, UNK), '%s at %06x' % (seq, base))
        compare(ip, d, img, '%s at %06x' % (seq, base))
    c.scenario('ends of memory and of banks', borders, unroll=80, max_steps=60000000)
