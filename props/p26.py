"""Execution of one instruction on the modelled processor state."""
from props.common import *
from props.isa import *
from props.p16 import Flags, norm, concrete, best, contains, force, name, ALL, VALID
from props.p17 import Regs, Oracle, lo, hi
from props.p18 import drain

EXPLANATION = (
    'Abstract interpretation of Instruction::Execute and ExecuteBranch for every mnemonic and mode over flag states, register '
    'knowledge with symbolic values and modelled stacks. The oracle applies the instruction to every concrete flag value a '
    'state stands for, and to registers and stack entries by the processor manual: the resulting claims must cover every '
    'outcome, and what the instruction fixes or leaves alone must stay known.')
ASSUMPTIONS = ['subroutines return with a balanced stack, the data bank they were called with and, unless their return convention says otherwise, '
               'the flags other than carry they were called with',
               'a register said to hold its original value is only compared where its width did not change',
               'shifts of memory may give up the accumulator value']
NAMES = {'a': 'Accumulator', 'x': 'XRegister', 'y': 'YRegister', 'dbr': 'DataBankRegister'}
nc = lambda f: not f.get('const')
CARRY = set('adc sbc asl lsr rol ror cmp cpx cpy'.split())
CALLS = set('jsr jsl brk cop jmp'.split())
BITS = {'on': 1, 'off': 0, 'original': 2, 'unknown': 3}


class State:
    def __init__(self, ip, flags, regs, stack=()):
        self.ip, self.R = ip, Regs(ip)
        self.loc = ip.alloc(ip.val(ip.new('nsasm::ExecutionState')), 'state')
        self.pre, self.regs = flags, regs
        self.o = Oracle(ip)
        st = ip.m(self.loc, 'GetStack', pred=nc)
        for k, e in enumerate(stack):
            if e == 'byte':
                v = sym('pushed byte %d' % k, 0, 255)
                ip.m(st, 'PushByte', v, pred=lambda f: ip.p.types[f['params'][0]['t']]['k'] == 'int')
                self.o.push(('byte', v))
            elif e == 'flags':
                s = (0, 1, 0, 3) if k % 2 else (0, 0, 1, 1)
                ip.m(st, 'PushFlags', ip.val(self.R.F.make(s)))
                self.o.push(('flags', s))
            elif e == 'dbr':
                ip.m(st, 'PushDBR', self.R.make(('original',)))
                self.o.push(('dbr',))
            elif e == 'unknown':
                ip.m(st, 'PushUnknownByte')
                self.o.push(('unknown',))
            elif e[0] == 'reg':
                _, r, w = e
                ip.m(st, 'Push' + r.upper(), self.R.make(('original',)), self.R.flags(r, w))
                self.o.push_reg(r, ('original',), w)
        ip.store(self.flags_loc(), ip.val(self.R.F.make(flags)))
        for r, v in regs.items():
            ip.store(self.reg_loc(r), self.R.make(v))

    def flags_loc(self):
        return self.ip.loc_of(self.ip.m(self.loc, 'Flags', pred=nc))

    def reg_loc(self, r):
        return self.ip.loc_of(self.ip.m(self.loc, NAMES[r], pred=nc))

    def flags(self):
        return self.R.F.read(self.flags_loc())

    def reg(self, r):
        ip, v = self.ip, self.reg_loc(r)
        t = ip.val(ip.m(v, 'type'))
        k = {x: k for k, x in self.R.E.items()}.get(t.c if isinstance(t, Lin) and t.const is not None else None)
        if k is None:
            raise PathEnd('unknown', 'register knowledge not constant')
        return ('value', ip.val(ip.m(v, 'operator*'))) if k == 'T_value' else (k[2:],)

    def check_reg(self, r, want, what, exact=True):
        """want: ('value', Lin, bits) | ('original',) | ('unknown',); with exact=False 'unknown' is allowed too"""
        ip, got = self.ip, self.reg(r)
        if got[0] == 'unknown' and not exact:
            return
        ip.require(got[0] == want[0], 'a register is claimed to hold exactly what it holds, and unknown values are not claimed',
                   lambda: '%s: %s is %s, specified %s' % (what, r, got[0], want[0]))
        if got[0] == 'value':
            m = 1 << (want[2] if len(want) > 2 else 16)
            ip.req_eq(ip.mod(got[1], m, fork=False), ip.mod(L(want[1]), m, fork=False), 'a known register value is the value the register has')

    def drain(self, what):
        drain(self.ip, self.R, self.ip.m(self.loc, 'GetStack', pred=nc), self.o, what)


def check(c):
    p = c.prog()
    states = sorted({norm(s) for s in ALL})
    combos = []
    for i, (m, o) in enumerate(TABLE):
        for mode in (('A_imm_b', 'A_imm_w') if o in ('#m', '#x') else (MODES[o][0],)):
            combos.append((m, o, mode))
            if m in ('adc', 'sbc'):
                combos.append(({'adc': 'add', 'sbc': 'sub'}[m], o, mode))
    ms = sorted({m for m, _, _ in combos})

    def mname(m):
        return ('PM_' if m in ('add', 'sub') else 'M_') + m

    def lit(ip, v, ty='T_word'):
        return ip.alloc(ip.new('nsasm::Literal', L(v), L(p.enum('nsasm::NumericType')[ty])), 'lit')

    def execute(ip, ins, s, ctx=None, branch=False, flag=None):
        if branch:
            return ip.ok(ip.alloc(ip.m(ins, 'ExecuteBranch', s.loc), 'r'))
        if ctx is None:
            ctx = ip.alloc(ip.new('nsasm::NullLookupContext'), 'ctx')
        return ip.ok(ip.alloc(ip.m(ins, 'Execute', s.loc, Opt(None), ctx, NULL if flag is None else flag), 'r'))

    # ---- flags -------------------------------------------------------------
    def outcomes(m, cur, arg, taken):
        """concrete flag values after the instruction; arg None = any"""
        e, mm, x, cc = cur
        if m == 'sec':
            return [(e, mm, x, 1)]
        if m == 'clc':
            return [(e, mm, x, 0)]
        if m == 'bcc':
            return [cur] if cc == (0 if taken else 1) else []
        if m == 'bcs':
            return [cur] if cc == (1 if taken else 0) else []
        if m in ('rep', 'sep'):
            v = int(m == 'sep')
            return [force((e, v if a & 0x20 else mm, v if a & 0x10 else x, v if a & 1 else cc))
                    for a in ([arg] if arg is not None else [0, 1, 0x10, 0x11, 0x20, 0x21, 0x30, 0x31])]
        if m == 'xce':
            return [force((cc, mm, x, e))]
        if m in CARRY or m in CALLS or m in ('add', 'sub'):
            return [(e, mm, x, 0), (e, mm, x, 1)]
        return [cur]

    def judge(ip, m, s, got, arg, taken, what):
        after = [(en, y) for en, cu in concrete(s, VALID) for y in outcomes(m, cu, arg, taken)]
        ip.require(contains(got, after), 'the flag state covers every state the processor can be in',
                   lambda: '%s from %s: %s' % (what, name(s), name(got)))
        if after and arg is not None or m not in ('rep', 'sep'):
            want = best(after)
            for i in range(4):
                ip.require(not after or want[i] > 1 or got[i] == want[i], 'flags the instruction determines, or leaves alone, stay known',
                           lambda: '%s from %s: %s, specified %s' % (what, name(s), name(got), name(want)))

    def flags(ip, m, o, mode, sub, args, taken=False):
        for s in sub:
            if mode in ('A_imm_b', 'A_imm_w') and o in ('#m', '#x'):
                b = s[1 if o == '#m' else 2]
                if b != (1 if mode == 'A_imm_b' else 0):
                    continue
            for arg in args:
                st = State(ip, s, {})
                n = 0 if o in ('', 'A') else 2 if o == 'sd' else 1
                ctx = names(ip, {'one': None if arg is None else L(arg), 'two': ZERO})
                ins = instruction(ip, mname(m), mode, identifier(ip, 'one') if n else None, identifier(ip, 'two') if n > 1 else None)
                if taken:
                    ins = instruction(ip, mname(m), mode, lit(ip, arg))
                ok = execute(ip, ins, st, ctx, taken)
                ip.require(ok, 'an instruction consistent with the flags executes', '%s in %s' % (m, name(s)))
                judge(ip, m, s, st.flags(), arg, taken, '%s %s' % (m, arg))

    for m, o, mode in combos:
        if m == 'plp':
            continue        # depends on the stack, see below
        special = m in ('sec', 'clc', 'bcc', 'bcs', 'rep', 'sep', 'xce')
        sub = states if special or c.tier != 'quick' else [s for k, s in enumerate(states) if k % 7 == 0] + [(0, 0, 0, 2), (0, 1, 1, 3), (0, 0, 1, 0), (0, 1, 0, 1)]
        args = (0xce, 0x01, 0x10, 0x20, 0xff, None) if m in ('rep', 'sep') else (0x31,)
        n = 4 if special else 1
        for k in range(n):
            c.scenario('flags %s %s %d' % (m, mode, k), lambda ip, a=(m, o, mode, sub[k::n], args): flags(ip, *a))
        if o in ('r', 'rl') and m != 'per':
            c.scenario('flags of taken %s' % m, lambda ip, a=(m, o, mode, states, args): flags(ip, *a, taken=True))

    def yields(ip, m, mode):
        for s in ((0, 0, 1, 1), (3, 3, 3, 2), (2, 2, 2, 2)):
            for y in (None, (0, 1, 0, 1), (1, 1, 1, 0), (3, 3, 3, 3)):
                st = State(ip, s, {})
                ins = instruction(ip, 'M_' + m, mode, lit(ip, 0x1234))
                if y is not None:
                    f = st.R.F.make(y)
                    ip.store(ins.ext(('f', 'return_convention')), ip.val(ip.new('nsasm::ReturnConvention', f, kinds=['StatusFlags'])))
                ip.require(execute(ip, ins, st), 'a call executes')
                got, want = st.flags(), (y or s)[:3] + (3,)
                ip.require(got == want, 'a call leaves the flags its return convention yields, with the carry unknown',
                           lambda: '%s in %s yielding %s: %s' % (m, name(s), y, name(got)))
    for m, o, mode in combos:
        if m in CALLS:
            c.scenario('return convention %s %s' % (m, mode), lambda ip, a=(m, mode): yields(ip, *a))

    # ---- registers and stack ------------------------------------------------
    STACKS = ((), ('byte', 'byte', 'byte'), ('flags', 'flags', 'flags'), ('byte', 'dbr'), ('unknown', 'flags'),
              (('reg', 'a', 'on'), ('reg', 'x', 'off')), ('flags', ('reg', 'a', 'off')), (('reg', 'x', 'original'),), (('reg', 'a', 'original'), 'byte'))

    def step(ip, m, o, mode, stacks, widths, kinds):
        for wm, wx in widths:
            if mode == 'A_imm_b' and (wm if o == '#m' else wx if o == '#x' else 'on') != 'on':
                continue
            if mode == 'A_imm_w' and (wm if o == '#m' else wx if o == '#x' else 'off') != 'off':
                continue
            s = (0, BITS[wm], BITS[wx], 3)
            for kind in kinds:
                for stack in stacks:
                    one(ip, m, o, mode, s, wm, wx, kind, stack)

    def one(ip, m, o, mode, s, wm, wx, kind, stack):
        wa_bits, wx_bits = (8 if wm == 'on' else 16), (8 if wx == 'on' else 16)
        if kind == 'value':
            # a byte wherever the register may be narrow
            regs = {'a': ('value', sym('A', 0, (1 << wa_bits) - 1), wa_bits), 'x': ('value', sym('X', 0, (1 << wx_bits if wx in ('on', 'off') else 256) - 1)),
                    'y': ('value', sym('Y', 0, (1 << wx_bits if wx in ('on', 'off') else 256) - 1)), 'dbr': ('value', sym('DBR', 0, 255), 8)}
        else:
            regs = {r: (kind,) for r in NAMES}
        st = State(ip, s, regs, stack)
        v = [sym('operand %d' % k, -32768, 0xffff) for k in (1, 2)]
        if m in ('rep', 'sep'):
            v = [L(0x30), ZERO]
        n = 0 if o in ('', 'A') else 2 if o == 'sd' else 1
        resolves = ip.cond('==', sym('operands resolve', 0, 1), 1) if n else True
        ctx = names(ip, {'one': v[0] if resolves else None, 'two': v[1] if resolves else None})
        ins = instruction(ip, mname(m), mode, identifier(ip, 'one') if n else None, identifier(ip, 'two') if n > 1 else None)
        flag = ip.alloc(ZERO, 'needs_reeval')
        before = len(ip.st.ev)
        ok = execute(ip, ins, st, ctx, flag=flag)
        what = '%s %s, m %s x %s, %s' % (m, o, wm, wx, kind)
        ip.require(ok, 'an instruction consistent with the flags executes', what)
        looked = any(e[0] == 'lookup' for e in ip.st.ev[before:])
        ip.require(ip.truth(ip.val(flag)) == (looked and not resolves), 'the state is marked for re-evaluation exactly when a needed operand did not resolve', what)
        want, loose = dict(regs), set()
        gone = ('unknown',)
        V = st.o
        imm = o in ('#m', '#x')
        if m in CALLS:
            want.update(a=gone, x=gone, y=gone)
            if m == 'jmp':
                loose |= {'a', 'x', 'y', 'dbr'}     # control does not continue
                return
        elif m in ('lda', 'ldx', 'ldy'):
            r = m[2]
            b = wa_bits if r == 'a' else wx_bits
            want[r] = ('value', ip.mod(v[0], 1 << b, fork=False), b if r == 'a' else 16) if imm and resolves else gone
        elif m in ('inc', 'dec') and o == 'A' or m in ('inx', 'dex', 'iny', 'dey'):
            r = m[2] if m[2] in 'xy' else 'a'
            b, known = (wa_bits, wm) if r == 'a' else (wx_bits, wx)
            d = 1 if m[0] == 'i' else -1
            want[r] = gone
            if kind == 'value':
                want[r] = ('value', ip.mod(regs[r][1] + d, 1 << b, fork=False), b if r == 'a' else 16)
                if known not in ('on', 'off'):
                    want[r] = gone
        elif m in ('adc', 'sbc', 'add', 'sub', 'and', 'ora', 'eor', 'txa', 'tya', 'tsc', 'tdc', 'xba') or m in ('asl', 'lsr', 'rol', 'ror') and o == 'A':
            want['a'] = gone
        elif m in ('asl', 'lsr', 'rol', 'ror'):
            loose.add('a')
        elif m in ('tax', 'tsx', 'tyx'):
            want['x'] = gone
        elif m in ('tay', 'txy'):
            want['y'] = gone
        elif m in ('mvn', 'mvp'):
            want['a'] = ('value', L(0xffff), wa_bits)
            d = 1 if m == 'mvn' else -1
            for r in 'xy':
                if kind == 'value' and wm == 'off' and wx in ('on', 'off'):
                    want[r] = ('value', ip.mod(regs[r][1] + (regs['a'][1] + 1).scale(d), 1 << wx_bits, fork=False))
                else:
                    want[r] = gone
            want['dbr'] = ('value', v[1], 8) if resolves else gone
        elif m in ('rep', 'sep', 'xce'):
            after = st.flags()
            if kind == 'original':
                return
            if kind == 'value':
                if after[1] != 1 and not (s[1] == 0 or after[1] == s[1] != 3):
                    want['a'] = gone
                else:
                    want['a'] = regs['a'][:2] + (8 if after[1] == 1 else 16,)
                for r in 'xy':
                    if after[2] == 1:
                        want[r] = ('value', ip.mod(regs[r][1], 256, fork=False))
                    elif after[2] != 0 and s[2] in (0,):
                        if not ip.cond('<', regs[r][1], 256):
                            want[r] = gone
                        else:
                            loose.add(r)
        elif m == 'pea':
            if resolves:
                V.push(('byte', hi(ip, ip.mod(v[0], 65536, fork=False))), ('byte', lo(ip, v[0])))
            else:
                V.push(gone, gone)
        elif m in ('pei', 'per', 'phd'):
            V.push(gone, gone)
        elif m == 'phk':
            V.push(gone)
        elif m == 'phb':
            d = regs['dbr']
            V.push(('byte', d[1]) if d[0] == 'value' else ('dbr',) if d[0] == 'original' else gone)
        elif m in ('pha', 'phx', 'phy'):
            V.push_reg(m[2], regs[m[2]][:2], wm if m == 'pha' else wx)
        elif m == 'php':
            V.push(('flags', s))
        elif m == 'plp':
            e = V.pull()
            got = st.flags()
            f = norm((s[0],) + (e[1][1:] if e[0] == 'flags' else (3, 3, 3)))
            ip.require(got == f, 'pulling the flags restores the pushed ones, or forgets them', lambda: '%s: %s, specified %s' % (what, name(got), name(f)))
            if kind != 'unknown':
                loose |= {'a', 'x', 'y'}
                if f[1] != 1 and not (s[1] == 0 or f[1] == s[1] != 3) and kind == 'value':
                    want['a'] = gone
                elif kind == 'value':
                    want['a'] = regs['a'][:2] + (8 if f[1] == 1 else 16,)
                if kind == 'value':
                    for r in 'xy':
                        if f[2] == 1:
                            want[r] = ('value', ip.mod(regs[r][1], 256, fork=False))
                        elif f[2] != 0 and not ip.cond('<', regs[r][1], 256):
                            want[r] = gone
        elif m == 'plb':
            e = V.pull()
            want['dbr'] = ('value', e[1], 8) if e[0] == 'byte' else ('original',) if e == ('dbr',) else gone
        elif m == 'pld':
            V.pull()
            V.pull()
        elif m in ('pla', 'plx', 'ply'):
            r = m[2]
            t = V.pull_reg(r, wm if r == 'a' else wx)
            want[r] = t + ((wa_bits if r == 'a' else 16,) if t[0] == 'value' else ())
        elif m in ('txs', 'tcs'):
            V.abandon()
        for r in NAMES:
            st.check_reg(r, want[r], what, exact=r not in loose)
        if m not in ('plp', 'rep', 'sep', 'xce', 'clc', 'sec', 'bcc', 'bcs'):
            g = st.flags()
            ip.require(g[:3] == s[:3], 'other instructions leave the emulation and width bits alone', lambda: '%s: %s' % (what, name(g)))
        st.drain(what)

    stacky = set('pea pei per phd phk phb pha phx phy php plp plb pld pla plx ply txs tcs'.split())
    ALLW = [(a, b) for a in ('on', 'off', 'original', 'unknown') for b in ('on', 'off', 'original', 'unknown')]
    for m, o, mode in combos:
        deep = c.tier != 'quick'
        full = m in stacky or deep
        stacks = STACKS if deep or m[:2] == 'pl' else STACKS[:4] + STACKS[6:8] if full else (('flags', 'byte'),)
        fix = [w for w in ALLW if deep or m in ('rep', 'sep', 'xce', 'plp') or w[0] == w[1] or
               (m in ('pha', 'phx', 'phy', 'pla', 'plx', 'ply') or not full) and 'unknown' not in w and 'original' not in w]
        for kind in ('value', 'original', 'unknown'):
            for w in (fix if full else [None]):
                c.scenario('%s %s %s %s' % (m, mode, kind, ' '.join(w) if w else ''),
                           lambda ip, a=(m, o, mode, stacks, [w] if w else fix, (kind,)): step(ip, *a))
