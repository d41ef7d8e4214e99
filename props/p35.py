"""Assembling a laid-out module."""
from props.p33 import *
from props.p32 import UNK, ORIG

EXPLANATION = (
    'Abstract interpretation of assembling programs of every kind of statement at several origins (among them touching, overlapping '
    'and bank-wrapping runs) with symbolic data and every outcome of the sink: exactly the bytes of each statement are written, '
    'once, at its address; overlaps, failed writes and unresolved names refuse the module; owned bytes, names of addresses, jump '
    'targets with the join of the flags at their calls, and declared return conventions are compared with the specification.')
ASSUMPTIONS = ['instructions and directives assemble to the bytes P21, P23 and P29 specify']


def run_first(ip, src, ctx=None):
    m, r = load(ip, Program(ip, src))
    ip.require(m is not None, 'the program loads')
    ip.require(ip.ok(ip.alloc(ip.m(m, 'RunFirstPass'), 'r')), 'the program is laid out')
    ctx = ctx or names2(ip, {})
    ip.require(ip.ok(ip.alloc(ip.m(m, 'RunSecondPass', ctx), 'r')), 'the definitions are evaluated')
    return m, ctx


def assemble(ip, m, ctx, accept=lambda k: True):
    return ip.ok(ip.alloc(ip.m(m, 'Assemble', writer(ip, accept), ctx), 'r'))


def org(ip, a):
    return [directive(ip, 'D_org', literal(ip, a, 'T_long'))]


def bytes_of(ip, k):
    return [0x11 * (i + 1) if j == 0 else 0 for i in range(k[1]) for j in range({'db': 1, 'dw': 2, 'dl': 3}[k[0]])]


def span(a, n):
    return [a // 65536 * 65536 + (a + i) % 65536 for i in range(n)]


def conv(ip, k):
    if k == 'never':
        return ip.new('nsasm::ReturnConvention', ip.new_obj('nsasm::NoReturn'), kinds=['NoReturn'])
    if k is None:
        return ip.new('nsasm::ReturnConvention')
    return ip.new('nsasm::ReturnConvention', Flags(ip).make(k), kinds=['StatusFlags'])


def same_conv(ip, v, k):
    """the convention held by location v is k"""
    if ip.truth(ip.val(ip.m(v, 'IsDefault'))) or k is None:
        return ip.truth(ip.val(ip.m(v, 'IsDefault'))) and k is None
    if ip.truth(ip.val(ip.m(v, 'IsExitCall'))) or k == 'never':
        return ip.truth(ip.val(ip.m(v, 'IsExitCall'))) and k == 'never'
    o = ip.val(ip.m(v, 'YieldFlags'))
    if not isinstance(o, Opt) or o.v is None:
        return False
    return Flags(ip).read(ip.alloc(ip.force(o.v), 'f')) == k


def table(ip, v):
    """{address: location of the value} of a map keyed by addresses"""
    v = ip.val(v)
    if isinstance(v, Top) or not isinstance(v, MapV) or v.unk:
        raise PathEnd('unknown', 'map %r' % (v,))
    out = {}
    for k, x in v.ents:
        a = ip.expand(ip.addr_val(k)).const
        if a is None:
            raise PathEnd('unknown', 'address %r' % (k,))
        out[a] = ip.alloc(x, 'x')
    return out


def flags_match(got, want):
    return all(g == w or {g, w} == {UNK, ORIG} for g, w in zip(got, want))


def check(c):
    RUNS = [[('db', 1)], [('db', 2)], [('dw', 1), ('db', 1)], [('dl', 1)], [('db', 4)], [('dw', 2), ('dl', 1)]]

    def parts(ip, runs, order=None):
        """runs: [(origin, [data])]"""
        src, want = [], []
        for a, ds in runs:
            src.append(org(ip, a))
            off = 0
            for d in ds:
                src.append([line(ip, d)])
                want.append((a // 65536 * 65536 + (a + off) % 65536, bytes_of(ip, d)))
                off += size(d)
        m, ctx = run_first(ip, src)
        used, clash = set(), False
        for a, bs in want:
            s = set(span(a, len(bs)))
            clash = clash or bool(used & s)
            used |= s
        ok = assemble(ip, m, ctx)
        ip.require(ok == (not clash), 'exactly programs writing no address twice are assembled', lambda: repr(runs))
        if not ok:
            return
        got = [(ip.expand(a).const, bs) for _, a, bs, _ in writes(ip)]
        ip.require(sorted(a for a, _ in got) == sorted(a for a, _ in want), 'every statement is written once, at its address', lambda: '%s, specified %s' % (got, want))
        got = dict((a, b) for a, b in got)
        for a, bs in want:
            ip.require(len(got[a]) == len(bs), 'a statement writes all its bytes at once')
            for x, y in zip(got[a], bs):
                ip.req_eq(x, L(y), 'a statement writes its bytes')
        for a in sorted({(x + d) % TOP for x in used for d in (-1, 0, 1)}):
            r = ip.truth(ip.val(ip.m(ip.loc_of(ip.m(m, 'OwnedBytes')), 'Contains', ip.new('nsasm::Address', L(a), kinds=['int']))))
            ip.require(r == (a in used), 'a module owns exactly the bytes it writes', lambda: '%06x of %s' % (a, runs))
    for base in (0x8000, 0x12fffe, 0xffffff, 0):
        for ds in RUNS:
            n = sum(size(d) for d in ds)
            for es in RUNS if c.tier == 'thorough' else RUNS[1:4]:
                k = sum(size(d) for d in es)
                near = sorted({base // 65536 * 65536 + (base + d) % 65536 for d in (-k - 1, -k, -k + 1, -1, 0, 1, n - 1, n, n + 1)} |
                              {(base // 65536 * 65536 + 65536) % TOP, (base + 65536) % TOP})
                c.scenario('runs of %d bytes at %06x and of %d bytes near it' % (n, base, k),
                           lambda ip, base=base, ds=ds, es=es, near=near: parts(ip, [(base, ds), (near[ip.choose(len(near))], es)]), max_steps=40000000)
    c.scenario('three runs', lambda ip: parts(ip, [(0x8000, [('db', 2)]), ((0x8002, 0x8006, 0x9000, 0x7ffc)[ip.choose(4)], [('dw', 2)]),
                                                   ((0x8001, 0x8004, 0x8000, 0x8006, 0x9000, 0x9003, 0xa000)[ip.choose(7)], [('dw', 1), ('db', 2)])]), max_steps=40000000)

    def faults(ip):
        """every outcome of the sink, and of the lookup of a name"""
        known = ip.choose(2)
        d = directive(ip, 'D_db')
        ip.store(d.ext(('f', 'list_argument')), Seq((E(ip.val(ip.new('nsasm::ExpressionOrNull', identifier(ip, 'x'), kinds=['const nsasm::Expression']))),),
                                                   ip.p.records['nsasm::ExpressionOrNull'].get('tid')))
        m, ctx = run_first(ip, [org(ip, 0x8000), [line(ip, ('db', 1))], [line(ip, ('dw', 1))], [d], [line(ip, ('db', 1))]],
                           names2(ip, {('', 'x'): 7 if known else None}))
        bad = ip.choose(5)
        ok = assemble(ip, m, ctx, lambda k: k != bad)
        ip.require(ok == (known == 1 and bad == 4), 'exactly programs whose every name is known and every write succeeds are assembled')
        got = [ip.expand(a).const for _, a, _, _ in writes(ip)]
        ip.require(got == [0x8000, 0x8001, 0x8003, 0x8004][:min(bad + 1, 4) if known else min(bad + 1, 2)] or not ok, 'every statement is written once, at its address')
    c.scenario('failing writes and lookups', faults)

    def code(ip, k):
        """every kind of instruction writes its size at its address"""
        src = [org(ip, 0x128000), [directive(ip, 'D_entry', flags=Flags(ip).make((0, 1, 0, 3)))]]
        at, want = 0x128000, []
        for x in [k] + ['rts'] * (k not in ('rts', 'bra', 'brl', 'jmp long')) + [('dw', 1)]:
            src.append([('here', False)] * (x in ('bra', 'brl')) + [line(ip, x)])
            want.append((at, size(x)))
            at += size(x)
        m, ctx = run_first(ip, src)
        ip.require(assemble(ip, m, ctx), 'the program is assembled')
        ip.require([(ip.expand(a).const, len(b)) for _, a, b, _ in writes(ip)] == want, 'every statement is written once, at its address')
    for k in SIZED:
        if SIZED[k] and k not in ('lda word', 'ldx byte'):
            c.scenario('assembled: %s' % k, lambda ip, k=k: code(ip, k))

    def named(ip, mod):
        """labels: exported names are found by their addresses"""
        v = (0x8001, 0x8000, 5, 0xffffff, TOP, -1, 0x12345678)[ip.choose(7)]
        src = [[directive(ip, 'D_module', identifier(ip, 'mod'))]] if mod else []
        src += [org(ip, 0x8000), [('a', False), line(ip, ('db', 1))], [directive(ip, 'D_begin')], [('in', False), line(ip, ('db', 1))],
                [('out', True), line(ip, ('db', 1))], [directive(ip, 'D_end')], [line(ip, ('db', 1))], [('b', False), ('b2', False), directive(ip, 'D_halt')],
                [('e', False), directive(ip, 'D_equ', literal(ip, v, 'T_unknown'))]]
        m, ctx = run_first(ip, src)
        ip.require(assemble(ip, m, ctx), 'the program is assembled')
        names = {0x8000: {'a'}, 0x8002: {'out'}, 0x8004: {'b', 'b2'}}
        if 0 <= v < TOP:
            names.setdefault(v, set()).add('e')
        for a in (0, 5, 0x7fff, 0x8000, 0x8001, 0x8002, 0x8003, 0x8004, 0x8005, 0xffffff, 0x345678):
            o = ip.val(ip.m(m, 'NameForAddress', ip.new('nsasm::Address', L(a), kinds=['int'])))
            if isinstance(o, Top) or not isinstance(o, Opt):
                raise PathEnd('unknown', 'name %r' % (o,))
            got = None if o.v is None else fullname(ip, ip.alloc(ip.force(o.v), 'n'))
            if not mod or a not in names:
                ip.require(got is None, 'an address no exported name of a named module has is nameless', lambda: '%06x: %s' % (a, got))
            else:
                ip.require(got is not None and got[0] == 'mod' and got[1] in names[a], 'an address has the name exported for it', lambda: '%06x: %s' % (a, got))
    c.scenario('names of addresses', lambda ip: named(ip, True))
    c.scenario('names of addresses, in a module without a name', lambda ip: named(ip, False))

    def unset(ip):
        """a global name before any origin never gets a value"""
        local = ip.choose(2)
        src = [[directive(ip, 'D_begin')], [('x', not local), directive(ip, 'D_halt')], [directive(ip, 'D_end')], org(ip, 0x8000), [line(ip, ('db', 1))]]
        m, ctx = run_first(ip, src)
        ip.require(assemble(ip, m, ctx) == bool(local), 'an exported name without a value is refused')
    c.scenario('names without an address', unset)

    CALLS = {'jsr': ('M_jsr', 'A_dir_w', 'T_word'), 'jsl': ('M_jsl', 'A_dir_l', 'T_long'), 'jmp': ('M_jmp', 'A_dir_w', 'T_word'), 'jml': ('M_jmp', 'A_dir_l', 'T_long')}

    def targets(ip, routines, remotes):
        """routines: [(entry flags, convention, [call or flag change ..., jump])], each (op, target)"""
        F = Flags(ip)
        src, at = [org(ip, 0x128000)], 0x128000
        want, conventions = {}, {}
        join = lambda a, s: want.__setitem__(a, s if a not in want else tuple(x if x == y else UNK for x, y in zip(want[a], s)))
        for flags, cv, ops in routines:
            src.append([directive(ip, 'D_entry', flags=F.make(flags), conv=conv(ip, cv))])
            if cv is not None:
                conventions[at] = cv
            s = flags
            for op in ops:
                if op in ('sep', 'rep'):
                    src.append([instruction(ip, 'M_' + op, 'A_imm_b', literal(ip, 0x20, 'T_byte'))])
                    s = (s[0], 1 if s[0] == 1 else int(op == 'sep'), s[2], s[3])   # emulation mode keeps registers narrow
                    at += 2
                elif op == 'rts':
                    src.append([instruction(ip, 'M_rts', 'A_imp')])
                    at += 1
                elif op[0] == 'known':
                    src.append([instruction(ip, 'M_jsr', 'A_dir_w', identifier(ip, 'x'))])
                    at, s = at + 3, s[:3] + (UNK,)
                else:
                    mn, mode, ty = CALLS[op[0]]
                    src.append([instruction(ip, mn, mode, literal(ip, op[1], ty))])
                    join(op[1] if ty == 'T_long' else 0x120000 + op[1], s)
                    at += 4 if ty == 'T_long' else 3
                    if op[0] in ('jsr', 'jsl'):
                        s = s[:3] + (UNK,)
        src.append([line(ip, ('db', 1))])
        for a, flags, cv in remotes:
            src.append([directive(ip, 'D_remote', literal(ip, a, 'T_long'), F.make(flags), conv(ip, cv))])
            join(a, flags)
            if cv is not None:
                conventions[a] = cv
        m, ctx = run_first(ip, src, names2(ip, {('', 'x'): 0x9999}))
        ip.require(assemble(ip, m, ctx), 'the program is assembled')
        got = {a: F.read(v) for a, v in table(ip, ip.m(m, 'JumpTargets')).items()}
        ip.require(set(got) == set(want), 'the jump targets are the fixed addresses called or jumped to, and the remote ones', lambda: '%s, specified %s' % (got, want))
        for a in want:
            ip.require(flags_match(got[a], want[a]), 'a jump target is reached in the join of the states at its calls', lambda: '%06x: %s, specified %s' % (a, got[a], want[a]))
        cs = table(ip, ip.m(m, 'JumpTargetReturnConventions'))
        ip.require(set(cs) == set(conventions), 'exactly the addresses declared to return specially are reported', lambda: '%s, specified %s' % (sorted(cs), conventions))
        for a, k in conventions.items():
            ip.require(same_conv(ip, cs[a], k), 'an address returns as declared')
    states = [(0, 1, 1, UNK), (0, 0, 1, UNK), (0, 1, 0, UNK), (1, 1, 1, UNK)]
    for op in CALLS:
        a, b = (0x9000, 0x9001) if op in ('jsr', 'jmp') else (0x34ffff, 0x349001)
        for s in states[:3] + ([states[3]] if c.tier == 'thorough' else []):
            for t in states[:2]:
                def one(ip, op=op, a=a, b=b, s=s, t=t):
                    last = ['rts'] if op in ('jsr', 'jsl') else []
                    x = [[(op, a)], [(op, b)], ['rep', (op, a)], ['sep', (op, a)]]
                    targets(ip, [(s, None, x[ip.choose(4)] + last), (t, None, x[ip.choose(4)] + last)], [])
                c.scenario('%s from states %s and %s' % (op, s, t), one)

    def conventions(ip):
        ks = (None, 'never', (0, 1, 0, UNK))
        i, j, k = (ip.choose(3) for _ in range(3))
        targets(ip, [((0, 1, 1, UNK), ks[i], ['rts']), ((0, 0, 1, UNK), ks[j], [('jsr', 0x9000), 'sep', ('known', 0), 'rts'])], [(0x345678, (0, 1, 1, UNK), ks[k])])
    c.scenario('return conventions', conventions)

    def remotes(ip):
        i, j = ip.choose(4), ip.choose(4)
        targets(ip, [(states[0], None, [('jsr', 0x9000), 'rts'])], [((0x129000, 0x9000)[ip.choose(2)], states[i], None), (0x129000, states[j], None)])
    c.scenario('remote targets', remotes)

    def outside(ip):
        v = sym('remote', -(1 << 31), (1 << 31) - 1)
        inside = ip.cond('<=', 0, v) and ip.cond('<', v, TOP)
        m, ctx = run_first(ip, [org(ip, 0x8000), [line(ip, ('db', 1))],
                                [directive(ip, 'D_remote', literal(ip, v, 'T_unknown'), Flags(ip).make((0, 1, 1, UNK)), conv(ip, None))]])
        ip.require(assemble(ip, m, ctx) == inside, 'exactly remote targets in the address space are accepted')
    c.scenario('remote targets outside the address space', outside)
