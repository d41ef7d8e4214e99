"""Directives, and statements as directives or instructions."""
from props.common import *
from props.p16 import Flags, name as flag_name
from props.p26 import State

EXPLANATION = (
    'Abstract interpretation of every operation on every directive, with symbolic argument values, addresses, list lengths up to '
    'four and outcomes of name lookup and of the sink: data directives write exactly their values, little-endian, in one write '
    'of the announced size and stop execution; a mode directive replaces the flags; everything else changes nothing. '
    'Each prints in the syntax it is read from. Statements are compared with the instruction or directive they hold.')
ASSUMPTIONS = []
WIDTH = {'D_db': 1, 'D_dw': 2, 'D_dl': 3}
KIND = dict(D_begin='no_arg', D_db='list_arg', D_dl='list_arg', D_dw='list_arg', D_end='no_arg', D_entry='calling_convention_arg',
            D_equ='single_arg', D_halt='no_arg', D_mode='flag_arg', D_module='name_arg', D_org='constant_arg', D_remote='remote_arg')


def directive(ip, d, arg=None, flags=None, conv=None, items=()):
    D = ip.p.enum('nsasm::DirectiveName')
    x = ip.alloc(ip.new_obj('nsasm::Directive'), 'dir')
    ip.default_members('nsasm::Directive', x)
    ip.store(x.ext(('f', 'name')), L(D[d]))
    if arg is not None:
        ip.m(x.ext(('f', 'argument')), 'operator=', arg, pred=lambda f: 'ExpressionOrNull' not in ip.p.types[f['params'][0]['t']]['s'])
    if flags is not None:
        ip.store(x.ext(('f', 'flag_state_argument')), ip.val(flags))
    if conv is not None:
        ip.store(x.ext(('f', 'return_convention_argument')), ip.val(conv))
    return x


def check(c):
    p = c.prog()
    D = p.enum('nsasm::DirectiveName')
    T = p.enum('nsasm::DirectiveType')

    def kinds(ip):
        for d in D:
            ip.req_eq(ip.val(ip.fcall('nsasm::DirectiveTypeByName', L(D[d]))), L(T['DT_' + KIND[d]]), 'every directive takes the arguments of its syntax')
    c.scenario('arguments of directives', kinds)

    def states(ip):
        F = Flags(ip)
        return [(0, 1, 0, 3), (0, 3, 3, 3), (1, 1, 1, 3)]

    def conv(ip, kind):
        if kind == 'never':
            return ip.new('nsasm::ReturnConvention', ip.new_obj('nsasm::NoReturn'), kinds=['NoReturn'])
        if kind == 'yields':
            return ip.new('nsasm::ReturnConvention', Flags(ip).make((0, 0, 1, 3)), kinds=['StatusFlags'])
        return ip.new('nsasm::ReturnConvention')

    def fill(ip, x, es):
        ip.store(x.ext(('f', 'list_argument')), Seq(tuple(E(ip.val(ip.new('nsasm::ExpressionOrNull', e, kinds=['const nsasm::Expression']))) for e in es),
                                                    ip.p.records['nsasm::ExpressionOrNull'].get('tid')))
        return x

    def text(ip, d):
        F = Flags(ip)
        k = KIND[d]
        for s in ((0, 1, 0, 3), (0, 3, 3, 3), (1, 1, 1, 3)) if k in ('flag_arg', 'calling_convention_arg', 'remote_arg') else ((0, 3, 3, 3),):
            for kind in ('default', 'yields', 'never') if k in ('calling_convention_arg', 'remote_arg') else ('default',):
                for n in (1, 2, 3) if k == 'list_arg' else (0,):
                    ids = [identifier(ip, 'item%d' % i) for i in range(n)]
                    arg = identifier(ip, 'operand') if k in ('single_arg', 'constant_arg', 'name_arg', 'remote_arg') else None
                    x = fill(ip, directive(ip, d, arg, F.make(s), conv(ip, kind)), ids)
                    want = '.' + d[2:]
                    if arg is not None:
                        want += ' operand'
                    if n:
                        want += ' ' + ', '.join('item%d' % i for i in range(n))
                    if k in ('flag_arg', 'calling_convention_arg', 'remote_arg'):
                        want += ' ' + flag_text(ip, F, s)
                    if k in ('calling_convention_arg', 'remote_arg'):
                        cv = ip.alloc(ip.val(conv(ip, kind)), 'cv')
                        want += ip.str_of(ip.val(ip.m(cv, 'ToSuffixString'))).const
                    low = lambda t: t.const.lower() if t.const is not None else t
                    got = ip.str_of(ip.val(ip.m(x, 'ToString')))
                    ip.require(got.const is not None and got.const.lower() == want, 'a directive prints its name and all its arguments in the syntax it is read from',
                               lambda: 'printed %r, specified %r' % (got, want))
                    st = ip.alloc(ip.new('nsasm::Statement', ip.val(x), kinds=['Directive']), 'st')
                    ip.req_eq(ip.str_of(ip.val(ip.m(st, 'ToString'))), got, 'a statement prints as what it is')

    def flag_text(ip, F, s):
        return ip.str_of(ip.val(ip.m(F.make(s), 'ToName'))).const

    for d in D:
        c.scenario('text of ' + d, lambda ip, d=d: text(ip, d))

    def execute(ip, d):
        F = Flags(ip)
        for s in ((0, 1, 0, 3), (0, 3, 3, 1), (1, 1, 1, 0)):
            for t in ((0, 0, 1, 3), (1, 1, 1, 3)):
                for wrap in (False, True):
                    x = directive(ip, d, None, F.make(t))
                    if wrap:
                        x = ip.alloc(ip.new('nsasm::Statement', ip.val(x), kinds=['Directive']), 'st')
                    st = State(ip, s, {'a': ('value', sym('a', 0, 65535)), 'x': ('original',)}, ('byte', 'unknown'))
                    before = ip.load(st.loc)
                    ok = ip.ok(ip.alloc(ip.m(x, 'Execute', st.loc), 'r'))
                    ip.require(ok == (d not in ('D_db', 'D_dl', 'D_dw', 'D_org')), 'execution cannot run into data or a gap, but passes everything else', d)
                    if not ok:
                        continue
                    got = st.flags()
                    ip.require(got == (t if d == 'D_mode' else s), 'a mode directive replaces the flags and no other directive touches them',
                               lambda: '%s: %s became %s' % (d, s, got))
                    ip.store(st.flags_loc(), ip.val(F.make(s)))
                    ip.require(ip.value_eq(ip.load(st.loc), before), 'directives leave registers and stack alone', d)
    for d in D:
        c.scenario('executing ' + d, lambda ip, d=d: execute(ip, d))

    def write(ip, d, n, wrap):
        a, bank, o = region_addr(ip, 0, 255, 0, 65535)
        big = 1 << 31
        v = [sym('value %d' % k, -big, big - 1) for k in range(n)]
        known = [ip.cond('==', sym('item %d resolves' % k, 0, 1), 1) for k in range(n)]
        ctx = names(ip, {'item%d' % k: v[k] if known[k] else None for k in range(n)})
        x = fill(ip, directive(ip, d), [identifier(ip, 'item%d' % k, 'T_long') for k in range(n)])
        if wrap:
            x = ip.alloc(ip.new('nsasm::Statement', ip.val(x), kinds=['Directive']), 'st')
        sink = writer(ip)
        size = ip.val(ip.m(x, 'SerializedSize'))
        w = WIDTH.get(d, 0)
        ip.req_eq(size, L(n * w), 'a directive announces the size of its data')
        ok = ip.ok(ip.loc_of(ip.m(x, 'Assemble', a, ctx, sink)))
        ws = writes(ip)
        if not w:
            ip.require(ok and not ws, 'a directive without data writes nothing')
            return
        if not all(known):
            ip.require(not ok, 'an unresolved value is refused')
            ip.require(not ws, 'a refused directive writes nothing')
            return
        ip.require(len(ws) == 1, 'the data are written at once')
        ip.require(ok == ws[0][3], 'assembling succeeds exactly when the sink accepts')
        ip.req_eq(ws[0][1], bank.scale(65536) + o, 'the data are written at the address of the directive')
        ip.require(len(ws[0][2]) == n * w, 'every value has its bytes', lambda: '%d bytes' % len(ws[0][2]))
        for k in range(n):
            for j in range(w):
                ip.req_eq(ws[0][2][k * w + j], ip.mod(ip.div(v[k], 1 << 8 * j), 256), 'the bytes are the values in order, little-endian')
    for d in D:
        for n in (1, 2, 3, 4) if d in WIDTH else (0,):
            for wrap in (False, True):
                c.scenario('assembling %s of %d%s' % (d, n, ' as a statement' if wrap else ''), lambda ip, d=d, n=n, wrap=wrap: write(ip, d, n, wrap))

    M = p.enum('nsasm::Mnemonic')

    def nature(ip):
        for d in D:
            x = directive(ip, d)
            st = ip.alloc(ip.new('nsasm::Statement', ip.val(x), kinds=['Directive']), 'st')
            for y in (x, st):
                ip.require(ip.truth(ip.val(ip.m(y, 'IsExitInstruction'))) == (d == 'D_halt'), 'of the directives only halt ends a run of code', d)
            ip.require(not ip.truth(ip.val(ip.m(st, 'IsLocalBranch'))), 'a directive is no branch', d)
            for e in D:
                ip.require(ip.truth(ip.val(ip.m(st, 'operator==', L(D[e]), pred=lambda f: 'DirectiveName' in p.types[f['params'][0]['t']]['s']))) == (d == e),
                           'a statement equals exactly the directive it is', d + ' ' + e)
            for m in M:
                ip.require(not ip.truth(ip.val(ip.m(st, 'operator==', L(M[m]), pred=lambda f: 'Mnemonic' in p.types[f['params'][0]['t']]['s']))),
                           'a directive is no instruction', d + ' ' + m)
    c.scenario('nature of directives', nature)

    def instruction_statement(ip):
        for m, mode in (('M_jmp', 'A_dir_w'), ('M_jsr', 'A_dir_w'), ('M_bra', 'A_rel8'), ('M_beq', 'A_rel8'), ('M_rts', 'A_imp'), ('M_nop', 'A_imp'),
                        ('M_lda', 'A_imm_w'), ('M_stp', 'A_imp'), ('PM_add', 'A_imm_b'), ('M_xce', 'A_imp')):
            ins = instruction(ip, m, mode, identifier(ip, 'there') if mode != 'A_imp' else None)
            st = ip.alloc(ip.new('nsasm::Statement', ip.val(ins), kinds=['Instruction']), 'st')
            for q in ('IsExitInstruction', 'IsLocalBranch', 'SerializedSize'):
                ip.req_eq(ip.val(ip.m(st, q)), ip.val(ip.m(ins, q)), 'a statement behaves as the instruction it holds')
            ip.req_eq(ip.str_of(ip.val(ip.m(st, 'ToString'))), ip.str_of(ip.val(ip.m(ins, 'ToString'))), 'a statement behaves as the instruction it holds')
            for e in M:
                ip.require(ip.truth(ip.val(ip.m(st, 'operator==', L(M[e]), pred=lambda f: 'Mnemonic' in p.types[f['params'][0]['t']]['s']))) == (m == e),
                           'a statement equals exactly the instruction it is', m + ' ' + e)
            for e in D:
                ip.require(not ip.truth(ip.val(ip.m(st, 'operator==', L(D[e]), pred=lambda f: 'DirectiveName' in p.types[f['params'][0]['t']]['s']))),
                           'an instruction is no directive', m + ' ' + e)
            out = []
            for x in (ins, st):
                s = State(ip, (2, 0, 0, 1), {'a': ('value', sym('a', 0, 65535))}, ('byte',))
                out.append((ip.ok(ip.alloc(ip.m(x, 'Execute', s.loc, *((Opt(None), ip.alloc(ip.new('nsasm::NullLookupContext'), 'ctx'), NULL) if x is ins else ())), 'r')), ip.load(s.loc)))
            ip.require(out[0][0] == out[1][0] and ip.value_eq(out[0][1], out[1][1]), 'a statement behaves as the instruction it holds', m)
            out = []
            for x in (ins, st):
                n = len(writes(ip))
                v = sym('there', 0, 65535)
                r = ip.ok(ip.loc_of(ip.m(x, 'Assemble', ip.addr(ZERO, sym('offset', 0, 65535)), names(ip, {'there': v}), writer(ip, lambda k: True))))
                out.append((r, [w[1:] for w in writes(ip)[n:]]))
            ip.require(out[0] == out[1], 'a statement behaves as the instruction it holds', m)
    c.scenario('statements of instructions', instruction_statement)
