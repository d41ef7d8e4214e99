"""Addresses and values of the lines of a module."""
from props.program import *
from props.p24 import fullname
from props.p32 import statement

EXPLANATION = (
    'Abstract interpretation of loading and of both layout passes over programs of every kind of statement with symbolic origins '
    '(also outside the address space): the value of every label is compared with the address laid out by the specification, '
    'computed from the widths of the instruction set and of the data, wrapping within the bank; values of .equ lines are compared '
    'with their expressions, in every order of definition and for every outcome of outside lookups.')
ASSUMPTIONS = ['instructions and directives announce the sizes P29 and P21 specify']
TOP = 1 << 24


def names2(ip, table):
    """A lookup context: (module or None, identifier) -> abstract value or None (unresolved)."""
    def look(ip, f, this, args, node):
        k = fullname(ip, ip.loc_of(args[0]))
        ip.st.ev = ip.st.ev + (('lookup', k),)
        v = table(k) if callable(table) else table.get(k)
        return failure(ip, ret_rec(ip, f), Str(('no such name',))) if v is None else success(ip, ret_rec(ip, f), L(v))
    ip.hooks['nsa_spec::Names::Lookup'] = look
    return ip.alloc(ip.new('nsa_spec::Names'), 'names')


def full(ip, mod, name):
    return ip.alloc(ip.new('nsasm::FullIdentifier', *([Str((mod,))] if mod is not None else []), Str((name,))), 'name')


def value_of(ip, m, name, mod=''):
    """value of an exported name, or None"""
    r = ip.alloc(ip.m(m, 'ValueForName', full(ip, mod, name)), 'value')
    if not ip.ok(r):
        return None
    return ip.val(ip.m(ip.value_loc(r), 'ToInt'))


def data(ip, k, n):
    x = directive(ip, 'D_' + k)
    e = lambda i: ip.val(ip.new('nsasm::ExpressionOrNull', literal(ip, 0x11 * (i + 1), 'T_byte'), kinds=['const nsasm::Expression']))
    ip.store(x.ext(('f', 'list_argument')), Seq(tuple(E(e(i)) for i in range(n)), ip.p.records['nsasm::ExpressionOrNull'].get('tid')))
    return x


SIZED = {'nop': 1, 'lda byte': 2, 'lda word': 3, 'ldx byte': 2, 'ldx word': 3, 'lda': 3, 'lda long': 4, 'bra': 2, 'brl': 3, 'rts': 1, 'jmp long': 4, 'mvn': 3, 'brk': 2, 'sep': 2,
         'begin': 0, 'end': 0, 'entry': 0, 'remote': 0, 'mode': 0, 'halt': 0, 'module': 0}
CODE = ('nop', 'lda byte', 'ldx byte', 'lda word', 'ldx word', 'lda', 'lda long', 'bra', 'brl', 'rts', 'jmp long', 'mvn', 'brk', 'sep')
DATA = [(k, n) for k in ('db', 'dw', 'dl') for n in (1, 2, 4)]


def line(ip, k):
    """a statement which announces size(k)"""
    if isinstance(k, tuple):
        return data(ip, *k)
    if k in ('lda byte', 'ldx byte', 'lda word', 'ldx word'):
        return instruction(ip, 'M_' + k[:3], 'A_imm_fm' if k[:3] == 'lda' else 'A_imm_fx', literal(ip, 1, 'T_byte'))
    if k in ('nop', 'rts'):
        return instruction(ip, 'M_' + k, 'A_imp')
    if k == 'lda':
        return instruction(ip, 'M_lda', 'A_dir_w', literal(ip, 0x1234))
    if k == 'lda long':
        return instruction(ip, 'M_lda', 'A_dir_l', literal(ip, 0x123456, 'T_long'))
    if k == 'jmp long':
        return instruction(ip, 'M_jmp', 'A_dir_l', literal(ip, 0x123456, 'T_long'))
    if k == 'mvn':
        return instruction(ip, 'M_mvn', 'A_mov', literal(ip, 1, 'T_byte'), literal(ip, 2, 'T_byte'))
    if k == 'sep':
        return instruction(ip, 'M_sep', 'A_imm_b', literal(ip, 0, 'T_byte'))
    if k in ('brl', 'bra'):
        return instruction(ip, 'M_' + k, 'A_rel16' if k == 'brl' else 'A_rel8', identifier(ip, 'here'))
    if k == 'module':
        return directive(ip, 'D_module', identifier(ip, 'mod'))
    if k == 'entry':
        return directive(ip, 'D_entry', flags=Flags(ip).make((0, 1, 0, 3)))
    return statement(ip, k)


def size(k):
    return {'db': 1, 'dw': 2, 'dl': 3}[k[0]] * k[1] if isinstance(k, tuple) else SIZED[k]


def check(c):
    def at(ip, org, off):
        """the address `off` bytes into the run from `org` = (bank, offset)"""
        b, o = org
        return b.scale(65536) + ip.mod(o + off, 65536)

    def origin(ip, k):
        return sym('bank %d' % k, 0, 255), sym('offset %d' % k, 0, 0xffff)

    def org(ip, b, o):
        return [directive(ip, 'D_org', literal(ip, b.scale(65536) + o, 'T_long'))]

    def layout(ip, before, first, second, flags=(0, 1, 0, 3)):
        """code or data `before` any origin, in a first run and in a second one"""
        a, b = origin(ip, 1), origin(ip, 2)
        lines, want = [], []
        code = any(k in CODE for k in first)
        for part, o in ((before, None), (first, a), (second, b)):
            if o:
                want.append((len(want), at(ip, o, 0)))
                lines.append([('line%d' % len(lines), False)] + org(ip, *o))
                if part is first and code:
                    want.append((len(want), at(ip, o, 0)))
                    lines.append([('line%d' % len(lines), False), directive(ip, 'D_entry', flags=Flags(ip).make(flags))])
            off = 0
            for k in part:
                here = [('here', False)] if k in ('bra', 'brl') else []
                want.append((len(want), at(ip, o, off) if o else None))
                lines.append([('line%d' % len(lines), True)] + here + [line(ip, k)])
                off += size(k)
        m, r = load(ip, Program(ip, lines))
        ip.require(m is not None, 'the program loads')
        r = ip.alloc(ip.m(m, 'RunFirstPass'), 'r')
        if any(size(k) for k in before):
            ip.require(not ip.ok(r), 'bytes without an origin are refused')
            return
        ip.require(ip.ok(r), 'the program is laid out')
        mod = 'mod' if 'module' in before + first + second else ''
        for i, w in want:
            v = value_of(ip, m, 'line%d' % i, mod)
            if w is None:
                ip.require(v is None, 'a label before any origin has no address')
            else:
                ip.require(v is not None, 'every label after an origin has an address')
                ip.req_eq(v, w, 'a label is the origin plus the sizes since, wrapping within the bank')
    flat = lambda xs: ', '.join(k if isinstance(k, str) else '%s*%d' % k for k in xs) or 'nothing'
    widths = [(0, 1, 0, 3), (0, 0, 1, 3), (0, 1, 1, 3), (0, 0, 0, 3), (1, 1, 1, 3)]
    code = ['nop', 'lda', 'lda long', 'brl', 'bra', 'jmp long', 'mvn', 'brk', 'sep', 'rts']
    ends = ('rts', 'bra', 'brl', 'jmp long')
    for k in code:
        first = [k] + (['rts'] if k not in ends else [])
        for d in DATA[:: 1 if c.tier == 'thorough' else 4]:
            c.scenario('laid out: %s' % flat(first + [d]), lambda ip, first=first, d=d: layout(ip, [], first + [d, ('db', 1)], [('dw', 1), d]))
    for f in widths:
        ks = ['lda byte' if f[1] else 'lda word', 'ldx byte' if f[2] else 'ldx word']
        c.scenario('immediates in flag state %s' % (f,), lambda ip, ks=ks, f=f: layout(ip, [], [ks[0], ks[1], ks[0], 'rts', ('db', 1)], [], f))
    for d in DATA:
        for e in DATA[:: 1 if c.tier == 'thorough' else 4]:
            c.scenario('laid out: %s' % flat([d, e]), lambda ip, d=d, e=e: layout(ip, [], [d, e, ('db', 1)], [e, d, ('db', 1)]))
    for k in ('begin', 'remote', 'mode', 'halt', 'module', 'end'):
        ks = ['begin', 'end'] if k in ('begin', 'end') else [k]
        c.scenario('laid out: %s' % k, lambda ip, ks=ks: layout(ip, [], [('db', 2)] + ks + [('dw', 1)], [('dw', 1)]))
        c.scenario('%s before any origin' % k, lambda ip, ks=ks: layout(ip, ks, [('db', 2), ('dw', 1)], []))
    for d in DATA:
        c.scenario('%s before any origin' % flat([d]), lambda ip, d=d: layout(ip, [d], [('db', 1)], []))

    def outside(ip):
        v = sym('origin', -(1 << 31), (1 << 31) - 1)
        m, r = load(ip, Program(ip, [[directive(ip, 'D_org', literal(ip, v, 'T_unknown'))], [('x', False), data(ip, 'db', 1)]]))
        ip.require(m is not None, 'the program loads')
        r = ip.alloc(ip.m(m, 'RunFirstPass'), 'r')
        inside = ip.cond('<=', 0, v) and ip.cond('<', v, TOP)
        ip.require(ip.ok(r) == inside, 'exactly origins in the address space are accepted')
        if inside:
            ip.req_eq(value_of(ip, m, 'x'), v, 'the first statement is at the origin')
    c.scenario('origins outside the address space', outside)

    def named(ip):
        m, r = load(ip, Program(ip, [[('x', False), directive(ip, 'D_equ', literal(ip, 5))], [directive(ip, 'D_org', identifier(ip, 'x'))], [data(ip, 'db', 1)]]))
        ip.require(m is not None, 'the program loads')
        r = ip.alloc(ip.m(m, 'RunFirstPass'), 'r')
        ip.require(not ip.ok(r), 'an origin depending on names is refused')
    c.scenario('origins by name', named)

    def equs(ip, order):
        """.equ lines a..., each defined by a name or a value"""
        o = origin(ip, 1)
        v = sym('value', -(1 << 31), (1 << 31) - 1)
        ext = sym('outside', -(1 << 31), (1 << 31) - 1)
        known = ip.cond('==', sym('resolved', 0, 1), 1)
        lines = [org(ip, *o), [data(ip, 'dw', 1)]]
        for i, d in enumerate(order):
            e = literal(ip, v, 'T_unknown') if d == 'value' else identifier(ip, {'label': 'here', 'outside': 'ext'}.get(d, d))
            lines.append([('n%d' % i, False), directive(ip, 'D_equ', e)])
        lines.append([('here', False), data(ip, 'db', 1)])
        m, r = load(ip, Program(ip, lines))
        ip.require(m is not None, 'the program loads')
        r = ip.alloc(ip.m(m, 'RunFirstPass'), 'r')
        ip.require(ip.ok(r), 'values of names do not matter to the layout')
        ip.req_eq(value_of(ip, m, 'here'), at(ip, o, 2), 'a line giving a value takes no space')
        for i in range(len(order)):
            ip.require(value_of(ip, m, 'n%d' % i) is None, 'a defined name has no value before it is evaluated')
        ctx = names2(ip, {('', 'ext'): ext if known else None})
        r = ip.alloc(ip.m(m, 'RunSecondPass', ctx), 'r')
        val, good = {}, True
        for i, d in enumerate(order):
            if d == 'outside' and not known or d in ('n0', 'n1', 'n2') and d not in val:
                good = False
                break
            val['n%d' % i] = v if d == 'value' else ext if d == 'outside' else at(ip, o, 2) if d == 'label' else val[d]
        ip.require(ip.ok(r) == good, 'exactly values depending on what is known so far are evaluated')
        if good:
            for k in val:
                ip.req_eq(value_of(ip, m, k), val[k], 'a defined name has the value of its expression')
            ip.req_eq(value_of(ip, m, 'here'), at(ip, o, 2), 'evaluation leaves addresses alone')
    kinds = ['value', 'label', 'outside', 'n0', 'n1', 'n2']
    for a in kinds:
        for b in kinds:
            for d in kinds if c.tier == 'thorough' or a in ('n0', 'n1', 'label') else ['n0', 'n1']:
                c.scenario('defined in order: %s, %s, %s' % (a, b, d), lambda ip, o=(a, b, d): equs(ip, o))
