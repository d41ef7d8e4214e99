"""Static analysis of the control flow of a module."""
from props.program import *
import itertools

EXPLANATION = (
    'Abstract interpretation of loading and of the first pass over every program shape up to a bound (every choice of effects on '
    'the flags, branches, exits, calls, entry points and directives per line), with the effect of each statement on the '
    'modelled state as P26 and P29 specify it. The oracle is the least fixed point of the data-flow equations over the control-flow '
    'graph, computed independently: each line must carry the join over all paths from all entry points, and exactly the programs '
    'with an unreached instruction, a missing target, or a path into data or past the end must be refused.')
ASSUMPTIONS = ['statements affect the modelled state as P26 and P29 specify, and states are merged as P16 and P17 specify']
OFF, ON, ORIG, UNK = range(4)
ENTRY = (0, 0, 1, 3)


def join(a, b):
    return tuple(x if x == y else UNK for x, y in zip(a, b))


def flow(kinds, entries):
    """specified state on entry of each line (None: not reached), or the reason why the program is refused"""
    n = len(kinds)
    state = [None] * n
    todo = [(i, tuple(ORIG if b == UNK else b for b in m)) for i, m in entries]
    bad = set()
    while todo:
        i, s = todo.pop()
        if i >= n:
            bad.add('end')
            continue
        s = s if state[i] is None else join(state[i], s)
        if s == state[i]:
            continue
        state[i] = s
        k = kinds[i]
        e, m, x, c = s
        if k == 'sep':
            todo.append((i + 1, (e, ON, x, c)))
        elif k == 'rep':
            todo.append((i + 1, (e, m, OFF, c)))
        elif k in ('nop', 'equ', 'remote', 'begin', 'end', 'php'):
            todo.append((i + 1, s))
        elif k == 'mode':
            todo.append((i + 1, (0, ON, ON, UNK)))
        elif k in ('jsr', 'brk'):
            todo.append((i + 1, (e, m, x, UNK)))
        elif k == 'jsr yields':
            todo.append((i + 1, (0, ON, OFF, UNK)))
        elif k in ('db', 'dw', 'dl', 'org'):
            bad.add('data')
        elif k in EXITS:
            pass
        else:
            op, t = k
            if t is None:
                bad.add('target')
                continue
            if op == 'bcs':
                todo.append((i + 1, (e, m, x, OFF)))
                todo.append((t, (e, m, x, ON)))
            elif op == 'bcc':
                todo.append((i + 1, (e, m, x, ON)))
                todo.append((t, (e, m, x, OFF)))
            else:
                todo.append((t, s))
                if op not in ('bra', 'brl'):
                    todo.append((i + 1, s))
    return state, bad


EXITS = ('rts', 'stp', 'rtl', 'rti', 'jmp', 'jsr noreturn', 'halt')
DIRECTIVES = ('db', 'dw', 'dl', 'org', 'halt', 'mode', 'equ', 'remote', 'begin', 'end')


def statement(ip, k):
    F = Flags(ip)
    if k in DIRECTIVES:
        x = directive(ip, 'D_' + k, literal(ip, 0x9000) if k in ('org', 'equ', 'remote') else None, F.make((0, 1, 1, 3)) if k in ('mode', 'remote') else None)
        if k in ('db', 'dw', 'dl'):
            e = ip.val(ip.new('nsasm::ExpressionOrNull', literal(ip, 5), kinds=['const nsasm::Expression']))
            ip.store(x.ext(('f', 'list_argument')), Seq((E(e),), ip.p.records['nsasm::ExpressionOrNull'].get('tid')))
        return x
    if k == 'brk':
        return instruction(ip, 'M_brk', 'A_imm_b', literal(ip, 0, 'T_byte'))
    if k == 'jmp' or k.__class__ is str and k.startswith('jsr'):
        i = instruction(ip, 'M_' + k[:3], 'A_dir_w', literal(ip, 0x9000))
        if k == 'jsr noreturn':
            ip.store(i.ext(('f', 'return_convention')), ip.val(ip.new('nsasm::ReturnConvention', ip.new_obj('nsasm::NoReturn'), kinds=['NoReturn'])))
        if k == 'jsr yields':
            ip.store(i.ext(('f', 'return_convention')), ip.val(ip.new('nsasm::ReturnConvention', F.make((0, 1, 0, 3)), kinds=['StatusFlags'])))
        return i
    if k == 'sep':
        return instruction(ip, 'M_sep', 'A_imm_b', literal(ip, 0x20, 'T_byte'))
    if k == 'rep':
        return instruction(ip, 'M_rep', 'A_imm_b', literal(ip, 0x10, 'T_byte'))
    if k in ('nop', 'rts', 'stp', 'rtl', 'rti', 'php'):
        return instruction(ip, 'M_' + k, 'A_imp')
    op, t = k
    return instruction(ip, 'M_' + op, 'A_rel16' if op == 'brl' else 'A_rel8', identifier(ip, 'line%s' % t if t is not None else 'nowhere'))


def program(ip, kinds, entries):
    """directives of entry before the lines they enter at, labels on every line"""
    F = Flags(ip)
    lines = [[directive(ip, 'D_org', literal(ip, 0x8000))]]
    index = []
    for i, k in enumerate(kinds):
        for j, m in entries:
            if j == i:
                lines.append([directive(ip, 'D_entry', flags=F.make(m))])
        index.append(len(lines))
        lines.append([('line%d' % i, False), statement(ip, k)])
    return Program(ip, lines), index


def check(c):
    def run(ip, kinds, entries):
        prog, index = program(ip, kinds, entries)
        m, r = load(ip, prog)
        ip.require(m is not None, 'a program with balanced scopes and distinct labels loads')
        r = ip.alloc(ip.m(m, 'RunFirstPass'), 'r')
        ok = ip.ok(r)
        want, bad = flow(kinds, entries)
        if not bad and any(w is None and k not in DIRECTIVES for w, k in zip(want, kinds)):
            bad = {'unreached'}
        ip.require(ok == (not bad), 'exactly the programs whose every instruction is reached, and whose execution never leaves them, are accepted',
                   lambda: '%s: %s' % (kinds, 'accepted although %s' % bad if ok else 'refused'))
        if not ok:
            return
        ls, st = lines_of(ip, m)
        F = Flags(ip)
        for i, w in enumerate(want):
            if w is None:
                continue
            at = ls[index[i]].ext(('f', st))
            got = F.read(ip.loc_of(ip.m(at, 'Flags', pred=lambda f: not f.get('const'))))
            ip.require(all(g == x or (g, x) == (UNK, ORIG) for g, x in zip(got, w)), 'an instruction is analysed in the join of the states on all paths to it',
                       lambda: 'line %d of %s: state %s, specified %s' % (i, kinds, got, w))

    def choose(ip, per, entries=((0, ENTRY),)):
        run(ip, [ks[ip.choose(len(ks))] for ks in per], entries)

    def scen(name, per, entries=((0, ENTRY),), split=None):
        """every program with line i among per[i]; one scenario per choice for line `split`"""
        for k in per[split] if split is not None else (None,):
            p = list(per)
            if k is not None:
                p[split] = [k]
            nm = name + (' (line %d: %s)' % (split, k if isinstance(k, str) else '%s to %s' % k) if k is not None else '')
            c.scenario(nm, lambda ip, p=p: choose(ip, p, entries), unroll=60, max_paths=60000, max_steps=60000000)

    def ops(n, *names):
        return ['sep', 'rep', 'rts'] + [(o, t) for o in names for t in range(n)]
    to = lambda o, n: [(o, t) for t in range(n)]
    for names in (('bra', 'beq'), ('bcs', 'brl'), ('bcc', 'bne')):
        scen('three lines with %s and %s' % names, [ops(3, *names)] * 3, split=0)
    deep = c.tier == 'thorough'
    full = ops(4, 'bra', 'beq')
    scen('four lines', [full if deep else ['sep', ('beq', 2), ('beq', 3)], full, full, full if deep else ['rts', ('bra', 0), ('bra', 1), ('beq', 3)]], split=1)
    if deep:
        five = ['sep', 'rep'] + to('beq', 5)
        scen('five lines', [to('beq', 5), five, five, five, ['rts'] + to('bra', 5)], split=1)
        scen('three lines with every branch', [ops(3, 'bra', 'beq', 'bcs', 'bcc')] * 3, split=0)
    every = ['nop', 'php', 'jsr', 'jsr yields', 'brk', 'sep', ('beq', 2)] + list(EXITS) + [d for d in DIRECTIVES if d not in ('begin', 'end', 'halt')]
    scen('calls, exits and directives', [every, every, ['rts']], split=0)
    scen('scopes', [['begin'], ['nop', ('beq', 3), ('bra', 4)], ['end'], ['rts', ('beq', 0)], ['rts']])
    modes = [(0, 0, 1, 3), (0, 1, 0, 3), (0, 3, 3, 3), (1, 1, 1, 3), (3, 3, 3, 3)]
    for a in modes:
        for b in modes:
            scen('entered as %s and as %s' % (a, b), [['nop', ('beq', 0), 'rts'], ['nop', ('bcs', 1), ('bra', 0)], ['rts', ('bra', 1)]], entries=((0, a), (1, b)))
    scen('entered in the middle', [['nop', 'rts', ('beq', 2)], ['sep', 'rts', 'db'], ['rep', ('bra', 0), 'rts'], ['rts']], entries=((2, ENTRY),))
    scen('never entered', [['nop', 'db', 'halt'], ['rts', 'equ']], entries=())
    scen('branches to names without a line', [[('beq', None), ('bra', None), 'nop', 'rts'], [('bcc', None), 'rts'], ['rts']])
