"""The disassembly tools."""
from props.p39 import *
from props.p37 import Flags, MapV, const, table, UNK
from itertools import combinations

EXPLANATION = (
    'Abstract interpretation of the main functions of the two disassembly tools, with disassembly replaced by every outcome from a '
    'set of graphs of far targets: the seeds given (or found by assembling the sources), the addresses followed and their states, '
    'the order of tidying, the exit status, and the listing -- read back line by line as the assembler would place it -- are '
    'compared with the specification.')
ASSUMPTIONS = ['disassembly, tidying, assembling and the text of instructions are as P37, P38, P36 and P27 specify',
               'chains of far calls are shorter than the hundred rounds the tools make']
NAME = {'m8x8': (0, 1, 1, UNK), 'm16x8': (0, 0, 1, UNK), 'm16x16': (0, 0, 0, UNK), 'm8x16': (0, 1, 0, UNK)}


def address(ip, a):
    return ip.val(ip.new('nsasm::Address', L(a), kinds=['int']))


def states(ip, m):
    """map value {address: state}"""
    return MapV([(address(ip, a), ip.val(Flags(ip).make(s))) for a, s in sorted(m.items())])


def joined(ss):
    return tuple(b[0] if len(set(b)) == 1 else UNK for b in zip(*ss))


def disassembly(ip, graph, listing, conventions=None, tidy=True):
    """graph: address -> {target: state}, or None when it fails; listing: [(address, label, entry, mode, state, next)]"""
    def dis(ip, f, this, args, node):
        a = ip.expand(ip.addr_val(args[0])).const
        if a is None:
            raise PathEnd('unknown', 'address to disassemble')
        src = ip.load(this.ext(('f', 'src_')))
        there = isinstance(src, UPtr) and isinstance(src.p(), Ptr) and src.p().cell is not None
        emit(ip, 'disassemble', a, Flags(ip).read(ip.loc_of(args[1])), there)
        g = graph.get(a, {})
        if g is None:
            return failure(ip, ret_rec(ip, f), Str(('reason%x' % a,)))
        return success(ip, ret_rec(ip, f), states(ip, g))

    def cleanup(ip, f, this, args, node):
        emit(ip, 'tidy')
        return success(ip, ret_rec(ip, f)) if tidy else failure(ip, ret_rec(ip, f), symstr('tidy error'))

    def res(ip, f, this, args, node):
        emit(ip, 'result')
        A = ip.p.enum('nsasm::AddressingMode')
        kv = []
        for a, lab, entry, mode, s, t in listing:
            at = ip.alloc(ip.new('nsasm::DisassembledInstruction'), 'd')
            ins = instruction(ip, 'M_nop', mode)
            ip.store(at.ext(('f', 'instruction')), ip.load(ins))
            ip.store(at.ext(('f', 'label')), Str((lab,) if lab else ()))
            ip.store(at.ext(('f', 'is_entry')), L(int(entry)))
            for k, st in (('current_execution_state', s), ('next_execution_state', t)):
                ip.store(at.ext(('f', k)), ip.val(ip.new('nsasm::ExecutionState', Flags(ip).make(st))))
            kv.append((address(ip, a), ip.load(at)))
        return ip.alloc(MapV(kv), 'listing')
    for k, h in (('Disassemble', dis), ('Cleanup', cleanup), ('Result', res)):
        ip.hooks['nsasm::Disassembler::' + k] = h
    ip.hooks['nsasm::Instruction::ToString'] = lambda ip, f, this, args, node: Str(('insn',))


SIZES = {'A_imp': 1, 'A_dir_b': 2, 'A_dir_w': 3, 'A_dir_l': 4}


def text_of(ip, s):
    return ip.str_of(ip.val(ip.m(Flags(ip).make(s), 'ToString'))).const


def read_listing(ip, text, listing, failed):
    """the printed text against the instructions it must place"""
    if text.const is None:
        raise PathEnd('unknown', 'printed text %r' % (text,))
    todo = sorted(listing)
    loc, pending, entry = None, None, None
    for ln in text.const.split('\n'):
        code, _, comment = ln.partition(';')
        w = code.split()
        if w and w[0].endswith(':'):
            ip.require(pending is None, 'a label belongs to one instruction', ln)
            pending = w.pop(0)[:-1]
        if not w:
            continue
        if w[0] == '.org':
            ip.require(len(w) == 2 and w[1][0] == '$' and pending is None and entry is None, 'an origin stands alone', ln)
            loc = int(w[1][1:], 16)
            continue
        ip.require(loc is not None and bool(todo), 'every line listed is an instruction of the disassembly', ln)
        a, lab, is_entry, mode, s, t = todo[0]
        if w[0] == '.entry':
            ip.require(is_entry and entry is None and loc == a, 'an entry declaration precedes its instruction', ln)
            ip.require(w[1:] == [text_of(ip, s)], 'an entry point is declared with the state it is entered in', ln)
            entry = True
            continue
        ip.require(w == ['insn'] and loc == a, 'every instruction is listed where an assembler would put it', lambda: '%s: at %06x, expected %06x' % (ln, loc, a))
        ip.require((pending or '') == lab, 'every instruction has its label', ln)
        ip.require(bool(entry) == is_entry, 'exactly entry points are declared', ln)
        ip.require(comment.split() == [ip.str_of(ip.val(ip.m(ip.alloc(address(ip, a), 'a'), 'ToString'))).const, text_of(ip, t)],
                   'every instruction is annotated with its address and the state after it', ln)
        loc = a // 65536 * 65536 + (a + SIZES[mode]) % 65536
        pending = entry = None
        todo.pop(0)
    ip.require(not todo, 'every instruction is listed', lambda: '%s not listed' % ['%06x' % x[0] for x in todo])
    for a in failed:
        ip.require('reason%x' % a in text.const, 'a failure is reported with its reason', '%06x' % a)


def followed(ip, seeds, graph, inside=()):
    """the calls made against the seeds and the targets they report"""
    calls = [e[1:] for e in events(ip, 'disassemble')]
    known = {a: list(ss) for a, ss in seeds.items()}
    for a, s, there in calls:
        ip.require(there, 'the disassembler has the ROM')
        ip.require(a not in inside, 'code which is assembled from the sources is not disassembled', '%06x' % a)
        ip.require(a in known, 'only the addresses given and the targets found are disassembled', '%06x' % a)
        ip.require(any(s == joined(ss) for n in range(1, len(known[a]) + 1) for ss in combinations(known[a], n)),
                   'an address is disassembled in a state it is reached in', lambda: '%06x: %s of %s' % (a, s, known[a]))
        for t, u in (graph.get(a, {}) or {}).items():
            if u not in known.setdefault(t, []):
                known[t].append(u)
    for a, ss in known.items():
        for s in ss:
            ip.require(a in inside or any(b == a and all(x == y or x == UNK for x, y in zip(u, s)) for b, u, _ in calls),
                       'every address given and every target found is disassembled', lambda: '%06x in state %s' % (a, s))
    order = [e[0] for e in ip.st.ev if e[0] in ('disassemble', 'tidy', 'result')]
    ip.require(order.count('tidy') == 1 and 'disassemble' not in order[order.index('tidy'):] and 'result' not in order[:order.index('tidy')],
               'the disassembly is tidied once, when it is complete', lambda: repr(order[-4:]))
    return {a for a, _, _ in calls if graph.get(a, {}) is None}


S0, S1, S2 = NAME['m8x8'], NAME['m16x8'], NAME['m16x16']
GRAPHS = {
    'no calls': {},
    'a chain': {0x8000: {0x9000: S1}, 0x9000: {0x129000: S2}, 0x129000: {0x348000: S0}},
    'a loop': {0x8000: {0x9000: S0}, 0x9000: {0x8000: S1, 0x9000: S0}},
    'two callers': {0x8000: {0x9000: S0, 0xa000: S1}, 0xa000: {0x9000: S1}},
    'one round, two states': {0x8000: {0x9000: S0}, 0x8100: {0x9000: S2}},
    'a failing call': {0x8000: {0x9000: S0, 0xa000: S0}, 0x9000: None, 0xa000: {0xb000: S2}},
    'a failing seed': {0x8000: None, 0x8100: {0xa000: S1}},
}
LISTINGS = {
    'nothing': [],
    'a run': [(0x8000, 'entry1', True, 'A_imp', S0, S1), (0x8001, '', False, 'A_dir_w', S1, S1), (0x8004, 'label1', False, 'A_dir_b', S1, S2)],
    'a gap': [(0x8000, 'entry1', True, 'A_dir_l', S0, S0), (0x8005, '', False, 'A_imp', S1, S1), (0x12ffff, 'entry2', True, 'A_imp', S2, S2)],
    'overlapping': [(0x8000, 'entry1', True, 'A_dir_w', S0, S0), (0x8001, 'label1', False, 'A_dir_l', S1, S1), (0x8003, '', False, 'A_imp', S1, S1), (0x8005, '', False, 'A_imp', S1, S1)],
    'ends of banks': [(0x120000, '', False, 'A_imp', S0, S0), (0x120001, '', False, 'A_imp', S0, S0), (0x12fffe, 'label1', False, 'A_dir_w', S0, S0), (0x130000, '', False, 'A_imp', S0, S0), (0x130001, 'entry1', True, 'A_imp', S0, S0), (0x13ffff, '', False, 'A_imp', S0, S0), (0x140000, '', False, 'A_imp', S1, S0)],
}


def check(c):
    quick = c.prog(['util/quick_disassemble.cc'] + lib_units())
    more = c.prog(['util/disassemble_more.cc'] + lib_units())
    deep = c.tier == 'thorough'

    def nothing(ip, text):
        ip.require(not any(events(ip, k) for k in ('load', 'open', 'assemble', 'disassemble')), 'too few arguments do nothing')
        ip.require(any(isinstance(p, str) and 'Usage' in p for p in text.p), 'too few arguments explain the usage')

    def few(ip, argc, unit):
        load_rom(ip)
        sources(ip)
        assembles(ip)
        disassembly(ip, {}, [])
        nothing(ip, main_of(ip, [arg(i) for i in range(argc)], unit)[1])
    for unit, pr, n in (('quick_disassemble.cc', quick, 4), ('disassemble_more.cc', more, 3)):
        for argc in range(1, n):
            c.scenario('%s, %d arguments' % (unit[:-3], argc - 1), lambda ip, argc=argc, unit=unit: few(ip, argc, unit), prog=pr)

    # ---- quick_disassemble
    def plain(ip, seeds, graph, listing, tidy=True):
        """seeds: [(text, mode)]; the text is @hexadecimal for an indirect one"""
        load_rom(ip, sym('image size', 1, MAXROM))
        disassembly(ip, graph, listing, tidy=tidy)
        argv, want, bad = [arg(0), arg(1)], {}, False
        ip.scan = {}
        words = {0xfffc: 0x8000, 0xffee: 0x9000}

        def word(ip, f, this, args, node):
            a = ip.expand(ip.addr_val(args[0])).const
            if a not in words:
                return failure(ip, ret_rec(ip, f), symstr('read error'))
            return success(ip, ret_rec(ip, f), L(words[a]))
        ip.hooks['nsasm::InputSource::ReadWord'] = word
        for t, m in seeds:
            argv += [Str((t,)), Str((m,))]
            h = t.lstrip('@')
            try:
                v = int(h, 16)
            except ValueError:
                v = None
            ip.scan[Str((h,))] = (L(v), True) if v is not None else (L(0), None)
            if v is None or v > 0xffffff or m not in NAME or t[0] == '@' and v not in words:
                bad = True
            else:
                want.setdefault(words[v] if t[0] == '@' else v, []).append(NAME[m])
        rc, text = main_of(ip, argv, 'quick_disassemble.cc')
        o = {k[1]: v for k, v in ip.st.facts.prop.items() if k[0] == 'outcome'}
        if not o.get('the ROM loads') or bad:
            ip.require(ip.truth(rc), 'the tool fails when its arguments are malformed or the ROM does not load', lambda: repr(seeds))
            ip.require(bool(text.p), 'and says so')
            ip.require(not events(ip, 'disassemble'), 'and disassembles nothing')
            return
        failed = followed(ip, want, graph)
        ip.require(ip.truth(rc) == (not tidy), 'the tool succeeds exactly when the disassembly could be tidied')
        if tidy:
            read_listing(ip, text, listing, failed)

    for g in sorted(GRAPHS):
        c.scenario('disassembling %s' % g, lambda ip, g=g: plain(ip, [('8000', 'm8x8'), ('8100', 'm16x16')], GRAPHS[g], LISTINGS['a run']), prog=quick, unroll=16)
    for l in sorted(LISTINGS):
        c.scenario('listing %s' % l, lambda ip, l=l: plain(ip, [('8000', 'm8x8')], {}, LISTINGS[l]), prog=quick, unroll=16)
    for k, seeds in enumerate(([('8000', 'm8x8'), ('8000', 'm16x8')], [('@fffc', 'm8x8')], [('@fffc', 'm8x8'), ('8000', 'm16x16')], [('@1234', 'm8x8')], [('1000000', 'm8x8')], [('ffffff', 'm8x8')],
                               [('zz', 'm8x8')], [('8000', 'm9x8')], [('8000', 'm8x8'), ('9000', 'what')], [('ffffffff', 'm8x8')], [('@1000000', 'm8x8')], [('@zz', 'm8x8')], [('@ffee', 'm16x8'), ('0', 'm8x16')],
                               [('', 'm8x8')], [('@', 'm8x8')])):
        c.scenario('seeds %s' % (seeds,), lambda ip, seeds=seeds: plain(ip, seeds, GRAPHS['a chain'], LISTINGS['a run']), prog=quick, unroll=16)
    c.scenario('tidying fails', lambda ip: plain(ip, [('8000', 'm8x8')], {}, LISTINGS['a run'], tidy=False), prog=quick, unroll=16)

    # ---- disassemble_more
    def rest(ip, n, jumps, inside, graph, listing, tidy=True):
        load_rom(ip)
        sources(ip)
        assembles(ip)
        disassembly(ip, graph, listing, tidy=tidy)
        ip.hooks['nsasm::Assembler::JumpTargets'] = lambda ip, f, this, args, node: states(ip, jumps)
        conv_at = {0x9000: S1}

        def convs(ip, f, this, args, node):
            return MapV([(address(ip, a), ip.val(ip.new('nsasm::ReturnConvention', Flags(ip).make(s), kinds=['StatusFlags']))) for a, s in conv_at.items()])

        def install(ip, f, this, args, node):
            m = ip.val(args[0])
            emit(ip, 'conventions', sorted(table(ip, m)), len(events(ip, 'disassemble')))
            return VOID
        ip.hooks['nsasm::Assembler::JumpTargetReturnConventions'] = convs
        ip.hooks['nsasm::Disassembler::AddTargetReturnConventions'] = install
        ip.hooks['nsasm::Assembler::Contains'] = lambda ip, f, this, args, node: L(int(ip.expand(ip.addr_val(args[0])).const in inside))
        rc, text = main_of(ip, [arg(0), arg(1)] + [arg(3 + i) for i in range(n)], 'disassemble_more.cc')
        o = {k[1]: v for k, v in ip.st.facts.prop.items() if k[0] == 'outcome'}
        if not all(o.values()):
            ip.require(ip.truth(rc), 'the tool fails when the ROM or a source cannot be read or assembled')
            ip.require(not events(ip, 'disassemble') and bool(text.p), 'and says so and disassembles nothing')
            return
        done = events(ip, 'assemble')
        ip.require(len(done) == 1 and done[0][1] == [arg(3 + i) for i in range(n)] and done[0][2] == 'nsasm::RomIdentityTest' and done[0][3],
                   'exactly the sources given are checked against the ROM', lambda: repr(done))
        ip.require([e[1:] for e in events(ip, 'conventions')] == [([0x9000], 0)], 'the return conventions of the sources are installed before disassembling')
        failed = followed(ip, {a: [s] for a, s in jumps.items()}, graph, inside)
        ip.require(ip.truth(rc) == (not tidy), 'the tool succeeds exactly when the disassembly could be tidied')
        if tidy:
            read_listing(ip, text, listing, failed)
    for g in sorted(GRAPHS):
        for inside in ((), (0x9000,), (0x8000,)):
            c.scenario('continuing at %s, sources hold %s' % (g, ['%x' % a for a in inside]), lambda ip, g=g, inside=inside: rest(
                ip, 1, {0x8000: S0, 0x8100: S2}, inside, GRAPHS[g], LISTINGS['a run']), prog=more, unroll=16)
    for l in sorted(LISTINGS):
        c.scenario('continuing, listing %s' % l, lambda ip, l=l: rest(ip, 2, {0x8000: S0}, (), {}, LISTINGS[l]), prog=more, unroll=16)
    c.scenario('continuing, tidying fails', lambda ip: rest(ip, 1, {0x8000: S0}, (), {}, LISTINGS['a run'], tidy=False), prog=more, unroll=16)
    c.scenario('continuing without targets', lambda ip: rest(ip, 3, {}, (), {}, []), prog=more, unroll=16)
