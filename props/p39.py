"""The assembler tool."""
from props.p20 import *

EXPLANATION = (
    'Abstract interpretation of the assembler tool\'s main function over every outcome of loading the ROM, opening each source, '
    'assembling and saving, for outputs of every kind of name and up to three sources (thorough: five) with arbitrary names: what is '
    'opened, assembled, saved and reported is compared with the specification.')
ASSUMPTIONS = ['loading, opening, assembling and saving are replaced by arbitrary outcomes; P06, P36, P41 and P04 specify them']
SINK = {'-': 'nsasm::RomIdentityTest'}


def events(ip, k):
    return [e for e in ip.st.ev if e[0] == k]


def load_rom(ip, n=None):
    def loader(ip, f, this, args, node):
        emit(ip, 'load', ip.str_of(ip.val(args[0]), node))
        if not ip.branch_prop(('outcome', 'the ROM loads'), node):
            return failure(ip, ret_rec(ip, f), symstr('load error'))
        rom = ip.alloc(make_rom(ip, 'kHiRom', n if n is not None else L(0x8000)), 'rom')
        return ip.val(ip.new(ret_rec(ip, f), ip.alloc(own(rom), 'u'), kinds=['unique_ptr']))
    ip.hooks['nsasm::LoadRomFile'] = loader


def sources(ip):
    """every source opens or not; its file carries its name"""
    def opens(ip, f, this, args, node):
        path = ip.str_of(ip.val(args[0]), node)
        emit(ip, 'open', path)
        if not ip.branch_prop(('outcome', 'source %d opens' % len(events(ip, 'open'))), node):
            return failure(ip, ret_rec(ip, f), symstr('open error'))
        t = u8(ip)
        st = ip.tid('std::basic_string<char>', 'std::string', 'class std::basic_string<char>')
        return success(ip, ret_rec(ip, f), ip.new('nsasm::File', path, Seq((), st)))
    ip.hooks['nsasm::OpenFile'] = opens


def assembles(ip):
    """assembly succeeds or not; records the names of the files and the kind of the sink"""
    def asm(ip, f, this, args, node):
        fs = ip.val(args[0])
        sink = ip.val(args[1])
        s = ip.val(ip.loc_of(sink))
        names = [ip.str_of(ip.val(ip.m(ip.alloc(ip.force(p.v), 'f'), 'path')), node) for p in fs.parts]
        rom = ip.load(ip.loc_of(sink).ext(('f', 'rom_')))
        held = isinstance(rom, UPtr) and isinstance(rom.p(), Ptr) and rom.p().cell is not None
        emit(ip, 'assemble', names, s.cls, held)
        if not ip.branch_prop(('outcome', 'assembly succeeds'), node):
            return failure(ip, ret_rec(ip, f), symstr('assembly error'))
        return success(ip, ret_rec(ip, f), ip.new('nsasm::Assembler'))
    ip.hooks['nsasm::Assemble'] = asm


def saves(ip):
    def save(ip, f, this, args, node):
        emit(ip, 'save', ip.str_of(ip.val(args[0]), node), len(events(ip, 'assemble')))
        if not ip.branch_prop(('outcome', 'saving succeeds'), node):
            return failure(ip, ret_rec(ip, f), symstr('save error'))
        return success(ip, ret_rec(ip, f))
    ip.hooks['nsasm::RomOverwriter::CreateFile'] = save


def main_of(ip, argv, unit):
    p = ip.alloc(Seq(tuple(E(a) for a in argv), u8(ip)), 'argv').ext(('i', ZERO))
    try:
        rc = ip.val(ip.fcall('main', L(len(argv)), p, pred=lambda f: f['file'].endswith(unit)))
    except PathEnd as e:
        if e.kind != 'exit':
            raise
        rc = L(e.v) if isinstance(e.v, (int, Lin)) else Top('exit status')
    if rc is VOID:
        rc = ZERO
    text = Str(())
    for e in ip.st.ev:
        if e[0] == 'print':
            text = text + e[1]
    return rc, text


def prog(c):
    return c.prog(['util/quick_assemble.cc'] + lib_units())


def check(c):
    pr = prog(c)
    deep = c.tier == 'thorough'

    def few(ip, argc):
        load_rom(ip)
        sources(ip)
        assembles(ip)
        saves(ip)
        rc, text = main_of(ip, [arg(i) for i in range(argc)], 'quick_assemble.cc')
        ip.require(not any(events(ip, k) for k in ('load', 'open', 'assemble', 'save')), 'too few arguments do nothing')
        ip.require(any(isinstance(p, str) and 'Usage' in p for p in text.p), 'too few arguments explain the usage')
    for argc in (1, 2, 3):
        c.scenario('%d arguments' % (argc - 1), lambda ip, argc=argc: few(ip, argc), prog=pr)

    def run(ip, n, output):
        load_rom(ip)
        sources(ip)
        assembles(ip)
        saves(ip)
        out = Str((output,))
        argv = [arg(0), arg(1), out] + [arg(3 + i) for i in range(n)]
        rc, text = main_of(ip, argv, 'quick_assemble.cc')
        o = {k[1]: v for k, v in ip.st.facts.prop.items() if k[0] == 'outcome'}
        good = all(o.values())
        source = output.endswith('.asm')
        saved = events(ip, 'save')
        done = events(ip, 'assemble')
        ip.require(ip.truth(rc) == (source or not good), 'the tool succeeds exactly when everything it does succeeds', lambda: 'outcomes %s, exit status %r' % (o, rc))
        ip.require(all(e[1] == arg(1) for e in events(ip, 'load')) and len(events(ip, 'load')) <= 1, 'the ROM given is loaded')
        if source:
            ip.require(not saved and not done, 'a source is never overwritten')
            return
        if not good:
            bad = [k for k, v in o.items() if not v][-1]
            what = {'the ROM loads': 'load', 'assembly succeeds': 'assembly', 'saving succeeds': 'save'}.get(bad, 'open')
            ip.require(any(p in text.p for p in symstr(what + ' error').p), 'a failure is printed', lambda: '%s: %r' % (bad, text))
        opened = [e[1] for e in events(ip, 'open')]
        ip.require(opened == [arg(3 + i) for i in range(len(opened))], 'the sources given are opened in order', lambda: repr(opened))
        ready = o.get('the ROM loads') and all(o.get('source %d opens' % (i + 1)) for i in range(n))
        ip.require(len(done) == (1 if ready else 0), 'assembly starts exactly when the ROM and every source are there')
        if done:
            ip.require(done[0][1] == [arg(3 + i) for i in range(n)], 'exactly the sources given are assembled', lambda: repr(done[0]))
            ip.require(done[0][2] == SINK.get(output, 'nsasm::RomOverwriter'), 'the output is checked against the ROM for "-", else written over a copy of it', lambda: repr(done[0]))
            ip.require(done[0][3], 'the sink has the ROM')
        want = 1 if o.get('assembly succeeds') and output != '-' else 0
        ip.require(len(saved) == want, 'the output is saved exactly when assembly succeeded, and once', lambda: 'outcomes %s, saved %r' % (o, saved))
        if saved:
            ip.require(saved[0][1] == out, 'the output is saved where asked', lambda: repr(saved))
    for n in (1, 2, 3) if not deep else (1, 2, 3, 4, 5):
        for output in ('-', 'out.sfc', '.asm', 'dir/out.asm', 'x.asm.sfc', 'asm', '--', './-'):
            c.scenario('%d sources to %s' % (n, output), lambda ip, n=n, output=output: run(ip, n, output), prog=pr, unroll=8)
