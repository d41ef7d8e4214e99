"""The inspection tools: the opcode table and the interactive parser."""
from props.p39 import *
from props.p25 import PRINT
from props.isa import *
from props.p24 import held

EXPLANATION = (
    'Abstract interpretation of the main function which prints the opcode table, whose lines are compared with the processor\'s '
    'opcode matrix, and of the one which parses lines as they are typed, over every outcome of tokenizing and parsing each line.')
ASSUMPTIONS = ['opcodes, mnemonics, tokens, parsing and the text of statements are as P21, P12, P30, P31 and P27 specify']


def table_of(ip):
    fs = [f for f in ip.p.find('main') if f['file'].endswith('print_opcode_map.cc')]
    if len(fs) == 1 and fs[0]['params']:
        return main_of(ip, [arg(0)], 'print_opcode_map.cc')
    rc = ip.val(ip.fcall('main', pred=lambda f: f['file'].endswith('print_opcode_map.cc')))
    text = Str(())
    for e in events(ip, 'print'):
        text = text + e[1]
    return ZERO if rc is VOID else rc, text


def check(c):
    pr = c.prog(['util/print_opcode_map.cc'] + lib_units())
    M, A = pr.enum('nsasm::Mnemonic'), {v: k for k, v in pr.enum('nsasm::AddressingMode').items()}

    def table(ip):
        def args_text(ip, f, this, args, node):
            mode = ip.expand(ip.val(args[0])).const
            if mode is None:
                raise PathEnd('unknown', 'addressing mode')
            return Str(('|%s|' % A[mode],))
        ip.hooks['nsasm::ArgsToString'] = args_text
        rc, text = table_of(ip)
        if text.const is None:
            raise PathEnd('unknown', 'printed text %r' % (text,))
        rows = [r for r in text.const.split('\n') if r.strip()]
        ip.require(len(rows) == 256, 'the table has a line for every opcode', lambda: '%d lines' % len(rows))
        for i, (r, (m, o)) in enumerate(zip(rows, TABLE)):
            mode = MODES[o][0]
            wide = mode in ('A_imm_fm', 'A_imm_fx')
            name = m + ('.b' if wide else '')
            w = r.split(None, 1)
            ip.require(w[0].lower() == '%02x' % i, 'lines are in the order of the opcodes', r)
            ip.require(w[1] == '%s|%s|' % (name, 'A_imm_b' if wide else mode), 'every opcode is shown as its instruction, in a form that assembles to it', lambda: '%s, specified %s %s' % (r, name, mode))
        ip.require(not ip.truth(rc), 'printing succeeds')
    c.scenario('opcode table', table, prog=pr, unroll=300)

    pi = c.prog(['util/interactive_parse.cc'] + lib_units())
    NAMES = ['nsasm::ParsedLabel', 'nsasm::Statement']
    alts = next(([[pi.types[a].get('rec') for a in t['args']].index(n) for n in NAMES] for t in pi.types
                 if t.get('base') == 'std::variant' and sorted(pi.types[a].get('rec', '') for a in t['args'] if isinstance(a, int)) == NAMES), None)
    if alts is None:
        raise AnalysisError('items of a parsed line not found')

    def typed(ip, n):
        def put(ip, f, this, args, node):
            x = args[-1]
            if f['n'] == 'operator<<':
                pt = ip.T(f['pt'][-1])
                v = ip.force(ip.val(x)) if not isinstance(x, Ptr) else ip.val(x)
                if pt['k'] in ('int',) and pt.get('size') == 8:
                    v = Str((chr(v.c),))
                s = ip.str_of(v, node)
                emit(ip, 'print', s if isinstance(s, Str) else Str(('?',)))
            return args[0] if this is None else this

        def alive(ip, f, this, args, node):
            return L(int(len(events(ip, 'line')) < n + 1))

        def getline(ip, f, this, args, node):
            k = len(events(ip, 'line'))
            emit(ip, 'line')
            ip.store(args[1], Str(('typed%d' % k,)) if k < n else Str(()))
            return args[0]

        def tokenize(ip, f, this, args, node):
            s = ip.str_of(ip.val(args[0]), node)
            emit(ip, 'tokenize', s)
            rec = ret_rec(ip, f)
            if not ip.branch_prop(('outcome', 'line %d tokenizes' % (len(events(ip, 'tokenize')) - 1)), node):
                return failure(ip, rec, symstr('token error'))
            return success(ip, rec, Seq((), ip.tid('nsasm::Token')))

        def parse(ip, f, this, args, node):
            k = len(events(ip, 'line')) - 1
            rec = ret_rec(ip, f)
            if not ip.branch_prop(('outcome', 'line %d parses' % k), node):
                return failure(ip, rec, symstr('parse error'))
            i = ip.choose(4)
            kinds = ((), (1,), (0, 1, 1), (0, 0))[i]
            emit(ip, 'parsed', k, kinds)
            vs = [E(Var(alts[x], ip.new_obj('nsasm::Statement' if x else 'nsasm::ParsedLabel'))) for x in kinds]
            return success(ip, rec, Seq(tuple(vs), None))

        def shown(kind):
            def show(ip, f, this, args, node):
                emit(ip, 'shown')
                return Str(('%s%d' % (kind, len(events(ip, 'shown'))),))
            return show
        ip.hooks.update({'std::operator<<': put, 'std::basic_ostream::operator<<': lambda ip, f, this, args, node: this, 'std::basic_ios::operator bool': alive, 'std::getline': getline,
                         'nsasm::Tokenize': tokenize, 'nsasm::Parse': parse, 
                         'nsasm::ParsedLabel::ToString': shown('label'), 'nsasm::Statement::ToString': shown('statement')})
        rc, text = main_of(ip, [arg(0)], 'interactive_parse.cc')
        o = {k[1]: v for k, v in ip.st.facts.prop.items() if k[0] == 'outcome'}
        ip.require(not ip.truth(rc), 'the tool ends well at the end of its input')
        ip.require([e[1] for e in events(ip, 'tokenize')][:n] == [Str(('typed%d' % k,)) for k in range(n)], 'every line typed is tokenized', lambda: repr(events(ip, 'tokenize')))
        out, cur = [], Str(())
        for e in ip.st.ev:
            if e[0] == 'line':
                out.append(cur)
                cur = Str(())
            elif e[0] == 'print':
                cur = cur + e[1]
        out = (out + [cur])[1:n + 1]
        count = 0
        for k in range(n):
            t = repr(out[k])
            for what in ('tokenizes', 'parses'):
                if o.get('line %d %s' % (k, what)) is False:
                    ip.require(any(p in out[k].p for p in symstr({'tokenizes': 'token', 'parses': 'parse'}[what] + ' error').p), 'the reason a line is refused is printed', t)
            got = ''.join(x for x in out[k].p if isinstance(x, str)).split('\n')
            kinds = next((e[2] for e in events(ip, 'parsed') if e[1] == k), ())
            want = []
            for x in kinds:
                count += 1
                want.append('statement%d' % count if x else 'label%d:' % count)
            ip.require([g.strip() for g in got if 'label' in g or 'statement' in g] == want, 'every label and statement of a line is shown in order', lambda: '%s, specified %s' % (t, want))
    for n in (0, 1, 2):
        c.scenario('%d lines typed' % n, lambda ip, n=n: typed(ip, n), prog=pi, unroll=12)
