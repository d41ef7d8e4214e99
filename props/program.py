"""Programs handed to the assembler past its parser."""
from props.common import *
from props.p16 import Flags
from props.p29 import directive
from props.p30 import tstr


class Program:
    """A source file whose n-th line parses as lines[n], a list of labels ('name', exported) and of locations of
    instructions or directives.  ('P_plusplus',) is a label of punctuation."""

    def __init__(self, ip, lines, path='prog.asm'):
        self.ip, self.lines, self.path = ip, lines, path
        p = ip.p
        f = p.fn('nsasm::Parse', 1)
        self.rec = ret_rec(ip, f)
        tok = p.fn('nsasm::Tokenize', 2)
        self.trec = ret_rec(ip, tok)
        self.ttid = ip.tid('nsasm::Token')
        seq = p.types[p.types[f['ret']]['args'][0]] if p.types[f['ret']].get('args') else None
        if not seq or not seq.get('args'):
            raise AnalysisError('type of parsed lines not found')
        self.seqt = seq
        var = p.types[seq['args'][0]]
        self.evar = seq['args'][0]
        names = [tstr(p, t) for t in var['args']]
        self.at = {k: next(i for i, s in enumerate(names) if k in s) for k in ('Statement', 'ParsedLabel')}

    def entity(self, e, k):
        ip = self.ip
        if isinstance(e, tuple) and len(e) == 1:
            P = ip.p.enum('nsasm::Punctuation')
            return Var(self.at['ParsedLabel'], ip.val(ip.new('nsasm::ParsedLabel', L(P[e[0]]), kinds=['Punctuation'])))
        if isinstance(e, tuple):
            return Var(self.at['ParsedLabel'], ip.val(ip.new('nsasm::ParsedLabel', Str((e[0],)), L(int(e[1])))))
        v = ip.val(e)
        kind = 'Instruction' if v.cls == 'nsasm::Instruction' else 'Directive'
        loc = ip.val(ip.new('nsasm::Location', Str((self.path,)), L(k)))
        at = ip.alloc(v, 'statement')
        ip.store(at.ext(('f', 'location')), loc)
        return Var(self.at['Statement'], ip.val(ip.new('nsasm::Statement', ip.load(at), kinds=[kind])))


def files(ip, progs):
    """Install the prescribed tokenizer and parser for the given programs; returns their File objects."""
    table = []
    out = []
    for pr in progs:
        lines = []
        for k, es in enumerate(pr.lines):
            lines.append('%d' % len(table))
            table.append((pr, [pr.entity(e, k + 1) for e in es]))
        ft = ip.tid('std::string', 'std::basic_string<char>', 'std::__cxx11::basic_string<char>')
        out.append(ip.alloc(ip.new('nsasm::File', Str((pr.path,)), Seq(tuple(E(Str((x,))) for x in lines), ft)), 'file'))
    pr = progs[0]
    eol = [f for f in ip.p.find('nsasm::Token::Token') if 'EndOfLine' in tstr(ip.p, f['params'][0]['t'])]

    def tokenize(ip, f, this, args, node):
        s = ip.str_of(ip.val(args[0]))
        if s.const is None or not s.const.isdigit():
            raise PathEnd('unknown', 'tokenized text %r' % (s,))
        # as many tokens as say which line it is
        end = ip.val(ip.construct_rec('nsasm::Token', {'usr': eol[0]['usr']}, [ip.new_obj('nsasm::EndOfLine'), ip.val(args[1])], {'k': 'ctor'}))
        return success(ip, pr.trec, Seq(tuple(E(end) for _ in range(int(s.const) + 1)), pr.ttid))
    ip.hooks['nsasm::Tokenize'] = tokenize

    def parse(ip, f, this, args, node):
        v = ip.val(args[0])
        n = ip.expand(v.n).const if isinstance(v, View) else None
        if n is None:
            raise PathEnd('unknown', 'parsed tokens %r' % (v,))
        return success(ip, pr.rec, Seq(tuple(E(e) for e in table[n - 1][1]), pr.evar))
    ip.hooks['nsasm::Parse'] = parse
    return out


def literal(ip, v, ty='T_word'):
    return ip.alloc(ip.new('nsasm::Literal', L(v), L(ip.p.enum('nsasm::NumericType')[ty])), 'lit')


def load(ip, prog):
    """the loaded module, or None when it is refused"""
    f, = files(ip, [prog])
    r = ip.alloc(ip.fcall('nsasm::Module::LoadAsmFile', f), 'loaded')
    if not ip.ok(r):
        return None, r
    return ip.value_loc(r), r


def lines_of(ip, module):
    """locations of the statements of a module, and the name of the member holding the state on entry"""
    p = ip.p
    fl = [k for k, t in ip.fields('nsasm::Module') if 'Module::Line' in tstr(p, t) and p.types[t]['k'] == 'rec' and 'vector' in tstr(p, t)]
    st = [k for k, t in ip.fields('nsasm::Module::Line') if tstr(p, t).endswith('ExecutionState')]
    if len(fl) != 1 or len(st) != 1:
        raise AnalysisError('states of lines not found')
    at = module.ext(('f', fl[0]))
    s = ip.seq_of(ip.load(at))
    if s is None or not s.concrete():
        raise PathEnd('unknown', 'lines %r' % (s,))
    return [at.ext(('i', L(i))) for i in range(len(s.parts))], st[0]


def error_text(ip, r):
    """location and message of a failed result"""
    s = ip.str_of(ip.val(ip.m(ip.alloc(ip.error(r), 'e'), 'ToString')))
    return s.const


def line_of_error(ip, r):
    t = error_text(ip, r)
    m = re.match(r'[a-z.]+:(\d+)', t or '')
    return int(m.group(1)) if m else None
