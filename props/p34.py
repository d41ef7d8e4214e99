"""Names: scopes, exports, modules."""
from props.p33 import *
from props.p24 import ident

EXPLANATION = (
    'Abstract interpretation of loading and value lookup over every arrangement, up to a bound, of nested scopes, local and '
    'exported labels and references by every form of name, against a table of symbolic outside values: each reference must find '
    'the label the scoping rules give, by its address, or ask the outside exactly for the name that is left; duplicate labels and '
    'unbalanced scopes are refused at the line at fault; exported names, their places and outside dependencies are compared as sets.')
ASSUMPTIONS = ['names are compared by equality (they are opaque to the module)']


def place(lines, mod):
    """specification of names: for each reference (line index, kind) -> defining line or ('out', module, name)"""
    scopes, stack, where = {None: {}}, [None], {}
    begin = {}
    for i, k in enumerate(lines):
        if k in ('a', '@a', 'b'):
            s = None if k == '@a' else stack[-1]
            n = k[-1]
            if n in scopes[s]:
                return 'refused', i
            scopes[s][n] = i
        where[i] = list(stack)
        if k == '{':
            scopes[i] = {}
            stack.append(i)
            begin[i] = i
        elif k == '}':
            if len(stack) == 1:
                return 'refused', i
            stack.pop()
    if len(stack) > 1:
        return 'refused', stack[-1]
    out = {}
    for i, k in enumerate(lines):
        if k == '?':
            for s in reversed(where[i]):
                if 'a' in scopes[s]:
                    out[i] = scopes[s]['a']
                    break
            else:
                out[i] = ('out', '', 'a')
        elif k == '?m':
            out[i] = scopes[None]['a'] if mod == 'm' and 'a' in scopes[None] else ('out', 'm', 'a')
        elif k == '?o':
            out[i] = ('out', 'o', 'a')
    return out, scopes


def check(c):
    def source(ip, lines, mod, first, probe):
        """the lines of the program, and the line number of each of `lines`"""
        src = [[directive(ip, 'D_org', literal(ip, 0x8000))]]
        if mod and first:
            src.append([directive(ip, 'D_module', identifier(ip, mod))])
        at = []
        for i, k in enumerate(lines):
            at.append(len(src))
            if k == '{':
                src.append([directive(ip, 'D_begin')])
            elif k == '}':
                src.append([directive(ip, 'D_end')])
            elif k[0] == '?':
                x = ident(ip, None, 'a', 'T_long') if k == '?' else ident(ip, k[1], 'a', 'T_long')
                if probe == 'equ':
                    src.append([('p%d' % i, True), directive(ip, 'D_equ', x)])
                else:
                    d = directive(ip, 'D_dl')
                    ip.store(d.ext(('f', 'list_argument')), Seq((E(ip.val(ip.new('nsasm::ExpressionOrNull', x, kinds=['const nsasm::Expression']))),),
                                                               ip.p.records['nsasm::ExpressionOrNull'].get('tid')))
                    src.append([d])
            else:
                src.append([(k[-1], k[0] == '@'), data(ip, 'db', 1)])
        if mod and not first:
            src.append([directive(ip, 'D_module', identifier(ip, mod))])
        return src, at

    def locations(ip, m, mod):
        """{(module, name): line}"""
        r = ip.val(ip.m(m, 'ExportedNames'))
        if isinstance(r, Top) or not isinstance(r, MapV) or r.unk:
            raise PathEnd('unknown', 'exported names %r' % (r,))
        out = {}
        for k, v in r.ents:
            t = ip.str_of(ip.val(ip.m(ip.alloc(v, 'loc'), 'ToString'))).const
            out[fullname(ip, ip.loc_of(k))] = t
        return out

    def run(ip, lines, mod='', first=True, probe='equ'):
        src, at = source(ip, lines, mod, first, probe)
        m, r = load(ip, Program(ip, src))
        want, scopes = place(lines, mod)
        d = ' '.join(lines)
        if want == 'refused':
            ip.require(m is None, 'duplicate labels and unbalanced scopes are refused', d)
            ip.require(line_of_error(ip, r) == at[scopes] + 1, 'refused where the duplicate or the unbalanced scope is', lambda: '%s: %s' % (d, error_text(ip, r)))
            return
        ip.require(m is not None, 'distinct labels in balanced scopes are accepted', d)
        exported = {(mod, n): 'prog.asm:%d' % (at[i] + 1) for n, i in scopes[None].items()}
        if probe == 'equ':
            exported.update({(mod, 'p%d' % i): 'prog.asm:%d' % (at[i] + 1) for i in want})
        ip.require(locations(ip, m, mod) == exported, 'the exported names are the labels of the outermost scope and those marked, where they are defined',
                   lambda: '%s: %s, specified %s' % (d, locations(ip, m, mod), exported))
        deps = ip.val(ip.m(m, 'Dependencies'))
        deps = sorted(fullname(ip, ip.loc_of(k)) for k, _ in deps.ents)
        outer = sorted({w[1:] for w in want.values() if isinstance(w, tuple)})
        ip.require(deps == (outer if probe == 'equ' else []), 'a module depends on exactly the outside names its definitions use', lambda: '%s: %s, specified %s' % (d, deps, outer))
        r = ip.alloc(ip.m(m, 'RunFirstPass'), 'r')
        ip.require(ip.ok(r), 'the program is laid out')
        part = lambda k, i: sym('byte %d of outside %s::%s' % (i, *k), 0, 255)
        outside = {k: part(k, 0) + part(k, 1).scale(256) + part(k, 2).scale(65536) for k in outer}

        def look(k):
            ip.require(k in outside, 'only names without a definition are asked outside, in full', lambda: '%s: asked %s' % (d, k))
            return outside[k]
        ctx = names2(ip, look)
        r = ip.alloc(ip.m(m, 'RunSecondPass', ctx), 'r')
        ip.require(ip.ok(r), 'definitions by labels and outside names are evaluated')
        addr, a = {}, 0x8000
        for i, k in enumerate(lines):
            addr[i] = a
            a += 0 if k in '{}' or k[0] == '?' and probe == 'equ' else 3 if k[0] == '?' else 1
        of = lambda w: outside[w[1:]] if isinstance(w, tuple) else L(addr[w])
        if probe == 'equ':
            for i, w in want.items():
                ip.req_eq(value_of(ip, m, 'p%d' % i, mod), of(w), 'a name refers to its innermost definition in scope, else to the outside')
        else:
            r = ip.alloc(ip.m(m, 'Assemble', writer(ip, lambda k: True), ctx), 'r')
            ip.require(ip.ok(r), 'the program is assembled')
            got = {ip.expand(a).const: b for _, a, b, _ in writes(ip)}
            for i, w in want.items():
                b = got.get(addr[i])
                ip.require(b is not None and len(b) == 3, 'a reference is written at its address')
                ip.req_eq(b[0] + b[1].scale(256) + b[2].scale(65536), of(w), 'a name refers to its innermost definition in scope, else to the outside')
        for n, i in scopes[None].items():
            ip.req_eq(value_of(ip, m, n, mod), L(addr[i]), 'an exported name has the address of its line')
        ip.require(value_of(ip, m, 'zz', mod) is None and value_of(ip, m, 'a', 'other') is None and value_of(ip, m, 'a', None) is None,
                   'names a module does not export have no value in it')

    def choose(ip, n, alphabet, must, **kw):
        lines = [alphabet[ip.choose(len(alphabet))] for _ in range(n)]
        for t in must:
            if t not in lines:
                return
        run(ip, lines, **kw)
    n = 6 if c.tier == 'thorough' else 5
    for x in ('a', '@a', '{', '?'):
        for y in ('a', '@a', '{', '}', '?'):
            c.scenario('%d lines beginning with %s %s' % (n, x, y), lambda ip, x=x, y=y: run(ip, [x, y] + [('a', '@a', '{', '}', '?')[ip.choose(5)] for _ in range(n - 2)]),
                       max_paths=200000, unroll=60, max_steps=80000000)
    deep = [('a', '{', '?', '}', '?'), ('{', 'a', '{', '?', '}', '?', '}', '?'), ('a', '{', '{', 'a', '?', '}', '?', '}'), ('{', '@a', '}', '{', '?', 'a', '}'),
            ('{', '{', '@a', 'a', '}', 'a', '?', '}', '?'), ('{', '?', '{', '?', '}', 'a', '}', '@a'), ('{', 'a', '}', '{', 'a', '?', '}', '{', '?', '}'),
            ('a', '{', 'b', '{', '?', '}', '}', 'b'), ('{', 'a', '{', 'a', '{', 'a', '?', '}', '?', '}', '?', '}', '?')]
    for mod in ('', 'm', 'n'):
        for first in (True, False):
            if not mod and not first:
                continue
            for probe in ('equ', 'data'):
                c.scenario('named %r at the %s, used in %s' % (mod, 'top' if first else 'end', probe), lambda ip, mod=mod, first=first, probe=probe: choose(
                    ip, 4 if probe == 'equ' or c.tier == 'thorough' else 3, ['a', '@a', '?', '?m', '?o'], (), mod=mod, first=first, probe=probe), max_paths=200000, unroll=60, max_steps=60000000)
                for d in deep:
                    for q in ('?', '?m'):
                        ls = [q if k == '?' else k for k in d]
                        c.scenario('named %r at the %s, used in %s: %s' % (mod, 'top' if first else 'end', probe, ' '.join(ls)),
                                   lambda ip, ls=ls, mod=mod, first=first, probe=probe: run(ip, ls, mod, first, probe), unroll=60)

    def labels(ip):
        """labels on lines of their own or several on a line name the next statement; +/- labels may repeat"""
        i = ip.choose(3)
        src = [[directive(ip, 'D_org', literal(ip, 0x8000))], [data(ip, 'db', 2)]]
        x, y, z = ('x', False), ('y', ip.choose(2) == 1), ('z', True)
        src += [[x, y, z, data(ip, 'dw', 1)], [x], [y], [], [z], [data(ip, 'dw', 1)]] if False else \
            [[[x, y, z, data(ip, 'dw', 1)]], [[x], [y], [], [z], [data(ip, 'dw', 1)]], [[x], [('P_plusplus',), y, ('P_plusplus',), z, data(ip, 'dw', 1)]]][i]
        src += [[('P_plusplus',), ('w', False), data(ip, 'db', 1)], [('P_minusminus',), ('P_plusplus',), data(ip, 'db', 1)]]
        m, r = load(ip, Program(ip, src))
        ip.require(m is not None, 'labels before a statement, on its line or above, are accepted')
        ip.require(ip.ok(ip.alloc(ip.m(m, 'RunFirstPass'), 'r')), 'the program is laid out')
        for n in 'xyz':
            ip.req_eq(value_of(ip, m, n), L(0x8002), 'every label names the statement that follows')
        ip.req_eq(value_of(ip, m, 'w'), L(0x8004), 'every label names the statement that follows')
        ip.require(sorted(locations(ip, m, '')) == [('', n) for n in 'wxyz'], 'labels of punctuation are not names')
    c.scenario('several labels', labels)

    def twice(ip):
        i = ip.choose(2)
        src = [[directive(ip, 'D_module', identifier(ip, 'm'))], [directive(ip, 'D_org', literal(ip, 0x8000))],
               [directive(ip, 'D_module', identifier(ip, ('m', 'n')[i]))], [data(ip, 'db', 1)]]
        m, r = load(ip, Program(ip, src))
        ip.require(m is None and line_of_error(ip, r) == 3, 'a second module name is refused where it is')
    c.scenario('two module names', twice)

    def named(ip):
        mod = ('', 'm')[ip.choose(2)]
        m, r = load(ip, Program(ip, [[directive(ip, 'D_module', identifier(ip, mod))]] if mod else []))
        ip.require(m is not None, 'a program without statements is accepted')
        ip.require(ip.str_of(ip.val(ip.m(m, 'Name'))).const == mod, 'a module has the name given')
        ip.require(ip.str_of(ip.val(ip.m(m, 'Path'))).const == 'prog.asm', 'a module has the path of its file')
    c.scenario('name and path', named)

    def front(ip):
        """errors of the tokenizer and the parser refuse the module"""
        f, = files(ip, [Program(ip, [[], [data(ip, 'db', 1)], []])])
        which, line = ip.choose(2), ip.choose(3)
        q = ('nsasm::Tokenize', 'nsasm::Parse')[which]
        inner, seen = ip.hooks[q], []

        def fail(ip, f, this, args, node):
            k = sum(1 for e in ip.st.ev if e[0] == 'called')
            ip.st.ev = ip.st.ev + (('called',),)
            return failure(ip, ret_rec(ip, f), symstr('complaint')) if k == line else inner(ip, f, this, args, node)
        ip.hooks[q] = fail
        r = ip.alloc(ip.fcall('nsasm::Module::LoadAsmFile', f), 'loaded')
        ip.require(not ip.ok(r), 'a file with a line that does not parse is refused')
        ip.hooks[q] = inner
    c.scenario('lines that do not parse', front)
