"""Assembling several modules together."""
from props.p35 import *
from props.p24 import ident

EXPLANATION = (
    'Abstract interpretation of the assembler over sets of modules: every graph of dependencies between definitions of up to three '
    'modules in every order, with symbolic values; every combination of exported names and of module names; overlapping and '
    'disjoint memory. Exactly the sets that can be laid out are accepted, with every reference across modules given the value it '
    'has; the memory, names, jump targets and conventions reported are those of all modules together.')
ASSUMPTIONS = ['modules behave as P32 to P35 specify']


def dl(ip, x):
    d = directive(ip, 'D_dl')
    ip.store(d.ext(('f', 'list_argument')), Seq((E(ip.val(ip.new('nsasm::ExpressionOrNull', x, kinds=['const nsasm::Expression']))),),
                                               ip.p.records['nsasm::ExpressionOrNull'].get('tid')))
    return d


def unite(ip, sources, accept=lambda k: True):
    """assembler after loading the sources, which are [(path, lines)], and the result: None, or why it failed"""
    fs = files(ip, [Program(ip, ls, p) for p, ls in sources])
    a = ip.alloc(ip.new('nsasm::Assembler'), 'assembler')
    for f in fs:
        if not ip.ok(ip.alloc(ip.m(a, 'AddAsmFile', f), 'r')):
            return a, 'load'
    r = ip.alloc(ip.m(a, 'Assemble', writer(ip, accept)), 'r')
    return a, None if ip.ok(r) else 'assemble'


def head(ip, mod):
    return [[directive(ip, 'D_module', identifier(ip, mod))]] if mod else []


def check(c):
    def written(ip):
        return {ip.expand(a).const: b for _, a, b, _ in writes(ip)}

    def three(b):
        return b[0] + b[1].scale(256) + b[2].scale(65536)

    def graph(ip, deps, mods):
        """module i defines v as the v of module deps[i], or as a value of its own, and writes the v of all"""
        n = len(deps)
        part = lambda i, k: sym('byte %d of value %d' % (k, i), 0, 255)
        own = [part(i, 0) + part(i, 1).scale(256) + part(i, 2).scale(65536) for i in range(n)]
        names = ['v' if mods[i] else 'v%d' % i for i in range(n)]
        ref = lambda j: ident(ip, mods[j] or None, names[j], 'T_long')
        src = []
        for i, d in enumerate(deps):
            e = literal(ip, own[i], 'T_long') if d is None else ref(d)
            src.append(('f%s.asm' % 'abcd'[i], head(ip, mods[i]) + [[(names[i], False), directive(ip, 'D_equ', e)], org(ip, 0x8000 + 0x100 * i)] +
                        [[dl(ip, ref(j))] for j in range(n)]))

        def value(i, seen=()):
            return None if i in seen else own[i] if deps[i] is None else value(deps[i], seen + (i,))
        vals = [value(i) for i in range(n)]
        a, bad = unite(ip, src)
        ip.require((bad is None) == all(v is not None for v in vals), 'exactly the sets of modules whose definitions do not go round in circles are assembled',
                   lambda: '%s: %s' % (deps, bad))
        if bad:
            return
        got = written(ip)
        ip.require(sorted(got) == sorted(0x8000 + 0x100 * i + 3 * j for i in range(n) for j in range(n)), 'every module is assembled once')
        for i in range(n):
            for j in range(n):
                ip.req_eq(three(got[0x8000 + 0x100 * i + 3 * j]), vals[j], 'a name of another module has its value there')
    for mods in (('x', 'y', 'z'), ('', 'y', ''), ('x', '', 'z')):
        for d0 in (None, 0, 1, 2):
            c.scenario('definitions of modules %s, the first by %s' % (mods, d0), lambda ip, d0=d0, mods=mods: graph(
                ip, [d0, (None, 0, 1, 2)[ip.choose(4)], (None, 0, 1, 2)[ip.choose(4)]], mods), max_steps=60000000)
    if c.tier == 'thorough':
        for d0 in (None, 1, 2, 3):
            for d1 in (None, 0, 2, 3):
                c.scenario('definitions of four modules, by %s and %s' % (d0, d1), lambda ip, d0=d0, d1=d1: graph4(
                    ip, [d0, d1, (None, 0, 1, 3)[ip.choose(4)], (None, 0, 1, 2)[ip.choose(4)]]), max_steps=90000000)

    def graph4(ip, deps):
        graph(ip, deps, ('x', 'y', 'z', ''))

    def many(ip):
        """a definition by two names of other modules"""
        i = ip.choose(4)
        two = lambda a, b: ip.alloc(ip.new('nsasm::BinaryExpression', a, b, plus(ip)), 'sum')
        order = [('a', 'b', 'c'), ('c', 'b', 'a'), ('b', 'c', 'a'), ('b', 'a', 'c')][i]
        x, y = sym('x', 0, 100), sym('y', 0, 100)
        src = {'a': head(ip, 'a') + [[('v', False), directive(ip, 'D_equ', literal(ip, x))]],
               'b': head(ip, 'b') + [[('v', False), directive(ip, 'D_equ', literal(ip, y))], [('w', False), directive(ip, 'D_equ', ident(ip, 'a', 'v', 'T_word'))]],
               'c': head(ip, 'c') + [[('v', False), directive(ip, 'D_equ', ident(ip, 'b', 'w', 'T_word'))], [('w', False), directive(ip, 'D_equ', ident(ip, 'b', 'v', 'T_word'))],
                                     org(ip, 0x8000), [dl(ip, ident(ip, None, 'v', 'T_long'))], [dl(ip, ident(ip, 'c', 'w', 'T_long'))]]}
        a, bad = unite(ip, [('f%s.asm' % k, src[k]) for k in order])
        ip.require(bad is None, 'definitions by several names of other modules are evaluated')
        got = written(ip)
        ip.req_eq(three(got[0x8000]), x, 'a name of another module has its value there')
        ip.req_eq(three(got[0x8003]), y, 'a name of another module has its value there')
    c.scenario('several definitions', many)

    def duplicates(ip):
        """two modules exporting names"""
        m1, m2 = ('', 'x', 'y')[ip.choose(3)], ('', 'x')[ip.choose(2)]
        n1, n2 = ('p', 'q')[ip.choose(2)], 'p'
        inner = ip.choose(3)   # the second name: outermost, local, exported from a scope
        body = [[(n2, inner == 2), line(ip, ('db', 1))]]
        if inner:
            body = [[directive(ip, 'D_begin')]] + body + [[directive(ip, 'D_end')]]
        src = [('fa.asm', head(ip, m1) + [org(ip, 0x8000), [(n1, False), line(ip, ('db', 1))]]), ('fb.asm', head(ip, m2) + [org(ip, 0x9000)] + body)]
        a, bad = unite(ip, src)
        ip.require((bad is None) == (m1 != m2 or n1 != n2 or inner == 1), 'exactly sets of modules exporting no name twice are assembled', lambda: repr((m1, n1, m2, n2, inner, bad)))
    c.scenario('names exported twice', duplicates)

    def references(ip):
        """every form of reference from one module to another"""
        m1, m2 = ('', 'x', 'y')[ip.choose(3)], ('', 'x', 'z')[ip.choose(3)]
        q = (None, 'x', 'y', 'z')[ip.choose(4)]
        kind = ip.choose(4)   # outermost, local, exported, missing
        use = ip.choose(2)
        body = [[('p', kind == 2), line(ip, ('db', 1))]] if kind < 3 else []
        if kind in (1, 2):
            body = [[directive(ip, 'D_begin')]] + body + [[directive(ip, 'D_end')]]
        r = ident(ip, q, 'p', 'T_long')
        src = [('fa.asm', head(ip, m1) + [org(ip, 0x9000)] + ([[dl(ip, r)]] if use else [[('d', False), directive(ip, 'D_equ', r)], [dl(ip, identifier(ip, 'd', 'T_long'))]])),
               ('fb.asm', head(ip, m2) + [org(ip, 0x8000)] + body)]
        if ip.choose(2):
            src.reverse()
        a, bad = unite(ip, src)
        good = kind in (0, 2) and (q == m2 or q is None and m2 == '')
        ip.require((bad is None) == good, 'exactly references to exported names, qualified by their module unless it has none, are resolved', lambda: repr((m1, q, m2, kind, bad)))
        if good:
            ip.req_eq(three(written(ip)[0x9000]), L(0x8000), 'a name of another module has its value there')
    c.scenario('references between modules', references, max_steps=40000000)

    def overlap(ip):
        base = (0x8000, 0x12ffff)[ip.choose(2)]
        d = (-3, -2, -1, 0, 1, 2, 0x10000)[ip.choose(7)]
        x, y = ('', 'm')[ip.choose(2)], ('', 'n')[ip.choose(2)]
        b2 = (base // 65536 * 65536 + (base + d) % 65536) if d != 0x10000 else base + d
        a, bad = unite(ip, [('fa.asm', head(ip, x) + [org(ip, base), [line(ip, ('dw', 1))]]), ('fb.asm', head(ip, y) + [org(ip, 0x4000), [line(ip, ('db', 1))], org(ip, b2), [line(ip, ('dl', 1))]])])
        s1, s2 = set(span(base, 2)), set(span(b2, 3)) | {0x4000}
        ip.require((bad is None) == (not s1 & s2), 'exactly sets of modules writing no address twice are assembled', lambda: repr((base, b2, bad)))
        if bad is None:
            for v in sorted({(y + k) % TOP for y in s1 | s2 for k in (-1, 0, 1)}):
                r = ip.truth(ip.val(ip.m(a, 'Contains', ip.new('nsasm::Address', L(v), kinds=['int']))))
                ip.require(r == (v in s1 | s2), 'the memory assembled is what the modules write')
    c.scenario('memory of two modules', overlap, max_steps=40000000)

    def faults(ip):
        bad = ip.choose(4)
        src = [('fa.asm', [org(ip, 0x8000), [line(ip, ('db', 1))], [line(ip, ('db', 1))]]), ('fb.asm', [org(ip, 0x9000), [line(ip, ('db', 1))]])]
        a, r = unite(ip, src, lambda k: k != bad)
        ip.require((r is None) == (bad == 3), 'a failed write refuses the modules')
    c.scenario('failing writes', faults)

    def refused(ip):
        """a module that cannot be loaded, analysed or evaluated refuses the set"""
        k, first = ip.choose(4), ip.choose(2)
        broken = [[[directive(ip, 'D_begin')]], [org(ip, 0x9000), [instruction(ip, 'M_nop', 'A_imp')]],
                  [[line(ip, ('db', 1))]], [[('u', False), directive(ip, 'D_equ', identifier(ip, 'u'))]]][k]
        src = [('fa.asm', [org(ip, 0x8000), [line(ip, ('db', 1))]]), ('fb.asm', broken)]
        a, r = unite(ip, src[::-1] if first else src)
        ip.require(r == ('load' if k == 0 else 'assemble'), 'a module which is refused refuses the set', lambda: '%s: %s' % (k, r))
    c.scenario('a refused module', refused)

    def queries(ip):
        """names, targets and conventions of two modules"""
        F = Flags(ip)
        s, t = ((0, 1, 1, UNK), (0, 0, 1, UNK)), ((0, 1, 1, UNK), (0, 1, 0, UNK))
        f, g = s[ip.choose(2)], t[ip.choose(2)]
        T = (0x9000, 0x8001, 0x8100, 0xa000)[ip.choose(4)]
        cv = (None, 'never')[ip.choose(2)]
        call = lambda a: instruction(ip, 'M_jsr', 'A_dir_w', literal(ip, a))
        rts = lambda: instruction(ip, 'M_rts', 'A_imp')
        src = [('fa.asm', head(ip, 'x') + [org(ip, 0x8000), [('p', False), directive(ip, 'D_entry', flags=F.make(f))], [call(T)], [call(0xb000)], [rts()]]),
               ('fb.asm', head(ip, 'y') + [org(ip, 0x8100), [('q', False), directive(ip, 'D_entry', flags=F.make(g), conv=conv(ip, cv))], [call(T)], [rts()],
                                           [('r', False), line(ip, ('db', 1))], [directive(ip, 'D_remote', literal(ip, 0x8000, 'T_long'), F.make(g), conv(ip, 'never'))]])]
        if ip.choose(2):
            src.reverse()
        a, bad = unite(ip, src)
        ip.require(bad is None, 'the modules are assembled')
        join = tuple(x if x == y else UNK for x, y in zip(f, g))
        used = set(span(0x8000, 7)) | set(span(0x8100, 5))
        want = {k: v for k, v in ((T, join), (0xb000, f)) if k not in used}
        got = {k: F.read(v) for k, v in table(ip, ip.m(a, 'JumpTargets')).items()}
        ip.require(set(got) == set(want), 'the jump targets are those of all modules outside the memory assembled', lambda: '%s, specified %s' % (got, want))
        for k in want:
            ip.require(flags_match(got[k], want[k]), 'a jump target is reached in the join of the states at the calls of all modules', lambda: '%06x: %s, specified %s' % (k, got[k], want[k]))
        cs = table(ip, ip.m(a, 'JumpTargetReturnConventions'))
        spec = {0x8000: 'never', **({0x8100: cv} if cv else {})}
        ip.require(set(cs) == set(spec) and all(same_conv(ip, cs[k], spec[k]) for k in spec), 'the return conventions are those declared by all modules')
        for v, n in ((0x8000, ('x', 'p')), (0x8100, ('y', 'q')), (0x8104, ('y', 'r')), (0x8001, None), (0, None)):
            o = ip.val(ip.m(a, 'NameForAddress', ip.new('nsasm::Address', L(v), kinds=['int'])))
            if isinstance(o, Top) or not isinstance(o, Opt):
                raise PathEnd('unknown', 'name %r' % (o,))
            ip.require((None if o.v is None else fullname(ip, ip.alloc(ip.force(o.v), 'n'))) == n, 'an address has the name any module exports for it', '%06x' % v)
    c.scenario('queries', queries, max_steps=60000000)
