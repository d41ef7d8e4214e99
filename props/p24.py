"""Expressions."""
from props.common import *
from nsa.lib import format_str

EXPLANATION = (
    'Abstract interpretation of the expression classes with symbolic operand values and every outcome of operand evaluation: '
    'values, types, printed forms, referenced names and copies are compared with the specification for literals of every type, '
    'identifiers of every form, every unary and binary operator, and labels.')
ASSUMPTIONS = ['operator results that do not fit in an int are outside (the language leaves them undefined)']
BIG = 1 << 31
TYPES = ('T_unknown', 'T_byte', 'T_word', 'T_long', 'T_signed_byte', 'T_signed_word', 'T_signed_long')
WIDTH = {'T_unknown': 0, 'T_byte': 1, 'T_word': 2, 'T_long': 3, 'T_signed_byte': 1, 'T_signed_word': 2, 'T_signed_long': 3}


def cast(ip, ty, v):
    w = WIDTH[ty]
    if not w:
        return v
    m = ip.mod(v, 1 << 8 * w)
    if 'signed' in ty and not ip.cond('<', m, 1 << 8 * w - 1):
        m = m - (1 << 8 * w)
    return m


def combined(a, b):
    if a == 'T_unknown':
        return b
    if b == 'T_unknown':
        return a
    w = max(WIDTH[a], WIDTH[b])
    return ('T_signed_' if 'signed' in a + b else 'T_') + {1: 'byte', 2: 'word', 3: 'long'}[w]


def evaluate(ip, e, ctx):
    r = ip.loc_of(ip.m(e, 'Evaluate', ctx))
    return ip.value(r) if ip.ok(r) else None


def text(ip, e):
    return ip.str_of(ip.val(ip.m(e, 'ToString')))


def held(ip, e):
    """the expression wrapped as a value"""
    return ip.alloc(ip.new('nsasm::ExpressionOrNull', e, kinds=['const nsasm::Expression']), 'held')


def copy(ip, h):
    return ip.alloc(ip.construct_rec('nsasm::ExpressionOrNull', {'usr': copy_ctor(ip)['usr']}, [h], {'k': 'ctor'}), 'copy')


def copy_ctor(ip):
    fs = [f for f in ip.p.find('nsasm::ExpressionOrNull::ExpressionOrNull', 1) if f.get('copy')]
    if not fs:
        raise AnalysisError('copy constructor of ExpressionOrNull not found')
    return fs[0]


def external(ip, e, local):
    """names reported as external; identifiers for which local(module, name) holds are local"""
    def is_local(ip, f, this, args, node):
        return L(int(local(*fullname(ip, ip.loc_of(args[0])))))
    ip.hooks['nsa_spec::Locals::IsLocal'] = is_local
    loc = ip.alloc(ip.new('nsa_spec::Locals'), 'locals')
    r = ip.val(ip.m(e, 'ExternalNamesReferenced', loc))
    if isinstance(r, Top):
        raise PathEnd('unknown', r.why)
    return [fullname(ip, ip.loc_of(k)) for k, _ in r.ents]


def fullname(ip, idl):
    q = ip.truth(ip.val(ip.m(idl, 'Qualified')))
    s = lambda n: ip.str_of(ip.val(ip.m(idl, n))).const
    return (s('Module') if q else None), s('Identifier')


def ident(ip, mod, name, ty):
    T = ip.p.enum('nsasm::NumericType')
    fi = ip.new('nsasm::FullIdentifier', *([Str((mod,))] if mod is not None else []), Str((name,)))
    return ip.alloc(ip.new('nsasm::IdentifierExpression', fi, L(T[ty])), 'id')


def check(c):
    p = c.prog()
    T = p.enum('nsasm::NumericType')

    def same_as(ip, e, value, ty, txt, ctx, what, lookup):
        """An expression has this value (None: an error), type and text, as do its copies."""
        h = held(ip, e)
        for x, n in ((e, what), (h, 'a held ' + what), (copy(ip, h), 'a copied ' + what)):
            v = evaluate(ip, x, ctx)
            ip.require((v is None) == (value is None), 'an expression has a value exactly when it should', n)
            if v is not None:
                ip.req_eq(v, value, 'an expression has its value, also when copied')
            ip.req_eq(ip.val(ip.m(x, 'Type')), L(T[ty]), 'an expression has its type, also when copied')
            ip.req_eq(text(ip, x), txt, 'an expression prints as itself, also when copied')
            ip.require(ip.truth(ip.val(ip.m(x, 'RequiresLookup'))) == lookup, 'an expression requires a lookup exactly when it names something', n)

    def literal(ip, ty):
        v = sym('value', -BIG, BIG - 1)
        want = cast(ip, ty, v)
        e = ip.alloc(ip.new('nsasm::Literal', v, L(T[ty])), 'lit')
        fm = {'T_byte': '$%02x', 'T_word': '$%04x', 'T_long': '$%06x'}.get(ty, '%d')
        same_as(ip, e, want, ty, fmt_text(ip, fm, want), names(ip, {}), 'literal', False)
        ip.require(not external(ip, e, lambda *a: False), 'a literal references no names')
        ip.require(ip.val(ip.m(e, 'SimpleIdentifier')).v is None, 'only unqualified identifiers are simple identifiers')
    for ty in TYPES:
        c.scenario('literal ' + ty, lambda ip, ty=ty: literal(ip, ty))

    def name(ip, mod, ty):
        e = ident(ip, mod, 'foo', ty)
        v = sym('value', -BIG, BIG - 1) if ip.cond('==', sym('resolves', 0, 1), 1) else None
        txt = ('@' if ty == 'T_long' else '') + (mod + '::' if mod is not None else '') + 'foo'
        same_as(ip, e, v, ty, Str((txt,)), names(ip, {'foo': v}), 'identifier', True)
        s = ip.val(ip.m(e, 'SimpleIdentifier')).v
        ip.require((s is not None) == (mod is None), 'only unqualified identifiers are simple identifiers')
        if s is not None:
            ip.req_eq(ip.str_of(ip.val(s)), Str(('foo',)), 'a simple identifier gives its name')
        ip.require(external(ip, e, lambda *a: True) == [], 'a local name is not external')
        ip.require(external(ip, e, lambda *a: False) == [(mod or '', 'foo')], 'a name not local is external, unqualified ones in the global module')
    for mod in (None, '', 'mod'):
        for ty in ('T_word', 'T_long'):
            c.scenario('identifier %r %s' % (mod, ty), lambda ip, mod=mod, ty=ty: name(ip, mod, ty))

    def operand(ip, nm, ty, lo=-BIG, hi=BIG - 1):
        v = sym(nm, lo, hi) if ip.cond('==', sym(nm + ' resolves', 0, 1), 1) else None
        return ident(ip, None, nm, ty), v

    def binary(ip, op, ch, calc, k=None):
        a, va = operand(ip, 'a', 'T_word')
        b, vb = operand(ip, 'b', 'T_long') if k is None else (ident(ip, None, 'b', 'T_long'), L(k))
        ctx = names(ip, {'a': va, 'b': vb})
        o = ip.val(ip.fcall('nsasm::' + op))
        e = ip.alloc(ip.new('nsasm::BinaryExpression', ip.load(held(ip, a)), ip.load(held(ip, b)), o), 'bin')
        want = None
        if va is not None and vb is not None:
            want = calc(ip, va, vb)
        same_as(ip, e, want, 'T_long', Str(('op%s(a, @b)' % ch,)), ctx, 'binary expression', True)
        ip.require(sorted(external(ip, e, lambda m, n: False)) == [('', 'a'), ('', 'b')], 'an expression references the names of its parts')
        ip.require(external(ip, e, lambda m, n: n == 'a') == [('', 'b')], 'an expression references the names of its parts')

    def fits(ip, v):
        ip.assume(-BIG, v, BIG - 1)
        return v

    INT = {'k': 'int', 'w': 32, 'sg': True}

    def times(ip, a, b):
        return ip.arith('*', a, b, INT, None)

    def quotient(ip, a, b):
        if ip.cond('==', b, 0):
            return None
        if ip.cond('==', b, -1):
            return None if ip.cond('==', a, -BIG) else a.scale(-1)
        return ip.arith('/', a, b, INT, None)
    OPS = (('MakePlusOp', '+', lambda ip, a, b: fits(ip, a + b)), ('MakeMinusOp', '-', lambda ip, a, b: fits(ip, a - b)),
           ('MakeMultiplyOp', '*', times), ('MakeDivideOp', '/', quotient))
    for op, ch, calc in OPS:
        c.scenario('binary ' + ch, lambda ip, op=op, ch=ch, calc=calc: binary(ip, op, ch, calc))
    def small(f):
        def calc(ip, a, b):
            r = None if not b.const and f is exact else f(ip, a, b.const)
            return r if r is None else fits(ip, r)
        return calc


    def exact(ip, a, k):
        # quotient truncated towards zero
        if k == -1 and ip.cond('==', a, -BIG):
            return None
        if ip.cond('<=', ZERO, a):
            return ip.div(a, k) if k > 0 else ip.div(a, -k).scale(-1)
        n = ip.div(a.scale(-1), abs(k))
        return n.scale(-1) if k > 0 else n
    for k in (0, 1, 2, 3, 16, 256, 65536, -1, -2, -7):
        c.scenario('a * %d' % k, lambda ip, k=k: binary(ip, 'MakeMultiplyOp', '*', small(lambda ip, a, k: a.scale(k)), k))
        c.scenario('a / %d' % k, lambda ip, k=k: binary(ip, 'MakeDivideOp', '/', small(exact), k))

    def types(ip):
        o = ip.val(ip.fcall('nsasm::MakePlusOp'))
        for a in TYPES:
            for b in TYPES:
                x = [ip.load(held(ip, ip.alloc(ip.new('nsasm::Literal', ZERO, L(T[t])), 'lit'))) for t in (a, b)]
                e = ip.alloc(ip.new('nsasm::BinaryExpression', x[0], x[1], o), 'bin')
                ip.req_eq(ip.val(ip.m(e, 'Type')), L(T[combined(a, b)]), 'an operation has the combined type of its operands')
                ip.require(not ip.truth(ip.val(ip.m(e, 'RequiresLookup'))), 'an expression requires a lookup exactly when it names something')
    c.scenario('types of operations', types)

    def unary(ip, op, ch, calc, ty, want_ty):
        a, va = operand(ip, 'a', ty)
        ctx = names(ip, {'a': va})
        o = ip.val(ip.fcall('nsasm::' + op))
        e = ip.alloc(ip.new('nsasm::UnaryExpression', ip.load(held(ip, a)), o), 'un')
        want = calc(ip, va) if va is not None else None
        same_as(ip, e, want, want_ty or ty, Str(('op%s(%sa)' % (ch, '@' if ty == 'T_long' else ''),)), ctx, 'unary expression', True)
        ip.require(external(ip, e, lambda m, n: False) == [('', 'a')], 'an expression references the names of its parts')
        ip.require(external(ip, e, lambda m, n: True) == [], 'an expression references the names of its parts')
    byte_of = lambda k: (lambda ip, a: ip.mod(ip.div(a, 1 << 8 * k), 256))
    UN = (('MakeNegateOp', '-', lambda ip, a: fits(ip, a.scale(-1)), None), ('MakeLowbyteOp', '<', byte_of(0), 'T_byte'),
          ('MakeHighbyteOp', '>', byte_of(1), 'T_byte'), ('MakeBankbyteOp', '^', byte_of(2), 'T_byte'))
    for op, ch, calc, rt in UN:
        for ty in TYPES:
            signed = {'T_byte': 'T_signed_byte', 'T_word': 'T_signed_word', 'T_long': 'T_signed_long'}.get(ty, ty)
            c.scenario('unary %s %s' % (ch, ty), lambda ip, op=op, ch=ch, calc=calc, ty=ty, wt=rt or signed: unary(ip, op, ch, calc, ty, wt))

    def label(ip):
        v = sym('value', 0, 65535)
        h = held(ip, ip.alloc(ip.new('nsasm::Literal', v, L(T['T_word'])), 'lit'))
        h0 = copy(ip, h)
        ctx = names(ip, {})
        ip.require(not ip.truth(ip.val(ip.m(h, 'IsLabel'))), 'an expression is a label after a label is applied')
        for txt in ('first', 'second'):
            ip.m(h, 'ApplyLabel', Str((txt,)))
            ip.require(ip.truth(ip.val(ip.m(h, 'IsLabel'))), 'an expression is a label after a label is applied')
            h2 = copy(ip, h)
            for x in (h, h2):
                r = evaluate(ip, x, ctx)
                ip.require(r is not None, 'a labelled expression keeps its value')
                ip.req_eq(r, v, 'a labelled expression keeps its value')
                ip.req_eq(ip.val(ip.m(x, 'Type')), L(T['T_word']), 'a labelled expression keeps its type')
                ip.req_eq(text(ip, x), Str((txt,)), 'a labelled expression prints as the label')
            ip.m(h2, 'ApplyLabel', Str(('other',)))
            ip.req_eq(text(ip, h), Str((txt,)), 'changing a copy leaves the original alone')
            ip.require(not external(ip, h, lambda *a: False), 'a label references no names')
        ip.require(not ip.truth(ip.val(ip.m(h0, 'IsLabel'))), 'changing a copy leaves the original alone')
    c.scenario('label', label)

    def null(ip):
        h = ip.alloc(ip.new('nsasm::ExpressionOrNull'), 'null')
        for x in (h, copy(ip, h)):
            ip.require(not ip.truth(ip.val(ip.m(x, 'operator bool'))) or x is not h, 'the absent expression is absent')
            ip.require(evaluate(ip, x, names(ip, {})) is None, 'the absent expression has no value')
            ip.req_eq(ip.val(ip.m(x, 'Type')), L(T['T_unknown']), 'the absent expression has no type')
            ip.require(not ip.truth(ip.val(ip.m(x, 'RequiresLookup'))), 'the absent expression names nothing')
            ip.require(not external(ip, x, lambda *a: False), 'the absent expression names nothing')
            ip.require(ip.val(ip.m(x, 'SimpleIdentifier')).v is None, 'the absent expression names nothing')
    c.scenario('absent expression', null)


def fmt_text(ip, fm, v):
    """text of a formatted number, as the analysis represents it"""
    return format_str(ip, Str((fm,)), [v], None)
