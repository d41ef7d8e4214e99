"""Names of mnemonics, suffixes and directives."""
from nsa.spec import *
import itertools

EXPLANATION = (
    'Abstract interpretation of the name conversions: every mnemonic, suffix and directive against an independent list of '
    'the 65816 mnemonics and the assembler\'s directives, in every letter case; an arbitrary string is recognised exactly '
    'when it is a case variant of a printed name, and then as the constant printing that name; values outside the '
    'enumerations print as nothing; the enumerations returned for iteration are complete and free of duplicates.')
ASSUMPTIONS = []
REAL = ('adc and asl bit cld cli clv cmp cpx cpy dec dex dey eor inc inx iny lda ldx ldy lsr mvn mvp nop ora pea pei per pha '
        'phb phd phk phx phy pla plb pld plx ply rol ror sbc sed sei sta stp stx sty stz tax tay tcd tcs tdc trb tsb tsc tsx '
        'txa txs txy tya tyx wai wdm xba bcc bcs beq bmi bne bpl bra brk brl bvc bvs cop jmp jsl jsr rti rtl rts clc php plp '
        'rep sec sep xce').split()
PSEUDO = ('add', 'sub')
DIRS = ('begin db dl dw end entry equ halt mode module org remote').split()


def casings(s, all_=True):
    if not all_:
        return {s.lower(), s.upper(), s.capitalize(), s.title(), ''.join(c.upper() if i % 2 else c.lower() for i, c in enumerate(s)),
                s[:2].lower() + s[2:].upper()}
    return {''.join(x) for x in itertools.product(*[(c.lower(), c.upper()) for c in s])}


def check(c):
    p = c.prog()
    kinds = [
        ('mnemonic', 'nsasm::Mnemonic', 'nsasm::ToMnemonic', dict([('M_' + m, m) for m in REAL] + [('PM_' + m, m) for m in PSEUDO]), str.lower),
        ('suffix', 'nsasm::Suffix', 'nsasm::ToSuffix', {'S_b': '.b', 'S_w': '.w'}, str.lower),
        ('directive', 'nsasm::DirectiveName', 'nsasm::ToDirectiveName', dict(('D_' + d, '.' + d.upper()) for d in DIRS), str.upper),
    ]

    def named(ip, q, v):
        f = [f for f in p.find('nsasm::ToString', 1) if p.types[f['params'][0]['t']]['s'].endswith(q.split('::')[-1]) and
             p.types[f['params'][0]['t']]['k'] == 'enum']
        if not f:
            raise AnalysisError('ToString(%s) not found' % q)
        return ip.val(ip.call_def(f[0], None, [v], {'k': 'call'}))

    def parsed(ip, fn, s):
        r = ip.val(ip.fcall(fn, s))
        if isinstance(r, Top):
            raise PathEnd('unknown', r.why)
        return None if r.v is None else ip.force(r.v)

    for kind, enum, fn, table, fold in kinds:
        E = p.enum(enum)
        missing = [k for k in table if k not in E]
        extra = [k for k in E if k not in table and k != 'S_none']
        c.rule('the %s enumeration has exactly the specified constants' % kind)
        c.site(not missing and not extra, 'enum|' + kind, '%s constants (missing %s, unspecified %s)' % (kind, missing, extra))

        def each(ip, k, name, fn=fn, enum=enum, E=E, kind=kind):
            s = named(ip, enum, L(E[k]))
            ip.require(isinstance(s, Str) and s.const == name, 'a %s prints as its name' % kind, lambda: '%s prints as %r' % (k, s))
            for x in sorted(casings(name, len(name) <= 3)):
                r = parsed(ip, fn, Str((x,)))
                ip.require(r is not None, 'a %s is recognised in any letter case' % kind, lambda: x)
                ip.req_eq(r, L(E[k]), 'a %s name is recognised as that %s' % (kind, kind))
        for k, name in table.items():
            if k in E:
                c.scenario('%s %s' % (kind, name), lambda ip, k=k, name=name, each=each: each(ip, k, name))

        def arbitrary(ip, fn=fn, enum=enum, E=E, kind=kind, table=table, fold=fold):
            s = symstr('text')
            r = parsed(ip, fn, s)
            low = ip.str_case('lower' if fold is str.lower else 'upper', s)
            hit = None
            for k, name in table.items():
                if ip.str_eq(low, Str((fold(name),))):
                    hit = k
                    break
            ip.require((r is None) == (hit is None), 'a string is recognised exactly when it is a case variant of a %s name' % kind,
                       lambda: 'recognised' if r is not None else 'refused')
            if hit:
                ip.req_eq(r, L(E[hit]), 'a %s name is recognised as that %s' % (kind, kind))
        c.scenario('any text as a ' + kind, arbitrary)

        top = max(E.values())
        lim = 1
        while lim <= top:
            lim *= 2
        for v in range(top + 1, lim):
            def outside(ip, v=v, enum=enum):
                s = named(ip, enum, L(v))
                ip.require(isinstance(s, Str) and s.const == '', 'a value outside the enumeration prints as nothing', lambda: repr(s))
            c.scenario('%s value %d' % (kind, v), outside)

    def none(ip):
        s = named(ip, 'nsasm::Suffix', L(p.enum('nsasm::Suffix')['S_none']))
        ip.require(isinstance(s, Str) and s.const == '', 'the absent suffix prints as nothing')
    c.scenario('absent suffix', none)

    for fn, enum, want in (('nsasm::AllMnemonics', 'nsasm::Mnemonic', None), ('nsasm::AllSuffixes', 'nsasm::Suffix', ('S_b', 'S_w'))):
        def listing(ip, fn=fn, enum=enum, want=want):
            E = p.enum(enum)
            s = ip.seq_of(ip.val(ip.fcall(fn)))
            if s is None or not s.concrete():
                raise PathEnd('unknown', 'enumeration list not understood')
            vs = [ip.force(e.v) for e in s.parts]
            if not all(isinstance(v, Lin) and v.const is not None for v in vs):
                raise PathEnd('unknown', 'enumeration list not understood')
            got = sorted(v.c for v in vs)
            ip.require(got == sorted(E[k] for k in (want or E)), 'the enumeration list is complete and free of duplicates', lambda: str(got))
        c.scenario('list of ' + enum.split('::')[1], listing, unroll=200)
