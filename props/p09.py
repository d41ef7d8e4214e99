"""Numeric types: coercion and the arithmetic conversion lattice."""
from nsa.spec import *

EXPLANATION = (
    'Abstract interpretation of the numeric coercion and type-conversion functions for every numeric type over every '
    '32-bit value: the result is the unique representative of the value modulo 2^width in the range of the type; the '
    'conversion functions are checked on their complete finite domain.')
ASSUMPTIONS = []
W = {'T_byte': (8, 0), 'T_word': (16, 0), 'T_long': (24, 0), 'T_signed_byte': (8, 1), 'T_signed_word': (16, 1), 'T_signed_long': (24, 1)}
TEXT = {'T_byte': 'byte', 'T_word': 'word', 'T_long': 'long', 'T_signed_byte': 'signed byte', 'T_signed_word': 'signed word',
        'T_signed_long': 'signed long', 'T_unknown': 'unknown'}


def pick(w, s):
    for k, v in W.items():
        if v == (w, s):
            return k


def unsigned(t):
    return t if t == 'T_unknown' else pick(W[t][0], 0)


def signed(t):
    return t if t == 'T_unknown' else pick(W[t][0], 1)


def convert(a, b):
    if a == 'T_unknown':
        return b
    if b == 'T_unknown':
        return a
    return pick(max(W[a][0], W[b][0]), W[a][1] | W[b][1])


def check(c):
    p = c.prog()
    E = p.enum('nsasm::NumericType')
    for t in TEXT:
        if t not in E:
            raise AnalysisError('numeric type %s not found' % t)
    for t in TEXT:
        def cast(ip, t=t):
            v = sym('value', -(1 << 31), (1 << 31) - 1)
            for r, clause in ((ip.fcall('nsasm::CastTo', L(E[t]), v), 'coercion'),
                              (ip.m(ip.fcall('nsasm::LabelValue::FromInt', v), 'ToNumber', L(E[t])), 'label coercion')):
                r = ip.val(r)
                if t == 'T_unknown':
                    ip.req_eq(r, v, clause + ' to the unknown type keeps the value')
                    continue
                w, s = W[t]
                want = ip.mod(v, 1 << w, fork=False)
                if s and ip.cond('>=', want, 1 << (w - 1)):
                    want = want - (1 << w)
                ip.req_eq(r, want, clause + ' yields the representative in the range of the type')
        c.scenario('coerce to ' + t, cast)

        def one(ip, t=t):
            ip.req_eq(ip.fcall('nsasm::Unsigned', L(E[t])), L(E[unsigned(t)]), 'unsigned counterpart')
            ip.req_eq(ip.fcall('nsasm::Signed', L(E[t])), L(E[signed(t)]), 'signed counterpart')
            got = ip.truth(ip.val(ip.fcall('nsasm::IsSigned', L(E[t]))))
            ip.require(got == (t != 'T_unknown' and bool(W[t][1])), 'signedness')
            s = ip.val(ip.fcall('nsasm::ToString', L(E[t]), pred=lambda f: 'NumericType' in p.types[f['params'][0]['t']]['s']))
            ip.require(isinstance(s, Str) and s.const == TEXT[t], 'name of the type', lambda: repr(s))
        c.scenario('unary ' + t, one)
        for u in TEXT:
            def two(ip, t=t, u=u):
                ip.req_eq(ip.fcall('nsasm::ArtihmeticConversion', L(E[t]), L(E[u])), L(E[convert(t, u)]),
                          'combining types takes the wider width and keeps a sign')
            c.scenario('combine %s %s' % (t, u), two)
