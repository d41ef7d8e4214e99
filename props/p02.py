"""Address arithmetic and ordering."""
from nsa.spec import *

EXPLANATION = (
    'Disjunctive abstract interpretation of every arithmetic, comparison and conversion member of the address and label '
    'value types over fully symbolic operands (any 24-bit address, any 32-bit offset); each partition is compared with '
    'modular arithmetic on (bank, offset) pairs.')
ASSUMPTIONS = ['addresses are at most one past the 24-bit space', 'unwrapped additions stay in the address space']
A = 'nsasm::Address'
LV = 'nsasm::LabelValue'


def anyaddr(ip, n, bank_hi=255):
    b, o = sym(n + '.bank', 0, bank_hi), sym(n + '.offset', 0, 65535)
    return ip.addr(b, o), b, o


def check(c):
    def parts(ip):
        v = sym('value', 0, 0x1000000)
        a = ip.loc_of(ip.new(A, v, kinds=['int']))
        b, o = ip.val(ip.m(a, 'Bank')), ip.val(ip.m(a, 'BankAddress'))
        ip.req_eq(b.scale(65536) + o, v, 'bank and offset recompose the address')
        ip.require(('le0', o - 65535), 'the offset is 16 bits')
        ip.require(('le0', o.scale(-1)), 'the offset is not negative')
    c.scenario('decomposition of a flat address', parts)

    def parts2(ip):
        a, b, o = anyaddr(ip, 'a')
        a = ip.loc_of(a)
        ip.req_eq(ip.m(a, 'Bank'), b, 'bank given is bank reported')
        ip.req_eq(ip.m(a, 'BankAddress'), o, 'offset given is offset reported')
    c.scenario('decomposition of a bank/offset address', parts2)

    def wrapped(ip):
        a, b, o = anyaddr(ip, 'a')
        d = sym('delta', -(1 << 31), (1 << 31) - 1)
        r = ip.loc_of(ip.m(a, 'AddWrapped', d))
        ip.req_eq(ip.m(r, 'Bank'), b, 'wrapped addition stays in the bank')
        got = ip.val(ip.m(r, 'BankAddress'))
        ip.req_eq(got, ip.mod(o + d, 65536, fork=False), 'wrapped addition is modulo 65536')
    c.scenario('wrapped addition', wrapped)

    def wrapped_near(ip):
        a, b, o = anyaddr(ip, 'a')
        d = sym('delta', -65536, 65536)
        r = ip.loc_of(ip.m(a, 'AddWrapped', d))
        ip.req_eq(ip.m(r, 'Bank'), b, 'wrapped addition stays in the bank')
        s = o + d
        want = s + 65536 if ip.cond('<', s, 0) else (s - 131072 if ip.cond('>=', s, 131072) else
                                                      s - 65536 if ip.cond('>=', s, 65536) else s)
        ip.req_eq(ip.m(r, 'BankAddress'), want, 'wrapped addition is modulo 65536')
    c.scenario('wrapped addition, offsets up to a bank', wrapped_near)

    def unwrapped(ip):
        a, b, o = anyaddr(ip, 'a')
        d = sym('delta', -0x1000000, 0x1000000)
        v = b.scale(65536) + o
        ip.assume(0, v + d, 0x1000000)
        r = ip.m(a, 'AddUnwrapped', d)
        ip.req_eq(ip.addr_val(r), v + d, 'unwrapped addition carries into the bank')
    c.scenario('unwrapped addition', unwrapped)

    def subtract(ip):
        a, b1, o1 = anyaddr(ip, 'a')
        b, b2, o2 = anyaddr(ip, 'b')
        r = ip.loc_of(ip.m(a, 'SubtractWrapped', b))
        if not ip.cond('==', b1, b2):
            ip.require(not ip.ok(r), 'subtracting across banks is an error')
            return
        ip.require(ip.ok(r), 'subtracting within a bank succeeds')
        v = ip.value(r)
        d = o1 - o2
        want = d - 65536 if ip.cond('>', d, 0x7fff) else d + 65536 if ip.cond('<', d, -0x8000) else d
        ip.req_eq(v, want, 'difference is the signed 16-bit distance')
    c.scenario('wrapped subtraction', subtract)

    for op in ('==', '!=', '<', '<=', '>', '>='):
        for cls in (A, LV):
            if not c.prog().find(cls + '::operator' + op):
                c.notes.append('%s %s not defined' % (cls, op))
                continue

            def cmp(ip, op=op, cls=cls):
                x, b1, o1 = anyaddr(ip, 'a')
                y, b2, o2 = anyaddr(ip, 'b')
                if cls == LV:
                    x, y = ip.new(LV, x, kinds=['Address']), ip.new(LV, y, kinds=['Address'])
                got = ip.truth(ip.val(ip.m(x, 'operator' + op, y)))
                want = ip.cond(op, b1.scale(65536) + o1, b2.scale(65536) + o2)
                ip.require(got == want, 'comparison %s follows the numeric value' % op)
            c.scenario('%s %s' % (cls.split('::')[1], op), cmp)

    def label(ip):
        a, b, o = anyaddr(ip, 'a')
        lv = ip.loc_of(ip.new(LV, a, kinds=['Address']))
        ip.req_eq(ip.m(lv, 'ToInt'), b.scale(65536) + o, 'a label has the value of its address')
        back = ip.m(lv, 'ToAddress')
        ip.req_eq(ip.addr_val(back), b.scale(65536) + o, 'a label converts back to its address')
    c.scenario('label values', label)

    def fromint(ip):
        v = sym('value', -(1 << 31), (1 << 31) - 1)
        lv = ip.loc_of(ip.fcall(LV + '::FromInt', v))
        ip.req_eq(ip.m(lv, 'ToInt'), v, 'a numeric label keeps its value')
    c.scenario('numeric labels', fromint)

    def text(ip):
        a, b, o = anyaddr(ip, 'a')
        s = ip.val(ip.m(a, 'ToString'))
        want = ip.val(ip.lib['absl::StrFormat'](ip, {'pt': ()}, None, [Str(('$%06x',)), b.scale(65536) + o], None))
        ip.require(isinstance(s, Str) and s == want, 'an address prints as $ and six hexadecimal digits', lambda: repr(s))
    c.scenario('address text', text)
