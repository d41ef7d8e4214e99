"""Flag-state names and return conventions."""
from nsa.spec import *
from props.p16 import Flags, norm, ALL, name, admits
import itertools

EXPLANATION = (
    'Abstract interpretation of the flag-state names and of return conventions: every flag state against an independent '
    'naming rule, every specified name in several letter cases, and an arbitrary string, which is recognised exactly when '
    'it is a letter-case variant of a specified name; conventions of each kind over all flag states.')
ASSUMPTIONS = []

NAMES = {'unk': (3, 3, 3, 3), 'emu': (1, 1, 1, 3), 'native': (0, 3, 3, 3)}
for _m, _x in itertools.product((('', 3), ('m8', 1), ('m16', 0)), (('', 3), ('x8', 1), ('x16', 0))):
    if _m[0] or _x[0]:
        NAMES[_m[0] + _x[0]] = (0, _m[1], _x[1], 3)


def to_name(s):
    if s[0] > 1:
        return 'unk'
    if s[0] == 1:
        return 'emu'
    return {0: 'm16', 1: 'm8'}.get(s[1], '') + {0: 'x16', 1: 'x8'}.get(s[2], '') or 'native'


def full(s):
    return to_name(s) + {0: ', c=0', 1: ', c=1'}.get(s[3], '')


def string(ip, v):
    v = ip.val(v)
    if isinstance(v, Top):
        raise PathEnd('unknown', v.why)
    return ip.str_of(v, None)


def check(c):
    states = sorted({norm(s) for s in ALL})

    def parsed(ip, F, s):
        r = ip.val(ip.fcall('nsasm::StatusFlags::FromName', s))
        if isinstance(r, Top):
            raise PathEnd('unknown', r.why)
        return None if r.v is None else F.read(ip.alloc(ip.force(r.v), 'parsed'))

    for n, s in NAMES.items():
        def one(ip, n=n, s=s):
            F = Flags(ip)
            for t in sorted({n, n.upper(), n.capitalize(), n[:1] + n[1:].upper()}):
                got = parsed(ip, F, Str((t,)))
                ip.require(got == s, 'a flag-state name stands for its state in any letter case', lambda: '%s: %s' % (t, got and name(got)))
            got = string(ip, ip.m(F.make(s), 'ToName'))
            ip.require(got.const == n, 'a named state prints as its name', lambda: '%s: %r' % (n, got))
        c.scenario('name ' + n, one)

    def printing(ip):
        F = Flags(ip)
        for s in states:
            got = string(ip, ip.m(F.make(s), 'ToName'))
            ip.require(got.const == to_name(s), 'a state prints as the name of what is known of it', lambda: '%s: %r' % (name(s), got))
            got = string(ip, ip.m(F.make(s), 'ToString'))
            ip.require(got.const == full(s), 'the readable form adds a known carry', lambda: '%s: %r' % (name(s), got))
            back = parsed(ip, F, Str((to_name(s),)))
            ip.require(back is not None and all(back[i] == 3 or back[i] == s[i] for i in range(4)),
                       'the name of a state is recognised as what is known of it', lambda: '%s: %s' % (name(s), back))
    c.scenario('printing', printing)

    def arbitrary(ip):
        F = Flags(ip)
        t = symstr('text')
        got = parsed(ip, F, t)
        low = ip.str_case('lower', t)
        hit = None
        for n in NAMES:
            if ip.str_eq(low, Str((n,))):
                hit = n
                break
        ip.require((got is None) == (hit is None), 'a string is recognised exactly when it is a case variant of a flag-state name',
                   lambda: 'recognised as %s' % (name(got),) if got else 'refused')
        if hit:
            ip.require(got == NAMES[hit], 'a flag-state name stands for its state', lambda: '%s: %s' % (hit, name(got)))
    c.scenario('any text as a name', arbitrary)

    def conventions(ip):
        F = Flags(ip)
        for kind in ['default', 'noreturn'] + states:
            if kind == 'default':
                r = ip.new('nsasm::ReturnConvention')
            elif kind == 'noreturn':
                r = ip.new('nsasm::ReturnConvention', ip.new_obj('nsasm::NoReturn'), kinds=['NoReturn'])
            else:
                r = ip.new('nsasm::ReturnConvention', F.make(kind), kinds=['StatusFlags'])
            r = ip.alloc(ip.val(r), 'convention')
            what = kind if isinstance(kind, str) else name(kind)
            ip.require(ip.truth(ip.val(ip.m(r, 'IsDefault'))) == (kind == 'default'), 'only the default convention is the default', what)
            ip.require(ip.truth(ip.val(ip.m(r, 'IsExitCall'))) == (kind == 'noreturn'), 'only noreturn calls never return', what)
            y = ip.val(ip.m(r, 'YieldFlags'))
            if isinstance(y, Top):
                raise PathEnd('unknown', y.why)
            ip.require((y.v is not None) == (not isinstance(kind, str)), 'exactly yielding conventions yield flags', what)
            if y.v is not None:
                ip.require(F.read(ip.alloc(ip.force(y.v), 'y')) == kind, 'a yielding convention yields its flags', what)
            got = string(ip, ip.m(r, 'ToSuffixString'))
            want = '' if kind == 'default' else ' noreturn' if kind == 'noreturn' else ' yields ' + full(kind)
            ip.require(got.const == want, 'a convention prints as its suffix', lambda: '%s: %r, specified %r' % (what, got, want))
            es = ip.alloc(ip.val(ip.new('nsasm::ExecutionState', F.make((0, 1, 0, 1)), kinds=['StatusFlags'])), 'state')
            ip.m(r, 'ApplyTo', es)
            after = F.read(ip.loc_of(ip.m(es, 'Flags', pred=lambda f: not f.get('const'))))
            want = (0, 1, 0, 1) if isinstance(kind, str) else kind
            ip.require(after == want, 'applying a convention sets the flags it yields and nothing else', lambda: '%s: %s' % (what, name(after)))
    c.scenario('return conventions', conventions)
