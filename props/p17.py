"""Modelled stack: pushes pair with pulls."""
from nsa.spec import *
from props.p16 import Flags, norm
import itertools

EXPLANATION = (
    'Abstract interpretation of the modelled stack against an independent last-in-first-out oracle of byte entries: every '
    'sequence of up to two pushes and two pulls of bytes, words, registers (in every width and knowledge state, with '
    'symbolic register values), flags and the data bank, including pulls from an empty or abandoned stack.')
ASSUMPTIONS = ['sequences of more than two pushes are not enumerated; the stack itself has no depth-dependent behaviour']

REGS = ('a', 'x', 'y')
WIDTH = {'on': 8, 'off': 16, 'original': None, 'unknown': -1}
BIT = {'off': 0, 'on': 1, 'original': 2, 'unknown': 3}


class Regs:
    """register values on both sides: ('value', Lin) | ('original',) | ('unknown',)"""

    def __init__(self, ip):
        self.ip = ip
        self.E = ip.p.enum('nsasm::RegisterValue::Type')
        self.S = ip.p.enum('nsasm::StackValue::Type')
        self.F = Flags(ip)

    def make(self, r):
        if r[0] == 'value':
            v = self.ip.new('nsasm::RegisterValue', L(r[1]), kinds=['short|uint16'])
        else:
            v = self.ip.new('nsasm::RegisterValue', L(self.E['T_' + r[0]]), kinds=['Type'])
        return self.ip.val(v)

    def flags(self, reg, w):
        """a native-mode flag state in which the width of reg is w"""
        s = [0, 0, 0, 3]
        s[1 if reg == 'a' else 2] = BIT[w]
        if w == 'unknown':
            s[0] = 3
            s[1 if reg == 'a' else 2] = 3
        return self.ip.val(self.F.make(tuple(s)))

    def is_reg(self, v, want, clause, what=''):
        ip = self.ip
        v = ip.loc_of(v)
        t = ip.val(ip.m(v, 'type'))
        if isinstance(t, Lin) and t.const is not None:
            t = t.c
        got = {x: k for k, x in self.E.items()}.get(t)
        if got is None:
            raise PathEnd('unknown', 'register knowledge not constant: %r' % (t,))
        ip.require(got == 'T_' + want[0], clause, lambda: '%s: %s, specified %s' % (what, got, want[0]))
        ip.require(ip.truth(ip.val(ip.m(v, 'HasValue'))) == (want[0] == 'value'), clause + ' (has a value)', what)
        if want[0] == 'value':
            ip.req_eq(ip.val(ip.m(v, 'operator*')), L(want[1]), clause)

    def entry(self, v, want, clause, what=''):
        """compare a pulled stack entry with the oracle's"""
        ip = self.ip
        v = ip.loc_of(v)
        t = ip.val(ip.m(v, 'type'))
        if not isinstance(t, Lin) or t.const is None:
            raise PathEnd('unknown', 'stack entry kind not constant')
        got = {x: k for k, x in self.S.items()}.get(t.c)
        name = {'byte': 'T_byte', 'unknown': 'T_unknown', 'flags': 'T_flags', 'dbr': 'T_dbr'}.get(want[0])
        if want[0] in ('lo', 'hi'):
            name = 'T_%s_%s' % (want[1], want[0])
        if want[0] == 'var':
            name = 'T_%s_varsize' % want[1]
        ip.require(got == name, clause, lambda: '%s: %s, specified %s' % (what, got, name))
        if want[0] == 'byte':
            ip.req_eq(ip.val(ip.m(v, 'value')), L(want[1]), clause)
        if want[0] == 'flags':
            ip.require(self.F.read(ip.loc_of(ip.m(v, 'flags'))) == want[1], clause, what)


def lo(ip, v):
    return ip.mod(L(v), 256, fork=False)


def hi(ip, v):
    return ip.div(L(v), 256, fork=False)


class Oracle:
    def __init__(self, ip):
        self.ip, self.s, self.dead = ip, [], False

    def push(self, *es):
        if not self.dead:
            self.s += es

    def abandon(self):
        self.dead, self.s = True, []

    def push_reg(self, reg, r, w):
        if w == 'unknown':
            return self.abandon()
        if w == 'original':
            return self.push(('var', reg, r[0] == 'original'))
        parts = ('lo',) if w == 'on' else ('hi', 'lo')
        for p in parts:
            if r[0] == 'original':
                self.push((p, reg))
            elif r[0] == 'unknown':
                self.push(('unknown',))
            else:
                self.push(('byte', lo(self.ip, r[1]) if p == 'lo' else hi(self.ip, r[1])))

    def pull(self, var=False):
        if self.dead or not self.s or (self.s[-1][0] == 'var') != var:
            self.abandon()
            return ('unknown',)
        return self.s.pop()

    def pull_reg(self, reg, w):
        if self.dead or w == 'unknown':
            self.abandon()
            return ('unknown',)
        if w == 'original':
            e = self.pull(True)
            if e[0] == 'var' and e[1] == reg:
                return ('original',) if e[2] else ('unknown',)
            self.abandon()
            return ('unknown',)
        l = self.pull()
        h = self.pull() if w == 'off' else None
        if l == ('lo', reg) and (h is None or h == ('hi', reg)):
            return ('original',)
        if l[0] == 'byte' and (h is None or h[0] == 'byte'):
            return ('value', l[1] if h is None else l[1] + L(h[1]).scale(256))
        return ('unknown',)


def pushes(full):
    out = [('byte', 'known'), ('byte', 'unknown'), ('word', 'known'), ('word', 'unknown'), ('optbyte', 'none'), ('optword', 'none'),
           ('optbyte', 'some'), ('optword', 'some')]
    for reg in REGS if full else ('a', 'x'):
        for w in WIDTH:
            for r in ('value', 'original', 'unknown') if full else ('value', 'original'):
                out.append(('reg', reg, w, r))
    out += [('dbr', r) for r in ('value', 'original', 'unknown')]
    out += [('flags',)]
    return out if full else [p for p in out if p[0][:3] != 'opt' and p[-1] != 'unknown']


def pulls(full):
    return [('byte',), ('var',)] + [('reg', reg, w) for reg in (REGS if full else ('a', 'x')) for w in WIDTH]


def do_push(ip, R, st, o, p, k):
    if p[0] in ('byte', 'word'):
        big = p[0] == 'word'
        nm = 'PushWord' if big else 'PushByte'
        if p[1] == 'unknown':
            ip.m(st, 'PushUnknownWord' if big else 'PushUnknownByte')
            o.push(*([('unknown',)] * (2 if big else 1)))
        else:
            v = sym('%s%d' % (p[0], k), 0, 0xffff if big else 0xff)
            ip.m(st, nm, v, pred=lambda f: ip.p.types[f['params'][0]['t']]['k'] == 'int')
            o.push(*([('byte', hi(ip, v)), ('byte', lo(ip, v))] if big else [('byte', v)]))
    elif p[0] in ('optbyte', 'optword'):
        big = p[0] == 'optword'
        nm = 'PushWord' if big else 'PushByte'
        pred = lambda f: ip.p.types[f['params'][0]['t']]['k'] != 'int'
        if p[1] == 'none':
            ip.m(st, nm, Opt(None), pred=pred)
            o.push(*([('unknown',)] * (2 if big else 1)))
        else:
            v = sym('%s%d' % (p[0], k), 0, 0xffff if big else 0xff)
            ip.m(st, nm, Opt(v), pred=pred)
            o.push(*([('byte', hi(ip, v)), ('byte', lo(ip, v))] if big else [('byte', v)]))
    elif p[0] == 'reg':
        _, reg, w, r = p
        rv = ('value', sym('%s%d' % (reg, k), 0, 0xffff)) if r == 'value' else (r,)
        ip.m(st, 'Push' + reg.upper(), R.make(rv), R.flags(reg, w))
        o.push_reg(reg, rv, w)
    elif p[0] == 'dbr':
        v = sym('dbr%d' % k, 0, 0xff)
        rv = ('value', v) if p[1] == 'value' else (p[1],)
        ip.m(st, 'PushDBR', R.make(rv))
        o.push(('byte', v) if p[1] == 'value' else ('dbr',) if p[1] == 'original' else ('unknown',))
    elif p[0] == 'flags':
        s = (0, 1, 0, 3) if k % 2 else (1, 1, 1, 0)
        ip.m(st, 'PushFlags', ip.val(R.F.make(s)))
        o.push(('flags', s))


def do_pull(ip, R, st, o, p, what):
    if p[0] == 'byte':
        R.entry(ip.val(ip.m(st, 'PullByte')), o.pull(), 'a pulled byte is the one pushed last', what)
    elif p[0] == 'var':
        v = ip.val(ip.m(st, 'PullVarsize'))
        e = o.pull(True)
        R.entry(v, e, 'a variable-width entry is only pulled as one', what)
    else:
        v = ip.val(ip.m(st, 'Pull' + p[1].upper(), R.flags(p[1], p[2])))
        R.is_reg(v, o.pull_reg(p[1], p[2]), 'a pulled register is what its bytes were pushed as, or unknown', what)


def txt(ps):
    return ', '.join(' '.join(p) for p in ps)


def run(c, name, pseqs, lseqs):
    def go(ip):
        R = Regs(ip)
        for ps in pseqs:
            for ls in lseqs:
                st = ip.alloc(ip.val(ip.new('nsasm::Stack')), 'stack')
                o = Oracle(ip)
                for k, p in enumerate(ps):
                    do_push(ip, R, st, o, p, k)
                for p in ls:
                    do_pull(ip, R, st, o, p, 'push %s; pull %s' % (txt(ps), txt(ls)))
    c.scenario(name, go)


def check(c):
    run(c, 'empty stack', [()], [(p, q) for p in pulls(True) for q in (('byte',), ('var',))])
    for p in pushes(True):
        run(c, 'push ' + txt([p]), [(p,)], [(q, ('byte',)) for q in pulls(True)])
    for p in pushes(c.tier != 'quick'):
        for q in pushes(c.tier != 'quick'):
            run(c, 'push ' + txt([p, q]), [(p, q)], [(a, b) for a in pulls(False) for b in pulls(False)])

    def abandoned(ip):
        R = Regs(ip)
        for p in pushes(True):
            for q in pulls(True):
                st = ip.alloc(ip.val(ip.new('nsasm::Stack')), 'stack')
                o = Oracle(ip)
                ip.m(st, 'Abandon')
                o.abandon()
                do_push(ip, R, st, o, p, 0)
                do_pull(ip, R, st, o, q, 'abandoned; push %s; pull %s' % (txt([p]), txt([q])))
    c.scenario('abandoned stack', abandoned)

    def state(ip):
        R = Regs(ip)
        F = R.F
        for pushed in [(0, 0, 0, 3), (0, 1, 0, 0), (0, 2, 1, 1), (1, 1, 1, 3), (3, 1, 3, 2)]:
            for now in [(0, 1, 1, 1), (1, 1, 1, 0), (2, 2, 2, 2), (3, 3, 1, 0)]:
                for how in ('flags', 'byte', 'empty'):
                    es = ip.alloc(ip.val(ip.new('nsasm::ExecutionState')), 'state')
                    ip.store(ip.loc_of(ip.m(es, 'Flags', pred=lambda f: not f.get('const'))), ip.val(F.make(pushed)))
                    if how == 'flags':
                        ip.m(es, 'PushFlags')
                    elif how == 'byte':
                        ip.m(ip.m(es, 'GetStack', pred=lambda f: not f.get('const')), 'PushByte', L(0x30), pred=lambda f: ip.p.types[f['params'][0]['t']]['k'] == 'int')
                    fl = ip.loc_of(ip.m(es, 'Flags', pred=lambda f: not f.get('const')))
                    ip.store(fl, ip.val(F.make(now)))
                    ip.m(es, 'PullFlags')
                    got = F.read(ip.loc_of(ip.m(es, 'Flags', pred=lambda f: not f.get('const'))))
                    want = norm((now[0],) + pushed[1:]) if how == 'flags' else norm((now[0], 3, 3, 3))
                    ip.require(got == want, 'pulling flags restores the pushed ones except the emulation bit, or forgets them',
                               lambda: 'pushed %s now %s via %s: %s, specified %s' % (pushed, now, how, got, want))
    c.scenario('flags through the stack', state)

    for reg, nm in (('a', 'Accumulator'), ('x', 'XRegister'), ('y', 'YRegister')):
        def through(ip, reg=reg, nm=nm):
            R = Regs(ip)
            for w in WIDTH:
                for r in ('value', 'original', 'unknown'):
                    es = ip.alloc(ip.val(ip.new('nsasm::ExecutionState')), 'state')
                    v = ('value', sym(reg, 0, 0xffff)) if r == 'value' else (r,)
                    nc = lambda f: not f.get('const')
                    ip.store(ip.loc_of(ip.m(es, 'Flags', pred=nc)), R.flags(reg, w))
                    loc = ip.loc_of(ip.m(es, nm, pred=nc))
                    ip.store(loc, R.make(v))
                    ip.m(es, 'Push' + nm)
                    ip.store(loc, R.make(('value', L(0x1234))))
                    ip.m(es, 'Pull' + nm)
                    o = Oracle(ip)
                    o.push_reg(reg, v, w)
                    R.is_reg(ip.val(ip.m(es, nm, pred=nc)), o.pull_reg(reg, w), 'pushing and pulling a register restores it as far as its width is known',
                             '%s %s %s' % (reg, w, r))
        c.scenario('register %s through the stack' % reg, through)
