"""Merging of execution states."""
from nsa.spec import *
from props.p16 import Flags, norm
from props.p17 import Regs, Oracle, do_push, do_pull, pushes, txt
import itertools

EXPLANATION = (
    'Abstract interpretation of the merge of modelled registers, stacks and execution states: registers over all knowledge '
    'states and symbolic values, stacks over all pairs of short push histories (observed by pulling), states with every '
    'component independently equal or different. The oracle merges entry by entry; agreement is kept, disagreement becomes '
    'unknown, and stacks of different shape are given up.')
ASSUMPTIONS = ['stacks of more than two pushed items are not enumerated']

KINDS = ('value', 'original', 'unknown')


def regval(k, name):
    return ('value', sym(name, 0, 0xffff)) if k == 'value' else (k,)


def reg_merge(ip, a, b):
    if a[0] == b[0] and (a[0] != 'value' or ip.cond('==', a[1], b[1])):
        return a
    return ('unknown',)


def fmerge(s, t):
    return norm(tuple(a if a == b else 3 for a, b in zip(s, t)))


def entry_merge(ip, a, b):
    if a[0] == 'var' or b[0] == 'var':
        if a[:2] != b[:2]:
            return None
        return a if a == b else ('var', a[1], False)
    if a[0] == b[0] == 'byte':
        return a if ip.cond('==', a[1], b[1]) else ('unknown',)
    if a[0] == b[0] == 'flags':
        return ('flags', fmerge(a[1], b[1]))
    return a if a == b else ('unknown',)


def merge(ip, a, b):
    o = Oracle(ip)
    if a.dead or b.dead or len(a.s) != len(b.s):
        o.abandon()
        return o
    es = [entry_merge(ip, x, y) for x, y in zip(a.s, b.s)]
    if any(e is None for e in es):
        o.abandon()
    else:
        o.s = es
    return o


def stack(ip, R, ps, k):
    st = ip.alloc(ip.val(ip.new('nsasm::Stack')), 'stack')
    o = Oracle(ip)
    for i, p in enumerate(ps):
        if p == ('abandon',):
            ip.m(st, 'Abandon')
            o.abandon()
        else:
            do_push(ip, R, st, o, p, 10 * k + i)
    return st, o


def equal(ip, a, b):
    if a.dead != b.dead or len(a.s) != len(b.s):
        return False
    for x, y in zip(a.s, b.s):
        if x[0] == y[0] == 'byte':
            if not ip.cond('==', x[1], y[1]):
                return False
        elif x != y:
            return False
    return True


def drain(ip, R, st, o, what):
    """observe the whole stack"""
    while not o.dead and o.s:
        e = o.s[-1]
        if e[0] == 'var':
            do_pull(ip, R, st, o, ('reg', e[1], 'original'), what)
        else:
            do_pull(ip, R, st, o, ('byte',), what)
    do_pull(ip, R, st, o, ('byte',), what)
    # an abandoned stack stays abandoned, an empty one has just been abandoned
    do_pull(ip, R, st, o, ('var',), what)


def nc(f):
    return not f.get('const')


def check(c):
    for a, b in itertools.product(KINDS, repeat=2):
        def reg(ip, a=a, b=b):
            R = Regs(ip)
            va, vb = regval(a, 'a'), regval(b, 'b')
            w = reg_merge(ip, va, vb)
            x, y = ip.alloc(R.make(va), 'r'), ip.alloc(R.make(vb), 's')
            eq = a == b and (a != 'value' or ip.cond('==', va[1], vb[1]))
            ip.require(ip.truth(ip.val(ip.m(x, 'operator==', y))) == eq, 'registers are equal exactly when what is known of them is')
            ip.require(ip.truth(ip.val(ip.m(x, 'operator!=', y))) != eq, 'registers are equal exactly when what is known of them is')
            ip.m(x, 'operator|=', y)
            R.is_reg(ip.val(x), w, 'merged registers keep what both agree on', '%s | %s' % (a, b))
            ip.m(x, 'operator|=', y)
            R.is_reg(ip.val(x), w, 'merging again changes nothing', '%s | %s' % (a, b))
            R.is_reg(ip.val(y), vb, 'merging leaves the other operand alone', '%s | %s' % (a, b))
        c.scenario('registers %s | %s' % (a, b), reg)
    for a in KINDS:
        for mask in (0xff, 0xffff):
            def add(ip, a=a, mask=mask):
                R = Regs(ip)
                v = regval(a, 'a')
                d = sym('delta', -(1 << 16), 1 << 16)
                x = ip.alloc(R.make(v), 'r')
                ip.m(x, 'Add', d, L(mask))
                w = ('value', ip.mod(v[1] + d, mask + 1, fork=False)) if a == 'value' else ('unknown',)
                R.is_reg(ip.val(x), w, 'adding to a known register wraps at its width; others become unknown', a)
            c.scenario('add to %s register, mask %x' % (a, mask), add)

    P = pushes(c.tier != 'quick')
    if c.tier == 'quick':
        P = [p for p in P if p[0] != 'word' and p[1:2] != ('x',) or p[1:3] == ('x', 'original')]
        P += [('reg', 'a', 'original', 'unknown'), ('byte', 'unknown'), ('dbr', 'unknown')]
        P = sorted(set(P))
    hist = [(), (('abandon',),)] + [(p,) for p in P]
    two = [(p, q) for p in P for q in P] if c.tier != 'quick' else [(('byte', 'known'), p) for p in P] + [(p, ('byte', 'known')) for p in P]
    def pair(ip, group):
        R = Regs(ip)
        for ps, qs in group:
            what = '(%s) | (%s)' % (txt(ps), txt(qs))
            a, oa = stack(ip, R, ps, 1)
            b, ob = stack(ip, R, qs, 2)
            eq = equal(ip, oa, ob)
            got = ip.truth(ip.val(ip.m(a, 'operator==', b)))
            ip.require(got == eq, 'stacks are equal exactly when their entries are', lambda: what)
            w = merge(ip, oa, ob)
            ip.m(a, 'operator|=', b)
            keep = ip.val(a)
            ip.m(a, 'operator|=', b)
            ip.require(ip.truth(ip.val(ip.m(a, 'operator==', ip.alloc(keep, 'k')))), 'merging again changes nothing', lambda: what)
            drain(ip, R, a, w, what)
    gone = ('abandon',)
    todo = [(p, q) for p in hist for q in hist] + [((gone, p), (gone,)) for p in P] + [((p, gone), (gone, q)) for p, q in zip(P, P[1:])]
    for p in dict.fromkeys(two):
        todo += [(p, q) for q in (dict.fromkeys([q for q in two if q[0] == p[0] or q[1] == p[1]])) if q]
        todo += [(p, q) for q in hist[:4]]
    # pairs that compare symbolic values split the state; keep those apart
    forky = [x for x in todo if sum(len(e) > 1 and e[-1] in ('known', 'value') for e in x[0]) and sum(len(e) > 1 and e[-1] in ('known', 'value') for e in x[1])]
    plain = [x for x in todo if x not in forky]
    for lst, n in ((plain, 40), (forky, 2)):
        for i in range(0, len(lst), n):
            g = lst[i:i + n]
            c.scenario('stacks: (%s) | (%s)%s' % (txt(g[0][0]), txt(g[0][1]), ' and %d more' % (len(g) - 1) if len(g) > 1 else ''),
                       lambda ip, g=g: pair(ip, g))

    comps = ('Accumulator', 'XRegister', 'YRegister', 'DataBankRegister', 'Flags', 'GetStack')

    def state(ip, R, k, flip):
        es = ip.alloc(ip.val(ip.new('nsasm::ExecutionState')), 'state')
        for i, n in enumerate(comps[:4]):
            ip.store(ip.loc_of(ip.m(es, n, pred=nc)), R.make(('value', L(0x100 + i + (0x10 if n in flip else 0)))))
        ip.store(ip.loc_of(ip.m(es, 'Flags', pred=nc)), ip.val(R.F.make((0, 1, 1, 0) if 'Flags' not in flip else (0, 1, 0, 0))))
        ip.m(ip.m(es, 'GetStack', pred=nc), 'PushByte', L(7 if 'GetStack' not in flip else 9), pred=lambda f: ip.p.types[f['params'][0]['t']]['k'] == 'int')
        return es

    def comp(ip, R, es, flip, both, what):
        """the components of a merged state"""
        for i, n in enumerate(comps[:4]):
            v = 0x100 + i + (0x10 if n in both else 0)
            R.is_reg(ip.val(ip.m(es, n, pred=nc)), ('unknown',) if n in flip else ('value', L(v)), 'each register is merged with its counterpart', what + ' ' + n)
        got = R.F.read(ip.loc_of(ip.m(es, 'Flags', pred=nc)))
        ip.require(got == ((0, 1, 1, 0) if 'Flags' not in flip else (0, 1, 3, 0)), 'the flags are merged', what)
        e = ip.val(ip.m(ip.m(es, 'GetStack', pred=nc), 'PullByte'))
        R.entry(e, ('unknown',) if 'GetStack' in flip else ('byte', L(7)), 'the stack is merged', what)

    for n in range(len(comps) + 1):
        def states(ip, n=n):
            R = Regs(ip)
            for flip in itertools.combinations(comps, n):
                a, b = state(ip, R, 1, ()), state(ip, R, 2, flip)
                what = 'differing in ' + (', '.join(flip) or 'nothing')
                ip.require(ip.truth(ip.val(ip.m(a, 'operator==', b))) == (not flip), 'states are equal exactly when every component is', what)
                ip.require(ip.truth(ip.val(ip.m(a, 'operator!=', b))) == bool(flip), 'states are equal exactly when every component is', what)
                r = ip.alloc(ip.val(ip.m(a, 'operator|', b)), 'merged')
                ip.require(ip.truth(ip.val(ip.m(a, 'operator==', state(ip, R, 3, ())))), 'merging into a new state leaves the operands alone', what)
                ip.m(a, 'operator|=', b)
                ip.require(ip.truth(ip.val(ip.m(a, 'operator==', r))), 'merging in place agrees with merging', what)
                keep = ip.alloc(ip.val(a), 'k')
                ip.m(a, 'operator|=', b)
                ip.require(ip.truth(ip.val(ip.m(a, 'operator==', keep))), 'merging again changes nothing', what)
                comp(ip, R, a, flip, (), what)
                comp(ip, R, r, flip, (), what)
        c.scenario('states differing in %d components' % n, states)

    FL = sorted({norm(t) for t in itertools.product(range(4), repeat=4)})
    fp = [(s, t) for s in FL for t in FL if c.tier != 'quick' or sum(a != b for a, b in zip(s, t)) < 2 or (s[0], t[0]) == (0, 0) and s[1:] in ((0, 1, 2), (3, 0, 1), (2, 2, 2)) or s[3] != t[3] and t in (FL[0], FL[-1])]

    def flag_entries(ip, g):
        R = Regs(ip)
        for s, t in g:
            what = '%s | %s' % (s, t)
            want = fmerge(s, t)
            st, su = (ip.alloc(ip.val(ip.new('nsasm::Stack')), 'stack') for _ in range(2))
            ip.m(st, 'PushFlags', ip.val(R.F.make(s)))
            ip.m(su, 'PushFlags', ip.val(R.F.make(t)))
            ip.require(ip.truth(ip.val(ip.m(st, 'operator==', su))) == (s == t), 'stacks are equal exactly when their entries are', what)
            ip.m(st, 'operator|=', su)
            R.entry(ip.val(ip.m(st, 'PullByte')), ('flags', want), 'merged flags on the stack keep what both agree on', what)
            ea, eb = (ip.alloc(ip.val(ip.new('nsasm::ExecutionState')), 'state') for _ in range(2))
            ip.store(ip.loc_of(ip.m(ea, 'Flags', pred=nc)), ip.val(R.F.make(s)))
            ip.store(ip.loc_of(ip.m(eb, 'Flags', pred=nc)), ip.val(R.F.make(t)))
            ip.require(ip.truth(ip.val(ip.m(ea, 'operator==', eb))) == (s == t), 'states are equal exactly when every component is', what)
            ip.m(ea, 'operator|=', eb)
            got = R.F.read(ip.loc_of(ip.m(ea, 'Flags', pred=nc)))
            ip.require(got == want, 'the flags are merged', lambda: '%s: %s, specified %s' % (what, got, want))
    for i in range(0, len(fp), 120):
        c.scenario('flags %s | %s and %d more' % (fp[i][0], fp[i][1], len(fp[i:i + 120]) - 1), lambda ip, g=fp[i:i + 120]: flag_entries(ip, g))

    def reg_states(ip, n, a, b):
        R = Regs(ip)
        va, vb = regval(a, 'a'), regval(b, 'b')
        ea, eb = (ip.alloc(ip.val(ip.new('nsasm::ExecutionState')), 'state') for _ in range(2))
        ip.store(ip.loc_of(ip.m(ea, n, pred=nc)), R.make(va))
        ip.store(ip.loc_of(ip.m(eb, n, pred=nc)), R.make(vb))
        eq = a == b and (a != 'value' or ip.cond('==', va[1], vb[1]))
        what = '%s %s | %s' % (n, a, b)
        ip.require(ip.truth(ip.val(ip.m(ea, 'operator==', eb))) == eq, 'states are equal exactly when every component is', what)
        ip.m(ea, 'operator|=', eb)
        R.is_reg(ip.val(ip.m(ea, n, pred=nc)), reg_merge(ip, va, vb), 'each register is merged with its counterpart', what)
    for n in comps[:4]:
        for a, b in itertools.product(KINDS, repeat=2):
            c.scenario('states with %s %s | %s' % (n, a, b), lambda ip, n=n, a=a, b=b: reg_states(ip, n, a, b))

    def incoming(ip):
        R = Regs(ip)
        for s in [(3, 3, 3, 3), (0, 3, 1, 3), (1, 1, 1, 3), (0, 0, 0, 0), (3, 1, 3, 1)]:
            es = ip.alloc(ip.val(ip.new('nsasm::ExecutionState', R.F.make(s), kinds=['StatusFlags'])), 'state')
            got = R.F.read(ip.loc_of(ip.m(es, 'Flags', pred=nc)))
            want = tuple(2 if b == 3 else b for b in norm(s))
            ip.require(got == want, 'a subroutine starts with its unknown flags at their original values', lambda: '%s: %s' % (s, got))
            for n in comps[:4]:
                R.is_reg(ip.val(ip.m(es, n, pred=nc)), ('unknown',), 'a fresh state knows no register', n)
    c.scenario('incoming state', incoming)
