"""File handles are released on every exit."""
from props.common import *
from nsa.ir import fn_calls
from props.p04 import overwriter
from props.p06 import load

EXPLANATION = (
    'Typestate analysis of every file handle opened by the library entry points that touch files: each stdio call may '
    'succeed or fail, and on every path to an exit of the entry point each opened handle has been closed exactly once and '
    'is not used afterwards. A second, structural rule enumerates every function of the library that acquires a handle and '
    'requires it to be reachable only from the analysed entry points.')
ASSUMPTIONS = ['files are smaller than 2 GiB', 'stdio behaves as modelled in nsa/lib.py']
ENTRY = ('nsasm::LoadRomFile', 'nsasm::RomOverwriter::CreateFile')


def balanced(ip, ev0):
    opened = sum(1 for e in ip.st.ev[ev0:] if e[0] == 'fopen' and e[-1])
    closed = {}
    for e in ip.st.ev[ev0:]:
        if e[0] == 'fclose':
            closed[e[1]] = closed.get(e[1], 0) + 1
    ip.require(all(n == 1 for n in closed.values()), 'no handle is closed twice')
    ip.require(len(closed) == opened, 'every opened handle is closed when the call returns',
               lambda: '%d opened, %d closed' % (opened, len(closed)))


def check(c):
    def loading(ip):
        ev0 = len(ip.st.ev)
        load(ip)
        balanced(ip, ev0)
    c.scenario('load', loading)
    for hn in (0, 0x200):
        def saving(ip, hn=hn):
            n = sym('image size', 1, MAXROM)
            ow = overwriter(ip, 'kLoRom', n, L(hn))
            ev0 = len(ip.st.ev)
            ip.m(ow, 'CreateFile', ip.alloc(symstr('out path')))
            balanced(ip, ev0)
        c.scenario('save, header of %d bytes' % hn, saving)

    # who may open a file
    p = c.prog()
    c.rule('every library function that opens a stdio handle is an analysed entry point or called only from one')
    callers, direct = {}, {}
    for f in p.all_functions():
        for n, g in fn_calls(f):
            q = g.get('q') or g.get('n')
            if q in ('fopen', 'std::fopen', 'freopen', 'fdopen', 'open', 'popen', 'tmpfile'):
                direct.setdefault(f['q'], f)
            callers.setdefault(q, set()).add(f['q'])
    seen = 0
    for q, f in sorted(direct.items()):
        seen += 1
        ok, todo, done = True, [q], set()
        while todo:
            x = todo.pop()
            if x in done or x in ENTRY:
                continue
            done.add(x)
            up = callers.get(x, set())
            if not up:
                ok = False
            todo += up
        c.site(True if ok else None, 'open|' + q, '%s (%s:%s) opens a file inside the analysed entry points' % (q, f['file'], f['line']))
    c.need(seen, 'functions that open files')
