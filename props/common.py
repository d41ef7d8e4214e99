from nsa.spec import *
from nsa.val import View
from props.p01 import spec_offset

MODES = (('kLoRom', 'lo'), ('kHiRom', 'hi'), ('kExHiRom', 'exhi'))
MAXROM = 1 << 24


def u8(ip):
    return ip.tid('unsigned char', 'uint8_t')


def bytes_in(ip, name, n):
    t = u8(ip)
    return Seq((S(name, ZERO, L(n), t),), t)


def byte(ip, name, i):
    """the specification's view of input byte i"""
    return L(Sym(u8(ip), name, ip.expand(L(i))).at(0, 255))


def make_rom(ip, mode, n, hn=None):
    modes = ip.p.enum('nsasm::Mapping')
    hdr = bytes_in(ip, 'header', hn if hn is not None else ZERO)
    return ip.new('nsasm::Rom', L(modes[mode]), symstr('path'), hdr, bytes_in(ip, 'data', n))


def offset_of(ip, short, bank, o, i):
    """ROM offset of the i-th byte from (bank, o), wrapping in the bank; None when unmapped."""
    x = o + i
    for _ in range(40):
        if ip.cond('<=', x, 0xffff):
            break
        x = x - 0x10000
    else:
        raise PathEnd('unknown', 'wrapped index too large')
    return spec_offset(ip, short, bank, x)


def in_rom(ip, short, bank, o, i, n):
    m = offset_of(ip, short, bank, o, i)
    return m is not None and ip.cond('<', m, n)


def readable(ip, short, bank, o, ln, n):
    """Every byte of the wrapped run is mapped and inside the image.  The unmapped part of a bank
    is a prefix of it and offsets grow with the bank offset, so the extreme bytes decide."""
    if not in_rom(ip, short, bank, o, ZERO, n):
        return False
    if ip.cond('<=', o + ln, 0x10000):
        return in_rom(ip, short, bank, o, ln - 1, n)
    return (in_rom(ip, short, bank, o, L(0xffff) - o, n) and
            in_rom(ip, short, bank, o, L(0x10000) - o, n))


BANKS = (('system', 0x00, 0x3f), ('cart', 0x40, 0x7d), ('wram', 0x7e, 0x7f), ('mirror', 0x80, 0xbf), ('high cart', 0xc0, 0xff))


def regions():
    """Partition of the address space along the hardware map's own borders."""
    for name, b0, b1 in BANKS:
        for half, o0, o1 in (('lower half', 0, 0x7fff), ('upper half', 0x8000, 0xffff)):
            yield '%s %s' % (name, half), b0, b1, o0, o1


def region_addr(ip, b0, b1, o0, o1):
    bank, o = sym('bank', b0, b1), sym('offset', o0, o1)
    return ip.addr(bank, o), bank, o


# ---- prescribed environments (see props/inst.cc)
def ret_rec(ip, f):
    return ip.p.types[f['ret']]['rec']


def failure(ip, rec, text):
    """a failed result of type rec"""
    e = ip.new('nsasm::Error', Str(('%s',)), ip.loc_of(text), kinds=['FormatSpec', 'basic_string<'])
    return ip.val(ip.new(rec, ip.alloc(e, 'e'), kinds=['Error']))


def success(ip, rec, *v):
    return ip.val(ip.new(rec, *[ip.alloc(x, 'v') for x in v], kinds=None if not v else ['^(?!.*Error).*']))


def writer(ip, accept=None):
    """A sink accepting writes as `accept(i)` says (default: an arbitrary outcome); records ('write', address, bytes)."""
    def write(ip, f, this, args, node):
        v = ip.val(args[1])
        if not isinstance(v, View) or ip.expand(v.n).const is None:
            raise PathEnd('unknown', 'written bytes %r' % (v,))
        n = ip.expand(v.n).const
        data = [ip.load(v.p.ext(('i', ip.expand(v.off + i)))) for i in range(n)]
        k = sum(1 for e in ip.st.ev if e[0] == 'write')
        ok = accept(k) if accept else ip.cond('==', sym('sink accepts write %d' % k, 0, 1), 1)
        ip.st.ev = ip.st.ev + (('write', ip.addr_val(args[0]), data, ok),)
        return success(ip, ret_rec(ip, f)) if ok else failure(ip, ret_rec(ip, f), symstr('sink error'))
    ip.hooks['nsa_spec::Sink::Write'] = write
    return ip.alloc(ip.new('nsa_spec::Sink'), 'sink')


def writes(ip):
    return [e for e in ip.st.ev if e[0] == 'write']


def names(ip, table):
    """A lookup context: identifier text -> abstract value or None (unresolved)."""
    def look(ip, f, this, args, node):
        idl = ip.loc_of(args[0])
        s = ip.str_of(ip.val(ip.m(idl, 'Identifier')))
        ip.st.ev = ip.st.ev + (('lookup', s),)
        if s.const is None or s.const not in table:
            raise PathEnd('unknown', 'lookup of %r' % (s,))
        v = table[s.const]
        return failure(ip, ret_rec(ip, f), Str(('no such name',))) if v is None else success(ip, ret_rec(ip, f), v)
    ip.hooks['nsa_spec::Names::Lookup'] = look
    return ip.alloc(ip.new('nsa_spec::Names'), 'names')


def identifier(ip, name, ty='T_word'):
    """expression naming an identifier"""
    T = ip.p.enum('nsasm::NumericType')
    fi = ip.new('nsasm::FullIdentifier', Str((name,)))
    return ip.alloc(ip.new('nsasm::IdentifierExpression', fi, L(T[ty])), 'id')


def instruction(ip, m, a, arg1=None, arg2=None, suffix='S_none'):
    M, A, S_ = (ip.p.enum('nsasm::' + x) for x in ('Mnemonic', 'AddressingMode', 'Suffix'))
    i = ip.alloc(ip.new('nsasm::Instruction'), 'ins')
    ip.store(i.ext(('f', 'mnemonic')), L(M[m]))
    ip.store(i.ext(('f', 'addressing_mode')), L(A[a]))
    ip.store(i.ext(('f', 'suffix')), L(S_[suffix]))
    for k, e in (('arg1', arg1), ('arg2', arg2)):
        if e is not None:
            ip.m(i.ext(('f', k)), 'operator=', e, pred=lambda f: 'ExpressionOrNull' not in ip.p.types[f['params'][0]['t']]['s'])
    return i
