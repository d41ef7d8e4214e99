"""Abstract values.  All values are immutable."""
from .dom import *


class Top:
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Top(%s)' % self.why

    def __eq__(self, o):
        return isinstance(o, Top)

    def __hash__(self):
        return 7


class Void:
    def __repr__(self):
        return 'void'


VOID = Void()


class Ptr:
    """Pointer / reference / iterator / smart pointer: a cell and an access path.
    cell None is the null pointer."""
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash((self.cell, self.path))

    def __repr__(self):
        return 'null' if self.cell is None else '&%s%s' % (self.cell, ''.join('.%s' % (p[1] if len(p) > 1 else p[0],) for p in self.path))

    def ext(self, *p):
        return Ptr(self.cell, self.path + p)


NULL = Ptr(None)


class Obj:
    __slots__ = ('cls', 'f', '_h')

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Obj) and self.cls == o.cls and self.f == o.f

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.cls, tuple(sorted((k, hash(v)) for k, v in self.f.items()))))
        return self._h

    def __repr__(self):
        return '%s{%s}' % (self.cls.split('::')[-1], ', '.join('%s=%r' % kv for kv in self.f.items()))

    def with_(self, k, v):
        f = dict(self.f)
        f[k] = v
        return Obj(self.cls, f)


class Opt:
    __slots__ = ('v',)   # None = empty

    def __init__(self, v=None):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Opt) and self.v == o.v

    def __hash__(self):
        return hash(('opt', self.v))

    def __repr__(self):
        return 'nullopt' if self.v is None else 'Some(%r)' % (self.v,)


class Var:
    __slots__ = ('i', 'v')

    def __init__(self, i, v):
        self.i = i
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Var) and self.i == o.i and self.v == o.v

    def __hash__(self):
        return hash(('var', self.i, self.v))

    def __repr__(self):
        return 'V%d(%r)' % (self.i, self.v)


class Tup:
    """Tuple; refs[i] tells that element i is a reference (an address of what it refers to)."""
    __slots__ = ('v', 'refs')

    def __init__(self, v, refs=()):
        self.v = tuple(v)
        self.refs = tuple(refs)

    def ref(self, i):
        return i < len(self.refs) and self.refs[i]

    def __eq__(self, o):
        return isinstance(o, Tup) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'T%r' % (self.v,)


class Sym:
    """Lazily expanded symbolic value of type tid.  idx is None for plain inputs and the
    element index for members of symbolic arrays."""
    __slots__ = ('tid', 'name', 'idx')

    def __init__(self, tid, name, idx=None):
        self.tid = tid
        self.name = name
        self.idx = idx

    def __eq__(self, o):
        return isinstance(o, Sym) and self.name == o.name and self.idx == o.idx

    def __hash__(self):
        return hash((self.name, self.idx))

    def __repr__(self):
        return '?%s%s' % (self.name, '' if self.idx is None else '[%r]' % self.idx)

    def at(self, lo, hi):
        if self.idx is None:
            return atom(('s', self.name), lo, hi)
        return atom(('el', self.name, self.idx), lo, hi)


class E:
    """Single element part of a sequence."""
    __slots__ = ('v',)
    n = ONE

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, E) and self.v == o.v

    def __hash__(self):
        return hash(('E', self.v))

    def __repr__(self):
        return repr(self.v)


class S:
    """Slice [off, off+n) of a symbolic array."""
    __slots__ = ('arr', 'off', 'n', 'tid')

    def __init__(self, arr, off, n, tid):
        self.arr, self.off, self.n, self.tid = arr, off, n, tid

    def __eq__(self, o):
        return isinstance(o, S) and (self.arr, self.off, self.n) == (o.arr, o.off, o.n)

    def __hash__(self):
        return hash((self.arr, self.off, self.n))

    def __repr__(self):
        return '%s[%r:+%r]' % (self.arr, self.off, self.n)


class C:
    """Comprehension: element k (0 <= k < n) is body with variable var replaced by k."""
    __slots__ = ('var', 'n', 'body')

    def __init__(self, var, n, body):
        self.var, self.n, self.body = var, n, body

    def __eq__(self, o):
        return isinstance(o, C) and (self.var, self.n, self.body) == (o.var, o.n, o.body)

    def __hash__(self):
        return hash((self.var, self.n, self.body))

    def __repr__(self):
        return '{%r for %r<%r}' % (self.body, self.var, self.n)


class Seq:
    """Sequence = concatenation of parts, overlaid with a log of symbolic-index stores."""
    __slots__ = ('parts', 'tid', 'log')

    def __init__(self, parts=(), tid=None, log=()):
        out = []
        for p in parts:
            if isinstance(p, S):
                if p.n == ZERO:
                    continue
                if out and isinstance(out[-1], S) and out[-1].arr == p.arr and out[-1].off + out[-1].n == p.off:
                    q = out.pop()
                    p = S(p.arr, q.off, q.n + p.n, p.tid)
            out.append(p)
        self.parts = tuple(out)
        self.tid = tid
        self.log = log

    def __eq__(self, o):
        return isinstance(o, Seq) and self.parts == o.parts and self.log == o.log

    def __hash__(self):
        return hash((self.parts, self.log))

    def __repr__(self):
        return '[%s]%s' % (', '.join(map(repr, self.parts)), '' if not self.log else '<-%r' % (self.log,))

    def len(self):
        n = ZERO
        for p in self.parts:
            n = n + p.n
        return n

    def concrete(self):
        return all(isinstance(p, E) for p in self.parts) and not self.log


class View:
    """Span: view of [off, off+n) of the sequence stored at ptr."""
    __slots__ = ('p', 'off', 'n')

    def __init__(self, p, off, n):
        self.p, self.off, self.n = p, off, n

    def __eq__(self, o):
        return isinstance(o, View) and (self.p, self.off, self.n) == (o.p, o.off, o.n)

    def __hash__(self):
        return hash((self.p, self.off, self.n))

    def __repr__(self):
        return 'span(%r,%r,%r)' % (self.p, self.off, self.n)


def plain(v):
    """a constant built of numbers and text as a Python value, else None"""
    if isinstance(v, Lin):
        return v.const
    if isinstance(v, Str):
        return v.const
    if isinstance(v, Obj) and v.cls == 'std::pair':
        r = tuple(plain(x) for x in v.f.values())
        return None if None in r else r
    if isinstance(v, Tup):
        r = tuple(plain(x) for x in v.v)
        return None if None in r else r
    return None


class MapV:
    """Finite map with explicitly known entries (insertion order kept for hashed maps, key
    order for ordered maps with constant keys).  unk: the map may hold further entries.
    Iterators and references name an entry by its identity in ids, which outlives insertions and removals of others."""
    __slots__ = ('ents', 'kind', 'unk', 'ids', 'top', '_ix')

    def __init__(self, ents=(), kind='map', unk=None, ids=None, top=0):
        self.ents, self.kind, self.unk = tuple(ents), kind, unk
        self.ids = tuple(range(len(self.ents))) if ids is None else tuple(ids)
        self.top = max(top, len(self.ents)) if ids is None else top
        self._ix = None

    def index(self):
        """plain key -> position, when every key is plain; else False"""
        if self._ix is None:
            d = {plain(k): i for i, (k, _) in enumerate(self.ents)}
            self._ix = False if None in d else d
        return self._ix

    def key(self, i):
        """path element of the i-th entry"""
        return ('m', self.ids[i] if i < len(self.ents) else -1)

    def pos(self, i):
        """position of an entry's identity (its number when past the end), None when it is gone"""
        if i == -1:
            return len(self.ents)
        try:
            return self.ids.index(i)
        except ValueError:
            return None

    def put(self, i, key, val):
        m = MapV(self.ents[:i] + ((key, val),) + self.ents[i:], self.kind, self.unk, self.ids[:i] + (self.top,) + self.ids[i:], self.top + 1)
        if self._ix and i == len(self.ents):
            k = plain(key)
            m._ix = False if k is None or k in self._ix else {**self._ix, k: i}
        return m

    def set(self, i, val):
        m = MapV(self.ents[:i] + ((self.ents[i][0], val),) + self.ents[i + 1:], self.kind, self.unk, self.ids, self.top)
        m._ix = self._ix
        return m

    def drop(self, i):
        return MapV(self.ents[:i] + self.ents[i + 1:], self.kind, self.unk, self.ids[:i] + self.ids[i + 1:], self.top)

    def __eq__(self, o):
        return isinstance(o, MapV) and (self.ents, self.unk) == (o.ents, o.unk)

    def __hash__(self):
        return hash((self.ents, self.unk))

    def __repr__(self):
        return 'map%r%s' % (self.ents, '' if self.unk is None else '+' + self.unk)


class Str:
    """String = concatenation of pieces: literal text or symbolic pieces
      ('sub', name, off, n)   characters [off, off+n) of a symbolic string
      ('fmt', conv, value)    formatted value
      ('lower'|'upper', Str)"""
    __slots__ = ('p',)

    def __init__(self, pieces=()):
        out = []
        for x in pieces:
            if isinstance(x, str):
                if not x:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                    continue
            elif x[0] == 'sub':
                if x[3] == ZERO:
                    continue
                if out and not isinstance(out[-1], str) and out[-1][0] == 'sub' and out[-1][1] == x[1] and out[-1][2] + out[-1][3] == x[2]:
                    y = out.pop()
                    x = ('sub', x[1], y[2], y[3] + x[3])
            out.append(x)
        self.p = tuple(out)

    def __eq__(self, o):
        return isinstance(o, Str) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return 'Str%r' % (self.p,)

    @property
    def const(self):
        if not self.p:
            return ''
        if len(self.p) == 1 and isinstance(self.p[0], str):
            return self.p[0]
        return None

    def __add__(self, o):
        return Str(self.p + o.p)

    def is_sub(self):
        return len(self.p) == 1 and not isinstance(self.p[0], str) and self.p[0][0] == 'sub'


def symstr(name):
    return Str((('sub', name, ZERO, sym(name + '.len', 0, 1 << 30)),))


class Fn:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn

    def __eq__(self, o):
        return isinstance(o, Fn) and self.fn['usr'] == o.fn['usr']

    def __hash__(self):
        return hash(self.fn['usr'])

    def __repr__(self):
        return 'fn:' + self.fn['q']


class MPtr:
    """Pointer to a data member."""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, MPtr) and self.f == o.f

    def __hash__(self):
        return hash(('mptr', self.f))

    def __repr__(self):
        return '&::' + self.f


class Lam:
    __slots__ = ('node', 'caps')

    def __init__(self, node, caps):
        self.node, self.caps = node, caps

    def __eq__(self, o):
        return isinstance(o, Lam) and self.node is o.node and self.caps == o.caps

    def __hash__(self):
        return hash(id(self.node))

    def __repr__(self):
        return 'lambda'


class FileV:
    __slots__ = ('path', 'mode', 'pos', 'open', 'dirty')

    def __init__(self, path, mode, pos, open_):
        self.path, self.mode, self.pos, self.open = path, mode, pos, open_

    def __eq__(self, o):
        return isinstance(o, FileV) and (self.path, self.mode, self.pos, self.open) == (o.path, o.mode, o.pos, o.open)

    def __hash__(self):
        return hash((self.mode, self.open))

    def __repr__(self):
        return 'FILE(%s,%r,%s)' % (self.mode, self.pos, 'open' if self.open else 'closed')
