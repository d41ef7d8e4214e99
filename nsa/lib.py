"""Abstract semantics of the library functions used by the analysed code."""
import re
from .val import *
from .interp import PathEnd, Infeasible, UPtr

MODELS = {}
CTORS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ctor(*names):
    def d(f):
        for n in names:
            CTORS[n] = f
        return f
    return d


VEC = ('std::vector', 'absl::InlinedVector', 'std::deque', 'std::array', 'std::initializer_list')
STRS = ('std::basic_string', 'std::basic_string_view')
MAPS = ('std::map', 'absl::flat_hash_map', 'std::unordered_map', 'std::multimap', 'absl::node_hash_map', 'absl::btree_map')
SETS = ('std::set', 'absl::flat_hash_set', 'std::unordered_set')


def lookup(ip, fn):
    """Fallback: resolve by class base name and member name."""
    q = fn['q']
    n = fn['n']
    cls = q[:-(len(n) + 2)] if q.endswith('::' + n) else ''
    b = ip.T(fn['cls'])['base'] if 'cls' in fn and ip.T(fn['cls']).get('base') else cls
    fam = None
    if b in VEC:
        fam = 'vec'
    elif b in STRS:
        fam = 'str'
    elif b in MAPS or b.endswith('raw_hash_map'):
        fam = 'map'
    elif b in SETS:
        fam = 'set'
    elif b.endswith('raw_hash_set'):
        fam = 'map'
    elif 'iterator' in b.lower():
        fam = 'iter'
    if fam:
        h = MODELS.get(fam + '::' + n)
        if h:
            return h
    if b.endswith('strings_internal::Splitter') and n.startswith('operator '):
        return m_splitter
    if n in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=', 'operator<=>'):
        return cmp_op
    if n == 'operator+':
        return plus_op
    if n == 'operator-':
        return minus_op
    if n == 'operator<<':
        return lambda ip, fn, this, a, node: this if this is not None else a[0]
    return None


def A(ip, fn, args, i, node=None):
    """Value of argument i (reference parameters are loaded)."""
    a = args[i]
    pt = fn.get('pt', ())
    isref = i >= len(pt) or ip.T(pt[i])['k'] == 'ref'
    if isref and isinstance(a, Ptr):
        return ip.load(a, node)
    return ip.force(a)


def vals(ip, fn, args, node=None):
    return [A(ip, fn, args, i, node) for i in range(len(args))]


def uq(s):
    return re.sub(r'^const ', '', s)


def deref_t(ip, tid):
    t = ip.T(tid)
    while t['k'] == 'ref':
        tid = t['to']
        t = ip.T(tid)
    return tid, t


def default_of(ip, t, tid):
    b = t.get('base')
    if b in VEC:
        if b == 'std::array':
            n = t['args'][1]['i']
            return Seq([E(ip.default_value(t['args'][0])) for _ in range(n)], t['args'][0])
        return Seq((), t['args'][0])
    if b in STRS:
        return Str(())
    if b == 'std::optional':
        return Opt(None)
    if b == 'std::unique_ptr' or b == 'std::shared_ptr':
        return UPtr(None)
    if b in MAPS or b in SETS:
        return MapV((), kindof(b))
    if b == 'std::variant':
        return Var(0, ip.default_value(t['args'][0], None, True))
    if b == 'std::pair':
        return Obj('std::pair', {'first': ip.default_value(t['args'][0], None, True), 'second': ip.default_value(t['args'][1], None, True)})
    if b == 'std::monostate':
        return Obj('std::monostate', {})
    if b == 'absl::Span':
        return View(ip.alloc(Seq((), t['args'][0])), ZERO, ZERO)
    if b and 'iterator' in b.lower():
        return NULL
    return Obj(t.get('base', t['s']), {})


def kindof(b):
    return b.split('::')[-1]


# ------------------------------------------------------------------ constructors
@ctor('std::vector', 'absl::InlinedVector', 'std::deque', 'std::initializer_list', 'std::array')
def c_vec(ip, e, fn, t, args):
    if t['base'] == 'std::array' and not args:
        return default_of(ip, t, e['t'])
    el = t['args'][0]
    pts = [ip.T(x) for x in fn.get('pt', ())]
    # drop trailing allocator
    n = len(args)
    while n and (pts[n - 1].get('base') == 'std::allocator' or ip.T(pts[n - 1].get('to', -1) if pts[n - 1]['k'] == 'ref' else fn['pt'][n - 1]).get('base') == 'std::allocator'):
        n -= 1
    if n == 0:
        return Seq((), el)
    if n == 1:
        if fn.get('move') or (pts[0]['k'] == 'ref' and pts[0].get('rv') and ip.T(pts[0]['to']).get('base') == t['base']):
            return ip.seq_of(ip.move_out(args[0], e)) if isinstance(args[0], Ptr) else ip.seq_of(args[0])
        v = A(ip, fn, args, 0, e)
        if isinstance(v, (Seq, View)):
            s = ip.seq_of(v, e)
            if s is not None:
                return Seq(s.parts, el, s.log)
        if isinstance(v, Lin):
            if v.const is not None and v.c < 100000:
                return Seq([E(ip.default_value(el, e, True)) for _ in range(v.c)], el)
            return Seq((zeros(ip, v, el),), el)
        if isinstance(v, Top):
            return v
        return ip.top('vector constructor', e)
    v = A(ip, fn, args, 0, e)
    w = A(ip, fn, args, 1, e)
    if isinstance(v, Ptr) and isinstance(w, Ptr):
        s = range_seq(ip, v, w, e)
        return Seq(s.parts, el, s.log) if isinstance(s, Seq) else s
    if isinstance(v, Lin):
        if v.const is not None and v.c < 100000:
            return Seq([E(w) for _ in range(v.c)], el)
        return Seq((C(atom(('s', '@k'), 0, INF), v, w),), el)
    return ip.top('vector constructor', e)


def zeros(ip, n, el):
    return C(atom(('s', '@k'), 0, INF), n, ip.default_value(el, None, True))


def range_seq(ip, a, b, node):
    """Sequence denoted by an iterator range."""
    if isinstance(a, Top) or isinstance(b, Top):
        return a if isinstance(a, Top) else b
    if isinstance(a, Obj) and isinstance(b, Obj) and 'b' in a.f and 'b' in b.f:
        s = range_seq(ip, b.f['b'], a.f['b'], node)
        return Seq(tuple(reversed(s.parts)), s.tid) if isinstance(s, Seq) and s.concrete() else ip.top('reverse range', node)
    if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.cell == b.cell and a.path and b.path and a.path[:-1] == b.path[:-1]):
        return ip.top('iterator range', node)
    if a.path[-1][0] == 'i':
        base = Ptr(a.cell, a.path[:-1])
        v = ip.load(base, node)
        if isinstance(v, Str):
            return ip.seq_of(ip.str_sub(v, a.path[-1][1], b.path[-1][1] - a.path[-1][1], node)) or ip.top('characters', node)
        s = ip.seq_of(v, node)
        if s is None:
            return ip.top('range of %r' % (v,), node)
        i, j = a.path[-1][1], b.path[-1][1]
        r = ip.seq_slice(s, i, j, node)
        if r is None:
            return ip.top('slice of updated array', node)
        return r
    if a.path[-1][0] == 'm':
        m = ip.load(Ptr(a.cell, a.path[:-1]), node)
        i, j = m.pos(a.path[-1][1]), m.pos(b.path[-1][1])
        ip.oblige(i is not None and j is not None, 'range of removed map entries', node)
        es = m.ents[i:j]
        if m.kind in ('set', 'flat_hash_set', 'unordered_set'):
            return Seq([E(k) for k, _ in es])
        return Seq([E(Obj('std::pair', {'first': k, 'second': v})) for k, v in es])
    return ip.top('iterator range', node)


@ctor('absl::Span')
def c_span(ip, e, fn, t, args):
    if not args:
        return View(ip.alloc(Seq((), t['args'][0])), ZERO, ZERO)
    if len(args) == 2:
        p, n = A(ip, fn, args, 0, e), A(ip, fn, args, 1, e)
        if isinstance(p, Ptr) and p.path and p.path[-1][0] == 'i' and isinstance(n, Lin):
            return View(Ptr(p.cell, p.path[:-1]), p.path[-1][1], n)
        return ip.top('span constructor', e)
    a = args[0]
    return to_view(ip, a, e)


def to_view(ip, a, e):
    v = ip.load(a, e) if isinstance(a, Ptr) else ip.force(a)
    if isinstance(v, View):
        return v
    if isinstance(v, Seq):
        p = a if isinstance(a, Ptr) else ip.alloc(v, 't')
        return View(p, ZERO, v.len())
    return v if isinstance(v, Top) else ip.top('span of %r' % (v,), e)


@ctor('std::basic_string', 'std::basic_string_view', 'absl::strings_internal::ConvertibleToStringView')
def c_str(ip, e, fn, t, args):
    pts = [ip.T(x) for x in fn.get('pt', ())]
    args = list(args)
    while args and 'allocator' in pts[len(args) - 1]['s']:
        args.pop()
    if not args:
        return Str(())
    if fn.get('move') and isinstance(args[0], Ptr):
        return ip.str_of(ip.move_out(args[0], e), e)
    v = A(ip, fn, args, 0, e)
    if len(args) == 1:
        if isinstance(v, Seq):
            return seq_str(ip, v, e)
        return ip.str_of(v, e)
    w = A(ip, fn, args, 1, e)
    if isinstance(v, Lin) and isinstance(w, Lin):
        if v.const is not None and w.const is not None:
            return Str((chr(w.c & 0xff) * v.c,))
        return ip.top('repeated character', e)
    if isinstance(v, Ptr) and isinstance(w, Ptr) and v.path and v.path[-1][0] == 'i' and w.path and w.cell == v.cell:
        s = ip.load(Ptr(v.cell, v.path[:-1]), e)
        if isinstance(s, Str):
            return ip.str_sub(s, v.path[-1][1], w.path[-1][1] - v.path[-1][1], e)
    if isinstance(w, Lin):
        s = ip.str_of(v, e)
        if len(args) == 3:
            return ip.str_sub(s, w, A(ip, fn, args, 2, e), e)
        if isinstance(v, (Str,)) and pts[0]['k'] == 'ptr':
            return ip.str_sub(s, ZERO, w, e)
        return ip.str_sub(s, w, None, e)
    return ip.top('string constructor', e)


def seq_str(ip, s, e):
    if s.concrete() and all(isinstance(p.v, Lin) and p.v.const is not None for p in s.parts):
        return Str((''.join(chr(p.v.c & 0xff) for p in s.parts),))
    return ip.top('string from characters', e)


@ctor('std::optional')
def c_opt(ip, e, fn, t, args):
    if not args:
        return Opt(None)
    pid, pt = deref_t(ip, fn['pt'][0])
    if pt.get('base') == 'std::nullopt_t':
        return Opt(None)
    if pt.get('base') == 'std::in_place_t':
        return Opt(make(ip, t['args'][0], args[1:], fn['pt'][1:], e))
    if pt.get('base') == 'std::optional':
        mv = ip.T(fn['pt'][0]).get('rv')
        v = (ip.move_out(args[0], e) if mv else ip.load(args[0], e)) if isinstance(args[0], Ptr) else ip.force(args[0])
        if isinstance(v, Opt) and v.v is not None and uq(pt['s']) != uq(t['s']):
            return Opt(convert(ip, v.v, pt['args'][0], t['args'][0], e))
        return v
    mv = ip.T(fn['pt'][0])['k'] == 'ref' and ip.T(fn['pt'][0]).get('rv')
    v = (ip.move_out(args[0], e) if mv else ip.load(args[0], e)) if isinstance(args[0], Ptr) and ip.T(fn['pt'][0])['k'] == 'ref' else ip.force(args[0])
    return Opt(convert(ip, v, pid, t['args'][0], e))


def convert(ip, v, frm, to, node):
    """Implicit conversion performed inside library code."""
    tt, ft = ip.T(to), ip.T(frm)
    if uq(tt['s']) == uq(ft['s']):
        return v
    if isinstance(v, Lin) and tt['k'] in ('int', 'bool', 'enum'):
        return ip.wrap(v, tt) if tt['k'] != 'enum' else v
    if isinstance(v, Str) and tt.get('base') in STRS:
        return v
    if tt['k'] == 'rec' and tt.get('repo'):
        return make(ip, to, [v], [frm], node)
    if tt.get('base') == 'std::optional' and ft.get('base') == 'std::nullopt_t':
        return Opt()
    if tt.get('base') == 'std::optional' and not isinstance(v, Opt):
        return Opt(convert(ip, v, frm, tt['args'][0], node))
    if tt.get('base') == 'std::variant' and not isinstance(v, (Var, Top)):
        i = accepted(ip, tt, frm, {})
        return ip.top('variant alternative for ' + ft['s'][:40], node) if i is None else Var(i, convert(ip, v, frm, tt['args'][i], node))
    return v


def make(ip, tid, args, ptypes, node):
    """Construct an object of type tid from library-forwarded arguments."""
    t = ip.T(tid)
    if t['k'] in ('int', 'bool', 'enum'):
        if not args:
            return ZERO
        v = ip.load(args[0], node) if isinstance(args[0], Ptr) else ip.force(args[0])
        return ip.wrap(v, t) if isinstance(v, Lin) and t['k'] != 'enum' else v
    if t['k'] != 'rec':
        return ip.load(args[0], node) if args and isinstance(args[0], Ptr) and ip.T(ptypes[0])['k'] == 'ref' else (args[0] if args else ip.default_value(tid))
    if not t.get('repo'):
        vs = []
        for a, p in zip(args, ptypes):
            if isinstance(a, Ptr) and ip.T(p)['k'] == 'ref':
                vs.append(ip.move_out(a, node) if ip.T(p).get('rv') else ip.load(a, node))
            else:
                vs.append(ip.force(a))
        b = t['base']
        if not vs:
            return default_of(ip, t, tid)
        if b == 'std::pair' and len(vs) == 2:
            return Obj('std::pair', {'first': convert(ip, vs[0], deref_t(ip, ptypes[0])[0], t['args'][0], node),
                                     'second': convert(ip, vs[1], deref_t(ip, ptypes[1])[0], t['args'][1], node)})
        if b in STRS:
            return ip.str_of(vs[0], node)
        if len(vs) == 1:
            return convert(ip, vs[0], deref_t(ip, ptypes[0])[0], tid, node)
        return ip.top('emplace of ' + t['s'][:50], node)
    ats = [deref_t(ip, p) for p in ptypes]
    # copy / move
    if len(args) == 1 and uq(ats[0][1]['s']) == uq(t['s']):
        a = args[0]
        if isinstance(a, Ptr):
            return ip.move_out(a, node) if ip.T(ptypes[0])['k'] == 'ref' and ip.T(ptypes[0]).get('rv') else ip.load(a, node)
        return ip.force(a)
    best = None
    for f in ip.p.ctors(t['rec']):
        if f.get('deleted'):
            continue
        if f.get('copy') or f.get('move') or 'body' not in f:
            continue
        ps = f['params']
        if len(args) > len(ps) or any('def' not in p for p in ps[len(args):]):
            continue
        score = 0
        for (aid, at), p in zip(ats, ps):
            qid, qt = deref_t(ip, p['t'])
            if uq(qt['s']) == uq(at['s']):
                score += 4
            elif qt['k'] in ('int', 'bool', 'enum') and at['k'] in ('int', 'bool', 'enum'):
                score += 2 if qt['k'] != 'enum' else -100
            elif qt.get('base') in STRS and (at.get('base') in STRS or at['k'] in ('ptr', 'arr')):
                score += 3
            elif qt['k'] == 'rec' and at['k'] == 'rec' and qt.get('base') == at.get('base'):
                score += 1
            elif qt['k'] == 'rec' and qt.get('repo'):
                score += 0
            else:
                score -= 100
        if score >= 0 and (best is None or score > best[0]):
            best = (score, f)
    if best is None:
        rec = ip.p.records.get(t['rec'])
        if rec and not args:
            return ip.construct_rec(t['rec'], None, [], node)
        if rec and len(args) == len(rec['fields']):
            return Obj(t['rec'], {f['name']: (ip.load(a, node) if isinstance(a, Ptr) and ip.T(p)['k'] == 'ref' else ip.force(a))
                                  for f, a, p in zip(rec['fields'], args, ptypes)})
        return ip.top('no constructor of %s for forwarded arguments' % t['s'], node)
    f = best[1]
    vs = []
    for a, p, q in zip(args, ptypes, f['params']):
        if ip.T(q['t'])['k'] == 'ref':
            vs.append(a if isinstance(a, Ptr) else ip.alloc(a, 't'))
        else:
            x = a
            if isinstance(a, Ptr) and ip.T(p)['k'] == 'ref':
                x = ip.move_out(a, node) if ip.T(p).get('rv') else ip.load(a, node)
            vs.append(convert(ip, ip.force(x), deref_t(ip, p)[0], q['t'], node))
    return ip.construct_rec(t['rec'], {'usr': f['usr']}, vs, node)


@ctor('std::variant')
def c_variant(ip, e, fn, t, args):
    if not args:
        return Var(0, ip.default_value(t['args'][0], e, True))
    pid, pt = deref_t(ip, fn['pt'][0])
    if pt.get('base') == 'std::variant':
        mv = ip.T(fn['pt'][0]).get('rv')
        return (ip.move_out(args[0], e) if mv else ip.load(args[0], e)) if isinstance(args[0], Ptr) else ip.force(args[0])
    if pt.get('base', '').startswith('std::in_place'):
        k = pt['args'][0]
        i = k['i'] if isinstance(k, dict) else alt_index(ip, t, k)
        return Var(i, make(ip, t['args'][i], args[1:], fn['pt'][1:], e))
    i = accepted(ip, t, pid, fn)
    if i is None:
        return ip.top('variant alternative for ' + pt['s'][:40], e)
    mv = ip.T(fn['pt'][0])['k'] == 'ref' and ip.T(fn['pt'][0]).get('rv')
    v = (ip.move_out(args[0], e) if mv else ip.load(args[0], e)) if isinstance(args[0], Ptr) and ip.T(fn['pt'][0])['k'] == 'ref' else ip.force(args[0])
    return Var(i, convert(ip, v, pid, t['args'][i], e))


def alt_index(ip, t, tid):
    s = uq(ip.T(tid)['s'])
    for i, a in enumerate(t['args']):
        if isinstance(a, int) and uq(ip.T(a)['s']) == s:
            return i
    return None


def accepted(ip, t, pid, fn):
    i = alt_index(ip, t, pid)
    if i is not None:
        return i
    for x in fn.get('targs', ())[1:]:
        if isinstance(x, int):
            i = alt_index(ip, t, x)
            if i is not None:
                return i
    pt = ip.T(pid)
    for i, a in enumerate(t['args']):
        at = ip.T(a)
        if pt['k'] in ('int', 'enum') and at['k'] == 'int':
            return i
        if (pt['k'] in ('ptr', 'arr') or pt.get('base') in STRS) and at.get('base') in STRS:
            return i
    return None


@ctor('std::unique_ptr', 'std::shared_ptr')
def c_uptr(ip, e, fn, t, args):
    if not args:
        return UPtr(None)
    pid, pt = deref_t(ip, fn['pt'][0])
    if pt.get('base') in ('std::unique_ptr', 'std::shared_ptr'):
        if isinstance(args[0], Ptr):
            v = ip.load(args[0], e)
            if isinstance(v, UPtr) and pt['base'] == 'std::unique_ptr':
                ip.store(args[0], UPtr(None), e)
            return v
        return ip.force(args[0])
    v = A(ip, fn, args, 0, e)
    d = None
    if len(args) > 1:
        d = A(ip, fn, args, 1, e)
        if not isinstance(d, (Fn, Lam, Obj)):
            d = None
    if isinstance(v, Ptr):
        return UPtr(v, d)
    return v


@ctor('std::pair', 'std::tuple')
def c_pair(ip, e, fn, t, args):
    if t['base'] == 'std::tuple':
        if len(args) == 1 and isinstance(args[0], Ptr):
            v = ip.load(args[0])
            if isinstance(v, Tup):
                rs = [ip.T(x)['k'] == 'ref' for x in t['args']]
                return Tup([ip.load(x, e) if v.ref(i) and isinstance(x, Ptr) and not (i < len(rs) and rs[i]) else x for i, x in enumerate(v.v)], rs)
        return Tup([args[i] if ip.T(t['args'][i])['k'] == 'ref' else convert(ip, mv_arg(ip, fn, args, i, e), deref_t(ip, fn['pt'][i])[0], t['args'][i], e) for i in range(len(args))], [ip.T(x)['k'] == 'ref' for x in t['args']])
    if not args:
        return default_of(ip, t, e['t'])
    if len(args) == 1:
        v = mv_arg(ip, fn, args, 0, e)
        st = deref_t(ip, fn['pt'][0])[1]
        if isinstance(v, Obj) and v.cls == 'std::pair' and uq(st['s']) != uq(t['s']):
            return Obj('std::pair', {'first': convert(ip, v.f['first'], st['args'][0], t['args'][0], e),
                                     'second': convert(ip, v.f['second'], st['args'][1], t['args'][1], e)})
        return v
    return Obj('std::pair', {'first': convert(ip, mv_arg(ip, fn, args, 0, e), deref_t(ip, fn['pt'][0])[0], t['args'][0], e),
                             'second': convert(ip, mv_arg(ip, fn, args, 1, e), deref_t(ip, fn['pt'][1])[0], t['args'][1], e)})


def mv_arg(ip, fn, args, i, e):
    p = ip.T(fn['pt'][i])
    if p['k'] == 'ref' and isinstance(args[i], Ptr):
        return ip.move_out(args[i], e) if p.get('rv') else ip.load(args[i], e)
    return ip.force(args[i])


@ctor('std::map', 'std::set', 'absl::flat_hash_map', 'absl::flat_hash_set', 'std::unordered_map', 'std::unordered_set')
def c_map(ip, e, fn, t, args):
    k = kindof(t['base'])
    if not args:
        return MapV((), k)
    pid, pt = deref_t(ip, fn['pt'][0])
    if pt.get('base') == t['base']:
        return (ip.move_out(args[0], e) if ip.T(fn['pt'][0]).get('rv') else ip.load(args[0], e)) if isinstance(args[0], Ptr) else ip.force(args[0])
    v = A(ip, fn, args, 0, e)
    if isinstance(v, Ptr) and len(args) >= 2:
        v = range_seq(ip, v, A(ip, fn, args, 1, e), e)
    if isinstance(v, Seq) and v.concrete():
        isset = k in ('set', 'flat_hash_set', 'unordered_set')
        xs = [ip.force(p.v) for p in v.parts]
        ks = [plain(x if isset else x.f['first']) for x in xs]
        if None not in ks and len(set(ks)) == len(ks):
            ents = [(x, True) if isset else (x.f['first'], x.f['second']) for x in xs]
            if k not in ORDERED:
                return MapV(ents, k)
            if all(isinstance(x, int) for x in ks) or all(isinstance(x, str) for x in ks):
                return MapV([e for _, e in sorted(zip(ks, ents), key=lambda t: t[0])], k)
        m = MapV((), k)
        for p in v.parts:
            x = ip.force(p.v)
            if k in ('set', 'flat_hash_set', 'unordered_set'):
                m, _, _ = map_insert(ip, m, x, True, e)
            else:
                m, _, _ = map_insert(ip, m, x.f['first'], x.f['second'], e)
        return m
    if isinstance(v, Lin):   # bucket count
        return MapV((), k)
    return ip.top('map constructor', e)


@ctor('absl::str_format_internal::FormatSpecTemplate', 'absl::AlphaNum')
def c_fmtspec(ip, e, fn, t, args):
    v = A(ip, fn, args, 0, e)
    if t['base'] == 'absl::AlphaNum':
        return alnum(ip, v, deref_t(ip, fn['pt'][0])[1], e)
    return ip.str_of(v, e)


def alnum(ip, v, t, e):
    if isinstance(v, Lin):
        if t.get('k') == 'bool':
            return Str(('%d' % v.c,)) if v.const is not None else Str((('fmt', '%d', v),))
        if v.const is not None:
            return Str(('%d' % v.c,))
        return Str((('fmt', '%d', v),))
    return ip.str_of(v, e)


@ctor('std::allocator', 'std::nullopt_t', 'std::less', 'std::greater', 'std::equal_to', 'std::hash', 'absl::hash_internal::Hash', 'std::in_place_t',
      'absl::container_internal::StringHash', 'absl::container_internal::StringEq', 'std::__cmp_cat::__unspec', 'std::monostate',
      'std::strong_ordering', 'std::weak_ordering', 'absl::hash_internal::MixingHashState', 'std::ios_base::Init', 'std::random_access_iterator_tag',
      'std::in_place_type_t', 'std::in_place_index_t', 'std::piecewise_construct_t')
def c_trivial(ip, e, fn, t, args):
    if t['base'] == 'std::nullopt_t':
        return Opt(None)
    if args and isinstance(args[0], Ptr) and args[0].cell is not None:
        return ip.load(args[0])
    return Obj(t['base'], {})


def c_iter(ip, e, fn, t, args):
    if not args:
        return NULL
    v = A(ip, fn, args, 0, e)
    return v


for _b in ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::_Deque_iterator',
           'absl::container_internal::raw_hash_set::iterator', 'absl::container_internal::raw_hash_set::const_iterator'):
    CTORS[_b] = c_iter


@ctor('std::reverse_iterator')
def c_rev(ip, e, fn, t, args):
    if not args:
        return Obj('std::reverse_iterator', {'b': NULL})
    v = A(ip, fn, args, 0, e)
    return Obj('std::reverse_iterator', {'b': v}) if isinstance(v, Ptr) else v


@ctor('std::function')
def c_function(ip, e, fn, t, args):
    if not args:
        return NULL
    return A(ip, fn, args, 0, e)


@ctor('std::basic_ifstream', 'std::basic_istringstream', 'std::basic_ostringstream')
def c_stream(ip, e, fn, t, args):
    return Obj(t['base'], {})


# ------------------------------------------------------------------ utility
@model('std::move', 'std::forward', 'std::move_if_noexcept', 'std::as_const', 'std::addressof', 'std::ref', 'std::cref', 'std::launder')
def m_move(ip, fn, this, args, node):
    if len(args) == 3:     # algorithm std::move
        return m_copy(ip, fn, this, args, node)
    a = args[0]
    if isinstance(a, Ptr) and fn['n'] == 'move' and ip.T(fn['pt'][0])['k'] == 'ref':
        ip.st.ev = ip.st.ev  # location only; the consuming constructor empties the source
    return a


@model('std::min', 'std::max')
def m_minmax(ip, fn, this, args, node):
    if len(args) == 1:
        s = ip.seq_of(A(ip, fn, args, 0, node), node)
        vs = [p.v for p in s.parts]
        cur = vs[0]
        for x in vs[1:]:
            if fn['n'] == 'min':
                if ip.value_lt(x, cur, node):
                    cur = x
            elif ip.value_lt(cur, x, node):
                cur = x
        return cur
    a, b = ip.load(args[0], node), ip.load(args[1], node)
    if len(args) == 3:
        lt = lambda x, y: ip.truth(ip.invoke(args[2], [x, y], node))
        c = lt(args[1], args[0]) if fn['n'] == 'min' else lt(args[0], args[1])
    else:
        c = ip.value_lt(b, a, node) if fn['n'] == 'min' else ip.value_lt(a, b, node)
    return args[1] if c else args[0]


@model('std::clamp')
def m_clamp(ip, fn, this, args, node):
    v, lo, hi = [ip.load(x, node) for x in args[:3]]
    if ip.value_lt(v, lo, node):
        return args[1]
    if ip.value_lt(hi, v, node):
        return args[2]
    return args[0]


@model('std::swap')
def m_swap(ip, fn, this, args, node):
    a, b = ip.load(args[0], node), ip.load(args[1], node)
    ip.store(args[0], b, node)
    ip.store(args[1], a, node)
    return VOID


@model('std::exchange')
def m_exchange(ip, fn, this, args, node):
    a = ip.load(args[0], node)
    ip.store(args[0], convert(ip, A(ip, fn, args, 1, node), deref_t(ip, fn['pt'][1])[0], deref_t(ip, fn['pt'][0])[0], node), node)
    return a


@model('std::next', 'std::prev')
def m_next(ip, fn, this, args, node):
    it = A(ip, fn, args, 0, node)
    d = A(ip, fn, args, 1, node) if len(args) > 1 else ONE
    if fn['n'] == 'prev':
        d = d.scale(-1)
    return ip.ptr_add(it, d, node)


@model('std::advance')
def m_advance(ip, fn, this, args, node):
    it = ip.load(args[0], node)
    ip.store(args[0], ip.ptr_add(it, A(ip, fn, args, 1, node), node), node)
    return VOID


@model('std::distance')
def m_distance(ip, fn, this, args, node):
    a, b = A(ip, fn, args, 0, node), A(ip, fn, args, 1, node)
    return iter_diff(ip, b, a, node)


def iter_diff(ip, a, b, node):
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.cell == b.cell and a.path[:-1] == b.path[:-1]:
        x, y = a.path[-1][1], b.path[-1][1]
        return L(x) - L(y)
    return ip.top('iterator difference', node)


@model('std::make_pair')
def m_make_pair(ip, fn, this, args, node):
    return Obj('std::pair', {'first': mv_arg(ip, fn, args, 0, node), 'second': mv_arg(ip, fn, args, 1, node)})


@model('std::make_tuple')
def m_make_tuple(ip, fn, this, args, node):
    return Tup([mv_arg(ip, fn, args, i, node) for i in range(len(args))])


@model('std::tie', 'std::forward_as_tuple')
def m_tie(ip, fn, this, args, node):
    return Tup(args, [True] * len(args))


@model('std::tuple::operator=')
def m_tuple_assign(ip, fn, this, args, node):
    t = ip.load(this, node)
    v = A(ip, fn, args, 0, node)
    xs = [v.f['first'], v.f['second']] if isinstance(v, Obj) else list(v.v)
    if all(isinstance(x, Ptr) for x in t.v):
        refs = [isinstance(x, Ptr) and isinstance(ip.load(p, node), (Lin, Str, Seq, Obj, Opt, Sym)) for p, x in zip(t.v, xs)]
        for p, x, r in zip(t.v, xs, refs):
            ip.store(p, ip.load(x, node) if r else ip.force(x), node)
    else:
        ip.store(this, Tup(xs), node)
    return this


@model('std::make_unique', 'std::make_shared')
def m_make_unique(ip, fn, this, args, node):
    rt = ip.T(fn['rt'])
    tid = rt['args'][0]
    v = make(ip, tid, args, fn['pt'], node)
    return UPtr(ip.alloc(v, 'n'))


@model('std::unique_ptr::get', 'std::shared_ptr::get')
def m_uget(ip, fn, this, args, node):
    v = ip.load(this, node)
    return v.p() if isinstance(v, UPtr) else v


@model('std::unique_ptr::operator->', 'std::unique_ptr::operator*', 'std::shared_ptr::operator->', 'std::shared_ptr::operator*')
def m_uderef(ip, fn, this, args, node):
    v = ip.load(this, node)
    if isinstance(v, UPtr):
        ip.oblige(v.t is not None, 'null pointer dereferenced', node, 'empty smart pointer')
        return v.t
    return v


@model('std::unique_ptr::operator bool', 'std::shared_ptr::operator bool')
def m_ubool(ip, fn, this, args, node):
    v = ip.load(this, node)
    return L(int(v.t is not None)) if isinstance(v, UPtr) else v


@model('std::unique_ptr::release')
def m_urelease(ip, fn, this, args, node):
    v = ip.load(this, node)
    ip.store(this, UPtr(None), node)
    return v.p()


@model('std::unique_ptr::reset')
def m_ureset(ip, fn, this, args, node):
    v = A(ip, fn, args, 0, node) if args else NULL
    old = ip.load(this, node)
    ip.store(this, UPtr(v if isinstance(v, Ptr) else None, getattr(old, 'd', None)), node)
    drop_uptr(ip, old, fn)
    return VOID


def drop_uptr(ip, old, fn):
    t = fn.get('cls')
    if isinstance(old, UPtr) and t is not None and ip.needs_dtor(t):
        ip.destroy_uptr(old, ip.T(t))


@model('std::unique_ptr::operator=')
def m_uassign(ip, fn, this, args, node):
    v = args[0]
    old = ip.load(this, node)
    if isinstance(v, Ptr) and ip.T(fn['pt'][0])['k'] == 'ref':
        x = ip.load(v, node)
        ip.store(v, UPtr(None), node)
    else:
        x = UPtr(None)
    ip.store(this, x, node)
    drop_uptr(ip, old, fn)
    return this


@model('std::get')
def m_get(ip, fn, this, args, node):
    a = args[0]
    tid, t = deref_t(ip, fn['pt'][0])
    p = a if isinstance(a, Ptr) else ip.alloc(a, 't')
    k = fn['targs'][0]
    if t['base'] == 'std::variant':
        i = k['i'] if isinstance(k, dict) else alt_index(ip, t, k)
        v = ip.load(p, node)
        if isinstance(v, Top):
            return v
        ip.oblige(v.i == i, 'variant accessed in the wrong state', node, 'holds alternative %d, alternative %s requested' % (v.i, i))
        return p.ext(('v', i))
    i = k['i'] if isinstance(k, dict) else None
    if t['base'] == 'std::pair':
        return p.ext(('f', 'second' if i else 'first'))
    if t['base'] == 'std::tuple':
        v = ip.load(p)
        x = v.v[i]
        return x if isinstance(x, Ptr) else p.ext(('f', str(i)))
    if t['base'] == 'std::array':
        return p.ext(('i', Lin(i)))
    return ip.top('std::get', node)


@model('std::get_if')
def m_get_if(ip, fn, this, args, node):
    p = args[0]
    if not isinstance(p, Ptr) or p.cell is None:
        return NULL
    tid = ip.T(fn['pt'][0])['to']
    t = ip.T(tid)
    k = fn['targs'][0]
    i = k['i'] if isinstance(k, dict) else alt_index(ip, t, k)
    v = ip.peek(p, node)
    if isinstance(v, Top):
        ip.taint(v.why)
        return NULL if ip.choose(2) else ip.alloc(v)
    return p.ext(('v', i)) if ip.alt_is(v, i, node) else NULL


@model('std::holds_alternative')
def m_holds(ip, fn, this, args, node):
    v = ip.peek(args[0], node) if isinstance(args[0], Ptr) else ip.force(args[0])
    if isinstance(v, Top):
        return v
    t = deref_t(ip, fn['pt'][0])[1]
    return L(int(ip.alt_is(v, alt_index(ip, t, fn['targs'][0]), node)))


@model('std::variant::index')
def m_vindex(ip, fn, this, args, node):
    v = ip.load(this, node)
    return v if isinstance(v, Top) else Lin(v.i)


@model('std::variant::operator=')
def m_vassign(ip, fn, this, args, node):
    t = ip.T(fn['cls'])
    ip.store(this, c_variant(ip, node, fn, t, args), node)
    return this


@model('std::variant::emplace')
def m_vemplace(ip, fn, this, args, node):
    t = ip.T(fn['cls'])
    k = fn['targs'][0]
    i = k['i'] if isinstance(k, dict) else alt_index(ip, t, k)
    ip.store(this, Var(i, make(ip, t['args'][i], args, fn['pt'], node)), node)
    return this.ext(('v', i))


@model('std::visit')
def m_visit(ip, fn, this, args, node):
    v = A(ip, fn, args, 1, node)
    if isinstance(v, Top):
        return v
    if len(args) != 2:
        return ip.top('visit of several variants', node)
    p = args[1] if isinstance(args[1], Ptr) else ip.alloc(v, 't')
    t = deref_t(ip, fn['pt'][1])[1]
    return ip.invoke(args[0], [p.ext(('v', v.i))], node, [t['args'][v.i]] if t.get('base') == 'std::variant' else None)


# optional
@model('std::optional::has_value', 'std::optional::operator bool')
def m_has(ip, fn, this, args, node):
    v = ip.load(this, node)
    return v if isinstance(v, Top) else L(int(v.v is not None))


@model('std::optional::operator*', 'std::optional::operator->', 'std::optional::value')
def m_oderef(ip, fn, this, args, node):
    v = ip.load(this, node)
    if isinstance(v, Top):
        return v
    ip.oblige(v.v is not None, 'empty optional accessed', node)
    return this.ext(('o',))


@model('std::optional::value_or')
def m_value_or(ip, fn, this, args, node):
    v = ip.load(this, node)
    if isinstance(v, Top):
        return v
    if v.v is not None:
        return ip.force(v.v)
    return convert(ip, A(ip, fn, args, 0, node), deref_t(ip, fn['pt'][0])[0], ip.T(fn['cls'])['args'][0], node)


@model('std::optional::reset')
def m_oreset(ip, fn, this, args, node):
    ip.store(this, Opt(None), node)
    return VOID


@model('std::optional::emplace')
def m_oemplace(ip, fn, this, args, node):
    ip.store(this, Opt(make(ip, ip.T(fn['cls'])['args'][0], args, fn['pt'], node)), node)
    return this.ext(('o',))


@model('std::optional::operator=')
def m_oassign(ip, fn, this, args, node):
    ip.store(this, c_opt(ip, node, fn, ip.T(fn['cls']), args), node)
    return this


@model('std::make_optional')
def m_make_optional(ip, fn, this, args, node):
    return Opt(mv_arg(ip, fn, args, 0, node))


def flip(op):
    return {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op]


def cmp_op(ip, fn, this, args, node):
    op = fn['n'][len('operator'):]
    def arg(i):
        pt = fn.get('pt', ())
        if op in ('==', '!=') and isinstance(args[i], Ptr) and (i >= len(pt) or ip.T(pt[i])['k'] == 'ref'):
            return ip.peek(args[i], node)
        return A(ip, fn, args, i, node)

    if this is not None:
        a = ip.load(this, node)
        b = arg(0)
    else:
        a, b = arg(0), arg(1)
    if isinstance(a, Obj) and a.cls in ('ordering',):
        x = a.f['v']
        return L(int(ip.compare(op, x, ZERO, node)))
    if op == '<=>':
        if ip.value_lt(a, b, node):
            return Obj('ordering', {'v': Lin(-1)})
        if ip.value_lt(b, a, node):
            return Obj('ordering', {'v': ONE})
        return Obj('ordering', {'v': ZERO})
    if op in ('==', '!='):
        if isinstance(a, UPtr) or isinstance(b, UPtr):
            x = a.p() if isinstance(a, UPtr) else a
            y = b.p() if isinstance(b, UPtr) else b
            r = ip.cmp_ptr('==', x, y, node)
        else:
            r = ip.value_eq(a, b, node)
        return L(int(r == (op == '==')))
    if op == '<':
        return L(int(ip.value_lt(a, b, node)))
    if op == '>':
        return L(int(ip.value_lt(b, a, node)))
    if op == '<=':
        return L(int(not ip.value_lt(b, a, node)))
    return L(int(not ip.value_lt(a, b, node)))


def plus_op(ip, fn, this, args, node):
    if this is not None:
        a = ip.load(this, node)
        b = A(ip, fn, args, 0, node)
    else:
        a, b = A(ip, fn, args, 0, node), A(ip, fn, args, 1, node)
    if isinstance(a, Ptr) and isinstance(b, Lin):
        return ip.ptr_add(a, b, node)
    if isinstance(b, Ptr) and isinstance(a, Lin):
        return ip.ptr_add(b, a, node)

    def s(x):
        if isinstance(x, Lin):
            return Str((chr(x.c & 0xff),)) if x.const is not None else Str((('fmt', '%c', x),))
        return ip.str_of(x, node)
    return s(a) + s(b)


def minus_op(ip, fn, this, args, node):
    if this is not None:
        a = ip.load(this, node)
        b = A(ip, fn, args, 0, node)
    else:
        a, b = A(ip, fn, args, 0, node), A(ip, fn, args, 1, node)
    if isinstance(b, Lin):
        return ip.ptr_add(a, b.scale(-1), node)
    return iter_diff(ip, a, b, node)


# iterators
@model('iter::operator++', 'iter::operator--')
def m_iter_inc(ip, fn, this, args, node):
    it = ip.load(this, node)
    d = ONE if fn['n'].endswith('++') else Lin(-1)
    new = ip.ptr_add(it, d, node)
    ip.store(this, new, node)
    return it if args else this


@model('iter::operator*', 'iter::operator->')
def m_iter_deref(ip, fn, this, args, node):
    it = ip.load(this, node)
    if isinstance(it, Ptr):
        if it.path and it.path[-1][0] == 'i':
            check_deref(ip, it, node)
        return it
    return it


def check_deref(ip, it, node):
    v = ip.load(Ptr(it.cell, it.path[:-1]), node)
    if isinstance(v, Seq):
        ip.bounds_ok(v, it.path[-1][1], node)


@model('iter::operator+', 'iter::operator-')
def m_iter_plus(ip, fn, this, args, node):
    return (plus_op if fn['n'] == 'operator+' else minus_op)(ip, fn, this, args, node)


@model('iter::operator+=', 'iter::operator-=')
def m_iter_pluseq(ip, fn, this, args, node):
    it = ip.load(this, node)
    d = A(ip, fn, args, 0, node)
    ip.store(this, ip.ptr_add(it, d if fn['n'].endswith('+=') else d.scale(-1), node), node)
    return this


@model('iter::operator[]')
def m_iter_idx(ip, fn, this, args, node):
    return ip.ptr_add(ip.load(this, node), A(ip, fn, args, 0, node), node)


@model('iter::operator=')
def m_iter_assign(ip, fn, this, args, node):
    ip.store(this, A(ip, fn, args, 0, node), node)
    return this


@model('iter::base')
def m_iter_base(ip, fn, this, args, node):
    return ip.load(this, node)


# ------------------------------------------------------------------ vector
def seqv(ip, this, node):
    v = ip.load(this, node)
    if isinstance(v, Top):
        return None, v
    if isinstance(v, Seq):
        return v, None
    return None, ip.top('sequence operation on %r' % (v,), node)


@model('vec::begin', 'vec::cbegin', 'vec::data', 'str::begin', 'str::cbegin')
def m_begin(ip, fn, this, args, node):
    return this.ext(('i', ZERO))


@model('vec::end', 'vec::cend')
def m_end(ip, fn, this, args, node):
    s, t = seqv(ip, this, node)
    return t if s is None else this.ext(('i', s.len()))


@model('std::begin', 'std::cbegin', 'std::data')
def m_sbegin(ip, fn, this, args, node):
    return gen_begin(ip, args[0], node)


@model('std::end', 'std::cend')
def m_send(ip, fn, this, args, node):
    return gen_end(ip, args[0], node)


@model('std::size', 'std::ssize')
def m_ssize(ip, fn, this, args, node):
    v = A(ip, fn, args, 0, node)
    if isinstance(v, View):
        return v.n
    if isinstance(v, Str):
        return ip.str_len(v)
    return v.len() if isinstance(v, Seq) else v


@model('std::empty')
def m_sempty(ip, fn, this, args, node):
    v = m_ssize(ip, fn, this, args, node)
    return L(int(not ip.truth(v, node)))


def gen_begin(ip, p, node):
    v = ip.load(p, node)
    if isinstance(v, View):
        return v.p.ext(('i', v.off))
    if isinstance(v, MapV):
        return p.ext(v.key(0))
    return p.ext(('i', ZERO))


def gen_end(ip, p, node):
    v = ip.load(p, node)
    if isinstance(v, View):
        return v.p.ext(('i', v.off + v.n))
    if isinstance(v, MapV):
        return p.ext(('m', -1))
    if isinstance(v, Str):
        return p.ext(('i', ip.str_len(v)))
    if isinstance(v, Seq):
        return p.ext(('i', v.len()))
    return ip.top('end', node)


@model('vec::size')
def m_size(ip, fn, this, args, node):
    s, t = seqv(ip, this, node)
    return t if s is None else s.len()


@model('vec::empty')
def m_empty(ip, fn, this, args, node):
    s, t = seqv(ip, this, node)
    return t if s is None else L(int(ip.branch('le0', s.len(), node)))


@model('vec::operator[]', 'vec::at')
def m_index(ip, fn, this, args, node):
    s, t = seqv(ip, this, node)
    i = A(ip, fn, args, 0, node)
    if s is None or isinstance(i, Top):
        return t if s is None else i
    ip.sites.add(('index', ip.loc(node)))
    if not (i.const is not None and 0 <= i.c < len(s.parts) and s.concrete()):
        i = ip.bounds_ok(s, i, node)
    return this.ext(('i', i))


@model('vec::back', 'vec::front')
def m_back(ip, fn, this, args, node):
    s, t = seqv(ip, this, node)
    if s is None:
        return t
    ip.oblige(('le0', s.len().scale(-1) + 1), 'back/front of an empty container', node)
    return this.ext(('i', s.len() - 1 if fn['n'] == 'back' else ZERO))


@model('vec::push_back', 'vec::emplace_back')
def m_push_back(ip, fn, this, args, node):
    s, t = seqv(ip, this, node)
    if s is None:
        ip.taint(t.why)
        return t
    el = ip.T(fn['cls'])['args'][0]
    v = make(ip, el, args, fn['pt'], node)
    if s.log:
        ip.taint('append to updated array')
        return VOID
    ip.store(this, Seq(s.parts + (E(v),), s.tid), node)
    return this.ext(('i', s.len())) if fn['n'] == 'emplace_back' else VOID


@model('vec::pop_back', 'vec::pop_front')
def m_pop_back(ip, fn, this, args, node):
    s, t = seqv(ip, this, node)
    if s is None:
        return t
    ip.oblige(('le0', s.len().scale(-1) + 1), 'pop of an empty container', node)
    if fn['n'] == 'pop_front':
        a, b = ip.seq_split(s, ONE, node)
        ip.store(this, Seq(b, s.tid), node)
        return VOID
    if isinstance(s.parts[-1], E):
        ip.store(this, Seq(s.parts[:-1], s.tid, s.log), node)
    else:
        a, b = ip.seq_split(s, s.len() - 1, node)
        ip.store(this, Seq(a, s.tid), node)
    return VOID


@model('vec::clear')
def m_clear(ip, fn, this, args, node):
    s, t = seqv(ip, this, node)
    ip.store(this, Seq((), s.tid if s is not None else None), node)
    return VOID


@model('vec::reserve', 'vec::shrink_to_fit', 'str::reserve', 'map::reserve', 'set::reserve')
def m_reserve(ip, fn, this, args, node):
    return VOID


@model('vec::capacity')
def m_cap(ip, fn, this, args, node):
    return ip.top('capacity', node)


@model('vec::resize')
def m_resize(ip, fn, this, args, node):
    s, t = seqv(ip, this, node)
    n = A(ip, fn, args, 0, node)
    if s is None or isinstance(n, Top):
        ip.store(this, t or n, node)
        return VOID
    el = ip.T(fn['cls'])['args'][0]
    cur = s.len()
    if ip.branch('le0', n - cur, node):
        r = ip.seq_slice(s, ZERO, n, node)
        ip.store(this, r if r is not None else ip.top('resize', node), node)
        return VOID
    extra = n - cur
    fill = A(ip, fn, args, 1, node) if len(args) > 1 else ip.default_value(el, node, True)
    if extra.const is not None and extra.c <= 256:
        new = Seq(s.parts + tuple(E(fill) for _ in range(extra.c)), s.tid)
    else:
        new = Seq(s.parts + (C(atom(('s', '@k'), 0, INF), extra, fill),), s.tid)
    ip.store(this, new, node)
    return VOID


@model('vec::insert', 'vec::emplace')
def m_insert(ip, fn, this, args, node):
    s, t = seqv(ip, this, node)
    if s is None:
        return t
    pos = A(ip, fn, args, 0, node)
    if not isinstance(pos, Ptr):
        return ip.top('insert', node)
    i = pos.path[-1][1]
    el = ip.T(fn['cls'])['args'][0]
    if fn['n'] == 'insert' and len(args) == 3:
        a, b = A(ip, fn, args, 1, node), A(ip, fn, args, 2, node)
        if isinstance(a, Ptr):
            r = range_seq(ip, a, b, node)
            mid = r.parts if isinstance(r, Seq) else None
        elif isinstance(a, Lin) and a.const is not None:
            mid = tuple(E(b) for _ in range(a.c))
        else:
            mid = None
        if mid is None:
            ip.taint('insert')
            return ip.top('insert', node)
    else:
        v = make(ip, el, args[1:], fn['pt'][1:], node)
        if isinstance(v, Seq):
            mid = v.parts
        else:
            mid = (E(v),)
    ip.oblige(('le0', i - s.len()), 'insert position past the end', node)
    a, b = ip.seq_split(s, i, node)
    ip.store(this, Seq(a + tuple(mid) + b, s.tid), node)
    return this.ext(('i', i))


@model('vec::erase')
def m_erase(ip, fn, this, args, node):
    s, t = seqv(ip, this, node)
    if s is None:
        return t
    a = A(ip, fn, args, 0, node)
    i = a.path[-1][1]
    if len(args) == 2:
        j = A(ip, fn, args, 1, node).path[-1][1]
    else:
        j = i + 1
    ip.oblige(('le0', i - j), 'erase of an inverted range', node)
    ip.oblige(('le0', j - s.len()), 'erase past the end', node)
    pa, pb = ip.seq_split(s, j, node)
    pa, _ = ip.seq_split(Seq(pa, s.tid), i, node)
    ip.store(this, Seq(pa + pb, s.tid), node)
    return this.ext(('i', i))


@model('vec::operator=')
def m_vecassign(ip, fn, this, args, node):
    v = mv_arg(ip, fn, args, 0, node)
    s = ip.seq_of(v, node)
    ip.store(this, s if s is not None else v, node)
    return this


@model('vec::assign')
def m_assign(ip, fn, this, args, node):
    a = A(ip, fn, args, 0, node)
    if len(args) == 2:
        b = A(ip, fn, args, 1, node)
        if isinstance(a, Ptr):
            r = range_seq(ip, a, b, node)
            ip.store(this, r, node)
            return VOID
        if isinstance(a, Lin):
            el = ip.T(fn['cls'])['args'][0]
            ip.store(this, Seq([E(b)] * a.c, el) if a.const is not None and a.c < 100000 else Seq((C(atom(('s', '@k'), 0, INF), a, b),), el), node)
            return VOID
    s = ip.seq_of(a, node)
    ip.store(this, s if s is not None else ip.top('assign', node), node)
    return VOID


@model('vec::swap', 'map::swap', 'str::swap')
def m_vswap(ip, fn, this, args, node):
    return m_swap(ip, fn, None, [this, args[0]], node)


@model('vec::rbegin', 'vec::rend', 'vec::crbegin', 'vec::crend', 'map::rbegin', 'map::rend', 'set::rbegin', 'set::rend', 'str::rbegin', 'str::rend')
def m_rbegin(ip, fn, this, args, node):
    return Obj('std::reverse_iterator', {'b': (gen_end if 'rbegin' in fn['n'] or 'crbegin' in fn['n'] else gen_begin)(ip, this, node)})


@model('std::make_reverse_iterator')
def m_mkrev(ip, fn, this, args, node):
    return Obj('std::reverse_iterator', {'b': A(ip, fn, args, 0, node)})


def rev_at(ip, v, node, d=-1):
    if not isinstance(v, Obj) or 'b' not in v.f:
        return ip.top('reverse iterator', node)
    return ip.ptr_add(v.f['b'], L(d), node)


@model('std::reverse_iterator::operator++', 'std::reverse_iterator::operator--')
def m_rev_inc(ip, fn, this, args, node):
    v = ip.load(this, node)
    b = rev_at(ip, v, node, -1 if fn['n'].endswith('++') else 1)
    if isinstance(b, Top):
        return b
    ip.store(this, Obj('std::reverse_iterator', {'b': b}), node)
    return v if args else this


@model('std::reverse_iterator::operator*', 'std::reverse_iterator::operator->')
def m_rev_deref(ip, fn, this, args, node):
    b = rev_at(ip, ip.load(this, node), node)
    if isinstance(b, Ptr) and b.path and b.path[-1][0] == 'i':
        check_deref(ip, b, node)
    return b


@model('std::reverse_iterator::base')
def m_rev_base(ip, fn, this, args, node):
    v = ip.load(this, node)
    return v.f['b'] if isinstance(v, Obj) else v


# span
@model('absl::Span::size', 'absl::Span::length')
def m_spsize(ip, fn, this, args, node):
    v = ip.load(this, node)
    return v.n if isinstance(v, View) else (v.len() if isinstance(v, Seq) else v)


@model('absl::Span::empty')
def m_spempty(ip, fn, this, args, node):
    n = m_spsize(ip, fn, this, args, node)
    return n if isinstance(n, Top) else L(int(ip.branch('le0', n, node)))


@model('absl::Span::operator[]', 'absl::Span::at')
def m_spidx(ip, fn, this, args, node):
    v = ip.load(this, node)
    i = A(ip, fn, args, 0, node)
    if isinstance(v, Top):
        return v
    if isinstance(v, Seq):
        return this.ext(('i', i))
    ip.oblige(('le0', i.scale(-1)), 'index below start', node)
    ip.oblige(('le0', ip.expand(i - v.n + 1)), 'index past the end', node, 'index %r, span size %r' % (i, v.n))
    return v.p.ext(('i', v.off + i))


@model('absl::Span::front', 'absl::Span::back')
def m_spfront(ip, fn, this, args, node):
    v = ip.load(this, node)
    if not isinstance(v, View):
        return v if isinstance(v, Top) else this.ext(('i', ZERO))
    ip.oblige(('le0', v.n.scale(-1) + 1), 'front of an empty span', node)
    return v.p.ext(('i', v.off if fn['n'] == 'front' else v.off + v.n - 1))


@model('absl::Span::begin', 'absl::Span::data', 'absl::Span::cbegin')
def m_spbegin(ip, fn, this, args, node):
    v = ip.load(this, node)
    return v.p.ext(('i', v.off)) if isinstance(v, View) else this.ext(('i', ZERO))


@model('absl::Span::end', 'absl::Span::cend')
def m_spend(ip, fn, this, args, node):
    v = ip.load(this, node)
    return v.p.ext(('i', v.off + v.n)) if isinstance(v, View) else this.ext(('i', v.len()))


@model('absl::Span::remove_prefix', 'absl::Span::remove_suffix')
def m_sprp(ip, fn, this, args, node):
    v = ip.load(this, node)
    n = A(ip, fn, args, 0, node)
    if not isinstance(v, View):
        return ip.top('remove_prefix', node)
    ip.oblige(('le0', n - v.n), 'span prefix larger than the span', node)
    ip.store(this, View(v.p, v.off + n, v.n - n) if fn['n'] == 'remove_prefix' else View(v.p, v.off, v.n - n), node)
    return VOID


@model('absl::Span::subspan', 'absl::Span::first')
def m_subspan(ip, fn, this, args, node):
    v = ip.load(this, node)
    if not isinstance(v, View):
        return ip.top('subspan', node)
    i = A(ip, fn, args, 0, node)
    if fn['n'] == 'first':
        ip.oblige(('le0', i - v.n), 'span range', node)
        return View(v.p, v.off, i)
    ip.oblige(('le0', i - v.n), 'span range', node)
    n = A(ip, fn, args, 1, node) if len(args) > 1 else v.n - i
    if not ip.branch('le0', i + n - v.n, node):
        n = v.n - i
    return View(v.p, v.off + i, n)


@model('absl::Span::operator=')
def m_spassign(ip, fn, this, args, node):
    ip.store(this, to_view(ip, args[0], node), node)
    return this


@model('absl::MakeConstSpan', 'absl::MakeSpan')
def m_mkspan(ip, fn, this, args, node):
    if len(args) == 2:
        p, n = A(ip, fn, args, 0, node), A(ip, fn, args, 1, node)
        if isinstance(p, Ptr) and isinstance(n, Lin) and p.path and p.path[-1][0] == 'i':
            return View(Ptr(p.cell, p.path[:-1]), p.path[-1][1], n)
        if isinstance(p, Ptr) and isinstance(n, Ptr) and p.path[:-1] == n.path[:-1]:
            return View(Ptr(p.cell, p.path[:-1]), p.path[-1][1], n.path[-1][1] - p.path[-1][1])
        return ip.top('MakeConstSpan', node)
    return to_view(ip, args[0], node)


# ------------------------------------------------------------------ algorithms
@model('std::upper_bound', 'std::lower_bound')
def m_bound(ip, fn, this, args, node):
    h = ip.hooks.get('algo:bound')
    first, last = A(ip, fn, args, 0, node), A(ip, fn, args, 1, node)
    valp = args[2] if isinstance(args[2], Ptr) else ip.alloc(args[2], 't')
    comp = args[3] if len(args) > 3 else None
    upper = fn['n'] == 'upper_bound'

    def test(p):
        """true when the partition point is at or before p"""
        if comp is not None:
            if upper:
                return ip.truth(ip.invoke(comp, [valp, p], node))
            return not ip.truth(ip.invoke(comp, [p, valp], node))
        a, b = ip.load(valp, node), ip.load(p, node)
        return ip.value_lt(a, b, node) if upper else not ip.value_lt(b, a, node)
    if h:
        r = h(ip, fn, first, last, valp, test, node)
        if r is not NotImplemented:
            return r
    p = first
    for _ in range(200):
        if ip.cmp_ptr('==', p, last, node):
            return p
        if test(p):
            return p
        p = ip.ptr_add(p, ONE, node)
    raise PathEnd('unknown', 'binary search over a long sequence at %s' % ip.loc(node))


def find_loop(ip, first, last, node, pred):
    p = first
    n = 0
    if isinstance(first, Obj) and first.cls == 'std::reverse_iterator' and isinstance(last, Obj):
        p, end = first.f['b'], last.f['b']
        while True:
            d0 = len(ip.frame.dec)
            if ip.cmp_ptr('==', p, end, node):
                return last
            if len(ip.frame.dec) != d0:
                n += 1
                if n > ip.unroll:
                    raise PathEnd('cut', 'unrolling bound at %s' % ip.loc(node))
            q = ip.ptr_add(p, Lin(-1), node)
            if pred(q):
                return Obj('std::reverse_iterator', {'b': p})
            p = q
    while True:
        d0 = len(ip.frame.dec)
        if ip.cmp_ptr('==', p, last, node):
            return last
        if len(ip.frame.dec) != d0:
            n += 1
            if n > ip.unroll:
                raise PathEnd('cut', 'unrolling bound at %s' % ip.loc(node))
        if pred(p):
            return p
        p = ip.ptr_add(p, ONE, node)


@model('std::find', 'std::find_if', 'std::find_if_not')
def m_find(ip, fn, this, args, node):
    first, last = A(ip, fn, args, 0, node), A(ip, fn, args, 1, node)
    if fn['n'] == 'find':
        v = A(ip, fn, args, 2, node)
        return find_loop(ip, first, last, node, lambda p: ip.value_eq(ip.load(p, node), v, node))
    neg = fn['n'] == 'find_if_not'
    return find_loop(ip, first, last, node, lambda p: ip.truth(ip.invoke(args[2], [p], node)) != neg)


@model('std::any_of', 'std::all_of', 'std::none_of')
def m_anyof(ip, fn, this, args, node):
    first, last = A(ip, fn, args, 0, node), A(ip, fn, args, 1, node)
    want = fn['n'] != 'all_of'
    p = find_loop(ip, first, last, node, lambda q: ip.truth(ip.invoke(args[2], [q], node)) == want)
    found = not ip.cmp_ptr('==', p, last, node)
    return L(int(found if fn['n'] == 'any_of' else not found))


@model('std::for_each')
def m_foreach(ip, fn, this, args, node):
    first, last = A(ip, fn, args, 0, node), A(ip, fn, args, 1, node)

    def f(p):
        ip.invoke(args[2], [p], node)
        return False
    find_loop(ip, first, last, node, f)
    return args[2]


@model('std::equal')
def m_equal(ip, fn, this, args, node):
    a, b, c = (A(ip, fn, args, i, node) for i in range(3))
    s1 = range_seq(ip, a, b, node)
    if not isinstance(s1, Seq):
        return s1
    pred = args[-1] if len(args) > 3 and ip.is_callable(args[-1]) else None
    if len(args) - (pred is not None) > 3:
        s2 = range_seq(ip, c, A(ip, fn, args, 3, node), node)
    else:
        s2 = range_seq(ip, c, ip.ptr_add(c, s1.len(), node), node)
    if not isinstance(s2, Seq):
        return s2
    if pred is None:
        return L(int(ip.seq_eq(s1, s2, node)))
    if not ip.branch('eq0', s1.len() - s2.len(), node):
        return ZERO
    q = [c]

    def differ(p):
        if not ip.truth(ip.invoke(pred, [p, q[0]], node), node):
            return True
        q[0] = ip.ptr_add(q[0], ONE, node)
        return False
    return L(int(ip.cmp_ptr('==', find_loop(ip, a, b, node, differ), b, node)))


@model('std::mismatch')
def m_mismatch(ip, fn, this, args, node):
    a, b, c = (A(ip, fn, args, i, node) for i in range(3))
    pred = args[-1] if len(args) > 3 and ip.is_callable(args[-1]) else None
    end = A(ip, fn, args, 3, node) if len(args) - (pred is not None) > 3 else None
    q = [c]

    def f(p):
        if end is not None and ip.cmp_ptr('==', q[0], end, node):
            return True
        if not (ip.value_eq(ip.load(p, node), ip.load(q[0], node), node) if pred is None else ip.truth(ip.invoke(pred, [p, q[0]], node), node)):
            return True
        q[0] = ip.ptr_add(q[0], ONE, node)
        return False
    r = find_loop(ip, a, b, node, f)
    return Obj('std::pair', {'first': r, 'second': q[0]})


@model('std::copy', 'std::copy_n', 'std::memcpy', 'memcpy')
def m_copy(ip, fn, this, args, node):
    n = fn['n']
    if n in ('memcpy',):
        dst, src, k = (A(ip, fn, args, i, node) for i in range(3))
        end = ip.ptr_add(src, k, node)
        first = src
    elif n == 'copy_n':
        first, k, dst = (A(ip, fn, args, i, node) for i in range(3))
        end = ip.ptr_add(first, k, node)
    elif n in ('copy', 'move'):
        first, end, dst = (A(ip, fn, args, i, node) for i in range(3))
    s = range_seq(ip, first, end, node)
    if not isinstance(s, Seq):
        ip.taint('copy')
        return s
    if isinstance(dst, Obj) and dst.cls == 'inserter':
        tgt = dst.f['c']
        old = ip.load(tgt, node)
        ip.store(tgt, Seq(old.parts + s.parts, old.tid), node)
        return dst
    if isinstance(dst, Ptr) and dst.path and dst.path[-1][0] == 'i':
        write_range(ip, dst, s, node)
        return ip.ptr_add(dst, s.len(), node)
    ip.taint('copy')
    return ip.top('copy', node)


def write_range(ip, dst, s, node):
    base = Ptr(dst.cell, dst.path[:-1])
    old = ip.load(base, node)
    i = dst.path[-1][1]
    if not isinstance(old, Seq):
        ip.taint('range store')
        return
    n = s.len()
    ip.oblige(('le0', i.scale(-1)), 'range store below the start', node)
    ip.oblige(('le0', i + n - old.len()), 'range store past the end', node)
    if old.log:
        ip.taint('range store into updated array')
        return
    a, b = ip.seq_split(old, i, node)
    c, d = ip.seq_split(Seq(b, old.tid), n, node)
    ip.store(base, Seq(a + s.parts + d, old.tid), node)


@model('std::back_inserter')
def m_inserter(ip, fn, this, args, node):
    return Obj('inserter', {'c': args[0]})


@model('std::count', 'std::count_if')
def m_countif(ip, fn, this, args, node):
    first, last = A(ip, fn, args, 0, node), A(ip, fn, args, 1, node)
    n = [0]
    v = A(ip, fn, args, 2, node) if fn['n'] == 'count' else None

    def f(p):
        n[0] += bool(ip.value_eq(ip.load(p, node), v, node) if v is not None else ip.truth(ip.invoke(args[2], [p], node), node))
        return False
    find_loop(ip, first, last, node, f)
    return Lin(n[0])


@model('std::transform')
def m_transform(ip, fn, this, args, node):
    first, last = A(ip, fn, args, 0, node), A(ip, fn, args, 1, node)
    two = len(args) > 4
    second = A(ip, fn, args, 2, node) if two else None
    out = [A(ip, fn, args, 3 if two else 2, node)]
    st = [second]

    def f(p):
        x = ip.invoke(args[-1], [p] + ([st[0]] if two else []), node)
        x = ip.load(x, node) if isinstance(x, Ptr) else x
        if two:
            st[0] = ip.ptr_add(st[0], ONE, node)
        put(ip, out, x, node)
        return False
    find_loop(ip, first, last, node, f)
    return out[0]


def put(ip, out, x, node):
    o = out[0]
    if isinstance(o, Obj) and o.cls == 'inserter':
        c = ip.load(o.f['c'], node)
        if isinstance(c, Seq):
            ip.store(o.f['c'], Seq(c.parts + (E(x),), c.tid), node)
            return
        if isinstance(c, Str) and isinstance(x, Lin):
            ip.store(o.f['c'], c + Str((chr(x.c),) if x.const is not None else (('fmt', '%c', x),)), node)
            return
    elif isinstance(o, Ptr):
        ip.store(o, x, node)
        out[0] = ip.ptr_add(o, ONE, node)
        return
    ip.taint('output iterator')


@model('std::fill', 'std::fill_n')
def m_fill(ip, fn, this, args, node):
    v = A(ip, fn, args, 2, node)
    first = A(ip, fn, args, 0, node)
    if fn['n'] == 'fill':
        last = A(ip, fn, args, 1, node)
    else:
        last = ip.ptr_add(first, A(ip, fn, args, 1, node), node)

    def f(p):
        ip.store(p, v, node)
        return False
    find_loop(ip, first, last, node, f)
    return last if fn['n'] == 'fill_n' else VOID


@model('std::reverse')
def m_reverse(ip, fn, this, args, node):
    a, b = A(ip, fn, args, 0, node), A(ip, fn, args, 1, node)
    s = range_seq(ip, a, b, node)
    if not isinstance(s, Seq) or not s.concrete():
        ip.taint('std::reverse')
        return ip.top('std::reverse', node)
    if isinstance(ip.load(Ptr(a.cell, a.path[:-1]), node), Str):
        ip.taint('std::reverse')
        return VOID
    write_range(ip, a, Seq(tuple(reversed(s.parts)), s.tid), node)
    return VOID


@model('std::invoke')
def m_invoke(ip, fn, this, args, node):
    return ip.invoke(args[0], list(args[1:]), node)


@model('std::mem_fn')
def m_memfn(ip, fn, this, args, node):
    return A(ip, fn, args, 0, node)


@model('std::sort', 'std::stable_sort', 'std::unique', 'std::remove_if')
def m_algo_top(ip, fn, this, args, node):
    ip.taint('std::' + fn['n'])
    return ip.top('std::' + fn['n'], node)


@model('std::generate', 'std::generate_n')
def m_generate(ip, fn, this, args, node):
    first = A(ip, fn, args, 0, node)
    last = A(ip, fn, args, 1, node)
    if fn['n'] == 'generate_n':
        if not isinstance(first, Ptr):
            ip.taint('generate_n')
            return ip.top('generate_n', node)
        last = ip.ptr_add(first, last, node)

    def f(p):
        x = ip.invoke(args[2], [], node)
        ip.store(p, ip.load(x, node) if isinstance(x, Ptr) else x, node)
        return False
    find_loop(ip, first, last, node, f)
    return last if fn['n'] == 'generate_n' else VOID


@model('std::iota')
def m_iota(ip, fn, this, args, node):
    v = [A(ip, fn, args, 2, node)]
    t = deref_t(ip, fn['pt'][2])[0]
    if not isinstance(v[0], Lin) or ip.T(t)['k'] != 'int':
        ip.taint('iota')
        return VOID

    def f(p):
        ip.store(p, v[0], node)
        v[0] = ip.wrap(v[0] + 1, ip.T(t))
        return False
    find_loop(ip, A(ip, fn, args, 0, node), A(ip, fn, args, 1, node), node, f)
    return VOID


@model('std::accumulate')
def m_accumulate(ip, fn, this, args, node):
    t = deref_t(ip, fn['pt'][2])[0]
    acc = [A(ip, fn, args, 2, node)]

    def f(p):
        if len(args) > 3:
            x = ip.invoke(args[3], [acc[0], p], node)
            x = ip.load(x, node) if isinstance(x, Ptr) and ip.T(t)['k'] != 'ptr' else x
        else:
            x = ip.load(p, node)
            if isinstance(acc[0], Str):
                x = acc[0] + ip.str_of(x, node)
            else:
                x = acc[0] + x if isinstance(acc[0], Lin) and isinstance(x, Lin) else ip.top('accumulate', node)
        acc[0] = ip.wrap(x, ip.T(t)) if isinstance(x, Lin) and ip.T(t)['k'] in ('int', 'bool') else x
        return False
    find_loop(ip, A(ip, fn, args, 0, node), A(ip, fn, args, 1, node), node, f)
    return acc[0]


# ------------------------------------------------------------------ strings
@model('str::size', 'str::length')
def m_strsize(ip, fn, this, args, node):
    b = ip.load(this, node)
    if isinstance(b, Top):
        return b
    s = ip.str_of(b, node)
    lit = ip.str_bound(s)
    return Lin(len(lit)) if lit is not None else ip.str_len(s)


@model('str::empty')
def m_strempty(ip, fn, this, args, node):
    v = ip.load(this, node)
    if isinstance(v, Top):
        return v
    s = ip.str_of(v, node)
    lit = ip.str_bound(s)
    if lit is not None:
        return L(int(lit == ''))
    if any(isinstance(p, str) or (p[0] == 'fmt') for p in s.p):
        return ZERO
    return L(int(ip.str_eq(s, Str(()), node)))


@model('str::operator[]', 'str::at', 'str::front', 'str::back')
def m_stridx(ip, fn, this, args, node):
    v = ip.load(this, node)
    if isinstance(v, Top):
        return v
    s = ip.str_of(v, node)
    if fn['n'] == 'front':
        i = ZERO
    elif fn['n'] == 'back':
        i = ip.str_len(s) - 1
    else:
        i = A(ip, fn, args, 0, node)
    if isinstance(i, Top):
        return i
    if s.const is not None and not ip.T(fn['cls'])['base'].endswith('view') and not fn.get('constm'):
        return this.ext(('i', i))
    return ip.alloc(ip.char_at(s, i, node), 't')


@model('str::end', 'str::cend')
def m_strend(ip, fn, this, args, node):
    return this.ext(('i', ip.str_len(ip.str_of(ip.load(this, node), node))))


@model('str::c_str', 'str::data')
def m_cstr(ip, fn, this, args, node):
    return ip.load(this, node)


@model('str::operator basic_string_view', 'std::basic_string::operator basic_string_view')
def m_tosv(ip, fn, this, args, node):
    return ip.load(this, node)


@model('str::operator=', 'str::assign')
def m_strassign(ip, fn, this, args, node):
    if ip.T(fn['pt'][0])['k'] == 'int':
        c = A(ip, fn, args, 0, node)
        v = Str((chr(c.c & 0xff),)) if isinstance(c, Lin) and c.const is not None else Str((('fmt', '%c', c),))
    else:
        v = ip.str_of(mv_arg(ip, fn, args, 0, node), node)
        if len(args) == 2:
            v = ip.str_sub(v, ZERO, A(ip, fn, args, 1, node), node)
    ip.store(this, v, node)
    return this


@model('str::operator+=', 'str::append', 'str::push_back')
def m_strapp(ip, fn, this, args, node):
    s = ip.str_of(ip.load(this, node), node)
    v = A(ip, fn, args, 0, node)
    if isinstance(v, Lin):
        if len(args) == 2:
            c = A(ip, fn, args, 1, node)
            if v.const is None or c.const is None:
                ip.taint('append')
                return this
            x = Str((chr(c.c & 0xff) * v.c,))
        else:
            x = Str((ip.char_piece(v),))
    else:
        x = ip.str_of(v, node)
        if len(args) == 2 and isinstance(A(ip, fn, args, 1, node), Lin):
            x = ip.str_sub(x, ZERO, A(ip, fn, args, 1, node), node)
    ip.store(this, s + x, node)
    return this


@model('str::clear')
def m_strclear(ip, fn, this, args, node):
    ip.store(this, Str(()), node)
    return VOID


@model('str::substr')
def m_substr(ip, fn, this, args, node):
    s = ip.str_of(ip.load(this, node), node)
    i = A(ip, fn, args, 0, node) if args else ZERO
    n = A(ip, fn, args, 1, node) if len(args) > 1 else None
    if isinstance(n, Lin) and n.const is not None and n.c >= (1 << 62):
        n = None
    return ip.str_sub(s, i, n, node)


@model('str::remove_prefix', 'str::remove_suffix')
def m_svrp(ip, fn, this, args, node):
    s = ip.str_of(ip.load(this, node), node)
    n = A(ip, fn, args, 0, node)
    if fn['n'] == 'remove_prefix':
        r = ip.str_sub(s, n, None, node)
    else:
        r = ip.str_sub(s, ZERO, ip.str_len(s) - n, node)
    ip.store(this, r, node)
    return VOID


@model('str::find', 'str::rfind', 'str::find_first_of', 'str::find_first_not_of', 'str::find_last_of')
def m_strfind(ip, fn, this, args, node):
    s = ip.str_of(ip.load(this, node), node)
    b = ip.str_bound(s)
    x = A(ip, fn, args, 0, node)
    npos = Lin((1 << 64) - 1)
    x = ip.expand(x) if isinstance(x, Lin) else x
    if b is not None and isinstance(x, Lin) and x.const is None and len(b) <= 32 and fn['n'] in ('find', 'rfind', 'find_first_of', 'find_last_of'):
        order = range(len(b)) if fn['n'].startswith('find') and 'last' not in fn['n'] else range(len(b) - 1, -1, -1)
        for i in order:
            if ip.branch('eq0', x - ord(b[i]), node):
                return Lin(i)
        return npos
    if b is not None:
        if isinstance(x, Lin) and x.const is not None:
            pat = chr(x.c & 0xff)
        else:
            pat = ip.str_bound(ip.str_of(x, node)) if not isinstance(x, Lin) else None
        if pat is not None:
            if fn['n'] == 'find' or (fn['n'] == 'find_first_of' and len(pat) == 1):
                r = b.find(pat)
            elif fn['n'] == 'rfind':
                r = b.rfind(pat)
            elif fn['n'] == 'find_first_not_of':
                r = next((i for i, c in enumerate(b) if c not in pat), -1)
            else:
                r = next((i for i, c in enumerate(b) if c in pat), -1)
            return npos if r < 0 else Lin(r)
    if ip.branch_prop(('strfind', s, x if isinstance(x, Lin) else ip.str_of(x, node), fn['n']), node):
        return L(atom(('strfind', s, fn['n']), 0, 1 << 30))
    return npos


@model('str::compare')
def m_strcompare(ip, fn, this, args, node):
    s = ip.str_of(ip.load(this, node), node)
    o = ip.str_of(A(ip, fn, args, 0, node), node)
    if ip.str_eq(s, o, node):
        return ZERO
    return ONE if ip.str_lt(o, s, node) else Lin(-1)


@model('str::starts_with', 'absl::StartsWith', 'str::ends_with', 'absl::EndsWith', 'absl::StrContains')
def m_prefix(ip, fn, this, args, node):
    if this is not None:
        s = ip.str_of(ip.load(this, node), node)
        x = A(ip, fn, args, 0, node)
    else:
        s = ip.str_of(A(ip, fn, args, 0, node), node)
        x = A(ip, fn, args, 1, node)
    if isinstance(x, Lin):
        x = Str((chr(x.c & 0xff),))
    x = ip.str_of(x, node)
    n = fn['n'].lower().replace('_', '')
    a, b = ip.str_bound(s), ip.str_bound(x)
    if a is not None and b is not None:
        return L(int(a.startswith(b) if n == 'startswith' else a.endswith(b) if n == 'endswith' else b in a))
    if n == 'startswith' and b is not None and s.p and isinstance(s.p[0], str) and len(s.p[0]) >= len(b):
        return L(int(s.p[0].startswith(b)))
    return L(int(ip.branch_prop((n, s, x), node)))


@model('absl::AsciiStrToLower', 'absl::AsciiStrToUpper')
def m_case(ip, fn, this, args, node):
    w = 'lower' if fn['n'].endswith('Lower') else 'upper'
    t = ip.T(fn['pt'][0])
    if t['k'] == 'ptr':
        p = args[0]
        s = ip.str_of(ip.load(p, node), node)
        ip.store(p, case_of(ip, w, s), node)
        return VOID
    s = ip.str_of(A(ip, fn, args, 0, node), node)
    return case_of(ip, w, s)


def case_of(ip, w, s):
    b = ip.str_bound(s)
    if b is not None:
        return Str((b.lower() if w == 'lower' else b.upper(),))
    return ip.str_case(w, s)


def ascii_fn(pred):
    def f(ip, fn, this, args, node):
        c = ip.as_lin(A(ip, fn, args, 0, node), node)
        if isinstance(c, Top):
            return c
        if c.const is not None:
            return L(int(pred(c.c & 0xff)))
        # split by the ranges of the class
        c = ip.expand(c)
        i = 0
        while i < 128:
            if pred(i):
                j = i
                while j + 1 < 128 and pred(j + 1):
                    j += 1
                if ip.branch('le0', c.scale(-1) + i, node):
                    if ip.branch('le0', c - j, node):
                        return ONE
                else:
                    return ZERO
                i = j + 1
            else:
                i += 1
        return ZERO
    return f


for _n, _p in (('isdigit', lambda c: 48 <= c <= 57), ('isxdigit', lambda c: chr(c) in '0123456789abcdefABCDEF'),
               ('isalpha', lambda c: c < 128 and chr(c).isalpha()), ('isalnum', lambda c: c < 128 and chr(c).isalnum()),
               ('isspace', lambda c: chr(c) in ' \t\n\v\f\r'), ('isupper', lambda c: 65 <= c <= 90), ('islower', lambda c: 97 <= c <= 122)):
    MODELS[_n] = MODELS['std::' + _n] = MODELS['absl::ascii_' + _n] = ascii_fn(_p)


@model('absl::ascii_tolower', 'tolower', 'std::tolower')
def m_tolower(ip, fn, this, args, node):
    return ip.ascii_case('lower', ip.as_lin(A(ip, fn, args, 0, node)), node)


@model('absl::ascii_toupper', 'toupper', 'std::toupper')
def m_toupper(ip, fn, this, args, node):
    return ip.ascii_case('upper', ip.as_lin(A(ip, fn, args, 0, node)), node)


@model('absl::StrCat')
def m_strcat(ip, fn, this, args, node):
    r = Str(())
    for i in range(len(args)):
        v = A(ip, fn, args, i, node)
        r = r + (alnum(ip, v, deref_t(ip, fn['pt'][i])[1], node))
    return r


@model('absl::StrAppend')
def m_strappend(ip, fn, this, args, node):
    p = args[0]
    r = ip.str_of(ip.load(p, node), node)
    for i in range(1, len(args)):
        r = r + alnum(ip, A(ip, fn, args, i, node), deref_t(ip, fn['pt'][i])[1], node)
    ip.store(p, r, node)
    return VOID


@model('std::to_string')
def m_tostring(ip, fn, this, args, node):
    v = A(ip, fn, args, 0, node)
    return alnum(ip, v, {}, node)


_FMT = re.compile(r'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(?:hh|h|ll|l|z|j|t)?([a-zA-Z%])')


def format_str(ip, fmt, vs, node):
    f = fmt.const
    if f is None:
        ip.taint('non-literal format')
        return Str((('top', 'format'),))
    out = []
    pos = 0
    k = 0
    for m in _FMT.finditer(f):
        out.append(f[pos:m.start()])
        pos = m.end()
        conv = m.group(4)
        if conv == '%':
            out.append('%')
            continue
        wp = [m.group(2), m.group(3)]
        for i in (0, 1):
            if wp[i] == '*':
                w = ip.force(vs[k]) if k < len(vs) else None
                if not isinstance(w, Lin) or w.const is None or w.c < 0:
                    raise PathEnd('unknown', 'width of a formatted field at %s' % ip.loc(node))
                wp[i] = str(w.c)
                k += 1
        if k >= len(vs):
            raise PathEnd('unknown', 'format arguments')
        v = ip.force(vs[k])
        k += 1
        spec = '%' + (m.group(1) or '') + (wp[0] or '') + ('.' + wp[1] if wp[1] else '') + conv
        if isinstance(v, Lin):
            if conv in 'sv':
                out.append('%d' % v.c if v.const is not None else ('fmt', '%d', v))
            elif v.const is not None and conv in 'dixXoc':
                x = v.c
                if conv in 'xXo' and x < 0:
                    x &= 0xffffffff
                out.append(chr(x & 0xff) if conv == 'c' else spec % x)
            else:
                out.append(('fmt', spec, v))
        elif isinstance(v, Top):
            ip.taint(v.why)
            out.append(('top', v.why))
        else:
            s = ip.str_of(v, node)
            if wp[0] or wp[1]:
                if s.const is not None:
                    out.append(spec % s.const)
                else:
                    out.append(('pad', spec, s))
            else:
                out.extend(s.p)
    out.append(f[pos:])
    return Str(out)


@model('absl::StrFormat')
def m_strformat(ip, fn, this, args, node):
    return format_str(ip, ip.str_of(A(ip, fn, args, 0, node), node), [A(ip, fn, args, i, node) for i in range(1, len(args))], node)


def emit(ip, kind, *x):
    ip.st.ev = ip.st.ev + ((kind,) + x,)


@model('absl::PrintF', 'printf')
def m_printf(ip, fn, this, args, node):
    s = format_str(ip, ip.str_of(A(ip, fn, args, 0, node), node), [A(ip, fn, args, i, node) for i in range(1, len(args))], node)
    emit(ip, 'print', s)
    return ip.str_len(s)


@model('absl::FPrintF', 'fprintf')
def m_fprintf(ip, fn, this, args, node):
    s = format_str(ip, ip.str_of(A(ip, fn, args, 1, node), node), [A(ip, fn, args, i, node) for i in range(2, len(args))], node)
    emit(ip, 'fprint', s)
    return ip.str_len(s)


@model('absl::StrAppendFormat')
def m_appfmt(ip, fn, this, args, node):
    s = format_str(ip, ip.str_of(A(ip, fn, args, 1, node), node), [A(ip, fn, args, i, node) for i in range(2, len(args))], node)
    ip.store(args[0], ip.str_of(ip.load(args[0], node), node) + s, node)
    return VOID


@model('puts', 'fputs', 'putchar')
def m_puts(ip, fn, this, args, node):
    v = A(ip, fn, args, 0, node)
    emit(ip, 'print', (ip.str_of(v, node) if not isinstance(v, Lin) else Str((chr(v.c),))) + Str(('\n',) if fn['n'] == 'puts' else ()))
    return ZERO


@model('absl::StrJoin')
def m_strjoin(ip, fn, this, args, node):
    vs = [A(ip, fn, args, i, node) for i in range(len(args))]
    if isinstance(vs[0], Ptr):
        s = range_seq(ip, vs[0], vs[1], node)
        sep = ip.str_of(vs[2], node)
    else:
        s = ip.seq_of(vs[0], node)
        sep = ip.str_of(vs[1], node)
    if isinstance(s, Seq) and s.concrete():
        r = Str(())
        form = vs[-1] if isinstance(vs[-1], (Lam, Fn)) else None
        for i, p in enumerate(s.parts):
            if i:
                r = r + sep
            v = ip.force(p.v)
            if form is not None:
                o = ip.alloc(r, 'joined')
                ip.invoke(form, [o, ip.alloc(v, 'item')], node)
                r = ip.str_of(ip.load(o), node)
                continue
            r = r + (alnum(ip, v, {}, node))
        return r
    if isinstance(s, Seq):
        return Str((('join', s, sep),))
    ip.taint('join')
    return Str((('top', 'join'),))


@model('absl::StripAsciiWhitespace', 'absl::StripLeadingAsciiWhitespace', 'absl::StripTrailingAsciiWhitespace')
def m_strip(ip, fn, this, args, node):
    if ip.T(fn['pt'][0])['k'] == 'ptr':
        ip.store(args[0], m_strip(ip, dict(fn, pt=[ip.T(fn['pt'][0])['to']]), this, [ip.load(args[0], node)], node), node)
        return VOID
    s = ip.str_of(A(ip, fn, args, 0, node), node)
    b = ip.str_bound(s)
    if b is not None:
        ws = ' \t\n\v\f\r'
        if 'Leading' in fn['n']:
            return Str((b.lstrip(ws),))
        if 'Trailing' in fn['n']:
            return Str((b.rstrip(ws),))
        return Str((b.strip(ws),))
    cs = ip.chars_of(s, node)
    if cs is not None:
        space = lambda c: MODELS['isspace'](ip, {'n': 'isspace', 'q': 'isspace', 'pt': ()}, None, [c], node).c == 1
        i, j = 0, len(cs)
        if 'Trailing' not in fn['n']:
            while i < j and space(cs[i]):
                i += 1
        if 'Leading' not in fn['n']:
            while i < j and space(cs[j - 1]):
                j -= 1
        return ip.str_sub(s, L(i), L(j - i), node)
    return Str((('strip', fn['n'], s),))


@model('sscanf')
def m_sscanf(ip, fn, this, args, node):
    s = ip.str_of(A(ip, fn, args, 0, node), node)
    f = ip.str_of(A(ip, fn, args, 1, node), node).const or ''
    n = len([m for m in _FMT.finditer(f) if m.group(4) != '%'])
    outs = args[2:2 + n]
    key = 'scan(%r)' % (s,)
    given = getattr(ip, 'scan', {}).get(s)     # the specification may fix what an argument says
    k = n + ip.choose(2) if given and given[1] is None else ip.choose(n + 2) if given is None or not given[1] else 0   # number of conversions, or EOF
    ip.note(node, 'sscanf matches %d conversions' % (n - k if k <= n else -1))
    m = n - k
    emit(ip, 'sscanf', s, f, ip.loc(node), m)
    convs = [mm for mm in _FMT.finditer(f) if mm.group(4) != '%']
    for i in range(max(0, m)):
        conv = convs[i].group(4)
        lo, hi = (0, (1 << 32) - 1) if conv in 'xuoX' else (-(1 << 31), (1 << 31) - 1)
        if isinstance(outs[i], Ptr):
            ip.store(outs[i], given[0] if given else sym('%s#%d' % (key, i), lo, hi), node)
    return Lin(m)


def digits(ip, cs, base, node):
    """Value of the longest prefix of digits, exact; None when the text may begin with a sign or space."""
    v, any_ = ZERO, False
    for c in cs:
        d = None
        for lo, hi, off in ((48, min(57, 47 + base), 48), (97, 86 + base, 87), (65, 54 + base, 55)):
            if hi < lo:
                continue
            if ip.branch('le0', c.scale(-1) + lo, node) and ip.branch('le0', c - hi, node):
                d = c - off
                break
        if d is None:
            return v if any_ else None
        v, any_ = v.scale(base) + d, True
    return v if any_ else None


@model('strtol', 'strtoll', 'strtoul', 'strtoull', 'std::strtol', 'std::strtoll', 'std::strtoul', 'std::strtoull', 'atoi', 'atol', 'std::stoi', 'std::stol', 'std::stoll')
def m_strtol(ip, fn, this, args, node):
    s = ip.str_of(A(ip, fn, args, 0, node), node)
    base = A(ip, fn, args, 2, node) if len(args) > 2 else Lin(10)
    if len(args) > 1 and not (isinstance(args[1], Ptr) and args[1].cell is None) and ip.force(args[1]) != NULL:
        ip.taint('end pointer of ' + fn['n'])
    b = ip.str_bound(s)
    if b is not None and isinstance(base, Lin) and base.const:
        m = re.match(r'\s*([+-]?)(?:0[xX](?=[0-9a-fA-F]))?([0-9a-zA-Z]*)' if base.c == 16 else r'\s*([+-]?)([0-9a-zA-Z]*)', b)
        digs = ''
        for ch in m.group(2):
            if ch.isalnum() and int(ch, 36) < base.c:
                digs += ch
            else:
                break
        v = int(digs, base.c) if digs else 0
        v = -v if m.group(1) == '-' else v
        if not fn['n'].startswith('str'):
            return Lin(v)
        return Lin(min(v, (1 << 64) - 1) if 'u' in fn['n'] else max(min(v, (1 << 63) - 1), -(1 << 63)))
    base = ip.expand(base) if isinstance(base, Lin) else base
    cs = ip.chars_of(s, node) if isinstance(base, Lin) and base.const and fn['n'].startswith('str') else None
    if cs:
        cs = [ip.expand(c) for c in cs]
        if base.c == 16 and len(cs) > 2 and ip.branch('eq0', cs[0] - 48, node) and \
                (ip.branch('eq0', cs[1] - 120, node) or ip.branch('eq0', cs[1] - 88, node)):
            v = digits(ip, cs[2:], 16, node)
            v = ZERO if v is None else v
        else:
            v = digits(ip, cs, base.c, node)
        if v is not None:
            top = (1 << 64) - 1 if 'u' in fn['n'] else (1 << 63) - 1
            if ip.branch('le0', v - top, node):
                return v
            return Lin(top)
    return L(atom(('strtol', s, base if isinstance(base, Lin) else ZERO), -(1 << 63), (1 << 63) - 1))


# ------------------------------------------------------------------ maps
def mapv(ip, this, node):
    v = ip.load(this, node)
    if isinstance(v, MapV):
        return v, None
    return None, v if isinstance(v, Top) else ip.top('map operation on %r' % (v,), node)


ORDERED = ('map', 'set', 'btree_map', 'multimap')


def map_find(ip, m, key, node):
    """Index of key or None; raises for maps with unknown further entries."""
    if m.unk is None and len(m.ents) > 4:
        k = plain(ip.force(key))
        if k is not None and m.index() is not False:
            return m.index().get(k)
    for i, (k, _) in enumerate(m.ents):
        if ip.value_eq(k, key, node):
            return i
    if m.unk is not None:
        raise PathEnd('unknown', 'lookup in an unknown map at %s' % ip.loc(node))
    return None


def map_insert(ip, m, key, val, node):
    """(new map, index, inserted)"""
    if m.unk is None:
        if m.kind in ORDERED:
            pos = len(m.ents)
            for i, (k, _) in enumerate(m.ents):
                if ip.value_lt(key, k, node):
                    pos = i
                    break
                if not ip.value_lt(k, key, node):
                    return m, i, False
            return m.put(pos, key, val), pos, True
        i = map_find(ip, m, key, node)
        if i is not None:
            return m, i, False
        return m.put(len(m.ents), key, val), len(m.ents), True
    raise PathEnd('unknown', 'insertion into an unknown map at %s' % ip.loc(node))


@model('map::begin', 'map::cbegin', 'set::begin', 'set::cbegin')
def m_mbegin(ip, fn, this, args, node):
    m, t = mapv(ip, this, node)
    return t if m is None else this.ext(m.key(0))


@model('map::end', 'map::cend', 'set::end', 'set::cend')
def m_mend(ip, fn, this, args, node):
    m, t = mapv(ip, this, node)
    return t if m is None else this.ext(('m', -1))


@model('map::size', 'set::size')
def m_msize(ip, fn, this, args, node):
    m, t = mapv(ip, this, node)
    return t if m is None else Lin(len(m.ents))


@model('map::empty', 'set::empty')
def m_mempty(ip, fn, this, args, node):
    m, t = mapv(ip, this, node)
    if m is None:
        return t
    if m.unk is not None and not m.ents:
        return L(int(ip.branch_prop(('mapempty', m.unk), node)))
    return L(int(not m.ents))


@model('map::find', 'set::find')
def m_mfind(ip, fn, this, args, node):
    m, t = mapv(ip, this, node)
    if m is None:
        return t
    i = map_find(ip, m, A(ip, fn, args, 0, node), node)
    return this.ext(('m', -1) if i is None else m.key(i))


@model('map::count', 'set::count', 'map::contains', 'set::contains')
def m_mcount(ip, fn, this, args, node):
    m, t = mapv(ip, this, node)
    if m is None:
        return t
    i = map_find(ip, m, A(ip, fn, args, 0, node), node)
    return L(int(i is not None))


@model('map::operator[]')
def m_midx(ip, fn, this, args, node):
    m, t = mapv(ip, this, node)
    if m is None:
        return t
    key = mv_arg(ip, fn, args, 0, node)
    ct = ip.T(fn['cls'])
    try:
        m2, i, ins = map_insert(ip, m, key, None, node)
    except PathEnd:
        raise
    if ins:
        # value type: result reference
        vt = ip.T(fn['rt'])
        m2 = m2.set(i, ip.default_value(vt['to'], node, True))
        ip.store(this, m2, node)
    return this.ext(m2.key(i), ('f', 'second'))


@model('map::at')
def m_mat(ip, fn, this, args, node):
    m, t = mapv(ip, this, node)
    if m is None:
        return t
    i = map_find(ip, m, A(ip, fn, args, 0, node), node)
    ip.oblige(i is not None, 'map::at with a missing key', node)
    return this.ext(m.key(i), ('f', 'second'))


@model('map::insert', 'map::emplace', 'map::try_emplace', 'map::insert_or_assign', 'set::insert', 'set::emplace')
def m_minsert(ip, fn, this, args, node):
    m, t = mapv(ip, this, node)
    if m is None:
        ip.taint(t.why)
        return t
    vs = [mv_arg(ip, fn, args, i, node) for i in range(len(args))]
    isset = m.kind in ('set', 'flat_hash_set', 'unordered_set')
    hint = None
    if len(vs) == 2 and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr) and fn['n'] == 'insert':
        s = range_seq(ip, vs[0], vs[1], node)
        if not isinstance(s, Seq) or not s.concrete():
            ip.taint('range insert')
            return VOID
        for p in s.parts:
            v = ip.force(p.v)
            m, i, ins = map_insert(ip, m, v if isset else v.f['first'], True if isset else v.f['second'], node)
        ip.store(this, m, node)
        return VOID
    if isset:
        key, val = vs[-1], True
    elif len(vs) == 1 and isinstance(vs[0], Obj) and vs[0].cls == 'std::pair':
        key, val = vs[0].f['first'], vs[0].f['second']
    elif len(vs) == 2:
        key, val = vs
    else:
        ip.taint('map insert')
        return ip.top('map insert', node)
    m2, i, ins = map_insert(ip, m, key, val, node)
    if not ins and fn['n'] == 'insert_or_assign':
        m2 = m2.set(i, val)
    ip.store(this, m2, node)
    return Obj('std::pair', {'first': this.ext(m2.key(i)), 'second': L(int(ins))})


@model('map::erase', 'set::erase')
def m_merase(ip, fn, this, args, node):
    m, t = mapv(ip, this, node)
    if m is None:
        return t
    a = A(ip, fn, args, 0, node)
    if isinstance(a, Ptr) and a.path and a.path[-1][0] == 'm' and a.cell == this.cell:
        i = m.pos(a.path[-1][1])
        ip.oblige(i is not None, 'map entry erased twice', node)
        ip.oblige(i < len(m.ents), 'erase of the end iterator', node)
        m = m.drop(i)
        ip.store(this, m, node)
        return this.ext(m.key(i))
    i = map_find(ip, m, a, node)
    if i is None:
        return ZERO
    ip.store(this, m.drop(i), node)
    return ONE


@model('map::clear', 'set::clear')
def m_mclear(ip, fn, this, args, node):
    m, t = mapv(ip, this, node)
    ip.store(this, MapV((), m.kind if m else 'map'), node)
    return VOID


@model('map::operator=', 'set::operator=')
def m_massign(ip, fn, this, args, node):
    ip.store(this, mv_arg(ip, fn, args, 0, node), node)
    return this


@model('map::upper_bound', 'map::lower_bound', 'set::upper_bound', 'set::lower_bound')
def m_mbound(ip, fn, this, args, node):
    m, t = mapv(ip, this, node)
    if m is None:
        return t
    key = A(ip, fn, args, 0, node)
    for i, (k, _) in enumerate(m.ents):
        if fn['n'] == 'upper_bound':
            if ip.value_lt(key, k, node):
                return this.ext(m.key(i))
        elif not ip.value_lt(k, key, node):
            return this.ext(m.key(i))
    return this.ext(('m', -1))


# ------------------------------------------------------------------ stdio
def fobj(ip, p, node, what):
    if isinstance(p, UPtr):
        p = p.p()
    if not isinstance(p, Ptr):
        raise PathEnd('unknown', 'FILE* value at %s' % ip.loc(node))
    ip.oblige(p.cell is not None, 'null FILE* used', node, what)
    f = ip.load(p, node)
    if not isinstance(f, FileV):
        raise PathEnd('unknown', 'FILE* target at %s' % ip.loc(node))
    ip.oblige(f.open, 'closed FILE* used', node, what)
    return p, f


FSIZE = lambda: sym('file.size', 0, (1 << 62))


@model('fopen', 'std::fopen')
def m_fopen(ip, fn, this, args, node):
    path = ip.str_of(A(ip, fn, args, 0, node), node)
    mode = ip.str_of(A(ip, fn, args, 1, node), node).const
    ok = ip.choose(2) == 0
    ip.note(node, 'fopen %s' % ('succeeds' if ok else 'fails'))
    emit(ip, 'fopen', path, mode, ok)
    if not ok:
        return NULL
    p = ip.alloc(FileV(path, mode, ZERO, True), 'F')
    return p


@model('fclose', 'std::fclose')
def m_fclose(ip, fn, this, args, node):
    p, f = fobj(ip, A(ip, fn, args, 0, node), node, 'fclose')
    ip.store(p, FileV(f.path, f.mode, f.pos, False), node)
    ok = True
    if f.mode and f.mode[:1] in 'wa':
        ok = ip.choose(2) == 0
        ip.note(node, 'fclose %s' % ('succeeds' if ok else 'fails'))
    emit(ip, 'fclose', p.cell, ok)
    return ZERO if ok else Lin(-1)


@model('fseek', 'std::fseek', 'fseeko')
def m_fseek(ip, fn, this, args, node):
    p, f = fobj(ip, A(ip, fn, args, 0, node), node, 'fseek')
    off = A(ip, fn, args, 1, node)
    wh = A(ip, fn, args, 2, node)
    ok = ip.choose(2) == 0
    ip.note(node, 'fseek %s' % ('succeeds' if ok else 'fails'))
    emit(ip, 'fseek', p.cell, ok)
    if not ok:
        return Lin(-1)
    base = {0: ZERO, 1: f.pos, 2: FSIZE()}.get(wh.const)
    if base is None:
        raise PathEnd('unknown', 'fseek origin')
    ip.store(p, FileV(f.path, f.mode, base + off, True), node)
    return ZERO


@model('rewind', 'std::rewind')
def m_rewind(ip, fn, this, args, node):
    p, f = fobj(ip, A(ip, fn, args, 0, node), node, 'rewind')
    ip.store(p, FileV(f.path, f.mode, ZERO, True), node)
    return VOID


@model('ftell', 'std::ftell', 'ftello')
def m_ftell(ip, fn, this, args, node):
    p, f = fobj(ip, A(ip, fn, args, 0, node), node, 'ftell')
    ok = ip.choose(2) == 0
    ip.note(node, 'ftell %s' % ('succeeds' if ok else 'fails'))
    emit(ip, 'ftell', p.cell, ok)
    return f.pos if ok else Lin(-1)


@model('fread', 'std::fread')
def m_fread(ip, fn, this, args, node):
    dst, size, n, fp = (A(ip, fn, args, i, node) for i in range(4))
    p, f = fobj(ip, fp, node, 'fread')
    if not isinstance(size, Lin) or not isinstance(n, Lin) or size.const is None:
        raise PathEnd('unknown', 'fread size at %s' % ip.loc(node))
    k = n.scale(size.c)
    ok = ip.choose(2) == 0
    if ok:
        ip.assume(-INF, f.pos + k - FSIZE(), 0)
        ip.note(node, 'fread succeeds')
        emit(ip, 'fread', p.cell, f.pos, k, True)
        if not ip.branch('le0', k, node):
            if isinstance(dst, Ptr) and dst.path and dst.path[-1][0] == 'i':
                base = Ptr(dst.cell, dst.path[:-1])
                s = ip.load(base, node)
                el = s.tid if isinstance(s, Seq) else None
                write_range(ip, dst, Seq((S('file', f.pos, k, el),), el), node)
            elif isinstance(dst, Top):
                ip.taint('fread destination')
            else:
                raise PathEnd('unknown', 'fread destination %r at %s' % (dst, ip.loc(node)))
        ip.store(p, FileV(f.path, f.mode, f.pos + k, True), node)
        return n
    r = sym('fread.short@%d' % len(ip.st.ev), 0, 1 << 62)
    ip.assume(-INF, r - n + 1, 0)
    eof = not ip.branch('le0', f.pos + k - FSIZE(), node)
    ip.note(node, 'fread reaches the end of the file' if eof else 'fread is short')
    emit(ip, 'fread', p.cell, f.pos, k, None if eof else False)
    if isinstance(dst, Ptr) and dst.path and dst.path[-1][0] == 'i':
        base = Ptr(dst.cell, dst.path[:-1])
        s = ip.load(base, node)
        if isinstance(s, Seq):
            ip.oblige(('le0', dst.path[-1][1] + k - s.len()), 'buffer smaller than the read', node)
    return r


@model('fwrite', 'std::fwrite')
def m_fwrite(ip, fn, this, args, node):
    src, size, n, fp = (A(ip, fn, args, i, node) for i in range(4))
    p, f = fobj(ip, fp, node, 'fwrite')
    if not isinstance(size, Lin) or not isinstance(n, Lin) or size.const is None:
        raise PathEnd('unknown', 'fwrite size at %s' % ip.loc(node))
    k = n.scale(size.c)
    if isinstance(src, Ptr) and src.path and src.path[-1][0] == 'i':
        base = ip.load(Ptr(src.cell, src.path[:-1]), node)
        s = ip.seq_of(base, node)
        i = src.path[-1][1]
        if s is not None:
            ip.oblige(('le0', i + k - s.len()), 'fwrite reads past the end of its buffer', node, 'writes %r of %r' % (i + k, s.len()))
            d = s if (i == ZERO and ip.st.facts.eq0(s.len() - k)) else ip.seq_slice(s, i, i + k, node)
        else:
            d = None
    else:
        d = None
    ok = ip.choose(2) == 0
    ip.note(node, 'fwrite %s' % ('succeeds' if ok else 'is short'))
    emit(ip, 'fwrite', p.cell, d, k, ok)
    if ok:
        return n
    r = sym('fwrite.short@%d' % len(ip.st.ev), 0, 1 << 62)
    ip.assume(-INF, r - n + 1, 0)
    return r


@model('ferror', 'feof')
def m_ferror(ip, fn, this, args, node):
    return L(ip.choose(2))


# ------------------------------------------------------------------ process
@model('__assert_fail', '__assert')
def m_assert(ip, fn, this, args, node):
    ip.sites.add(('assert', ip.loc(node)))
    txt = args[0].const if isinstance(args[0], Str) else ''
    raise PathEnd('ub', ('assertion failed', ip.loc(node), txt or ''))


@model('abort', 'std::abort', 'std::terminate', '__builtin_unreachable', '__builtin_trap')
def m_abort(ip, fn, this, args, node):
    raise PathEnd('ub', ('abort', ip.loc(node), fn['n']))


@model('exit', 'std::exit', '_exit')
def m_exit(ip, fn, this, args, node):
    raise PathEnd('exit', A(ip, fn, args, 0, node))


@model('__builtin_expect', '__builtin_expect_with_probability')
def m_expect(ip, fn, this, args, node):
    return A(ip, fn, args, 0, node)


@model('abs', 'std::abs')
def m_abs(ip, fn, this, args, node):
    v = A(ip, fn, args, 0, node)
    if isinstance(v, Top):
        return v
    return v.scale(-1) if ip.branch('le0', v + 1, node) else v



@model('absl::hash_internal::HashStateBase::combine')
def m_hash(ip, fn, this, args, node):
    return Obj('hash', {})


@model('std::numeric_limits::min', 'std::numeric_limits::max', 'std::numeric_limits::lowest')
def m_limits(ip, fn, this, args, node):
    t = ip.T(node['t'])
    if t['k'] not in ('int', 'bool'):
        return ip.top('limit of ' + t['s'], node)
    lo, hi = ip.trange(t)
    return Lin(hi if fn['n'] == 'max' else lo)


# ------------------------------------------------------------------ text of files
# The specification prescribes ip.stream = (text, opens, position a read fails at or None).
def _stream(ip, this, node):
    o = ip.load(this, node)
    if getattr(ip, 'stream', None) is None or not isinstance(o, Obj) or 'pos' not in o.f:
        raise PathEnd('unknown', 'file stream')
    return o, o.f['pos'].c, o.f['bits'].c


def _set(ip, this, o, pos, bits, node):
    ip.store(this, Obj(o.cls, dict(o.f, pos=L(pos), bits=L(bits))), node)


EOF, FAIL, BAD = 2, 4, 1


def _open(ip, path):
    if getattr(ip, 'stream', None) is None:
        return {}
    emit(ip, 'stream', path)
    return {'pos': ZERO, 'bits': L(0 if ip.stream[1] else FAIL)}


@ctor('std::basic_ifstream')
def c_ifstream(ip, e, fn, t, args):
    return Obj(t['base'], _open(ip, ip.str_of(A(ip, fn, args, 0, e), e)) if args else {'pos': ZERO, 'bits': ZERO})


@model('std::basic_ifstream::open')
def m_sopen(ip, fn, this, args, node):
    o = ip.load(this, node)
    ip.store(this, Obj(o.cls, _open(ip, ip.str_of(A(ip, fn, args, 0, node), node))), node)
    return VOID


@model('std::basic_ifstream::is_open', 'std::basic_ifstream::close')
def m_sclose(ip, fn, this, args, node):
    o, pos, bits = _stream(ip, this, node)
    return L(int(ip.stream[1])) if fn['n'] == 'is_open' else VOID


@model('std::basic_ios::operator bool', 'std::basic_ios::operator!', 'std::basic_ios::good', 'std::basic_ios::bad', 'std::basic_ios::fail', 'std::basic_ios::eof')
def m_ios_state(ip, fn, this, args, node):
    if getattr(ip, 'stream', None) is None:
        return L(ip.choose(2))
    o, pos, bits = _stream(ip, this, node)
    n = fn['n']
    return L(int({'good': bits == 0, 'bad': bits & BAD, 'eof': bits & EOF, 'fail': bits & (FAIL | BAD), 'operator!': bits & (FAIL | BAD)}.get(n, not bits & (FAIL | BAD)) != 0))


@model('std::getline')
def m_getline(ip, fn, this, args, node):
    s = args[0]
    o, pos, bits = _stream(ip, s, node)
    if bits:
        _set(ip, s, o, pos, bits | FAIL, node)
        return s
    d = '\n' if len(args) < 3 else chr(ip.force(args[2]).c & 255)
    text, _, stop = ip.stream
    line = ''
    while True:
        if stop is not None and pos >= stop:
            bits |= BAD
            break
        if pos >= len(text):
            bits |= EOF | (0 if line else FAIL)
            break
        pos += 1
        if text[pos - 1] == d:
            break
        line += text[pos - 1]
    ip.store(args[1], Str((line,)), node)
    _set(ip, s, o, pos, bits, node)
    return s


@model('absl::StrSplit')
def m_strsplit(ip, fn, this, args, node):
    s = ip.str_of(A(ip, fn, args, 0, node), node)
    d = A(ip, fn, args, 1, node)
    d = chr(d.c & 255) if isinstance(d, Lin) and d.const is not None else ip.str_of(d, node).const if not isinstance(d, (Top, Obj)) else None
    if s.const is None or not d or len(args) > 2:
        return ip.top('splitting text', node)
    parts = s.const.split(d)
    return Obj('absl::strings_internal::Splitter', {'parts': parts, 'views': ip.alloc(Seq(tuple(E(Str((p,) if p else ())) for p in parts), None), 'split')})


@model('absl::strings_internal::Splitter::begin', 'absl::strings_internal::Splitter::end')
def m_splitter_range(ip, fn, this, args, node):
    o = ip.load(this, node)
    if not isinstance(o, Obj) or 'views' not in o.f:
        return ip.top('split text', node)
    return o.f['views'].ext(('i', ZERO if fn['q'].endswith('begin') else L(len(o.f['parts']))))


def m_splitter(ip, fn, this, args, node):
    o = ip.load(this, node)
    if not isinstance(o, Obj) or 'parts' not in o.f:
        return ip.top('split text', node)
    t = ip.T(node['t'])
    el = t.get('args', [None])[0]
    return Seq(tuple(E(Str((p,))) for p in o.f['parts']), el)
