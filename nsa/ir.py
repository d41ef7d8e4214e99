"""Loading of the type-checked program: runs the clang front end (exporter) over
the current sources of the repository and merges the translation units."""
import hashlib, json, os, re, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NSA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class AnalysisError(Exception):
    """The analysis itself cannot be carried out (exit status 2)."""


def exporter():
    src = os.path.join(VERIF, 'exporter', 'export.cc')
    out = os.path.join(BUILD, 'nsasm-export')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    cmd = ['clang++', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
           '-L/usr/lib/llvm-18/lib', '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-lLLVM-18',
           '-Wl,-rpath,/usr/lib/llvm-18/lib']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('exporter does not build: ' + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def repo_hash():
    h = hashlib.sha256()
    for d in ('nsasm', 'util', 'test'):
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, d))):
            for f in sorted(files):
                if f.endswith(('.cc', '.h', '.inc', '.cpp', '.hpp')):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read()); h.update(b'\0')
    for f in ('exporter/export.cc', 'shim/absl/base/options.h', 'props/inst.cc'):
        h.update(open(os.path.join(VERIF, f), 'rb').read())
    return h.hexdigest()[:20]


def all_units():
    us = []
    for d in ('nsasm', 'util'):
        us += sorted(glob.glob(os.path.join(REPO, d, '*.cc')))
    us += [os.path.join(REPO, 'test', 'test_sink.cc')]
    return [os.path.relpath(u, REPO) for u in us if not u.endswith('_test.cc') and os.path.exists(u)]


def export_units(units):
    exe = exporter()
    key = repo_hash()
    cache = os.path.join(BUILD, 'ast-' + key)
    os.makedirs(cache, exist_ok=True)
    # forget older exports
    for d in glob.glob(os.path.join(BUILD, 'ast-*')):
        if d != cache:
            subprocess.run(['rm', '-rf', d])

    def one(u):
        out = os.path.join(cache, u.replace('/', '_') + '.json')
        if not os.path.exists(out):
            tmp = out + '.%d' % os.getpid()
            r = subprocess.run([exe, REPO, tmp, os.path.join(REPO, u), '--', '-std=c++20', '-I' + os.path.join(VERIF, 'shim'),
                                '-iquote', REPO, '-w'], capture_output=True, text=True)
            if r.returncode or not os.path.exists(tmp):
                raise AnalysisError('front end rejects %s: %s' % (u, r.stderr[-1500:]))
            os.replace(tmp, out)
        with open(out, encoding='utf-8') as f:
            return json.load(f)
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, units))


_TA = re.compile(r'<[^<>]*>')


def strip_targs(q):
    """std::vector<int>::push_back -> std::vector::push_back (operators kept)."""
    m = re.search(r'operator\s*(<=>|<<|>>|->|<=|>=|<|>)', q)
    tail = ''
    if m:
        tail = 'operator' + m.group(1)
        q = q[:m.start()]
    while True:
        n = _TA.sub('', q)
        if n == q:
            break
        q = n
    q = re.sub(r'\b(__cxx11|lts_\d+|debian\d*|inline_\w+|__debug)::', '', q)
    return q + tail


class Program:
    """Merged program: types / functions / records / enums / globals."""

    def __init__(self, units=None):
        self.units = units or all_units()
        self.types = []
        self.tindex = {}
        self.funcs = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        for i, d in enumerate(export_units(self.units)):
            self._merge(d, i)
        self.byqual = {}
        for u, f in self.funcs.items():
            self.byqual.setdefault(f['q'], []).append(f)
        self.overriders = {}
        for rn, r in self.records.items():
            for m in r['methods']:
                for o in m.get('over', ()):
                    self.overriders.setdefault(o, []).append((rn, m['usr']))

    def _merge(self, d, unit):
        remap = {}
        new = []
        for i, t in enumerate(d['types']):
            s = t['s'] if t else '?%d.%d' % (unit, i)
            if s in self.tindex:
                j = self.tindex[s]
                remap[i] = j
                if t and t.get('repo') and not self.types[j].get('repo'):
                    new.append((i, j))
            else:
                j = len(self.types)
                self.tindex[s] = j
                self.types.append(dict(t) if t else {'s': s, 'k': 'other'})
                remap[i] = j
                new.append((i, j))

        def rt(x):
            return remap[x] if isinstance(x, int) and x >= 0 else x
        for i, j in new:
            t = dict(d['types'][i] or {'k': 'other', 's': '?'})
            for k in ('to', 'ret'):
                if k in t:
                    t[k] = rt(t[k])
            if 'args' in t:
                t['args'] = [rt(a) if isinstance(a, int) else a for a in t['args']]
            if 'name' in t:
                t['base'] = strip_targs(t['name'])
            t['id'] = j
            self.types[j] = t

        uid = unit * 1000000

        def fix(n):
            if isinstance(n, dict):
                for k in ('t', 'rt', 'cls', 'ret', 'at', 'ct', 'crt', 'clst'):
                    v = n.get(k)
                    if isinstance(v, int) and not isinstance(v, bool):
                        n[k] = rt(v)
                v = n.get('pt')
                if isinstance(v, list):
                    n['pt'] = [rt(x) for x in v]
                v = n.get('targs')
                if isinstance(v, list):
                    n['targs'] = [rt(x) if isinstance(x, int) else x for x in v]
                v = n.get('bases')
                if isinstance(v, list):
                    n['bases'] = [rt(x) for x in v]
                v = n.get('base')
                if isinstance(v, int):
                    n['base'] = rt(v)
                v = n.get('u')
                if isinstance(v, int) and 'consts' in n:
                    n['u'] = rt(v)
                v = n.get('id')
                if isinstance(v, int):
                    n['id'] = uid + v
                if 'usr' in n and 'q' in n:
                    n['q'] = strip_targs(n['q'])
                for k, v in n.items():
                    if isinstance(v, (dict, list)):
                        fix(v)
            elif isinstance(n, list):
                for x in n:
                    if isinstance(x, (dict, list)):
                        fix(x)
        for u, f in d['funcs'].items():
            old = self.funcs.get(u)
            if old is not None and ('body' in old or 'body' not in f):
                continue
            fix(f)
            f['q'] = strip_targs(f['qual'])
            # anonymous-namespace and lambda USRs can be shared between units: keep per-unit identity
            self.funcs[u] = f
        for n, r in d['records'].items():
            if n not in self.records:
                fix(r)
                r['name'] = n
                self.records[n] = r
        for n, e in d['enums'].items():
            if n not in self.enums:
                fix(e)
                self.enums[n] = e
        for u, g in d['globals'].items():
            if u not in self.globals or ('init' in g and 'init' not in self.globals[u]):
                fix(g)
                self.globals[u] = g

    # -- queries ------------------------------------------------------------
    def T(self, i):
        return self.types[i]

    def find(self, q, nparams=None, pred=None, body=True):
        fs = [f for f in self.byqual.get(q, []) if (not body or 'body' in f or f.get('defaulted'))]
        if nparams is not None:
            fs = [f for f in fs if len(f['params']) == nparams]
        if pred:
            fs = [f for f in fs if pred(f)]
        return fs

    def ctors(self, rec):
        if getattr(self, '_ctors', None) is None:
            self._ctors = {}
            for f in self.funcs.values():
                if f.get('ctor'):
                    self._ctors.setdefault(f.get('cls'), []).append(f)
        return self._ctors.get(rec, [])

    def fn(self, q, nparams=None, pred=None):
        fs = self.find(q, nparams, pred)
        if not fs:
            raise AnalysisError('anchor function %s not found' % q)
        return fs[0]

    def enum(self, name):
        if name not in self.enums:
            raise AnalysisError('anchor enumeration %s not found' % name)
        return dict((k, v) for k, v in self.enums[name]['consts'])

    def pty(self, f, i):
        return self.types[f['params'][i]['t']]

    def tstr(self, i):
        return self.types[i]['s']

    # -- syntax walks
    def all_functions(self):
        return [f for f in self.funcs.values() if f.get('file') and not f['file'].startswith('/')]


def walk(n):
    """Every node below n, in source order."""
    todo = [n]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            for v in reversed(list(x.values())):
                if isinstance(v, (dict, list)):
                    todo.append(v)
        elif isinstance(x, list):
            todo.extend(v for v in reversed(x) if isinstance(v, (dict, list)))


def fn_nodes(f):
    for k in ('inits', 'body'):
        if k in f:
            yield from walk(f[k])


def fn_calls(f):
    """Calls, constructions and function references of a function: (node, callee reference)."""
    for n in fn_nodes(f):
        if n['k'] in ('call', 'ctor', 'inhctor', 'fnref', 'methref') and n.get('fn'):
            yield n, n['fn']
