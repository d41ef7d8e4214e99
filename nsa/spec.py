"""Specification layer: scenarios, obligations, verdicts, reports."""
import json, os, re, sys, time, traceback
from .val import *
from .ir import Program, AnalysisError, VERIF, REPO
from .interp import *
from . import interp as _i


class Spec(Interp):
    """Interpreter with helpers to state a specification over the analysed program."""

    def __init__(self, prog, **kw):
        Interp.__init__(self, prog, **kw)
        self.clauses = {}

    # ---- obligations
    def require(self, cond, clause, detail=''):
        """cond: bool, abstract scalar, or ('le0'|'eq0'|'ne0', Lin)."""
        self.clauses[clause] = self.clauses.get(clause, 0) + 1
        if callable(detail) and not isinstance(detail, str):
            pass
        if isinstance(cond, Top):
            raise PathEnd('unknown', 'clause "%s" depends on %s' % (clause, cond.why))
        if isinstance(cond, Lin):
            ok = self.truth(cond)
        elif isinstance(cond, tuple):
            k, l = cond
            if isinstance(l, Top):
                raise PathEnd('unknown', 'clause "%s" depends on %s' % (clause, l.why))
            l = self.expand(l)
            ok = not self.branch('eq0', l) if k == 'ne0' else self.branch(k, l)
        else:
            ok = bool(cond)
        if not ok:
            d = detail() if callable(detail) else detail
            raise PathEnd('fail', (clause, d))

    def req_eq(self, a, b, clause):
        a, b = self.load_any(a), self.load_any(b)
        for x in (a, b):
            if isinstance(x, Top):
                raise PathEnd('unknown', 'clause "%s" depends on %s' % (clause, x.why))
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            self.clauses[clause] = self.clauses.get(clause, 0) + 1
            if not self.value_eq(a, b):
                raise PathEnd('fail', (clause, 'got %r, specified %r' % (a, b)))
            return
        self.require(('eq0', a - b), clause, 'got %r, specified %r' % (a, b))

    def load_any(self, v):
        if isinstance(v, Ptr) and v.cell is not None:
            return self.load(v)
        return self.force(v)

    # ---- splitting on the specification's own conditions
    def cond(self, op, a, b):
        return self.compare(op, L(a), L(b), None)

    def inp(self, name, lo, hi):
        s = sym(name, lo, hi)
        return s

    # ---- objects
    def tid(self, *names):
        for n in names:
            if n in self.p.tindex:
                return self.p.tindex[n]
        raise AnalysisError('type %s not found in the program' % (names,))

    def val(self, v):
        """prvalue of a location or value"""
        if isinstance(v, Ptr) and v.cell is not None:
            return self.load(v)
        return self.force(v)

    def loc_of(self, v):
        return v if isinstance(v, Ptr) else self.alloc(v, 'in')

    def new(self, cls, *args, kinds=None):
        """Object built by a constructor of cls taking len(args) arguments."""
        def ok(f):
            if not f.get('ctor') or f.get('copy') or f.get('move') or f.get('deleted'):
                return False
            if kinds:
                for p, k in zip(f['params'], kinds):
                    t = self.p.types[p['t']]
                    while t['k'] == 'ref':
                        t = self.p.types[t['to']]
                    if k and not re.search(k, t['s']):
                        return False
            return True
        base = cls.split('<')[0]
        name = base + '::' + base.split('::')[-1]
        fs = [f for f in self.p.find(name, None, ok) if f.get('cls', cls) == cls and len(f['params']) >= len(args) and
              all('def' in p for p in f['params'][len(args):])]
        if not fs:
            if not args and cls in self.p.records:
                this = self.alloc(self.new_obj(cls), 'o')
                self.default_members(cls, this)
                return self.st.cells[this.cell]
            raise AnalysisError('constructor %s/%d not found' % (name, len(args)))
        f = fs[0]
        return self.construct_rec(cls, {'usr': f['usr']}, list(args), {'k': 'ctor'})

    def m(self, obj, name, *args, nparams=None, pred=None):
        """Call a member function on an object (location or value)."""
        this = self.loc_of(obj)
        v = self.load(this)
        if isinstance(v, UPtr):
            this = v.p()
            v = self.load(this)
        if isinstance(v, Top):
            return v
        cls = v.cls
        f = self.method(cls, name, len(args) if nparams is None else nparams, pred, args)
        return self.call_def(f, this, self.byval(f, args), {'k': 'call'})

    def byval(self, f, args):
        """arguments of class type taken by value are passed as values"""
        out = []
        for p, a in zip(f['params'], args):
            t = self.p.types[p['t']]
            if isinstance(a, Ptr) and a.cell is not None and t['k'] == 'rec' and t.get('repo'):
                a = self.load(a)
            out.append(a)
        return out + list(args[len(out):])

    def takes(self, f, args):
        """Can the parameters be bound to the arguments without a conversion between classes?"""
        for q, a in zip(f['params'], args):
            v = self.load(a) if isinstance(a, Ptr) and a.cell is not None else a
            t = self.p.types[q['t']]
            while t['k'] == 'ref':
                t = self.p.types[t['to']]
            if isinstance(v, Obj) and t['k'] == 'rec' and t.get('rec') != v.cls:
                c, todo, seen = False, [v.cls], set()
                while todo:
                    r = self.p.records.get(todo.pop())
                    for b in (r['bases'] if r else ()):
                        b = self.p.types[b].get('rec')
                        if b == t.get('rec'):
                            c = True
                        if b and b not in seen:
                            seen.add(b)
                            todo.append(b)
                if not c:
                    return False
        return True

    def method(self, cls, name, n, pred=None, args=None):
        todo = [cls]
        while todo:
            c = todo.pop(0)
            fs = [f for f in self.p.find(c + '::' + name, n, pred)]
            ex = [f for f in fs if f.get('cls') == c]
            fs = ex or fs
            if fs:
                if args and len(fs) > 1:
                    fs = [f for f in fs if self.takes(f, args)] or fs
                return fs[0]
            r = self.p.records.get(c)
            base = c.split('<')[0]
            if base != c:
                fs = [f for f in self.p.find(base + '::' + name, n, pred) if f.get('cls') == c]
                if fs:
                    return fs[0]
            if r:
                for b in r['bases']:
                    bt = self.p.types[b]
                    if bt.get('repo'):
                        todo.append(bt['rec'])
        raise AnalysisError('member %s::%s/%d not found' % (cls, name, n))

    def fcall(self, q, *args, pred=None, nparams=None):
        f = self.p.fn(q, len(args) if nparams is None else nparams, pred)
        return self.call_def(f, None, self.byval(f, args), {'k': 'call'})

    def call_op(self, q, ptype, *args):
        """free (or friend) operator whose first parameter mentions ptype"""
        def pred(f):
            t = self.p.types[f['params'][0]['t']]
            while t['k'] == 'ref':
                t = self.p.types[t['to']]
            return ptype.split('::')[-1] in t['s']
        name = q.split('::')[-1]
        for k in sorted(self.p.byqual):
            if k.split('::')[-1] == name and not k.startswith(('std::', 'absl::')):
                for f in self.p.byqual[k]:
                    if len(f['params']) == len(args) and f.get('body') and pred(f):
                        return self.call_def(f, None, self.byval(f, args), {'k': 'call'})
        raise AnalysisError('%s on %s not found' % (q, ptype))

    # ---- ErrorOr
    def ok(self, r):
        return self.truth(self.val(self.m(r, 'ok')))

    def value(self, r):
        """payload of a successful ErrorOr"""
        return self.val(self.value_loc(r))

    def value_loc(self, r):
        r = self.loc_of(r)
        for pred in (lambda f: f.get('refq') != 2, None):
            try:
                v = self.m(r, 'operator*', pred=pred)
                break
            except AnalysisError:
                v = None
        if v is None:
            v = self.m(r, 'operator->')
        return self.loc_of(v)

    def error(self, r):
        return self.val(self.m(self.loc_of(r), 'error'))

    # ---- addresses
    def addr(self, bank, off):
        return self.new('nsasm::Address', L(bank), L(off))

    def addr_val(self, a):
        a = self.loc_of(a)
        b = self.val(self.m(a, 'Bank'))
        o = self.val(self.m(a, 'BankAddress'))
        if isinstance(b, Top):
            return b
        if isinstance(o, Top):
            return o
        return b.scale(65536) + o


ONLY = os.environ.get('NSA_ONLY')


_jobs = None


def _init():
    sys.setrecursionlimit(100000)


def _job(i):
    import threading
    c, q = _jobs
    out = []
    t = threading.Thread(target=lambda: out.append(c._one(q[i])))
    t.start()
    t.join()
    return out[0] if out else {'res': {'name': q[i][0], 'partitions': 0, 'held': 0, 'beyond_bound': 0, 'undecided': 1, 'violations': 0, 'steps': 0},
                               'und': [q[i][0] + ': analysis failed'], 'viol': [], 'samples': [], 'visited': {}, 'sites': set(), 'clauses': {}}


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.stats = {'partitions': 0, 'discharged': 0, 'cut': 0, 'undecided': 0, 'steps': 0}
        self.scen = []
        self.viol = []          # (key, text)
        self.und = []
        self.known_hit = []
        self.functions = {}
        self.clauses = {}
        self.sites = set()
        self.rules = []
        self.samples = []
        self.obls = 0           # structural obligations
        self.obl_ok = 0
        self.notes = []
        self._prog = {}
        self.queue = []

    def prog(self, units=None):
        k = tuple(units) if units else None
        if k not in self._prog:
            self._prog[k] = Program(list(units) if units else lib_units())
        return self._prog[k]

    # ---- semantic scenario
    def scenario(self, name, fn, prog=None, ub=True, unroll=None, setup=None, ignore=(), max_paths=6000, max_steps=4000000,
                 budget=None):
        """Analyse `fn(ip)`; every partition must discharge its obligations."""
        if ONLY and not re.search(ONLY, name):
            return
        self.queue.append((name, fn, prog or self.prog(), ub, unroll, setup, ignore, max_paths, max_steps))

    def flush(self):
        """Analyse the registered scenarios, in parallel."""
        q, self.queue = self.queue, []
        if not q:
            return
        jobs = int(os.environ.get('NSA_JOBS', '0')) or min(os.cpu_count() or 4, 8)
        if jobs == 1 or len(q) == 1:
            for x in q:
                self._take(self._one(x))
            return
        import multiprocessing as mp
        global _jobs
        _jobs = (self, q)
        ctx = mp.get_context('fork')
        with ctx.Pool(min(jobs, len(q)), initializer=_init) as pool:
            for r in pool.imap(_job, range(len(q)), chunksize=1):
                self._take(r)

    def _take(self, r):
        self.scen.append(r['res'])
        self.und += r['und']
        for v in r['viol']:
            self.violation(*v)
        self.functions.update(r['visited'])
        self.sites |= r['sites']
        self.samples = (self.samples + r['samples'])[:10]
        for k, n in r['clauses'].items():
            self.clauses[k] = self.clauses.get(k, 0) + n
        res = r['res']
        self.stats['partitions'] += res['partitions']
        self.stats['discharged'] += res['held']
        self.stats['cut'] += res['beyond_bound']
        self.stats['undecided'] += res['undecided']
        self.stats['steps'] += res['steps']
        if r.get('error'):
            raise AnalysisError(r['error'])

    def _one(self, x):
        name, fn, prog, ub, unroll, setup, ignore, max_paths, max_steps = x
        if unroll is None:
            unroll = 3 if self.tier == 'quick' else 5
        ip = Spec(prog, unroll=unroll, max_paths=max_paths, max_steps=max_steps if self.tier == 'quick' else max_steps * 6)
        if self.tier == 'quick':        # an answer in time is worth more than the last scenarios
            ip.deadline = self.t0 + float(os.environ.get("NSA_TIME", 780))
        if setup:
            setup(ip)
        res = {'name': name, 'partitions': 0, 'held': 0, 'beyond_bound': 0, 'undecided': 0, 'violations': 0}
        R = {'res': res, 'und': [], 'viol': [], 'samples': []}
        t = time.time()
        try:
            outs = ip.explore(lambda: fn(ip), State())
        except AnalysisError as e:
            outs = []
            res['undecided'] += 1
            R['und'].append('%s: %s' % (name, e))
        except (Limit, RecursionError) as e:
            outs = [o for o in ip.found if o.kind not in ('return', 'cut')]
            res['undecided'] += 1
            R['und'].append('%s: %s' % (name, e))
        except Exception as e:
            if os.environ.get('NSA_DEBUG'):
                traceback.print_exc()
            outs = []
            res['undecided'] += 1
            R['und'].append('%s: analysis failed: %s' % (name, ''.join(traceback.format_exception_only(type(e), e)).strip()))
        for o in outs:
            self.judge(name, o, res, ub, ignore, R)
        res['wall_s'] = round(time.time() - t, 2)
        res['steps'] = ip.steps
        R['visited'] = ip.visited
        R['sites'] = ip.sites
        R['clauses'] = ip.clauses
        if os.environ.get('NSA_DEBUG') and ip.unsupported:
            print('   unsupported:', ip.unsupported)
        return R

    def judge(self, name, o, res, ub, ignore, R):
        res['partitions'] += 1
        if o.kind == 'return':
            res['held'] += 1
            if len(R['samples']) < 6:
                R['samples'].append('%s: %s' % (name, '; '.join(o.st.path()[-4:]) or 'unconditional'))
            return
        if o.kind == 'cut':
            res['beyond_bound'] += 1
            return
        if o.kind == 'unknown':
            res['undecided'] += 1
            R['und'].append('%s: %s' % (name, o.v))
            return
        if o.kind == 'fail':
            clause, detail = o.v
            key = '%s|%s' % (name, clause)
            text = '%s: %s' % (clause, detail)
        elif o.kind == 'ub':
            k, site, txt = o.v[:3]
            if not ub or k in ignore:
                res['held'] += 1
                return
            key = '%s|%s|%s' % (name, k, o.v[3] if len(o.v) > 3 else '?')
            text = '%s at %s %s' % (k, site, txt)
        elif o.kind in ('exit', 'throw'):
            if o.kind in ignore:
                res['held'] += 1
                return
            key = '%s|%s' % (name, o.kind)
            text = 'does not return (%s %s)' % (o.kind, o.v)
        else:
            res['undecided'] += 1
            R['und'].append('%s: outcome %s' % (name, o.kind))
            return
        if o.st.taint:
            res['undecided'] += 1
            R['und'].append('%s: %s -- after imprecise values: %s' % (name, text, '; '.join(o.st.taint[:3])))
            return
        val = find_witness(o.st.facts, seed=self.seed or 1)
        if val is None:
            if empty(o.st.facts):
                res['held'] += 1
                return
            res['undecided'] += 1
            R['und'].append('%s: %s -- no member of the partition exhibited' % (name, text))
            return
        res['violations'] += 1
        wit = []
        for a, x in sorted(val.v.items(), key=lambda t: str(t[0])):
            if a.key[0] == 's' and not str(a.key[1]).startswith('_'):
                wit.append('%s = %s' % (a.key[1], x))
        for k, x in list(val.els.items())[:12]:
            wit.append('%r = %s' % (k, x))
        R['viol'].append((key, text, ['scenario: ' + name] + ['  path ' + p for p in o.st.path()] +
                       ['  with ' + w for w in wit] + ['  effects %r' % (e,) for e in o.st.ev[-12:]]))

    # ---- structural obligations
    def rule(self, text):
        self.rules.append(text)

    def site(self, ok, key, text, detail=()):
        """One instance of a structural rule."""
        self.obls += 1
        if ok is None:
            self.und.append(text)
            return
        if ok:
            self.obl_ok += 1
            if len(self.samples) < 10:
                self.samples.append(text)
        else:
            self.violation(key, text, list(detail))

    def violation(self, key, text, detail=()):
        for k in known(self.pid):
            if re.fullmatch(k['key'], key):
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        self.viol.append((key, text, list(detail)))

    def need(self, n, what, least=1):
        if n < least:
            raise AnalysisError('%s: %d instances found, at least %d expected' % (what, n, least))

    # ---- reporting
    def finish(self, explanation, assumptions=()):
        out = []
        seen = set()
        rp = os.path.join(VERIF, 'evidence', 'replay', self.pid + '.txt')
        for k in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        uniq = []
        for key, text, detail in self.viol:
            if key in seen:
                continue
            seen.add(key)
            uniq.append((key, text, detail))
        if uniq:
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            with open(rp, 'w') as f:
                for key, text, detail in uniq:
                    f.write('property %s\nrule instance %s\n%s\n' % (self.pid, key, text))
                    for d in detail:
                        f.write(d + '\n')
                    f.write('\n')
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': explanation,
                'scenarios': self.scen,
                'partitions': self.stats['partitions'],
                'partitions_discharged': self.stats['discharged'],
                'partitions_beyond_loop_bound': self.stats['cut'],
                'partitions_undecided': self.stats['undecided'],
                'undecided': self.und[:20],
                'clauses': self.clauses,
                'structural_obligations': self.obls,
                'structural_discharged': self.obl_ok,
                'rules': self.rules,
                'functions_analysed': len(self.functions),
                'functions': dict(sorted(self.functions.items())[:80]),
                'runtime_obligation_sites': len(self.sites),
                'samples': self.samples[:10] or ['-'],
                'known_findings': [k['what'] for k in self.known_hit],
            },
            'assumptions': list(assumptions),
            'wall_s': round(time.time() - self.t0, 2),
            'violations': [{'key': k, 'text': t} for k, t, _ in uniq],
        }
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        quiet = len(self.scen) > 24 and not os.environ.get('NSA_DEBUG')
        print('  %d scenarios, %d partitions: %d held, %d beyond the loop bound, %d undecided' %
              (len(self.scen), self.stats['partitions'], self.stats['discharged'], self.stats['cut'], self.stats['undecided']))
        for s in self.scen:
            if quiet and not s['undecided'] and not s['violations'] and s['partitions']:
                continue
            print('  %-46s partitions %5d  held %5d  beyond-bound %4d  undecided %4d  violated %d  (%.1fs)' %
                  (s['name'][:46], s['partitions'], s['held'], s['beyond_bound'], s['undecided'], s['violations'], s.get('wall_s', 0)))
        if self.obls:
            print('  structural rule instances: %d, hold: %d' % (self.obls, self.obl_ok))
        for u in self.und[:12]:
            print('  UNDECIDED ' + u)
        for key, text, detail in uniq[:12]:
            print('  %s :: %s' % (key, text))
        if uniq:
            for key, text, detail in uniq[:3]:
                for d in detail[:40]:
                    print('     ' + d)
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if self.stats['discharged'] == 0 and self.obl_ok == 0 and not self.und:
            print('analysis decided nothing')
            return 2
        return 0


def lib_units():
    import glob
    us = sorted(glob.glob(os.path.join(REPO, 'nsasm', '*.cc')))
    us = [os.path.relpath(u, REPO) for u in us if not u.endswith('_test.cc')]
    t = 'test/test_sink.cc'
    if os.path.exists(os.path.join(REPO, t)):
        us.append(t)
    us.append(os.path.join(VERIF, 'props', 'inst.cc'))
    return us


_known = None


def known(pid):
    global _known
    if _known is None:
        p = os.path.join(VERIF, 'known_findings.json')
        _known = json.load(open(p)) if os.path.exists(p) else {'findings': []}
    return [k for k in _known['findings'] if k['property'] == pid]
