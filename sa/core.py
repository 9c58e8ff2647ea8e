"""Running a check: obligations, verdicts, evidence."""
import importlib, json, os, pickle, re, subprocess, sys, time, traceback
from . import engine as eng
from .engine import Engine, Lost, Missing, Mut, State, LoopRec, evlist
from .terms import *
from .prog import Prog
from .models import strip

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MIRDIR = os.path.join(ROOT, 'target', 'mir')

class Undecided(Exception): pass

# library calls whose result is known to differ from their argument for some argument:
# a value that goes through one of these is not the value itself
ALTERING = re.compile(r'(trim\w*|to_(ascii_)?(lower|upper)case|replace\w*|truncate|drain|rev|reverse|sort\w*|dedup\w*|escape_\w+|repeat|strip_\w+|remove|swap\w*|r?split\w*|pop|clear|retain|'
                      r'rotate_\w+|saturating_sub|wrapping_\w+|min|max|abs_diff|div_ceil|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr|mul|skip|take|step_by|chunks|windows|rem_euclid|file_name|extension|with_extension|set_extension|to_string_lossy|parent|nth|last|count)$')

FREE = frozenset(['text_of', 'gen', 'cmdresult', 'ast', 'plugin', 'plugins', 'json', 'merge', 'file', 'toml', 'token0', 'token1', 'tokens', 'cst', 'expanded', 'text'])

class Ctx:
    def __init__(self, pid, prog, tier):
        self.pid = pid; self.prog = prog; self.tier = tier
        self.obs = []                 # (key, status, detail)
        self.violations = {}          # key -> detail
        self.funcs = {}               # analysed function -> times
        self.samples = []
        self.counts = {}
        self.engines = []
        self.rule = ''
        self.end = time.time() + (480 if tier == 'quick' else 5400)      # what is not analysed by then stays undecided
        self.assumptions = []
        self.notes = []
        self.xstats = [0, 0, set()]   # engine steps, loops and opaque callees of forked workers
        self.free = FREE              # symbols the checks introduced themselves: any value at all

    # ---- obligations
    def ok(self, key, detail=''):
        self.obs.append((key, 'ok', detail))
    def bad(self, key, where, detail):
        """key: stable identity of the failing construct; where: file/function"""
        self.obs.append((key, 'bad', detail))
        self.violations.setdefault(key, (where, detail))
    def undecided(self, key, why):
        self.obs.append((key, 'undecided', why))
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)
    def floor(self, name, n, least):
        self.counts[name] = n
        if n < least:
            self.bad('floor:' + name, 'analysis', '%s: found %d, at least %d expected; the anchor this property rests on is gone' % (name, n, least))

    def guarded(self, fn, key, *a):
        if time.time() > self.end: self.undecided(key, 'out of time'); return
        try: fn(self, *a)
        except Undecided as x: self.undecided(key, str(x))
        except Missing as x: self.bad('anchor:%s' % x, 'analysis', 'public function %s not found; the property cannot be located' % x)
        except Exception as x:
            if os.environ.get('SA_DEBUG'): raise
            self.undecided(key, 'analysis error %s: %s' % (type(x).__name__, str(x)[:200]))
            self.notes.append(traceback.format_exc(limit=-4))

    def pmap(self, fn, items, n=8):
        """fn(ctx, item) for every item, in n forked workers; their obligations are merged in item order"""
        items = list(items); n = min(n, len(items)) or 1
        kids = []
        for w in range(n):
            r, wr = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(r); out = []
                try:
                    self.samples = []; self.notes = []; self.counts = {}; self.funcs = {}; self.engines = []; self.xstats = [0, 0, set()]
                    for i in range(w, len(items), n):
                        self.obs = []; self.violations = {}
                        self.guarded(fn, '%s/%s' % (fn.__name__, items[i]), items[i])
                        out.append((i, self.obs, self.violations))
                        for e in self.engines: self._stat(e)
                        self.engines = []
                    data = pickle.dumps((out, self.funcs, self.samples, self.counts, self.notes, self.xstats))
                    with os.fdopen(wr, 'wb') as f: f.write(data)
                except BaseException: traceback.print_exc()
                os._exit(0)
            os.close(wr); kids.append((w, pid, r))
        got = {}
        for w, pid, r in kids:
            with os.fdopen(r, 'rb') as f: data = f.read()
            os.waitpid(pid, 0)
            if not data:
                self.undecided('%s/worker%d' % (fn.__name__, w), 'worker ended early'); continue
            out, funcs, samples, counts, notes, xs = pickle.loads(data)
            for i, o, v in out: got[i] = (o, v)
            for k, m in funcs.items(): self.funcs[k] = self.funcs.get(k, 0) + m
            for x in samples: self.sample(x)
            for k, m in counts.items(): self.counts[k] = self.counts.get(k, 0) + m
            self.notes += notes
            self.xstats[0] += xs[0]; self.xstats[1] += xs[1]; self.xstats[2] |= xs[2]
        for i in sorted(got):
            o, v = got[i]; self.obs += o
            for k, x in v.items(): self.violations.setdefault(k, x)

    def _stat(self, e):
        self.xstats[0] += e.steps; self.xstats[1] += len(e.loops); self.xstats[2] |= {str(k) for k in e.opaque}

    # ---- program access
    def fn(self, name):
        f = self.prog.find(name)
        if f is None: raise Missing(name)
        return f
    def where(self, f):
        return '%s (%s)' % (strip(f.name), re.sub(r':\d+.*$', '', f.d.get('span') or ''))

    def engine(self, hooks=None, **kw):
        """hooks are given by function name and bound to definition keys"""
        h = {}
        for n, v in (hooks or {}).items():
            f = self.prog.find(n)
            if f is not None: h[f.key] = v
            h[n] = v
        e = Engine(self.prog, h, **kw)
        e.deadline = min(time.time() + (60 if self.tier == 'quick' else 240), self.end)
        self.engines.append(e)
        return e

    def run(self, e, f, args, st=None):
        if isinstance(f, str): f = self.fn(f)
        try: outs = e.run(f, args, st)
        except Lost as x: raise Undecided('%s: %s [in %s]' % (f.name, x, ' > '.join(k for k, _, _ in e.stack[-3:])))
        except RecursionError: raise Undecided('%s: term recursion' % f.name)
        else:
            for o in outs: self.known(e, o[0].facts)
            for x in e.panics: self.known(e, x.facts)
        finally:
            for k, n in e.fns_seen.items(): self.funcs[k] = self.funcs.get(k, 0) + n
            e.stack.clear()
        return outs

    def known(self, e, facts):
        """a path that hinges on the result of a library function nothing is known of proves nothing"""
        if not e.unmodelled: return
        for x in facts.items():
            for t in x[1:]:
                if isinstance(t, T) and any_sub(t, lambda y: y.t == 'app' and y.a[0] in e.unmodelled):
                    raise Undecided('the path hinges on the result of %s, which is not modelled' % ', '.join(sorted(n for n in e.unmodelled if not n.startswith('mut'))[:4]))

    # ---- comparing values
    def norm(self, st, t):
        """replace terms by the literals the state knows them to equal"""
        m = dict(st.facts.eq)
        if m: t = subst(t, m)
        z = {}
        def rec(x, seen):
            if x in seen: return
            seen.add(x)
            if x.t in ('fm', 'sl', 'fms'):
                n = x.a[0] if x.t != 'sl' else sub(x.a[2], x.a[1])
                if st.facts.nonneg(neg(n)): z[x] = EMPTY if x.t == 'fms' else NIL
            for y in subterms(x): rec(y, seen)
        rec(t, set())
        return subst(t, z) if z else t

    def same(self, e, st, got, want, depth=0):
        """True / False / None for equality of two values under the facts of st"""
        if got is want: return True
        r = e.decide_eq(st, got, want)
        if r is not None: return r
        if all(x.t in ('int', 'lin') or x in NONNEG for x in (got, want)):
            c = st.facts.cmp0(sub(got, want))
            if c == {'='}: return True
            if '=' not in c: return False
        got, want = self.norm(st, got), self.norm(st, want)
        if got is want: return True
        if depth < 12:
            for t in (got, want):
                if t.t == 'ite':
                    res = []
                    for s2, b in e.split_bool(st.copy(), t.a[0]):
                        x = t.a[1] if b else t.a[2]
                        res.append(self.same(e, s2, x, want, depth + 1) if t is got else self.same(e, s2, got, x, depth + 1))
                    if all(x is True for x in res): return True
                    if any(x is False for x in res): return False
                    return None
            if got.t == 'adt' and want.t == 'adt':
                if got.a[0] != want.a[0]: return None
                if got.a[1] != want.a[1]: return False
                return self.all3([self.same(e, st, a, b, depth + 1) for a, b in zip(got.a[3], want.a[3])])
            if got.t == 'adt' or want.t == 'adt':
                A, o = (got, want) if got.t == 'adt' else (want, got)
                s = st.facts.vs.get(o)
                if s is not None and len(s) == 1:
                    if next(iter(s)) != A.a[1]: return False
                    return self.all3([self.same(e, st, f, fld(o, n), depth + 1) for n, f in zip(A.a[2], A.a[3])])
            for A, o in ((got, want), (want, got)):
                if A.t == 'updf' and o.t not in ('adt', 'updf'):
                    b = self.same(e, st, A.a[0], o, depth + 1)
                    if b is True: return self.all3([self.same(e, st, x, fld(o, n), depth + 1) for n, x in A.a[1]])
                    if any(self.same(e, st, x, fld(o, n), depth + 1) is False for n, x in A.a[1]): return False
            if got.t == 'tup' and want.t == 'tup' and len(got.a) == len(want.a):
                return self.all3([self.same(e, st, a, b, depth + 1) for a, b in zip(got.a, want.a)])
        if self.definite(got, want): return False
        return None

    def all3(self, rs):
        if any(r is False for r in rs): return False
        if all(r is True for r in rs): return True
        return None

    def definite(self, got, want):
        """two different normal forms made of the same understood atoms denote different values"""
        wa = set(); self.atoms(want, wa)
        ga = set(); self.atoms(got, ga)
        for x in ga | wa:
            if x in wa and x in ga: continue
            if x[0] == 'fuzzy': return False
            if x[0] == 'app' and not (isinstance(x[1], str) and (x[1] in self.free or ALTERING.search(x[1].split('::')[-1]))) and x not in wa: return False
        return True

    def atoms(self, t, out, seen=None):
        if seen is None: seen = set()
        if t in seen: return
        seen.add(t)
        if t.t in ('mu', 'mua', 'rec', 'recmut', 'uninit', 'updf', 'itfilter', 'itflat') or t.t.startswith('it') and t.t != 'ite': out.add(('fuzzy', t.id)); return
        if t.t == 'app' and t.a[0] == 'hmget' and t.a[1].t == 'hm': out.add(('fuzzy', t.id)); return
        if t.t == 'app':
            out.add(('app', t.a[0]))
            # splitting a composite text may well give back one of its parts
            if isinstance(t.a[0], str) and re.match(r'r?split', t.a[0].split('::')[-1]) and len(t.a) > 1 and t.a[1].t not in ('v', 'fld'): out.add(('fuzzy', t.id)); return
        for s in subterms(t): self.atoms(s, out, seen)

    def expect(self, e, st, key, where, got, want, what):
        r = self.same(e, st, got, want)
        if r is True: self.ok(key, what)
        elif r is False: self.bad(key, where, '%s: is %s, must be %s' % (what, show(got)[:400], show(want)[:400]))
        else: self.undecided(key, '%s: cannot compare %s with %s' % (what, show(got)[:300], show(want)[:300]))
        return r

def load_findings():
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m: out.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return out

def extract():
    r = subprocess.run([os.path.join(ROOT, 'bin', 'extract.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def keyfmt(k): return re.sub(r'\s+', '_', k)

def check(pid, tier, skip_extract=False):
    t0 = time.time()
    sys.setrecursionlimit(20000)
    if not skip_extract:
        rc, out = extract()
        if rc != 0:
            print(out[-3000:]); print('the tree does not type-check: nothing can be decided'); return 3
    prog = Prog(MIRDIR)
    ctx = Ctx(pid, prog, tier)
    mod = importlib.import_module('sa.checks.' + pid.lower())
    ctx.free = FREE | frozenset(getattr(mod, 'FREE', ()))
    for part in mod.PARTS:
        ctx.guarded(part, part.__name__)
    for e in ctx.engines: ctx._stat(e)
    known = load_findings().get(pid, {})
    vio = {k: v for k, v in ctx.violations.items() if keyfmt(k) not in known}
    for k in ctx.violations:
        if keyfmt(k) in known: print('KNOWN-FINDING: property=%s %s' % (pid, known[keyfmt(k)]))
    n_ok = len([1 for o in ctx.obs if o[1] == 'ok']); n_un = [o for o in ctx.obs if o[1] == 'undecided']
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    cov = {
        'explanation': mod.RULE,
        'obligations': len(ctx.obs), 'discharged': n_ok, 'undecided': len(n_un),
        'undecided_obligations': [{'key': k, 'why': w[:300]} for k, _, w in n_un][:40],
        'functions_analysed': sorted(ctx.funcs), 'analysed_function_instances': sum(ctx.funcs.values()),
        'bodies_in_program': prog.nfns,
        'engine_steps': ctx.xstats[0], 'loops_summarised': ctx.xstats[1],
        'opaque_callees': sorted(ctx.xstats[2])[:60],
        'counts': ctx.counts,
        'samples': ctx.samples or [{'obligation': k, 'status': s, 'detail': d[:300]} for k, s, d in ctx.obs[:8]],
    }
    if ctx.notes: cov['notes'] = ctx.notes[:5]
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': getattr(mod, 'LEVEL', 'other'), 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMES', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(vio)}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    rep = os.path.join(ROOT, 'evidence', pid + '.report.txt')
    with open(rep, 'w') as f:
        for k, (w, d) in sorted(ctx.violations.items()): f.write('[%s]\n  at   %s\n  %s\n' % (keyfmt(k), w, d))
        for k, _, w in n_un: f.write('[undecided %s] %s\n' % (k, w))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions; %.1fs' % (pid, len(ctx.obs), n_ok, len(n_un), len(ctx.violations), len(ctx.funcs), time.time() - t0))
    if n_un and os.environ.get('SA_VERBOSE'):
        for k, _, w in n_un[:20]: print('  undecided', k, w[:400])
    if vio:
        for k, (w, d) in sorted(vio.items())[:12]: print('  %s\n    at %s\n    %s' % (keyfmt(k), w, d[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    return 0
