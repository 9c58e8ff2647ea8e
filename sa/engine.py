"""Interprocedural, path-sensitive dataflow over MIR in the value-numbering
domain of terms.py.

States are joined at control-flow merges, loops are brought to a fixpoint by
generalising what the body changes (anti-unification), and the accumulators of
counted loops are closed into element-wise summaries.  Nothing is executed and
no path condition leaves this process: facts are variant sets, literal
(dis)equalities, boolean atoms and linear inequalities decided by the small
rules in Facts."""
import re, time
from . import terms as tm
from .terms import *
from .terms import _tab

class Lost(Exception):
    pass

class _NoAU(Exception): pass

ITTAGS = ('itmap', 'itfilter', 'itfmap', 'itenum', 'ittake', 'itchain', 'itzip', 'itpeek', 'itflat', 'itskipw', 'ittakew', 'itmapw', 'itmut', 'itskip', 'itinsp')

# ------------------------------------------------------------------ facts
class Facts:
    __slots__ = ('vs', 'eq', 'ne', 'bl', 'ge')
    def __init__(self):
        self.vs = {}; self.eq = {}; self.ne = {}; self.bl = {}; self.ge = frozenset()

    def copy(self):
        f = Facts.__new__(Facts)
        f.vs = self.vs; f.eq = self.eq; f.ne = self.ne; f.bl = self.bl; f.ge = self.ge
        return f

    # all mutators replace dictionaries (copy on write)
    def set_vs(self, t, s):
        self.vs = {**self.vs, t: frozenset(s)}
    def set_eq(self, t, c):
        self.eq = {**self.eq, t: c}
    def add_ne(self, t, c):
        self.ne = {**self.ne, t: self.ne.get(t, frozenset()) | {c}}
    def set_bl(self, t, b):
        self.bl = {**self.bl, t: b}
    def add_ge(self, l):
        if l.t != 'int': self.ge = self.ge | {l}

    def items(self):
        for t, s in self.vs.items(): yield ('vs', t, s)
        for t, c in self.eq.items(): yield ('eq', t, c)
        for t, cs in self.ne.items():
            for c in cs: yield ('ne', t, c)
        for t, b in self.bl.items(): yield ('bl', t, Bool(b))
        for l in self.ge: yield ('ge', l)

    def key(self):
        return frozenset(self.items())

    # --- linear
    def nonneg(self, l, depth=2):
        """prove l >= 0"""
        if l is INF: return True
        if l.t == 'int': return l.a[0] >= 0
        c, d = lin_parts(l)
        if c >= 0 and all(v > 0 and (t in NONNEG or t.t == 'bv') for t, v in d.items()): return True
        if l in self.ge: return True
        if depth == 0: return False
        for g in self.ge:
            gc, gd = lin_parts(g)
            # helps only if it cancels a term
            if any(t in gd and (v < 0) == (gd[t] < 0) and v * gd[t] > 0 for t, v in d.items() if v < 0 or t not in NONNEG):
                if self.nonneg(sub(l, g), depth - 1): return True
        # literal equalities of integer terms
        for t, v in d.items():
            e = self.eq.get(t)
            if e is not None and e.t == 'int':
                return self.nonneg(subst(l, {t: e}), depth - 1) if depth else False
        return False

    def cmp0(self, l):
        """sign knowledge of l: returns set subset of {'<','=','>'} still possible"""
        if l.t == 'int':
            return {'=' if l.a[0] == 0 else '>' if l.a[0] > 0 else '<'}
        s = {'<', '=', '>'}
        if self.nonneg(l): s.discard('<')
        if self.nonneg(neg(l)): s.discard('>')
        if '<' not in s and self.nonneg(sub(l, Int(1))): s.discard('=')
        if '>' not in s and self.nonneg(sub(neg(l), Int(1))): s.discard('=')
        if l in self.ne and Int(0) in self.ne[l]: s.discard('=')
        n = neg(l)
        if n in self.ne and Int(0) in self.ne[n]: s.discard('=')
        return s

def join_facts(fs):
    r = Facts()
    a = fs[0]
    for t, s in a.vs.items():
        u = s
        for f in fs[1:]:
            if t in f.vs: u = u | f.vs[t]
            else: u = None; break
        if u is not None: r.vs[t] = u
    for t, c in a.eq.items():
        if all(f.eq.get(t) is c for f in fs[1:]): r.eq[t] = c
    for t, cs in a.ne.items():
        i = cs
        for f in fs[1:]:
            o = f.ne.get(t, frozenset())
            e = f.eq.get(t)
            i = frozenset(c for c in i if c in o or (e is not None and e is not c))
        if i: r.ne[t] = i
    for t, b in a.bl.items():
        if all(f.bl.get(t) == b for f in fs[1:]): r.bl[t] = b
    r.ge = frozenset(g for g in a.ge if all(g in f.ge or f.nonneg(g, 1) for f in fs[1:]))
    return r

# ------------------------------------------------------------------ events
class Ev:
    __slots__ = ('prev', 'fn', 'args', 'res', 'site', 'facts', 'n', 'k')
    def __init__(self, prev, fn, args, res, site, facts):
        self.prev = prev; self.fn = fn; self.args = args; self.res = res; self.site = site; self.facts = facts
        self.n = (prev.n if prev else 0) + 1
        self.k = (prev.k if prev else None, fn, args, res)
        # interned key: compare by structure, not by facts
        k = (id(_evk(prev)) if prev else 0, fn, args, res)
        kk = _evtab.get(k)
        if kk is None: kk = _evtab[k] = [k]
        self.k = kk
    def __repr__(self): return '%s(%s)' % (self.fn, ', '.join(show(a) for a in self.args))

_evtab = {}
def _evk(e): return e.k if e is not None else None

def evlist(e):
    out = []
    while e is not None:
        out.append(e); e = e.prev
    return out[::-1]

class State:
    __slots__ = ('cells', 'facts', 'ev')
    def __init__(self, cells=None, facts=None, ev=None):
        self.cells = cells if cells is not None else {}
        self.facts = facts or Facts(); self.ev = ev
    def copy(self):
        return State(dict(self.cells), self.facts.copy(), self.ev)

class LoopRec:
    """what a generalised loop does, one entry per way through the body"""
    def __init__(self, lid, fn, bb):
        self.lid = lid; self.fn = fn; self.bb = bb
        self.init = {}      # mu -> initial term
        self.trans = []     # (guards, {mu: new}, events)
        self.closed = {}
        self.count = None
        self.body_events = []

class Panic:
    __slots__ = ('site', 'kind', 'why', 'facts', 'fn', 'ev')
    def __init__(self, site, kind, why, facts, fn, ev):
        self.site = site; self.kind = kind; self.why = why; self.facts = facts; self.fn = fn; self.ev = ev
    def __repr__(self): return 'panic %s %s at %s in %s' % (self.kind, self.why, self.site, self.fn)

class Missing(Exception): pass

class Mut:
    def __init__(self, v): self.v = v

class Engine:
    Lost = Lost
    trace = False
    vs_default = None   # vs_default(term) -> possible variants by scenario assumption | None
    join_limit = 6
    cut = None          # cut(e, st, fn, args, call) -> [(state, value)] | None: calls summarised instead of inlined
    def __init__(self, prog, hooks=None, budget=400000, pure_events=False):
        self.prog = prog
        self.hooks = hooks or {}      # callee key/name -> fn(engine, state, args, call) -> [(state, value)] | None
        self.panics = []
        self.lost = []
        self.loops = {}
        self.loop_seq = 0
        self.steps = 0
        self.budget = budget
        self.stack = []               # (fn key, bb)
        self.opaque = {}              # opaque callees seen -> count
        self.supply = None            # what a scripted source has left to give, in a state
        self.unmodelled = set()       # those of them whose result nothing is known about
        self.fns_seen = {}
        self.rec_calls = []
        self.graphemes = {}           # str term -> known to be one grapheme
        self.loop_max = 70          # rounds of a loop followed one by one while its exit is not possible
        self.max_depth = 120
        self.unroll = 1               # activations of one function followed before a call counts as recursive
        self.plain = {}               # str term -> literals it is known to differ from
        self.deadline = None
        self.merges = 0
        self.itctr = []               # loop iteration counters in scope
        from . import models
        self.models = models
        self.max_states = 4000

    # -------------------------------------------------------------- types
    def tydesc(self, crate, tid):
        return crate.types[tid]

    def subst_ty(self, crate, tid, env):
        t = crate.types[tid]
        n = 0
        while t['k'] == 'param' and env and t['name'] in env and n < 5:
            crate, tid = env[t['name']]
            t = crate.types[tid]; n += 1
            env = None
        return crate, tid

    def adt_info(self, path):
        r = self.prog.adts.get(path)
        return r[1] if r else None

    # -------------------------------------------------------------- helpers for state
    def fork_variant(self, st, t, nvar):
        """possible variant indices of symbolic enum term t"""
        if t.t == 'adt': return [t.a[1]]
        s = st.facts.vs.get(t)
        if self.vs_default is not None:
            d = self.vs_default(t)
            if d is not None: s = d if s is None else s & d
        return sorted(s) if s is not None else list(range(nvar))

    def assume_variant(self, st, t, vi):
        if t.t == 'adt': return t.a[1] == vi
        s = st.facts.vs.get(t)
        if self.vs_default is not None:
            d = self.vs_default(t)
            if d is not None: s = d if s is None else s & d
        if s is not None:
            if vi not in s: return False
            if len(s) == 1: return True
        st.facts.set_vs(t, {vi})
        return True

    def split_variant(self, st, t, path):
        """[(state, vi)] for each possible variant of t : enum `path`"""
        if t.t == 'adt': return [(st, t.a[1])]
        if t.t == 'ite':
            out = []
            for s2, b in self.split_bool(st, t.a[0]):
                out.extend(self.split_variant(s2, t.a[1] if b else t.a[2], path))
            return out
        info = self.adt_info(path)
        n = len(info['variants']) if info else 2
        vs = self.fork_variant(st, t, n)
        if len(vs) == 1: return [(st, vs[0])]
        out = []
        for i, v in enumerate(vs):
            s2 = st.copy() if i < len(vs) - 1 else st
            s2.facts.set_vs(t, {v})
            out.append((s2, v))
        return out

    def payload(self, t, name='0'):
        return fld(t, name)

    def opt_cases(self, st, t):
        """Option: [(state, None | payload term)] where python None means None variant"""
        out = []
        for s2, vi in self.split_variant(st, t, OPT):
            out.append((s2, self.payload(t) if vi == 1 else None))
        return out

    def res_cases(self, st, t):
        """Result: [(state, is_ok, payload)]"""
        out = []
        for s2, vi in self.split_variant(st, t, RES):
            out.append((s2, vi == 0, self.payload(t) if not (t.t == 'okor' and vi == 1) else ERR))
        return out

    def decide_bool(self, st, b):
        """True/False/None"""
        if b.t == 'bool': return b.a[0]
        f = st.facts
        if b in f.bl: return f.bl[b]
        k = b.t
        if k == 'not':
            r = self.decide_bool(st, b.a[0]); return None if r is None else (not r)
        if k == 'and':
            r1, r2 = self.decide_bool(st, b.a[0]), self.decide_bool(st, b.a[1])
            if r1 is False or r2 is False: return False
            if r1 and r2: return True
            return None
        if k == 'or':
            r1, r2 = self.decide_bool(st, b.a[0]), self.decide_bool(st, b.a[1])
            if r1 or r2: return True
            if r1 is False and r2 is False: return False
            return None
        if k == 'lt':   # a < b  <=> b - a - 1 >= 0
            d = sub(b.a[1], b.a[0])
            s = f.cmp0(d)
            if s == {'>'}: return True
            if '>' not in s: return False
            return None
        if k == 'ieq':
            s = f.cmp0(sub(b.a[0], b.a[1]))
            if s == {'='}: return True
            if '=' not in s: return False
            return None
        if k == 'eq':
            return self.decide_eq(st, b.a[0], b.a[1])
        if k == 'isv':
            t, vs = b.a
            if t.t == 'adt': return t.a[1] in vs
            s = f.vs.get(t)
            if self.vs_default is not None:
                d = self.vs_default(t)
                if d is not None: s = d if s is None else s & d
            if s is not None:
                if s <= vs: return True
                if not (s & vs): return False
            return None
        if k == 'sempty':
            t = b.a[0]
            e = f.eq.get(t)
            if e is not None: return e is EMPTY
            if EMPTY in f.ne.get(t, ()): return False
            if t.t == 'str':
                if not t.a[0]: return True
                if any(isinstance(p, str) for p in t.a[0]): return False
                if any(EMPTY in f.ne.get(p, ()) or p in self.graphemes for p in t.a[0]): return False
                if all(f.eq.get(p) is EMPTY for p in t.a[0]): return True
            if t in self.graphemes or t in getattr(self, 'words', ()): return False
            return None
        return None

    def decide_eq(self, st, a, b):
        """structural equality of values (strings, enums, tuples, ...)"""
        if a is b: return True
        f = st.facts
        ea, eb = f.eq.get(a, a), f.eq.get(b, b)
        if ea is eb: return True
        for x, y in ((a, b), (ea, eb), (b, a), (eb, ea)):
            if y in f.ne.get(x, ()): return False
            q = _tab.get(('eq', (x, y)))
            if q is not None and q in f.bl: return f.bl[q]
        a, b = ea, eb
        if a.t == 'bytes': a = Seq(*[Int(x) for x in a.a[0]])
        if b.t == 'bytes': b = Seq(*[Int(x) for x in b.a[0]])
        la, lb = lit(a), lit(b)
        if la is not None and lb is not None: return la == lb
        if getattr(self, 'words', None) and 'str' in (a.t, b.t) and a.t in ('str', 'v') and b.t in ('str', 'v'):
            q = self.word_eq(list(str_parts(a)), list(str_parts(b)), self.words)
            if q is not None: return q
        if self.plain:
            if lb is not None and lb in self.plain.get(a, ()): return False
            if la is not None and la in self.plain.get(b, ()): return False
        k1, k2 = a.t, b.t
        if k1 in ('int', 'bool', 'chr') and k2 == k1: return a.a == b.a
        if k1 == 'chr' and lb is not None: return a.a[0] == lb
        if k1 == 'adt' and k2 == 'adt':
            if a.a[1] != b.a[1]: return False
            r = True
            for x, y in zip(a.a[3], b.a[3]):
                e = self.decide_eq(st, x, y)
                if e is False: return False
                if e is None: r = None
            return r
        if k1 == 'adt' or k2 == 'adt':
            if k2 == 'adt': a, b = b, a
            s = f.vs.get(b)
            if s is not None and a.a[1] not in s: return False
            if s is not None and len(s) == 1 and not a.a[3]: return True
            return None
        if k1 == 'tup' and k2 == 'tup' and len(a.a) == len(b.a):
            r = True
            for x, y in zip(a.a, b.a):
                e = self.decide_eq(st, x, y)
                if e is False: return False
                if e is None: r = None
            return r
        if k1 == 'seq' and k2 == 'seq':
            pa, pb = a.a[0], b.a[0]
            if all(k == 'e' for k, _ in pa) and all(k == 'e' for k, _ in pb):
                if len(pa) != len(pb): return False
                r = True
                for (_, x), (_, y) in zip(pa, pb):
                    e = self.decide_eq(st, x, y)
                    if e is False: return False
                    if e is None: r = None
                return r
        if k1 in ('lin', 'int') or k2 in ('lin', 'int'):
            s = f.cmp0(sub(a, b))
            if s == {'='}: return True
            if '=' not in s: return False
            return None
        if k1 == 'str' or k2 == 'str':
            if lb == '' or la == '':
                o = a if lb == '' else b
                return self.decide_bool(st, raw('sempty', o))
            pa, pb = str_parts(a), str_parts(b)
            # a literal prefix/suffix clash
            if isinstance(pa[0], str) and isinstance(pb[0], str):
                n = min(len(pa[0]), len(pb[0]))
                if pa[0][:n] != pb[0][:n]: return False
            if isinstance(pa[-1], str) and isinstance(pb[-1], str):
                n = min(len(pa[-1]), len(pb[-1]))
                if pa[-1][-n:] != pb[-1][-n:]: return False
            # literal compared with something known to contain a clashing literal part
            for L, o in ((la, pb), (lb, pa)):
                if L is not None and any(isinstance(p, str) and p not in L for p in o): return False
        return None

    def split_bool(self, st, b):
        """[(state, bool)]"""
        r = self.decide_bool(st, b)
        if r is not None: return [(st, r)]
        if b.t == 'ite':
            out = []
            for s2, c in self.split_bool(st, b.a[0]):
                out.extend(self.split_bool(s2, b.a[1] if c else b.a[2]))
            return out
        s2 = st.copy()
        out = []
        for s, v in ((st, True), (s2, False)):
            if self.assume(s, b, v): out.append((s, v))
        return out

    def assume(self, st, b, v):
        """add b == v; False when contradictory"""
        r = self.decide_bool(st, b)
        if r is not None: return r == v
        k = b.t; f = st.facts
        if k == 'not': return self.assume(st, b.a[0], not v)
        if k == 'lt':
            d = sub(b.a[1], b.a[0])
            f.add_ge(sub(d, Int(1)) if v else neg(d))
            self._propagate_len(st)
            return True
        if k == 'ieq':
            d = sub(b.a[0], b.a[1])
            if v:
                f.add_ge(d); f.add_ge(neg(d))
                for x, y in ((b.a[0], b.a[1]), (b.a[1], b.a[0])):
                    if y.t == 'int' and x.t not in ('int', 'lin'): f.set_eq(x, y)
            else:
                f.add_ne(d, Int(0))
                # a natural number that is not 0 is >= 1 ; and bounds that become strict
                if f.nonneg(d): f.add_ge(sub(d, Int(1)))
                elif f.nonneg(neg(d)): f.add_ge(sub(neg(d), Int(1)))
            return True
        if k == 'and' and v: return self.assume(st, b.a[0], True) and self.assume(st, b.a[1], True)
        if k == 'or' and not v: return self.assume(st, b.a[0], False) and self.assume(st, b.a[1], False)
        if k == 'isv':
            t, vs = b.a
            s = f.vs.get(t)
            if v: f.set_vs(t, vs if s is None else s & vs)
            else: f.set_vs(t, (frozenset((0, 1)) if s is None else s) - vs)   # Option and Result only
            return True
        if k == 'eq':
            x, y = b.a
            if y.t == 'adt' and not y.a[3] or y.t in ('chr', 'bool') or lit(y) is not None or y.t == 'int':
                pass
            else: x, y = y, x
            simple = (lit(y) is not None or y.t in ('chr', 'int', 'bool'))
            if v:
                if simple: f.set_eq(x, y)
                elif y.t == 'adt' and x.t != 'adt':
                    if not self.assume_variant(st, x, y.a[1]): return False
                    for n, fv in zip(y.a[2], y.a[3]):
                        if not self.assume(st, self.mk_eq(fld(x, n), fv), True): return False
                    f.set_bl(b, True)
                elif x.t == y.t == 'adt':
                    for fx, fv in zip(x.a[3], y.a[3]):
                        if not self.assume(st, self.mk_eq(fx, fv), True): return False
                else: f.set_bl(b, True)
            else:
                if simple: f.add_ne(x, y)
                elif y.t == 'adt' and not y.a[3] and x.t != 'adt':
                    s = f.vs.get(x)
                    info = self.adt_info(y.a[0])
                    if s is None and info: s = frozenset(range(len(info['variants'])))
                    if s is not None: f.set_vs(x, s - {y.a[1]})
                    f.set_bl(b, False)
                elif x.t == y.t == 'adt' and x.a[1] == y.a[1] and len(x.a[3]) == 1:
                    return self.assume(st, self.mk_eq(x.a[3][0], y.a[3][0]), False)
                else: f.set_bl(b, False)
            return True
        if k == 'sempty':
            if v: f.set_eq(b.a[0], EMPTY)
            else: f.add_ne(b.a[0], EMPTY)
            return True
        if k == 'bool': return b.a[0] == v
        f.set_bl(b, v)
        return True

    def _propagate_len(self, st): pass

    def mk_eq(self, a, b):
        if a is b: return TRUE
        if a.t in ('int', 'lin') or b.t in ('int', 'lin'): return self.mk_ieq(a, b)
        if a.t == 'bool': a, b = b, a
        if b.t == 'bool': return a if b.a[0] else self.mk_not(a)
        if a.t == b.t == 'chr': return FALSE
        if a.t == b.t == 'str' and lit(a) is not None and lit(b) is not None: return Bool(lit(a) == lit(b))
        if lit(a) == '': return raw('sempty', b)
        if lit(b) == '': return raw('sempty', a)
        words = getattr(self, 'words', None)
        if words and 'str' in (a.t, b.t) and a.t in ('str', 'v') and b.t in ('str', 'v'):
            r = self.word_eq(list(str_parts(a)), list(str_parts(b)), words)
            if r is not None: return Bool(r)
        if a.id > b.id: a, b = b, a
        return raw('eq', a, b)

    def word_eq(self, p, q, words):
        """are two concatenations of literals and words (non-empty strings of letters and digits) equal: True, False or None"""
        for end in (0, -1):
            while p and q:
                x, y = p[end], q[end]
                if isinstance(x, str) and isinstance(y, str):
                    n = min(len(x), len(y))
                    if end: u, v, x, y = x[-n:], y[-n:], x[:-n], y[:-n]
                    else: u, v, x, y = x[:n], y[:n], x[n:], y[n:]
                    if u != v: return False
                    for z, w in ((p, x), (q, y)):
                        if w: z[end] = w
                        else: z.pop(end)
                elif x is y: p.pop(end); q.pop(end)
                else:
                    for m, o in ((x, y), (y, x)):
                        if isinstance(m, str) and o in words and not m[end].isalnum(): return False
                    break
        if not p or not q: return False if any(isinstance(x, str) or x in words for x in p + q) else True if not p + q else None
        for m, o in ((p, q), (q, p)):
            if all(not isinstance(x, str) and x in words or isinstance(x, str) and x.isalnum() for x in m) and any(isinstance(x, str) and not x.isalnum() for x in o): return False
        return None

    def mk_ieq(self, a, b):
        d = sub(a, b)
        if d.t == 'int': return Bool(d.a[0] == 0)
        if a.id > b.id: a, b = b, a
        return raw('ieq', a, b)

    def mk_not(self, b):
        if b.t == 'bool': return Bool(not b.a[0])
        if b.t == 'not': return b.a[0]
        return raw('not', b)

    def mk_lt(self, a, b):
        d = sub(b, a)
        if d.t == 'int': return Bool(d.a[0] > 0)
        return raw('lt', a, b)

    def len_of(self, st, X):
        return length(X)

    # -------------------------------------------------------------- entry points
    def run(self, key, args, st=None):
        """analyse one workspace function from symbolic arguments.
        A Mut(term) argument is a &mut parameter; returns [(state, value, [final pointees])]"""
        fn = self.prog.fns.get(key) if isinstance(key, str) else key
        if fn is None: raise Missing(key)
        st = st or State()
        vals, cells = [], []
        for i, a in enumerate(args):
            if isinstance(a, Mut):
                c = (0, 'root%d' % i); st.cells[c] = a.v
                vals.append(raw('ptr', c, ())); cells.append(c)
            else: vals.append(a); cells.append(None)
        outs = self.call_fn(fn, vals, st, {})
        if outs and outs[0][1].t == 'coro':        # async fn: the returned future is driven
            res = []
            for s, v in outs:
                if v.t == 'coro':
                    body = self.prog.fns.get(v.a[0])
                    res.extend(self.call_fn(body, [v, UNIT], s, {}))
                else: res.append((s, v))
            outs = res
        return [(s, self.deref(s, v), [None if c is None else s.cells[c] for c in cells]) for s, v in outs]

    # -------------------------------------------------------------- memory
    def resolve(self, st, fr, place):
        """-> (root cell, path) where path elements are ('f',name)|('d',vi,..)|('i',term)|('k',key)
        or (None, value) when the place is a (shared) value projection"""
        fid = fr['fid']
        loc, proj = place
        cell = (fid, loc); path = []
        val = None  # when set: pure value
        if cell not in st.cells:
            st.cells[cell] = raw('uninit')
        dn = None
        for e in proj:
            k = e[0]
            if k == '*':
                cur = self.load_cell(st, cell, path) if val is None else val
                if cur.t == 'ptr':
                    cell = cur.a[0]; path = list(cur.a[1]); val = None
                else:
                    # transparent shared reference / box: stay on the same place
                    pass
            elif k == 'f':
                nm = e[2]
                if val is None: path.append(('f', nm, dn))
                else: val = self.proj(st, val, ('f', nm, dn))
                dn = None
            elif k == 'd':
                dn = e[1]
                if val is None: path.append(('d', e[1]))
            elif k == 'i':
                idx = st.cells.get((fid, e[1]))
                if val is None: path.append(('i', idx))
                else: val = self.proj(st, val, ('i', idx))
            elif k == 'c':
                off, minl, fromend = e[1], e[2], e[3]
                if val is None: path.append(('c', off, fromend))
                else: val = self.proj(st, val, ('c', off, fromend))
            elif k == 's':
                if val is None: path.append(('s', e[1], e[2], e[3]))
                else: val = self.proj(st, val, ('s', e[1], e[2], e[3]))
        return cell, path, val

    def proj(self, st, v, p):
        k = p[0]
        if v.t == 'ptr': v = self.load_cell(st, v.a[0], v.a[1])
        if k == 'd': return v
        if k == 'f':
            if v.t == 'ite':
                return self.ite(v.a[0], self.proj(st, v.a[1], p), self.proj(st, v.a[2], p))
            return self.fieldof(v, p[1])
        if k == 'i': return at(v, p[1])
        if k == 'c':
            if p[2]: return at(v, sub(length(v), Int(p[1])))
            return at(v, Int(p[1]))
        if k == 's':
            a, b, fe = p[1], p[2], p[3]
            return sl(v, Int(a), sub(length(v), Int(b)) if fe else Int(b))
        if k == 'k': return self.models.hm_lookup_val(self, st, v, p[1])
        raise Lost('projection %r' % (k,))

    def fieldof(self, v, name):
        if v.t in ('clo', 'coro'):
            up = v.a[1]
            if name.isdigit() and int(name) < len(up): return up[int(name)]
        return fld(v, name)

    def ite(self, c, a, b):
        if a is b: return a
        if c.t == 'bool': return a if c.a[0] else b
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return self.mk_not(c)
        return raw('ite', c, a, b)

    def load_cell(self, st, cell, path):
        v = st.cells.get(cell)
        if v is None: raise Lost('read of dead cell %r' % (cell,))
        for p in path:
            v = self.proj(st, v, p)
        return v

    def load(self, st, fr, place):
        cell, path, val = self.resolve(st, fr, place)
        if val is not None: return val
        return self.load_cell(st, cell, path)

    def store_path(self, st, v, path, new):
        if not path: return new
        p = path[0]; rest = path[1:]
        if p[0] == 'd':
            # writing inside a variant: expand a symbolic enum
            return self.store_path(st, v, rest, new)
        if v.t == 'ptr':
            # auto-deref (field of a &mut stored in a struct)
            self.store_cell(st, v.a[0], list(v.a[1]) + list(path), new)
            return v
        if p[0] == 'f':
            nm = p[1]
            if v.t == 'adt':
                if nm in v.a[2]:
                    i = v.a[2].index(nm)
                    fs = list(v.a[3]); fs[i] = self.store_path(st, fs[i], rest, new)
                    return Adt(v.a[0], v.a[1], v.a[2], fs)
                raise Lost('store to missing field ' + nm)
            if v.t == 'tup' and nm.isdigit() and int(nm) < len(v.a):
                fs = list(v.a); fs[int(nm)] = self.store_path(st, fs[int(nm)], rest, new)
                return Tup(*fs)
            if v.t in ('clo', 'coro'):
                up = list(v.a[1]); up[int(nm)] = self.store_path(st, up[int(nm)], rest, new)
                return raw(v.t, v.a[0], tuple(up))
            # symbolic: keep as functional update
            old = fld(v, nm)
            nv = self.store_path(st, old, rest, new)
            if nv is old: return v
            return self.upd_field(v, nm, nv)
        if p[0] in ('i', 'c'):
            idx = p[1] if p[0] == 'i' else (sub(length(v), Int(p[1])) if p[2] else Int(p[1]))
            old = at(v, idx)
            nv = self.store_path(st, old, rest, new)
            if nv is old: return v
            if v.t == 'seq' and idx.t == 'int':
                k = idx.a[0]; ps = list(v.a[0])
                for j, (kk, x) in enumerate(ps):
                    if kk != 'e': break
                    if k == 0:
                        ps[j] = ('e', nv); return mkseq(ps)
                    k -= 1
            a = sl(v, Int(0), idx); b = sl(v, add(idx, Int(1)), length(v))
            return concat(a, Seq(nv), b)
        if p[0] == 'k':
            old = self.models.hm_lookup_val(self, st, v, p[1])
            return self.models.hm_insert(v, p[1], self.store_path(st, old, rest, new))
        raise Lost('store projection %r' % (p[0],))

    def upd_field(self, v, nm, nv):
        if v.t == 'updf':
            d = dict(v.a[1])
            d[nm] = nv
            return raw('updf', v.a[0], tuple(sorted(d.items())))
        return raw('updf', v, ((nm, nv),))

    def store_cell(self, st, cell, path, new):
        path = list(path)
        if not path:
            st.cells[cell] = new; return
        v = st.cells.get(cell)
        if v is None: raise Lost('write to dead cell')
        # make symbolic enums concrete when the variant is known
        st.cells[cell] = self._store_expand(st, v, path, new)

    def _store_expand(self, st, v, path, new):
        if path and path[0][0] == 'd' and v.t not in ('adt', 'ptr'):
            vi = path[0][1]
            return self._store_expand(st, raw('asv', v, vi) if False else v, path[1:], new)
        return self.store_path(st, v, path, new)

    def store(self, st, fr, place, new):
        cell, path, val = self.resolve_store(st, fr, place)
        self.store_cell_typed(st, cell, path, new, fr, place)

    def resolve_store(self, st, fr, place):
        fid = fr['fid']
        loc, proj = place
        cell = (fid, loc); path = []
        for e in proj:
            k = e[0]
            if k == '*':
                if cell in st.cells:
                    cur = self.load_cell(st, cell, path)
                    if cur.t == 'ptr':
                        cell = cur.a[0]; path = list(cur.a[1])
                path_note = ('*', e[1])
            elif k == 'f':
                path.append(('f', e[2], e[3]))
            elif k == 'd': path.append(('d', e[1]))
            elif k == 'i': path.append(('i', st.cells.get((fid, e[1]))))
            elif k == 'c': path.append(('c', e[1], e[3]))
            elif k == 's': path.append(('s', e[1], e[2], e[3]))
        if cell not in st.cells: st.cells[cell] = raw('uninit')
        return cell, path, None

    def store_cell_typed(self, st, cell, path, new, fr, place):
        if path:
            v = st.cells.get(cell)
            st.cells[cell] = self.store_path(st, v, path, new)
        else: st.cells[cell] = new

    # symbolic enum/struct expansion: turn v (of adt type) into an adt term
    def expand(self, st, v, path, vi=None):
        if v.t == 'adt': return v
        info = self.adt_info(path)
        if not info: return v
        if vi is None:
            if info['kind'] == 'struct': vi = 0
            else:
                s = st.facts.vs.get(v)
                if s is not None and len(s) == 1: vi = next(iter(s))
                else: return v
        var = info['variants'][vi]
        names = [f[0] for f in var['fields']]
        return Adt(path, vi, names, [fld(v, n) for n in names])

    # -------------------------------------------------------------- operands
    def const(self, st, fr, k):
        r = k.get('_t')
        if r is not None: return r
        fn = fr['fn']
        if 'fn' in k:
            f = k['fn']; env = fr.get('env')
            r = raw('fn', FnRef(f, fn.crate, env))
            if not env: k['_t'] = r
            return r
        if 'item' in k:
            nm = k.get('itemname', k['item'])
            lf = self.prog.lookup(k['item'], fn.crate)
            if lf is not None and lf.kind in ('const', 'static'):
                r = self.eval_const(lf)
                if r is not None: return r
            if k.get('v') and 'int' in k['v']: return Int(k['v']['int'])
            return raw('app', 'const:' + nm)
        v = k.get('v')
        if v is None:
            return raw('app', 'const:?%s' % fn.types[k['ty']]['s'])
        r = self.constval(v, fn, k['ty'])
        if r.t in ('int', 'bool', 'chr', 'str', 'tup'): k['_t'] = r
        return r

    def constval(self, v, fn, tid):
        if 'int' in v: return Int(v['int'])
        if 'bool' in v: return Bool(v['bool'])
        if 'char' in v: return Chr(v['char'])
        if 'str' in v: return Str(v['str'])
        if 'fnptr' in v: return raw('fn', FnRef(v['fnptr'], fn.crate, None))
        if 'bytes' in v:
            b = v['bytes']
            return raw('bytes', tuple(b) if isinstance(b, list) else b)
        if 'zst' in v:
            t = fn.types[tid]
            if t['k'] == 'tuple': return UNIT
            if t['k'] == 'adt':
                info = self.adt_info(t['adt'])
                if info and len(info['variants']) == 1 and not info['variants'][0]['fields']:
                    return Adt(t['adt'], 0, (), ())
            if t['k'] == 'closure': return raw('clo', t['key'], (), )
            return raw('zst', t['s'])
        if 'agg' in v:
            t = fn.types[tid]
            fs = [self.constval(x['v'], fn, x['ty']) for x in v['fields']]
            if t['k'] == 'tuple': return Tup(*fs)
            if t['k'] == 'adt':
                info = self.adt_info(t['adt'])
                if info:
                    var = info['variants'][v['agg']]
                    return Adt(t['adt'], v['agg'], [f[0] for f in var['fields']], fs)
            if t['k'] == 'array': return Seq(*fs)
        return raw('app', 'const:%s' % str(v))

    _constmemo = None
    def eval_const(self, fn):
        if self._constmemo is None: self._constmemo = {}
        k = id(fn)
        if k not in self._constmemo:
            self._constmemo[k] = None
            try:
                st = State()
                outs = self.call_fn(fn, [], st, {})
                if len(outs) == 1: self._constmemo[k] = outs[0][1]
            except Lost: pass
        return self._constmemo[k]

    def operand(self, st, fr, o):
        k = o[0]
        if k == 'k': return self.const(st, fr, o[1])
        v = self.load(st, fr, o[1])
        if k == 'm' and not o[1][1]:
            loc = o[1][0]
            fn = fr['fn']
            if loc > fn.argc or loc == 0:
                if v.t not in ('int', 'bool'): st.cells.pop((fr['fid'], loc), None)
        if v.t in ('fld', 'at', 'app', 'v'):
            self.note_type(v, fr, o[1])
        return v

    def note_type(self, v, fr, place):
        if v in NONNEG: return
        fn = fr['fn']
        proj = place[1]
        tid = None
        if proj:
            if proj[-1][0] == 'f': tid = proj[-1][3]
        else: tid = fn.locals[place[0]]
        if tid is not None and fn.types[tid]['k'] == 'uint': NONNEG.add(v)

    # -------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r):
        """-> term, or list[(state, term)] when it has to fork"""
        fn = fr['fn']; k = r[0]
        if k == 'use': return self.operand(st, fr, r[1])
        if k == 'ref':
            kind, place = r[1], r[2]
            if kind == 'mut':
                cell, path, val = self.resolve(st, fr, place)
                if val is not None: return val
                # &mut *x where x is a plain value (owned box etc.)
                return raw('ptr', cell, tuple(path))
            cell, path, val = self.resolve(st, fr, place)
            if val is not None: return val
            if self.prog.has_cell(fn.crate, r[3]): return raw('ptr', cell, tuple(path))
            return self.load_cell(st, cell, path)
        if k == 'rawptr':
            cell, path, val = self.resolve(st, fr, r[2])
            if val is not None: return val
            return raw('ptr', cell, tuple(path))
        if k == 'reborrow':
            return self.load(st, fr, r[2])
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            return self.cast(st, fr, r[1], v, r[3], r[4])
        if k == 'bin': return self.binop(st, fr, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r[4])
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                return self.mk_not(v)
            if r[1] == 'Neg': return neg(v)
            if r[1] == 'PtrMetadata':
                if v.t == 'ptr': v = self.load_cell(st, v.a[0], v.a[1])
                return length(v)
            raise Lost('unop ' + r[1])
        if k == 'discr':
            v = self.load(st, fr, r[1])
            return raw('discr', v, self.place_adt(fr, r[1]))
        if k == 'agg':
            return self.aggregate(st, fr, r[1], [self.operand(st, fr, o) for o in r[2]])
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            n = r[2]
            n = n if isinstance(n, int) else None
            return raw('fm', Int(n), 0, (((), (('e', v),)),)) if n is not None else raw('app', 'repeat', v)
        if k == 'nullary': return raw('app', 'nullary')
        raise Lost('rvalue ' + k)

    def place_adt(self, fr, place):
        """adt path of the (dereferenced) place"""
        fn = fr['fn']
        tid = None
        loc, proj = place
        if not proj: tid = fn.locals[loc]
        else:
            e = proj[-1]
            if e[0] == 'f': tid = e[3]
            elif e[0] == '*':
                t = fn.types[e[1]]
                tid = t.get('to')
                if tid is None and t['k'] == 'adt' and t.get('args'): tid = t['args'][0]
            elif e[0] == 'i' or e[0] == 'c':
                # element of slice/array: find base type
                tid = None
        n = 0
        while tid is not None and n < 4:
            t = fn.types[tid]
            if t['k'] == 'param' and fr.get('env') and t['name'] in fr['env']:
                c, tid2 = fr['env'][t['name']]
                t = c.types[tid2]
                if t['k'] == 'adt': return t['adt']
                return None
            if t['k'] == 'adt': return t['adt']
            if t['k'] in ('ref', 'refmut'): tid = t.get('to'); n += 1; continue
            return None
        return None

    def aggregate(self, st, fr, ak, ops):
        fn = fr['fn']; k = ak[0]
        if k == 'tuple': return Tup(*ops)
        if k == 'array': return Seq(*ops)
        if k == 'adt':
            path, vi = ak[1], ak[2]
            info = self.adt_info(path)
            if info is None: return Adt(path, vi, [str(i) for i in range(len(ops))], ops)
            if info['kind'] == 'union': return ops[0] if ops else UNIT
            names = [f[0] for f in info['variants'][vi]['fields']]
            if path == 'alloc::boxed::Box' and ops: return ops[0]
            return Adt(path, vi, names, ops)
        if k == 'closure': return raw('clo', self.prog.canon(ak[1], fn.crate), tuple(ops))
        if k == 'coroutine': return raw('coro', self.prog.canon(ak[1], fn.crate), tuple(ops))
        raise Lost('aggregate ' + str(k))

    def cast(self, st, fr, kind, v, ty, sty):
        fn = fr['fn']
        if kind.startswith('IntToInt'):
            t, s = fn.types[ty], fn.types[sty]
            if v.t == 'chr': return Int(ord(v.a[0]))
            if v.t == 'bool': return Int(1 if v.a[0] else 0)
            if s['k'] in ('bool',): return raw('app', 'boolint', v)
            if s['k'] == 'char': return raw('app', 'charint', v)
            # widths: treat as value preserving, remember the truncation
            W = {'usize': 64, 'isize': 64, 'u64': 64, 'i64': 64, 'u32': 32, 'i32': 32, 'u16': 16, 'i16': 16, 'u8': 8, 'i8': 8, 'u128': 128, 'i128': 128}
            ws, wt = W.get(s['s'], 64), W.get(t['s'], 64)
            if s['s'] == 'u8' and t['k'] == 'char': return Chr(chr(v.a[0])) if v.t == 'int' else raw('app', 'u8char', v)
            if v.t == 'int':
                n = v.a[0]
                m = n & ((1 << wt) - 1)
                if t['k'] == 'int' and m >> (wt - 1): m -= 1 << wt
                return Int(m)
            if wt < ws and wt < 32: return raw('app', 'trunc%d' % wt, v)
            if t['k'] == 'uint': tm.NONNEG.add(v) if v.t not in ('lin', 'int') and s['k'] == 'uint' else None
            return v
        return v

    OPS = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul'}
    def binop(self, st, fr, op, a, b, ty):
        if a.t == 'ptr': a = self.load_cell(st, a.a[0], a.a[1])
        if b.t == 'ptr': b = self.load_cell(st, b.a[0], b.a[1])
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            if a.t == 'chr' or b.t == 'chr': v = raw('app', base, a, b)
            elif base == 'Add': v = add(a, b)
            elif base == 'Sub': v = sub(a, b)
            else:
                if a.t == 'int': v = mulc(b, a.a[0])
                elif b.t == 'int': v = mulc(a, b.a[0])
                else: v = raw('app', 'mul', *sorted((a, b), key=lambda t: t.id))
            if op.endswith('WithOverflow'):
                return Tup(v, raw('ovf', base, a, b, v))
            return v
        if base in ('Eq', 'Ne'):
            r = self.mk_eq(a, b)
            return r if base == 'Eq' else self.mk_not(r)
        if base == 'Lt': return self.mk_lt(a, b)
        if base == 'Gt': return self.mk_lt(b, a)
        if base == 'Le': return self.mk_not(self.mk_lt(b, a))
        if base == 'Ge': return self.mk_not(self.mk_lt(a, b))
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            bools = ('bool', 'not', 'and', 'or', 'lt', 'ieq', 'eq', 'isv', 'sempty')
            tk = fr['fn'].types[ty]['k'] if isinstance(ty, int) else None
            if tk == 'bool' or (a.t in bools and b.t in bools):
                if base == 'BitAnd':
                    if a.t == 'bool': return b if a.a[0] else FALSE
                    if b.t == 'bool': return a if b.a[0] else FALSE
                    return raw('and', a, b)
                if base == 'BitOr':
                    if a.t == 'bool': return TRUE if a.a[0] else b
                    if b.t == 'bool': return TRUE if b.a[0] else a
                    return raw('or', a, b)
                return self.mk_not(self.mk_eq(a, b))
            if a.t == b.t == 'int':
                x, y = a.a[0], b.a[0]
                return Int(x & y if base == 'BitAnd' else x | y if base == 'BitOr' else x ^ y)
        if base in ('Div', 'Rem') and a.t == b.t == 'int' and b.a[0] > 0 and a.a[0] >= 0:
            return Int(a.a[0] // b.a[0] if base == 'Div' else a.a[0] % b.a[0])
        if base in ('Shl', 'Shr') and a.t == b.t == 'int' and a.a[0] >= 0 and 0 <= b.a[0] < 64 and (base == 'Shr' or a.a[0] << b.a[0] < 1 << 32):
            return Int(a.a[0] << b.a[0] if base == 'Shl' else a.a[0] >> b.a[0])
        r = raw('app', base, a, b)
        if a in NONNEG or a.t == 'int': NONNEG.add(r)
        return r

    # -------------------------------------------------------------- calls into the program
    def call_fn(self, fn, args, st, call, env=None):
        """inline a workspace function: [(state, value)]"""
        self.prog.cfg(fn)
        fid = len(self.stack) + 1
        if fid > self.max_depth: raise Lost('inline depth')
        self.fns_seen[fn.key] = self.fns_seen.get(fn.key, 0) + 1
        fr = {'fn': fn, 'fid': fid, 'env': env}
        self.stack.append((fn.key, call.get('bb') if call else None, fn))
        try:
            for i, a in enumerate(args): st.cells[(fid, i + 1)] = a
            exits, backs, rets = self.run_region(fr, {0: [st]}, None, None)
            out = []
            for s, v in rets:
                for c in [c for c in s.cells if c[0] == fid]: del s.cells[c]
                out.append((s, v))
            return self.merge_outcomes(out)
        finally:
            self.stack.pop()

    def merge_outcomes(self, outs):
        if len(outs) <= 1: return outs
        g = {}
        for s, v in outs:
            k = (frozenset(s.cells.items()), v, id(_evk(s.ev)))
            g.setdefault(k, []).append((s, v))
        if len(g) == len(outs): return outs
        r = []
        for l in g.values():
            ss = self.merge_list([s for s, _ in l])
            r.extend((s, l[0][1]) for s in ss)
        return r

    def merge_list(self, ss):
        """states with equal cells+events: join their facts (exactly where possible)"""
        if len(ss) == 1: return ss
        # exact: same facts but for one variant set / redundant
        uniq = {}
        for s in ss: uniq.setdefault(s.facts.key(), s)
        ss = list(uniq.values())
        changed = True
        while changed and len(ss) > 1:
            changed = False
            for i in range(len(ss)):
                for j in range(i + 1, len(ss)):
                    f = self.exact_join(ss[i].facts, ss[j].facts)
                    if f is not None:
                        ss[i] = State(ss[i].cells, f, ss[i].ev); del ss[j]
                        self.merges += 1
                        changed = True; break
                if changed: break
        if len(ss) > self.join_limit:
            self.merges += 1
            return [State(ss[0].cells, join_facts([s.facts for s in ss]), ss[0].ev)]
        return ss

    def exact_join(self, a, b):
        ka, kb = a.key(), b.key()
        da, db = ka - kb, kb - ka
        if not da: return a.copy()       # a is weaker
        if not db: return b.copy()
        if len(da) == 1 and len(db) == 1:
            x, y = next(iter(da)), next(iter(db))
            if x[0] == y[0] == 'vs' and x[1] is y[1]:
                r = a.copy(); r.set_vs(x[1], x[2] | y[2]); return r
            if x[0] == y[0] == 'bl' and x[1] is y[1]:
                r = a.copy(); d = dict(r.bl); del d[x[1]]; r.bl = d; return r
            if x[0] == 'ge' and y[0] == 'ge':
                s = add(x[1], y[1])
                if s.t == 'int' and s.a[0] >= -1:
                    r = a.copy(); r.ge = r.ge - {x[1]}; return r
            if {x[0], y[0]} == {'eq', 'ne'} and x[1] is y[1] and x[2] is y[2]:
                r = a.copy()
                if x[0] == 'eq': r.eq = {k: v for k, v in r.eq.items() if k is not x[1]}
                else: r.ne = {**r.ne, x[1]: r.ne[x[1]] - {x[2]}}
                return r
        return None

    # -------------------------------------------------------------- region execution
    def run_region(self, fr, entries, blocks, header):
        fn = fr['fn']; fid = fr['fid']
        rpoi = fn.rpoi
        pend = {b: list(ss) for b, ss in entries.items()}
        exits, backs, rets = [], [], []
        first = header is not None
        while pend:
            b = next(iter(pend)) if len(pend) == 1 else min(pend, key=rpoi.__getitem__)
            states = pend.pop(b)
            # drop dead locals, merge
            if not (first and b == header):
                states = self.prune_merge(fr, b, states)
            if b in fn.loops and not (first and b == header):
                nexts = []
                for s in states:
                    ex, rt = self.run_loop(fr, b, s)
                    nexts.extend(ex); rets.extend(rt)
            else:
                first_now = first and b == header
                nexts = []
                for s in states:
                    self.exec_block(fr, b, s, nexts, rets)
                if first_now: first = False
            for nb, s in nexts:
                if blocks is not None and nb == header: backs.append(s)
                elif blocks is not None and nb not in blocks: exits.append((nb, s))
                else: pend.setdefault(nb, []).append(s)
            tot = sum(len(x) for x in pend.values()) + len(rets)
            if tot > self.max_states: raise Lost('too many states in ' + fn.key)
        return exits, backs, rets

    def prune_merge(self, fr, b, states):
        fn = fr['fn']; fid = fr['fid']
        if len(states) == 1 and b not in fn.loops: return states
        live = fn.live[b]; addr = fn.addr
        for s in states:
            for c in [c for c in s.cells if c[0] == fid and c[1] not in live and c[1] not in addr]: del s.cells[c]
        if len(states) == 1: return states
        g = {}
        for s in states:
            g.setdefault((frozenset(s.cells.items()), id(_evk(s.ev))), []).append(s)
        if len(g) == len(states): return states
        out = []
        for l in g.values(): out.extend(self.merge_list(l))
        return out

    def site(self, fr, bb):
        return '%s %s' % (fr['fn'].key, fr['fn'].span(bb))

    def panic(self, fr, bb, st, kind, why):
        self.panics.append(Panic(fr['fn'].span(bb), kind, why, st.facts.copy(), fr['fn'].key, st.ev))

    def exec_block(self, fr, b, st, nexts, rets):
        fn = fr['fn']; fid = fr['fid']; chain = fn.chain
        while True:
            self.steps += 1
            if self.steps > self.budget: raise Lost('budget')
            if self.deadline and (self.steps & 63) == 0 and time.time() > self.deadline: raise Lost('time')
            stmts, term, span, cleanup = fn.blocks[b]
            for s in stmts:
                if s[0] == '=':
                    v = self.rvalue(st, fr, s[2])
                    self.store(st, fr, s[1], v)
                elif s[0] == 'dead':
                    st.cells.pop((fid, s[1]), None)
                elif s[0] == 'sd': raise Lost('setdiscr')
            k = term[0]
            if k == 'goto' or k == 'drop':
                b = term[1] if k == 'goto' else term[2]
                if b in chain: continue
                nexts.append((b, st)); return
            if k == 'return':
                rets.append((st, st.cells.get((fid, 0), UNIT))); return
            if k == 'switch': self.do_switch(fr, b, st, term, nexts); return
            if k == 'assert': self.do_assert(fr, b, st, term, nexts); return
            if k == 'call':
                func, args, dest, target = term[1], term[2], term[3], term[4]
                f = self.operand(st, fr, func)
                av = [self.operand(st, fr, a) for a in args]
                call = {'fr': fr, 'bb': b, 'term': term, 'destty': term[5], 'argtys': term[6], 'target': target}
                outs = self.call(st, f, av, call)
                if target is None:
                    return
                if len(outs) == 1 and target in chain:
                    st, v = outs[0]
                    self.store(st, fr, dest, v)
                    b = target; continue
                for s2, v in outs:
                    self.store(s2, fr, dest, v)
                    nexts.append((target, s2))
                return
            if k == 'yield': raise Lost('yield reached')
            if k in ('unreachable', 'unwind'): return
            raise Lost('terminator ' + k)

    def do_switch(self, fr, b, st, term, nexts):
        fn = fr['fn']
        v = self.operand(st, fr, term[1])
        cases, other = term[3], term[4]
        ty = fn.types[term[2]]
        if v.t == 'discr':
            t, path = v.a
            info = self.adt_info(path) if path else None
            if t.t == 'ite':
                for s2, c in self.split_bool(st, t.a[0]):
                    s2.cells[(fr['fid'], 'sw')] = raw('discr', t.a[1] if c else t.a[2], path)
                    self.switch_on(fr, s2, s2.cells.pop((fr['fid'], 'sw')), cases, other, nexts, info, path)
                return
            self.switch_on(fr, st, v, cases, other, nexts, info, path)
            return
        if ty['k'] == 'bool' or v.t in ('bool', 'not', 'and', 'or', 'lt', 'ieq', 'eq', 'isv', 'sempty', 'ovf'):
            tgt = {val: bb for val, bb in cases}
            for s2, r in self.split_bool(st, v):
                nexts.append((tgt.get(1 if r else 0, other), s2))
            return
        if v.t == 'chr': v = Int(ord(v.a[0])) if False else v
        # integer / char switch
        mk = (lambda n: Chr(chr(n))) if ty['k'] == 'char' else Int
        rest = st
        for val, bb in cases:
            c = mk(val)
            e = self.mk_eq(rest and v, c)
            r = self.decide_bool(rest, e)
            if r is True:
                nexts.append((bb, rest)); return
            if r is False: continue
            s2 = rest.copy()
            if self.assume(s2, e, True): nexts.append((bb, s2))
            if not self.assume(rest, e, False): return
        if other is not None and fn.blocks[other][1][0] != 'unreachable': nexts.append((other, rest))

    def switch_on(self, fr, st, v, cases, other, nexts, info, path):
        t = v.a[0]
        fn = fr['fn']
        if info is None:
            if t.t == 'adt':
                info2 = self.adt_info(t.a[0])
                d = info2['variants'][t.a[1]]['discr'] if info2 else t.a[1]
                for val, bb in cases:
                    if val == d: nexts.append((bb, st)); return
                if other is not None: nexts.append((other, st))
                return
            # unknown enum: fork over cases
            poss = [(val, val) for val, _ in cases]
            byd = {val: bb for val, bb in cases}
            s = st.facts.vs.get(t)
            allv = [val for val, _ in cases] + ([-1] if other is not None and fn.blocks[other][1][0] != 'unreachable' else [])
            vs = [x for x in allv if s is None or x in s]
            for i, x in enumerate(vs):
                s2 = st.copy() if i < len(vs) - 1 else st
                s2.facts.set_vs(t, {x}); nexts.append((byd.get(x, other), s2))
            return
        byd = {val: bb for val, bb in cases}
        if t.t == 'adt':
            nexts.append((byd.get(info['variants'][t.a[1]]['discr'], other), st)); return
        vs = self.fork_variant(st, t, len(info['variants']))
        groups = {}
        for vi in vs:
            bb = byd.get(info['variants'][vi]['discr'], other)
            if bb is None: continue
            groups.setdefault(bb, []).append(vi)
        groups = {bb: l for bb, l in groups.items() if fn.blocks[bb][1][0] != 'unreachable' or fn.blocks[bb][0]}
        items = list(groups.items())
        for i, (bb, l) in enumerate(items):
            s2 = st.copy() if i < len(items) - 1 else st
            if len(vs) != len(l): s2.facts.set_vs(t, l)
            nexts.append((bb, s2))

    def do_assert(self, fr, b, st, term, nexts):
        cond = self.operand(st, fr, term[1]); expected = term[2]; kind = term[3]; tgt = term[4]
        if kind == 'overflow':
            if cond.t == 'ovf':
                op, x, y, v = cond.a
                tyk = None
                # decide: Sub on unsigned needs x >= y ; Add/Mul assumed in range (documented)
                if op == 'Sub' and self.unsigned_ovf(fr, b, term):
                    d = sub(x, y)
                    if st.facts.nonneg(d):
                        nexts.append((tgt, st)); return
                    s = st.facts.cmp0(d)
                    self.panic(fr, b, st, 'overflow', 'subtract %s - %s' % (show(x), show(y)))
                    if s <= {'<'}: return
                    st.facts.add_ge(d)
                nexts.append((tgt, st)); return
            nexts.append((tgt, st)); return
        for s2, r in self.split_bool(st, cond):
            if r == expected: nexts.append((tgt, s2))
            else: self.panic(fr, b, s2, kind, 'index out of bounds' if kind == 'bounds' else kind)

    def unsigned_ovf(self, fr, b, term):
        o = term[1]
        if o[0] in 'cm':
            loc = o[1][0]
            t = fr['fn'].types[fr['fn'].locals[loc]]
            if t['k'] == 'tuple' and t.get('args'):
                return fr['fn'].types[t['args'][0]]['k'] == 'uint'
        return False

    # -------------------------------------------------------------- loops
    def run_loop(self, fr, header, st):
        fn = fr['fn']; blocks = fn.loops[header]
        def body(s):
            ex, bk, rt = self.run_region(fr, {header: [s]}, blocks, header)
            bk = self.prune_merge(fr, header, bk) if bk else bk
            return [('x', nb, s2) for nb, s2 in ex] + [('r', v, s2) for s2, v in rt], bk
        outs = self.generic_loop(body, st, (fn.key, header), fr)
        exits = [(a, s) for k, a, s in outs if k == 'x']
        rets = [(s, a) for k, a, s in outs if k == 'r']
        return exits, rets

    def measure(self, st):
        """explicit parts left in iterators"""
        n = self.supply(st) if self.supply else 0
        for v in st.cells.values(): n += self.it_parts(v)
        return n

    def it_parts(self, v):
        if not isinstance(v, T) or not v.t.startswith('it') or v.t == 'ite': return 0
        if v.t == 'it': return 2 * len(v.a[0])
        n = sum(self.it_parts(x) for x in v.a)
        if v.t == 'ittake' and v.a[1].t == 'int': n += v.a[1].a[0]
        if v.t == 'itpeek' and v.a[1] is not UNIT: n += 1
        return n

    def generic_loop(self, body, S0, lid, fr):
        """body(state) -> (outs, backs); outs are opaque tuples ending in the state"""
        outs = []
        pend = [(S0, 0)]
        total = 0
        while pend:
            s, n = pend.pop()
            total += 1
            mark = len(self.panics), len(self.rec_calls)
            s_in = s.copy()
            o, backs = body(s)
            if not backs:
                outs.extend(o); continue
            m0 = self.measure(s_in)
            ms = [self.measure(x) for x in backs]
            if not o and len(backs) == 1 and self.no_progress(s_in, backs[0]):
                self.panic(fr, lid[1] if isinstance(lid[1], int) else 0, backs[0], 'endless', 'the loop repeats the same state for ever'); continue
            if (all(m < m0 for m in ms) and total < max(400, self.loop_max)) or (not o and n < self.loop_max and total < max(300, self.loop_max) and self.concrete_progress(s_in, backs)):
                outs.extend(o)
                pend.extend((x, n + 1) for x in backs)
                continue
            del self.panics[mark[0]:]; del self.rec_calls[mark[1]:]
            outs.extend(self.generalise(body, s_in, backs, lid, fr))
        return outs

    def no_progress(self, a, b):
        """b, reached from a by one round of a loop that nothing leaves, is the same state, and nothing was read on the way"""
        if a.cells.keys() != b.cells.keys() or any(b.cells[k] is not v for k, v in a.cells.items()): return False
        if set(a.facts.items()) != set(b.facts.items()): return False
        x = b.ev
        while x is not a.ev:
            if x is None or not re.search('write|flush|print|stdout', str(x.fn)): return False
            x = x.prev
        return True

    def concrete_progress(self, s, backs):
        return True

    def generalise(self, body, S0, backs, lid, fr):
        self.loop_seq += 1
        # identify the loop instance by location and inline stack so that terms are stable
        inst = (lid, tuple(k for k, _, _ in self.stack))
        L = raw('loop', str(lid[0]) + '@' + str(lid[1]), tuple('%s:%s' % (k, b) for k, b, _ in self.stack[:-1]), len(self.itctr))
        rec = LoopRec(L, lid[0], lid[1])
        itc = raw('mu', L, '#'); NONNEG.add(itc)
        G = S0.copy()
        gmarks = {}       # mu -> None
        mark = len(self.panics), len(self.rec_calls)
        self.itctr.append(itc)
        try:
            extra = None
            ev0 = S0.ev
            has_ev = any(x.ev is not ev0 and _evk(x.ev) is not _evk(ev0) for x in backs)
            if has_ev:
                G.ev = Ev(ev0, 'loop-begin', (L,), UNIT, self.site(fr, lid[1]) if isinstance(lid[1], int) else str(lid), None)
            ninv = 0
            for rnd in range(14):
                newG, changed = self.widen(L, G, backs, S0)
                if self.trace: print('  round', rnd, lid, changed, {str(c): show(v)[:200] for c, v in newG.cells.items() if self.has_mu(v, L)})
                if rnd > 0 and not changed:
                    ninv += 1
                    ok, G2 = self.add_invariants(L, G, S0, backs) if ninv <= 3 else (False, None)
                    if not ok:      # stable including facts
                        break
                    G = G2
                else:
                    newG.facts = self.stable_facts(newG, S0, backs, L, G)
                    newG.ev = G.ev
                    G = newG
                del self.panics[mark[0]:]; del self.rec_calls[mark[1]:]
                s = G.copy()
                outs, backs = body(s)
                if has_ev is False and any(_evk(x.ev) is not _evk(G.ev) for x in backs):
                    has_ev = True
                    G.ev = Ev(ev0, 'loop-begin', (L,), UNIT, str(lid), None)
                if len(backs) > 600: raise Lost('loop paths')
            else:
                raise Lost('loop does not stabilise: %s' % (lid,))
        finally:
            self.itctr.pop()
        return self.close(L, rec, G, S0, outs, backs, itc, fr)

    # matching a generalised term against an instance: {mu: value} or None
    def match(self, g, v, L, m):
        if g is v and not self.has_mu(g, L): return True
        if g.t == 'mu' and g.a[0] is L:
            if g in m: return m[g] is v
            m[g] = v; return True
        if not self.has_mu(g, L): return g is v
        if g.t == 'lin':
            c, d = lin_parts(g)
            mus = [t for t in d if t.t == 'mu' and t.a[0] is L]
            if len(mus) == 1 and d[mus[0]] == 1 and not any(self.has_mu(t, L) for t in d if t is not mus[0]):
                val = sub(v, sub(g, mus[0]))
                if v.t not in ('int', 'lin') and False: return False
                if mus[0] in m: return m[mus[0]] is val
                m[mus[0]] = val; return True
            return g is v
        if g.t == 'sl' and g.a[0] is v:
            return self.match_args(g.a, (v, Int(0), length(v)), L, m)
        if g.t == 'seq' or (v.t == 'seq'):
            return self.match_parts(seq_parts(g), seq_parts(v), L, m, 'seq')
        if g.t == 'str' or v.t == 'str':
            return self.match_parts(tuple(('p', p) if isinstance(p, str) else ('s', p) for p in str_parts(g)),
                                    tuple(('p', p) if isinstance(p, str) else ('s', p) for p in str_parts(v)), L, m, 'str')
        if g.t == 'sl' and v.t != 'sl':
            v = raw('sl', v, Int(0), length(v))
        if g.t != v.t or len(g.a) != len(v.a): return False
        return self.match_args(g.a, v.a, L, m)

    def match_args(self, a, b, L, m):
        for x, y in zip(a, b):
            if isinstance(x, T):
                if not isinstance(y, T) or not self.match(x, y, L, m): return False
            elif isinstance(x, tuple):
                if not isinstance(y, tuple) or len(x) != len(y) or not self.match_args(x, y, L, m): return False
            elif x != y: return False
        return True

    def match_parts(self, ga, va, L, m, kind):
        ga, va = list(ga), list(va)
        # only one absorbing mu segment is supported
        def is_mu(p): return p[0] == 's' and isinstance(p[1], T) and p[1].t == 'mu' and p[1].a[0] is L and p[1] not in m
        def absorb(p): return is_mu(p)
        i = 0
        while ga and va and not absorb(ga[0]):
            g, v = ga[0], va[0]
            if g[0] == v[0] and (g[1] == v[1] if isinstance(g[1], str) or isinstance(v[1], str) else self.match(g[1], v[1], L, m)):
                ga.pop(0); va.pop(0)
            elif g[0] == 's' and isinstance(g[1], T) and g[1].t == 'mu' and g[1] in m:
                # already bound: its value must be a prefix
                val = list(seq_parts(m[g[1]])) if kind == 'seq' else [('p', p) if isinstance(p, str) else ('s', p) for p in str_parts(m[g[1]])]
                if va[:len(val)] == val: va = va[len(val):]; ga.pop(0)
                else: return False
            else: return False
        if not ga: return not va
        if not absorb(ga[0]):
            # va exhausted; remaining g must be bound-empty
            for g in ga:
                if g[0] == 's' and isinstance(g[1], T) and g[1] in m and (m[g[1]] is NIL or m[g[1]] is EMPTY): continue
                if g[0] == 's' and g[1].t == 'sl' and False: continue
                return False
            return True
        # suffix
        while len(ga) > 1 and va and not absorb(ga[-1]):
            g, v = ga[-1], va[-1]
            if g[0] == v[0] and (g[1] == v[1] if isinstance(g[1], str) or isinstance(v[1], str) else self.match(g[1], v[1], L, m)):
                ga.pop(); va.pop()
            else: break
        if len(ga) == 1:
            val = mkseq(va) if kind == 'seq' else cat(*[p for _, p in va])
            m[ga[0][1]] = val; return True
        # trailing bound mus with empty value etc. are not handled
        if kind == 'str' and len(ga) == 2 and is_mu(ga[0]) and is_mu(ga[1]): return False
        return False

    _hm = None
    def has_mu(self, t, L):
        if self._hm is None: self._hm = {}
        k = (t.id, L.id)
        r = self._hm.get(k)
        if r is None:
            r = (t.t == 'mu' and t.a[0] is L) or any(self.has_mu(s, L) for s in subterms(t))
            self._hm[k] = r
        return r

    def bindings(self, L, G, S):
        """{mu: value} for state S at the header, or None"""
        m = {}
        for c, g in G.cells.items():
            v = S.cells.get(c)
            if v is None: continue
            if g is v and not self.has_mu(g, L): continue
            if not self.match(g, v, L, m): return None
        return m

    def widen(self, L, G, backs, S0):
        bs = [self.bindings(L, G, b) for b in backs]
        if all(b is not None for b in bs):
            b0 = self.bindings(L, G, S0)
            if b0 is not None and all(all(c in b.cells for c in G.cells) for b in backs): return G, False
        new = G.copy(); table = {}
        names = {}
        for rnd in range(2):
            for c in sorted(G.cells, key=str):
                g = G.cells[c]
                vs = [S0.cells.get(c)] + [b.cells.get(c) for b in backs]
                if any(v is None for v in vs):
                    new.cells.pop(c, None); continue
                new.cells[c] = self.au(L, g, vs, table, ('%s' % (c,),), names)
        return new, True

    def fresh(self, L, g, vs, table, path, kind, names):
        key = (kind,) + tuple(vs)
        if key in table: return table[key]
        if g is not None and g.t == 'mu' and g.a[0] is L and g not in table.values(): r = g
        else:
            nm = '.'.join(path)
            while (nm in names and names[nm] != key): nm += "'"
            names[nm] = key
            r = raw('mu', L, nm)
        if kind == 'nat': NONNEG.add(r)
        table[key] = r
        return r

    def au(self, L, g, vs, table, path, names):
        """least general generalisation of the header values vs (vs[0] is the entry value)"""
        if all(v is vs[0] for v in vs) and not (g is not None and self.has_mu(g, L)): return vs[0]
        # keep the current generaliser where it still matches everything
        if g is not None:
            ok = True
            for v in vs:
                m = {}
                if not self.match(g, v, L, m): ok = False; break
            if ok and g.t not in ('lin',): 
                # re-register so equal bindings share a name
                if g.t == 'mu':
                    return self.fresh(L, g, vs, table, path, 'nat' if g in NONNEG else 'gen', names)
                return self.rename(L, g, vs, table, path, names)
        v0 = vs[0]
        numeric = all(v.t in ('int', 'lin') or v in NONNEG or (v.t in ('v', 'fld', 'mu', 'bv', 'at', 'len', 'slen')) for v in vs) and any(v.t in ('int', 'lin') for v in vs)
        if numeric:
            nat = all((v.t == 'int' and v.a[0] >= 0) or natural(v) or v.t == 'lin' for v in vs) and any(natural(v) for v in vs)
            return self.fresh(L, g, vs, table, path, 'nat' if nat else 'num', names)
        kinds = {v.t for v in vs}
        if kinds == {'it'}:
            return self.au_it(L, g, vs, table, path, names)
        if len(kinds) == 1 and v0.t in ('adt', 'tup', 'clo', 'coro', 'updf') + ITTAGS and len({len(v.a) for v in vs}) == 1:
            return self.au_args(L, g, vs, table, path, names)
        if v0.t == 'sl' or 'sl' in kinds:
            base = next(v for v in vs if v.t == 'sl').a[0]
            if all((v.t == 'sl' and v.a[0] is base) or v is base for v in vs):
                ws = [v if v.t == 'sl' else None for v in vs]
                los = [w.a[1] if w is not None else Int(0) for w in ws]
                his = [w.a[2] if w is not None else length(base) for w in ws]
                lo = self.au(L, None, los, table, path + ('lo',), names)
                hi = self.au(L, None, his, table, path + ('hi',), names)
                return sl(base, lo, hi)
        if 'seq' in kinds or 'fm' in kinds:
            return self.au_seq(L, g, vs, table, path, names)
        if 'str' in kinds:
            return self.au_str(L, g, vs, table, path, names)
        if 'hm' in kinds and kinds == {'hm'} and len({v.a[0] for v in vs}) == 1:
            inner = self.au_seq(L, g.a[1] if g is not None and g.t == 'hm' else None, [v.a[1] for v in vs], table, path + ('hm',), names)
            return raw('hm', v0.a[0], inner)
        if len(kinds) == 1 and v0.t in ('fld', 'at', 'rev', 'not') and len({len(v.a) for v in vs}) == 1 and False:
            return self.au_args(L, g, vs, table, path, names)
        return self.fresh(L, g, vs, table, path, 'gen', names)

    def rename(self, L, g, vs, table, path, names):
        """g matches all vs: rebuild it with table-consistent names"""
        ms = []
        for v in vs:
            m = {}
            self.match(g, v, L, m); ms.append(m)
        mus = {}
        for m in ms:
            for k in m: mus[k] = 1
        sg = {}
        for k in mus:
            vals = [m.get(k) for m in ms]
            if any(x is None for x in vals): return g
            r = self.fresh(L, k, vals, table, path + (str(k.a[1]),), 'nat' if k in NONNEG else 'gen', names)
            if r is not k: sg[k] = r
        return subst(g, sg) if sg else g

    def au_args(self, L, g, vs, table, path, names):
        def rec(xs, gx, p):
            x0 = xs[0]
            if isinstance(x0, T): return self.au(L, gx if isinstance(gx, T) else None, list(xs), table, p, names)
            if isinstance(x0, tuple):
                if len({len(x) for x in xs}) != 1: raise _NoAU()
                return tuple(rec([x[i] for x in xs], gx[i] if isinstance(gx, tuple) and len(gx) == len(x0) else None, p + (str(i),)) for i in range(len(x0)))
            if any(x != x0 for x in xs): raise _NoAU()
            return x0
        try:
            a = rec([v.a for v in vs], g.a if g is not None and g.t == vs[0].t else None, path)
        except _NoAU:
            return self.fresh(L, g, vs, table, path, 'gen', names)
        return raw(vs[0].t, *a) if vs[0].t in ('adt', 'tup', 'clo', 'coro', 'updf') + ITTAGS else rebuild(vs[0], a)

    def au_it(self, L, g, vs, table, path, names):
        # iterator: parts tuple + offset into the first segment.  Segments are consumed left to right:
        # align from the right.
        n = min(len(v.a[0]) for v in vs)
        m = max(len(v.a[0]) for v in vs)
        if n == m:
            try:
                parts = []
                for i in range(n):
                    ks = {v.a[0][i][0] for v in vs}
                    if len(ks) != 1: raise _NoAU()
                    xs = [v.a[0][i][1] for v in vs]
                    gx = None
                    if g is not None and g.t == 'it' and len(g.a[0]) == n: gx = g.a[0][i][1]
                    if all(x is xs[0] for x in xs): parts.append((next(iter(ks)), xs[0]))
                    else: parts.append((next(iter(ks)), self.au(L, gx, xs, table, path + ('p%d' % i,), names)))
                off = self.au(L, g.a[1] if g is not None and g.t == 'it' else None, [v.a[1] for v in vs], table, path + ('off',), names)
                return raw('it', tuple(parts), off, vs[0].a[2])
            except _NoAU: pass
        return self.fresh(L, g, vs, table, path, 'gen', names)

    def au_seq(self, L, g, vs, table, path, names):
        ps = [list(seq_parts(v)) for v in vs]
        pre, suf = [], []
        # keep an existing absorbing mu by collapsing everything between equal prefix and suffix
        while all(p for p in ps) and all(p[0] == ps[0][0] for p in ps) and not self.part_mu(ps[0][0], L):
            pre.append(ps[0][0]); ps = [p[1:] for p in ps]
        while all(p for p in ps) and all(p[-1] == ps[0][-1] for p in ps) and not self.part_mu(ps[0][-1], L):
            suf.insert(0, ps[0][-1]); ps = [p[:-1] for p in ps]
        if all(len(p) == 1 for p in ps) and len({p[0][0] for p in ps}) == 1 and ps[0][0][0] == 'e':
            return mkseq(pre + [('e', self.au(L, None, [p[0][1] for p in ps], table, path + ('el',), names))] + suf)
        # suffix segments already related by the table
        while all(p for p in ps) and all(p[-1][0] == 's' for p in ps):
            key = ('gen',) + tuple(p[-1][1] for p in ps)
            if key in table:
                suf.insert(0, ('s', table[key])); ps = [p[:-1] for p in ps]
            else: break
        mids = [mkseq(p) for p in ps]
        if all(m is NIL for m in mids): return mkseq(pre + suf)
        return mkseq(pre + [('s', self.fresh(L, g if g is not None and g.t == 'mu' else None, mids, table, path + ('seq',), 'gen', names))] + suf)

    def part_mu(self, p, L):
        return isinstance(p[1], T) and self.has_mu(p[1], L)

    def au_str(self, L, g, vs, table, path, names):
        ps = [list(str_parts(v)) for v in vs]
        pre, suf = [], []
        while all(p for p in ps) and all(p[0] == ps[0][0] for p in ps):
            pre.append(ps[0][0]); ps = [p[1:] for p in ps]
        while all(p for p in ps) and all(p[-1] == ps[0][-1] for p in ps):
            suf.insert(0, ps[0][-1]); ps = [p[:-1] for p in ps]
        mids = [cat(*p) for p in ps]
        if all(m is EMPTY for m in mids): return cat(*(pre + suf))
        return cat(*(pre + [self.fresh(L, g if g is not None and g.t == 'mu' else None, mids, table, path + ('str',), 'gen', names)] + suf))

    def stable_facts(self, newG, S0, backs, L, G):
        """facts of the entry state (about unchanged terms they keep holding: terms are values)"""
        f = S0.facts.copy()
        # facts in G about mu variables that were added as invariants are re-derived
        return f

    def add_invariants(self, L, G, S0, backs):
        """try inductive facts about mu variables; returns (added?, G')"""
        b0 = self.bindings(L, G, S0)
        bb = [self.bindings(L, G, b) for b in backs]
        if b0 is None or any(b is None for b in bb): return False, G
        have = set(G.facts.items())
        cands = []
        for mu, init in b0.items():
            news = [b.get(mu) for b in bb]
            if any(n is None for n in news): continue
            numeric = init.t in ('int', 'lin') or init in NONNEG or mu in NONNEG
            if numeric:
                cands.append(('ge', sub(mu, init)))
                # upper bounds: from comparison facts of back states about the new value
                for b, n in zip(backs, news):
                    for g in b.facts.ge:
                        c, d = lin_parts(g)
                        if d.get(mu) == -1:
                            cands.append(('ge', add(g, Int(1))))
                            cands.append(('ge', g))
                            delta = sub(n, mu)
                            if delta.t == 'int': cands.append(('ge', add(g, delta)))
                    break
            else:
                # variant sets
                vsets = []
                for v, f in [(init, S0.facts)] + [(n, b.facts) for n, b in zip(news, backs)]:
                    if v.t == 'adt': vsets.append(frozenset([v.a[1]]))
                    elif v is mu: vsets.append(frozenset())
                    elif v in f.vs: vsets.append(f.vs[v])
                    else: vsets = None; break
                if vsets is not None:
                    u = frozenset().union(*vsets)
                    info = None
                    if u and len(u) < 20: cands.append(('vs', mu, u))
                # non-empty strings
        new = G.copy(); added = False
        for c in cands:
            if c in have: continue
            if c[0] == 'ge':
                l = c[1]
                if l.t == 'int' or G.facts.nonneg(l, 0): continue
                if not S0.facts.nonneg(subst(l, b0)): continue
                ok = True
                for b, m in zip(backs, bb):
                    f = b.facts.copy(); f.add_ge(l)
                    if not f.nonneg(subst(l, m)): ok = False; break
                if ok: new.facts.add_ge(l); added = True
            elif c[0] == 'vs':
                if c[1] in G.facts.vs and G.facts.vs[c[1]] <= c[2]: continue
                ok = True
                for b, m in zip(backs, bb):
                    v = m[c[1]]
                    if v is c[1]: continue
                if ok: new.facts.set_vs(c[1], c[2]); added = True
        return added, new

    def guards_of(self, base, f, itc=None):
        have = set(base.items())
        return tuple(sorted((x for x in f.items() if x not in have), key=lambda x: (x[0], x[1].id, str(x[2:]))))

    def close(self, L, rec, G, S0, outs, backs, itc, fr):
        b0 = self.bindings(L, G, S0)
        bb = [self.bindings(L, G, b) for b in backs]
        if b0 is None or any(b is None for b in bb): raise Lost('loop bindings')
        rec.init = b0
        n0 = G.ev.n if G.ev is not None else 0
        for b, m in zip(backs, bb):
            evs = []
            e = b.ev
            while e is not None and e.n > n0:
                evs.append(e); e = e.prev
            rec.trans.append((self.guards_of(G.facts, b.facts), m, evs[::-1]))
        self.loops[L] = rec
        mus = set(b0)
        # mus that never change
        sg_inv = {}
        for mu in list(mus):
            if all(m.get(mu) is mu or m.get(mu) is b0[mu] for m in bb):
                if all(m.get(mu) is mu for m in bb): sg_inv[mu] = b0[mu]
        mus -= set(sg_inv)
        # integer steps
        steps = {}
        for mu in mus:
            ds = {sub(m[mu], mu) for m in bb if m.get(mu) is not None} if all(m.get(mu) is not None and m[mu].t not in ('seq', 'str', 'adt', 'tup') for m in bb) else set()
            if len(ds) == 1:
                d = next(iter(ds))
                if d.t == 'int' and d.a[0] != 0: steps[mu] = d.a[0]
        if not outs: return []
        res = []
        for o in outs:
            st = o[-1]
            res.append(self.close_exit(L, rec, G, S0, o, st, b0, bb, backs, steps, sg_inv, itc))
        return res

    def close_exit(self, L, rec, G, S0, o, st, b0, bb, backs, steps, sg_inv, itc):
        # number of completed iterations at this exit
        n = None
        f = st.facts
        prim = None
        for mu, s in sorted(steps.items(), key=lambda kv: kv[0].id):
            if abs(s) != 1: continue
            for g in f.ge:
                c, d = lin_parts(g)
                if d.get(mu) == s:      # s*mu - N' >= 0   (mu >= N when s=1)
                    N = sub(mulc(mu, s), g)   # s*mu >= N
                    if any(self.has_mu(t, L) for t in lin_parts(N)[1]): continue
                    if f.nonneg(sub(N, mulc(mu, s))):
                        n = sub(N, mulc(b0[mu], s)); prim = mu; break
            if n is not None: break
        exhausted = n is not None
        if n is None:
            # early exit: position of a primary counter, else an opaque count
            if steps:
                mu = sorted([m for m in steps if abs(steps[m]) == 1] or list(steps), key=lambda t: t.id)[0]
                if abs(steps[mu]) == 1:
                    n = mulc(sub(mu, b0[mu]), steps[mu]); prim = mu
            if n is None:
                n = itc
        sg = dict(sg_inv)
        # per-iteration renaming: primary counters become functions of the bound index
        lv = 90
        bv = raw('bv', lv)
        per = {itc: bv}
        for mu, s in steps.items():
            per[mu] = add(b0[mu], mulc(bv, s))
            sg[mu] = add(b0[mu], mulc(n, s))
        per.update(sg_inv)
        if prim is not None and not exhausted:
            # keep the exit position itself symbolic
            sg[prim] = prim
            for mu, s in steps.items():
                if mu is not prim: sg[mu] = add(b0[mu], mulc(n, s))
        # sequence / string accumulators
        acc = {}
        for mu in b0:
            if mu in sg or mu in steps: continue
            cases = []; kind = None; ok = True
            for (gd, m, evs) in rec.trans:
                v = m.get(mu)
                if v is None: ok = False; break
                if v is mu: cases.append((gd, ())); continue
                if v.t == 'seq':
                    ps = v.a[0]
                    if ps and ps[0] == ('s', mu) and not any(self._mentions(p[1], mu) for p in ps[1:]):
                        kind = kind or 'fm'
                        if kind != 'fm': ok = False; break
                        cases.append((gd, ps[1:])); continue
                if v.t == 'str':
                    ps = v.a[0]
                    if ps and ps[0] is mu and not any(isinstance(p, T) and self._mentions(p, mu) for p in ps[1:]):
                        kind = kind or 'fms'
                        if kind != 'fms': ok = False; break
                        cases.append((gd, ps[1:])); continue
                ok = False; break
            if ok and kind: acc[mu] = (kind, cases)
        # unsolved mus seen inside iterations become functions of the index
        allmus = set(b0)
        for mu in allmus:
            if mu not in per:
                r = raw('mua', mu, bv)
                per[mu] = r
        # relevant guards: drop those about loop control only (true for every iteration), keep the rest
        ctrl = None
        for gd, _, _ in rec.trans:
            s = set(gd); ctrl = s if ctrl is None else ctrl & s
        ctrl = ctrl or set()
        for mu, (kind, cases) in acc.items():
            cs = []
            for gd, ps in cases:
                g2 = tuple(subst_guard(x, per) for x in gd if x not in ctrl)
                if kind == 'fm': p2 = tuple((k, subst(x, per)) for k, x in ps)
                else: p2 = tuple(p if isinstance(p, str) else subst(p, per) for p in ps)
                cs.append((g2, p2))
            merged = {}
            r = mkfm(n, lv, tuple(cs), kind)
            init = b0[mu]
            sg[mu] = concat(init, r) if kind == 'fm' else cat(init, r)
            if exhausted: rec.closed[mu] = sg[mu]
        if exhausted: rec.count = n
        rest = [mu for mu in b0 if mu not in sg]
        for mu in rest: sg.setdefault(mu, mu)
        sg = {k: v for k, v in sg.items() if k is not v}
        if itc not in sg and exhausted: sg[itc] = n
        if not sg: return o
        # simultaneous substitution (values may mention unsolved mus only)
        new = State()
        new.cells = {c: subst(v, sg) for c, v in st.cells.items()}
        new.facts = self.subst_facts(f, sg, L)
        new.ev = self.subst_ev(st.ev, sg, G.ev)
        if o[0] == 'r': return ('r', subst(o[1], sg) if isinstance(o[1], T) else o[1], new)
        if len(o) == 3 and isinstance(o[1], T): return (o[0], subst(o[1], sg), new)
        return o[:-1] + (new,)

    def _mentions(self, t, mu): return contains(t, mu)

    def subst_facts(self, f, sg, L):
        r = Facts()
        for t, s in f.vs.items(): 
            t2 = subst(t, sg)
            if t2.t != 'adt': r.vs[t2] = s if t2 not in r.vs else r.vs[t2] & s
        for t, c in f.eq.items():
            t2 = subst(t, sg)
            if t2.t not in ('int', 'str') or lit(t2) is None: r.eq[t2] = subst(c, sg)
        for t, cs in f.ne.items():
            t2 = subst(t, sg)
            r.ne[t2] = r.ne.get(t2, frozenset()) | cs
        for t, b in f.bl.items(): r.bl[subst(t, sg)] = b
        r.ge = frozenset(x for x in (subst(g, sg) for g in f.ge) if x.t != 'int')
        return r

    def subst_ev(self, ev, sg, base):
        if ev is None or not sg: return ev
        chain = []
        e = ev
        while e is not None and e is not base:
            chain.append(e); e = e.prev
        r = e
        for x in reversed(chain):
            r = Ev(r, x.fn, tuple(subst(a, sg) if isinstance(a, T) else a for a in x.args), subst(x.res, sg) if isinstance(x.res, T) else x.res, x.site, x.facts)
        return r

    # -------------------------------------------------------------- call dispatch
    def call(self, st, f, args, call):
        return self.models.dispatch(self, st, f, args, call)

    def opaque_call(self, st, name, args, call, effect):
        """deterministic for pure callees; effects get a nonce from the trace and an event"""
        self.opaque[name] = self.opaque.get(name, 0) + 1
        if not effect and not KNOWN.search(name) and not (TEXTUAL.search(name) and any(any_sub(self.deref(st, x), free_symbol) for x in args)):
            self.unmodelled.add(name)
            for i in range(len(args)): self.unmodelled.add('mut%d:%s' % (i, name))
        vals = norm_paths(name, tuple(self.deref(st, a) for a in args))
        if effect:
            n = 0
            e = st.ev
            while e is not None:
                if e.fn == name and e.args == vals: n += 1
                e = e.prev
            nonce = (Int(n),) + tuple(self.itctr)
            res = raw('app', name, *(vals + nonce))
            fr = call['fr'] if call else None
            st.ev = Ev(st.ev, name, vals, res, self.site(fr, call['bb']) if fr else '', st.facts.copy())
        else:
            res = raw('app', name, *vals)
        # anything reachable through &mut may change
        for i, a in enumerate(args):
            if a.t == 'ptr':
                old = self.load_cell(st, a.a[0], a.a[1])
                self.store_cell(st, a.a[0], a.a[1], raw('app', 'mut%d:%s' % (i, name), *vals) if not effect else raw('app', 'mut%d' % i, res))
        if call and self.dest_uint(call): NONNEG.add(res)
        return [(st, res)]

    def dest_uint(self, call):
        fr = call.get('fr')
        if not fr or call.get('destty') is None: return False
        return fr['fn'].types[call['destty']]['k'] == 'uint'

    def deref(self, st, a):
        n = 0
        while a.t == 'ptr' and n < 10:
            a = self.load_cell(st, a.a[0], a.a[1]); n += 1
        return a



# library functions a scenario may branch on without knowing what they compute: their result is free
KNOWN = re.compile(r'^(<D as digest|digest::|http::|lsp_types::|url::|reqwest::|serde::|extism|tokio::|std::path::Path::(parent|display)$)')

# of an arbitrary text, path or character these may give any result
TEXTUAL = re.compile(r'^(core::str::|core::char::|core::ascii::|core::num::<impl u8>::is_|alloc::str::|alloc::string::|std::path::|std::ffi::|std::fs::|core::slice::ascii::)')
def free_symbol(t): return t.t in ('v', 'app')

class FnRef:
    """callee reference; compares by resolved identity"""
    __slots__ = ('d', 'crate', 'env', 'k', 'memo')
    def __init__(self, d, crate, env):
        self.memo = None; self.d = d; self.crate = crate; self.env = env
        self.k = (d['key'], (d.get('res') or {}).get('key'), tuple(d.get('targs') or ()), crate.path, id(env) if env else 0)
    def __eq__(self, o): return isinstance(o, FnRef) and self.k == o.k
    def __hash__(self): return hash(self.k)
    def __repr__(self): return (self.d.get('res') or self.d)['name'] if self.d.get('res') else self.d['name']
