"""Value-numbered abstract values.  Terms are hash-consed and built only through
normalising constructors, so two expressions that denote the same value by the
modelled laws are the same Python object."""

class T:
    __slots__ = ('t', 'a', 'id', 'nn')
    def __repr__(self): return show(self)

_tab = {}
_n = [0]
NONNEG = set()          # terms of unsigned type

def raw(t, *a):
    k = (t, a)
    r = _tab.get(k)
    if r is None:
        r = T(); r.t = t; r.a = a; _n[0] += 1; r.id = _n[0]; _tab[k] = r
    return r

# ---------------------------------------------------------------- scalars
def Int(n): return raw('int', n)
def Bool(b): return raw('bool', bool(b))
def Chr(c): return raw('chr', c)
TRUE, FALSE = Bool(True), Bool(False)
UNIT = raw('tup')
ERR = raw('err')
INF = raw('inf')
def V(name): return raw('v', name)
def VN(name):
    t = raw('v', name); NONNEG.add(t); return t
def App(fn, *args): return raw('app', fn, *args)
def Tup(*a): return raw('tup', *a)

def lin_parts(t):
    """-> (const, {term: coef})"""
    if t.t == 'int': return t.a[0], {}
    if t.t == 'lin': return t.a[0], dict(t.a[1])
    return 0, {t: 1}

def mklin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d: return Int(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1: return k
    return raw('lin', c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))

def add(a, b):
    if a is INF or b is INF: return INF
    c1, d1 = lin_parts(a); c2, d2 = lin_parts(b)
    d = dict(d1)
    for k, v in d2.items(): d[k] = d.get(k, 0) + v
    return mklin(c1 + c2, d)

def neg(a):
    c, d = lin_parts(a)
    return mklin(-c, {k: -v for k, v in d.items()})

def sub(a, b):
    if a is INF: return INF
    return add(a, neg(b))

def mulc(a, n):
    c, d = lin_parts(a)
    return mklin(c * n, {k: v * n for k, v in d.items()})

# ---------------------------------------------------------------- strings
def Str(s): return raw('str', (s,) if s else ())
EMPTY = Str('')

def cat(*xs):
    out = []
    def push(x):
        if isinstance(x, str):
            if not x: return
            if out and isinstance(out[-1], str): out[-1] += x
            else: out.append(x)
        elif x.t == 'str':
            for y in x.a[0]: push(y)
        elif x.t == 'chr': push(x.a[0])
        else: out.append(x)
    for x in xs: push(x)
    if len(out) == 1 and not isinstance(out[0], str): return out[0]
    return raw('str', tuple(out))

def str_parts(t):
    return t.a[0] if t.t == 'str' else (t,)

PATH_ARGS = {'std::fs::rename': (0, 1), 'std::fs::copy': (0, 1), 'std::fs::hard_link': (0, 1)}
def norm_paths(name, vals):
    """the paths given to a file-system call, without a leading ./"""
    if not name.startswith('std::fs::') and not name.startswith('std::path::Path::'): return vals
    idx = PATH_ARGS.get(name, (0,)); out = list(vals)
    for i in idx:
        if i < len(out) and out[i].t == 'str': out[i] = norm_path(out[i])
    return tuple(out)

def norm_path(t):
    p = list(t.a[0])
    while p and isinstance(p[0], str) and p[0].startswith('./') and not p[0].startswith('.//') and (len(p[0]) > 2 or len(p) > 1):
        p[0] = p[0][2:]
        if not p[0]: p = p[1:]
    return cat(*p)

def lit(t):
    """python string when the term is a literal"""
    if t.t == 'str':
        if not t.a[0]: return ''
        if len(t.a[0]) == 1 and isinstance(t.a[0][0], str): return t.a[0][0]
    return None

# ---------------------------------------------------------------- aggregates
def Adt(path, vi, names, fields): return raw('adt', path, vi, tuple(names), tuple(fields))

OPT = 'core::option::Option'; RES = 'core::result::Result'; CF = 'core::ops::control_flow::ControlFlow'
POLL = 'core::task::poll::Poll'; COW = 'alloc::borrow::Cow'; ORD = 'core::cmp::Ordering'
NONE = Adt(OPT, 0, (), ())
def Some(x): return Adt(OPT, 1, ('0',), (x,))
def Ok(x): return Adt(RES, 0, ('0',), (x,))
def Err(x): return Adt(RES, 1, ('0',), (x,))
def Continue(x): return Adt(CF, 0, ('0',), (x,))
def Break(x): return Adt(CF, 1, ('0',), (x,))
def Ready(x): return Adt(POLL, 0, ('0',), (x,))

def fld(b, name):
    if b.t == 'adt':
        if name in b.a[2]: return b.a[3][b.a[2].index(name)]
        return raw('fld', b, name)
    if b.t in ('tup',) and name.isdigit() and int(name) < len(b.a): return b.a[int(name)]
    if b.t == 'okor' and name == '0': return b.a[0]
    if b.t == 'updf':
        for n, x in b.a[1]:
            if n == name: return x
        return fld(b.a[0], name)
    return raw('fld', b, name)

# ---------------------------------------------------------------- sequences
def mkseq(parts):
    """parts: iterable of ('e',T) | ('s',T)"""
    out = []
    def push(k, x):
        if k == 'e':
            # re-join [at(X,i)] with an adjacent slice of X is not attempted
            out.append((k, x)); return
        if x.t == 'seq':
            for p in x.a[0]: push(*p)
            return
        if x.t == 'sl':
            X, a, b = x.a
            if a is b: return
        if x.t == 'fm' and x.a[0] is Int(0): return
        out.append((k, x))
    for k, x in parts: push(k, x)
    # merge adjacent slices of one sequence
    i = 0
    while i + 1 < len(out):
        a, b = out[i], out[i + 1]
        if a[0] == 's' and b[0] == 's':
            xa = a[1].a if a[1].t == 'sl' else (a[1], Int(0), length(a[1]))
            xb = b[1].a if b[1].t == 'sl' else (b[1], Int(0), length(b[1]))
            if xa[0] is xb[0] and xa[2] is xb[1]:
                m = sl(xa[0], xa[1], xb[2])
                out[i:i + 2] = [('s', m)] if m.t != 'seq' else list(m.a[0])
                continue
        i += 1
    if len(out) == 1 and out[0][0] == 's': return out[0][1]
    return raw('seq', tuple(out))

def Seq(*els): return mkseq([('e', e) for e in els])
NIL = raw('seq', ())

def seq_parts(t):
    if t.t == 'bytes' and isinstance(t.a[0], tuple): return tuple(('e', Int(b)) for b in t.a[0])
    return t.a[0] if t.t == 'seq' else (('s', t),)

def concat(*seqs):
    ps = []
    for s in seqs: ps.extend(seq_parts(s))
    return mkseq(ps)

def length(X):
    t = X.t
    if t == 'seq':
        r = Int(0)
        for k, x in X.a[0]: r = add(r, Int(1) if k == 'e' else length(x))
        return r
    if t == 'bytes': return Int(len(X.a[0]))
    if t == 'sl': return sub(X.a[2], X.a[1])
    if t == 'rng': return sub(X.a[1], X.a[0])
    if t == 'rev': return length(X.a[0])
    if t == 'fm':
        if all(len(ps) == 1 and ps[0][0] == 'e' for _, ps in X.a[2]): return X.a[0]
    if t == 'str':
        r = Int(0)
        for p in X.a[0]:
            r = add(r, Int(len(p.encode())) if isinstance(p, str) else slen(p))
        return r
    r = raw('len', X); NONNEG.add(r); return r

def slen(s):
    """byte length of a string term"""
    if s.t == 'str':
        r = Int(0)
        for p in s.a[0]: r = add(r, Int(len(p.encode())) if isinstance(p, str) else slen(p))
        return r
    r = raw('slen', s); NONNEG.add(r); return r

def uniform(X):
    return X.t == 'fm' and all(len(ps) == 1 and ps[0][0] == 'e' for _, ps in X.a[2])

def at(X, i):
    """i-th element; None is never returned (opaque `at` otherwise)"""
    t = X.t
    if t == 'str' and i.t == 'int' and lit(X) is not None and 0 <= i.a[0] < len(lit(X).encode()): return Int(lit(X).encode()[i.a[0]])       # as_bytes
    if t == 'bytes' and i.t == 'int' and 0 <= i.a[0] < len(X.a[0]): return Int(X.a[0][i.a[0]])
    if t == 'sl': return at(X.a[0], add(X.a[1], i))
    if t == 'rng': return add(X.a[0], i)
    if t == 'rev': return at(X.a[0], sub(sub(length(X.a[0]), Int(1)), i))
    if t == 'fm' and len(X.a[2]) == 1 and uniform(X):
        return subst(X.a[2][0][1][0][1], {raw('bv', X.a[1]): i})
    if t == 'seq':
        c, d = lin_parts(i)
        parts = X.a[0]
        if not d:
            k = c
            for j, (kk, x) in enumerate(parts):
                if kk == 'e':
                    if k == 0: return x
                    k -= 1
                else:
                    n = length(x)
                    if n.t == 'int':
                        if k < n.a[0]: return at(x, Int(k))
                        k -= n.a[0]
                    elif j == len(parts) - 1: return at(x, Int(k))
                    else: break
        # offset that provably lies past a prefix: i = len(prefix) + small const
        pre = Int(0)
        for j, (kk, x) in enumerate(parts):
            r = sub(i, pre)
            if kk == 'e':
                if r.t == 'int' and r.a[0] == 0: return x
                pre = add(pre, Int(1))
            else:
                pre = add(pre, length(x))
        if parts and parts[-1][0] == 's':
            r = sub(i, sub(length(X), length(parts[-1][1])))
            if natural(r): return at(parts[-1][1], r)
        # from the end
        suf = sub(length(X), i)
        if suf.t == 'int':
            k = suf.a[0]
            for kk, x in reversed(parts):
                if kk == 'e':
                    k -= 1
                    if k == 0: return x
                else:
                    if k >= 1: return at(x, sub(length(x), Int(k)))
                    break
    return raw('at', X, i)

def natural(r):
    c, d = lin_parts(r)
    return c >= 0 and all(v > 0 and (x in NONNEG or x.t == 'bv') for x, v in d.items())

def sl(X, a, b):
    """X[a..b] (bounds already known to be in range)"""
    if a is b: return NIL
    if a is Int(0) and b is length(X): return X
    if X.t == 'sl': return sl(X.a[0], add(X.a[1], a), add(X.a[1], b))
    if X.t == 'rng': return raw('rng', add(X.a[0], a), add(X.a[0], b))
    if X.t == 'seq':
        parts = X.a[0]
        # cut at part boundaries (or inside the segment the bound falls into)
        def cut(pos):
            pre = Int(0)
            for j, (kk, x) in enumerate(parts):
                r = sub(pos, pre)
                if r.t == 'int' and r.a[0] == 0: return (j, None)
                n = Int(1) if kk == 'e' else length(x)
                last = j == len(parts) - 1
                nxt = add(pre, n)
                if r.t == 'int' and kk == 's' and n.t != 'int':
                    # constant offset into an unknown segment
                    return (j, r) if (last or r.a[0] > 0) and last else None
                if r.t == 'int' and n.t == 'int' and r.a[0] < n.a[0]: return (j, r)
                d = sub(nxt, pos)
                if d.t == 'int' and d.a[0] == 0: return (j + 1, None)
                if kk == 's' and n.t != 'int' and r.t != 'int':
                    # variable offset: only if it syntactically mentions this segment's index base
                    if last and natural(r): return (j, r)
                if kk == 's' and d.t == 'int' and d.a[0] > 0 and n.t != 'int':
                    return (j, sub(n, d))
                pre = nxt
            r = sub(pos, pre)
            if r.t == 'int' and r.a[0] == 0: return (len(parts), None)
            return None
        ca, cb = cut(a), cut(b)
        if ca and cb:
            (ja, ra), (jb, rb) = ca, cb
            out = []
            for j in range(ja, len(parts)):
                if j > jb or (j == jb and rb is None): break
                kk, x = parts[j]
                if kk == 'e':
                    out.append((kk, x)); continue
                lo = ra if (j == ja and ra is not None) else Int(0)
                hi = rb if (j == jb and rb is not None) else length(x)
                out.append(('s', sl(x, lo, hi)))
            return mkseq(out)
    if X.t == 'fm' and len(X.a[2]) == 1 and uniform(X):
        n, lv, cases = X.a
        el = cases[0][1][0][1]
        bv = raw('bv', lv)
        return mkfm(sub(b, a), lv, ((cases[0][0], (('e', subst(el, {bv: add(bv, a)})),)),)) if not cases[0][0] else raw('sl', X, a, b)
    return raw('sl', X, a, b)

# fm(n, lv, cases): concatenation for bv_lv = 0..n-1 of the parts of the matching case
def maxbv(t, memo=None):
    if memo is None: memo = {}
    if t in memo: return memo[t]
    m = -1
    if t.t == 'bv' : m = t.a[0]
    else:
        if t.t == 'fm' or t.t == 'fms': m = t.a[1]
        for x in subterms(t): m = max(m, maxbv(x, memo))
    memo[t] = m
    return m

def subterms(t):
    out = []
    def rec(a):
        for x in a:
            if isinstance(x, T): out.append(x)
            elif isinstance(x, tuple): rec(x)
            elif isinstance(x, frozenset):
                for y in x:
                    if isinstance(y, T): out.append(y)
                    elif isinstance(y, tuple): rec(y)
    rec(t.a)
    return out

def mkfm(n, lv, cases, kind='fm'):
    """normalise: canonical bound variable level, identity maps, zero count"""
    if n is Int(0): return NIL if kind == 'fm' else EMPTY
    m = -1
    bv = raw('bv', lv)
    for g, ps in cases:
        for it in g:
            for x in it[1:]:
                if isinstance(x, T): m = max(m, _inner_bv(x, lv))
        for p in ps:
            x = p[1] if kind == 'fm' else p
            if isinstance(x, T): m = max(m, _inner_bv(x, lv))
    new = m + 1
    if new != lv:
        nb = raw('bv', new); sg = {bv: nb}
        cases = tuple((tuple(subst_guard(it, sg) for it in g),
                       tuple((p[0], subst(p[1], sg)) for p in ps) if kind == 'fm' else
                       tuple(p if isinstance(p, str) else subst(p, sg) for p in ps)) for g, ps in cases)
        lv = new; bv = nb
    # merge cases with equal parts: guards become irrelevant if all parts equal
    if len({ps for _, ps in cases}) == 1:
        cases = (((), cases[0][1]),)
        ps = cases[0][1]
        if not ps: return NIL if kind == 'fm' else EMPTY
        if kind == 'fm' and len(ps) == 1 and ps[0][0] == 'e':
            x = ps[0][1]
            if x.t == 'at':
                off = sub(x.a[1], bv)
                if not contains(off, bv) and not contains(x.a[0], bv):
                    return sl(x.a[0], off, add(off, n))
            c = sub(x, bv) if x.t in ('bv', 'lin', 'int') else None
            if c is not None and not contains(c, bv): return raw('rng', c, add(c, n))
        if kind == 'fm' and n.t == 'int' and n.a[0] <= 8:
            out = []
            for j in range(n.a[0]): out.extend((k, subst(x, {bv: Int(j)})) for k, x in ps)
            return mkseq(out)
        if kind == 'fms' and n.t == 'int' and n.a[0] <= 8:
            return cat(*[p if isinstance(p, str) else subst(p, {bv: Int(j)}) for j in range(n.a[0]) for p in ps])
    return raw(kind, n, lv, tuple(cases))

def _inner_bv(t, own):
    """largest bound level in t other than own"""
    if t.t == 'bv': return -1 if t.a[0] == own else t.a[0]
    m = -1
    if t.t in ('fm', 'fms') and t.a[1] != own: m = t.a[1]
    for x in subterms(t): m = max(m, _inner_bv(x, own))
    return m

_cont = {}
def contains(t, x):
    if t is x: return True
    k = (t.id, x.id)
    r = _cont.get(k)
    if r is None:
        r = any(contains(s, x) for s in subterms(t)); _cont[k] = r
    return r

def any_sub(t, pred, seen=None):
    if seen is None: seen = set()
    if t in seen: return False
    seen.add(t)
    return pred(t) or any(any_sub(s, pred, seen) for s in subterms(t))

# ---------------------------------------------------------------- substitution
def rebuild(t, a):
    k = t.t
    if k == 'lin':
        r = Int(a[0])
        for x, c in a[1]: r = add(r, mulc(x, c))
        return r
    if k == 'str': return cat(*a[0])
    if k == 'seq': return mkseq(a[0])
    if k == 'at': return at(*a)
    if k == 'sl': return sl(*a)
    if k == 'len': return length(a[0])
    if k == 'slen': return slen(a[0])
    if k == 'fld': return fld(*a)
    if k == 'fm': return mkfm(a[0], a[1], a[2])
    if k == 'fms': return mkfm(a[0], a[1], a[2], 'fms')
    if k == 'cats': return cats(a[0])
    r = raw(k, *a)
    if t in NONNEG: NONNEG.add(r)
    return r

def cats(X):
    """concatenation of a sequence of strings"""
    out = []
    for k, x in seq_parts(X):
        if k == 'e': out.append(x)
        elif x.t == 'fm':
            out.append(mkfm(x.a[0], x.a[1], tuple((g, tuple(p if kk == 'e' else cats(p) for kk, p in ps)) for g, ps in x.a[2]), 'fms'))
        elif x.t == 'app' and x.a[0] in ('graphemes', 'chars'): out.append(x.a[1])
        else: out.append(raw('cats', x))
    return cat(*out)

def subst(t, m, memo=None):
    if not m: return t
    if memo is None: memo = {}
    return _subst(t, m, memo)

def _subst(t, m, memo):
    r = m.get(t)
    if r is not None: return r
    r = memo.get(t)
    if r is not None: return r
    if t.t in ('int', 'bool', 'chr', 'v', 'err', 'bv') or not t.a:
        memo[t] = t; return t
    ch = [False]
    def rec(a):
        out = []
        for x in a:
            if isinstance(x, T):
                y = _subst(x, m, memo)
                if y is not x: ch[0] = True
                out.append(y)
            elif isinstance(x, tuple): out.append(rec(x))
            else: out.append(x)
        return tuple(out)
    a = rec(t.a)
    r = rebuild(t, a) if ch[0] else t
    memo[t] = r
    return r

def subst_guard(it, m):
    return tuple(subst(x, m) if isinstance(x, T) else x for x in it)

# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple): return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
        if isinstance(t, frozenset): return '{' + ','.join(sorted(show(x) for x in t)) + '}'
        return repr(t)
    if d > 14: return '…'
    k = t.t
    if k == 'int': return str(t.a[0])
    if k == 'bool': return str(t.a[0]).lower()
    if k == 'chr': return repr(t.a[0])
    if k == 'v': return t.a[0]
    if k == 'err': return 'ERR'
    if k == 'lin':
        s = ' + '.join((show(x, d + 1) if c == 1 else '%d*%s' % (c, show(x, d + 1))) for x, c in t.a[1])
        return '(%s%s)' % (s, '' if not t.a[0] else ' + %d' % t.a[0])
    if k == 'str': return 'str[' + ' '.join(repr(p) if isinstance(p, str) else show(p, d + 1) for p in t.a[0]) + ']'
    if k == 'adt':
        p = t.a[0].split('::')[-1]
        return '%s#%s{%s}' % (p, t.a[1], ', '.join('%s: %s' % (n, show(f, d + 1)) for n, f in zip(t.a[2], t.a[3]))) if t.a[2] else '%s#%s' % (p, t.a[1])
    if k == 'tup': return '(' + ', '.join(show(x, d + 1) for x in t.a) + ')'
    if k == 'seq': return '[' + ', '.join(('..' if kk == 's' else '') + show(x, d + 1) for kk, x in t.a[0]) + ']'
    if k == 'fld': return '%s.%s' % (show(t.a[0], d + 1), t.a[1])
    if k == 'at': return '%s[%s]' % (show(t.a[0], d + 1), show(t.a[1], d + 1))
    if k == 'sl': return '%s[%s..%s]' % tuple(show(x, d + 1) for x in t.a)
    if k in ('fm', 'fms'):
        return '%s{b%d<%s: %s}' % (k, t.a[1], show(t.a[0], d + 1), ' | '.join('%s=>%s' % (show(g, d + 1), show(ps, d + 1)) for g, ps in t.a[2]))
    if k == 'bv': return 'b%d' % t.a[0]
    if k == 'app': return '%s(%s)' % (t.a[0].split('::')[-1] if isinstance(t.a[0], str) else t.a[0], ', '.join(show(x, d + 1) for x in t.a[1:]))
    return '%s(%s)' % (k, ', '.join(show(x, d + 1) for x in t.a))
