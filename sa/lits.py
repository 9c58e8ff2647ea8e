"""Library calls whose arguments are all literals, folded; anything else falls through to sa/models.py.

A scenario mixes literal text (markers, header names, file suffixes) with symbols. The general models
keep symbolic arguments as terms; here the same functions are decided on literals, so that a program which
computes on the literal parts with another library function is followed as exactly as with the first one.
Results are only given where Rust's and Python's definitions agree (ASCII case and classes, White_Space as a set)."""
import re
from .terms import *
from . import models as Mo
from .models import M, one, call_value, it_of, explicit, sep_norm, set_ptr, at, sub, length, sl, concat, rev_seq, remaining, to_iter, ITS, collect, wrap

WS = set('\t\n\x0b\x0c\r \x85\u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000')

def L(t): return lit(t) if t.t == 'str' else None
def conc(t):
    """the literals a sequence consists of"""
    xs = explicit(t)
    return xs
def pat(c, st, p):
    """predicate on one character, or a literal string to look for"""
    p = c.e.deref(st, p)
    if p.t == 'chr': return p.a[0]
    if L(p) is not None: return L(p)
    xs = explicit(p)
    if xs is not None:
        xs = [c.e.deref(st, x) for x in xs]
        if all(x.t == 'chr' for x in xs): return lambda ch: any(x.a[0] == ch for x in xs)
        return None
    if p.t in ('clo', 'fn'):
        memo = {}
        def f(ch):
            if ch not in memo:
                r = call_value(c.e, st.copy(), p, [Chr(ch)], c.call)
                if len(r) != 1 or r[0][1].t != 'bool': raise NotLit()
                memo[ch] = r[0][1].a[0]
            return memo[ch]
        return f
    return None
class NotLit(Exception): pass
def ev(x): return x if callable(x) else (lambda ch: ch == x)

def pre(*names):
    """decide with f when it can, else with the model there is"""
    def deco(f):
        for n in names:
            old = M.get(n)
            def g(c, st, a, f=f, old=old):
                try: r = f(c, st, a)
                except NotLit: r = None
                if r is not None: return r
                return old(c, st, a) if old else None
            M[n] = g
        return f
    return deco
def nm(c): return c.name.split('::')[-1]
def strs(xs): return it_of(Seq(*[Str(x) for x in xs]))
def rlines(t):
    xs = t.split('\n')
    if xs and xs[-1] == '': xs = xs[:-1]
    return [x[:-1] if x.endswith('\r') else x for x in xs]
def fields(t, isws):
    out, cur = [], ''
    for ch in t:
        if isws(ch):
            if cur: out.append(cur)
            cur = ''
        else: cur += ch
    return out + ([cur] if cur else [])

@pre('str::lines')
def _(c, st, a):
    t = L(c.e.deref(st, a[0]))
    return one(st, strs(rlines(t))) if t is not None else None
@pre('str::split_whitespace', 'str::split_ascii_whitespace')
def _(c, st, a):
    t = L(c.e.deref(st, a[0]))
    return one(st, strs(fields(t, lambda ch: ch in WS))) if t is not None else None
@pre('str::char_indices')
def _(c, st, a):
    t = L(c.e.deref(st, a[0]))
    if t is None: return None
    out = []; n = 0
    for ch in t: out.append(Tup(Int(n), Chr(ch))); n += len(ch.encode())
    return one(st, it_of(Seq(*out)))
@pre('str::bytes')
def _(c, st, a):
    t = L(c.e.deref(st, a[0]))
    return one(st, it_of(Seq(*[Int(b) for b in t.encode()]))) if t is not None else None
@pre('str::trim', 'str::trim_start', 'str::trim_end')
def _(c, st, a):
    t = L(c.e.deref(st, a[0]))
    if t is None: return None
    return one(st, Str(strip_by(t, lambda ch: ch in WS, nm(c) != 'trim_end', nm(c) != 'trim_start')))
def strip_by(t, f, start, end):
    while start and t and f(t[0]): t = t[1:]
    while end and t and f(t[-1]): t = t[:-1]
    return t
@pre('str::trim_end_matches', 'str::trim_start_matches', 'str::trim_matches')
def _(c, st, a):
    t = L(c.e.deref(st, a[0])); p = pat(c, st, a[1])
    if t is None or not callable(p): return None
    return one(st, Str(strip_by(t, p, nm(c) != 'trim_end_matches', nm(c) != 'trim_start_matches')))
@pre('str::starts_with', 'str::ends_with', 'str::contains')
def _(c, st, a):
    t = L(c.e.deref(st, a[0])); p = pat(c, st, a[1])
    if t is None or not callable(p): return None
    n = nm(c)
    return one(st, Bool(any(map(p, t)) if n == 'contains' else bool(t) and p(t[0] if n == 'starts_with' else t[-1])))
@pre('str::find', 'str::rfind')
def _(c, st, a):
    t = L(c.e.deref(st, a[0])); p = pat(c, st, a[1])
    if t is None or not callable(p): return None
    ix = [i for i, ch in enumerate(t) if p(ch)]
    if not ix: return one(st, NONE)
    return one(st, Some(Int(len(t[:ix[0] if nm(c) == 'find' else ix[-1]].encode()))))
def pieces(t, p):
    if not callable(p): return t.split(p) if p else None
    out = ['']
    for ch in t:
        if p(ch): out.append('')
        else: out[-1] += ch
    return out
@pre('str::split', 'str::rsplit', 'str::split_terminator')
def _(c, st, a):
    t = L(c.e.deref(st, a[0])); p = pat(c, st, a[1])
    if t is None or not callable(p): return None
    xs = pieces(t, p)
    if nm(c) == 'split_terminator' and xs[-1] == '': xs = xs[:-1]
    return one(st, strs(xs[::-1] if nm(c) == 'rsplit' else xs))
@pre('str::split_inclusive')
def _(c, st, a):
    t = L(c.e.deref(st, a[0])); p = pat(c, st, a[1])
    if t is None or p is None: return None
    if not callable(p):
        if len(p) != 1: return None
        p = ev(p)
    out = ['']
    for ch in t:
        out[-1] += ch
        if p(ch): out.append('')
    if out[-1] == '': out.pop()
    return one(st, strs(out))
@pre('str::split_once', 'str::rsplit_once')
def _(c, st, a):
    t = L(c.e.deref(st, a[0])); p = pat(c, st, a[1])
    if t is None or not callable(p): return None
    ix = [i for i, ch in enumerate(t) if p(ch)]
    if not ix: return one(st, NONE)
    i = ix[0] if nm(c) == 'split_once' else ix[-1]
    return one(st, Some(Tup(Str(t[:i]), Str(t[i + 1:]))))
@pre('str::strip_prefix', 'str::strip_suffix')
def _(c, st, a):
    t = L(c.e.deref(st, a[0])); p = pat(c, st, a[1])
    if t is None or not callable(p): return None
    if nm(c) == 'strip_prefix': return one(st, Some(Str(t[1:])) if t and p(t[0]) else NONE)
    return one(st, Some(Str(t[:-1])) if t and p(t[-1]) else NONE)
@pre('str::matches')
def _(c, st, a):
    t = L(c.e.deref(st, a[0])); p = pat(c, st, a[1])
    if t is None or not callable(p): return None
    return one(st, strs([ch for ch in t if p(ch)]))
@pre('str::match_indices', 'str::rmatch_indices')
def _(c, st, a):
    t = L(c.e.deref(st, a[0])); p = pat(c, st, a[1])
    if t is None or p is None or p == '' or nm(c)[0] == 'r': return None
    out = []; i = 0
    while i < len(t):
        if callable(p): hit = p(t[i]); w = 1
        else: hit = t.startswith(p, i); w = len(p)
        if hit: out.append(Tup(Int(len(t[:i].encode())), Str(t[i:i + w]))); i += w
        else: i += 1
    return one(st, it_of(Seq(*out)))
@pre('str::replace', 'str::replacen')
def _(c, st, a):
    t = L(c.e.deref(st, a[0])); p = pat(c, st, a[1]); r = L(c.e.deref(st, a[2])); k = a[3] if nm(c) == 'replacen' else Int(-1)
    if t is None or p is None or r is None or p == '' or k.t != 'int': return None
    n = k.a[0]
    if callable(p):
        out = ''
        for ch in t:
            if n and p(ch): out += r; n -= 1
            else: out += ch
        return one(st, Str(out))
    return one(st, Str(t.replace(p, r, n)))
@pre('str::to_uppercase', 'str::to_lowercase', 'str::to_ascii_uppercase', 'str::to_ascii_lowercase')
def _(c, st, a):
    t = L(c.e.deref(st, a[0]))
    if t is None or (not t.isascii() and 'ascii' not in nm(c)): return None
    up = 'upper' in nm(c)
    return one(st, Str(''.join((ch.upper() if up else ch.lower()) if ch.isascii() else ch for ch in t)))
@pre('str::eq_ignore_ascii_case')
def _(c, st, a):
    t, u = L(c.e.deref(st, a[0])), L(c.e.deref(st, a[1]))
    if t is None or u is None: return None
    low = lambda x: ''.join(ch.lower() if ch.isascii() else ch for ch in x)
    return one(st, Bool(low(t) == low(u)))
@pre('str::is_ascii')
def _(c, st, a):
    t = L(c.e.deref(st, a[0]))
    return one(st, Bool(t.isascii())) if t is not None else None
@pre('str::is_char_boundary')
def _(c, st, a):
    t = L(c.e.deref(st, a[0]))
    if t is None or a[1].t != 'int': return None
    n = 0; b = {0}
    for ch in t: n += len(ch.encode()); b.add(n)
    return one(st, Bool(a[1].a[0] in b))
INTS = {'usize': (0, 2**64), 'u8': (0, 2**8), 'u16': (0, 2**16), 'u32': (0, 2**32), 'u64': (0, 2**64), 'u128': (0, 2**128), 'isize': (-2**63, 2**63), 'i8': (-2**7, 2**7), 'i16': (-2**15, 2**15), 'i32': (-2**31, 2**31), 'i64': (-2**63, 2**63), 'i128': (-2**127, 2**127)}
@pre('str::parse')
def _(c, st, a):
    t = L(c.e.deref(st, a[0]))
    m = re.match(r'(core|std)::result::Result<(\w+),', c.dest().get('s', ''))
    if t is None or not m: return None
    ty = m.group(2)
    if ty in INTS:
        lo, hi = INTS[ty]
        ok = re.fullmatch(r'[+-]?[0-9]+' if lo < 0 else r'\+?[0-9]+', t)
        ok = ok and lo <= int(t) < hi
        return one(st, Ok(Int(int(t))) if ok else Err(ERR))
    if ty == 'bool': return one(st, Ok(Bool(t == 'true')) if t in ('true', 'false') else Err(ERR))
    if ty == 'char': return one(st, Ok(Chr(t)) if len(t) == 1 else Err(ERR))
    return None

# ------------------------------------------------------------------ strings in place
def strop(*names):
    def deco(f):
        def g(c, st, a):
            if a[0].t != 'ptr': return None
            t = L(c.e.deref(st, a[0]))
            return f(c, st, a, t) if t is not None else None
        return pre(*names)(g)
    return deco
def byte_at(t, i):
    """the number of characters before byte i, or None off a boundary"""
    b = t.encode()
    if i > len(b): return None
    try: return len(b[:i].decode())
    except UnicodeDecodeError: return None
@strop('String::pop')
def _(c, st, a, t): set_ptr(c, st, a[0], Str(t[:-1])); return one(st, Some(Chr(t[-1])) if t else NONE)
@strop('String::remove')
def _(c, st, a, t):
    if a[1].t != 'int': return None
    i = byte_at(t, a[1].a[0])
    if i is None or i >= len(t): c.panic(st, 'bounds', 'String::remove'); return []
    set_ptr(c, st, a[0], Str(t[:i] + t[i + 1:])); return one(st, Chr(t[i]))
@strop('String::insert', 'String::insert_str')
def _(c, st, a, t):
    x = c.e.deref(st, a[2]); x = x.a[0] if x.t == 'chr' else L(x)
    if a[1].t != 'int' or x is None: return None
    i = byte_at(t, a[1].a[0])
    if i is None: c.panic(st, 'bounds', 'String::insert'); return []
    set_ptr(c, st, a[0], Str(t[:i] + x + t[i:])); return one(st, UNIT)
@strop('String::truncate')
def _(c, st, a, t):
    if a[1].t != 'int': return None
    if a[1].a[0] >= len(t.encode()): return one(st, UNIT)
    i = byte_at(t, a[1].a[0])
    if i is None: c.panic(st, 'bounds', 'String::truncate'); return []
    set_ptr(c, st, a[0], Str(t[:i])); return one(st, UNIT)
@strop('String::retain')
def _(c, st, a, t):
    p = pat(c, st, a[1])
    if not callable(p): return None
    set_ptr(c, st, a[0], Str(''.join(ch for ch in t if p(ch)))); return one(st, UNIT)

# ------------------------------------------------------------------ characters and bytes
CLS = {'alphabetic': str.isalpha, 'numeric': str.isnumeric, 'alphanumeric': str.isalnum, 'ascii_alphabetic': str.isalpha, 'ascii_digit': str.isdigit, 'ascii_alphanumeric': str.isalnum,
       'ascii_uppercase': str.isupper, 'ascii_lowercase': str.islower, 'uppercase': str.isupper, 'lowercase': str.islower, 'ascii_punctuation': lambda ch: ch in '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~',
       'ascii_hexdigit': lambda ch: ch in '0123456789abcdefABCDEF', 'ascii_graphic': lambda ch: '!' <= ch <= '~', 'ascii_whitespace': lambda ch: ch in '\t\n\x0c\r ', 'ascii_control': lambda ch: ch < ' ' or ch == '\x7f',
       'control': lambda ch: ch < ' ' or '\x7f' <= ch <= '\x9f', 'ascii': str.isascii, 'whitespace': lambda ch: ch in WS}
def chof(v):
    return v.a[0] if v.t == 'chr' else chr(v.a[0]) if v.t == 'int' and 0 <= v.a[0] < 256 else None
def cls(k, f):
    def g(c, st, a):
        v = c.e.deref(st, a[0]); ch = chof(v)
        if ch is None: return None
        if k.startswith('ascii'): return one(st, Bool(ch.isascii() and f(ch)))
        if not ch.isascii() and k not in ('whitespace', 'control'): return None
        return one(st, Bool(f(ch)))
    pre('char::is_' + k, 'methods::is_' + k, 'u8::is_' + k, 'num::is_' + k)(g)
for _k, _f in CLS.items(): cls(_k, _f)
@pre('char::to_ascii_uppercase', 'char::to_ascii_lowercase', 'u8::to_ascii_uppercase', 'u8::to_ascii_lowercase')
def _(c, st, a):
    v = c.e.deref(st, a[0]); ch = chof(v)
    if ch is None: return None
    r = (ch.upper() if 'upper' in nm(c) else ch.lower()) if ch.isascii() else ch
    return one(st, Chr(r) if v.t == 'chr' else Int(ord(r)))
@pre('char::to_uppercase', 'char::to_lowercase')
def _(c, st, a):
    v = c.e.deref(st, a[0])
    if v.t != 'chr' or not v.a[0].isascii(): return None
    return one(st, it_of(Seq(Chr(v.a[0].upper() if 'upper' in nm(c) else v.a[0].lower()))))
@pre('char::len_utf8')
def _(c, st, a):
    v = c.e.deref(st, a[0])
    return one(st, Int(len(v.a[0].encode()))) if v.t == 'chr' else None
@pre('char::len_utf16')
def _(c, st, a):
    v = c.e.deref(st, a[0])
    return one(st, Int(len(v.a[0].encode('utf-16-le')) // 2)) if v.t == 'chr' else None
@pre('char::to_digit', 'char::is_digit')
def _(c, st, a):
    v = c.e.deref(st, a[0]); r = a[1]
    if v.t != 'chr' or r.t != 'int': return None
    i = '0123456789abcdefghijklmnopqrstuvwxyz'.find(v.a[0].lower()) if v.a[0].isascii() else -1
    ok = 0 <= i < r.a[0]
    return one(st, Bool(ok) if nm(c) == 'is_digit' else Some(Int(i)) if ok else NONE)
@pre('char::from_digit', 'convert::from_digit')
def _(c, st, a):
    if a[0].t != 'int' or a[1].t != 'int': return None
    return one(st, Some(Chr('0123456789abcdefghijklmnopqrstuvwxyz'[a[0].a[0]])) if a[0].a[0] < a[1].a[0] else NONE)
@pre('char::from_u32', 'convert::from_u32')
def _(c, st, a):
    if a[0].t != 'int': return None
    n = a[0].a[0]
    return one(st, Some(Chr(chr(n))) if n < 0x110000 and not 0xd800 <= n < 0xe000 else NONE)

# ------------------------------------------------------------------ numbers
def num(*names):
    def deco(f):
        def g(c, st, a):
            xs = [c.e.deref(st, x) for x in a]
            if any(x.t != 'int' for x in xs): return None
            r = f(c, *[x.a[0] for x in xs])
            return one(st, r if not isinstance(r, int) or isinstance(r, bool) else Int(r)) if r is not None else None
        return pre(*names)(g)
    return deco
def ty(c, i=0):
    s = c.argty(i).get('s', '')
    return INTS.get(s)
TY = ['usize', 'u8', 'u16', 'u32', 'u64', 'isize', 'i8', 'i16', 'i32', 'i64']
def meth(n): return ['%s::%s' % (t, n) for t in TY] + ['num::' + n]
@num(*meth('abs'))
def _(c, x): return abs(x)
@num(*meth('signum'))
def _(c, x): return (x > 0) - (x < 0)
@num('Ord::clamp')
def _(c, x, lo, hi): return min(max(x, lo), hi) if lo <= hi else None
@num(*meth('rem_euclid'))
def _(c, x, y): return x % abs(y) if y else None
@num(*meth('pow'))
def _(c, x, y):
    t = ty(c)
    return x ** y if t and y < 200 and t[0] <= x ** y < t[1] else None
def binary(c, x, y):
    n = nm(c); op = n.rsplit('_', 1)[1]
    return {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
@num(*[k for o in ('add', 'sub', 'mul') for k in meth('saturating_' + o)])
def _(c, x, y):
    t = ty(c)
    return None if not t else min(max(binary(c, x, y), t[0]), t[1] - 1)
@num(*[k for o in ('add', 'sub', 'mul') for k in meth('checked_' + o)])
def _(c, x, y):
    t = ty(c); r = binary(c, x, y)
    return None if not t else Some(Int(r)) if t[0] <= r < t[1] else NONE
@num(*[k for o in ('add', 'sub', 'mul') for k in meth('wrapping_' + o)])
def _(c, x, y):
    t = ty(c)
    return None if not t else (binary(c, x, y) - t[0]) % (t[1] - t[0]) + t[0]
@num(*meth('abs_diff'))
def _(c, x, y): return abs(x - y)
@num(*meth('div_ceil'))
def _(c, x, y): return -(-x // y) if y > 0 and x >= 0 else None
@num(*meth('is_multiple_of'))
def _(c, x, y): return Bool(x % y == 0 if y else x == 0)

# ------------------------------------------------------------------ sequences whose elements are known
def key_of(c, st, v):
    """a Python key with Rust's order, or None"""
    v = c.e.deref(st, v)
    if v.t == 'int': return (0, v.a[0])
    if v.t == 'chr': return (0, ord(v.a[0]))
    if v.t == 'bool': return (0, int(v.a[0]))
    if v.t == 'str': return (1, lit(v).encode()) if lit(v) is not None else None
    if v.t == 'tup' or v.t == 'seq':
        xs = list(v.a) if v.t == 'tup' else explicit(v)
        if xs is None: return None
        ks = [key_of(c, st, x) for x in xs]
        return None if None in ks else (2, tuple(ks))
    if v.t == 'adt' and v.a[0].endswith('cmp::Reverse'):
        k = key_of(c, st, v.a[3][0])
        return None if k is None else (3, Rev(k))
    if v.t == 'adt':
        ks = [key_of(c, st, x) for x in v.a[3]]
        return None if None in ks or v.a[0] not in (OPT,) else (4, v.a[1], tuple(ks))
    return None
class Rev:
    def __init__(s, k): s.k = k
    def __lt__(s, o): return o.k < s.k
    def __eq__(s, o): return o.k == s.k
    def __gt__(s, o): return o.k > s.k
def elems(c, st, v):
    xs = explicit(c.e.deref(st, v))
    return xs
def call1(c, st, f, *xs):
    r = call_value(c.e, st.copy(), f, list(xs), c.call)
    if len(r) != 1 or r[0][0].ev is not st.ev: raise NotLit()
    return c.e.deref(r[0][0], r[0][1])
@pre('slice::sort', 'slice::sort_unstable')
def _(c, st, a):
    if a[0].t != 'ptr': return None
    xs = elems(c, st, a[0])
    if xs is None: return None
    ks = [key_of(c, st, x) for x in xs]
    if len(xs) > 1 and None in ks: return None
    set_ptr(c, st, a[0], Seq(*[x for _, _, x in sorted((k, i, x) for i, (k, x) in enumerate(zip(ks, xs)))] if len(xs) > 1 else xs)); return one(st, UNIT)
@pre('slice::sort_by_key', 'slice::sort_unstable_by_key', 'slice::sort_by_cached_key')
def _(c, st, a):
    if a[0].t != 'ptr': return None
    xs = elems(c, st, a[0])
    if xs is None: return None
    ks = [key_of(c, st, call1(c, st, a[1], x)) for x in xs]
    if len(xs) > 1 and None in ks: return None
    o = sorted(range(len(xs)), key=lambda i: ks[i]) if len(xs) > 1 else range(len(xs))
    if 'unstable' in nm(c) and len(set(ks)) < len(ks): return None
    set_ptr(c, st, a[0], Seq(*[xs[i] for i in o])); return one(st, UNIT)
@pre('slice::sort_by', 'slice::sort_unstable_by')
def _(c, st, a):
    if a[0].t != 'ptr': return None
    xs = elems(c, st, a[0])
    if xs is None or len(xs) > 8: return None
    import functools
    def cmp(x, y):
        r = call1(c, st, a[1], x, y)
        if r.t != 'adt' or 'Ordering' not in r.a[0]: raise NotLit()
        return r.a[1] - 1
    ys = sorted(xs, key=functools.cmp_to_key(cmp))
    set_ptr(c, st, a[0], Seq(*ys)); return one(st, UNIT)
@pre('Vec::dedup')
def _(c, st, a):
    if a[0].t != 'ptr': return None
    xs = elems(c, st, a[0])
    if xs is None: return None
    out = []
    for x in xs:
        if out:
            r = c.e.decide_bool(st, c.e.mk_eq(c.e.deref(st, out[-1]), c.e.deref(st, x)))
            if r is None: return None
            if r: continue
        out.append(x)
    set_ptr(c, st, a[0], Seq(*out)); return one(st, UNIT)
@pre('slice::swap', 'VecDeque::swap')
def _(c, st, a):
    if a[0].t != 'ptr': return None
    xs = elems(c, st, a[0])
    if xs is None or a[1].t != 'int' or a[2].t != 'int': return None
    i, j = a[1].a[0], a[2].a[0]
    if max(i, j) >= len(xs): c.panic(st, 'bounds', 'swap'); return []
    xs = list(xs); xs[i], xs[j] = xs[j], xs[i]
    set_ptr(c, st, a[0], Seq(*xs)); return one(st, UNIT)
@pre('slice::rotate_left', 'slice::rotate_right', 'VecDeque::rotate_left', 'VecDeque::rotate_right')
def _(c, st, a):
    if a[0].t != 'ptr': return None
    xs = elems(c, st, a[0])
    if xs is None or a[1].t != 'int': return None
    n = a[1].a[0]
    if n > len(xs): c.panic(st, 'bounds', 'rotate'); return []
    if nm(c) == 'rotate_right': n = len(xs) - n
    set_ptr(c, st, a[0], Seq(*(list(xs[n:]) + list(xs[:n])))); return one(st, UNIT)
@pre('Vec::resize', 'VecDeque::resize')
def _(c, st, a):
    if a[0].t != 'ptr': return None
    xs = elems(c, st, a[0])
    if xs is None or a[1].t != 'int' or a[1].a[0] > 64: return None
    n = a[1].a[0]
    set_ptr(c, st, a[0], Seq(*(list(xs[:n]) + [a[2]] * (n - len(xs))))); return one(st, UNIT)
@pre('slice::fill')
def _(c, st, a):
    if a[0].t != 'ptr': return None
    xs = elems(c, st, a[0])
    if xs is None: return None
    set_ptr(c, st, a[0], Seq(*[a[1]] * len(xs))); return one(st, UNIT)
@pre('slice::starts_with', 'slice::ends_with')
def _(c, st, a):
    xs, ys = elems(c, st, a[0]), elems(c, st, a[1])
    if xs is None or ys is None: return None
    if len(ys) > len(xs): return one(st, FALSE)
    return one(st, c.e.mk_eq(Seq(*(xs[:len(ys)] if nm(c) == 'starts_with' else xs[len(xs) - len(ys):])), Seq(*ys)))
@pre('slice::binary_search')
def _(c, st, a):
    xs = elems(c, st, a[0]); k = key_of(c, st, a[1])
    if xs is None or k is None: return None
    ks = [key_of(c, st, x) for x in xs]
    if None in ks or ks != sorted(ks) or len(set(ks)) < len(ks): return None
    return one(st, Ok(Int(ks.index(k))) if k in ks else Err(Int(len([x for x in ks if x < k]))))
@pre('slice::chunks', 'slice::chunks_exact')
def _(c, st, a):
    xs = elems(c, st, a[0])
    if xs is None or a[1].t != 'int' or a[1].a[0] < 1: return None
    n = a[1].a[0]
    ps = [xs[i:i + n] for i in range(0, len(xs), n)]
    if nm(c) == 'chunks_exact': ps = [p for p in ps if len(p) == n]
    return one(st, it_of(Seq(*[Seq(*p) for p in ps])))
@pre('slice::split')
def _(c, st, a):
    xs = elems(c, st, a[0])
    if xs is None: return None
    out = [[]]
    for x in xs:
        r = call1(c, st, a[1], x)
        if r.t != 'bool': return None
        if r.a[0]: out.append([])
        else: out[-1].append(x)
    return one(st, it_of(Seq(*[Seq(*p) for p in out])))
@pre('vec::from_elem')
def _(c, st, a):
    if len(a) != 2 or a[1].t != 'int' or a[1].a[0] > 64: return None
    return one(st, Seq(*[a[0]] * a[1].a[0]))

# ------------------------------------------------------------------ iterators
def itelems(c, st, v):
    v = c.e.deref(st, v) if v.t == 'ptr' else v
    it = v if v.t in ITS else to_iter(c, st, v)
    r = collect(c, st.copy(), it)
    if len(r) != 1 or r[0][0].ev is not st.ev: raise NotLit()
    return explicit(r[0][1])
@pre('Iterator::step_by')
def _(c, st, a):
    xs = itelems(c, st, a[0])
    if xs is None or a[1].t != 'int' or a[1].a[0] < 1: return None
    return one(st, it_of(Seq(*xs[::a[1].a[0]])))
@pre('Iterator::product')
def _(c, st, a):
    xs = itelems(c, st, a[0])
    if xs is None or any(c.e.deref(st, x).t != 'int' for x in xs): return None
    n = 1
    for x in xs: n *= c.e.deref(st, x).a[0]
    return one(st, Int(n))
@pre('Iterator::max_by_key', 'Iterator::min_by_key')
def _(c, st, a):
    xs = itelems(c, st, a[0])
    if xs is None: return None
    if not xs: return one(st, NONE)
    ks = [key_of(c, st, call1(c, st, a[1], x)) for x in xs]
    if None in ks: return None
    mx = nm(c).startswith('max'); b = 0
    for i in range(1, len(xs)):
        if (ks[i] >= ks[b]) if mx else (ks[i] < ks[b]): b = i
    return one(st, Some(xs[b]))
@pre('Iterator::max', 'Iterator::min')
def _(c, st, a):
    xs = itelems(c, st, a[0])
    if xs is None: return None
    if not xs: return one(st, NONE)
    ks = [key_of(c, st, x) for x in xs]
    if None in ks: return None
    mx = nm(c).startswith('max'); b = 0
    for i in range(1, len(xs)):
        if (ks[i] >= ks[b]) if mx else (ks[i] < ks[b]): b = i
    return one(st, Some(xs[b]))
@pre('Iterator::reduce')
def _(c, st, a):
    xs = itelems(c, st, a[0])
    if xs is None: return None
    if not xs: return one(st, NONE)
    cur = [(st, xs[0])]
    for x in xs[1:]: cur = [r for s, v in cur for r in call_value(c.e, s, a[1], [v, x], c.call)]
    return [(s, Some(v)) for s, v in cur]
@pre('sources::once', 'once::once', 'iter::once')
def _(c, st, a): return one(st, it_of(Seq(a[0])))
@pre('sources::empty', 'empty::empty', 'iter::empty')
def _(c, st, a): return one(st, it_of(NIL))
@pre('successors::successors', 'iter::successors')
def _(c, st, a):
    out = []; v = a[0]; n = 0
    while n < 100:
        n += 1
        if v.t != 'adt' or v.a[0] != OPT: return None
        if v.a[1] == 0: return one(st, it_of(Seq(*out)))
        out.append(v.a[3][0]); v = call1(c, st, a[1], out[-1])
    return None
@pre('Chars::as_str', 'Graphemes::as_str', 'CharIndices::as_str')
def _(c, st, a):
    v = c.e.deref(st, a[0])
    if v.t != 'it': return None
    X = remaining(v)
    return one(st, Mo.cats(X))
@pre('Option::xor')
def _(c, st, a):
    out = []
    for s, x in c.e.opt_cases(st, a[0]):
        for s2, y in c.e.opt_cases(s, a[1]):
            out.append((s2, NONE if (x is None) == (y is None) else Some(x if y is None else y)))
    return out
