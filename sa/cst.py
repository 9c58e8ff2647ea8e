"""The parser on token lists of known kinds, with symbolic texts and ordered locations."""
from .lib import *
import itertools

PARSE = 'brack_parser::parse::parse'
OPENERS = {'AngleBracketOpen': 'Angle', 'CurlyBracketOpen': 'Curly', 'SquareBracketOpen': 'Square'}
CLOSERS = {'AngleBracketClose': 'Angle', 'CurlyBracketClose': 'Curly', 'SquareBracketClose': 'Square'}
WORDS = ('Text', 'Module', 'Ident')
KINDS = ['Text', 'Module', 'Ident', 'NewLine', 'WhiteSpace', 'Dot', 'Comma', 'BackSlash'] + list(OPENERS) + list(CLOSERS)
CHAR = {'BackSlash': '\\', 'AngleBracketOpen': '<', 'AngleBracketClose': '>', 'CurlyBracketOpen': '{', 'CurlyBracketClose': '}', 'SquareBracketOpen': '[', 'SquareBracketClose': ']', 'Dot': '.', 'Comma': ','}
NODE = {'NewLine': 'Newline', 'WhiteSpace': 'Whitespace'}
INNER = ('Document', 'Stmt', 'Expr', 'Angle', 'Curly', 'Square', 'BackSlash')

class Toks:
    """EOF-terminated token list; token i lies strictly after token i-1, all positions symbolic"""
    def __init__(self, ctx, ks):
        self.ctx = ctx; self.ks = list(ks) + ['EOF']; self.texts = []; self.locs = []; terms = []
        line, col = 0, 0
        for i, k in enumerate(self.ks):
            a = (Int(line), Int(col)); b = (Int(line), Int(col + 3)) if k != 'EOF' else a
            self.locs.append((a, b))
            txt = V('t%d' % i) if k in WORDS else None
            self.texts.append(txt)
            loc = mkloc(ctx, a, b)
            terms.append(enum_(ctx, TOK, k, *([txt, loc] if txt is not None else [loc])))
            if k == 'NewLine': line += 1; col = 0
            else: col += 3
        self.term = Seq(*terms)
    def __str__(self): return short(self.ks).replace('_', ' ')

def mkloc(ctx, a, b): return struct_(ctx, LOC, start=struct_(ctx, LOCD, line=a[0], character=a[1]), end=struct_(ctx, LOCD, line=b[0], character=b[1]))

class Node:
    """a node of a syntax tree term: kind, id, value/children, location"""
    def __init__(self, ctx, t, path):
        self.kind = self.children = None; self.term = t
        if t.t != 'adt' or t.a[0] != path: return
        self.kind = ctx.prog.adts[path][1]['variants'][t.a[1]]['name']
        r = t.a[3][0]; self.id = fld(r, 'id'); self.loc = fld(r, 'location'); self.value = None; self.bad = None
        if r.t == 'adt' and 'children' in r.a[2]:
            ch = fld(r, 'children')
            if ch.t == 'bytes' or ch.t != 'seq' or any(k != 'e' for k, _ in ch.a[0]): self.bad = ch; return
            self.children = [Node(ctx, x, path) for _, x in ch.a[0]]
            for c in self.children:
                if c.kind is None or c.bad is not None: self.bad = c.term if c.kind is None else c.bad
        else: self.value = fld(r, 'value')
    def show(self):
        s = self.kind
        if self.value is not None and self.value.t == 'adt' and self.value.a[1] == 1: s += '(%s)' % show(self.value.a[3][0])
        if self.children: s += '[%s]' % ' '.join(c.show() for c in self.children)
        return s
    def walk(self):
        yield self
        for c in self.children or []: yield from c.walk()

def parsed(ctx, ks, key, may_fail=False):
    """(toks, where, engine, [(state, ok, Node or error)])"""
    t = Toks(ctx, ks); f = ctx.fn(PARSE); w = ctx.where(f)
    e = ctx.engine(); e.unroll = 48; e.loop_max = 1000; e.max_depth = 500
    out = []
    for s, ok, v, _ in outcomes(ctx, e, ctx.run(e, f, [t.term])):
        if not ok: out.append((s, False, v)); continue
        n = Node(ctx, ctx.norm(s, v), CST)
        if n.kind is None or n.bad is not None: ctx.undecided(key, 'tree of %s not enumerable: %s' % (t, show(n.bad if n.kind else v)[:200])); continue
        out.append((s, True, n))
    return t, w, e, out

CONTEXTS = [[], ['SquareBracketOpen', 'Module', 'Dot', 'Ident'], ['AngleBracketOpen', 'Ident'], ['CurlyBracketOpen', 'Ident', 'WhiteSpace', 'SquareBracketOpen', 'Ident'], ['Text', 'NewLine'],
            ['Text', 'NewLine', 'NewLine'], ['Text', 'SquareBracketClose'], ['SquareBracketOpen', 'Ident', 'SquareBracketClose'], ['BackSlash', 'SquareBracketOpen'], ['AngleBracketOpen', 'Ident', 'NewLine', 'Text', 'AngleBracketClose', 'NewLine']]
def lists(tier):
    for n in range(0, 5 if tier == 'thorough' else 4):
        for p in itertools.product(KINDS, repeat=n): yield list(p)
    for pre in CONTEXTS[1:]:
        for n in range(0, 4 if tier == 'thorough' else 3):
            for p in itertools.product(KINDS, repeat=n): yield pre + list(p)

UNITS = [[k] for k in KINDS if k not in OPENERS and k not in CLOSERS] + [[c] for c in CLOSERS] + [['Text', 'NewLine'], ['Text', 'NewLine', 'NewLine'], ['SquareBracketOpen', 'Ident', 'SquareBracketClose'],
         ['BackSlash', 'AngleBracketClose'], ['Text', 'WhiteSpace'], ['Comma', 'WhiteSpace', 'Text'], ['CurlyBracketOpen', 'Module', 'Dot', 'Ident', 'CurlyBracketClose', 'NewLine']]
def long_lists(tier):
    """long runs of one kind or of one short unit, in the document and inside each kind of command; deep nesting"""
    for u in UNITS:
        for n in (9, 24, 260) + ((40, 700) if tier == 'thorough' else ()): yield u * (n // len(u)) + (['Text', 'NewLine', 'Text'] if n == 24 else [])
        for n in (24, 70): yield ['Text'] + u * (n // len(u)) + ['Text']
        for o in OPENERS:
            if OPENERS[o] == CLOSERS.get(u[0]): continue
            for n in (18, 48) if tier == 'quick' else (18, 48, 150): yield [o, 'Module', 'Dot', 'Ident', 'WhiteSpace'] + u * (n // len(u)) + [o.replace('Open', 'Close'), 'Text']
    os_, cs = list(OPENERS), list(CLOSERS)
    for n in (4, 7, 12, 20, 40):
        for o in os_:
            yield [o] * n + [o.replace('Open', 'Close')] * n + ['Text']
            yield [o, 'Ident', 'WhiteSpace'] * n + [o.replace('Open', 'Close')] * (n - 1) + ['NewLine', 'Text']
        mix = [os_[i % 3] for i in range(n)]
        yield mix + [o.replace('Open', 'Close') for o in reversed(mix)] + ['NewLine', 'NewLine', 'Text']

def short(ks):
    """a token list as text, runs abbreviated"""
    s = '_'.join(ks)
    return s if len(s) < 400 else s[:200] + '..%d..' % len(ks) + s[-60:]

def sweep(ctx, one):
    from . import tr
    xs = list(lists(ctx.tier)); seen = set(map(tuple, xs))
    # commands with every short arrangement of their parts, documents of several lines
    for ks in itertools.chain(long_lists(ctx.tier), tr.documents(ctx.tier), tr.broken(ctx.tier)):
        if tuple(ks) not in seen: seen.add(tuple(ks)); xs.append(ks)
    def part(ctx, chunk):
        for ks in chunk: ctx.guarded(one, 'tokens/' + short(ks), ks)
    ctx.pmap(part, [xs[i::64] for i in range(64)])
    ctx.floor('token lists', len(xs), 7000)

# ---- the grammar, written separately: kinds only, over token indices
def grammar(ks):
    """expected tree of an EOF-terminated list of kinds: (kind, token index or None, children)"""
    n = len(ks)
    def newline(i): return ('Newline', i, [])
    def expr(i):
        ch = []
        while True:
            k = ks[i]
            if k == 'BackSlash':
                if ks[i + 1] in CHAR: ch.append(('BackSlash', i, [('Text', i + 1, [])])); i += 2
                else: ch.append(('BackSlash', i, [])); i += 1
            elif k in OPENERS: c, i = bracket(i); ch.append(c)
            elif k in ('Text', 'Module', 'Ident', 'Dot', 'Comma', 'WhiteSpace'): ch.append((NODE.get(k, k), i, [])); i += 1
            else: break
        return (('Expr', None, ch), i) if ch else (None, i)
    def bracket(i):
        b = OPENERS[ks[i]]; ch = [(ks[i], i, [])]; i += 1
        while True:
            c, i = expr(i)
            if c: ch.append(c)
            elif ks[i] == 'NewLine': ch.append(newline(i)); i += 1
            else: break
        if ks[i] in CLOSERS and CLOSERS[ks[i]] == b: ch.append((ks[i], i, [])); i += 1
        return (b, None, ch), i
    def eoc(i):
        if ks[i] in CLOSERS: return (ks[i], i, []), i + 1
        return expr(i)
    def stmt(i):
        ch = []
        c, i = eoc(i)
        if not c: return None, i
        while c:
            ch.append(c)
            c, j = eoc(i)
            if c: i = j; continue
            if ks[i] == 'NewLine':
                c, j = eoc(i + 1)
                if c: ch.append(newline(i)); i = j
        return ('Stmt', None, ch), i
    top = []; i = 0
    while ks[i] == 'NewLine': top.append(newline(i)); i += 1
    while True:
        c, i = stmt(i)
        if c: top.append(c)
        else: break
        while ks[i] == 'NewLine': top.append(newline(i)); i += 1
    return ('Document', None, top + [('EOF', i, [])])
