"""The tokenizer on texts given as sequences of grapheme clusters.

A text is written as a list of classes: the special clusters as themselves, 'x' for any other cluster
(an unknown cluster about which only this is known: it is none of the special ones)."""
from .lib import *
from .uni import clusters

TOKENIZE = 'brack_tokenizer::tokenize::tokenize_str'
OPEN = {'<': 'Angle', '{': 'Curly', '[': 'Square'}
CLOSE = {'>': 'Angle', '}': 'Curly', ']': 'Square'}
SPECIAL = ['\\', '<', '>', '{', '}', '[', ']', '\n', '\r\n', '.', ',', ' ']
CLASSES = SPECIAL + ['x']
NL = ('\n', '\r\n')
BRK = {**{k: v + 'BracketOpen' for k, v in OPEN.items()}, **{k: v + 'BracketClose' for k, v in CLOSE.items()}}

def lexical(gs, cnt=None, look=False):
    """The lexical rule: [(kind, text clusters or None, first index, one past last index)], indices into gs.
    Outside commands a text runs up to the next bracket, backslash or newline; inside, also dots, commas and spaces
    are tokens of their own. The word after an opening bracket is a module name if a dot follows it, and the command's
    name if a space or a closing bracket does. A backslash takes a following bracket or backslash with it."""
    cnt = dict(cnt or {}); out = []; i = 0; n = len(gs)
    def at(j): return gs[j] if j < n else None
    while i < n:
        g = gs[i]
        if g == '\\':
            out.append(('BackSlash', None, i, i + 1)); i += 1
            if at(i) == '\\': out.append(('BackSlash', None, i, i + 1)); i += 1
            elif at(i) in BRK: out.append((BRK[at(i)], None, i, i + 1)); i += 1
            continue
        if g in OPEN: cnt[OPEN[g]] = cnt.get(OPEN[g], 0) + 1; look = True; out.append((BRK[g], None, i, i + 1)); i += 1; continue
        if g in CLOSE: cnt[CLOSE[g]] = max(0, cnt.get(CLOSE[g], 0) - 1); out.append((BRK[g], None, i, i + 1)); i += 1; continue
        if g in NL: out.append(('NewLine', None, i, i + 1)); i += 1; continue
        nested = any(v > 0 for v in cnt.values())
        j = i; kind = None
        while kind is None:
            h, nx = gs[j], at(j + 1)
            if look and nx in CLOSE: kind = 'Ident'
            elif nested and h in '., ' and h != 'x': kind = {'.': 'Dot', ',': 'Comma', ' ': 'WhiteSpace'}[h]
            elif look and nx == ' ': kind = 'Ident'
            elif look and nx == '.': kind = 'Module'
            elif nx is None or nx in OPEN or nx in CLOSE or nx in NL or nx == '\\' or (nested and nx in (' ', ',', '.')): kind = 'Text'
            else: j += 1
        if kind in ('Dot', 'Comma', 'WhiteSpace'): out.append((kind, None, i, j + 1))
        else: out.append((kind, (i, j + 1), i, j + 1))
        if kind == 'Ident': look = False
        i = j + 1
    return out

def positions(gs, line=Int(0), col=Int(0)):
    """position before each cluster and at the end"""
    out = [(line, col)]
    for g in gs:
        if g in NL: line = add(line, Int(1)); col = Int(0)
        else: col = add(col, Int(1))
        out.append((line, col))
    return out

class Text:
    def __init__(self, ctx, code, name='g'):
        self.ctx = ctx; self.gs = list(code)
        self.atoms = [V('%s%d' % (name, i)) if g == 'x' else Str(g) for i, g in enumerate(self.gs)]
        self.sym = [a for a, g in zip(self.atoms, self.gs) if g == 'x']
    def term(self): return cat(*self.atoms)
    def part(self, i, j): return cat(*self.atoms[i:j])
    def engine(self, hooks=None):
        e = self.ctx.engine(hooks)
        e.graphemes = {a: 1 for a in self.sym}; e.budget = 10000 + 4000 * len(self.gs)      # some 20 times what it takes now
        e.plain = {a: frozenset(SPECIAL + ['']) for a in self.sym}
        return e
    def __str__(self): return ''.join(self.gs).encode('unicode_escape').decode()

def token(ctx, kind, text, a, b):
    loc = struct_(ctx, LOC, start=struct_(ctx, LOCD, line=a[0], character=a[1]), end=struct_(ctx, LOCD, line=b[0], character=b[1]))
    return enum_(ctx, TOK, kind, *([loc] if text is None else [text, loc]))

def reference(ctx, t):
    pos = positions(t.gs); out = []
    for kind, text, i, j in lexical(t.gs):
        a = pos[i]; b = (pos[j - 1][0], add(pos[j - 1][1], Int(1)))
        out.append(token(ctx, kind, t.part(*text) if text else None, a, b))
    out.append(token(ctx, 'EOF', None, pos[-1], pos[-1]))
    return out

def elements(v):
    """the tokens of a known list, or None"""
    if v.t == 'bytes' or v.t != 'seq' or any(k != 'e' for k, _ in v.a[0]): return None
    return [x for _, x in v.a[0]]

def tokenized(ctx, code, key):
    """[(engine, state, tokens)] of tokenizing a text; anything but one list of tokens is reported under key"""
    t = code if isinstance(code, Text) else Text(ctx, code)
    f = ctx.fn(TOKENIZE); w = ctx.where(f); e = t.engine(); out = []
    for s, ok, v, _ in outcomes(ctx, e, ctx.run(e, f, [t.term()])):
        if not ok: ctx.bad(key + '/fails', w, 'tokenizing the text "%s" fails' % t); continue
        xs = elements(ctx.norm(s, v))
        if xs is None: ctx.undecided(key, 'tokens of "%s" not enumerable: %s' % (t, show(v)[:200])); continue
        out.append((e, s, xs))
    for p in e.panics:
        if p.kind == 'call' or p.kind == 'panic': ctx.bad(key + '/panics', w, 'tokenizing the text "%s" panics: %r' % (t, p))
        else: ctx.undecided(key, 'tokenizing "%s": %r' % (t, p))
    return t, w, out

def kind_name(ctx, x):
    if x.t != 'adt' or x.a[0] != TOK: return None
    return ctx.prog.adts[TOK][1]['variants'][x.a[1]]['name']

def literal(k):
    return {'Dot': '.', 'Comma': ',', 'WhiteSpace': ' ', 'BackSlash': '\\', **{v: k for k, v in BRK.items()}}.get(k)

PREFIX = ['[x ', '{x.x ', '<x.', '[x.x x', '[x[x ', '{<[', '[]', '[x]', '[x]]', '\\[', 'xx', '[x ]>}', '<x{x}', '[x,x', '\n', '[\n']
def texts(tier):
    """every text of up to three (thorough: four) clusters from the start of a document, and every text of up to two
    after each context"""
    import itertools
    for n in range(0, 5 if tier == 'thorough' else 4):
        for p in itertools.product(CLASSES, repeat=n): yield list(p)
    for pre in PREFIX:
        for n in range(0, 4 if tier == 'thorough' else 3):
            for p in itertools.product(CLASSES, repeat=n): yield list(pre) + list(p)
    # nesting: brackets opened one in another, up to all of them closed again
    for k in range(2, 40 if tier == 'thorough' else 14):
        for o, c in (('[', ']'), ('{', '}'), ('<', '>'), ('<{[', ']}>')):
            for j in (1, k - 1, k):
                yield list((o * k)[:k]) + list((c * k)[:j]) + ['x', '.', 'x']

# clusters of several code points or bytes, and characters some functions treat as blank or as an end
WIDE = ['e\u0301', '\u0937\u093f', '\U0001f469\u200d\U0001f680', '\U0001f44d\U0001f3fd', '\U0001f1ef\U0001f1f5', '\u3042', '\u1112\u1161\u11ab', '\t', '\0', '\u00a0', '\u3000', '\ufeff', '\u2028', '\x0b', '\x7f', 'a', 'A', '0', '"', '/', '#', '&', '-', '_', '(', ':']
def wide():
    for g in WIDE:
        for c in ([g], ['x', g], [g, 'x'], [g, '\n', g], [g, '\r\n'], ['[', g, '.', g, ' ', g, ',', g, ']', g], ['<', g, ']', g], ['\\', g, '[', 'x', g, '.', 'x', g, ' ', 'x', g, ' ', g, 'x'], [g, '.', g, ' ', g, ',']): yield c
        if g not in ('\u1112\u1161\u11ab',): yield [g, g, '[', g, g, '}', g, g]

def sweep(ctx, one):
    xs = list(wide()) + list(texts(ctx.tier))
    def part(ctx, chunk):
        for code in chunk: ctx.guarded(one, 'text', code)
    ctx.pmap(part, [xs[i::64] for i in range(64)])
    ctx.floor('texts', len(xs), 4000)
