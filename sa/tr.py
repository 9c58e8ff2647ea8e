"""The transformer on syntax trees of the grammar, built directly (not by the parser)."""
from .cst import *
TRANSFORM = 'brack_transformer::transform::transform'
TERR = 'brack_transformer::error::TransformError'
DROP = ('Whitespace', 'Newline', 'Comma', 'Dot', 'EOF') + tuple(OPENERS) + tuple(CLOSERS)
CONTENT = ('Text', 'Module', 'Ident', 'Angle', 'Curly', 'Square', 'Invalid')

class G:
    """a node of the grammar's tree with its span: tokens first..last"""
    def __init__(self, kind, i, children, first, last):
        self.kind, self.i, self.children, self.first, self.last = kind, i, children, first, last
    def with_(self, **kw):
        g = G(self.kind, self.i, self.children, self.first, self.last)
        for k, v in kw.items(): setattr(g, k, v)
        return g

def tree(ks):
    """grammar(ks) with spans (as C10 fixes them)"""
    n = len(ks)
    def rec(g, i):
        k, ti, ch = g; first = i; last = i - 1; out = []
        if ti is not None: last = i; i += 1
        for c in ch:
            x, i, l = rec(c, i); out.append(x); last = max(last, l)
        if k in ('Angle', 'Curly', 'Square') and not (ch and ch[-1][0] == k + 'BracketClose'): last = max(last, min(i, n - 1))
        return G(k, ti, out, first, last), i, last
    return rec(grammar(ks), 0)[0]

def cst_term(ctx, t, g, names=[0]):
    names[0] += 1; ident = V('id%d_%d' % (g.first, names[0] % 1000))
    loc = mkloc(ctx, t.locs[g.first][0], t.locs[g.last][1])
    if g.kind in INNER: r = struct_(ctx, 'brack_parser::cst::InnerNode', id=ident, children=mkseq([('e', cst_term(ctx, t, c)) for c in g.children]), location=loc)
    else:
        if g.kind == 'Text' and t.texts[g.i] is None: v = Some(Str(CHAR[t.ks[g.i]]))
        elif g.kind in WORDS: v = Some(t.texts[g.i])
        else: v = NONE
        r = struct_(ctx, 'brack_parser::cst::LeafNode', id=ident, value=v, location=loc)
    return enum_(ctx, CST, g.kind, r)

def simplify(g, errs):
    """what the transformer must make of a node: a node of kinds as in the grammar's tree, plus Invalid"""
    k = g.kind
    if k in ('Document', 'Stmt', 'Expr'):
        out = []
        for c in g.children:
            if k == 'Stmt' and c.kind in CLOSERS: errs.append((CLOSERS[c.kind] + 'NotOpened', c.first, c.last))
            out.append(simplify(c, errs))
        if k != 'Expr': out = [c for c in out if c.kind not in DROP]
        return g.with_(children=out)
    if k == 'BackSlash':
        if g.children: return g.children[0]
        errs.append(('InvalidBackslash', g.first, g.last)); return g.with_(kind='Invalid')
    if k not in ('Angle', 'Curly', 'Square'): return g
    xs = []
    for c in g.children:
        c = simplify(c, errs)
        xs += c.children if c.kind == 'Expr' else [c]
    if xs[-1].kind != k + 'BracketClose': errs.append((k + 'NotClosed', xs[0].first, xs[-1].last))
    for pos, ok, err in ((1, ('Module', 'Angle'), 'ModuleNotFound'), (2, ('Dot',), 'DotNotFound'), (3, ('Ident', 'Angle'), 'IdentifierNotFound')):
        if len(xs) > pos and xs[pos].kind not in ok: errs.append((err, xs[pos].first, xs[pos].last))
    for x in xs[3:]:
        if x.kind == 'Dot': errs.append(('UnexpectedDot', x.first, x.last))
    # spaces and line ends around arguments are layout; a space between two contents of an argument belongs to it
    ys, gap = [], []
    for x in xs:
        if x.kind == 'Newline': continue
        if x.kind == 'Whitespace':
            if len(ys) > 4 and ys[-1].kind in CONTENT: gap.append(x)
            continue
        if x.kind in CONTENT: ys += gap
        gap = []; ys.append(x)
    if len(ys) < 4: return g.with_(children=[y for y in ys if y.kind not in DROP])
    head, out, arg, comma = ys[:4], [], [], None
    def flush():
        if arg: out.append(G('Expr', None, list(arg), arg[0].first, arg[-1].last)); arg.clear(); return True
    for y in ys[4:]:
        if y.kind == 'Comma':
            if flush(): comma = y
            else: errs.append(('UnexpectedComma', y.first, y.last)); comma = None
        elif y.kind in CLOSERS:
            if not flush() and comma: errs.append(('UnexpectedComma', comma.first, comma.last))
            break
        elif y.kind != 'Dot': arg.append(y); comma = None
    flush()
    return g.with_(children=[y for y in head if y.kind not in DROP] + out)

def ast_kind(k): return 'Text' if k in ('Whitespace', 'Dot', 'Comma') else k
def ast_value(t, g):
    if g.kind in ('Whitespace', 'Dot', 'Comma'): return Some(Str({'Whitespace': ' ', 'Dot': '.', 'Comma': ','}[g.kind]))
    if g.kind == 'Text' and t.texts[g.i] is None: return Some(Str(CHAR[t.ks[g.i]]))
    if g.kind in WORDS: return Some(t.texts[g.i])
    return NONE

def transformed(ctx, ks, key):
    t = Toks(ctx, ks); g = tree(t.ks); f = ctx.fn(TRANSFORM); w = ctx.where(f)
    e = ctx.engine(); e.unroll = 100; e.loop_max = 1000; e.max_depth = 800
    out = []
    for s, v, _ in ctx.run(e, f, [cst_term(ctx, t, g)]):
        v = ctx.norm(s, v)
        if v.t != 'tup': ctx.undecided(key, 'result of transform on %s: %s' % (t, show(v)[:200])); continue
        out.append((s, v.a[0], v.a[1]))
    errs = []; want = simplify(g, errs)
    return t, w, e, out, want, errs

CMD = {'S': ['SquareBracketOpen', 'Module', 'Dot', 'Ident', 'SquareBracketClose'], 'C': ['CurlyBracketOpen', 'Module', 'Dot', 'Ident', 'WhiteSpace', 'Text', 'CurlyBracketClose'],
       'A': ['AngleBracketOpen', 'Module', 'Dot', 'Ident', 'AngleBracketClose'], 'e': ['BackSlash', 'Comma'], 'b': ['BackSlash', 'SquareBracketOpen'],
       't': ['Text'], '_': ['WhiteSpace'], ',': ['Comma'], 'n': ['NewLine'], '.': ['Dot'], 'z': ['SquareBracketClose'], 'o': ['AngleBracketOpen'], '\\': ['BackSlash'], 'm': ['Module'], 'i': ['Ident'],
       # commands with one and with two errors of their own
       'E': ['SquareBracketOpen', 'Module', 'Dot', 'Ident', 'WhiteSpace', 'Comma', 'SquareBracketClose'], 'F': ['CurlyBracketOpen', 'Module', 'Dot', 'Ident', 'WhiteSpace', 'Comma', 'Dot', 'Text', 'CurlyBracketClose']}
def expand(code): return [k for c in code for k in CMD[c]]

def documents(tier, more=0):
    """token lists of documents around commands: arguments, lines and blocks in every arrangement of up to four (five) parts, or `more`"""
    top = (5 if tier == 'thorough' else 4) + more
    for n in range(0, top + 1):
        for p in itertools.product('t_,n', repeat=n): yield 'SquareBracketOpen Module Dot Ident'.split() + expand('_' + ''.join(p)) + ['SquareBracketClose']
    for n in range(0, top):
        for p in itertools.product('t_,neSA', repeat=n): yield 'CurlyBracketOpen Module Dot Ident'.split() + expand('_' + ''.join(p)) + ['CurlyBracketClose']
    for n in range(0, top - 1):
        for p in itertools.product('t_,nebSCA', repeat=n): yield 'AngleBracketOpen Module Dot Ident'.split() + expand('_' + ''.join(p)) + ['AngleBracketClose']
    for n in range(0, top + 1):
        for p in itertools.product('tnSb', repeat=n): yield expand(''.join(p))
    # macros as module or command name, three levels deep
    for b in ('Square', 'Curly', 'Angle'):
        yield [b + 'BracketOpen'] + CMD['A'] + ['Dot', 'Ident', 'WhiteSpace', 'Text', b + 'BracketClose']
        yield [b + 'BracketOpen', 'Module', 'Dot'] + CMD['A'] + ['WhiteSpace', 'Text', b + 'BracketClose']
        yield expand('t') + [b + 'BracketOpen', 'Module', 'Dot', 'Ident', 'WhiteSpace'] + CMD['C'][:-1] + CMD['S'] + ['CurlyBracketClose', 'Comma', 'WhiteSpace', 'Text', b + 'BracketClose', 'Text']

def broken(tier):
    """token lists for error reporting: everything of `lists` below a size, and commands in every short arrangement"""
    for n in range(0, 4 if tier == 'thorough' else 3):
        for p in itertools.product(KINDS, repeat=n): yield list(p)
    for n in range(0, 5 if tier == 'thorough' else 4):
        for p in itertools.product('tmi._,nzA', repeat=n):
            yield ['SquareBracketOpen'] + expand(''.join(p)) + ['SquareBracketClose']
    for b in ('Square', 'Curly', 'Angle'):
        for n in range(0, 4 if tier == 'thorough' else 3):
            for p in itertools.product('tmi._,nzoe\\', repeat=n):
                yield [b + 'BracketOpen', 'Module', 'Dot', 'Ident'] + expand('_' + ''.join(p)) + [b + 'BracketClose']
                yield [b + 'BracketOpen', 'Module', 'Dot', 'Ident'] + expand('_' + ''.join(p))
                yield [b + 'BracketOpen'] + expand(''.join(p)) + [b + 'BracketClose']
    for n in range(0, 4):
        for p in itertools.product('tnzS\\o', repeat=n): yield expand(''.join(p))
    # errors in several lines and arguments of a command, and of several commands
    for b in ('Square', 'Curly', 'Angle'):
        for n in range(1, 6 if tier == 'thorough' else 4):
            for p in itertools.product('tEFn,', repeat=n):
                yield [b + 'BracketOpen', 'Module', 'Dot', 'Ident'] + expand('_' + ''.join(p)) + [b + 'BracketClose']
    for n in range(2, 5 if tier == 'thorough' else 4):
        for p in itertools.product('tEFnz', repeat=n): yield expand(''.join(p))
    for n in range(0, 4):
        for p in itertools.product('t_,.A', repeat=n):
            yield expand('t') + ['CurlyBracketOpen', 'Module', 'Dot', 'Ident'] + expand('_') + ['SquareBracketOpen', 'Module', 'Dot', 'Ident'] + expand('_' + ''.join(p)) + ['SquareBracketClose', 'Comma', 'CurlyBracketClose']
def sweep_documents(ctx, one, floor):
    xs = list(broken(ctx.tier)) + list(documents(ctx.tier))
    def part(ctx, chunk):
        for ks in chunk: ctx.guarded(one, 'document/' + '_'.join(ks), ks)
    ctx.pmap(part, [xs[i::64] for i in range(64)])
    ctx.floor('documents', len(xs), floor)
