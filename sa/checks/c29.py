"""Semantic tokens: the kinds mean what the announced legend says, the deltas rebuild the positions."""
from ..lsp import *
RULE = ('The server is analysed on initialize, which yields the legend it announces, and on textDocument/semanticTokens/full for token lists with symbolic positions: every kind of token alone and in combination, on the same line and on later lines. '
        'Each entry must carry a type index that names, in the announced legend, the type fixed for its kind (no legend entry for undecorated tokens), a length equal to the width of the token, no modifiers, and deltas which add up to the positions of the tokens (column relative to the previous token on the same line, absolute on a new line); one entry per token, in order. '
        'A document that cannot be tokenized yields null.')
ASSUMES = ['tokens come in document order and do not span lines, positions fit 32 bits', 'SemanticTokenType is a name']
FREE = ('stt', 'tokenized')
TYPE_OF = {'Module': 'namespace', 'Ident': 'variable', 'AngleBracketOpen': 'macro', 'AngleBracketClose': 'macro', 'CurlyBracketOpen': 'method', 'CurlyBracketClose': 'method',
           'SquareBracketOpen': 'function', 'SquareBracketClose': 'function'}

def ask(ctx, method, hooks=None, st=None):
    m = Msg('m', {'jsonrpc': S('2.0'), 'id': I('id'), 'method': S(method), 'params': O('p')})
    w = Wire(ctx, [m.wire()], [m], hooks=hooks, st=st)
    r = []
    for s, ok, p, _ in w.outs:
        if not ok: ctx.undecided(method, 'stops'); continue
        cs = [classify(f.body) for f in frames(ctx, w.e, s)]
        if any(c is None for c in cs): ctx.undecided(method, 'a message written is not understood'); continue
        r.append((s, [c for c in cs if c[0] == 'response'], cs))
    return w, r

def member(v, *names):
    for n in names:
        while v.t == 'adt' and v.a[0] == OPT and v.a[1] == 1: v = v.a[3][0]
        if v.t == 'adt' and len(v.a[3]) == 1 and v.a[2][0] == '0' and n not in v.a[2]: v = v.a[3][0]
        if v.t == 'app' and v.a[0] == 'val': v = v.a[1]
        v = fld(v, n)
    return v

def elements(v):
    return [x for k, x in v.a[0]] if v.t == 'seq' and all(k == 'e' for k, x in v.a[0]) else None

def legend(ctx):
    w, r = ask(ctx, 'initialize')
    for s, rs, _ in r:
        for c in rs:
            if c[2] != 'result': continue
            tt = member(c[3], 'capabilities', 'semantic_tokens_provider', 'legend', 'token_types')
            el = elements(tt)
            if el is None: raise Undecided('legend is %s' % show(tt)[:200])
            names = [lit(x.a[1]) if x.t == 'app' and x.a[0] == 'stt' else None for x in el]
            if None in names: raise Undecided('legend entries %s' % show(tt)[:200])
            return w, names
    raise Undecided('no successful answer to initialize')

def entry(v):
    names = ('delta_line', 'delta_start', 'length', 'token_type', 'token_modifiers_bitset')
    if v.t != 'adt' or set(v.a[2]) != set(names): raise Undecided('entry is %s' % show(v)[:100])
    return [fld(v, n) for n in names]

def spelled(ctx, items):
    """the tokens of a real document: (kind, text, width)"""
    out = []; line = col = 0
    for k, t, n in items:
        l = struct_(ctx, LOC, start=struct_(ctx, LOCD, line=Int(line), character=Int(col)), end=struct_(ctx, LOCD, line=Int(line), character=Int(col + n)))
        out.append(enum_(ctx, TOK, k, Str(t), l) if k in ('Text', 'Module', 'Ident') else enum_(ctx, TOK, k, l)); col += n
        if k == 'NewLine': line += 1; col = 0
    return out

def play(ctx, key, leg, ks, what, toks=None):
    st = State()
    toks = toks or token_list(ctx, ks, st)
    w, r = ask(ctx, 'textDocument/semanticTokens/full', hooks=tokenizing(toks), st=st)
    panics(ctx, w, key)
    n = 0
    for s, rs, cs in r:
        ok_tok = [x for x in evlist(s.ev) if x.fn == 'tokenize']
        if not ok_tok: continue
        good = ok_tok[0].res.a[1] == 0
        if not good:
            for c in rs:
                if c[2] == 'result' and jval(c[3]) is not None: ctx.bad('failed', w.where, 'a document that cannot be tokenized is answered with tokens')
                else: ctx.ok('failed')
            continue
        n += 1
        if len(rs) != 1 or rs[0][2] != 'result': ctx.bad(key + '/answer', w.where, '%s: not answered with a result' % what); continue
        v = rs[0][3]
        if jval(v) is None: ctx.bad(key + '/null', w.where, '%s: answered with null' % what); continue
        data = member(v, 'data')
        el = elements(data)
        if el is None: ctx.undecided(key, 'data is %s' % show(data)[:200]); continue
        if len(el) != len(toks): ctx.bad(key + '/count', w.where, '%s: %d entries for %d tokens' % (what, len(el), len(toks))); continue
        pl = pc = Int(0)
        for i, (x, t, k) in enumerate(zip(el, toks, ks)):
            dl, ds, ln, ty, mod = entry(x)
            l = t.a[3][-1]; a = fld(l, 'start'); b = fld(l, 'end')
            line, col = fld(a, 'line'), fld(a, 'character')
            ctx.expect(w.e, s, 'line', w.where, dl, sub(line, pl), '%s: line delta of token %d (%s)' % (what, i, k))
            same_line = w.e.decide_eq(s, line, pl) if i else w.e.decide_eq(s, line, Int(0))
            want = sub(col, pc) if same_line is True else col if same_line is False else None
            if i == 0 and same_line is None: want = col          # the first token is relative to (0, 0) either way
            if want is None: ctx.undecided('column', 'lines not ordered')
            else: ctx.expect(w.e, s, 'column', w.where, ds, want, '%s: column delta of token %d (%s)' % (what, i, k))
            ctx.expect(w.e, s, 'length', w.where, ln, sub(fld(b, 'character'), col), '%s: length of token %d (%s)' % (what, i, k))
            ctx.expect(w.e, s, 'modifiers', w.where, mod, Int(0), '%s: modifiers of token %d (%s)' % (what, i, k))
            if ty.t != 'int': ctx.undecided('type', 'type of %s is %s' % (k, show(ty)[:100]))
            else:
                got = leg[ty.a[0]] if ty.a[0] < len(leg) else None
                if got != TYPE_OF.get(k): ctx.bad('type/' + k, w.where, 'a %s token has type index %d, which is %r in the announced legend; must be %r' % (k, ty.a[0], got, TYPE_OF.get(k)))
                else: ctx.ok('type/' + k)
            pl, pc = line, col
    if not n: ctx.undecided(key, 'no outcome')

def tokens(ctx):
    w, leg = legend(ctx)
    ctx.sample({'legend announced by initialize': leg})
    if len(set(leg)) != len(leg): ctx.bad('legend/double', w.where, 'the legend names a type twice')
    play(ctx, 'none', leg, [], 'no token')
    for k in TOKS: play(ctx, 'single', leg, [k], 'one %s token' % k)
    for i, k in enumerate(TOKS):
        o = TOKS[(i + 5) % len(TOKS)]
        play(ctx, 'pair', leg, [k, o, o, k, k], '%s and %s tokens' % (k, o))
    play(ctx, 'all', leg, TOKS, 'one token of every kind')
    # names and texts whose bytes, characters, UTF-16 units and columns differ in number
    for n, (mod, ident, text) in enumerate([(('std', 3), ('b', 1), ('x', 1)), (('e\u0301', 1), ('n\u0303o', 2), ('a\u0308o\u0308u', 3)), (('\u6570\u5b66', 2), ('\u5f0f', 1), ('\u56fe\u8868', 2)),
            (('\U0001f469\u200d\U0001f680', 1), ('\U0001f1ef\U0001f1f5', 1), ('\U0001f600\U0001f600x', 3)), (('a' * 70, 70), ('b' * 300, 300), ('c' * 70000, 70000))]):
        for o in ('Angle', 'Curly', 'Square'):
            its = [(o + 'BracketOpen', '', 1), ('Module', *mod), ('Dot', '', 1), ('Ident', *ident), ('WhiteSpace', '', 1), ('Text', *text), ('Comma', '', 1), ('NewLine', '', 1), ('WhiteSpace', '', 1), ('Text', *text), ('BackSlash', '', 1), (o + 'BracketOpen', '', 1), ('Text', *text), (o + 'BracketClose', '', 1), ('NewLine', '', 1), ('NewLine', '', 1), ('Text', *text), ('EOF', '', 0)]
            play(ctx, 'text%d/%s' % (n, o), leg, [x[0] for x in its], 'a document with a %s command and texts of several widths' % o.lower(), spelled(ctx, its))
    play(ctx, 'many', leg, ['Text', 'NewLine'] * 150 + ['Text', 'EOF'], 'a document of 150 lines', spelled(ctx, [('Text', 'line', 4), ('NewLine', '', 1)] * 150 + [('Text', 'x', 1), ('EOF', '', 0)]))
    ctx.floor('token kinds', len(TOKS), 16)
PARTS = [tokens]
