"""Spans of syntax nodes."""
from ..cst import *
RULE = ('parse is analysed on every EOF-terminated list of up to 3 token kinds from the start of a document and of up to 2 after 9 contexts (thorough: 4 and 3), on long runs (up to 260 tokens) of every kind and of common units in the document and in every kind of command, and on nesting up to 40 deep, with tokens at distinct positions; the span of every node of the tree must begin at its first token and end at its last '
        '(an escape at the end of the escaped token, a bracket that is not closed at the end of the token that ended it).')
ASSUMES = ['token lists end with EOF and lie one after the other, as the tokenizer makes them (C02, C03)']

def one(ctx, ks):
    key = 'tokens/' + short(ks)
    t, w, e, outs = parsed(ctx, ks, key)
    for s, ok, n in outs:
        if not ok: continue
        def check(x, i):
            """x covers tokens from i on; returns the index after its last token and the last token its span reaches"""
            first = i; last = i - 1
            if x.children is None or x.kind == 'BackSlash': last = i; i += 1
            for c in x.children or []:
                i, l = check(c, i); last = max(last, l)
            if first >= len(t.locs) or i > len(t.locs): raise Undecided('the tree has more leaves than tokens')
            if x.kind in ('Angle', 'Curly', 'Square') and not (x.children and x.children[-1].kind == x.kind + 'BracketClose'): last = max(last, min(i, len(t.locs) - 1))
            if i > first:
                ctx.expect(e, s, key + '/' + x.kind, w, x.loc, mkloc(ctx, t.locs[first][0], t.locs[last][1]), 'span of %s in the tree of %s' % (x.show(), t))
            return i, last
        check(n, 0)

def spans(ctx): sweep(ctx, one)
PARTS = [spans]
