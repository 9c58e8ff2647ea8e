"""The syntax tree has the shape the grammar gives it."""
from ..cst import *
RULE = ('parse is analysed on every EOF-terminated list of up to 3 token kinds from the start of a document and of up to 2 after 9 contexts (thorough: 4 and 3), on long runs (up to 260 tokens) of every kind and of common units in the document and in every kind of command, and on nesting up to 40 deep; the kinds of the resulting tree and their nesting must be those of a separately written grammar '
        '(blocks of lines separated by blank lines, brackets closed by their own kind of bracket, escapes of brackets, backslash, dot and comma).')
ASSUMES = ['token lists end with EOF, as the tokenizer makes them (C02)']

def one(ctx, ks):
    key = 'tokens/' + short(ks)
    t, w, e, outs = parsed(ctx, ks, key)
    def txt(g):
        k, i, ch = g
        return k + ('[%s]' % ' '.join(txt(c) for c in ch) if ch else '')
    def kinds_(n): return n.kind + ('[%s]' % ' '.join(kinds_(c) for c in n.children) if n.children else '')
    want = txt(grammar(t.ks))
    for s, ok, n in outs:
        if not ok: ctx.bad(key, w, 'the tokens %s are refused, must become %s' % (t, want)); continue
        got = kinds_(n)
        if got != want: ctx.bad(key, w, 'the tokens %s become %s, must become %s' % (t, got, want))
        else: ctx.ok(key, want)

def shape(ctx): sweep(ctx, one)
PARTS = [shape]
