"""Parsing always succeeds."""
from ..cst import *
RULE = ('parse is analysed on every EOF-terminated list of up to 3 token kinds from the start of a document and of up to 2 after 9 contexts (thorough: 4 and 3), on long runs (up to 260 tokens) of every kind and of common units in the document and in every kind of command, and on nesting up to 40 deep, well-formed or not: every outcome must be a document; no path may fail or reach a panic.')
ASSUMES = ['token lists end with EOF, as the tokenizer makes them (C02)']

def one(ctx, ks):
    key = 'tokens/' + short(ks)
    t, w, e, outs = parsed(ctx, ks, key)
    for s, ok, n in outs:
        if not ok: ctx.bad(key + '/fails', w, 'parsing %s fails' % t)
        elif n.kind != 'Document': ctx.bad(key + '/root', w, 'the tree of %s is a %s' % (t, n.kind))
        else: ctx.ok(key, 'a document')
    for p in e.panics: ctx.bad(key + '/panics', p.fn if isinstance(p.fn, str) else w, 'parsing %s: %r' % (t, p))
    if not outs and not e.panics: ctx.undecided(key, 'no outcome')

def total(ctx): sweep(ctx, one)
PARTS = [total]
