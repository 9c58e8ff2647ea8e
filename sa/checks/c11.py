"""Every parsed document can be transformed."""
from ..tr import *
RULE = ('transform is analysed on the syntax trees of every EOF-terminated list of up to 3 token kinds from the start of a document and of up to 2 after 9 contexts (thorough: 4 and 3) and of commands in every short arrangement of their parts; '
        'no path may reach a panic, and every outcome must be a tree whose nodes are of kinds the syntax tree of a document may have (no bracket, newline or end-of-file left).')
ASSUMES = ['syntax trees are those the grammar gives (C08)']

def one(ctx, ks):
    key = 'document/' + ' '.join(ks)
    t, w, e, outs, want, errs = transformed(ctx, ks, key)
    for p in e.panics: ctx.bad(key + '/panics', '%s at %s' % (p.fn, p.site), 'transforming %s: %r' % (t, p))
    for s, a, er in outs:
        n = Node(ctx, a, AST)
        if n.kind == 'Document': ctx.ok(key, 'a document')
        elif n.kind: ctx.bad(key + '/root', w, 'the tree of %s is a %s' % (t, n.kind))
        else: ctx.undecided(key, show(a)[:200])
    if not outs and not e.panics: ctx.undecided(key, 'no outcome')

def total(ctx):
    sweep(ctx, one)
    sweep_documents(ctx, one, 3000)
PARTS = [total]
