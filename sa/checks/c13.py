"""Well-formed documents: the tree handed to expansion and generation."""
from ..tr import *
RULE = ('transform is analysed on the syntax trees of well-formed documents built from every arrangement of up to 5 lines, texts, commands and escapes, and commands with every arrangement of up to 5 arguments\' texts, spaces, commas, line ends, escapes and nested commands (thorough: 6), '
        'texts symbolic. The tree must have the same documents, statements and expressions; every command must keep its module, its name and one expression per comma-separated argument, holding the argument\'s contents in order with single spaces between them kept '
        'and layout around arguments removed; texts and spans must be those of the syntax nodes; and no error may be reported.')
ASSUMES = ['syntax trees are those the grammar gives (C08), with the spans of C10']

def one(ctx, ks):
    key = 'document/' + ' '.join(ks)
    t, w, e, outs, want, errs = transformed(ctx, ks, key)
    if errs: return
    ctx.counts['well-formed documents'] = ctx.counts.get('well-formed documents', 0) + 1
    for s, a, er in outs:
        if er is not NIL:
            if er.t == 'seq' and er.a[0]: ctx.bad(key + '/errors', w, 'the well-formed document %s is reported: %s' % (t, show(er)[:300]))
            else: ctx.undecided(key, 'errors of %s: %s' % (t, show(er)[:200]))
            continue
        n = Node(ctx, a, AST)
        if n.kind is None or n.bad is not None: ctx.undecided(key, 'tree of %s not enumerable: %s' % (t, show(a)[:300])); continue
        def sh(g): return ast_kind(g.kind) + ('[%s]' % ' '.join(sh(c) for c in g.children) if g.kind in INNER and g.children else '')
        def gh(x): return x.kind + ('[%s]' % ' '.join(gh(c) for c in x.children) if x.children else '')
        if gh(n) != sh(want): ctx.bad(key, w, 'the document %s becomes %s, must become %s' % (t, gh(n), sh(want))); continue
        ctx.ok(key, sh(want))
        def rec(x, g):
            what = '%s in %s' % (x.show(), t)
            ctx.expect(e, s, key + '/span', w, x.loc, mkloc(ctx, t.locs[g.first][0], t.locs[g.last][1]), 'span of ' + what)
            if x.children is None: ctx.expect(e, s, key + '/text', w, x.value, ast_value(t, g), 'text of ' + what)
            for c, h in zip(x.children or [], g.children): rec(c, h)
        rec(n, want)
    if not outs:
        for p in e.panics[:1]: ctx.bad(key + '/panics', w, 'transforming %s: %r' % (t, p))

def arrangements(ctx):
    xs = list(documents(ctx.tier, 1))
    def part(ctx, chunk):
        for ks in chunk: ctx.guarded(one, 'document/' + '_'.join(ks), ks)
    ctx.pmap(part, [xs[i::64] for i in range(64)])
    ctx.floor('documents', len(xs), 1000); ctx.floor('well-formed documents', ctx.counts.get('well-formed documents', 0), 400)
PARTS = [arrangements]
