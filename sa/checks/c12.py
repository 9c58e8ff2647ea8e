"""Syntax errors: each reported once, at its place, in order."""
from ..tr import *
RULE = ('transform is analysed on the syntax trees of documents with commands in every short arrangement of their parts (module, dot, name, spaces, texts, commas, dots, line ends, stray and missing brackets, escapes, nested commands), and of all documents of up to two tokens (thorough: three); '
        'the list of errors must be exactly the one a separately written rule gives: kinds, spans and order. Nothing may be reported for well-formed documents.')
ASSUMES = ['syntax trees are those the grammar gives (C08), with the spans of C10']

def one(ctx, ks):
    key = 'document/' + ' '.join(ks)
    t, w, e, outs, want, errs = transformed(ctx, ks, key)
    names = [v['name'] for v in ctx.prog.adts[TERR][1]['variants']]
    for s, a, er in outs:
        if er.t != 'seq' or any(k != 'e' for k, _ in er.a[0]): ctx.undecided(key, 'errors of %s: %s' % (t, show(er)[:200])); continue
        xs = [x for _, x in er.a[0]]
        if any(x.t != 'adt' or x.a[0] != TERR for x in xs): ctx.undecided(key, 'errors of %s: %s' % (t, show(er)[:200])); continue
        got = [names[x.a[1]] for x in xs]
        if got != [k for k, _, _ in errs]: ctx.bad(key, w, 'for %s the errors are [%s], must be [%s]' % (t, ' '.join(got), ' '.join(k for k, _, _ in errs))); continue
        ctx.ok(key, ' '.join(got) or 'no error')
        for x, (k, a, b) in zip(xs, errs): ctx.expect(e, s, key + '/span', w, x.a[3][0], mkloc(ctx, t.locs[a][0], t.locs[b][1]), 'span of %s in %s' % (k, t))

def reports(ctx): sweep_documents(ctx, one, 3000)

def texts(ctx):
    """every kind of error has a location (its own) and a message naming it"""
    g = ctx.fn(TERR + '::get_location'); m = ctx.fn(TERR + '::get_message'); seen = {}
    for i, v in enumerate(ctx.prog.adts[TERR][1]['variants']):
        x = Adt(TERR, i, [f[0] for f in v['fields']], [V('loc')])
        e = ctx.engine()
        for s, r, _ in ctx.run(e, g, [x]): ctx.expect(e, s, 'location/' + v['name'], ctx.where(g), r, V('loc'), 'location of ' + v['name'])
        e = ctx.engine()
        for s, r, _ in ctx.run(e, m, [x]):
            if lit(r) is None: ctx.undecided('message/' + v['name'], show(r)[:100]); continue
            if lit(r) in seen: ctx.bad('message/' + v['name'], ctx.where(m), '%s and %s have the same message "%s"' % (v['name'], seen[lit(r)], lit(r)))
            else: ctx.ok('message/' + v['name'], lit(r))
            seen[lit(r)] = v['name']
PARTS = [reports, texts]
