"""Macro expansion: every macro call replaced by what its macro returned, the rest of the tree untouched."""
from ..tr import *
RULE = ('expander is analysed on the trees of documents with macro calls in every short arrangement among texts, lines, arguments and other commands (the documents of C13), each macro call replaced by a symbolic result or a failure: the calls made must be exactly one per outermost macro '
        'node, in document order, to the module and command it names, with the whole unexpanded tree and the node\'s own id; the result must be the same tree with each of those nodes replaced by the result of its call; a failing call must fail the expansion without further calls.')
ASSUMES = ['syntax trees are those of C13; a macro call names its module and command literally']
EXPAND = 'brack_expander::expand::expander'
MACRO = 'brack_plugin::plugins::Plugins::call_macro_command'
FREE = ('macro', 'nodeid')

def ast_term(ctx, t, g, path, ids):
    loc = mkloc(ctx, t.locs[g.first][0], t.locs[g.last][1]); ident = raw('app', 'nodeid', Str('/'.join(map(str, path))))
    k = ast_kind(g.kind)
    if k in INNER: r = struct_(ctx, 'brack_transformer::ast::InnerNode', id=ident, children=mkseq([('e', ast_term(ctx, t, c, path + (i,), ids)) for i, c in enumerate(g.children)]), location=loc)
    else: r = struct_(ctx, 'brack_transformer::ast::LeafNode', id=ident, value=ast_value(t, g), location=loc)
    x = enum_(ctx, AST, k, r); ids[id(g)] = (x, ident)
    return x

def expected(ctx, t, g, path, ids, res):
    """the tree with every outermost macro call replaced by res[its index]"""
    if g.kind == 'Angle': return res[id(g)]
    x, ident = ids[id(g)]
    if ast_kind(g.kind) not in INNER: return x
    r = struct_(ctx, 'brack_transformer::ast::InnerNode', id=ident, children=mkseq([('e', expected(ctx, t, c, path + (i,), ids, res)) for i, c in enumerate(g.children)]), location=mkloc(ctx, t.locs[g.first][0], t.locs[g.last][1]))
    return enum_(ctx, AST, g.kind, r)

def macros(g):
    if g.kind == 'Angle': yield g; return
    for c in g.children: yield from macros(c)

def one(ctx, ks):
    key = 'document/' + ' '.join(ks)
    t = Toks(ctx, ks); errs = []; g = simplify(tree(t.ks), errs)
    if any(k != 'InvalidBackslash' for k, _, _ in errs): return
    ms = list(macros(g))
    if any(sum(c.kind == 'Module' for c in m.children) != 1 or sum(c.kind == 'Ident' for c in m.children) != 1 for m in ms): return
    ctx.counts['documents'] = ctx.counts.get('documents', 0) + 1; ctx.counts['macro calls'] = ctx.counts.get('macro calls', 0) + len(ms)
    f = ctx.fn(EXPAND); w = ctx.where(f); ids = {}
    whole = ast_term(ctx, t, g, (), ids)
    for fail in [None] + list(range(len(ms))):
        log = []
        def hook(e, st, args, call):
            vals = tuple(e.deref(st, a) for a in args[1:])
            n = len([x for x in evlist(st.ev) if x.fn == 'macro'])
            v = Err(ERR) if n == fail else Ok(raw('app', 'macro', Int(n)))
            fr = call['fr']; st.ev = eng.Ev(st.ev, 'macro', vals, v, e.site(fr, call['bb']), st.facts.copy())
            return [(st, v)]
        e = ctx.engine({MACRO: hook}); e.unroll = 100; e.max_depth = 800
        res = {id(m): raw('app', 'macro', Int(i)) for i, m in enumerate(ms)}
        n = 0
        k = key + ('' if fail is None else '/fails%d' % fail)
        for s, ok, v, _ in outcomes(ctx, e, ctx.run(e, f, [whole, Mut(V('plugins'))])):
            n += 1
            calls = [x for x in evlist(s.ev) if x.fn == 'macro']
            want = ms if fail is None else ms[:fail + 1]
            if len(calls) != len(want): ctx.bad(k + '/calls', w, '%d macro calls for %s, must be %d' % (len(calls), t, len(want))); continue
            for x, m in zip(calls, want):
                mod = next(c for c in m.children if c.kind == 'Module'); idn = next(c for c in m.children if c.kind == 'Ident')
                for i, (a, b, what) in enumerate(zip(x.args, (t.texts[mod.i], t.texts[idn.i], whole, ids[id(m)][1]), ('module', 'command', 'tree', 'node id'))):
                    ctx.expect(e, s, k + '/' + what.replace(' ', '-'), w, a, b, '%s of macro call %d of %s' % (what, calls.index(x), t))
            if ok != (fail is None): ctx.bad(k + '/outcome', w, 'expanding %s %s' % (t, 'succeeds although a macro call failed' if ok else 'fails although every macro call succeeded')); continue
            if ok: ctx.expect(e, s, k + '/result', w, v, expected(ctx, t, g, (), ids, res), 'expansion of %s' % t)
            else: ctx.ok(k, 'failure passed on')
        if not n:
            for p in e.panics[:1]: ctx.bad(k + '/panics', w, 'expanding %s: %r' % (t, p))

def trees(tier):
    yield from documents(tier, 1)
    for n in range(0, 5 if tier == 'thorough' else 4):
        for p in itertools.product('tnAS\\', repeat=n): yield expand(''.join(p))
    for b in ('Square', 'Curly'):
        for p in itertools.product('tA,S', repeat=3): yield [b + 'BracketOpen', 'Module', 'Dot', 'Ident'] + expand('_' + ''.join(p)) + [b + 'BracketClose'] + expand('A')
        yield [b + 'BracketOpen'] + CMD['A'] + ['Dot', 'Ident', b + 'BracketClose']
        yield [b + 'BracketOpen', 'Module', 'Dot'] + CMD['A'] + [b + 'BracketClose']

def expansion(ctx):
    xs = list(trees(ctx.tier))
    def part(ctx, chunk):
        for ks in chunk: ctx.guarded(one, 'document/' + '_'.join(ks), ks)
    ctx.pmap(part, [xs[i::64] for i in range(64)])
    ctx.floor('documents', ctx.counts.get('documents', 0), 500); ctx.floor('macro calls', ctx.counts.get('macro calls', 0), 300)
PARTS = [expansion]
