"""Identities: no two nodes of a tree share an id, and a look-up by id finds the node that has it."""
from ..tr import *
RULE = ('transform and parse are analysed on the documents of C13 and the token lists of C07 (up to two tokens), every generated UUID being a fresh symbol; no two nodes of the resulting tree may carry the same id term. '
        'AST::get is analysed on trees of every node kind and on the trees of documents, with pairwise different ids: for the id of each node it must return that node, and nothing for any other id.')
ASSUMES = ['generated UUIDs never repeat']
GET = 'brack_transformer::ast::AST::get'
UUID = ('uuid::v4::<impl uuid::Uuid>::new_v4', 'uuid::Uuid::new_v4', 'Uuid::new_v4', 'uuid::v4::Uuid::new_v4')
CELL = (-1, 'fresh')

def fresh(e, st, args, call):
    n = st.cells.get(CELL, Int(0))
    if n.t != 'int': raise e.Lost('how many identities were generated')
    st.cells[CELL] = Int(n.a[0] + 1)
    return [(st, raw('app', 'identity', n))]

def distinct(ctx, key, w, n, t):
    if n.kind is None or n.bad is not None: ctx.undecided(key, 'tree of %s not enumerable: %s' % (t, show(n.term)[:200])); return
    seen = {}
    for x in n.walk():
        y = seen.get(x.id)
        if y is not None: ctx.bad(key, w, '%s and %s have the same id %s in the tree of %s' % (y.show(), x.show(), show(x.id), t)); return
        seen[x.id] = x
    if all(i.t == 'str' or (i.t == 'app' and 'identity' in show(i)) for i in seen): ctx.ok(key, '%d different ids' % len(seen))
    else: ctx.undecided(key, 'ids %s' % ', '.join(show(i)[:60] for i in seen if not (i.t == 'str' or 'identity' in show(i)))[:300])

def one(ctx, which, ks):
    key = '%s/%s' % (which, ' '.join(ks)); t = Toks(ctx, ks)
    f = ctx.fn(TRANSFORM if which == 'transform' else PARSE); w = ctx.where(f)
    e = ctx.engine({u: fresh for u in UUID}); e.unroll = 48; e.loop_max = 1000; e.max_depth = 500; n = 0
    for o in ctx.run(e, f, [cst_term(ctx, t, tree(t.ks)) if which == 'transform' else t.term]):
        s, v = o[0], ctx.norm(o[0], o[1])
        if which == 'transform': v = v.a[0] if v.t == 'tup' else v
        elif v.t == 'adt' and v.a[0] == RES: v = v.a[3][0]
        n += 1; distinct(ctx, key, w, Node(ctx, v, AST if which == 'transform' else CST), t)
    if not n: ctx.undecided(key, 'no tree for %s: %r' % (t, e.panics[:1]))

def trees(ctx):
    xs = [('transform', ks) for ks in documents(ctx.tier, 0)]
    if ctx.tier != 'thorough': xs = [x for i, x in enumerate(xs) if len(x[1]) < 12 or i % 7 == 0]
    ys = [('parse', list(p)) for n in range(0, 3) for p in itertools.product(KINDS, repeat=n)] + [('parse', ks) for _, ks in xs[::5]]
    items = xs + ys
    def part(ctx, chunk):
        for which, ks in chunk: ctx.guarded(one, which + '/' + '_'.join(ks), which, ks)
    ctx.pmap(part, [items[i::64] for i in range(64)])
    ctx.floor('trees', len(items), 500)

def node(ctx, kind, ident, children, n):
    z = struct_(ctx, LOCD, line=VN('l%d' % n), character=VN('c%d' % n)); loc = struct_(ctx, LOC, start=z, end=z)
    if kind in NODES: r = struct_(ctx, 'brack_transformer::ast::InnerNode', id=ident, children=mkseq([('e', c) for c in children]), location=loc)
    else: r = struct_(ctx, 'brack_transformer::ast::LeafNode', id=ident, value=Some(V('text%d' % n)), location=loc)
    return enum_(ctx, AST, kind, r)

NODES = ('Document', 'Stmt', 'Expr', 'Angle', 'Square', 'Curly')
LEAF = ('Ident', 'Module', 'Text', 'Invalid', 'Ignored')
SHAPES = [()] + [(x,) for x in NODES + LEAF] + [(x, y) for x in ('Square', 'Text', 'Expr') for y in ('Angle', 'Ident', 'Invalid')] \
    + [((k, x, 'Text'), y) for k in NODES for x in ('Ident', 'Curly', 'Ignored') for y in ('Text', 'Angle')] + [('Text', ('Stmt', ('Expr', ('Square', 'Module', 'Ident', ('Expr', ('Angle', 'Text'), 'Text')), 'Text')), 'Text')]

def find(ctx):
    fs = [f for f in (ctx.prog.find(GET),) if f]
    if not fs: raise Undecided('AST::get is gone')
    f = fs[0]; w = ctx.where(f); cnt = 0
    kinds = [v['name'] for v in ctx.prog.adts[AST][1]['variants']]
    for root in kinds:
        for shape in (SHAPES if root in NODES else [()]):
            nodes = []
            def build(k, ch):
                i = len(nodes); nodes.append(None)
                nodes[i] = node(ctx, k, Str('id-%d' % i), [build(*((c, ()) if isinstance(c, str) else (c[0], c[1:]))) for c in ch], i)
                return nodes[i]
            whole = build(root, shape); key = 'get/%s/%s' % (root, shape)
            for i in list(range(len(nodes))) + [None]:
                e = ctx.engine(); e.unroll = 100; e.max_depth = 800; n = 0
                for s, v, *_ in ctx.run(e, f, [whole, Str('id-%d' % i) if i is not None else Str('id-x')]):
                    n += 1; cnt += 1
                    want = NONE if i is None else Some(nodes[i])
                    ctx.expect(e, s, '%s/%s' % (key, i), w, ctx.norm(s, v), want, 'get(%s) on %s%s' % ('another id' if i is None else 'id of node %d' % i, root, shape))
                if not n: ctx.bad('%s/%s' % (key, i), w, 'no result: %r' % e.panics[:1])
    ctx.floor('look-ups', cnt, 200)
PARTS = [trees, find]
