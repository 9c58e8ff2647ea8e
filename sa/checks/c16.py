"""Container nodes: output is the ordered concatenation of the children, or the hook's result on it."""
from ..codegen import *
RULE = ('Each generator reachable from brack_codegen::generate::generate is analysed on one node of each kind it is given, with the calls for child nodes cut '
        '(coinduction over the tree). Scenarios fix which child kinds occur, whether a child or the hook fails and what the hook answers; '
        'in each scenario the returned term must be the in-order concatenation of the children (or node value), or the hook result on exactly that text.')
ASSUMES = ['a &mut Plugins argument carries no information from one child to the next other than through plugin calls', 'transfer functions of sa/models.py describe the standard library calls']

def hookscen(value):
    log = []
    h = {}
    for k, n in HOOKFN.items(): h[n] = recorder('hook:' + k, value, log)
    for k, n in CMDFN.items(): h[n] = recorder('cmd:' + k, raw('app', 'cmdresult'), log)
    return h, log

def containers(ctx):
    cg = CG(ctx)
    roots = cg.roots()
    ctx.floor('generator/kind pairs', len(roots), 6)
    ctx.sample({'pairs': ['%s on %s' % (strip(f.name), k) for f, k in roots]})
    seen = {k for _, k in roots}
    for k in ('Document', 'Stmt', 'Expr', 'Text', 'Curly', 'Square'):
        if k in seen: ctx.ok('reached:' + k)
        else: ctx.bad('reached:' + k, GEN, 'no generator is ever called for %s nodes' % k)
    for f, k in roots:
        if k not in ('Document', 'Stmt', 'Expr', 'Text'): continue
        w = ctx.where(f); key = '%s' % k
        node = cg.node(k)
        raw_text = concat_of(CHILDREN) if k != 'Text' else V('value')
        if k == 'Text':
            node = Adt(AST, cg.K['Text'], ('0',), (struct_(ctx, 'brack_transformer::ast::LeafNode', id=V('id'), value=Some(V('value')), location=V('loc')),))
        allowed = [cg.K[x] for x in ALLOWED.get(k, [])]
        vs = kinds_of_elements(CHILDREN, allowed)
        HR = V('hooktext')
        # (1) everything succeeds, no hook / hook answers
        for tag, hv, want in (('no-hook', Ok(NONE), raw_text), ('hook', Ok(Some(HR)), HR)):
            h, log = hookscen(hv)
            e, outs = cg.run(f, node, okchild, h, vs)
            hooked = False
            for s, ok, p, _ in outcomes(ctx, e, outs):
                evs = [x for x in evlist(s.ev) if x.fn.startswith('hook:')]
                other = [x for x in evlist(s.ev) if 'extism' in x.fn]
                if not ok:
                    if other: ctx.undecided('%s/%s' % (key, tag), 'plugin called outside the known API')
                    else: ctx.bad('%s/%s/error' % (key, tag), w, 'fails although every child and the hook succeed')
                    continue
                if other:
                    ctx.undecided('%s/%s' % (key, tag), 'plugin called outside the known API'); continue
                if tag == 'hook' and not evs:
                    ctx.bad('%s/hook/not-called' % key, w, 'returns %s without asking the %s hook' % (show(p)[:200], k)); continue
                ctx.expect(e, s, '%s/%s/value' % (key, tag), w, p, want, '%s output' % k)
                for x in evs:
                    if x.fn != 'hook:' + k: ctx.bad('%s/%s/wrong-hook' % (key, tag), w, 'asks the %s hook' % x.fn[5:])
                    elif len(evs) > 1: ctx.bad('%s/%s/hook-twice' % (key, tag), w, 'asks its hook %d times' % len(evs))
                    else:
                        ctx.expect(e, s, '%s/%s/hook-argument' % (key, tag), w, x.args[1], Seq(enum_(ctx, VALUE, 'Text', raw_text)), 'text handed to the %s hook' % k)
            if not outs: ctx.bad('%s/%s/none' % (key, tag), w, 'never returns')
            if e.panics: ctx.bad('%s/%s/panic' % (key, tag), w, repr(e.panics[0]))
        # (2) hook failure is an error
        h, log = hookscen(Err(ERR))
        e, outs = cg.run(f, node, okchild, h, vs)
        for s, ok, p, _ in outcomes(ctx, e, outs):
            if ok: ctx.bad('%s/hook-error-swallowed' % key, w, 'returns Ok(%s) although the hook failed' % show(p)[:200])
            else: ctx.ok('%s/hook-error' % key)
        if k == 'Text': continue
        # (3) a failing child is an error
        h, log = hookscen(Ok(NONE))
        e, outs = cg.run(f, node, errchild, h, vs)
        n = length(CHILDREN)
        for s, ok, p, _ in outcomes(ctx, e, outs):
            if ok and not s.facts.nonneg(neg(n)): ctx.bad('%s/child-error-swallowed' % key, w, 'returns Ok(%s) although a child failed' % show(p)[:200])
            else: ctx.ok('%s/child-error' % key)
        # (4) nodes that cannot be generated are reported, not dropped
        for bk in ('Angle', 'Invalid', 'Ident', 'Module', 'Document'):
            h, log = hookscen(Ok(NONE))
            cg.cuts = {}
            e, outs = cg.run(f, node, okchild, h, kinds_of_elements(CHILDREN, [cg.K[bk]]))
            handed = [g for g, ks in cg.cuts.items() if cg.K[bk] in ks]
            dropped = False
            for s, ok, p, _ in outcomes(ctx, e, outs):
                if ok and not s.facts.nonneg(neg(n)) and not handed: dropped = True
            for g in handed:       # a generator that hands the child on is judged on what the next one does
                e2, outs2 = cg.run(g, cg.node(bk, 'bad'), okchild, h)
                if any(ok for _, ok, _, _ in outcomes(ctx, e2, outs2)): dropped = True
            if dropped: ctx.bad('%s/dropped:%s' % (key, bk), w, 'a %s child is not reported as an error' % bk)
            else: ctx.ok('%s/not-dropped:%s' % (key, bk))

TEXTS = ([], [''], ['ab'], ['ab', 'ab'], ['ab', 'ab', 'ab'], ['a', '', 'b'], ['x\n', 'x\n'], [' ', 'a ', ' '], ['ab', 'b'], ['b', 'ab'], ['', '', ''], ['\n', 'a', '\n'], ['aa', 'a', 'aa', 'a'], ['0'] * 24, ['<br>', '<br>', '.', ',', ' '])
def concrete(ctx):
    """the same for children that give particular texts: empty, equal, one the end of the other, blank, many"""
    cg = CG(ctx)
    for f, k in cg.roots():
        if k not in ('Document', 'Stmt', 'Expr'): continue
        w = ctx.where(f)
        for texts in TEXTS:
            for ks in [[x] * len(texts) for x in ALLOWED[k]] + [[ALLOWED[k][(i + j) % len(ALLOWED[k])] for i in range(len(texts))] for j in range(len(ALLOWED[k]))]:
                ctx.guarded(concrete_, 'concrete/%s' % k, cg, f, w, k, texts, ks)

def concrete_(ctx, cg, f, w, k, texts, ks):
    leaf = lambda t, i: struct_(ctx, 'brack_transformer::ast::LeafNode', id=V('id%d' % i), value=Some(Str(t)), location=V('loc%d' % i))
    ch = [Adt(AST, cg.K[x], ('0',), (leaf(t, i) if x == 'Text' else V('c%d' % i),)) for i, (t, x) in enumerate(zip(texts, ks))]
    node = Adt(AST, cg.K[k], ('0',), (struct_(ctx, 'brack_transformer::ast::InnerNode', id=V('id'), children=Seq(*ch), location=V('loc')),))
    res = dict(zip(ch, texts)); want = Str(''.join(texts))
    key = 'concrete/%s/%s/%s' % (k, '+'.join(ks), '|'.join(texts).encode('unicode_escape').decode())
    for tag, hv, val in (('no-hook', Ok(NONE), want), ('hook', Ok(Some(V('hooktext'))), V('hooktext'))):
        h, log = hookscen(hv)
        e, outs = cg.run(f, node, lambda c: Ok(Str(res[c])) if c in res else Ok(raw('app', 'text_of', c)), h)
        for s, ok, p, _ in outcomes(ctx, e, outs):
            if not ok: ctx.bad(key, w, 'fails although every child and the hook succeed'); continue
            ctx.expect(e, s, key + '/' + tag, w, p, val, '%s output for children giving %s' % (k, texts))
            for x in evlist(s.ev):
                if x.fn == 'hook:' + k: ctx.expect(e, s, key + '/hook-argument', w, x.args[1], Seq(enum_(ctx, VALUE, 'Text', want)), 'text handed to the %s hook' % k)
PARTS = [containers, concrete]
