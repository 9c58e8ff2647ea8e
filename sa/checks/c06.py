"""Locations: least cover, and accessors that read/write exactly the node's own span."""
from ..lib import *
RULE = ('merge_location is analysed under each of the 81 orderings of the four line and four column values; in each the returned span must be the lexicographic minimum of the starts and maximum of the ends. '
        'get_location/set_location/add are analysed once per token or node kind on symbolic fields and must read, replace or extend exactly the location (and child list) of that node.')
ASSUMES = ['line and column are unsigned machine integers']
ML = 'brack_tokenizer::tokens::merge_location'

def loc(ctx, n):
    return struct_(ctx, LOC, start=struct_(ctx, LOCD, line=VN(n + '.sl'), character=VN(n + '.sc')), end=struct_(ctx, LOCD, line=VN(n + '.el'), character=VN(n + '.ec')))

def rel(st, a, b, r):
    if r == '<': st.facts.add_ge(sub(sub(b, a), Int(1)))
    elif r == '>': st.facts.add_ge(sub(sub(a, b), Int(1)))
    else: st.facts.add_ge(sub(a, b)); st.facts.add_ge(sub(b, a))

def cover(ctx):
    f = ctx.fn(ML); w = ctx.where(f)
    a, b = loc(ctx, 'a'), loc(ctx, 'b')
    n = 0
    for ls in '<=>':
        for cs in '<=>':
            for le in '<=>':
                for ce in '<=>':
                    st = State(); v = VN
                    rel(st, v('a.sl'), v('b.sl'), ls); rel(st, v('a.sc'), v('b.sc'), cs)
                    rel(st, v('a.el'), v('b.el'), le); rel(st, v('a.ec'), v('b.ec'), ce)
                    e = ctx.engine()
                    outs = ctx.run(e, f, [a, b], st); n += 1
                    sa = 'a' if ls == '<' or (ls == '=' and cs != '>') else 'b'
                    ea = 'a' if le == '>' or (le == '=' and ce != '<') else 'b'
                    for s, got, _ in outs:
                        for part, who, l, c in (('start', sa, 'sl', 'sc'), ('end', ea, 'el', 'ec')):
                            g = fld(got, part)
                            if part == 'start' : o = (ls, cs)
                            else: o = (le, ce)
                            ctx.expect(e, s, 'merge/%s/line' % part, w, fld(g, 'line'), VN('%s.%s' % (who, l)), '%s line when lines %s, columns %s' % ((part,) + o))
                            ctx.expect(e, s, 'merge/%s/character' % part, w, fld(g, 'character'), VN('%s.%s' % (who, c)), '%s column when lines %s, columns %s' % ((part,) + o))
                    if e.panics: ctx.bad('merge/panic', w, repr(e.panics[0]))
    ctx.floor('orderings', n, 81)

def variants(ctx, path):
    c, a = ctx.prog.adts[path]
    for i, v in enumerate(a['variants']):
        yield i, v['name'], [(n, c.types[t]) for n, t in v['fields']]

def tokens(ctx):
    g = ctx.fn(TOK + '::get_location'); sset = ctx.fn(TOK + '::set_location'); n = 0
    for i, name, fs in variants(ctx, TOK):
        li = [j for j, (_, t) in enumerate(fs) if t.get('adt') == LOC]
        if len(li) != 1: ctx.undecided('token/' + name, 'location field not unique'); continue
        tok = Adt(TOK, i, [x for x, _ in fs], [loc(ctx, '%s_%d' % (name, j)) if j in li else V('%s_%d' % (name, j)) for j in range(len(fs))]); n += 1; NEW = loc(ctx, 'new')
        e = ctx.engine()
        for s, v, _ in ctx.run(e, g, [tok]): ctx.expect(e, s, 'token/get/' + name, ctx.where(g), v, tok.a[3][li[0]], 'location of a %s token' % name)
        e = ctx.engine()
        want = list(tok.a[3]); want[li[0]] = NEW
        for s, v, fin in ctx.run(e, sset, [Mut(tok), NEW]): ctx.expect(e, s, 'token/set/' + name, ctx.where(sset), fin[0], Adt(TOK, i, tok.a[2], want), 'a %s token after set_location' % name)
    ctx.floor('token kinds', n, 14)

def children(ctx, path):
    """lists of children whose spans have nothing to do with that of their parent"""
    vs = {name: (i, fs) for i, name, fs in variants(ctx, path)}; n = [0]
    def one(kind, ch=None):
        i, fs = vs[kind]; inner = fs[0][1]['adt']; n[0] += 1
        names = [x[0] for x in ctx.prog.adts[inner][1]['variants'][0]['fields']]
        val = {'location': loc(ctx, 'in%d' % n[0]), 'children': Seq(*(ch or []))}
        return Adt(path, i, (fs[0][0],), (Adt(inner, 0, names, [val.get(x, V('%s%d' % (x, n[0]))) for x in names]),))
    leaf = [k for k in ('Text', 'Module', 'Ident', 'Invalid', 'Dot', 'EOF') if k in vs]; deep = [k for k in ('Stmt', 'Expr', 'Angle', 'Curly', 'Square', 'BackSlash') if k in vs]
    return [NIL] + [Seq(one(k)) for k in leaf + deep] + [Seq(one(a), one(b)) for a, b in zip(leaf, leaf[1:])] + [Seq(one(k, [one('Text')]), one('Text')) for k in deep] + [Seq(*[one('Text') for _ in range(40)])]

def nodes(ctx):
    OLD, NEW, CL = loc(ctx, 'old'), loc(ctx, 'new'), loc(ctx, 'child')
    for path, getter, setter in ((CST, 'location', 'set_location'), (AST, None, None)):
        n = 0
        fadd = ctx.fn(path + '::add')
        families = children(ctx, path)
        for i, name, fs in variants(ctx, path):
            inner = fs[0][1].get('adt', '')
            ia = ctx.prog.adts.get(inner)
            if ia is None or len(fs) != 1: ctx.undecided('node/' + name, 'unexpected shape'); continue
            n += 1
            fields = [x[0] for x in ia[1]['variants'][0]['fields']]
            if 'location' not in fields: raise Missing(inner + '.location')
            mk = lambda **kw: Adt(path, i, (fs[0][0],), (Adt(inner, 0, fields, [kw.get(x, OLD if x == 'location' else V(x)) for x in fields]),))
            node = mk()
            tag = path.split('::')[-1]
            if getter:
                g = ctx.fn(path + '::' + getter); sset = ctx.fn(path + '::' + setter)
                for kw in ([{}] + [dict(children=c) for c in families] if 'children' in fields else [{}, dict(value=NONE), dict(value=Some(Str('')))]):
                    nd = mk(**kw)
                    e = ctx.engine(); e.unroll = 8
                    for s, v, _ in ctx.run(e, g, [nd]): ctx.expect(e, s, '%s/get/%s' % (tag, name), ctx.where(g), v, OLD, 'location of a %s node' % name)
                    if e.panics: ctx.bad('%s/get/%s/panic' % (tag, name), ctx.where(g), repr(e.panics[0]))
                    e = ctx.engine(); e.unroll = 8
                    for s, v, fin in ctx.run(e, sset, [Mut(nd), NEW]): ctx.expect(e, s, '%s/set/%s' % (tag, name), ctx.where(sset), fin[0], mk(location=NEW, **kw), 'a %s node after set_location' % name)
                    if e.panics: ctx.bad('%s/set/%s/panic' % (tag, name), ctx.where(sset), repr(e.panics[0]))
            if 'children' not in fields: continue
            # adding a child of every kind
            for j, cname, cfs in variants(ctx, path):
                cin = cfs[0][1].get('adt', ''); ca = ctx.prog.adts[cin]
                cf = [x[0] for x in ca[1]['variants'][0]['fields']]
                child = Adt(path, j, (cfs[0][0],), (Adt(cin, 0, cf, [CL if x == 'location' else V('c_' + x) for x in cf]),))
                for first in (True, False):
                    merged = []
                    def mh(e, st, args, call):
                        v = raw('app', 'merge', *[e.deref(st, a) for a in args]); return [(st, v)]
                    e = ctx.engine({ML: mh})
                    ch = NIL if first else mkseq([('e', V('c0')), ('s', V('more'))])
                    for s, v, fin in ctx.run(e, fadd, [Mut(mk(children=ch)), child]):
                        got = fin[0].a[3][0] if fin[0].t == 'adt' else fin[0]
                        key = '%s/add/%s' % (tag, name)
                        ctx.expect(e, s, key + '/children', ctx.where(fadd), fld(got, 'children'), concat(ch, Seq(child)), 'children of a %s after adding a %s' % (name, cname))
                        l = fld(got, 'location')
                        oks = [raw('app', 'merge', OLD, CL), raw('app', 'merge', CL, OLD)]
                        if first and path == CST: oks = [CL]
                        if l in oks: ctx.ok(key + '/location')
                        else: ctx.expect(e, s, key + '/location', ctx.where(fadd), l, oks[0], 'span of a %s after adding a %s child %s' % (name, 'first' if first else 'further', cname))
                    if e.panics: ctx.bad('%s/add/%s/panic' % (tag, name), ctx.where(fadd), repr(e.panics[0]))
        ctx.floor('%s kinds' % path.split('::')[-1], n, 10)
PARTS = [cover, tokens, nodes]
