"""Token locations tile the text."""
from ..tok import *
RULE = ('tokenize_str is analysed on every sequence of up to 3 grapheme classes from the start of a document and of up to 2 after 16 contexts (thorough: 4 and 3), unknown clusters symbolic; the first token must start at 0:0, every token must '
        'start where the one before it ends (at column 0 of the next line after a newline), end as many columns after its start as it has clusters, on the same line, and EOF must be empty.')
ASSUMES = ['columns count extended grapheme clusters, as the tests fix it']

def one(ctx, code):
    key = 'text/' + ''.join(code).encode('unicode_escape').decode()
    t, w, outs = tokenized(ctx, code, key)
    for e, s, xs in outs:
        ks = [kind_name(ctx, x) for x in xs]
        if None in ks: ctx.undecided(key, 'a token of "%s" is not known' % t); continue
        pos = (Int(0), Int(0))
        for k, x in zip(ks, xs):
            loc = x.a[3][-1]
            if k == 'EOF': n = 0
            elif len(x.a[3]) == 1: n = 1
            else:
                txt = ctx.norm(s, x.a[3][0]); n = 0
                for p in str_parts(txt):
                    if isinstance(p, str): n += len(clusters(p))
                    elif p in t.sym: n += 1
                    else: n = None; break
                if n is None: ctx.undecided(key, 'text of a token of "%s": %s' % (t, show(txt)[:200])); break
            end = (pos[0], add(pos[1], Int(n)))
            what = 'of the %s token in "%s"' % (k, t)
            for part, (l, c) in (('start', pos), ('end', end)):
                g = fld(loc, part)
                ctx.expect(e, s, key + '/' + part, w, fld(g, 'line'), l, '%s line %s' % (part, what))
                ctx.expect(e, s, key + '/' + part, w, fld(g, 'character'), c, '%s column %s' % (part, what))
            pos = (add(pos[0], Int(1)), Int(0)) if k == 'NewLine' else end

def tile(ctx): sweep(ctx, one)
PARTS = [tile]
