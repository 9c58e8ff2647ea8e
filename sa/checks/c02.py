"""The tokens of a text spell the text."""
from ..tok import *
RULE = ('tokenize_str is analysed on every sequence of up to 3 grapheme classes from the start of a document and of up to 2 after 16 contexts (thorough: 4 and 3), unknown clusters symbolic; the clusters spelled by the resulting tokens, '
        'in order (their text, or the fixed character of their kind), must be exactly the clusters of the text, and the list must contain one EOF, as its last element. No lexical rule is assumed.')
ASSUMES = ['the text is the concatenation of its extended grapheme clusters (unicode-segmentation)']

def one(ctx, code):
    key = 'text/' + ''.join(code).encode('unicode_escape').decode()
    t, w, outs = tokenized(ctx, code, key)
    for e, s, xs in outs:
        ks = [kind_name(ctx, x) for x in xs]
        if None in ks: ctx.undecided(key, 'a token of "%s" is not known' % t); continue
        if ks.count('EOF') != 1 or ks[-1] != 'EOF': ctx.bad(key + '/eof', w, 'the tokens of "%s" are %s: exactly one EOF, at the end, is required' % (t, ' '.join(ks))); continue
        if 'Empty' in ks: ctx.bad(key + '/empty', w, 'the tokens of "%s" contain an Empty token' % t); continue
        i = 0
        for k, x in zip(ks[:-1], xs):
            if k == 'NewLine':
                if i < len(t.gs) and t.gs[i] in NL: i += 1; continue
                break
            if len(x.a[3]) == 1: txt = Str(literal(k))
            else: txt = ctx.norm(s, x.a[3][0])
            j = next((j for j in range(i + 1, len(t.gs) + 1) if ctx.same(e, s, txt, t.part(i, j)) is True), None)
            if j is None:
                if txt.t in ('str', 'v') or lit(txt) is not None: break
                ctx.undecided(key, 'text of a token of "%s": %s' % (t, show(txt)[:200])); i = None; break
            i = j
        else:
            if i == len(t.gs): ctx.ok(key, '"%s" is spelled by %s' % (t, ' '.join(ks))); continue
        if i is None: continue
        ctx.bad(key, w, 'the tokens of "%s" do not spell it: %s' % (t, '; '.join(k + (' ' + show(x.a[3][0]) if len(x.a[3]) == 2 else '') for k, x in zip(ks, xs))[:400]))

def spelled(ctx): sweep(ctx, one)
PARTS = [spelled]
