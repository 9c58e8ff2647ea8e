"""The syntax tree keeps every token, once, in order."""
from ..cst import *
RULE = ('parse is analysed on every EOF-terminated list of up to 3 token kinds from the start of a document and of up to 2 after 9 contexts (thorough: 4 and 3), on long runs (up to 260 tokens) of every kind and of common units in the document and in every kind of command, and on nesting up to 40 deep, with symbolic texts; the leaves of the resulting tree (an escape counts as its backslash and the escaped token), '
        'in order, must be the tokens: one leaf of the matching kind per token, with its text and its location. No grammar is assumed.')
ASSUMES = ['token lists end with EOF, as the tokenizer makes them (C02)']

def one(ctx, ks):
    key = 'tokens/' + short(ks)
    t, w, e, outs = parsed(ctx, ks, key)
    for s, ok, n in outs:
        if not ok: continue
        leaves = []
        for x in n.walk():
            if x.kind == 'BackSlash': leaves.append((x, 'BackSlash'))
            elif x.children is None: leaves.append((x, x.kind))
        esc = {id(c) for x in n.walk() if x.kind == 'BackSlash' for c in x.children}
        want = [NODE.get(k, k) for k in t.ks]
        got = [k for _, k in leaves]
        if len(got) != len(want): ctx.bad(key, w, 'the tokens %s become the leaves %s' % (t, ' '.join(got))); continue
        for i, (x, k) in enumerate(leaves):
            what = 'leaf %d of the tree of %s' % (i, t)
            if id(x) in esc:
                if k != 'Text': ctx.bad(key, w, '%s is %s, must be the escaped text' % (what, k)); break
                ctx.expect(e, s, key + '/text', w, x.value, Some(Str(CHAR[t.ks[i]])) if t.ks[i] in CHAR else Some(t.texts[i]) if t.texts[i] is not None else V('no text'), 'text of ' + what)
            elif k != want[i]: ctx.bad(key, w, '%s is %s, must be %s' % (what, k, want[i])); break
            elif t.texts[i] is not None: ctx.expect(e, s, key + '/text', w, x.value, Some(t.texts[i]), 'text of ' + what)
            if k == 'BackSlash': continue          # spans of inner nodes are the subject of C10
            ctx.expect(e, s, key + '/location', w, x.loc, mkloc(ctx, *t.locs[i]), 'location of ' + what)
        else: ctx.ok(key, 'leaves ' + ' '.join(got))

def leaves(ctx): sweep(ctx, one)
PARTS = [leaves]
