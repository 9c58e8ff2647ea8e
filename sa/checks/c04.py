"""The next tokens depend on the open commands and the text only, however long the document before."""
import itertools
from ..tok import *
RULE = ('the tokenizer loop is entered in an arbitrary state: symbolic line, column, start of the current word, word read so far and tokens already produced; for each state of the open-command counts (none, one, several kinds, an unbounded number, and numbers at the limits of narrower integer types), of "a command '
        'name is expected", and every continuation of up to three (thorough: four) grapheme classes, the final tokens must be the old ones followed by what the lexical rule gives for that state, located relative to the symbolic position.')
ASSUMES = ['the state of the tokenizer is its Tokenizer record', 'counts, lines and columns do not reach the limits of their integer types']
TZ = 'brack_tokenizer::tokenizer::Tokenizer'
VALS = ('line', 'column', 'token_start_line', 'token_start_column', 'untreated', 'pool', 'tokens', 'angle_nest_count', 'square_nest_count', 'curly_nest_count', 'looking_for_identifier')

def entry(ctx):
    for f in ctx.prog.fns.values():
        if f.key.startswith('brack_tokenizer::') and f.argc == 1 and '{' not in f.key and argtypes(f)[0].replace('brack_tokenizer::', '') in ('&tokenizer::Tokenizer',) \
           and re.match(r'core::result::Result<alloc::vec::Vec<(brack_tokenizer::)?tokens::Token>', rettype(f)): yield f

def counts():
    yield 'none', {}, ()
    for k in ('Angle', 'Curly', 'Square'): yield k, {k: 1}, ()
    yield 'deep', {'Square': 'n'}, ()
    yield 'two', {'Angle': 1, 'Square': 1}, ()
    yield 'three', {'Angle': 2, 'Curly': 1, 'Square': 1}, ()
    for k in ('Angle', 'Curly', 'Square'):
        for n in (127, 255, 32767, 65535): yield '%s*%d' % (k, n), {k: n}, ()

def depth(ctx, nm):
    """length of the continuations analysed"""
    if '*' in nm: return 1
    return 4 if ctx.tier == 'thorough' and nm in ('none', 'Square') else 3

def anywhere(ctx):
    fs = list(entry(ctx))
    if len(fs) != 1: raise Undecided('the tokenizer loop is not a function of one Tokenizer: %s' % [f.key for f in fs])
    f = fs[0]; w = ctx.where(f)
    items = [(nm, cnt, look, pooled, list(code)) for nm, cnt, _ in counts() for look in (False, True) for pooled in (False, True) for n in range(1, depth(ctx, nm) + 1) for code in itertools.product(CLASSES, repeat=n)
             # a word in progress continues only before clusters that do not end it at once
             if not (pooled and ends(code[0], cnt, look))]
    def part(ctx, chunk):
        for it in chunk: ctx.guarded(lambda c, x: one(c, f, w, *x), 'state', it)
    ctx.pmap(part, [items[i::64] for i in range(64)])
    ctx.floor('states and continuations', len(items), 2700)

def ends(g, cnt, look):
    """a cluster before which every word has ended already"""
    return g in OPEN or g in NL or g in CLOSE or g == '\\' or (g in ('.', ' ') and (look or cnt)) or (g == ',' and cnt)

def one(ctx, f, w, nm, cnt, look, pooled, code):
    t = Text(ctx, code)
    key = 'state/%s%s%s/%s' % (nm, '/name' if look else '', '/word' if pooled else '', t)
    line, col, sl, sc = VN('line'), VN('col'), VN('line'), VN('word_col')
    num = {k: (add(VN('open'), Int(9)) if cnt.get(k) == 'n' else Int(cnt.get(k, 0))) for k in ('Angle', 'Curly', 'Square')}
    pool = V('pool') if pooled else EMPTY
    old = V('tokens')
    vals = dict(line=line, column=col, token_start_line=sl if pooled else line, token_start_column=sc if pooled else col, untreated=t.term(), pool=pool, tokens=old,
                angle_nest_count=num['Angle'], square_nest_count=num['Square'], curly_nest_count=num['Curly'], looking_for_identifier=Bool(look))
    state = struct_(ctx, TZ, uri=V('uri'), **{k: Some(v) for k, v in vals.items()})
    st = State(); st.facts.add_ne(pool, EMPTY) if pooled else None
    e = t.engine()
    pos = positions(t.gs, line, col); want = []
    for kind, text, i, j in lexical(t.gs, {k: 9 if v == 'n' else v for k, v in cnt.items()}, look):
        a = pos[i]; b = (pos[j - 1][0], add(pos[j - 1][1], Int(1)))
        tx = t.part(*text) if text else None
        if pooled and i == 0 and text: tx = cat(pool, tx); a = (sl, sc)
        want.append(token(ctx, kind, tx, a, b))
    want.append(token(ctx, 'EOF', None, pos[-1], pos[-1]))
    want = mkseq([('s', old)] + [('e', x) for x in want])
    n = 0
    for s, ok, v, _ in outcomes(ctx, e, ctx.run(e, f, [state], st)):
        n += 1
        if not ok: ctx.bad(key, w, 'tokenizing fails'); continue
        if v is want: ctx.ok(key, 'continuation "%s" of an arbitrary document' % t)
        else: ctx.expect(e, s, key, w, v, want, 'tokens after "%s"' % t)
    if not n: ctx.undecided(key, 'no result: %r' % e.panics[:1])
PARTS = [anywhere]
