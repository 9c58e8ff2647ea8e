"""Tokenization follows the lexical rule."""
from ..tok import *
RULE = ('tokenize_str is analysed on every sequence of up to 3 grapheme classes (12 special clusters and "any other cluster", which stays symbolic) from the start of a document and of up to 2 after 16 contexts of open, closed and escaped brackets '
        '(thorough: 4 and 3); the kinds and texts of the resulting tokens must be those of a separately written lexical rule. The file variant is analysed on an arbitrary file whose content is read into the string that is tokenized.')
ASSUMES = ['the text is the concatenation of its extended grapheme clusters (unicode-segmentation)']

def one(ctx, code):
    key = 'text/' + ''.join(code).encode('unicode_escape').decode()
    t, w, outs = tokenized(ctx, code, key)
    want = reference(ctx, t)
    for e, s, xs in outs:
        wk = [kind_name(ctx, x) for x in want]; gk = [kind_name(ctx, x) for x in xs]
        if None in gk: ctx.undecided(key, 'a token of "%s" is not known: %s' % (t, show(xs[gk.index(None)])[:200])); continue
        if gk != wk: ctx.bad(key, w, 'the text "%s" becomes %s, must be %s' % (t, ' '.join(gk), ' '.join(wk))); continue
        ctx.ok(key + '/kinds', 'tokens ' + ' '.join(gk))
        for g, x in zip(xs, want):
            if len(x.a[3]) == 2: ctx.expect(e, s, key, w, g.a[3][0], x.a[3][0], 'text of the %s token in "%s"' % (kind_name(ctx, x), t))

def rule(ctx): sweep(ctx, one)

FILES = ['', 'ab', ' ab ', '\ufeffab', 'a\r\nb\n', '\n\n', '\r\n', '[m.c a]', '\tb\t', '\u3042e\u0301', '#!/a\nb', '\0', '"a"', 'a\x1a', '---\na\n---\nb', '{a} \\[', '//a', '\u2028a\xa0', 'a\n\n\n']
READS = ('<std::fs::File as alloc::io::read::Read>::%s', '<&std::fs::File as alloc::io::read::Read>::%s', '<std::io::buffered::bufreader::BufReader<R> as alloc::io::read::Read>::%s', '<alloc::io::buffered::bufreader::BufReader<R> as alloc::io::read::Read>::%s')
def from_file(ctx):
    """tokenize(path): the tokens of exactly the file's content, and an error when it cannot be read or is not text"""
    f = ctx.fn('brack_tokenizer::tokenize::tokenize'); w = ctx.where(f)
    for code in FILES:
        for state in ('text', 'unreadable', 'not text'):
            ctx.guarded(file_, 'file/' + code.encode('unicode_escape').decode(), f, w, code, state)

def file_(ctx, f, w, code, state):
    t = Text(ctx, clusters(code)); key = 'file/%s/%s' % (state, code.encode('unicode_escape').decode())
    text = Str(code); raw_ = V('file bytes')
    def reader(string):
        def read(e, st, args, call):
            fr = call['fr']; st.ev = eng.Ev(st.ev, 'read', (), UNIT, e.site(fr, call['bb']), st.facts.copy())
            if state == 'unreadable' or state == 'not text' and string: return [(st, Err(ERR))]
            p = args[1]; old = e.load_cell(st, p.a[0], p.a[1])
            if string: e.store_cell(st, p.a[0], p.a[1], cat(old, text))
            elif old is not NIL: return None
            else: e.store_cell(st, p.a[0], p.a[1], raw_)
            return [(st, Ok(V('n')))]
        return read
    def content(e, st, v):
        while v.t == 'ptr': v = e.deref(st, v)
        return v is raw_
    def from_utf8(e, st, args, call):
        if not content(e, st, args[0]): return None
        return [(st, Ok(text) if state == 'text' else Err(ERR))]
    def lossy(e, st, args, call):
        if not content(e, st, args[0]): return None
        return [(st, text if state == 'text' else V('repaired text'))]
    ok_ = state == 'text'
    h = {n % 'read_to_string': reader(True) for n in READS}; h.update({n % 'read_to_end': reader(False) for n in READS})
    h.update({'std::fs::read_to_string': recorder('read', Ok(text) if ok_ else Err(ERR)), 'std::fs::read': recorder('read', Err(ERR) if state == 'unreadable' else Ok(raw_)), 'std::fs::File::open': recorder('open', Ok(V('file'))),
              'core::str::converts::from_utf8': from_utf8, 'core::str::<impl str>::from_utf8': from_utf8, 'alloc::string::String::from_utf8': from_utf8, 'alloc::string::String::from_utf8_lossy': lossy, 'alloc::string::String::from_utf8_lossy_owned': lossy,
              'alloc::string::String::from_utf8_unchecked': lossy, 'core::str::converts::from_utf8_unchecked': lossy})
    e = t.engine(h)
    n = 0
    for s, ok, v, _ in outcomes(ctx, e, ctx.run(e, f, [V('path')])):
        n += 1
        if ok != ok_ and not events(s, 'read'): ctx.undecided(key, 'the file is read in a way not modelled'); continue
        if ok != ok_: ctx.bad(key, w, 'tokenizing %s %s' % ({'text': 'a readable file', 'unreadable': 'an unreadable file', 'not text': 'a file that is not UTF-8'}[state], 'succeeds' if ok else 'fails')); continue
        if ok: ctx.expect(e, s, key, w, v, Seq(*reference(ctx, t)), 'tokens of a file containing "%s"' % t)
        else: ctx.ok(key, 'the file is refused')
    if not n: ctx.undecided(key, 'no result for a file containing "%s": %r' % (t, e.panics[:1]))
PARTS = [from_file, rule]
