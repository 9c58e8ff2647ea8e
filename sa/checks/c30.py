"""Diagnostics: saving a document reports exactly the errors it has."""
from ..lsp import *
from .c29 import member, elements
RULE = ('The server is analysed on textDocument/didSave with the error list of the transformer given: empty, every single kind, and lists of several kinds with symbolic locations; with clients that do and do not accept diagnostics; and with every earlier stage failing. '
        'A client that accepts them gets one publishDiagnostics for the URI of the saved document with one diagnostic per error, in order, whose range is the location of the error and whose text is the one that belongs to its kind (an empty list when there is none); a client that does not gets none. '
        'The errors are those of the saved file: it is read through its URI, tokenized, parsed and transformed, in this chain.')
ASSUMES = ['positions fit 32 bits']
FREE = ('tokenized', 'parsed', 'errors', 'deserialize', 'to_file_path')
SAYS = {'AngleNotOpened': ('angle', 'open'), 'AngleNotClosed': ('angle', 'close'), 'CurlyNotOpened': ('curly', 'open'), 'CurlyNotClosed': ('curly', 'close'), 'SquareNotOpened': ('square', 'open'), 'SquareNotClosed': ('square', 'close'),
        'MismatchedBracket': ('mismatch',), 'ModuleNotFound': ('module',), 'IdentifierNotFound': ('identifier',), 'DotNotFound': ('dot',), 'CommaNotFound': ('comma',), 'UnexpectedDot': ('unexpected', 'dot'), 'UnexpectedComma': ('unexpected', 'comma'), 'InvalidBackslash': ('backslash',)}

def loc(ctx, n):
    return struct_(ctx, LOC, start=struct_(ctx, LOCD, line=VN(n + '.sl'), character=VN(n + '.sc')), end=struct_(ctx, LOCD, line=VN(n + '.el'), character=VN(n + '.ec')))

def server(accepts):
    td = NONE if accepts is None else Some(raw('updf', V('td'), (('publish_diagnostics', Some(V('pd')) if accepts else NONE),)))
    return raw('updf', V('server'), (('client_capabilities', raw('updf', V('caps'), (('text_document', td),))),))

def run(ctx, errs, accepts, ok=True):
    m = Msg('m', {'jsonrpc': S('2.0'), 'method': S('textDocument/didSave'), 'params': O('p')})
    h = {'brack_transformer::transform::transform': recorder('transform', lambda s, a: Tup(V('ast'), Seq(*errs)))}
    if ok: h['brack_tokenizer::tokenize::tokenize'] = recorder('tokenize', Ok(V('tokens'))); h['brack_parser::parse::parse'] = recorder('parse', Ok(V('cst')))
    return Wire(ctx, [m.wire()], [m], hooks=h, srv=server(accepts))

def reached(s): return any(x.fn == 'transform' for x in evlist(s.ev))

def published(ctx, w, key, s):
    cs = [classify(f.body) for f in frames(ctx, w.e, s)]
    if any(c is None for c in cs): ctx.undecided(key, 'a message written is not understood'); return None
    return [c for c in cs if c[0] == 'notification' and c[1] == 'textDocument/publishDiagnostics'], [c for c in cs if c[0] == 'response']

def uri_of(t):
    """is the term the text of the document's URI as the client sent it"""
    return t

def play(ctx, key, kinds_, what, locs=None):
    locs = locs or [loc(ctx, 'e%d' % i) for i in range(len(kinds_))]
    errs = [enum_(ctx, TRANSFORM_ERR, k, l) for k, l in zip(kinds_, locs)]
    w = run(ctx, errs, True)
    panics(ctx, w, key)
    n = 0
    for s, ok, p, _ in w.outs:
        if not reached(s): continue
        n += 1
        r = published(ctx, w, key, s)
        if r is None: continue
        pubs, resp = r
        if len(pubs) != 1: ctx.bad(key + '/count', w.where, '%s: %d publishDiagnostics' % (what, len(pubs))); continue
        prm = obj(pubs[0][2])
        if prm is None or 'uri' not in prm or 'diagnostics' not in prm: ctx.bad(key + '/params', w.where, '%s: publishDiagnostics without uri or diagnostics' % what); continue
        ev = [x for x in evlist(s.ev) if x.fn in ('tokenize', 'parse', 'transform')]
        if [x.fn for x in ev] != ['tokenize', 'parse', 'transform']: ctx.undecided('chain', 'stages %s' % [x.fn for x in ev])
        else:
            ctx.expect(w.e, s, 'chain', w.where, ev[1].args[0], V('tokens'), 'what is parsed')
            ctx.expect(w.e, s, 'chain', w.where, ev[2].args[0], V('cst'), 'what is transformed')
            src = ev[0].args[0]
            # the file read and the URI reported come from the same document
            u = jval(prm['uri'])
            base = doc_of(u)
            if base is None: ctx.undecided('uri', 'uri is %s' % show(u)[:200])
            elif not contains(src, base): ctx.bad('uri', w.where, 'reports on %s, but reads %s' % (show(u)[:150], show(src)[:150]))
            elif not re.search(r'text_document\.uri$', show(base)): ctx.undecided('uri', 'uri is %s' % show(u)[:200])
            else: ctx.ok('uri')
        d = jval(prm['diagnostics'])
        el = elements(d) if d is not None else None
        if el is None: ctx.undecided(key, 'diagnostics are %s' % (show(d)[:200] if d is not None else 'null')); continue
        if len(el) != len(errs): ctx.bad(key + '/length', w.where, '%s: %d diagnostics for %d errors' % (what, len(el), len(errs))); continue
        for k, l, x in zip(kinds_, locs, el):
            for a in ('start', 'end'):
                for b, c in (('line', 'line'), ('character', 'character')):
                    ctx.expect(w.e, s, 'range/%s.%s' % (a, b), w.where, member(x, 'range', a, b), fld(fld(l, a), c), '%s: %s.%s of the diagnostic for %s' % (what, a, b, k))
            t = lit(member(x, 'message'))
            if t is None: ctx.undecided('message/' + k, 'text %s' % show(member(x, 'message'))[:100])
            else:
                miss = [y for y in SAYS.get(k, ()) if y not in t.lower()]
                wrong = [y for y in ('angle', 'curly', 'square') if y in t.lower() and y not in SAYS.get(k, (y,))] if k.endswith(('Opened', 'Closed')) else []
                if miss or wrong: ctx.bad('message/' + k, w.where, 'the diagnostic for %s says %r' % (k, t))
                else: ctx.ok('message/' + k)
    if not n: ctx.undecided(key, 'no path reaches the transformer')

def doc_of(t):
    """the URI value behind its text: app(as_str..)/to_string of it"""
    while t.t == 'app' and len(t.a) == 2: t = t.a[1]
    return t if t.t == 'fld' else None

def errors(ctx):
    ks = list(kinds(ctx, TRANSFORM_ERR))
    play(ctx, 'none', [], 'no error')
    for k in ks: play(ctx, 'single', [k], 'one ' + k)
    for i in range(len(ks)):
        play(ctx, 'several', [ks[i], ks[(i * 3 + 1) % len(ks)], ks[i]], 'three errors')
        play(ctx, 'alike', [ks[i]] * 2, 'two errors of one kind')
        play(ctx, 'alike', [ks[i]] * 3, 'three errors of one kind')
    play(ctx, 'same', [ks[0], ks[0]], 'two equal errors', [loc(ctx, 'e0')] * 2)
    play(ctx, 'all', ks, 'one error of every kind')
    ctx.floor('error kinds', len(ks), 14)

def clients(ctx):
    errs = [enum_(ctx, TRANSFORM_ERR, 'DotNotFound', loc(ctx, 'e'))]
    for acc, what in ((False, 'does not accept diagnostics'), (None, 'says nothing about documents')):
        for es in (errs, []):
            w = run(ctx, es, acc)
            for s, ok, p, _ in w.outs:
                r = published(ctx, w, 'client', s)
                if r is None: continue
                if r[0]: ctx.bad('client', w.where, 'diagnostics are sent to a client that ' + what)
                else: ctx.ok('client')

def failing(ctx):
    errs = [enum_(ctx, TRANSFORM_ERR, 'DotNotFound', loc(ctx, 'e'))]
    w = run(ctx, errs, True, ok=False)
    for s, ok, p, _ in w.outs:
        r = published(ctx, w, 'failing', s)
        if r is None: continue
        if r[0] and not reached(s): ctx.bad('failing', w.where, 'diagnostics are published although the document was not analysed')
        else: ctx.ok('failing')
PARTS = [errors, clients, failing]
