"""State of the language server: what initialize and didOpen leave behind, and that nothing else changes it."""
from ..lsp import *
RULE = ('The server is analysed on single messages from a server with symbolic state. didOpen: with the directories above the document, Brack.toml and the plugins available or not, one after the other; initialize with parameters that can and cannot be read; '
        'and messages of an arbitrary other method, of no method, and that are not JSON. On every path the open project and the capabilities left behind must be the required ones: the project two directories above the document exactly when '
        'its Brack.toml was read and its plugins were fetched (in this order, on that project), the capabilities of the last initialize that could be read, and otherwise the previous ones. didOpen writes nothing but log messages.')
ASSUMES = ['lsp_types and url read parameters and URIs as documented', 'Path::parent is the directory above']
FREE = ('tokenized', 'parsed', 'errors', 'plugnew', 'plugins', 'loaded', 'prj', 'deserialize')
PJ = 'brack_project_manager::project::Project'
UP = [V('document'), V('docs'), V('root'), V('above')]

def run(ctx, msg, isfile=True, depth=4, load=True, fetch=True, more=()):
    def parent(e, st, args, call):
        a = e.deref(st, args[0])
        if a not in UP: return None
        i = UP.index(a) + 1
        return [(st, Some(UP[i]) if i < depth else NONE)]
    def name(n):
        return recorder(n, lambda s, a: Ok(UNIT) if (load if n == 'load' else fetch) else Err(V('E_' + n)))
    h = {'url::Url::to_file_path': recorder('path', Ok(UP[0]) if isfile else Err(UNIT), event=False), 'std::path::Path::parent': parent,
         'std::path::Path::ancestors': lambda e, st, args, call: [(st, Seq(*UP[:depth]))] if e.deref(st, args[0]) is UP[0] else None,
         PJ + '::new': recorder('Project::new', lambda s, a: raw('app', 'prj', a[0])), PJ + '::load_brack_toml': name('load'), PJ + '::download_plugins_using_config': name('fetch')}
    st = State()
    h.update(tokenizing_(ctx, st))
    return Wire(ctx, [m.wire() for m in (msg,) + tuple(more)], [msg] + list(more), hooks=h, st=st)

def tokenizing_(ctx, st):
    return {'brack_tokenizer::tokenize::tokenize': recorder('tokenize', Err(V('E_tok')))}

def after(ctx, w, key):
    panics(ctx, w, key)
    if not w.outs and not w.e.panics: ctx.undecided(key, 'no outcome')
    for s, ok, p, fin in w.outs:
        if not ok: ctx.bad(key + '/stops', w.where, 'the server stops with an error'); continue
        yield s, fld(fin[0], 'project'), fld(fin[0], 'client_capabilities')

P0 = fld(V('server'), 'project'); C0 = fld(V('server'), 'client_capabilities')
OPEN = lambda n='m': Msg(n, {'jsonrpc': S('2.0'), 'method': S('textDocument/didOpen'), 'params': O('p')})

def read_ok(s):
    """were the parameters of the message readable on this path: True, False or None"""
    v = [r for t, r in s.facts.vs.items() if t.t == 'app' and str(t.a[0]).endswith('deserialize')]
    return None if not v or len(v[0]) != 1 else v[0] == frozenset([0])

def project(ctx):
    n = 0
    for what, kw in (('a document of a project', {}), ('a document of a project in the root directory', dict(depth=3)), ('a document that is not a file', dict(isfile=False)), ('a document with no directory above its own', dict(depth=2)), ('the root directory', dict(depth=1)),
                     ('a document outside a project', dict(load=False)), ('a document of a project whose plugins cannot be fetched', dict(fetch=False))):
        n += 1
        w = run(ctx, OPEN(), **kw)
        good = not kw or kw == dict(depth=3); key = 'open/' + what.replace(' ', '-')
        reached = 0
        for s, p, c in after(ctx, w, key):
            ro = read_ok(s); evs = [x for x in evlist(s.ev) if x.fn in ('load', 'fetch', 'Project::new')]
            for x in evs:
                if x.fn == 'Project::new': ctx.expect(w.e, s, 'open/root', w.where, x.args[0], UP[2], 'directory of the project of root/docs/file')
            if ro is None and good: ctx.undecided(key, 'whether the parameters are readable is not known'); continue
            if ro and good:
                reached += 1
                got = [x.fn for x in evs if x.fn != 'Project::new']
                if got != ['load', 'fetch']: ctx.bad(key + '/steps', w.where, '%s: %s, must be loaded and fetched' % (what, ' '.join(got) or 'nothing is done'))
                ctx.expect(w.e, s, key, w.where, p, Some(raw('app', 'prj', UP[2])), 'open project after opening ' + what)
            else: ctx.expect(w.e, s, key, w.where, p, P0, 'open project after opening ' + (what if ro is not False else 'with unreadable parameters'))
            ctx.expect(w.e, s, 'open/capabilities', w.where, c, C0, 'capabilities after opening a document')
            cs = [classify(f.body) for f in frames(ctx, w.e, s)]
            if any(x is None for x in cs): ctx.undecided(key, 'a message written is not understood')
            elif any(x[0] != 'notification' or x[1] not in ('window/logMessage', 'window/showMessage') for x in cs): ctx.bad(key + '/answers', w.where, 'opening a document is answered with %s' % (cs[0],))
            else: ctx.ok(key + '/quiet')
        if good: ctx.floor('outcomes of ' + key, reached, 1)
    ctx.floor('ways to open a document', n, 6)

def capabilities(ctx):
    m = Msg('m', {'jsonrpc': S('2.0'), 'id': I('id'), 'method': S('initialize'), 'params': O('p')})
    w = run(ctx, m); n = 0
    for s, p, c in after(ctx, w, 'initialize'):
        ctx.expect(w.e, s, 'initialize/project', w.where, p, P0, 'open project after initialize')
        ro = read_ok(s)
        if ro is None: ctx.undecided('initialize', 'whether the parameters are readable is not known')
        elif not ro: ctx.expect(w.e, s, 'initialize/unreadable', w.where, c, C0, 'capabilities after an initialize with unreadable parameters')
        else:
            n += 1
            t = show(c)
            if c is C0: ctx.bad('initialize', w.where, 'the capabilities sent by the client are not kept')
            elif re.search(r'\.capabilities$', t) and 'deserialize' in t: ctx.ok('initialize')
            else: ctx.undecided('initialize', 'capabilities kept: ' + t[:200])
    ctx.floor('readable initialize', n, 1)

def others(ctx):
    n = 0
    for what, f in (('didSave', {'method': S('textDocument/didSave'), 'params': O('p')}), ('didChange', {'method': S('textDocument/didChange'), 'params': O('p')}), ('didClose', {'method': S('textDocument/didClose'), 'params': O('p')}), ('initialized', {'method': S('initialized'), 'params': O('p')}),
                    ('a request for semantic tokens', {'id': I('id'), 'method': S('textDocument/semanticTokens/full'), 'params': O('p')}), ('shutdown', {'id': I('id'), 'method': S('shutdown')}),
                    ('an unknown request', {'id': I('id'), 'method': S('no/such'), 'params': O('p')}), ('a response', {'id': I('id'), 'result': O('r')}), ('an error response', {'id': I('id'), 'error': O('x')}), ('no method', {}), ('a body that is not JSON', None)):
        n += 1
        w = run(ctx, Msg('m', f))
        for s, p, c in after(ctx, w, 'other'):
            ctx.expect(w.e, s, 'other/project', w.where, p, P0, 'open project after ' + what)
            ctx.expect(w.e, s, 'other/capabilities', w.where, c, C0, 'capabilities after ' + what)
    ctx.floor('other messages', n, 8)
PARTS = [project, capabilities, others]
