"""The server keeps serving: no message makes it stop or panic."""
from ..lsp import *
RULE = ('Server::run is analysed on scripts of two messages. The first is anything: a request or notification of an arbitrary method (every method the server knows is a separate path, and every failure of the tokenizer, the parser, the plugins, the project, the deserialisation of parameters is another), a response, an object with neither id nor method, a body that is not JSON, a header without usable length. '
        'The second is a request the server does not know. On every path the second is answered under its id, and the server returns without error at the end of input.')
ASSUMES = ['standard output accepts what is written', 'plugins, file system and network return (with whatever result)']
FREE = ('tokenized', 'parsed', 'errors', 'plugnew', 'plugins', 'loaded')

def play(ctx, key, first, what, head=None, more=()):
    b = Msg('last', {'id': I('last'), 'method': S('no/such')})
    for way in ('together', 'apart'):
        st = State()
        x = (raw_bytes(head) if head else []) + (first.wire() if first is not None else [])
        chunks = [x + b.wire()] if way == 'together' else [x, b.wire()]
        w = Wire(ctx, chunks, ([first] if first is not None else []) + [b], hooks=tokenizing(token_list(ctx, ['Module', 'Ident', 'Text'], st)), st=st)
        panics(ctx, w, key)
        if not w.outs and not w.e.panics: ctx.undecided(key, 'no outcome')
        n = 0
        for s, ok, p, _ in w.outs:
            if not ok: ctx.bad(key + '/stops', w.where, 'the server stops with an error after %s (%s)' % (what, cause(s))); continue
            cs = [classify(f.body) for f in frames(ctx, w.e, s)]
            if any(c is None for c in cs): ctx.undecided(key, 'a message written is not understood'); continue
            rs = [c for c in cs if c[0] == 'response']
            if not rs or rs[-1][1] is not V('last'): ctx.bad(key + '/silent', w.where, 'a request after %s gets no answer (%s)' % (what, cause(s))); continue
            ctx.ok(key); n += 1
        ctx.counts[key + ' paths'] = ctx.counts.get(key + ' paths', 0) + n

def cause(s):
    return '; '.join(show(k)[:50] + ' fails' for k, v in s.facts.vs.items() if v == frozenset([1]))[:200] or 'unconditionally'

def requests(ctx):
    play(ctx, 'request', Msg('m', {'id': I('id'), 'method': S(V('method')), 'params': O('p')}), 'a request')
    play(ctx, 'request', Msg('m', {'id': I('id'), 'method': S(V('method'))}), 'a request without parameters')
def notifications(ctx):
    play(ctx, 'notification', Msg('m', {'method': S(V('method')), 'params': O('p')}), 'a notification')
    play(ctx, 'notification', Msg('m', {'method': S(V('method'))}), 'a notification without parameters')
def rest(ctx):
    play(ctx, 'response', Msg('m', {'id': I('id'), 'result': O('r')}), 'a response')
    play(ctx, 'response', Msg('m', {'id': I('id'), 'error': O('x')}), 'a response that is an error')
    play(ctx, 'response', Msg('m', {'id': I('id'), 'result': Null()}), 'a response whose result is null')
    play(ctx, 'response', Msg('m', {'id': I('id'), 'result': Null(), 'error': O('x')}), 'a response with both result and error')
    play(ctx, 'response', Msg('m', {'id': S('x'), 'result': O('r')}), 'a response whose id is a string')
    play(ctx, 'response', Msg('m', {'id': S('x'), 'error': O('x')}), 'an error response whose id is a string')
    play(ctx, 'response', Msg('m', {'id': Null(), 'error': O('x')}), 'an error response without id')
    play(ctx, 'response', Msg('m', {'id': I('id')}), 'a response with neither result nor error')
    play(ctx, 'response', Msg('m', {'error': O('x')}), 'an error that answers nothing')
    play(ctx, 'string-id', Msg('m', {'id': S('x'), 'method': S(V('method')), 'params': O('p')}), 'a request whose id is a string')
    play(ctx, 'odd-method', Msg('m', {'id': I('id'), 'method': O('x')}), 'a message whose method is not a string')
    play(ctx, 'odd-id', Msg('m', {'id': O('x')}), 'a message with an odd id')
    play(ctx, 'neither', Msg('m', {}), 'an object with neither id nor method')
    play(ctx, 'malformed', Msg('m', None), 'a body that is not JSON')
    play(ctx, 'header', None, 'a header without length', head='Content-Type: x\r\n\r\n')
    play(ctx, 'header', None, 'an empty header', head='\r\n\r\n')
    play(ctx, 'header', None, 'a header with an invalid length', head='Content-Length: 1x\r\n\r\n')
    n = sum(v for k, v in ctx.counts.items() if k.endswith(' paths'))
    ctx.floor('paths on which the second request is answered', n, 30)
PARTS = [requests, notifications, rest]
