"""Requests are answered exactly once, under their own id; nothing else is answered."""
from ..lsp import *
RULE = ('Server::run is analysed on one message with an integer id and a method that is arbitrary text (every method the server compares it with is a separate path), on requests with literal ids up to the ends of the integer range, on messages without a method or without an id, and on objects with neither. '
        'On every path - whatever the handler, the tokenizer, the plugins or the deserialisation of the parameters do - a request gets exactly one response, with its id and either a result or an error; notifications and responses get none, and an object that is neither gets an error -32600 without id. '
        'The serialiser of every response type is analysed as well: it writes the members jsonrpc = "2.0", id and result, unchanged.')
ASSUMES = ['standard output accepts what is written']
FREE = ('tokenized', 'parsed', 'errors', 'plugnew', 'plugins', 'loaded')

def script(ctx, m):
    st = State()
    return Wire(ctx, [m.wire()], [m], hooks=tokenizing(token_list(ctx, ['Module', 'Ident', 'Text'], st)), st=st)

def answers(ctx, key, w, m, what, count):
    """count: how many responses every path must write"""
    panics(ctx, w, key)
    n = 0
    if not w.outs and not w.e.panics: ctx.undecided(key, 'no outcome')
    for s, ok, p, _ in w.outs:
        n += 1
        if not ok: ctx.bad(key + '/stops', w.where, '%s: the server stops with an error' % what); continue
        fr = frames(ctx, w.e, s); fs = [classify(f.body) for f in fr]
        for f in fr:
            d = obj(f.body) if f.body is not None else None
            if d is None: continue
            v = jval(d['jsonrpc']) if 'jsonrpc' in d else None; v = lit(v) if v is not None else None
            if 'jsonrpc' in d and v is None: ctx.undecided('version', show(d['jsonrpc'])[:80])
            elif v != '2.0': ctx.bad('version', w.where, 'a message is written with %s' % ('jsonrpc = %r' % v if v is not None else 'no jsonrpc member'))
            else: ctx.ok('version')
        if any(c is None for c in fs): ctx.undecided(key, 'a message written is not understood'); continue
        odd = [c for c in fs if c[0] == 'odd']
        if odd: ctx.bad(key + '/shape', w.where, '%s: writes a message with members %s' % (what, odd[0][1])); continue
        rs = [c for c in fs if c[0] == 'response']
        if len(rs) != count:
            on = [show(k)[:60] + '=' + show(v)[:60] for k, v in s.facts.eq.items() if 'method' in show(k)]
            ctx.bad(key, w.where, '%s: %d responses, must be %d %s' % (what, len(rs), count, ' '.join(on))); continue
        for c in rs: yield s, c
    ctx.floor('paths of ' + key, n, 1)

def requests(ctx):
    mv = V('method')
    seen = set(); total = 0
    for extra in ({}, {'params': O('p')}):
        m = Msg('m', {'jsonrpc': S('2.0'), 'id': I('id'), 'method': S(mv), **extra})
        w = script(ctx, m)
        for s, c in answers(ctx, 'request', w, m, 'a request', 1):
            total += 1; seen.add(c[2])
            if c[1] is None: ctx.bad('request/id', w.where, 'a request is answered without its id'); continue
            ctx.expect(w.e, s, 'request/id', w.where, c[1], V('id'), 'id of the response')
            if c[2] == 'error':
                if code_of(c[3]) is None: ctx.undecided('request/code', 'error without a numeric code')
                else: ctx.ok('request/code')
    ctx.floor('answered paths', total, 8)
    # a method the server cannot know
    m = Msg('m', {'id': I('id'), 'method': S('no/such')})
    w = script(ctx, m)
    for s, c in answers(ctx, 'unknown', w, m, 'a request for an unknown method', 1):
        if c[2] != 'error' or code_of(c[3]) != -32601: ctx.bad('unknown/code', w.where, 'a request for an unknown method is answered with %s' % show(c[3])[:150])
        else: ctx.ok('unknown/code')

def others(ctx):
    m = Msg('m', {'method': S(V('method')), 'params': O('p')})
    w = script(ctx, m)
    for _ in answers(ctx, 'notification', w, m, 'a notification', 0): pass
    for extra in ({'result': O('r')}, {'error': O('r')}):
        m = Msg('m', {'id': I('id'), **extra})
        w = script(ctx, m)
        for _ in answers(ctx, 'response', w, m, 'a response', 0): pass
    for f in ({}, {'params': O('p')}, {'jsonrpc': S('2.0')}):
        m = Msg('m', f)
        w = script(ctx, m)
        for s, c in answers(ctx, 'invalid', w, m, 'an object with neither id nor method', 1):
            if c[1] is not None or c[2] != 'error' or code_of(c[3]) != -32600: ctx.bad('invalid/code', w.where, 'an object with neither id nor method is answered with %s, id %s' % (show(c[3])[:100], show(c[1])[:40] if c[1] is not None else 'null'))
            else: ctx.ok('invalid/code')

def ids(ctx):
    vs = [0, 1, -1, 2**31, -2**31 - 1, 2**53 + 1, -2**53 - 1, 2**63 - 1, -2**63]
    for v in vs:
        for mv in ('no/such', 'initialize'):
            m = Msg('m', {'jsonrpc': S('2.0'), 'id': I(v), 'method': S(mv), 'params': O('p')})
            w = script(ctx, m)
            for s, c in answers(ctx, 'ids', w, m, 'a request with id %d' % v, 1):
                if c[1] is None: ctx.bad('ids/id', w.where, 'a request with id %d is answered without its id' % v)
                else: ctx.expect(w.e, s, 'ids/id', w.where, c[1], Int(v), 'id of the response to request %d' % v)
    ctx.floor('literal ids', len(vs), 5)

def shape(ctx):
    n = 0
    for k, f in ctx.prog.fns.items():
        if not k.startswith('brack_language_server') or not k.endswith('::serialize') or f.argc != 2: continue
        t = argtypes(f)[0].lstrip('&')
        p = re.sub(r'<.*', '', t)
        adt = next((a for a in ctx.prog.adts if a == 'brack_language_server::' + p or a == p), None)
        if adt is None: ctx.undecided('shape', 'serialiser of ' + t); continue
        names = [x[0] for x in ctx.prog.adts[adt][1]['variants'][0]['fields']]
        if 'result' not in names: continue
        n += 1
        rec = []
        def field(e, st, args, call):
            vals = [e.deref(st, a) for a in args]
            st.ev = eng.Ev(st.ev, 'field', tuple(vals[-2:]), UNIT, '', None)
            return [(st, Ok(UNIT))]
        h = {'serde::ser::Serializer::serialize_struct': recorder('ss', Ok(V('ser')), event=False), 'serde::ser::SerializeStruct::serialize_field': field, 'serde::ser::SerializeStruct::end': recorder('end', Ok(V('done')), event=False)}
        h['serde::ser::Serializer::serialize_map'] = h['serde::ser::Serializer::serialize_struct']
        h['serde::ser::SerializeMap::serialize_entry'] = field; h['serde::ser::SerializeMap::end'] = h['serde::ser::SerializeStruct::end']
        e = ctx.engine(h)
        v = Adt(adt, 0, names, [V('f_' + x) for x in names])
        w = ctx.where(f)
        for s, ok, p, _ in outcomes(ctx, e, ctx.run(e, f, [v, V('serializer')])):
            if not ok: ctx.bad('shape/refused', w, 'a response cannot be serialised'); continue
            got = {lit(x.args[0]): x.args[1] for x in evlist(s.ev) if x.fn == 'field'}
            if set(got) != {'jsonrpc', 'id', 'result'}: ctx.bad('shape/members', w, 'a response is written with members %s' % sorted(map(str, got))); continue
            for x in ('id', 'result'): ctx.expect(e, s, 'shape/' + x, w, got[x], V('f_' + x), 'member %s of a response' % x)
    ctx.counts['serialisers of responses'] = n
PARTS = [requests, others, ids, shape]
