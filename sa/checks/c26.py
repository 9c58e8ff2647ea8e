"""Framing: what arrives in which pieces does not matter, what leaves is well framed."""
from ..lsp import *
RULE = ('Server::run is analysed as a whole on scripted inputs: the bytes of the headers are concrete, those of the bodies symbolic, and read delivers them in chunks (one message per chunk, several in one, a body or header or separator split at every position, further header fields, missing or invalid lengths, bodies that are not JSON, an incomplete message at the end of input). '
        'Every path must answer exactly the complete messages, in order, each answered as its body asks, with a parse error for a body or header that cannot be used; and everything written must be framed with the byte length of its body and flushed.')
ASSUMES = ['read delivers at most 1024 bytes a time and 0 only at the end of input', 'the messages of the script are requests for a method the server does not know, each with its own id']

FREE = ('chars', 'graphemes', 'encode_utf16', 'char_indices', 'lines')

def req(n, size=3): return Msg('m%d' % n, {'jsonrpc': S('2.0'), 'id': I('id%d' % n), 'method': S('no/such')}, size)
def bad(n, size=3): return Msg('m%d' % n, None, size)

def want(msgs): return [('err', None, -32700) if m == 'header' or m.fields is None else ('err', m.fields['id'].t, -32601) for m in msgs]

def play(ctx, key, chunks, msgs, what):
    w = Wire(ctx, chunks, [m for m in msgs if m != 'header'])
    panics(ctx, w, key)
    if not w.outs and not w.e.panics: ctx.undecided(key, 'no outcome')
    for s, ok, p, _ in w.outs:
        if not ok: ctx.bad(key + '/stops', w.where, '%s: the server stops with an error' % what); continue
        fs = frames(ctx, w.e, s)
        for f in fs:
            if f.problem is None: ctx.ok('frame')
            elif f.certain: ctx.bad('frame', w.where, 'a message written: ' + f.problem)
            else: ctx.undecided('frame', f.problem)
        got = []
        for f in fs:
            c = classify(f.body)
            if c is None: ctx.undecided(key, 'message not understood: %s' % (show(f.body)[:200] if f.body is not None else f.problem)); break
            if c[0] != 'notification': got.append(c)
        else:
            exp = want(msgs)
            for i, x in enumerate(exp):
                if i >= len(got): ctx.bad(key, w.where, '%s: message %d of %d gets no answer' % (what, i + 1, len(exp))); break
                c = got[i]
                if c[0] != 'response' or c[2] != 'error' or c[1] is not x[1] or code_of(c[3]) != x[2]:
                    ctx.bad(key, w.where, '%s: answer %d is %s, must be an error %d for id %s' % (what, i + 1, tuple(show(y)[:80] if isinstance(y, T) else y for y in c), x[2], show(x[1]) if x[1] is not None else 'null')); break
            else:
                if len(got) > len(exp): ctx.bad(key, w.where, '%s: %d answers for %d messages' % (what, len(got), len(exp)))
                else: ctx.ok(key)

def whole(ctx):
    a, b, c = req(0), req(1), req(2, 12)
    play(ctx, 'one', [a.wire()], [a], 'one message')
    play(ctx, 'large', [c.wire()], [c], 'one message of 12 bytes')
    play(ctx, 'separate', [a.wire(), b.wire()], [a, b], 'two messages, one chunk each')
    play(ctx, 'together', [a.wire() + b.wire()], [a, b], 'two messages in one chunk')
    play(ctx, 'three', [a.wire() + b.wire() + c.wire()], [a, b, c], 'three messages in one chunk')
    z = Msg('m3', {'id': I('id3'), 'method': S('no/such')}, 0)

def split(ctx):
    a, b = req(0), req(1)
    w = a.wire()
    n = 0
    for i in range(1, len(w)):
        play(ctx, 'split', [w[:i], w[i:]], [a], 'a message split after byte %d' % i); n += 1
    x = a.wire() + b.wire()
    for i in range(len(w) - 2, len(x)):
        play(ctx, 'split2', [x[:i], x[i:]], [a, b], 'two messages split after byte %d' % i); n += 1
    step = 1 if ctx.tier == 'thorough' else 5
    for i in range(1, len(x) - 1, step):
        for j in range(i + 1, len(x), step): play(ctx, 'split3', [x[:i], x[i:j], x[j:]], [a, b], 'two messages split after bytes %d and %d' % (i, j)); n += 1
    play(ctx, 'bytewise', [[y] for y in x], [a, b], 'two messages, byte by byte')
    ctx.floor('splits', n, 50)

def headers(ctx):
    a, b = req(0), req(1)
    for n, h in (('before', 'Content-Type: x; charset=utf-8\r\nContent-Length: 3\r\n\r\n'), ('after', 'Content-Length: 3\r\nContent-Type: x\r\n\r\n'), ('around', 'A: 1\r\nContent-Length: 3\r\nB: 77\r\n\r\n'),
                 ('whose name ends so after', 'Content-Length: 3\r\nX-Content-Length: 77\r\n\r\n'), ('whose name begins so after', 'Content-Length: 3\r\nContent-Length-Hint: 2\r\n\r\n'), ('whose name is shorter after', 'Content-Length: 3\r\nContent: 2\r\nLength: 1\r\n\r\n'),
                 ('whose name ends so before', 'X-Content-Length: 77\r\nContent-Length: 3\r\n\r\n'), ('whose value looks like that of', 'X: Content-Length: 9\r\nContent-Length: 3\r\nY: Content-Length: 1\r\n\r\n')):
        play(ctx, 'fields', [a.wire(h) + b.wire(h)], [a, b], 'another header field %s Content-Length' % n)
    for n, h in (('no length', 'Content-Type: x\r\n\r\n'), ('a length that is no number', 'Content-Length: x\r\n\r\n'), ('a negative length', 'Content-Length: -1\r\n\r\n'), ('nothing in it', '\r\n\r\n'), ('an empty length', 'Content-Length: \r\n\r\n'), ('no separator', 'Content-Length\r\n\r\n'), ('a length beyond all numbers', 'Content-Length: 99999999999999999999999\r\n\r\n'), ('an unknown field', 'X\r\n\r\n')):
        play(ctx, 'nolength', [raw_bytes(h) + a.wire()], ['header', a], 'a header with %s before a message' % n)
        play(ctx, 'nolength', [raw_bytes(h), a.wire()], ['header', a], 'a header with %s before a message' % n)

def broken(ctx):
    a, x, b = req(0), bad(1), req(2)
    play(ctx, 'malformed', [x.wire()], [x], 'a body that is not JSON')
    play(ctx, 'malformed', [a.wire() + x.wire() + b.wire()], [a, x, b], 'a body that is not JSON between two messages')
    play(ctx, 'malformed', [a.wire(), x.wire(), b.wire()], [a, x, b], 'a body that is not JSON between two messages')
    w = b.wire()
    for i in range(0, len(w)): play(ctx, 'incomplete', [a.wire() + w[:i]], [a], 'input ends %d bytes into the second message' % i)

PARTS = [whole, split, headers, broken]
