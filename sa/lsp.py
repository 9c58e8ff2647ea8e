"""The language server seen from outside: bytes arrive on standard input, bytes leave on standard output.

`Server::run` is analysed as a whole on a scripted input (the chunks `read` delivers); what is replaced is
the library and the rest of brack: reading, writing, JSON (a body is an opaque value whose members are
given by the scenario), the tokenizer, parser, transformer, plugins."""
from .lib import *

RUN = 'brack_language_server::server::Server::run'
TRANSFORM_ERR = 'brack_transformer::error::TransformError'

class Msg:
    """one message body: n bytes on the wire, JSON object with the given members (None: not JSON)"""
    def __init__(self, name, fields, n=3):
        self.name = name; self.fields = fields
        self.bytes = [VN('%s_b%d' % (name, i)) for i in range(n)]
        self.v = V('msg_' + name)
    def wire(self, head=None):
        return raw_bytes(head if head is not None else 'Content-Length: %d\r\n\r\n' % len(self.bytes)) + self.bytes

def raw_bytes(s): return [Int(b) for b in s.encode()]
class I:                                  # an integer id
    def __init__(self, name): self.t = Int(name) if isinstance(name, int) else V(name)
class S:                                  # a string member
    def __init__(self, t): self.t = Str(t) if isinstance(t, str) else t
class O:                                  # some other JSON value
    def __init__(self, t): self.t = V(t)

class Null:                               # null
    def __init__(self): self.t = V('json_null')

class Wire:
    """result of running the server on a script"""
    def __init__(self, ctx, chunks, msgs, hooks=None, st=None, srv=None):
        self.ctx = ctx
        seqs = {mkseq_(m.bytes): m for m in msgs}
        byv = {m.v: m for m in msgs}
        def rd(e, st, args, call):
            k = sum(1 for x in evlist(st.ev) if x.fn == 'read')
            ch = chunks[k] if k < len(chunks) else []
            st.ev = eng.Ev(st.ev, 'read', (), Int(len(ch)), '', st.facts.copy())
            q = args[1]
            while True:
                v = e.load_cell(st, q.a[0], q.a[1])
                if v.t == 'ptr': q = v
                else: break
            e.store_cell(st, q.a[0], q.a[1], concat(Seq(*ch), sl(v, Int(len(ch)), length(v))))
            return [(st, Ok(Int(len(ch))))]
        def parsed(s, a):
            m = seqs.get(a[0])
            if m is None: return Err(ERR) if a[0].t == 'seq' and all(k == 'e' for k, x in seq_parts(a[0])) else raw('app', 'parsed', a[0])   # pieces of a message are not JSON
            return Err(ERR) if m.fields is None else Ok(m.v)
        def member(e, st, args):
            v = e.deref(st, args[0]); k = lit(e.deref(st, args[1]))
            m = byv.get(v)
            if m is None or k is None: return None
            x = m.fields.get(k)
            return (True, None) if x is None else (True, x)
        vals = {}
        def jv(m, k, x):
            t = V('json_%s_%s' % (m.name, k)); vals[t] = x; return t
        def get(e, st, args, call):
            v = e.deref(st, args[0]); k = lit(e.deref(st, args[1])); m = byv.get(v)
            if m is None or k is None: return None
            x = m.fields.get(k)
            return [(st, NONE if x is None else Some(jv(m, k, x)))]
        def index(e, st, args, call):
            v = e.deref(st, args[0]); k = lit(e.deref(st, args[1])); m = byv.get(v)
            if m is None or k is None: return None
            x = m.fields.get(k)
            return [(st, V('json_null') if x is None else jv(m, k, x))]
        def conv(cls):
            def h(e, st, args, call):
                x = vals.get(e.deref(st, args[0]))
                if x is None: return None
                return [(st, Some(x.t) if isinstance(x, cls) else NONE)]
            return h
        def number(f):                    # a literal id read as another type of number; None: not that type
            def h(e, st, args, call):
                x = vals.get(e.deref(st, args[0]))
                if x is None or isinstance(x, I) and x.t.t != 'int': return None
                r = f(x.t.a[0]) if isinstance(x, I) else None
                return [(st, NONE if r is None else Some(Int(r)))]
            return h
        def natural(e, st, args, call):
            x = vals.get(e.deref(st, args[0]))
            return number(lambda n: n if n >= 0 else None)(e, st, args, call) if isinstance(x, I) and x.t.t == 'int' else conv(())(e, st, args, call)
        def isx(cls):
            def h(e, st, args, call):
                x = vals.get(e.deref(st, args[0]))
                return None if x is None else [(st, Bool(isinstance(x, cls)))]
            return h
        def isnull(e, st, args, call):
            v = e.deref(st, args[0])
            if v is V('json_null'): return [(st, TRUE)]
            x = vals.get(v)
            return None if x is None else [(st, Bool(isinstance(x, Null)))]
        ok = lambda s, a: Ok(UNIT)
        def utf8(e, st, args, call):      # body bytes among header bytes: the framing went wrong before; no text that would be a usable header
            v = e.deref(st, args[0]); xs = [x for k, x in seq_parts(v)] if v.t == 'seq' else []
            body = [x for x in xs if any(x in m.bytes for m in msgs)]
            return [(st, Err(ERR))] if body and len(body) < len(xs) else None
        h = {'core::str::converts::from_utf8': utf8, 'serde_json::value::Value::is_null': isnull,
             'serde_json::de::from_slice': recorder('from_slice', parsed, event=False),
             'serde_json::value::Value::get': get, 'serde_json::value::Value::as_i64': conv(I), 'serde_json::value::Value::as_u64': natural, 'serde_json::value::Value::as_f64': number(lambda n: min(max(int(float(n)), -2**63), 2**63 - 1)), 'serde_json::value::Value::as_str': conv(S),
             'serde_json::value::Value::is_i64': isx(I), 'serde_json::value::Value::is_string': isx(S),
             'serde_json::value::to_value': recorder('to_value', lambda s, a: Ok(raw('app', 'val', a[0])), event=False),
             'serde_json::ser::to_string': recorder('json', lambda s, a: Ok(raw('app', 'json', a[0])), event=False),
             'serde_json::ser::to_vec': recorder('json', lambda s, a: Ok(raw('app', 'json', a[0])), event=False),
             'tokio::io::util::async_read_ext::AsyncReadExt::read': rd,
             'tokio::io::util::async_write_ext::AsyncWriteExt::write_all': recorder('write', ok),
             'tokio::io::util::async_write_ext::AsyncWriteExt::flush': recorder('flush', ok),
             'brack_tokenizer::tokenize::tokenize': recorder('tokenize', lambda s, a: raw('app', 'tokenized', a[0])),
             'brack_parser::parse::parse': recorder('parse', lambda s, a: raw('app', 'parsed', a[0])),
             'brack_transformer::transform::transform': recorder('transform', lambda s, a: Tup(V('ast'), raw('app', 'errors', a[0]))),
             'brack_plugin::plugin::Plugin::new': recorder('Plugin::new', lambda s, a: raw('app', 'plugnew', *a)),
             'brack_plugin::plugins::Plugins::new': recorder('Plugins::new', lambda s, a: raw('app', 'plugins', *a)),
             'brack_project_manager::project::Project::load_brack_toml': recorder('load_brack_toml', lambda s, a: raw('app', 'loaded', a[0])),
             'lsp_types::semantic_tokens::SemanticTokenType::new': recorder('stt', lambda s, a: raw('app', 'stt', a[0]), event=False),
             'lsp_types::semantic_tokens::SemanticTokenType::as_str': recorder('stt_str', lambda s, a: a[0].a[1] if a[0].t == 'app' and a[0].a[0] == 'stt' else raw('app', 'stt_str', a[0]), event=False)}
        h.update(hooks or {})
        e = self.e = ctx.engine(h)
        e.supply = lambda st: max(0, len(chunks) + 1 - sum(1 for x in evlist(st.ev) if x.fn == 'read'))
        f = ctx.fn(RUN); self.where = ctx.where(f)
        self.outs = outcomes(ctx, e, ctx.run(e, f, [Mut(srv if srv is not None else V('server'))], st))

def mkseq_(bs): return Seq(*bs)

# ------------------------------------------------------------------ decoding what was written
HEAD = re.compile(r'^(?:[!-9;-~]+: [^\r\n]*\r\n)*Content-Length: $')
TAIL = re.compile(r'^\r\n(?:[!-9;-~]+: [^\r\n]*\r\n)*\r\n')

def text_parts(t):
    """the bytes written as a list of literals and opaque texts; None when not understood"""
    if t.t == 'str': return list(t.a[0])
    if t.t == 'seq':
        out = []
        for k, x in t.a[0]:
            if k != 's': return None
            r = text_parts(x)
            if r is None: return None
            out += r
        return out
    if t.t in ('app', 'v', 'fld'): return [t]
    return None

class Frame:
    """one message written: body term, problem (or None), is the problem certain"""
    def __init__(self, body, problem=None, certain=True): self.body = body; self.problem = problem; self.certain = certain

def frames(ctx, e, s):
    out = []; cur = []
    for x in evlist(s.ev):
        if x.fn == 'write': cur.append(x.args[-1])
        elif x.fn == 'flush':
            if cur: out.append(frame(ctx, e, s, cur))
            cur = []
    if cur:
        f = frame(ctx, e, s, cur)
        if f.problem is None: f.problem = 'is written but not flushed'
        out.append(f)
    return out

def frame(ctx, e, s, ts):
    parts = []
    for t in ts:
        r = text_parts(t)
        if r is None: return Frame(None, 'written bytes are %s' % show(t)[:200], False)
        parts += r
    t = cat(*parts)
    ps = list(t.a[0]) if t.t == 'str' else [t]
    if not isinstance(ps[0], str): return Frame(None, 'a message starts with %s, not with a header' % show(ps[0])[:100], ps[0].t == 'app' and ps[0].a[0] in ('json', 'to_string'))
    if not HEAD.match(ps[0]): return Frame(None, 'header is %r' % ps[0][:80], True)
    if len(ps) < 3 or not isinstance(ps[2], str) or not TAIL.match(ps[2]): return Frame(None, 'header is %s' % show(t)[:120], True)
    rest = ps[2][TAIL.match(ps[2]).end():]
    body = cat(rest, *ps[3:])
    r = ctx.same(e, s, ps[1], raw('app', 'to_string', slen(body)))
    if r is True: return Frame(body)
    return Frame(body, 'Content-Length is %s, the body is %s' % (show(ps[1])[:150], show(body)[:150]), r is False)

def obj(v):
    """members of a JSON object term, or None"""
    if v.t == 'app' and v.a[0] in ('val', 'json', 'to_string') and len(v.a) == 2: return obj(v.a[1])
    if v.t == 'adt' and str(v.a[0]).endswith('Value') and len(v.a[3]) == 1: v = v.a[3][0]
    if v.t == 'hm' and v.a[1].t == 'seq':
        d = {}
        for k, x in v.a[1].a[0]:
            if k != 'e' or x.t != 'tup' or lit(x.a[0]) is None: return None
            d[lit(x.a[0])] = x.a[1]
        return d
    if v.t == 'adt' and v.a[0].split('::')[0] not in ('core', 'alloc', 'serde_json') and v.a[2] and not v.a[2][0].isdigit():
        return dict(zip(v.a[2], v.a[3]))
    return None

def jval(v):
    """the value a term is serialised to: ('null',), ('v', term)"""
    while v.t == 'app' and v.a[0] == 'val': v = v.a[1]
    if v.t == 'adt' and v.a[0] == OPT: return jval(v.a[3][0]) if v.a[1] == 1 else None
    if v.t == 'adt' and str(v.a[0]).endswith('::Value') and v.a[1] == 0: return None
    return v

def classify(body):
    """('response', id or None, 'result'|'error', payload) | ('notification', method, params) | None"""
    if body is None: return None
    d = obj(body)
    if d is None: return None
    if 'method' in d and 'id' not in d: return ('notification', lit(jval(d['method']) or EMPTY), d.get('params'))
    if 'method' not in d and 'id' in d and ('result' in d) != ('error' in d):
        k = 'result' if 'result' in d else 'error'
        return ('response', jval(d['id']), k, d[k])
    return ('odd', sorted(d))

def code_of(payload):
    d = obj(payload)
    if d is None or 'code' not in d: return None
    c = jval(d['code'])
    return c.a[0] if c is not None and c.t == 'int' else None

def panics(ctx, w, key):
    """explicit panics are certain; arithmetic ones rest on facts the scenario may not have given"""
    for p in w.e.panics:
        m = re.match(r'slice (\d+)\.\.(\d+) of \[([^\]]*)\]$', str(p.why))       # numbers and a list of known length: certain
        if m and '{' not in m.group(3) and max(int(m.group(1)), int(m.group(2))) > len(m.group(3).split(', ')): ctx.bad(key + '/panic', w.where, 'the server panics: %r' % (p,))
        elif re.search('overflow|bounds|index|div|rem', str(p.kind)): ctx.undecided(key + '/panic', repr(p)[:200])
        else: ctx.bad(key + '/panic', w.where, 'the server panics: %r' % (p,))

TOKS = ['Module', 'Ident', 'AngleBracketOpen', 'AngleBracketClose', 'CurlyBracketOpen', 'CurlyBracketClose', 'SquareBracketOpen', 'SquareBracketClose', 'Text', 'NewLine', 'WhiteSpace', 'Dot', 'BackSlash', 'Comma', 'Empty', 'EOF']

def token(ctx, kind, sl_, sc, el, ec):
    l = struct_(ctx, LOC, start=struct_(ctx, LOCD, line=sl_, character=sc), end=struct_(ctx, LOCD, line=el, character=ec))
    return enum_(ctx, TOK, kind, V('txt_' + kind), l) if kind in ('Text', 'Module', 'Ident') else enum_(ctx, TOK, kind, l)

def token_list(ctx, kinds_, st):
    """tokens in document order: two per line, symbolic positions; assumes the order in st"""
    out = []
    line = VN('line0')
    prev = None
    for i, k in enumerate(kinds_):
        if i and i % 2 == 0:
            d = VN('dl%d' % i); st.facts.add_ge(add(d, Int(-1))); line = add(line, d); prev = None
        a = VN('col%d' % i)
        if prev is not None: a = add(prev, a)
        b = add(a, VN('len%d' % i))
        out.append(token(ctx, k, line, a, line, b)); prev = b
    return out

def tokenizing(toks):
    """tokenize: either these tokens or an error"""
    def h(e, st, args, call):
        vals = tuple(e.deref(st, a) for a in args)
        r = []
        for v in (Ok(Seq(*toks)), Err(V('tokenize_error'))):
            s = st.copy(); s.ev = eng.Ev(s.ev, 'tokenize', vals, v, '', s.facts.copy()); r.append((s, v))
        return r
    return {'brack_tokenizer::tokenize::tokenize': h}
