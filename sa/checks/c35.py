"""JSON forms of tokens, trees, locations and what is exchanged with plugins: every part under its own name, and back."""
from ..lib import *
from .c21 import by_type, optional, ERR
RULE = ('The serialisers of the token, tree, location, plugin value, command type and command metadata types are analysed on every variant with symbolic contents (empty and present options and lists) against a recording serializer: '
        'each must write exactly the name of its variant and each field under its own name. The recorded form is fed to the analysed readers (visit_str, visit_enum, visit_map), fields in written and reversed order and each left out in turn: '
        'they must give the same value back, and refuse a form that lacks a field that is not optional.')
ASSUMES = ['serde_json writes the names and values it is given and hands them back', 'the forms of strings, numbers, lists, options and boxes are those of serde']
TYPES = ['brack_tokenizer::tokens::Token', 'brack_tokenizer::tokens::Location', 'brack_tokenizer::tokens::LocationData', 'brack_parser::cst::CST', 'brack_parser::cst::InnerNode', 'brack_parser::cst::LeafNode',
         'brack_transformer::ast::AST', 'brack_transformer::ast::InnerNode', 'brack_transformer::ast::LeafNode', 'brack_plugin::value::Value', 'brack_plugin::types::Type', 'brack_plugin::metadata::Metadata']

def written(ctx, path, value):
    """[(variant name or None, [(key, value)])] of each way to write the value"""
    f = by_type(ctx, 'serialize', path, path.split('::')[0]); h = {}; S_ = 'serde::ser::Serializer::'
    def ev(n, pick):
        def hook(e, st, args, call):
            vals = [e.deref(st, a) for a in args]
            st.ev = eng.Ev(st.ev, n, tuple(pick(vals)), UNIT, '', None); return [(st, Ok(V('ser')))]
        return hook
    h[S_ + 'serialize_struct'] = recorder('struct', Ok(V('ser')), event=False); h[S_ + 'serialize_map'] = recorder('map', Ok(V('ser')), event=False)
    h[S_ + 'serialize_unit_variant'] = ev('variant', lambda v: [v[3]]); h[S_ + 'serialize_newtype_variant'] = ev('variant', lambda v: [v[3], v[4]])
    h[S_ + 'serialize_struct_variant'] = h[S_ + 'serialize_tuple_variant'] = ev('shaped', lambda v: [v[3]])
    for n in ('serialize_str', 'serialize_newtype_struct', 'serialize_unit', 'serialize_seq', 'serialize_tuple', 'serialize_none', 'serialize_some', 'serialize_i64', 'serialize_u64', 'serialize_bool'): h[S_ + n] = ev('plain', lambda v: v[1:2])
    for n in ('SerializeStruct::serialize_field', 'SerializeMap::serialize_entry', 'SerializeStructVariant::serialize_field'): h['serde::ser::' + n] = ev('field', lambda v: v[1:3])
    for n in ('SerializeStruct', 'SerializeMap', 'SerializeStructVariant', 'SerializeTupleVariant'): h['serde::ser::%s::end' % n] = recorder('end', Ok(V('done')), event=False)
    h['serde::ser::SerializeTupleVariant::serialize_field'] = ev('element', lambda v: v[1:2])
    h['serde::ser::SerializeStruct::skip_field'] = recorder('skip', Ok(UNIT), event=False)
    e = ctx.engine(h); outs = ctx.run(e, f, [value, V('serializer')]); w = ctx.where(f); r = []
    if e.panics: ctx.bad('write/panic', w, repr(e.panics[0]))
    for s, ok, p, _ in outcomes(ctx, e, outs):
        evs = [x for x in evlist(s.ev) if x.fn in ('variant', 'shaped', 'plain', 'field', 'element')]
        r.append((ok, s, evs))
    return r, e, w

def keyfn(ctx, f):
    vs = [g for k, g in ctx.prog.fns.items() if k.endswith('::visit_str') and k.rsplit('::', 2)[0] == f.key.rsplit('::', 2)[0]]
    return vs[0] if len(vs) == 1 else None

def key_term(ctx, f, name):
    """the field or variant number the reader turns a name into; None when it refuses it"""
    vs = keyfn(ctx, f)
    if vs is None: return Str(name)
    e = ctx.engine({'serde::de::Error::unknown_variant': recorder('unknown', ERR, event=False), 'serde::de::Error::unknown_field': recorder('unknown', ERR, event=False)})
    o = outcomes(ctx, e, ctx.run(e, vs, [UNIT, Str(name)]))
    if len(o) != 1: raise Undecided('reading the name ' + name)
    return o[0][2] if o[0][1] else None

def read_struct(ctx, path, pairs):
    f = by_type(ctx, 'visit_map', path, path.split('::')[0]); terms = [key_term(ctx, f, k) for k, _ in pairs]
    if None in terms: return None, None, ctx.where(f)
    def count(st): return sum(1 for x in evlist(st.ev) if x.fn == 'next_key')
    def nk(e, st, a, call):
        n = count(st); st.ev = eng.Ev(st.ev, 'next_key', (Int(n),), UNIT, '', None)
        return [(st, Ok(Some(terms[n]) if n < len(pairs) else NONE))]
    def nv(e, st, a, call): return [(st, Ok(pairs[count(st) - 1][1]))]
    def ne(e, st, a, call):
        n = count(st); st.ev = eng.Ev(st.ev, 'next_key', (Int(n),), UNIT, '', None)
        return [(st, Ok(Some(Tup(terms[n], pairs[n][1])) if n < len(pairs) else NONE))]
    def mf(e, st, a, call): return [(st, Ok(NONE) if optional(e, call) else Err(ERR))]
    e = ctx.engine({'serde::de::MapAccess::next_key': nk, 'serde::de::MapAccess::next_value': nv, 'serde::de::MapAccess::next_entry': ne, 'serde::__private::de::missing_field': mf, 'serde_core::private::de::missing_field': mf, 'serde::de::Error::missing_field': recorder('missing', ERR, event=False), 'serde::de::Error::duplicate_field': recorder('dup', ERR, event=False)})
    outs = ctx.run(e, f, [UNIT, V('map')])
    if e.panics: ctx.bad('read/panic', ctx.where(f), repr(e.panics[0]))
    return e, outcomes(ctx, e, outs), ctx.where(f)

def read_enum(ctx, path, name, payload):
    f = by_type(ctx, 'visit_enum', path, path.split('::')[0]); t = key_term(ctx, f, name)
    if t is None: return None, None, ctx.where(f)
    h = {'serde::de::EnumAccess::variant': recorder('variant', Ok(Tup(t, V('access'))), event=False), 'serde::de::VariantAccess::unit_variant': recorder('unit', Ok(UNIT) if payload is None else Err(ERR), event=False),
         'serde::de::VariantAccess::newtype_variant': recorder('newtype', Ok(payload) if payload is not None else Err(ERR), event=False)}
    e = ctx.engine(h); outs = ctx.run(e, f, [UNIT, V('data')])
    if e.panics: ctx.bad('read/panic', ctx.where(f), repr(e.panics[0]))
    return e, outcomes(ctx, e, outs), ctx.where(f)

def rets(ctx, key, e, outs, w, value, what):
    if outs is None: ctx.bad(key + '/refused', w, '%s: what is written is not read back' % what); return
    if not outs: ctx.undecided(key, 'no outcome')
    for s, ok, p, _ in outs:
        if not ok: ctx.bad(key + '/refused', w, '%s: what is written is refused when read' % what)
        else: ctx.expect(e, s, key + '/roundtrip', w, p, value, what + ' read back')

def several(ctx, path, vi, v, key, short):
    """a variant of several parts: a list under its name, and read part by part in the same order"""
    parts = [V('part%d' % i) for i in range(len(v['fields']))]; what = '%s::%s' % (short, v['name']); val = Adt(path, vi, [x[0] for x in v['fields']], parts)
    ws, e, w = written(ctx, path, val)
    if not ws: ctx.undecided(key, 'no outcome')
    for ok, s, evs in ws:
        if not ok: ctx.bad(key + '/refused', w, what + ' cannot be written'); continue
        if not evs or evs[0].fn != 'shaped' or any(x.fn != 'element' for x in evs[1:]): ctx.undecided(key, '%s is written by %s' % (what, [x.fn for x in evs])); continue
        n = lit(evs[0].args[0])
        if n is None: ctx.undecided(key, what + ' is written as ' + show(evs[0].args[0])[:80]); continue
        if n != v['name']: ctx.bad(key + '/name', w, '%s is written as %r' % (what, n)); continue
        if len(evs) - 1 != len(parts): ctx.bad(key + '/form', w, '%s is written with %d of %d parts' % (what, len(evs) - 1, len(parts))); continue
        for x, q in zip(evs[1:], parts): ctx.expect(e, s, key + '/content', w, x.args[0], q, 'content of ' + what)
        ctx.ok(key + '/name')
    f = by_type(ctx, 'visit_enum', path, path.split('::')[0])
    def tv(e, st, a, call):
        vs = [g for k, g in e.prog.fns.items() if k.startswith(f.key.rsplit('::', 2)[0] + '::visit_enum::') or (k.startswith(f.key) and k != f.key)]
        vs = [g for g in vs if g.key.endswith('::visit_seq')]
        t = e.deref(st, a[-1])
        hit = [g for g in vs if argtypes(g) and t.t == 'adt' and str(t.a[0]).split('::')[-1].split('<')[0] in argtypes(g)[0]]
        if len(hit) != 1: hit = [vs[sorted(i for i, q in enumerate(ctx.prog.adts[path][1]['variants']) if len(q['fields']) > 1).index(vi)]] if len(vs) == sum(len(q['fields']) > 1 for q in ctx.prog.adts[path][1]['variants']) else []
        if len(hit) != 1: return None
        return e.call_fn(hit[0], [UNIT, V('seq')], st, {})
    def ne(e, st, a, call):
        n = sum(1 for x in evlist(st.ev) if x.fn == 'next'); st.ev = eng.Ev(st.ev, 'next', (Int(n),), UNIT, '', None)
        return [(st, Ok(Some(parts[n]) if n < len(parts) else NONE))]
    t = key_term(ctx, f, v['name'])
    if t is None: ctx.bad(key + '/refused', ctx.where(f), '%s: what is written is not read back' % what); return
    e = ctx.engine({'serde::de::EnumAccess::variant': recorder('variant', Ok(Tup(t, V('access'))), event=False), 'serde::de::VariantAccess::tuple_variant': tv, 'serde::de::SeqAccess::next_element': ne})
    outs = ctx.run(e, f, [UNIT, V('data')])
    if e.panics: ctx.bad('read/panic', ctx.where(f), repr(e.panics[0]))
    rets(ctx, key, e, outcomes(ctx, e, outs), ctx.where(f), val, what)

def one(ctx, path):
    c, a = ctx.prog.adts[path]; short = path.split('::')[-1]; key = path.split('::')[0].replace('brack_', '') + '.' + short
    if a.get('kind', '') == 'enum' or len(a['variants']) > 1:
        for vi, v in enumerate(a['variants']):
            nf = len(v['fields'])
            if nf and not v['fields'][0][0].isdigit(): ctx.undecided(key, 'variant %s has named parts' % v['name']); continue
            if nf > 1: several(ctx, path, vi, v, key, short); continue
            val = Adt(path, vi, [x[0] for x in v['fields']], [V('content')] * nf)
            ws, e, w = written(ctx, path, val)
            if not ws: ctx.undecided(key, 'no outcome')
            for ok, s, evs in ws:
                what = '%s::%s' % (short, v['name'])
                if not ok: ctx.bad(key + '/refused', w, what + ' cannot be written'); continue
                if len(evs) != 1 or evs[0].fn != 'variant':
                    (ctx.bad if evs and all(x.fn in ('plain', 'field', 'shaped', 'element') for x in evs) else lambda k, w_, m_: ctx.undecided(k, m_))(key + '/form', w, '%s is not written as a variant under its name' % what); continue
                n = lit(evs[0].args[0])
                if n is None: ctx.undecided(key, what + ' is written as ' + show(evs[0].args[0])[:80]); continue
                if n != v['name']: ctx.bad(key + '/name', w, '%s is written as %r' % (what, n)); continue
                if len(evs[0].args) - 1 != nf: ctx.bad(key + '/form', w, '%s is written with%s content' % (what, '' if len(evs[0].args) > 1 else 'out')); continue
                if nf: ctx.expect(e, s, key + '/content', w, evs[0].args[1], V('content'), 'content of ' + what)
                ctx.ok(key + '/name')
            e2, outs, w2 = read_enum(ctx, path, v['name'], V('content') if nf else None)
            rets(ctx, key, e2, outs, w2, val, '%s::%s' % (short, v['name']))
        return
    fs = a['variants'][0]['fields']; names = [x[0] for x in fs]
    tys = [type_of(ctx, path, x[1]) for x in fs]
    for mode in ('plain', 'empty'):
        def val_(n, t):
            if t.startswith('core::option::Option'): return NONE if mode == 'empty' else Some(V(n))
            if mode == 'empty' and t.startswith('alloc::vec::Vec'): return NIL
            if mode == 'empty' and t.startswith('alloc::string::String'): return EMPTY
            if t == 'usize': return Int(0) if mode == 'empty' else VN(n)
            return V(n)
        vals = [val_(n, t) for n, t in zip(names, tys)]; val = Adt(path, 0, names, vals)
        ws, e, w = written(ctx, path, val)
        if not ws: ctx.undecided(key, 'no outcome')
        for ok, s, evs in ws:
            if not ok: ctx.bad(key + '/refused', w, short + ' cannot be written'); continue
            ks = [lit(x.args[0]) if x.fn == 'field' else None for x in evs]
            if None in ks: ctx.undecided(key, '%s is written by %s' % (short, [x.fn for x in evs])); continue
            if sorted(ks) != sorted(names): ctx.bad(key + '/keys', w, '%s%s is written with the fields %s, must be %s' % (short, ' with nothing in it' if mode == 'empty' else '', sorted(ks), sorted(names))); continue
            ctx.ok(key + '/keys')
            for x in evs: ctx.expect(e, s, key + '/' + lit(x.args[0]), w, x.args[1], vals[names.index(lit(x.args[0]))], 'field %s of %s' % (lit(x.args[0]), short))
        pairs = [(Str(n), v) for n, v in zip(names, vals)]
        for order in (pairs, pairs[::-1]):
            e2, outs, w2 = read_struct(ctx, path, [(lit(k), v) for k, v in order])
            rets(ctx, key, e2, outs, w2, val, short)
        if mode == 'plain':
            for i, (n, t) in enumerate(zip(names, tys)):
                e2, outs, w2 = read_struct(ctx, path, [(m, v) for m, v in zip(names, vals) if m != n])
                for s, ok, p, _ in outs or []:
                    if t.startswith('core::option::Option'): ctx.ok(key + '/optional') if not ok else ctx.expect(e2, s, key + '/optional', w2, p, Adt(path, 0, names, [NONE if m == n else v for m, v in zip(names, vals)]), '%s without %s' % (short, n))
                    elif ok: ctx.bad(key + '/missing', w2, '%s without %s is accepted' % (short, n))
                    else: ctx.ok(key + '/missing')

def type_of(ctx, path, ty):
    c = ctx.prog.adts[path][0]
    cr = ctx.prog.crates.get(c) if isinstance(c, str) else c
    t = cr.types[ty] if isinstance(ty, int) else ty
    return t if isinstance(t, str) else (t.get('adt') or t.get('s') or t.get('k') or str(t)) if isinstance(t, dict) else str(t)

def forms(ctx):
    ctx.pmap(one, TYPES); ctx.floor('types', len(TYPES), 12)
PARTS = [forms]
