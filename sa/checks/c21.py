"""Brack.toml: what is written is what is read, and malformed declarations are refused."""
from ..lib import *
RULE = ('The serialisers of PluginSchema, Document and Config are analysed on symbolic values (each hook flag present or absent) against a recording serializer; the recorded key/value lists, in written and reversed order, are then fed to the analysed visit_map of the reader, '
        'which must rebuild the same value. Lists with a key missing, duplicated or unknown, an unknown schema, or a failing key or value must be refused.')
ASSUMES = ['toml calls visit_map with the keys of the table, and writes the fields it is given']
PM = 'brack_project_manager::'
PS = PM + 'plugin::PluginSchema'; CFG = PM + 'config::Config'; DOC = PM + 'document::Document'
KEYS = ['schema', 'owner', 'repo', 'version', 'expr_hook', 'stmt_hook', 'document_hook', 'text_hook']
REQ = KEYS[:4]

def by_type(ctx, meth, path, crate='brack_project_manager'):
    """the method `meth` whose first argument (serialize) or result (visit_*) is of the type"""
    short_ = path.split('::', 1)[1]
    out = []
    for k, f in ctx.prog.fns.items():
        if not k.startswith(crate) or not k.endswith('::' + meth): continue
        if meth == 'serialize': hit = argtypes(f) and argtypes(f)[0].lstrip('&') in (short_, path)
        else: hit = rettype(f).startswith('core::result::Result<' + short_ + ',')
        if hit: out.append(f)
    if len(out) != 1: raise Undecided('%s for %s: %d candidates' % (meth, path, len(out)))
    return out[0]

def written(ctx, path, value):
    """[(state, [(key, value)])] of every successful serialisation"""
    f = by_type(ctx, 'serialize', path)
    ok = lambda s, a: Ok(V('ser'))
    h = {}
    for n in ('serialize_struct', 'serialize_map', 'serialize_struct_variant'): h['serde::ser::Serializer::' + n] = recorder(n, ok, event=False)
    def field(e, st, args, call):
        vals = [e.deref(st, a) for a in args]
        v = vals[-1]                  # an option is written as its content, and not at all when it has none
        if v.t == 'adt' and v.a[0].endswith('option::Option'):
            if v.a[1] == 0: return [(st, Ok(UNIT))]
            v = e.deref(st, v.a[3][0])
        st.ev = eng.Ev(st.ev, 'field', (vals[-2], v), UNIT, '', None)
        return [(st, Ok(UNIT))]
    for n in ('SerializeStruct::serialize_field', 'SerializeMap::serialize_entry'): h['serde::ser::' + n] = field
    h['serde::ser::SerializeStruct::end'] = h['serde::ser::SerializeMap::end'] = recorder('end', Ok(V('done')), event=False)
    h['serde::ser::SerializeStruct::skip_field'] = recorder('skip', Ok(UNIT), event=False)
    e = ctx.engine(h)
    outs = ctx.run(e, f, [value, V('serializer')])
    w = ctx.where(f)
    if e.panics: ctx.bad('write/panic', w, repr(e.panics[0]))
    r = []
    for s, o, p, _ in outcomes(ctx, e, outs):
        if not o: ctx.bad('write/refused', w, 'a value cannot be written'); continue
        r.append((s, [x.args for x in evlist(s.ev) if x.fn == 'field']))
    return r, w

def optional(e, call):
    """is the result of this call a Result of an Option?"""
    fr = call['fr']; c, t = e.subst_ty(fr['fn'].crate, call['destty'], fr.get('env')); d = c.types[t]
    if d['k'] != 'adt' or not d.get('args'): return False
    c, t = e.subst_ty(c, d['args'][0], fr.get('env')); return c.types[t].get('adt', '').endswith('option::Option')

def read(ctx, path, pairs, fail=None):
    """run the reader on the key/value list; fail: ('key'|'value', n) makes that call fail"""
    f = by_type(ctx, 'visit_map', path)
    vs = None
    fieldty = None
    for k, g in ctx.prog.fns.items():       # derived readers first turn the key into a field number
        if k.endswith('::visit_str') and k.rsplit('::', 2)[0] == f.key.rsplit('::', 2)[0]: vs = g
    def count(st): return sum(1 for x in evlist(st.ev) if x.fn == 'next_key')
    def key_term(lit_):
        if vs is None: return Str(lit_)
        e2 = ctx.engine()
        o = [p for _, ok, p, _ in outcomes(ctx, e2, ctx.run(e2, vs, [UNIT, Str(lit_)])) if ok]
        if len(o) != 1: raise Undecided('field of key ' + lit_)
        return o[0]
    terms = [key_term(k) for k, _ in pairs]
    def nk(e, st, a, call):
        n = count(st)
        st.ev = eng.Ev(st.ev, 'next_key', (Int(n),), UNIT, '', None)
        if fail == ('key', n): return [(st, Err(ERR))]
        return [(st, Ok(Some(terms[n]) if n < len(pairs) else NONE))]
    def nv(e, st, a, call):
        n = count(st)
        if fail == ('value', n - 1): return [(st, Err(ERR))]
        v = pairs[n - 1][1]
        return [(st, Ok(Some(v) if optional(e, call) else v))]
    def ne(e, st, a, call):
        n = count(st)
        st.ev = eng.Ev(st.ev, 'next_key', (Int(n),), UNIT, '', None)
        if fail in (('key', n), ('value', n)): return [(st, Err(ERR))]
        return [(st, Ok(Some(Tup(terms[n], pairs[n][1])) if n < len(pairs) else NONE))]
    def mf(e, st, a, call): return [(st, Ok(NONE) if optional(e, call) else Err(ERR))]       # an optional field may be missing
    e = ctx.engine({'serde::de::MapAccess::next_key': nk, 'serde::de::MapAccess::next_value': nv, 'serde::de::MapAccess::next_entry': ne,
                    'serde::__private::de::missing_field': mf, 'serde_core::private::de::missing_field': mf})
    outs = ctx.run(e, f, [UNIT, V('map')])
    if e.panics: ctx.bad('read/panic', ctx.where(f), repr(e.panics[0]))
    return e, outcomes(ctx, e, outs), ctx.where(f)

def schema(ctx, have):
    vi = kinds(ctx, PS)['GitHub']
    names = [f[0] for f in ctx.prog.adts[PS][1]['variants'][vi]['fields']]
    return Adt(PS, vi, names, [(Some(V(n)) if have.get(n) else NONE) if n.endswith('_hook') else V(n) for n in names])

def plugin_roundtrip(ctx):
    n = 0
    for m in range(16):
        have = {h: bool(m >> i & 1) for i, h in enumerate(KEYS[4:])}
        val = schema(ctx, have)
        ws, w = written(ctx, PS, val)
        for s, prs in ws:
            ks = [lit(k) for k, _ in prs]
            if None in ks: ctx.undecided('write/keys', str(ks)); continue
            want = REQ + [k for k in KEYS[4:] if have[k]]
            if sorted(ks) != sorted(want): ctx.bad('write/keys', w, 'writes the keys %s, must write %s' % (sorted(ks), sorted(want))); continue
            ctx.ok('write/keys')
            for order in (prs, prs[::-1]):
                n += 1
                e, outs, rw = read(ctx, PS, [(lit(k), v) for k, v in order])
                for s2, ok, p, _ in outs:
                    if not ok: ctx.bad('roundtrip/refused', rw, 'refuses the keys %s as they are written' % [lit(k) for k, _ in order]); continue
                    ctx.expect(e, s2, 'roundtrip', rw, p, val, 'declaration read back')
    ctx.floor('round trips', n, 16)

def base(): return [('schema', Str('github')), ('owner', V('owner')), ('repo', V('repo')), ('version', V('version'))]
def full(): return base() + [(h, V(h)) for h in KEYS[4:]]

def must_fail(ctx, key, pairs, why, fail=None):
    e, outs, w = read(ctx, PS, pairs, fail)
    for s, ok, p, _ in outs:
        if ok: ctx.bad(key, w, 'accepts a declaration with ' + why)
        else: ctx.ok(key)

def refusals(ctx):
    n = 0
    for src in (base(), full()):
        for i, (k, v) in enumerate(src):
            if k in REQ: must_fail(ctx, 'missing/' + k, src[:i] + src[i + 1:], 'no ' + k); n += 1
            for at_ in (i + 1, len(src)):
                d = list(src); d.insert(at_, (k, V('again') if k != 'schema' else Str('github'))); must_fail(ctx, 'duplicate/' + k, d, 'two %s keys' % k); n += 1
            must_fail(ctx, 'value-error/' + k, src, 'an ill-typed ' + k, ('value', i))
            must_fail(ctx, 'key-error', src, 'an unreadable key', ('key', i))
        for unk in ('unknown', 'Owner', 'repository', 'exprhook', 'expr-hook', ''):
            for at_ in (0, len(src)):
                d = list(src); d.insert(at_, (unk, V('x'))); must_fail(ctx, 'unknown', d, 'the unknown key %r' % unk); n += 1
        for sc in ('gitlab', 'GitHub', '', 'github '):
            must_fail(ctx, 'schema', [('schema', Str(sc))] + src[1:], 'the schema %r' % sc); n += 1
    ctx.floor('malformed declarations', n, 40)

def tables(ctx):
    for path, val in ((DOC, struct_(ctx, DOC, name=V('name'), version=V('version'), backend=V('backend'), authors=V('authors'))),
                      (CFG, struct_(ctx, CFG, document=V('document'), plugins=Some(V('plugins')))), (CFG, struct_(ctx, CFG, document=V('document'), plugins=NONE))):
        tag = path.split('::')[-1]
        ws, w = written(ctx, path, val)
        for s, prs in ws:
            ks = [lit(k) for k, _ in prs]
            want = {DOC: ['authors', 'backend', 'name', 'version'], CFG: ['document', 'plugins']}[path]
            if None in ks: ctx.undecided(tag + '/keys', str(ks)); continue
            if not set(ks) <= set(want): ctx.bad(tag + '/keys', w, 'writes the keys %s, must write %s' % (sorted(ks), want)); continue
            for order in (prs, prs[::-1]):
                e, outs, rw = read(ctx, path, [(lit(k), v) for k, v in order])
                for s2, ok, p, _ in outs:
                    if not ok: ctx.bad(tag + '/refused', rw, 'refuses what it writes'); continue
                    ctx.expect(e, s2, tag + '/roundtrip', rw, p, val, '%s read back' % tag)

def missing(ctx):
    """every field of the document table, and the table itself, has to be there; none may be there twice"""
    n = 0
    for path, fields in ((DOC, ('name', 'version', 'backend', 'authors')), (CFG, ('document',))):
        tag = path.split('::')[-1]; src = [(k, V(k)) for k in fields]
        for i, (k, v) in enumerate(src):
            for why, pairs in (('no ' + k, src[:i] + src[i + 1:]), ('two %s keys' % k, src + [(k, V('again'))])):
                n += 1
                e, outs, w = read(ctx, path, pairs)
                for s, ok, p, _ in outs:
                    if ok: ctx.bad('%s/%s' % (tag, why.replace(' ', '-')), w, 'accepts a %s with %s: %s' % (tag, why, show(p)[:200]))
                    else: ctx.ok('%s/%s' % (tag, why.replace(' ', '-')))
                if not outs and not e.panics: ctx.undecided(tag + '/' + why, 'no outcome')
            for fail in (('value', i), ('key', i)):
                e, outs, w = read(ctx, path, src, fail)
                for s, ok, p, _ in outs:
                    if ok: ctx.bad('%s/ill-typed/%s' % (tag, k), w, 'accepts a %s with an ill-typed %s' % (tag, k))
                    else: ctx.ok('%s/ill-typed/%s' % (tag, k))
    ctx.floor('incomplete tables', n, 10)
PARTS = [plugin_roundtrip, refusals, tables, missing]
