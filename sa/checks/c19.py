"""Hook registration and dispatch."""
from ..codegen import *
RULE = ('Plugins::new is analysed on lists of up to three symbolic plugins under every assignment of one hook flag (and a mixed assignment of all four), and the resulting table is handed to each call_*_hook method: '
        'a hook asked for exactly reaches the plugin that declares it, as command document/stmt/expr/text of the right type with the given arguments; two declarations of one hook are refused. '
        'Plugin::new is analysed on metadata lists of up to two symbolic entries under every flag, and on every combination of the four flags with absent, right and wrongly typed entries for the four hooks: a declared hook must exist with the right type, and the command table holds each entry under its (name, type).')
ASSUMES = ['plugin lists of length <= 3 and metadata lists of length <= 2 are representative (the loops treat elements uniformly)', 'plugin names are pairwise different']
EXT = 'extism::plugin::Plugin::call'
HK = {'document': 'TBlock', 'stmt': 'TBlock', 'expr': 'TInline', 'text': 'TInline'}
PLUG = 'brack_plugin::plugin::Plugin'; FF = 'brack_plugin::feature_flag::FeatureFlag'

def ffield(ctx):
    c, a = ctx.prog.adts[PLUG]
    for n, ty in a['variants'][0]['fields']:
        if c.types[ty].get('adt') == FF or c.types[ty]['s'].endswith('FeatureFlag'): return n
    raise Missing('feature flags of Plugin')

def setflags(st, ctx, ff, ps, flags):
    """flags: {(plugin index, hook)}"""
    for i, p in enumerate(ps):
        for h in HK: st.facts.set_bl(fld(fld(p, ff), h + '_hook'), (i, h) in flags)

def registration(ctx):
    f = ctx.fn(PL + 'new'); w = ctx.where(f); ff = ffield(ctx)
    if PLUG not in ctx.prog.adts: raise Missing(PLUG)
    scens = []
    for n in (0, 1, 2, 3):
        for h in HK:
            for sub_ in range(1 << n):
                scens.append((n, {(i, h) for i in range(n) if sub_ >> i & 1}))
    scens.append((3, {(0, 'document'), (2, 'stmt'), (1, 'expr'), (0, 'text')}))
    scens.append((3, {(0, 'expr'), (1, 'text'), (2, 'document'), (1, 'stmt')}))
    scens.append((2, {(0, 'document'), (0, 'stmt'), (0, 'expr'), (0, 'text')}))
    done = set()
    for n, flags in scens:
        if (n, frozenset(flags)) in done: continue
        done.add((n, frozenset(flags)))
        ps = [V('p%d' % i) for i in range(n)]
        st = State(); setflags(st, ctx, ff, ps, flags)
        e = ctx.engine()
        for i in range(n):
            for j in range(i): e.assume(st, e.mk_eq(fld(ps[i], 'name'), fld(ps[j], 'name')), False)
        outs = ctx.run(e, f, [Seq(*ps)], st)
        dup = any(sum(1 for i, h in flags if h == hk) > 1 for hk in HK)
        tag = '+'.join(sorted({h for _, h in flags})) or 'none'
        for s, ok, p, _ in outcomes(ctx, e, outs):
            if dup:
                if ok: ctx.bad('duplicate/' + tag, w, 'two plugins declaring the %s hook are accepted' % tag)
                else: ctx.ok('duplicate/' + tag)
                continue
            if not ok: ctx.bad('refused/' + tag, w, 'refuses plugins whose hooks do not conflict'); continue
            ctx.ok('accepted/' + tag)
            for i, q in enumerate(ps):
                got = e.models.hm_get(e, s, fld(p, 'name_to_plugin'), fld(q, 'name'))
                ctx.expect(e, s, 'registered', w, got, Some(q), 'plugin registered under its own name')
            for h, ty in HK.items(): dispatch(ctx, e, s, p, ps, h, ty, flags, tag)

def dispatch(ctx, e0, s0, table, ps, h, ty, flags, tag):
    f = ctx.fn(PL + 'call_%s_hook' % h); w = ctx.where(f)
    e = ctx.engine()
    s = s0.copy(); s.ev = None
    owner = [ps[i] for i, hh in flags if hh == h]
    outs = ctx.run(e, f, [Mut(table), V('args')], s)
    key = '%s/%s' % (h, 'owned' if owner else 'absent')
    for s, ok, p, _ in outcomes(ctx, e, outs):
        calls = [x for x in evlist(s.ev) if x.fn == EXT]
        if not owner:
            if calls: ctx.bad(key + '/called', w, 'calls a plugin although none declares the %s hook' % h)
            elif not ok: ctx.bad(key + '/error', w, 'fails although no plugin declares the %s hook' % h)
            else: ctx.expect(e, s, key, w, p, NONE, 'answer without a %s hook' % h)
            continue
        MD = raw('app', 'hmget', fld(owner[0], 'signature_to_metadata'), Tup(Str(h), enum_(ctx, TYPE, ty)))
        if ok:
            if len(calls) != 1: ctx.bad(key + '/calls', w, '%d WASM calls for one hook (answer %s)' % (len(calls), show(p)[:100])); continue
            c = calls[0]
            ctx.expect(e, s, key + '/plugin', w, c.args[0], fld(owner[0], 'extism_plugin'), 'plugin asked')
            ctx.expect(e, s, key + '/export', w, c.args[1], fld(fld(MD, '0'), 'call_name'), 'export called')
            ctx.expect(e, s, key + '/arguments', w, c.args[2].a[3][0] if c.args[2].t == 'adt' else c.args[2], V('args'), 'arguments sent')
            ctx.expect(e, s, key + '/answer', w, p, Some(fld(c.res, '0')), 'answer of the hook')
        else:
            if s.facts.vs.get(MD) == frozenset([0]) or (calls and s.facts.vs.get(calls[-1].res) == frozenset([1])): ctx.ok(key + '/error')
            elif calls: ctx.bad(key + '/error-after-call', w, 'fails although the hook answered')
            else: ctx.undecided(key + '/error', 'cause of an error outcome not recognised')

def loading(ctx):
    f = ctx.fn(PLUG + '::new'); w = ctx.where(f); T = kinds(ctx, TYPE)
    FFN = [x[0] for x in ctx.prog.adts[FF][1]['variants'][0]['fields']]
    for h, ty in HK.items():
        for on in (True, False):
            for shape in ((), ('hook-ok',), ('hook-bad',), ('other',), ('other', 'hook-ok'), ('hook-ok', 'other'), ('hook-ok', 'hook-bad')):
                ms = [V('m%d' % i) for i in range(len(shape))]
                st = State()
                e = None
                def answer(e2, s2, args, call):
                    name = e2.deref(s2, args[1])
                    s2.ev = eng.Ev(s2.ev, EXT, tuple(e2.deref(s2, a) for a in args), UNIT, '', None)
                    return [(s2, Ok(Adt('extism_convert::encoding::Json', 0, ('0',), (Seq(*ms),))))]
                e = ctx.engine({EXT: answer, 'std::fs::read': recorder('read', Ok(V('bin')))})
                e.join_limit = 100
                for m_, kind in zip(ms, shape):
                    nm = fld(m_, 'command_name'); rt = fld(m_, 'return_type')
                    if kind == 'other':
                        for hh in HK: st.facts.add_ne(nm, Str(hh))
                    else:
                        st.facts.set_eq(nm, Str(h))
                        good = T[ty]
                        st.facts.set_vs(rt, {good} if kind == 'hook-ok' else set(T.values()) - {good})
                ffv = struct_(ctx, FF, **{n: Bool(on and n == h + '_hook') for n in FFN})
                outs = ctx.run(e, f, [V('name'), V('path'), ffv], st)
                for s, ok, p, _ in outcomes(ctx, e, outs):
                    if not any(x.fn == EXT for x in evlist(s.ev)): continue      # file unreadable / not a plugin
                    want = (not on) or ('hook-ok' in shape and 'hook-bad' not in shape)
                    key = 'load/%s/%s/%s' % (h, 'on' if on else 'off', '+'.join(shape) or 'empty')
                    if ok and not want: ctx.bad(key, w, 'accepts a plugin whose %s hook is %s' % (h, 'of the wrong type' if 'hook-bad' in shape else 'missing'))
                    elif not ok and want: ctx.bad(key, w, 'refuses a plugin with valid metadata')
                    else: ctx.ok(key)
                    if ok:
                        ctx.expect(e, s, 'load/name', w, fld(p, 'name'), V('name'), 'name of the plugin')
                        for m_, kind in zip(ms, shape):
                            if len(ms) == 2 and kind != 'other' and shape == ('hook-ok', 'hook-bad'): continue
                            got = e.models.hm_get(e, s, fld(p, 'signature_to_metadata'), Tup(fld(m_, 'command_name'), fld(m_, 'return_type')))
                            ctx.expect(e, s, 'load/table', w, got, Some(m_), 'metadata stored for (name, type)')
    # the flags reach the loaded plugin
    ff = ffield(ctx)
    e = ctx.engine({EXT: lambda e2, s2, a, c: [(s2, Ok(Adt('extism_convert::encoding::Json', 0, ('0',), (NIL,))))], 'std::fs::read': recorder('read', Ok(V('bin')))})
    st = State()
    for n in FFN: st.facts.set_bl(fld(V('ff'), n), False)
    for s, ok, p, _ in outcomes(ctx, e, ctx.run(e, f, [V('name'), V('path'), V('ff')], st)):
        if ok: ctx.expect(e, s, 'load/flags', w, fld(p, ff), V('ff'), 'feature flags kept')

def combined(ctx):
    """every combination of hook flags with every combination of absent, right and wrong hook entries"""
    import itertools
    f = ctx.fn(PLUG + '::new'); w = ctx.where(f); T = kinds(ctx, TYPE); names = list(HK)
    FFN = [x[0] for x in ctx.prog.adts[FF][1]['variants'][0]['fields']]
    MDT = next(a for a in ctx.prog.adts if a.endswith('metadata::Metadata'))
    def part(ctx, chunk):
        for flags, states in chunk:
            ms = []
            for h, s_ in zip(names, states):
                if s_ != 'absent': ms.append(struct_(ctx, MDT, command_name=Str(h), call_name=V('call_' + h), argument_types=V('args_' + h), return_type=enum_(ctx, TYPE, HK[h] if s_ == 'ok' else 'TInline' if HK[h] == 'TBlock' else 'TBlock')))
            ms.append(struct_(ctx, MDT, command_name=Str('cmd'), call_name=V('call_cmd'), argument_types=V('args_cmd'), return_type=enum_(ctx, TYPE, 'TInline')))
            def answer(e2, s2, args, call):
                s2.ev = eng.Ev(s2.ev, EXT, tuple(e2.deref(s2, a) for a in args), UNIT, '', None)
                return [(s2, Ok(Adt('extism_convert::encoding::Json', 0, ('0',), (Seq(*ms),))))]
            e = ctx.engine({EXT: answer, 'std::fs::read': recorder('read', Ok(V('bin')))})
            ffv = struct_(ctx, FF, **{n: Bool(n[:-5] in flags) for n in FFN})
            want = all(s_ == 'ok' for h, s_ in zip(names, states) if h in flags)
            key = 'combined/%s/%s' % ('+'.join(flags) or 'none', '+'.join('%s %s' % x for x in zip(names, states)))
            for s, ok, p, _ in outcomes(ctx, e, ctx.run(e, f, [V('name'), V('path'), ffv], State())):
                if not any(x.fn == EXT for x in evlist(s.ev)): continue
                if ok and not want: ctx.bad(key, w, 'accepts a plugin declaring the hooks %s whose metadata has %s' % (' '.join(flags) or 'none', ', '.join('%s: %s' % x for x in zip(names, states))))
                elif not ok and want: ctx.bad(key, w, 'refuses a plugin declaring the hooks %s whose metadata has %s' % (' '.join(flags) or 'none', ', '.join('%s: %s' % x for x in zip(names, states))))
                else: ctx.ok(key)
    items = [(fl, ss) for n in range(5) for fl in itertools.combinations(names, n) for ss in itertools.product(('absent', 'ok', 'bad'), repeat=4)]
    ctx.pmap(part, [items[i::32] for i in range(32)])
    ctx.floor('flag and metadata combinations', len(items), 1296)
PARTS = [registration, loading, combined]
