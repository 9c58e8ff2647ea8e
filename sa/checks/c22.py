"""Plugin cache of `brack build`: what is downloaded, where it goes, with which flags it is loaded."""
from ..lib import *
from .c23 import muts, net, checked, hm, CFG, PS
RULE = ('download_plugins_using_config is analysed on configurations with no plugin table and with one or two symbolic plugins, each cached or not, under every hook flag set to true, false or absent, and on every failing step. '
        'Every plugin must end up in the table under its own name with the cache path made of its name, of the backend and of a digest of its whole declaration, and each flag equal to the same-named declared flag (absent = false); '
        'a cached module is not downloaded; a missing one is fetched from the release address and its bytes written to that very path, and only after the server answered with success; any failure is an error.')
ASSUMES = ['reqwest, sha2, tokio::spawn and join_all behave as documented', 'one or two plugins are representative (the loop treats them uniformly)']
PJ = 'brack_project_manager::project::Project'
HOOKS = ['expr_hook', 'stmt_hook', 'document_hook', 'text_hook']

def decl(ctx, i, flags, as_=None):
    """flags: {hook: True|False|None}"""
    vi = kinds(ctx, PS)['GitHub']
    names = [f[0] for f in ctx.prog.adts[PS][1]['variants'][vi]['fields']]
    j = i if as_ is None else as_; v = {'owner': V('owner%d' % j), 'repo': V('repo%d' % j), 'version': V('version%d' % j)}
    for h in HOOKS: v[h] = NONE if flags.get(h) is None else Some(Bool(flags[h]))
    return Adt(PS, vi, names, [v.get(n, V(n + str(i))) for n in names])

def go(ctx, decls, cached, st=None, stored=(), names=None):
    f = ctx.fn(PJ + '::download_plugins_using_config')
    called = lambda i: Str(names[i]) if names else V('name%d' % i)
    kv = [(called(i), d) for i, d in enumerate(decls)] if decls is not None else None
    cfg = struct_(ctx, CFG, document=V('document'), plugins=NONE if kv is None else Some(hm(*kv)))
    fields = [x[0] for x in ctx.prog.adts[PJ][1]['variants'][0]['fields']]
    vals = dict(config=cfg, plugins_metadata=hm(), root=Str('.'))
    prj = Adt(PJ, 0, fields, [vals.get(n, V(n)) for n in fields])
    def ex(s, a):
        if names: return Bool(cached[0])
        for i in range(len(decls or [])):
            if contains(a[0], V('name%d' % i)): return Bool(cached[i])
        return raw('app', 'exists', a[0])
    h = {'std::path::Path::exists': recorder('exists', ex), 'std::path::Path::is_file': recorder('exists', ex)}
    if stored is not None:         # what the plugins directory holds
        ents = [V('entry%d' % i) for i in range(len(stored))]; path_of = dict(zip(ents, stored))
        def entry(fn):
            def hk(e, st, args, call):
                x = path_of.get(e.deref(st, args[0]))
                return None if x is None else [(st, fn(x))]
            return hk
        h['std::fs::read_dir'] = recorder('read_dir', Ok(Seq(*[Ok(x) for x in ents])), event=False)
        h['std::fs::DirEntry::path'] = entry(lambda x: x)
        h['std::fs::DirEntry::file_name'] = entry(lambda x: str_cut_prefix(x))
    e = ctx.engine(h, budget=4000000); e.words = {V('name%d' % i) for i in range(len(decls or []))}
    st = State()
    if decls and len(decls) == 2 and not names: e.assume(st, e.mk_eq(V('name0'), V('name1')), False)
    return e, ctx.run(e, f, [Mut(prj)], st), ctx.where(f)

def scen(thorough):
    A = {h: None for h in HOOKS}
    one = [A] + [{**A, h: v} for h in HOOKS for v in (True, False)] + [{h: True for h in HOOKS}, {h: False for h in HOOKS}]
    one += [{h: (h != x) for h in HOOKS} for x in HOOKS]
    for fl in one:
        for c in (True, False): yield [fl], [c]
    two = [({**A, 'expr_hook': True}, {**A, 'text_hook': True}), ({**A, 'document_hook': False}, {**A, 'stmt_hook': True})]
    for a, b in two:
        for ca in (True, False):
            for cb in (True, False): yield [a, b], [ca, cb]

def table(ctx):
    n = 0; good = 0; paths = {}
    for flags, cached in scen(ctx.tier == 'thorough'):
        n += 1
        e, outs, w = go(ctx, [decl(ctx, i, f) for i, f in enumerate(flags)], cached)
        if e.panics: ctx.bad('panic', w, repr(e.panics[0]))
        for s, ok, p, fin in outcomes(ctx, e, outs):
            evs = evlist(s.ev); ns = net(s); ms = [x for x in muts(s) if 'create_dir' not in x.fn]
            for i in range(len(flags)):
                if cached[i] and any(contains(x.args[-1], V('repo%d' % i)) for x in ns): ctx.bad('cached/download', w, 'downloads a plugin whose module is already there')
                elif cached[i]: ctx.ok('cached/download')
                if cached[i] and any(contains(x.args[0], V('name%d' % i)) for x in ms): ctx.bad('cached/write', w, 'overwrites a module that is already there')
            for x in ns:
                i = next((i for i in range(len(flags)) if contains(x.args[-1], V('repo%d' % i))), None)
                if i is None: ctx.undecided('url', 'address downloaded: ' + show(x.args[-1])[:200]); continue
                ctx.expect(e, s, 'url', w, x.args[-1], cat('https://github.com/', V('owner%d' % i), '/', V('repo%d' % i), '/releases/download/', V('version%d' % i), '/', V('name%d' % i), '.', fld(fld_(e, V('document')), 'backend'), '.wasm'), 'address downloaded')
            if ok and any(r == frozenset([1]) and any(x.res is t for x in evs if x in ms) for t, r in s.facts.vs.items()): ctx.bad('write-failed/accepted', w, 'succeeds although a module could not be saved')
            md = fld(fin[0], 'plugins_metadata')
            for x in ms:
                i = next((i for i in range(len(flags)) if contains(x.args[0], V('name%d' % i))), None)
                src = [y for y in ns if i is not None and contains(y.args[-1], V('repo%d' % i))]
                if i is None or not src: ctx.undecided('write', 'file written: ' + show(x.args[0])[:200]); continue
                okb = [b for t, b in s.facts.bl.items() if t.t == 'app' and str(t.a[0]).endswith('is_success') and contains(t, src[0].res)]
                if okb == [True]: ctx.ok('write/status')
                elif checked(s) is None: ctx.undecided('write/status', 'how the status is checked is not understood')
                else: ctx.bad('write/status', w, 'saves a module although the server %s' % ('refused it' if okb == [False] else 'may have refused it (the status is not looked at)'))
                body = x.args[1]
                if contains(body, src[0].res) and not any(contains(body, y.res) for y in ns if y is not src[0]): ctx.ok('write/bytes')
                elif any(contains(body, y.res) for y in ns): ctx.bad('write/bytes', w, 'saves the bytes of another download')
                else: ctx.undecided('write/bytes', show(body)[:100])
            if not ok: continue
            good += 1
            for i, f in enumerate(flags):
                got = e.models.hm_get(e, s, md, V('name%d' % i))
                if got is NONE or (got.t == 'adt' and got.a[1] == 0): ctx.bad('table/missing', w, 'a configured plugin is not in the table'); continue
                t = fld(got, '0'); path = fld(t, '0'); fl = fld(t, '1')
                if i == 0: paths.setdefault(path, (tuple(sorted((h, str(v)) for h, v in f.items())), w))
                for h in HOOKS: ctx.expect(e, s, 'flag/' + h, w, fld(fl, h), Bool(bool(f[h])), '%s of a plugin declared with %s=%s' % (h, h, f[h]))
                if i == 0:
                    other = paths[path][0]; mine = tuple(sorted((h, str(v)) for h, v in f.items()))
                    if other == mine: ctx.ok('path/flags')
                    else: ctx.bad('path/flags', w, 'two declarations that differ only in %s share one cache path' % ', '.join(a[0] for a, b in zip(mine, other) if a != b))
                for what in ('name', 'owner', 'repo', 'version'):
                    if contains(path, V('%s%d' % (what, i))): ctx.ok('path/' + what)
                    else: ctx.bad('path/' + what, w, 'the cache path %s does not depend on the %s of the plugin' % (show(path)[:200], what))
                if contains(path, fld(V('document'), 'backend')): ctx.ok('path/backend')
                else: ctx.bad('path/backend', w, 'the cache path %s does not depend on the backend, so the module of one backend would be loaded for another' % show(path)[:200])
                pp = str_parts(path)
                if isinstance(pp[0], str) and pp[0].startswith(('plugins/', './plugins/')) and isinstance(pp[-1], str) and pp[-1].endswith('.wasm'): ctx.ok('path/place')
                elif isinstance(pp[0], str) and isinstance(pp[-1], str): ctx.bad('path/place', w, 'the cache path is %s' % show(path)[:200])
                else: ctx.undecided('path/place', show(path)[:200])
                # the path looked up, written and loaded is one and the same
                ex = [x for x in evs if x.fn == 'exists' and contains(x.args[0], V('name%d' % i))]
                for x in ex: ctx.expect(e, s, 'path/looked-up', w, x.args[0], path, 'path whose existence is tested')
                wr = [x for x in ms if contains(x.args[0], V('name%d' % i))]
                for x in wr: ctx.expect(e, s, 'path/written', w, x.args[0], path, 'path the module is saved to')
                if not cached[i] and not wr: ctx.bad('missing/unsaved', w, 'a module that is not there is neither saved nor refused')
    ctx.floor('scenarios', n, 30)
    if not good: ctx.undecided('success', 'no successful outcome')

def fld_(e, x): return x

def nothing(ctx):
    for d in (None, []):
        e, outs, w = go(ctx, d, [])
        for s, ok, p, fin in outcomes(ctx, e, outs):
            if not ok: ctx.bad('none/refused', w, 'fails on a configuration without plugins')
            elif muts(s) or net(s): ctx.bad('none/effect', w, 'acts on a configuration without plugins')
            else: ctx.ok('none')

def directory(ctx):
    """saving a module must not depend on the cache directory being there already"""
    e, outs, w = go(ctx, [decl(ctx, 0, {h: None for h in HOOKS})], [False])
    for s, ok, p, fin in outcomes(ctx, e, outs):
        evs = evlist(s.ev)
        for k, x in enumerate(evs):
            if x.fn in ('std::fs::write', 'std::fs::File::create'):
                if any('create_dir' in y.fn for y in evs[:k]): ctx.ok('directory')
                elif any(y.fn == 'exists' and lit(y.args[0]) is not None for y in evs[:k]): ctx.undecided('directory', 'existence of a directory is tested')
                else: ctx.bad('directory', w, 'saves a module without making sure the plugins directory exists')
def str_cut_prefix(x):
    ps = str_parts(x); i = ps[0].rfind('/') + 1
    return cat(ps[0][i:], *ps[1:])

def neighbours(ctx):
    """modules of other plugins in the directory are not this plugin's module"""
    A = {h: None for h in HOOKS}
    base = None
    for cached in (True, False):
        e, outs, w = go(ctx, [decl(ctx, 0, A)], [cached])
        for s, ok, p, fin in outcomes(ctx, e, outs):
            if ok: base = fld(fld(e.models.hm_get(e, s, fld(fin[0], 'plugins_metadata'), V('name0')), '0'), '0')
        if base is None: ctx.undecided('neighbours', 'no cache path'); return
        ps = str_parts(base)
        if not isinstance(ps[0], str): ctx.undecided('neighbours', show(base)[:200]); return
        d = ps[0].rsplit('/', 1)[0] + '/'
        rest = [x for x in ps[1:] if x is not V('name0')]
        other = [cat(d, 'other', *rest), cat(d, 'a', V('name0'), *ps[2:]), cat(d, V('name0'), '_', V('older'), '.wasm')]
        for i, x in enumerate(other):
            e, outs, w = go(ctx, [decl(ctx, 0, A)], [cached], stored=[x])
            for s, ok, p, fin in outcomes(ctx, e, outs):
                if not ok: continue
                got = e.models.hm_get(e, s, fld(fin[0], 'plugins_metadata'), V('name0'))
                ctx.expect(e, s, 'neighbour/%s' % ('same digest', 'longer name', 'other digest')[i].replace(' ', '-'), w, fld(fld(got, '0'), '0'), base, 'cache path with a module of %s in the directory' % ('another plugin', 'another plugin', 'another declaration')[i])
def named(ctx):
    """plugins with different names never share a module, however alike their names are"""
    A = {h: None for h in HOOKS}; n = 0
    for a, b in (('std', 'Std'), ('std', 'STD'), ('abc', 'ab'), ('abc', 'abcd'), ('a-b', 'a_b'), ('a', 'a_a'), ('a b', 'ab'), ('\u00e9', 'e'), ('a1', 'a2'), ('a.b', 'a'), ('x', 'a_rather_long_name_of_a_plugin'), ('a_rather_long_name_of_a_plugin_1', 'a_rather_long_name_of_a_plugin_2')):
        n += 1
        e, outs, w = go(ctx, [decl(ctx, 0, A), decl(ctx, 1, A, as_=0)], [True, True], names=(a, b))
        if e.panics: ctx.bad('panic', w, 'plugins named %r and %r: %r' % (a, b, e.panics[0]))
        for s, ok, p, fin in outcomes(ctx, e, outs):
            if not ok: ctx.undecided('named', 'plugins named %r and %r, both stored: refused' % (a, b)); continue
            md = fld(fin[0], 'plugins_metadata'); got = [fld(fld(e.models.hm_get(e, s, md, Str(x)), '0'), '0') for x in (a, b)]
            q = e.decide_eq(s, *got)
            if q is True or got[0] is got[1]: ctx.bad('named', w, 'plugins named %r and %r with the same declaration share the cache path %s' % (a, b, show(got[0])[:150]))
            elif all(any(isinstance(y, str) and x in y for y in str_parts(g)) for x, g in zip((a, b), got)): ctx.ok('named')
            else: ctx.undecided('named', 'cache paths %s' % ' and '.join(show(g)[:150] for g in got))
    ctx.floor('pairs of names', n, 8)
PARTS = [table, named, nothing, directory, neighbours]
