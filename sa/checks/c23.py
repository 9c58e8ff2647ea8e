"""`brack add`: refuse before touching anything, record only what was saved."""
from ..lib import *
RULE = ('add_plugin is analysed on the reference github:<owner>/<repo>@<version> with symbolic parts, on malformed and unsupported references, with and without Brack.toml, on configurations with no plugin table, other plugins, or this plugin, and on every failing step. '
        'A refusal (no Brack.toml, malformed reference, plugin already declared) must precede any download or write; an unsuccessful download must leave the directory untouched; '
        'Brack.toml is rewritten last, only after the module was saved, and to the old configuration plus exactly one entry made of the given owner, repository and version.')
ASSUMES = ['owner, repository and version are strings of letters and digits in the symbolic scenarios', 'toml, reqwest and the file system behave as documented']
ADD = 'brack_project_manager::plugin::add_plugin'
CFG = 'brack_project_manager::config::Config'; PS = 'brack_project_manager::plugin::PluginSchema'
MUT = ('std::fs::write', 'std::fs::File::create', 'std::fs::File::create_new', 'std::fs::create_dir_all', 'std::fs::create_dir', 'std::fs::rename', 'std::fs::copy', 'std::fs::remove_file', 'std::fs::remove_dir_all', 'std::fs::OpenOptions::open')
NET = re.compile(r'^reqwest::.*(get|execute|send|post|request)$')
O, R, W = V('owner'), V('repo'), V('version')

def muts(s): return [x for x in evlist(s.ev) if x.fn in MUT]
def net(s): return [x for x in evlist(s.ev) if NET.match(x.fn)]

def go(ctx, ref, exists=True, plugins=None, cfg_ok=True, extra=None):
    """plugins: Option term of the configuration's plugin table"""
    f = ctx.fn(ADD)
    cfg = struct_(ctx, CFG, document=V('document'), plugins=plugins)
    h = {'std::path::Path::exists': recorder('exists', Bool(exists), event=False), 'std::path::Path::is_file': recorder('exists', Bool(exists), event=False),
         'std::path::Path::try_exists': recorder('exists', Ok(Bool(exists)), event=False),
         'std::fs::read_to_string': recorder('read', (lambda s, a: Ok(raw('app', 'file', a[0]))) if exists else Err(V('notfound'))),
         'toml::de::from_str': recorder('toml', lambda s, a: Ok(cfg) if cfg_ok else Err(ERR), event=False),
         'toml::from_str': recorder('toml', lambda s, a: Ok(cfg) if cfg_ok else Err(ERR), event=False)}
    for n in ('toml::ser::to_string', 'toml::to_string', 'toml::ser::to_string_pretty', 'toml::to_string_pretty'):
        h[n] = recorder('to_toml', lambda s, a: Ok(raw('app', 'toml', a[0])), event=False)
    e = ctx.engine(h); e.words = {O, R, W, V('minor')}
    st = State(); [e.assume(st, e.mk_eq(x, Str('other-plugin')), False) for x in (R, cat(R, '-html'), cat(R, '_x'))]
    return e, ctx.run(e, f, [ref], st), ctx.where(f), cfg

def REF(suffix='', version=W): return cat('github:', O, '/', R, suffix, '@', version)
def hm(*kv):
    from ..models import NILBASE
    return raw('hm', NILBASE, Seq(*[Tup(k, v) for k, v in kv]))

def untouched(ctx, key, e, outs, w, why, network=False):
    if not outs and not e.panics: ctx.undecided(key, 'no outcome')
    for s, ok, p, _ in outcomes(ctx, e, outs):
        if ok: ctx.bad(key + '/accepted', w, 'succeeds although ' + why); continue
        if not network and net(s): ctx.bad(key + '/network', w, 'contacts the network although ' + why); continue
        if muts(s): ctx.bad(key + '/effect', w, '%s(%s) although %s' % (muts(s)[0].fn, show(muts(s)[0].args[0])[:100], why)); continue
        ctx.ok(key)
    if e.panics: ctx.bad(key + '/panic', w, '%s: %r' % (why, e.panics[0]))

def refusals(ctx):
    tables = {'none': NONE, 'empty': Some(hm()), 'other': Some(hm((Str('other-plugin'), V('p0'))))}
    e, outs, w, _ = go(ctx, REF(), exists=False, plugins=NONE); untouched(ctx, 'no-toml', e, outs, w, 'there is no Brack.toml')
    e, outs, w, _ = go(ctx, REF(), plugins=NONE, cfg_ok=False); untouched(ctx, 'bad-toml', e, outs, w, 'Brack.toml does not parse')
    for n, t in (('only', Some(hm((R, V('p0'))))), ('among', Some(hm((Str('other-plugin'), V('p0')), (R, V('p1')))))):
        e, outs, w, _ = go(ctx, REF(), plugins=t); untouched(ctx, 'declared', e, outs, w, 'the plugin is already declared')
    for sfx in ('.html', '.brack.wasm'):        # the name of a plugin is the part of its repository's name before the first dot
        for n, t in (('only', Some(hm((R, V('p0'))))), ('among', Some(hm((Str('other-plugin'), V('p0')), (R, V('p1')))))):
            e, outs, w, _ = go(ctx, REF(sfx), plugins=t); untouched(ctx, 'declared/dotted', e, outs, w, 'the plugin is already declared (reference github:o/name%s@v)' % sfx)
    bad = {'no version': cat('github:', O, '/', R), 'no repository': cat('github:', O), 'no owner': cat('github', O, '@', W), 'no type': cat(O, '/', R, '@', W), 'no type at all': O,
           'an unsupported host': cat('gitlab:', O, '/', R, '@', W), 'an unsupported host (case)': cat('GitHub:', O, '/', R, '@', W), 'an empty reference': EMPTY,
           'an empty owner': cat('github:/', R, '@', W), 'an empty repository': cat('github:', O, '/@', W), 'an empty version': cat('github:', O, '/', R, '@'),
           'a surplus path segment': cat('github:', O, '/', R, '/', V('minor'), '@', W), 'a surplus colon': cat('github:', O, ':', V('minor'), '/', R, '@', W),
           'a second version': cat('github:', O, '@', V('minor'), '/', R, '@', W)}
    for n, ref in bad.items():
        for t in tables.values():
            e, outs, w, _ = go(ctx, ref, plugins=t); untouched(ctx, 'malformed/' + n.replace(' ', '-'), e, outs, w, 'the reference has ' + n)
    ctx.floor('malformed references', len(bad), 6)

def checked(s):
    """is the download known to have succeeded on this path: True / False / None (checked in a way not understood)"""
    v = [b for t, b in s.facts.bl.items() if t.t == 'app' and str(t.a[0]).endswith('is_success')]
    if v: return v[0]
    if any('error_for_status' in x.fn or x.fn.endswith('::status') for x in evlist(s.ev)) or any('status' in show(t).lower() for t in list(s.facts.bl) + list(s.facts.vs)): return None
    return 'no'

def effects(ctx):
    for suffix, version in (('', W), ('.html', W), ('.a.b', W), ('', cat(W, '.', V('minor'), '-rc.1')), ('-html', cat('v', W, '.0')), ('_x', cat(W, '+b')), ('', cat('release/', W))): effects_(ctx, suffix, version)

def effects_(ctx, suffix, version):
    repo = cat(R, suffix); name_ = cat(R, suffix.split('.')[0])
    want_entry = lambda: enum_(ctx, PS, 'GitHub', O, repo, version, NONE, NONE, NONE, NONE)
    tables = {'none': NONE, 'empty': Some(hm()), 'other': Some(hm((Str('other-plugin'), V('p0'))))}
    nok = 0
    for name, t in tables.items():
        e, outs, w, cfg = go(ctx, REF(suffix, version), plugins=t)
        if e.panics: ctx.bad('panic', w, repr(e.panics[0]))
        for s, ok, p, _ in outcomes(ctx, e, outs):
            ms, ns = muts(s), net(s)
            if not ok and not ns and not any(r == frozenset([1]) for r in s.facts.vs.values()): ctx.bad('refused', w, 'a plugin that is not declared is refused before its download, although its reference is well-formed and nothing failed: ' + show(REF(suffix, version))[:120]); continue
            for x in ns: ctx.expect(e, s, 'url', w, x.args[-1], cat('https://github.com/', O, '/', repo, '/releases/download/', version, '/', repo, '.wasm'), 'address downloaded')
            if ms:
                ck = checked(s)
                if ck is None: ctx.undecided('status', 'how the response status is checked is not understood')
                elif ck is not True: ctx.bad('status', w, '%s(%s) although the download was refused by the server%s' % (ms[0].fn, show(ms[0].args[0])[:80], '' if ck is False else ' or may have been (the status is not looked at)')); continue
                else: ctx.ok('status')
            toml = [i for i, x in enumerate(ms) if x.fn.endswith('write') and lit(x.args[0]) in ('Brack.toml', './Brack.toml')]
            mods = [i for i, x in enumerate(ms) if contains(x.args[0], R) and x.fn != 'std::fs::create_dir_all']
            if toml:
                if len(toml) > 1: ctx.bad('toml/twice', w, 'writes Brack.toml %d times' % len(toml)); continue
                if not mods: ctx.bad('toml/unsaved', w, 'records the plugin without saving its module'); continue
                if min(toml) < max(mods): ctx.bad('toml/order', w, 'records the plugin before its module is saved'); continue
                failed = [show(k)[:80] for k, v in s.facts.vs.items() if v == frozenset([1]) and any(x.res is k for x in evlist(s.ev) if evlist(s.ev).index(x) < evlist(s.ev).index(ms[toml[0]]) and (x.fn in MUT or 'copy' in x.fn or 'bytes' in x.fn or 'write' in x.fn))]
                if failed: ctx.bad('toml/failed', w, 'records the plugin although %s failed' % failed[0]); continue
                got = ms[toml[0]].args[1]
                base = hm() if name in ('none', 'empty') else t.a[3][0]
                if got.t == 'app' and got.a[0] == 'toml':
                    c = got.a[1]
                    ctx.expect(e, s, 'toml/document', w, fld(c, 'document'), V('document'), 'document table after add')
                    pl = fld(c, 'plugins')
                    tab = fld(pl, '0') if not (pl.t == 'adt' and pl.a[1] == 0) else None
                    if tab is None: ctx.bad('toml/lost', w, 'the rewritten configuration has no plugins'); continue
                    ctx.expect(e, s, 'toml/entry', w, e.models.hm_get(e, s, tab, name_), Some(want_entry()), 'entry recorded for the plugin')
                    if name == 'other': ctx.expect(e, s, 'toml/kept', w, e.models.hm_get(e, s, tab, Str('other-plugin')), Some(V('p0')), 'entry of a plugin that was already there')
                else: ctx.undecided('toml/content', 'content written is %s' % show(got)[:200])
            elif ok: ctx.bad('toml/never', w, 'succeeds without recording the plugin'); continue
            if ok: nok += 1
            # the saved bytes are the downloaded ones
            for x in evlist(s.ev):
                if x.fn.endswith('::copy') and 'io' in x.fn and ns:
                    if contains(x.args[0], ns[0].res) : ctx.ok('module/bytes')
                    else: ctx.undecided('module/bytes', 'source of the copy: ' + show(x.args[0])[:100])
    if not nok: ctx.undecided('success', 'no successful outcome found')
PARTS = [refusals, effects]
