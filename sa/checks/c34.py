"""compile: which files of the plugins directory become plugins, under which names, from which directory."""
from ..lib import *
from .c14 import stage_hooks, stages_run, compile_args, printed
from ..models import NILMAP
RULE = ('run_compile is analysed at level 5 on plugins directories of known entries (modules with names of letters, digests of any letters and digits, back-ups, other files, names without digest), in directories of several names, '
        'the path and regular-expression functions evaluated on these names, the loading of a module replaced by a symbolic result. Every outcome must have loaded exactly the modules, each from its own path under the letters before the underscore '
        'with no hooks, handed them all to Plugins::new, and run the stages with these plugins; a directory or an entry that cannot be read, or a module that cannot be loaded, must end it before any stage with an error. '
        'The directory read must be the one given, or else the one BRACK_PLUGINS_PATH names.')
ASSUMES = ['the regex crate matches as documented (a pattern is evaluated on the names with the rules common to it and Python)']
FREE = ('tokens', 'cst', 'ast', 'expanded', 'text', 'plugin', 'plugins')

def pyre(p):
    p = p.replace('(?<', '(?P<').replace('(?P<=', '(?<=').replace('(?P<!', '(?<!')
    for k, v in (('alpha', 'A-Za-z'), ('alnum', 'A-Za-z0-9'), ('digit', '0-9'), ('xdigit', '0-9A-Fa-f'), ('lower', 'a-z'), ('upper', 'A-Z'), ('word', 'A-Za-z0-9_')): p = p.replace('[:%s:]' % k, v)
    p = p.replace(r'\z', r'\Z')
    return re.compile(re.sub(r'(?<!\\)\$', r'\\Z', p))

def rx_hooks():
    R = lambda p: raw('app', 'rx', p)
    def search(e, st, args):
        a, b = e.deref(st, args[0]), e.deref(st, args[1]); t = lit(b)
        if a.t != 'app' or a.a[0] != 'rx' or lit(a.a[1]) is None or t is None: return None
        return pyre(lit(a.a[1])), t
    def new(e, st, args, call):
        p = e.deref(st, args[0])
        if lit(p) is None: return None
        try: pyre(lit(p))
        except re.error: return None
        return [(st, Ok(R(p)))]
    def captures(e, st, args, call):
        x = search(e, st, args)
        if x is None: return None
        m = x[0].search(x[1])
        return [(st, NONE if m is None else Some(raw('app', 'caps', Str(lit(e.deref(st, args[0]).a[1])), Str(x[1]))))]
    def is_match(e, st, args, call):
        x = search(e, st, args)
        return None if x is None else [(st, Bool(x[0].search(x[1]) is not None))]
    def find(e, st, args, call):
        x = search(e, st, args)
        if x is None: return None
        m = x[0].search(x[1]); return [(st, NONE if m is None else Some(raw('app', 'match', Str(m.group(0)))))]
    def group(opt):
        def h(e, st, args, call):
            c, n = e.deref(st, args[0]), e.deref(st, args[1])
            if c.t != 'app' or c.a[0] != 'caps': return None
            m = pyre(lit(c.a[1])).search(lit(c.a[2])); n = lit(n) if lit(n) is not None else n.a[0] if n.t == 'int' else None
            try: g = m.group(n)
            except (IndexError, TypeError): return None if n is None or not opt else [(st, NONE)]
            if not opt: return None if g is None else [(st, Str(g))]
            return [(st, NONE if g is None else Some(raw('app', 'match', Str(g))))]
        return h
    def as_str(e, st, args, call):
        a = e.deref(st, args[0])
        return [(st, a.a[1])] if a.t == 'app' and a.a[0] == 'match' else None
    P = 'regex::regex::string::'
    return {P + 'Regex::new': new, P + 'Regex::captures': captures, P + 'Regex::is_match': is_match, P + 'Regex::find': find, P + 'Captures::name': group(True), P + 'Captures::get': group(True),
            P + 'Match::as_str': as_str, "<regex::regex::string::Captures<'h> as core::ops::index::Index<&'n str>>::index": group(False), "<regex::regex::string::Captures<'h> as core::ops::index::Index<usize>>::index": group(False)}

def path_hooks(d, names):
    by = {Str(d + '/' + n): n for n in names}; ent = {V('entry%d' % i): n for i, n in enumerate(names)}
    osn = {Str(n) for n in names}
    def path(e, st, args, call):
        a = e.deref(st, args[0]); return [(st, Str(d + '/' + ent[a]))] if a in ent else None
    def fname(e, st, args, call):
        a = e.deref(st, args[0]); return [(st, Str(ent[a]))] if a in ent else None
    def on(g):
        def h(e, st, args, call):
            a = e.deref(st, args[0]); return [(st, g(by[a]))] if a in by else [(st, g(lit(a)))] if a in osn else None
        return h
    same = lambda wrap: lambda e, st, args, call: [(st, wrap(e.deref(st, args[0])))] if e.deref(st, args[0]) in by or lit(e.deref(st, args[0])) is not None else None
    stem = lambda n: Some(Str(n.rsplit('.', 1)[0])) if '.' in n[1:] else Some(Str(n))
    ext = lambda n: Some(Str(n.rsplit('.', 1)[1])) if '.' in n[1:] else NONE
    return {'std::fs::DirEntry::path': path, 'std::fs::DirEntry::file_name': fname, 'std::path::Path::file_name': on(lambda n: Some(Str(n))), 'std::path::Path::file_stem': on(stem), 'std::path::Path::extension': on(ext),
            'std::path::Path::to_str': same(Some), 'std::ffi::os_str::OsStr::to_str': same(Some), 'std::path::Path::to_string_lossy': same(lambda x: x), 'std::ffi::os_str::OsStr::to_string_lossy': same(lambda x: x),
            'std::ffi::os_str::OsString::into_string': same(Ok), 'std::path::Path::is_file': on(lambda n: TRUE), 'std::path::Path::is_dir': on(lambda n: FALSE), 'std::path::Path::exists': on(lambda n: TRUE)}

def go(ctx, d, names, dirs=Some(V('pdir')), env=None, badload=None, baddir=False, badent=None):
    f = ctx.fn('bin:brack::run_compile'); h = stage_hooks(None, errs=NIL); h.update(rx_hooks()); h.update(path_hooks(d, names))
    h['brack_plugin::plugin::Plugin::new'] = recorder('Plugin::new', lambda s, a: Err(V('E_load')) if badload is not None and lit(a[1]) == d + '/' + names[badload] else Ok(raw('app', 'plugin', *a)))
    h['brack_plugin::plugins::Plugins::new'] = recorder('Plugins::new', lambda s, a: Ok(raw('app', 'plugins', *a)))
    h['std::fs::read_dir'] = recorder('read_dir', lambda s, a: Err(V('E_dir')) if baddir else Ok(Seq(*[Err(V('E_entry')) if i == badent else Ok(V('entry%d' % i)) for i in range(len(names))])))
    h['std::env::var'] = recorder('env', lambda s, a: Ok(env) if env is not None and lit(a[0]) == 'BRACK_PLUGINS_PATH' else Err(V('unset')))
    e = ctx.engine(h); vals = dict(plugins_dir_path=dirs)
    args = compile_args(ctx, Int(5), FALSE, cat(V('stem'), '.[]'))
    args = raw('adt', *args.a[:3], tuple(vals.get(n, x) for n, x in zip(args.a[2], args.a[3])))
    return e, ctx.run(e, f, [args]), ctx.where(f)

H = 'e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855'
MODS = {'std_%s.wasm' % H: 'std', 'Html_0a1B.wasm': 'Html', 'a_1.wasm': 'a', 'std_z9.wasm': 'std', 'wasm_00.wasm': 'wasm'}
REST = ['std.wasm', 'README.md', 'std_0a', 'std_%s.wat' % H, '_0a.wasm', 'std_.wasm', 'notes', 'std_0awasm', 'std_0a_wasm', 'std_0a.wasm.bak', '.std_0a.wasm', 'std_0a.was', 'std_0a.WASM', 'a1_0a.wasm', 'std_a_b.wasm', 'std 0a.wasm', 'std_0a.wasm~']
DIRS = ['plugins', '/home/me/my_plugins/wasm', '.', '/x/lib_0.wasm/y']

def one(ctx, it):
    d, names = it
    e, outs, w = go(ctx, d, names); key = 'load'
    if e.panics: ctx.bad('panic', w, repr(e.panics[0])); return
    if not outs: ctx.undecided(key, 'no outcome'); return
    for s, ok, p, _ in outcomes(ctx, e, outs):
        evs = evlist(s.ev); show_ = '%s in %s' % (', '.join(names) or 'nothing', d)
        if not ok:
            ctx.bad('refused', w, 'compile fails on a plugins directory with %s' % show_) if not s.facts.vs and not s.facts.bl else ctx.undecided('refused', show_); continue
        got = {}; odd = None
        for x in evs:
            if x.fn == 'Plugin::new':
                n, pth = lit(x.args[0]), lit(x.args[1])
                if n is None or pth is None: odd = x; continue
                got[pth] = (n, x.args[2])
        if odd is not None: ctx.undecided(key, 'a plugin is loaded as %s from %s' % tuple(show(a)[:80] for a in odd.args[:2])); continue
        want = {d + '/' + n: MODS[n] for n in names if n in MODS}
        for pth in sorted(set(got) - set(want)): ctx.bad('extra', w, '%s: %s is loaded as plugin %s; it is not a module' % (show_, pth, got[pth][0]))
        for pth in sorted(set(want) - set(got)): ctx.bad('missed', w, '%s: the module %s is not loaded' % (show_, pth))
        if set(want) != set(got): continue
        for pth in want:
            if got[pth][0] != want[pth]: ctx.bad('name', w, '%s: %s is loaded as plugin %r, must be %r' % (show_, pth, got[pth][0], want[pth]))
            else: ctx.ok('name')
            fl = e.deref(s, got[pth][1])
            if fl.t != 'adt': ctx.undecided('flags', show(fl)[:100]); continue
            on = [n for n, v in zip(fl.a[2], fl.a[3]) if v is TRUE]
            if on: ctx.bad('flags', w, '%s is loaded with %s' % (pth, ', '.join(on)))
            elif all(v is FALSE for v in fl.a[3]): ctx.ok('flags')
            else: ctx.undecided('flags', show(fl)[:100])
        ctx.ok('loaded')
        ps = [x for x in evs if x.fn == 'Plugins::new']
        if len(ps) != 1: ctx.bad('handed', w, 'Plugins::new is called %d times' % len(ps)); continue
        a = e.deref(s, ps[0].args[0]); pl = [raw('app', 'plugin', *x.args) for x in evs if x.fn == 'Plugin::new']
        missing = [q for q in pl if not contains(a, q)]
        if missing: (ctx.bad if a.t in ('seq', 'cat') and not want else ctx.undecided)('handed', *([w] if a.t in ('seq', 'cat') and not want else []), 'handed over: ' + show(a)[:120])
        else: ctx.ok('handed')
        st = [x.fn for x in stages_run(s)]
        (ctx.ok('stages') if st == ['tokenize', 'parse', 'transform', 'expander', 'generate'] else ctx.bad('stages', w, '%s: runs %s' % (show_, ' '.join(st))))
        for x in stages_run(s):
            if x.fn in ('expander', 'generate') and not any(contains(e.deref(s, q), ps[0].res) or contains(e.deref(s, q), raw('app', 'plugins', ps[0].args[0])) for q in x.args): ctx.undecided('with', '%s is run with %s' % (x.fn, show(x.args[-1])[:100]))

def load(ctx):
    items = [('plugins', [])] + [(d, [m]) for d in DIRS for m in list(MODS) + REST]
    ms = list(MODS)
    items += [('plugins', [a, b]) for a in ms for b in ms if a != b and MODS[a] != MODS[b]] + [('plugins', [a, r]) for a in ms[:2] for r in REST] + [('plugins', [r, a]) for a in ms[:2] for r in REST] + [('plugins', ms[:3])]
    ctx.pmap(one, items); ctx.floor('plugin directories', len(items), 60)

def faults(ctx):
    a, b = list(MODS)[:2]; n = 0
    for what, kw in (('the plugins directory cannot be read', dict(baddir=True)), ('the first entry cannot be read', dict(badent=0)), ('the second entry cannot be read', dict(badent=1)), ('the first module cannot be loaded', dict(badload=0)), ('the second module cannot be loaded', dict(badload=1))):
        n += 1
        e, outs, w = go(ctx, 'plugins', [a, b], **kw)
        if e.panics: ctx.bad('fault/panic', w, '%s: %r' % (what, e.panics[0]))
        for s, ok, p, _ in outcomes(ctx, e, outs):
            if ok: ctx.bad('fault', w, 'compile succeeds although ' + what)
            elif stages_run(s): ctx.bad('fault/stages', w, '%s is run although %s' % (stages_run(s)[0].fn, what))
            elif printed(s) is not EMPTY: ctx.bad('fault/printed', w, 'output is printed although ' + what)
            else: ctx.ok('fault')
    ctx.floor('faults', n, 5)

def where(ctx):
    for what, dirs, env, want in (('-p', Some(V('pdir')), V('edir'), V('pdir')), ('-p without BRACK_PLUGINS_PATH', Some(V('pdir')), None, V('pdir')), ('BRACK_PLUGINS_PATH', NONE, V('edir'), V('edir'))):
        e, outs, w = go(ctx, 'plugins', [], dirs, env); n = 0
        for s, ok, p, _ in outcomes(ctx, e, outs):
            for x in evlist(s.ev):
                if x.fn == 'read_dir': n += 1; ctx.expect(e, s, 'directory', w, x.args[0], want, 'plugins directory with ' + what)
        ctx.floor('reads of the directory with ' + what, n, 1)
PARTS = [load, faults, where]
