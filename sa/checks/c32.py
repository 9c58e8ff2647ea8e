"""The command line: every subcommand does its own work, with its own arguments, and its failure is the command's."""
from ..lib import *
from .c14 import SC, printed
RULE = ('main is analysed once per subcommand, with the arguments symbolic, the work of the subcommands (project, compile, add, new, language server) replaced by symbolic results, and every step in turn failing. '
        'Every outcome must have run exactly the steps of that subcommand, in order, each on the given arguments (build: the project of the current directory is loaded, its plugins are fetched, then it is built), '
        'and must be a failure exactly when one of them failed, with no later step run.')
ASSUMES = ['clap parses the command line into the subcommand it declares', 'tokio::main drives the future of the command to its end']
FREE = ('prj', 'loaded', 'compiled')
PJ = 'brack_project_manager::project::Project'

def block_on(e, st, args, call):
    v = e.deref(st, args[-1])
    if v.t != 'coro': return None
    return e.call_fn(e.prog.fns[v.a[0]], [v, UNIT], st, {})

def go(ctx, sub, fail=None, env=None):
    f = ctx.fn('bin:brack::main')
    A = 'brack::Args' if 'brack::Args' in ctx.prog.adts else next(a for a in ctx.prog.adts if a.endswith('::Args') and ctx.prog.adts[a][0].startswith('brack'))
    st_ = lambda n: recorder(n, lambda s, a: Err(V('E_' + n)) if fail == n else Ok(UNIT))
    h = {'clap_builder::derive::Parser::parse': recorder('parse', struct_(ctx, A, subcommand=sub), event=False),
         'clap_builder::derive::Parser::try_parse': recorder('parse', Ok(struct_(ctx, A, subcommand=sub)), event=False),
         'tokio::runtime::runtime::Runtime::block_on': block_on,
         'tokio::runtime::builder::Builder::build': recorder('runtime', Ok(V('runtime')), event=False),
         'tokio::runtime::runtime::Runtime::new': recorder('runtime', Ok(V('runtime')), event=False),
         PJ + '::new': recorder('Project::new', lambda s, a: raw('app', 'prj', a[0])),
         PJ + '::load_brack_toml': st_('load'), PJ + '::download_plugins_using_config': st_('download'), PJ + '::build': st_('build'),
         'brack::run_compile': st_('compile'), 'brack::new_project': st_('new'), 'bin:brack::run_compile': st_('compile'), 'bin:brack::new_project': st_('new'),
         'brack_project_manager::plugin::add_plugin': st_('add'), 'brack_language_server::server::Server::run': st_('serve'),
         'std::env::var': recorder('env', Ok(env) if env is not None else Err(V('unset')), event=False)}
    e = ctx.engine(h)
    return e, ctx.run(e, f, []), ctx.where(f)

STEPS = ('load', 'download', 'build', 'compile', 'new', 'add', 'serve')
def sub(ctx, which, **kw):
    c, a = ctx.prog.adts[SC]; vi = kinds(ctx, SC)[which]
    return Adt(SC, vi, [f[0] for f in a['variants'][vi]['fields']], [kw[f[0]] for f in a['variants'][vi]['fields']])

def judge(ctx, key, e, outs, w, steps, fail, arg):
    want = steps if fail is None else steps[:steps.index(fail) + 1]
    if e.panics: ctx.bad(key + '/panic', w, repr(e.panics[0]))
    if not outs and not e.panics: ctx.undecided(key, 'no outcome')
    for s, ok, p, _ in outcomes(ctx, e, outs):
        evs = [x for x in evlist(s.ev) if x.fn in STEPS]; got = [x.fn for x in evs]
        for x in evlist(s.ev):
            if x.fn == 'Project::new':
                d = lit(x.args[0])
                if d is None: ctx.undecided(key + '/where', 'directory of the project: ' + show(x.args[0])[:100])
                elif d in ('.', './', ''): ctx.ok(key + '/where')
                else: ctx.bad(key + '/where', w, 'the project of %r is built, not that of the current directory' % d)
        if got != want: ctx.bad(key + '/steps', w, 'runs %s, must run %s%s' % (' '.join(got) or 'nothing', ' '.join(want) or 'nothing', ' because %s fails' % fail if fail else '')); continue
        ctx.ok(key + '/steps')
        if ok != (fail is None): ctx.bad(key + '/outcome', w, 'succeeds although %s failed' % fail if ok else 'fails although every step succeeded'); continue
        ctx.ok(key + '/outcome')
        if arg is not None:
            for x in evs: ctx.expect(e, s, key + '/argument', w, x.args[0], arg, 'argument of ' + x.fn)
        if key == 'build':
            first = e.deref(s, evs[0].args[0])
            if not contains(first, raw('app', 'prj', Str('.'))) and first.t == 'v': ctx.undecided(key, 'project loaded: ' + show(first)[:100])

def table(ctx):
    n = 0; comp = dict(plugins_dir_path=V('pdir'), backend=V('backend'), filename=V('file'), output_level=VN('level'), json=V('json'))
    T = [('build', sub(ctx, 'Build'), ['load', 'download', 'build'], None), ('compile', sub(ctx, 'Compile', **comp), ['compile'], sub(ctx, 'Compile', **comp)),
         ('new', sub(ctx, 'New', name=V('name')), ['new'], V('name')), ('add', sub(ctx, 'Add', schema=V('reference')), ['add'], V('reference')), ('language-server', sub(ctx, 'LanguageServer'), ['serve'], None)]
    for key, sc, steps, arg in T:
        for fail in [None] + steps:
            n += 1; e, outs, w = go(ctx, sc, fail); judge(ctx, key, e, outs, w, steps, fail, arg)
    ctx.floor('scenarios', n, 12)
    for env in (None, V('wanted')):
        e, outs, w = go(ctx, sub(ctx, 'Version'), env=env)
        judge(ctx, 'version', e, outs, w, [], None, None)
        for s, ok, p, _ in outcomes(ctx, e, outs):
            t = printed(s)
            if env is not None:
                ctx.expect(e, s, 'version/text', w, t, cat('Brack ', env, '\n'), 'version printed when APP_VERSION is set')
            elif lit(t) is None: ctx.undecided('version/text', show(t)[:100])
            else: (ctx.ok if re.fullmatch(r'Brack \d+\.\d+\.\d+\n', lit(t)) else lambda k: ctx.bad(k, w, 'prints %r' % lit(t)))('version/text')
PARTS = [table]
