"""`brack build`: which files are compiled, where the output goes, what aborts it."""
from ..lib import *
from .c14 import stage_hooks, stages_run, NAMES, STAGES, result_of, printed
RULE = ('Project::build is analysed on every docs directory of up to two entries drawn from {x.[], x.md, x without extension}, with symbolic names, and the pipeline stages replaced by symbolic results, with and without syntax errors and with each stage failing on either document. '
        'Each `.[]` entry must be tokenized, parsed, transformed, expanded and generated in order with the loaded plugins and written to out/<stem>.<backend>; nothing else may be written; an error in a document must end the build without writing that document. '
        'Every plugin of the project must be loaded under its own name, path and flags.')
ASSUMES = ['directories of at most two entries are representative (the loop treats entries uniformly)', 'the pipeline stages are judged by their own properties']
PJ = 'brack_project_manager::project::Project'
KINDS = {'doc': '.[]', 'md': '.md', 'bare': '', 'near': '.[]~', 'txt': '.[].txt', 'dotted': '.[]'}
DOC = ('doc', 'dotted')
WRITES = ('std::fs::write', 'std::fs::File::create', 'std::fs::rename', 'std::fs::copy', 'std::fs::remove_file', 'std::fs::remove_dir_all', 'std::fs::remove_dir')

def entry(i, kind):
    atom = V('stem%d' % i); stem = cat(atom, '.', V('half%d' % i)) if kind == 'dotted' else atom
    return dict(ent=V('entry%d' % i), path=cat('docs/', stem, KINDS[kind]), stem=stem, atom=atom, kind=kind, i=i)

def path_hooks(ents):
    """pure path functions on the known entry paths"""
    by = {x['path']: x for x in ents}; byent = {x['ent']: x for x in ents}
    def on(fn_, other=None):
        def h(e, st, args, call):
            a = e.deref(st, args[0])
            if a in by: return [(st, fn_(by[a]))]
            if other is not None and lit(a) in OUT: return [(st, other(st))]
            return None
        return h
    there = lambda st: Bool(made(st))
    def path_of(e, st, args, call):
        a = e.deref(st, args[0])
        return [(st, byent[a]['path'])] if a in byent else None
    full = lambda x: cat(x['stem'], KINDS[x['kind']])
    ext = lambda x: {'doc': Some(Str('[]')), 'dotted': Some(Str('[]')), 'md': Some(Str('md')), 'bare': NONE, 'near': Some(Str('[]~')), 'txt': Some(Str('txt'))}[x['kind']]
    stem = lambda x: Some(cat(x['stem'], '.[]') if x['kind'] == 'txt' else x['stem'])
    return {'std::fs::DirEntry::path': path_of, 'std::path::Path::file_stem': on(stem), 'std::path::Path::extension': on(ext),
            'std::path::Path::file_name': on(lambda x: Some(full(x))),
            'std::path::Path::to_str': on2(by), 'std::ffi::os_str::OsStr::to_str': on2(by),
            'std::path::Path::to_string_lossy': lossy, 'std::ffi::os_str::OsStr::to_string_lossy': lossy,
            'std::path::Path::is_file': on(lambda x: TRUE, lambda st: FALSE), 'std::path::Path::is_dir': on(lambda x: FALSE, there), 'std::path::Path::exists': on(lambda x: TRUE, there),
            'std::path::Path::try_exists': on(lambda x: Ok(TRUE), lambda st: Ok(there(st)))}

def on2(by):
    def h(e, st, args, call):
        return [(st, Some(e.deref(st, args[0])))]
    return h

def lossy(e, st, args, call): return [(st, e.deref(st, args[0]))]

def project(ctx, meta=NIL):
    c, a = ctx.prog.adts[PJ]
    vals = dict(config=V('config'), plugins_metadata=raw('hm', raw('v', '{}'), meta) if meta is not None else V('meta'), root=Str('.'))
    names = [f[0] for f in a['variants'][0]['fields']]
    return Adt(PJ, 0, names, [vals.get(n, V(n)) for n in names])

def nilmap(ctx):
    from ..models import NILMAP
    return NILMAP

def run_build(ctx, ents, errs_for=None, fail=None, meta=NIL):
    """errs_for: entry index whose transform reports an error; fail: (entry index, stage)"""
    from .. import models as M
    f = ctx.fn(PJ + '::build')
    h = {}
    for st in STAGES:
        def mk(st):
            def val(s, a):
                who = next((x for x in ents if contains(a[0], x['path'])), None)
                i = who['i'] if who else -1
                if st == 'transform': return Tup(raw('app', 'ast', a[0]), Seq(V('err')) if i == errs_for and i >= 0 else NIL)
                if fail == (i, st): return Err(V('E'))
                return Ok(result_of(st, a[0]))
            return recorder(st, val)
        h[NAMES[st]] = mk(st)
    h['brack_plugin::plugin::Plugin::new'] = recorder('Plugin::new', lambda s, a: Ok(raw('app', 'plugin', *a)))
    h['brack_plugin::plugins::Plugins::new'] = recorder('Plugins::new', lambda s, a: Ok(raw('app', 'plugins', *a)))
    h['std::fs::read_dir'] = recorder('read_dir', listing(ents))
    for n in ('create_dir_all', 'create_dir'): h['std::fs::' + n] = recorder('std::fs::' + n, Ok(UNIT))
    h['std::fs::write'] = recorder('std::fs::write', lambda s, a: Ok(UNIT) if made(s) else Err(V('E_missing')))
    h.update(path_hooks(ents))
    names = [x[0] for x in ctx.prog.adts[PJ][1]['variants'][0]['fields']]
    vals = dict(config=V('config'), plugins_metadata=raw('hm', M.NILBASE, meta), root=Str('.'))
    prj = Adt(PJ, 0, names, [vals.get(n, V(n)) for n in names])
    e = ctx.engine(h); e.words = {x['atom'] for x in ents} | {V('half%d' % x['i']) for x in ents}
    return e, ctx.run(e, f, [prj]), ctx.where(f)

def listing(ents):
    def val(s, a):
        d = lit(a[0])
        if d is None: raise Undecided('lists a directory whose name is computed: ' + show(a[0])[:100])
        if d.rstrip('/') in ('docs', './docs'): return Ok(Seq(*[Ok(x['ent']) for x in ents]))
        return Ok(NIL) if made(s) else Err(V('E_missing'))
    return val

OUT = ('out', './out', 'out/', './out/')
def made(s):
    """has the build made sure that the output directory exists?"""
    for x in evlist(s.ev):
        if x.fn.startswith('std::fs::create_dir'):
            d = lit(x.args[0])
            if d is None: raise Undecided('creates a directory whose name is computed: ' + show(x.args[0])[:100])
            if d in OUT: return True
    return False

def writes(s): return [x for x in evlist(s.ev) if any(x.fn == n or x.fn.endswith(n.split('::', 1)[1]) for n in WRITES)]

def backend(): return fld(fld(V('config'), 'document'), 'backend')

def chain(path):
    tok = result_of('tokenize', path); cst = result_of('parse', tok); ast = raw('app', 'ast', cst); ex = result_of('expander', ast); return tok, cst, ast, ex, result_of('generate', ex)

def dirs(ks=tuple(KINDS)):
    yield []
    for a in ks: yield [entry(0, a)]
    for a in ks:
        for b in ks:
            if a in DOC or b in DOC: yield [entry(0, a), entry(1, b)]

def success(ctx):
    n = 0
    for ents in dirs():
        n += 1
        e, outs, w = run_build(ctx, ents)
        tag = '+'.join(x['kind'] for x in ents) or 'empty'
        docs = [x for x in ents if x['kind'] in DOC]
        if e.panics: ctx.bad('panic/' + tag, w, repr(e.panics[0]))
        for s, ok, p, _ in outcomes(ctx, e, outs):
            if not ok: ctx.bad('refused/' + tag, w, 'build fails on a directory of %s although every stage succeeds' % tag); continue
            ws = writes(s); ran = stages_run(s)
            if len(ws) != len(docs): ctx.bad('written/' + tag, w, 'a directory of %s makes %d writes (%s), must make %d' % (tag, len(ws), '; '.join(show(x.args[0])[:80] for x in ws), len(docs))); continue
            if [x.fn for x in ran] != STAGES * len(docs):
                if sorted(x.fn for x in ran) == sorted(STAGES * len(docs)): ctx.undecided('stages/' + tag, 'stages of different documents are interleaved')
                else: ctx.bad('stages/' + tag, w, 'runs %s' % [x.fn for x in ran])
                continue
            for k, d in enumerate(docs):
                tok, cst, ast, ex, gen = chain(d['path'])
                for x, a in zip(ran[k * 5:], (d['path'], tok, cst, ast, ex)):
                    ctx.expect(e, s, 'input/' + x.fn, w, x.args[0], a, 'input of %s for %s' % (x.fn, show(d['path'])))
                    if len(x.args) > 1: ctx.expect(e, s, 'plugins/' + x.fn, w, x.args[1], raw('app', 'plugins', NIL), 'plugins of ' + x.fn)
                wr = next((x for x in ws if contains(x.args[-1], d['atom'])), ws[k])
                ctx.expect(e, s, 'target', w, wr.args[0], cat('out/', d['stem'], '.', backend()), 'output file of docs/<stem>.[]')
                ctx.expect(e, s, 'content', w, wr.args[1], gen, 'content of the output file')
    ctx.floor('directories', n, 10)

def failing(ctx):
    for ents in ([entry(0, 'doc')], [entry(0, 'doc'), entry(1, 'md')], [entry(0, 'md'), entry(1, 'doc')], [entry(0, 'doc'), entry(1, 'doc')], [entry(0, 'dotted'), entry(1, 'doc')]):
        for d in ents:
            if d['kind'] not in DOC: continue
            for how in ['errors'] + [x for x in STAGES if x != 'transform']:
                e, outs, w = run_build(ctx, ents, errs_for=d['i'] if how == 'errors' else None, fail=(d['i'], how))
                key = 'stop/' + how
                if e.panics: ctx.bad(key + '/panic', w, repr(e.panics[0]))
                for s, ok, p, _ in outcomes(ctx, e, outs):
                    if ok: ctx.bad(key + '/accepted', w, 'the build succeeds although a document has %s' % ('syntax errors' if how == 'errors' else 'a failing %s stage' % how)); continue
                    if any(contains(x.args[0], d['atom']) for x in writes(s)): ctx.bad(key + '/written', w, 'writes the output of a document with %s' % how); continue
                    if any('Build succeeded' in (y if isinstance(y, str) else '') for y in str_parts(printed(s))): ctx.bad(key + '/announced', w, 'announces success although a document has %s' % how); continue
                    if how == 'errors' and any(x.fn in ('expander', 'generate') and contains(x.args[0], d['atom']) for x in stages_run(s)): ctx.bad(key + '/continues', w, 'expands a document with syntax errors'); continue
                    ctx.ok(key)

def loading(ctx):
    for n in (0, 1, 2):
        ms = [(V('name%d' % i), Tup(V('wasm%d' % i), V('flags%d' % i))) for i in range(n)]
        e, outs, w = run_build(ctx, [], meta=Seq(*[Tup(k, v) for k, v in ms]))
        for s, ok, p, _ in outcomes(ctx, e, outs):
            if not ok: ctx.bad('load/refused', w, 'fails although every plugin loads'); continue
            pn = [x for x in evlist(s.ev) if x.fn == 'Plugins::new']
            if len(pn) != 1: ctx.bad('load/once', w, 'builds %d plugin tables' % len(pn)); continue
            want = Seq(*[raw('app', 'plugin', k, v.a[0], v.a[1]) for k, v in ms])
            ctx.expect(e, s, 'load/%d' % n, w, pn[0].args[0], want, 'plugins loaded')
PARTS = [success, failing, loading]
