"""`brack new`: never touches what exists, creates a project that loads."""
import tomllib
from ..lib import *
RULE = ('new_project is analysed on a symbolic name with every file-system step succeeding or failing. The first effect must be the creation of the named directory by an operation that fails when it exists, and it must have succeeded before any other effect; '
        'every effect must lie at or under that directory and none may remove or replace anything; on success docs/main.[] (empty) and a Brack.toml must exist, and the Brack.toml text must be TOML whose keys are exactly those the configuration reader knows, with the given name; any failing step is an error.')
ASSUMES = ['std::fs::create_dir refuses an existing path', 'the display of a toml value is TOML for that value']
NEW = 'bin:brack::new_project'
MUTATE = re.compile(r'^std::fs::(write|File::create\w*|create_dir\w*|rename|copy|remove_\w+|OpenOptions::open|set_permissions|hard_link)$')
N = V('name')

def under(t):
    p = str_parts(t)
    if t is N: return True
    if p and p[0] is N and len(p) > 1 and isinstance(p[1], str) and p[1].startswith('/') and '..' not in p[1]: return True
    return False

def effects(s): return [x for x in evlist(s.ev) if MUTATE.match(x.fn)]

def steps(ctx):
    f = ctx.fn(NEW); w = ctx.where(f)
    e = ctx.engine(); e.words = {N}
    outs = ctx.run(e, f, [N])
    if e.panics: ctx.bad('panic', w, repr(e.panics[0]))
    n = 0; good = 0
    for s, ok, p, _ in outcomes(ctx, e, outs):
        ef = effects(s); n += 1
        for k, x in enumerate(ef):
            if 'remove' in x.fn or x.fn.endswith(('rename', 'copy', 'hard_link')): ctx.bad('destructive', w, '%s(%s)' % (x.fn, show(x.args[0])[:80])); continue
            if under(x.args[0]): ctx.ok('inside')
            elif all(isinstance(q, str) or q is N for q in str_parts(x.args[0])): ctx.bad('outside', w, '%s(%s) is not under the new directory' % (x.fn, show(x.args[0])[:80]))
            else: ctx.undecided('inside', show(x.args[0])[:200])
            if k == 0:
                if x.fn == 'std::fs::create_dir' and x.args[0] is N: ctx.ok('exclusive')
                elif x.fn == 'std::fs::create_dir': ctx.bad('exclusive', w, 'creates %s before the project directory' % show(x.args[0])[:80])
                elif any('exists' in show(t) for t in s.facts.bl): ctx.undecided('exclusive', 'existence is tested separately')
                else: ctx.bad('exclusive', w, '%s(%s) does not refuse an existing directory' % (x.fn, show(x.args[0])[:80]))
        failed = [x for x in ef if s.facts.vs.get(x.res) == frozenset([1])]
        for x in failed:
            if ef and x is ef[0] and len(ef) > 1: ctx.bad('refused/continues', w, 'continues with %s after the project directory could not be created' % ef[1].fn)
            if ok: ctx.bad('failed/accepted', w, 'succeeds although %s(%s) failed' % (x.fn, show(x.args[0])[:80]))
            else: ctx.ok('failed')
        known = [x for x in ef if s.facts.vs.get(x.res) is not None]
        if ok and len(known) < len(ef): ctx.bad('unchecked', w, 'the result of %s is ignored' % next(x.fn for x in ef if s.facts.vs.get(x.res) is None))
        if not ok and not failed: ctx.bad('refused', w, 'fails although every step succeeded')
        if ok and not failed:
            good += 1; contents(ctx, w, ef)
    ctx.floor('outcomes', n, 3)
    if not good: ctx.undecided('success', 'no successful outcome')

def contents(ctx, w, ef):
    files = {show(x.args[0]): x for x in ef if x.fn in ('std::fs::write',)}
    get = lambda rel: next((x for x in ef if x.args[0] is cat(N, '/' + rel)), None)
    d, m, t = get('docs'), get('docs/main.[]'), get('Brack.toml')
    if (d is None or 'create_dir' not in d.fn) and get('docs') is None: ctx.bad('docs', w, 'creates no docs directory')
    else: ctx.ok('docs')
    if m is None: ctx.bad('main', w, 'creates no docs/main.[]')
    else: ctx.ok('main')
    if t is None: ctx.bad('toml', w, 'creates no Brack.toml'); return
    if t.fn != 'std::fs::write': ctx.undecided('toml', t.fn); return
    ps = str_parts(t.args[1])
    quoted = raw('app', 'toml_text', N)
    if not all(isinstance(p, str) or p is N or p is quoted for p in ps): ctx.undecided('toml', 'content: ' + show(t.args[1])[:200]); return
    if N in ps: ctx.bad('toml/name', w, 'the name is written into Brack.toml as it is: a name with a quotation mark or a backslash spoils the file')
    text = ''.join(p if isinstance(p, str) else '"PLACEHOLDER"' if p is quoted else 'PLACEHOLDER' for p in ps)
    try: doc = tomllib.loads(text)
    except Exception as x: ctx.bad('toml/syntax', w, 'Brack.toml is not TOML: %s' % x); return
    cfg = [f[0] for f in ctx.prog.adts['brack_project_manager::config::Config'][1]['variants'][0]['fields']]
    dk = [f[0] for f in ctx.prog.adts['brack_project_manager::document::Document'][1]['variants'][0]['fields']]
    extra = set(doc) - set(cfg)
    miss = set(dk) - set(doc.get('document', {}))
    if extra: ctx.bad('toml/keys', w, 'Brack.toml has tables the reader does not know: %s' % sorted(extra))
    elif 'document' not in doc or miss: ctx.bad('toml/keys', w, 'Brack.toml lacks %s, which the reader requires' % (sorted(miss) or 'document'))
    elif set(doc['document']) - set(dk): ctx.bad('toml/keys', w, 'Brack.toml has keys the reader does not know: %s' % sorted(set(doc['document']) - set(dk)))
    else: ctx.ok('toml/keys')
    if doc.get('document', {}).get('name') == 'PLACEHOLDER': ctx.ok('toml/name')
    else: ctx.bad('toml/name', w, 'Brack.toml names the document %r' % doc.get('document', {}).get('name'))
    for k in ('version', 'backend'):
        if isinstance(doc.get('document', {}).get(k), str): ctx.ok('toml/types')
        else: ctx.bad('toml/types', w, '%s is not a string' % k)
    au = doc.get('document', {}).get('authors')
    if isinstance(au, list) and all(isinstance(a, str) for a in au): ctx.ok('toml/types')
    else: ctx.bad('toml/types', w, 'authors is not a list of strings')
    if isinstance(doc.get('plugins', {}), dict): ctx.ok('toml/types')
    else: ctx.bad('toml/types', w, 'plugins is not a table')
PARTS = [steps]
