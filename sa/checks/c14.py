"""Syntax errors stop `compile` (levels 4, 5); what each level prints."""
from ..lib import *
RULE = ('run_compile is analysed with the pipeline stages replaced by symbolic results, once per output level, --json flag, presence of syntax errors, failing stage and file extension. '
        'In each scenario every outcome must be the required one: with syntax errors (level 4/5) an error, nothing printed, and neither expander nor generator reached; a failing stage is an error that prints nothing; '
        'otherwise exactly the stages of that level run, each on the result of the previous one for the given file and with the loaded plugins, and the printed text is that level\'s result.')
ASSUMES = ['the stages themselves are judged by their own properties']
SC = 'brack::sub_commands::SubCommands'
STAGES = ['tokenize', 'parse', 'transform', 'expander', 'generate']
NAMES = {'tokenize': 'brack_tokenizer::tokenize::tokenize', 'parse': 'brack_parser::parse::parse', 'transform': 'brack_transformer::transform::transform',
         'expander': 'brack_expander::expand::expander', 'generate': 'brack_codegen::generate::generate'}
RES_OF = {'tokenize': 'tokens', 'parse': 'cst', 'expander': 'expanded', 'generate': 'text'}

def result_of(st, x):
    if st == 'tokenize': return Seq(raw('app', 'token0', x), raw('app', 'token1', x))
    return raw('app', RES_OF[st], x)

def stage_hooks(fail=None, nerr=0, errs=None):
    h = {}
    for st in STAGES:
        if st == 'transform':
            es = V('errs') if errs is None else errs
            h[NAMES[st]] = recorder(st, lambda s, a, es=es: Tup(raw('app', 'ast', a[0]), es))
        else:
            h[NAMES[st]] = recorder(st, lambda s, a, st=st: Err(V('E_' + st)) if fail == st else Ok(result_of(st, a[0])))
    return h

def printed(s):
    """the text an outcome wrote to standard output; None when part of it is printed in a summarised loop"""
    parts = []
    for x in evlist(s.ev):
        if x.fn == 'std::io::stdio::_print' or x.fn.endswith('io::Write::write_all') or x.fn.endswith('io::Write::write_fmt'):
            a = x.args[-1]
            parts.append(a.a[0] if a.t == 'fmt' else a)
    if not parts and any('io::' in x.fn and 'std::fs' not in x.fn for x in evlist(s.ev)): raise Undecided('output is written by calls this analysis does not know')
    return cat(*parts) if parts else EMPTY

def stages_run(s): return [x for x in evlist(s.ev) if x.fn in STAGES]

def compile_args(ctx, level, json, filename):
    c, a = ctx.prog.adts[SC]; vi = kinds(ctx, SC)['Compile']
    vals = dict(plugins_dir_path=Some(V('pdir')), backend=V('backend'), filename=filename, output_level=level, json=json)
    names = [f[0] for f in a['variants'][vi]['fields']]
    return Adt(SC, vi, names, [vals.get(n, V('arg_' + n)) for n in names])

def scenario(ctx, level, json, filename, errs, fail, entries=NIL):
    f = ctx.fn('bin:brack::run_compile')
    h = stage_hooks(fail, errs=errs)
    h['brack_plugin::plugin::Plugin::new'] = recorder('Plugin::new', lambda s, a: Ok(raw('app', 'plugin', *a)))
    h['brack_plugin::plugins::Plugins::new'] = recorder('Plugins::new', lambda s, a: Ok(raw('app', 'plugins', *a)))
    h['std::fs::read_dir'] = recorder('read_dir', Ok(entries))
    for j in ('to_string', 'to_string_pretty', 'to_vec'): h['serde_json::ser::' + j] = recorder('json', lambda s, a: Ok(raw('app', 'json', a[0])), event=False)
    h['regex::regex::string::Regex::new'] = recorder('regex', Ok(V('pattern')), event=False)
    e = ctx.engine(h)
    return e, ctx.run(e, f, [compile_args(ctx, Int(level) if isinstance(level, int) else level, Bool(json), filename)]), ctx.where(f)

def expected(level, json, FILE):
    R = lambda st, *a: raw('app', st, *a)
    tok = result_of('tokenize', FILE); cst = R('cst', tok); ast = R('ast', cst); ex = R('expanded', ast); gen = R('text', ex)
    val = {1: tok, 2: cst, 3: ast, 4: ex, 5: gen}[level]
    return [('tokenize', FILE), ('parse', tok), ('transform', cst), ('expander', ast), ('generate', ex)][:level], val

def levels(ctx):
    FILE = cat(V('stem'), '.[]'); n = 0
    for level in (1, 2, 3, 4, 5):
        for json in (False, True):
            for nerr in (0, 1, 3):
                n += 1
                errs = Seq(*[V('err%d' % i) for i in range(nerr)])
                e, outs, w = scenario(ctx, level, json, FILE, errs, None)
                key = 'level%d%s' % (level, '/json' if json else '') + ('/errors' if nerr else '')
                for s, ok, p, _ in outcomes(ctx, e, outs):
                    ran = stages_run(s); out = printed(s)
                    if level == 5 and json:
                        if ok: ctx.bad(key + '/accepted', w, 'JSON at level 5 is not refused')
                        elif out is not EMPTY: ctx.bad(key + '/printed', w, 'prints %s and then refuses' % show(out)[:200])
                        else: ctx.ok(key)
                        continue
                    if nerr and level >= 4:
                        if ok: ctx.bad(key + '/accepted', w, 'level %d succeeds although the document has %d syntax errors' % (level, nerr)); continue
                        late = [x.fn for x in ran if x.fn in ('expander', 'generate')]
                        if late: ctx.bad(key + '/continues', w, 'runs %s on a document with syntax errors' % late[0])
                        elif out is not EMPTY: ctx.bad(key + '/printed', w, 'prints %s for a document with syntax errors' % show(out)[:200])
                        else: ctx.ok(key)
                        continue
                    if not ok:
                        ctx.bad(key + '/refused', w, 'level %d fails although every stage succeeds' % level)
                        continue
                    want, val = expected(level, json, FILE)
                    if [x.fn for x in ran] != [x for x, _ in want]:
                        ctx.bad(key + '/stages', w, 'runs %s, must run %s' % ([x.fn for x in ran], [x for x, _ in want])); continue
                    for x, (st, arg) in zip(ran, want):
                        ctx.expect(e, s, key + '/input/' + st, w, x.args[0], arg, 'input of ' + st)
                        if st in ('expander', 'generate'): ctx.expect(e, s, key + '/plugins/' + st, w, x.args[1], raw('app', 'plugins', NIL), 'plugins given to ' + st)
                    if level == 5: ctx.expect(e, s, key + '/output', w, out, cat(val, '\n'), 'standard output of level 5')
                    elif out is EMPTY:
                        ctx.bad(key + '/silent', w, 'level %d prints nothing' % level)
                    elif level == 1 and not json:
                        if all(contains(out, t) for _, t in val.a[0]): ctx.ok(key + '/output')
                        else: ctx.bad(key + '/output', w, 'does not print every token: %s' % show(out)[:200])
                    elif json:
                        if contains(out, val) : ctx.ok(key + '/output')
                        else: ctx.bad(key + '/output', w, 'prints %s, which is not made from the result of level %d' % (show(out)[:200], level))
                    elif level == 3 and nerr:
                        if contains(out, errs.a[0][0][1]): ctx.ok(key + '/output')
                        else: ctx.bad(key + '/output', w, 'does not print the syntax errors')
                    elif contains(out, val): ctx.ok(key + '/output')
                    else: ctx.bad(key + '/output', w, 'prints %s, which is not made from the result of level %d' % (show(out)[:200], level))
                if e.panics: ctx.bad(key + '/panic', w, repr(e.panics[0]))
    ctx.floor('scenarios', n, 30)

def failing(ctx):
    FILE = cat(V('stem'), '.[]')
    for level in (1, 2, 3, 4, 5):
        for st in STAGES[:level]:
            if st == 'transform': continue
            e, outs, w = scenario(ctx, level, False, FILE, NIL, st)
            key = 'fail%d/%s' % (level, st)
            for s, ok, p, _ in outcomes(ctx, e, outs):
                if ok: ctx.bad(key + '/accepted', w, 'level %d succeeds although %s failed' % (level, st))
                elif printed(s) is not EMPTY: ctx.bad(key + '/printed', w, 'prints %s although %s failed' % (show(printed(s))[:200], st))
                else: ctx.ok(key)
            if e.panics: ctx.bad(key + '/panic', w, '%s failing: %r' % (st, e.panics[0]))

def names_levels(ctx):
    for level in (1, 2, 3, 4, 5):
        for fn in ('doc.md', 'doc.[]x', 'doc[]', '.[', 'doc.[]/'):
            e, outs, w = scenario(ctx, level, False, cat(V('stem'), fn), NIL, None)
            for s, ok, p, _ in outcomes(ctx, e, outs):
                if ok: ctx.bad('extension/accepted', w, 'a file named ...%s is compiled' % fn)
                else: ctx.ok('extension')
    FILE = cat(V('stem'), '.[]')
    for lv in (0, 6, 255):
        e, outs, w = scenario(ctx, lv, False, FILE, NIL, None)
        for s, ok, p, _ in outcomes(ctx, e, outs):
            if ok: ctx.bad('level/accepted', w, 'output level %d is accepted' % lv)
            else: ctx.ok('level')
PARTS = [levels, failing, names_levels]
