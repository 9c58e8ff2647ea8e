"""Completion: an opening bracket offers exactly the commands that bracket can call."""
from ..lsp import *
from .c29 import member, elements
RULE = ('The server is analysed on textDocument/completion with known plugins (symbolic names, commands of every type, several plugins and commands) and an arbitrary trigger: each comparison of the trigger is a separate path. '
        'Triggered by [, { or <, exactly the commands of type TInline, TBlock or TAST are offered, once each; any other trigger offers nothing; no trigger, or no project, is answered with null. '
        'An item is labelled <module>.<command> and inserts, as a snippet, that name, a space, the cursor stop $0 and the closing bracket that belongs to the opening one. The plugins asked are those of the open project.')
ASSUMES = ['Plugins::new keeps the plugins it is given (C18 covers the lookups)', 'the order of offers is that of a hash map']
FREE = ('deserialize', 'plugnew')
CLOSE = {'[': ('TInline', ']'), '{': ('TBlock', '}'), '<': ('TAST', '>')}

def plugin(ctx, n, cmds):
    """cmds: [(command name term, type name)]"""
    from ..models import NILBASE
    T_ = kinds(ctx, TYPE)
    names = {i: f for f, i in T_.items()}
    es = []
    for i, (c, t) in enumerate(cmds):
        fs = ctx.prog.adts[TYPE][1]['variants'][T_[t]]['fields']
        es.append(Tup(Tup(c, enum_(ctx, TYPE, t, *[V('inner%d' % j) for j in range(len(fs))])), V('meta_%s_%d' % (n, i))))
    return raw('updf', V('plugin_' + n), (('name', V(n)), ('signature_to_metadata', raw('hm', NILBASE, Seq(*es)))))

PARAMS = "lsp_types::completion::_::<impl serde::de::Deserialize<'de> for lsp_types::completion::CompletionParams>::deserialize"

def run(ctx, plugs, project=True, trig=None):
    from ..models import NILBASE
    m = Msg('m', {'jsonrpc': S('2.0'), 'id': I('id'), 'method': S('textDocument/completion'), 'params': O('p')})
    hm = raw('hm', NILBASE, Seq(*[Tup(fld(p, 'name'), p) for p in plugs]))
    ps = raw('updf', V('plugins'), (('name_to_plugin', hm),))
    h = {'brack_plugin::plugin::Plugin::new': recorder('Plugin::new', lambda s, a: Ok(raw('app', 'plugnew', *a))), 'brack_plugin::plugins::Plugins::new': recorder('Plugins::new', Ok(ps))}
    if trig is not None: h[PARAMS] = recorder('completion params', Ok(raw('updf', V('params'), (('context', Some(raw('updf', V('context'), (('trigger_character', Some(Str(trig))),)))),))))
    srv = raw('updf', V('server'), (('project', Some(V('project')) if project else NONE),))
    return Wire(ctx, [m.wire()], [m], hooks=h, srv=srv)

def trigger(w, s):
    """('none',) | ('is', text) | ('other',) | None: what the path knows about the trigger"""
    t = None
    for k, v in list(s.facts.vs.items()):
        if show(k).endswith('trigger_character') and v == frozenset([0]): return ('none',)
    for k, v in s.facts.eq.items():
        if 'trigger_character' in show(k) and lit(v) is not None: return ('is', lit(v))
    return ('other',)

def play(ctx, key, plugs, cmds, what, trig=None):
    """cmds: [(module term, command term, type name)]"""
    w = run(ctx, plugs, trig=trig)
    panics(ctx, w, key)
    seen = set()
    for s, ok, p, _ in w.outs:
        if not ok: ctx.bad(key + '/stops', w.where, what + ': the server stops'); continue
        cs = [classify(f.body) for f in frames(ctx, w.e, s)]
        if any(c is None for c in cs): ctx.undecided(key, 'a message written is not understood'); continue
        rs = [c for c in cs if c[0] == 'response']
        if len(rs) != 1: ctx.bad(key + '/answers', w.where, what + ': %d answers' % len(rs)); continue
        if rs[0][2] == 'error': continue
        v = jval(rs[0][3])
        tr = trigger(w, s)
        if trig is not None and any(x.fn == 'completion params' for x in evlist(s.ev)): tr = ('is', trig)
        if v is None:
            if tr[0] == 'none': ctx.ok('untriggered'); seen.add('none')
            elif tr[0] == 'is': ctx.bad(key + '/null', w.where, '%s: trigger %r is answered with null' % (what, tr[1]))
            continue
        if not any(x.fn == 'Plugins::new' for x in evlist(s.ev)): ctx.undecided(key, 'answers without asking the plugins'); continue
        el = elements(member(v, '0') if v.t == 'adt' and v.a[2] == ('0',) and v.a[3][0].t == 'seq' else v)
        if v.t == 'adt' and v.a[2] == ('0',): el = elements(v.a[3][0])
        if el is None: ctx.undecided(key, 'offers are %s' % show(v)[:300]); continue
        if tr[0] == 'none': ctx.bad(key + '/untriggered', w.where, '%s: commands are offered without a trigger' % what); continue
        br = tr[1] if tr[0] == 'is' and tr[1] in CLOSE else None
        seen.add(br or 'other')
        want = [(m_, c_) for m_, c_, t in cmds if br and t == CLOSE[br][0]]
        labels = [cat(m_, '.', c_) for m_, c_ in want]
        got = [member(x, 'label') for x in el]
        bad = False
        for g in got:
            r = [w.ctx.same(w.e, s, g, l) for l in labels]
            if not any(x is True for x in r):
                if all(x is False for x in r): ctx.bad(key + '/offers', w.where, '%s: trigger %r offers %s, which it must not' % (what, tr[-1], show(g)[:100]))
                else: ctx.undecided(key, 'label %s' % show(g)[:100])
                bad = True
        for l in labels:
            n = sum(1 for g in got if ctx.same(w.e, s, g, l) is True)
            if n != 1 and not bad: ctx.bad(key + '/offers', w.where, '%s: trigger %r offers %s %d times' % (what, tr[-1], show(l), n)); bad = True
        if bad: continue
        ctx.ok(key + '/offers')
        for x, g in zip(el, got):
            ctx.expect(w.e, s, 'insert', w.where, member(x, 'insert_text'), Some(cat(g, ' $0' + CLOSE[br][1])) if member(x, 'insert_text').t == 'adt' else cat(g, ' $0' + CLOSE[br][1]), 'text inserted for an offer of %r' % br)
            f = member(x, 'insert_text_format')
            while f.t == 'adt' and len(f.a[3]) == 1: f = f.a[3][0]
            if f.t == 'int':
                if f.a[0] != 2: ctx.bad('format', w.where, 'an offer is inserted as plain text, its $0 included')
                else: ctx.ok('format')
            elif f.t == 'adt' and f.a[0] == OPT: ctx.bad('format', w.where, 'an offer is inserted as plain text, its $0 included')
            else: ctx.undecided('format', 'format is %s' % show(f)[:80])
        # the project's plugins were loaded
        for x in evlist(s.ev):
            if x.fn == 'Plugins::new':
                src = x.args[0]
                if contains(src, raw('app', 'entries', fld(V('project'), 'plugins_metadata'))) or 'plugins_metadata' in show(src): ctx.ok('plugins')
                else: ctx.undecided('plugins', 'plugins are built from %s' % show(src)[:100])
    return seen

def offers(ctx):
    ts = list(kinds(ctx, TYPE))
    a = V('modA'); b = V('modB')
    seen = set()
    def go(key, spec, what, trig=None):
        plugs = [plugin(ctx, n, [(c, t) for c, t in cmds]) for n, cmds in spec]
        cmds = [(V(n), c, t) for n, cs in spec for c, t in cs]
        seen.update(play(ctx, key, plugs, cmds, what, trig))
    go('none', [], 'no plugin')
    go('empty', [('modA', [])], 'a plugin without commands')
    for t in ts: go('single', [('modA', [(V('cmd0'), t)])], 'one command of type ' + t)
    go('many', [('modA', [(V('cmd%d' % i), t) for i, t in enumerate(ts)])], 'a command of every type')
    go('two', [('modA', [(V('cmd0'), 'TInline'), (V('cmd1'), 'TBlock')]), ('modB', [(V('cmd2'), 'TInline'), (V('cmd3'), 'TAST')])], 'two plugins')
    for tr in ('[', '{', '<', ']', '}', '>', '.', '', '[[', '{[', ' [', 'a'): go('known', [('modA', [(V('cmd%d' % i), t) for i, t in enumerate(ts)])], 'a command of every type', tr)
    for br in list(CLOSE) + ['other', 'none']:
        if br not in seen: ctx.undecided('trigger', 'no path for trigger %s' % br)
    ctx.floor('triggers told apart', len(seen & set(CLOSE)), 1)

def noproject(ctx):
    w = run(ctx, [], project=False)
    for s, ok, p, _ in w.outs:
        for c in [classify(f.body) for f in frames(ctx, w.e, s)]:
            if c is None: ctx.undecided('noproject', 'a message written is not understood')
            elif c[0] == 'response' and c[2] == 'result' and jval(c[3]) is not None: ctx.bad('noproject', w.where, 'commands are offered without a project')
            else: ctx.ok('noproject')
PARTS = [offers, noproject]
