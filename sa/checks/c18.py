"""Bracket kind selects the declared return type; calls reach exactly the named plugin and command."""
from ..codegen import *
from . import c17
RULE = ('The command generators are analysed per bracket kind for the signature type they look up and the command class they call; the Plugins methods are analysed with a symbolic plugin table down to the '
        'WASM call: exactly one call, on the plugin registered under the module name, to the call_name declared for (command, type), with the JSON-wrapped arguments, its result returned unchanged; '
        'unknown plugin or command means Err and no call.')
ASSUMES = ['HashMap lookup follows key equality', 'extism calls the export it is given']
EXT = 'extism::plugin::Plugin::call'
WANT = {'Curly': 'TBlock', 'Square': 'TInline'}

def brackets(ctx):
    cg = CG(ctx)
    roots = [(f, k) for f, k in cg.roots() if k in CMDFN]
    ctx.floor('command generators', len(roots), 2)
    for f, k in roots:
        w = ctx.where(f)
        e, outs = cg.run(f, cg.command_node(k), okchild, c17.scen(Ok(c17.TYPES), Ok(V('out'))), kinds_of_elements(c17.REST, [cg.K[x] for x in ALLOWED[k]]))
        seen = 0
        for s, ok, p, _ in outcomes(ctx, e, outs):
            for x in evlist(s.ev):
                if x.fn.startswith('cmd:'):
                    seen += 1
                    if x.fn == 'cmd:' + k: ctx.ok('%s/called-as' % k, 'called as %s' % WANT[k])
                    else: ctx.bad('%s/called-as' % k, w, '%s command is called as %s' % (k, WANT[x.fn[4:]]))
                elif x.fn == 'argument_types':
                    ctx.expect(e, s, '%s/looked-up-as' % k, w, x.args[3], enum_(ctx, TYPE, WANT[k]), 'return type of the signature looked up')
        if not seen: ctx.bad('%s/never-called' % k, w, 'no path calls a plugin command')

def methods(ctx):
    # the three command classes
    for m, ty, extra in (('call_inline_command', 'TInline', [V('args')]), ('call_block_command', 'TBlock', [V('args')]), ('call_macro_command', 'TAST', [V('ast'), V('id')])):
        f = ctx.fn(PL + m); w = ctx.where(f)
        e = ctx.engine(); outs = ctx.run(e, f, [Mut(V('plugins')), V('plugin'), V('command')] + extra)
        P = raw('app', 'hmget', fld(V('plugins'), 'name_to_plugin'), V('plugin'))
        MD = raw('app', 'hmget', fld(fld(P, '0'), 'signature_to_metadata'), Tup(V('command'), enum_(ctx, TYPE, ty)))
        good = 0
        for s, ok, p, _ in outcomes(ctx, e, outs):
            calls = [x for x in evlist(s.ev) if x.fn == EXT]
            if ok:
                good += 1
                if len(calls) != 1: ctx.bad('%s/calls' % m, w, 'succeeds after %d WASM calls' % len(calls)); continue
                c = calls[0]
                ctx.expect(e, s, '%s/plugin' % m, w, c.args[0], fld(fld(P, '0'), 'extism_plugin'), 'WASM instance called')
                ctx.expect(e, s, '%s/export' % m, w, c.args[1], fld(fld(MD, '0'), 'call_name'), 'export called')
                inner = c.args[2]
                inner = inner.a[3][0] if inner.t == 'adt' else inner
                ctx.expect(e, s, '%s/arguments' % m, w, inner, extra[0] if len(extra) == 1 else Tup(*extra), 'arguments sent')
                ctx.expect(e, s, '%s/result' % m, w, p, fld(c.res, '0') if len(extra) == 1 else fld(fld(c.res, '0'), '0'), 'value returned')
            else:
                nop, nomd = s.facts.vs.get(P) == frozenset([0]), s.facts.vs.get(MD) == frozenset([0])
                failed = calls and s.facts.vs.get(calls[-1].res) == frozenset([1])
                if (nop or nomd) and calls: ctx.bad('%s/called-unknown' % m, w, 'calls WASM although plugin or command is not registered')
                elif nop or nomd or failed: ctx.ok('%s/error' % m)
                elif calls: ctx.bad('%s/error-after-call' % m, w, 'fails although the call succeeded')
                else: ctx.undecided('%s/error' % m, 'cause of an error outcome not recognised')
            for q, what in ((P, 'plugin'), (MD, 'command')):
                if ok and s.facts.vs.get(q) != frozenset([1]): ctx.bad('%s/unchecked-%s' % (m, what), w, 'succeeds without the %s being registered' % what)
        if not good: ctx.bad('%s/never' % m, w, 'never succeeds')
        for x in e.panics: ctx.bad('%s/panic' % m, w, repr(x))
    f = ctx.fn(PL + 'argument_types'); w = ctx.where(f)
    e = ctx.engine(); outs = ctx.run(e, f, [V('plugins'), V('plugin'), V('command'), V('type')])
    P = raw('app', 'hmget', fld(V('plugins'), 'name_to_plugin'), V('plugin'))
    MD = raw('app', 'hmget', fld(fld(P, '0'), 'signature_to_metadata'), Tup(V('command'), V('type')))
    for s, ok, p, _ in outcomes(ctx, e, outs):
        if ok:
            ctx.expect(e, s, 'argument_types/value', w, p, fld(fld(MD, '0'), 'argument_types'), 'signature returned')
        elif s.facts.vs.get(P) == frozenset([0]) or s.facts.vs.get(MD) == frozenset([0]): ctx.ok('argument_types/error')
        else: ctx.undecided('argument_types/error', 'cause of an error outcome not recognised')
    for x in e.panics: ctx.bad('argument_types/panic', w, repr(x))
PARTS = [brackets, methods]
