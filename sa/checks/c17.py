"""Commands: arity and argument passing follow the declared signature."""
import itertools
from ..codegen import *
RULE = ('The generators of curly and square commands are analysed on a node [Module m, Ident i, args...] with symbolic m, i, argument list and signature. Every successful outcome must call exactly one '
        'plugin command (m, i), with one value per declared parameter: Text(i-th), TextOption(Some(i-th)|None), TextArray(all from i on), under facts that prove the argument count to lie between '
        'the bounds of arg_counter over the declared types; every failing outcome must have a failing cause. arg_counter itself is summarised per parameter type.')
ASSUMES = ['usize additions do not wrap (argument counts are below 2^63)']
ARGT = PL + 'argument_types'; CNT = 'brack_plugin::types::arg_counter'

def scen(argres, cmdres):
    log = []
    h = {ARGT: recorder('argument_types', argres, log), CNT: recorder('arg_counter', Tup(VN('min'), VN('max')), log)}
    for k, n in HOOKFN.items(): h[n] = recorder('hook:' + k, Ok(NONE), log)
    for k, n in CMDFN.items(): h[n] = recorder('cmd:' + k, cmdres, log)
    return h

REST = V('rest'); TYPES = V('types')

def commands(ctx):
    cg = CG(ctx); T = kinds(ctx, TYPE)
    roots = [(f, k) for f, k in cg.roots() if k in CMDFN]
    ctx.floor('command generators', len(roots), 2)
    for f, k in roots:
        w = ctx.where(f)
        node = cg.command_node(k)
        allowed = [cg.K[x] for x in ALLOWED[k]]
        vs = kinds_of_elements(REST, allowed)
        h = scen(Ok(TYPES), Ok(V('out')))
        st = State()
        e, outs = cg.run(f, node, okchild, h, vs, st)
        n = length(REST); MIN, MAX = VN('min'), VN('max')
        good = 0
        for s, ok, p, _ in outcomes(ctx, e, outs):
            at_ = [x for x in evlist(s.ev) if x.fn == 'argument_types']
            cn = [x for x in evlist(s.ev) if x.fn == 'arg_counter']
            cm = [x for x in evlist(s.ev) if x.fn.startswith('cmd:')]
            below = s.facts.nonneg(sub(sub(MIN, n), Int(1))); above = s.facts.nonneg(sub(sub(n, MAX), Int(1)))
            if not ok:
                # failing cause: arity, or a required parameter beyond the arguments given
                cause = below or above or not cm
                if cm: ctx.bad('%s/command-result-dropped' % k, w, 'fails although the plugin command succeeded')
                elif below or above: ctx.ok('%s/arity-error' % k)
                elif any(it[0] == 'ge' and any(t.t in ('mu', 'bv') for t in lin_parts(it[1])[1]) for it in s.facts.items()): ctx.ok('%s/missing-argument' % k)
                elif cn and not (s.facts.nonneg(sub(n, MIN)) and s.facts.nonneg(sub(MAX, n))): ctx.undecided('%s/error-cause' % k, 'an error outcome merges several causes')
                else: ctx.bad('%s/spurious-error' % k, w, 'rejects a call whose argument count fits the signature')
                continue
            good += 1
            if len(cm) != 1:
                (ctx.bad if not any('extism' in x.fn for x in evlist(s.ev)) else lambda a, b, c: ctx.undecided(a, c))('%s/calls' % k, w, 'succeeds after %d plugin command calls' % len(cm)); continue
            c = cm[0]
            ctx.expect(e, s, '%s/plugin' % k, w, c.args[1], V('module'), 'plugin called')
            ctx.expect(e, s, '%s/command' % k, w, c.args[2], V('ident'), 'command called')
            ctx.expect(e, s, '%s/result' % k, w, p, V('out'), 'text of the command node')
            for x in at_[:1]:
                ctx.expect(e, s, '%s/signature-plugin' % k, w, x.args[1], V('module'), 'plugin whose signature is used')
                ctx.expect(e, s, '%s/signature-command' % k, w, x.args[2], V('ident'), 'command whose signature is used')
            if not cn:
                if at_: ctx.bad('%s/arity-unchecked' % k, w, 'calls the command without comparing the argument count with arg_counter of the signature')
                else: ctx.undecided('%s/arity' % k, 'signature not obtained through argument_types')
            else:
                want = mkfm(length(TYPES), 0, (((), (('e', fld(at(TYPES, raw('bv', 0)), '1')),)),))
                ctx.expect(e, s, '%s/arity-types' % k, w, cn[0].args[0], want, 'types counted')
                if s.facts.nonneg(sub(n, MIN)): ctx.ok('%s/arity-min' % k)
                else: ctx.bad('%s/arity-min' % k, w, 'calls the command with fewer arguments than its signature requires')
                if s.facts.nonneg(sub(MAX, n)): ctx.ok('%s/arity-max' % k)
                else: ctx.bad('%s/arity-max' % k, w, 'calls the command with more arguments than its signature allows')
            arguments(ctx, e, s, '%s/arguments' % k, w, c.args[3], n, T)
        if e.panics: ctx.bad('%s/panic' % k, w, repr(e.panics[0]))
        if not good: ctx.bad('%s/never-succeeds' % k, w, 'no successful outcome')
        # failures of arguments, of the signature lookup and of the command are errors
        for tag, hh, child in (('argument-error', scen(Ok(TYPES), Ok(V('out'))), errchild), ('signature-error', scen(Err(ERR), Ok(V('out'))), okchild), ('command-error', scen(Ok(TYPES), Err(ERR)), okchild)):
            e, outs = cg.run(f, node, child, hh, vs)
            for s, ok, p, _ in outcomes(ctx, e, outs):
                if ok and not (child is errchild and s.facts.nonneg(neg(n))): ctx.bad('%s/%s-swallowed' % (k, tag), w, 'returns Ok(%s) in spite of a failed step' % show(p)[:200])
                else: ctx.ok('%s/%s' % (k, tag))
        for bk in ('Angle', 'Invalid'):
            cg.cuts = {}
            e, outs = cg.run(f, node, okchild, scen(Ok(TYPES), Ok(V('out'))), kinds_of_elements(REST, [cg.K[bk]]))
            for s, ok, p, _ in outcomes(ctx, e, outs):
                if ok and not s.facts.nonneg(neg(n)) and not any(cg.K[bk] in ks for ks in cg.cuts.values()): ctx.bad('%s/dropped:%s' % (k, bk), w, 'a %s argument disappears' % bk)
                else: ctx.ok('%s/not-dropped:%s' % (k, bk))

def textof(t): return raw('app', 'text_of', t)

def arguments(ctx, e, s, key, w, got, n, T):
    """the value list, one per declared parameter"""
    if got.t != 'fm':
        if got.t == 'seq' and all(p[0] == 'e' for p in got.a[0]): ctx.bad(key, w, 'argument list does not follow the signature: ' + show(got)[:200])
        else: ctx.undecided(key, 'argument list not summarised: ' + show(got)[:200])
        return
    cnt, lv, cases = got.a
    b = raw('bv', lv)
    ctx.expect(e, s, key + '/count', w, cnt, length(TYPES), 'number of values')
    ty = fld(at(TYPES, b), '1')
    for tn, ti in T.items():
        for rel in ('given', 'missing'):
            base = s.copy()
            base.facts.set_vs(ty, {ti})
            base.facts.add_ge(sub(sub(n, b), Int(1)) if rel == 'given' else sub(b, n))
            wantl = None
            ith = textof(at(REST, b))
            if tn == 'TOption': want = enum_(ctx, VALUE, 'TextOption', Some(ith) if rel == 'given' else NONE)
            elif tn == 'TArray':
                bb = raw('bv', lv + 1)
                m = sub(n, b)
                want = enum_(ctx, VALUE, 'TextArray', mkfm(m, lv + 1, (((), (('e', textof(at(REST, add(b, bb)))),)),)) if rel == 'given' else NIL)
            elif rel == 'missing': continue      # that call fails
            else: want = enum_(ctx, VALUE, 'Text', ith)
            hit = 0
            for g, ps in cases:
                st2 = base.copy()
                if not consistent(e, st2, g): continue
                hit += 1
                k2 = '%s/%s/%s' % (key, tn, rel)
                if len(ps) != 1 or ps[0][0] != 'e':
                    ctx.bad(k2, w, 'parameter produces %d values' % len(ps)); continue
                ctx.expect(e, st2, k2, w, ps[0][1], want, 'value for a %s parameter (%s)' % (tn, rel))
            if not hit: ctx.bad('%s/%s/%s' % (key, tn, rel), w, 'a %s parameter gets no value' % tn)

def consistent(e, st, guards):
    for it in guards:
        k, t = it[0], it[1]
        if k == 'vs':
            c = st.facts.vs.get(t)
            if c is not None:
                if not (c & it[2]): return False
                st.facts.set_vs(t, c & it[2])
            else: st.facts.set_vs(t, it[2])
        elif k == 'ge':
            if st.facts.nonneg(sub(neg(t), Int(1))): return False
            st.facts.add_ge(t)
        elif k == 'eq':
            if not e.assume(st, e.mk_eq(t, it[2]), True): return False
        elif k == 'ne':
            if not e.assume(st, e.mk_eq(t, it[2]), False): return False
        elif k == 'bl':
            if not e.assume(st, t, it[2].a[0]): return False
    return True

KINDS7 = ('TInline', 'TOption', 'TBlock', 'TArray', 'TInlineCmd', 'TBlockCmd', 'TAST')
def type_(ctx, k, n=0):
    c, a = ctx.prog.adts[TYPE]; v = next(v for v in a['variants'] if v['name'] == k)
    return enum_(ctx, TYPE, k, *[V('inner%d' % n)] * len(v['fields'])) if v['fields'] else enum_(ctx, TYPE, k)

def bounds(sig):
    return sum(k not in ('TOption', 'TArray') for k in sig), (1 << 64) - 1 if 'TArray' in sig else len(sig)

def signatures(top):
    for n in range(top + 1): yield from itertools.product(KINDS7, repeat=n)
    for k in KINDS7:
        for n in (9, 40, 300): yield (k,) * n; yield ('TInline',) + (k,) * n + ('TOption',)
    yield KINDS7 * 6

def counter(ctx):
    """arg_counter of every short list of parameter types, and of long ones"""
    f = ctx.fn(CNT); w = ctx.where(f)
    xs = list(signatures(4 if ctx.tier == 'thorough' else 3))
    def part(ctx, chunk):
        for sig in chunk: ctx.guarded(count_one, 'counter', f, w, sig)
    ctx.pmap(part, [xs[i::8] for i in range(8)])
    ctx.floor('parameter lists', len(xs), 400)

def count_one(ctx, f, w, sig):
    key = 'counter/' + '_'.join(sig[:6]) + ('' if len(sig) <= 6 else '..%d' % len(sig))
    e = ctx.engine(); e.loop_max = 2000; lo, hi = bounds(sig); n = 0
    for s, v, *_ in ctx.run(e, f, [Seq(*[type_(ctx, k, i) for i, k in enumerate(sig)])]):
        n += 1
        ctx.expect(e, s, key + '/min', w, fld(v, '0'), Int(lo), 'minimum number of arguments for (%s)' % ', '.join(sig[:8]))
        ctx.expect(e, s, key + '/max', w, fld(v, '1'), Int(hi), 'maximum number of arguments for (%s)' % ', '.join(sig[:8]))
    if not n: ctx.bad(key + '/panic', w, 'no result: %r' % e.panics[:1])

def tree_(ctx, kind, children=None, value=None, n=[0]):
    n[0] += 1; i = n[0]
    if children is not None: r = struct_(ctx, 'brack_transformer::ast::InnerNode', id=V('id%d' % i), children=mkseq([('e', c) for c in children]), location=V('loc%d' % i))
    else: r = struct_(ctx, 'brack_transformer::ast::LeafNode', id=V('id%d' % i), value=Some(value), location=V('loc%d' % i))
    return enum_(ctx, AST, kind, r)

def calls(ctx):
    """whole documents with one command: every short signature against every number of arguments"""
    f = ctx.fn(GEN); w = ctx.where(f); xs = []
    for top, ks in ((1, KINDS7), (2, ('TInline', 'TOption', 'TArray', 'TBlockCmd')), (3, ('TInline', 'TOption', 'TArray'))) + (((4, ('TInline', 'TOption', 'TArray')),) if ctx.tier == 'thorough' else ()):
        for sig in itertools.product(ks, repeat=top):
            for n in range(top + 3): xs.append((sig, n, 'different'))
            xs.append((sig, top, 'equal')); xs.append((sig, top, 'empty')); xs.append((sig, top, 'blank'))
    xs += [((), 0, 'different'), ((), 1, 'different'), ((), 1, 'empty')]
    for k in ('TInline', 'TOption', 'TArray'):
        for m, n in ((12, 12), (12, 13), (12, 3), (40, 40), (2, 70)): xs.append(((k,) * m, n, 'different'))
    xs += [(('TInline', 'TArray'), 300, 'different'), (('TOption', 'TArray', 'TInline'), 20, 'different')]
    def part(ctx, chunk):
        for c in chunk:
            for kind in CMDFN:
                for way in ('text', 'expr'): ctx.guarded(call_one, 'call', f, w, kind, way, *c)
    ctx.pmap(part, [xs[i::32] for i in range(32)])
    ctx.floor('signatures and argument counts', len(xs), 250)

def call_one(ctx, f, w, kind, way, sig, n, texts):
    key = 'call/%s/%s/%s*%d/%s' % (kind, way, '_'.join(sig[:6]) + ('' if len(sig) <= 6 else '..%d' % len(sig)), n, texts)
    args = [{'different': V('t%d' % i), 'equal': Str('same'), 'empty': Str(''), 'blank': Str(' ')}[texts] for i in range(n)]
    leaves = [tree_(ctx, 'Text', value=a) for a in args]
    if way == 'expr': leaves = [tree_(ctx, 'Expr', [x]) for x in leaves]
    cmd = tree_(ctx, kind, [tree_(ctx, 'Module', value=V('module')), tree_(ctx, 'Ident', value=V('ident'))] + leaves)
    doc = tree_(ctx, 'Document', [tree_(ctx, 'Stmt', [cmd])] if way == 'expr' else [cmd])
    h = {ARGT: recorder('argument_types', Ok(Seq(*[Tup(V('name%d' % i), type_(ctx, k, i)) for i, k in enumerate(sig)])))}
    for k, x in HOOKFN.items(): h[x] = recorder('hook:' + k, Ok(NONE))
    for k, x in CMDFN.items(): h[x] = recorder('cmd:' + k, Ok(V('out')))
    e = ctx.engine(h); e.unroll = 100; e.loop_max = 4000; lo, hi = bounds(sig); fits = lo <= n <= hi
    want = []
    for i, k in enumerate(sig):
        if k == 'TOption': want.append(enum_(ctx, VALUE, 'TextOption', Some(args[i]) if i < n else NONE))
        elif k == 'TArray': want.append(enum_(ctx, VALUE, 'TextArray', Seq(*args[i:])))
        elif i < n: want.append(enum_(ctx, VALUE, 'Text', args[i]))
        else: fits = False       # a required parameter after an optional one, without an argument
    m = 0; what = '%d arguments for (%s)' % (n, ', '.join(sig[:8]))
    for s, ok, p, _ in outcomes(ctx, e, ctx.run(e, f, [doc, Mut(V('plugins'))])):
        m += 1; cm = [x for x in evlist(s.ev) if x.fn.startswith('cmd:')]
        if ok != fits:
            (ctx.bad if not unknown(s) else lambda a, b, c: ctx.undecided(a, c))(key, w, '%s are %s' % (what, 'accepted' if ok else 'refused')); continue
        if not ok:
            if cm: ctx.bad(key, w, 'calls the command with %s' % what)
            else: ctx.ok(key, 'refused')
            continue
        if len(cm) != 1: ctx.bad(key, w, '%d command calls for %s' % (len(cm), what)); continue
        if cm[0].fn != 'cmd:' + kind: ctx.bad(key + '/kind', w, 'a %s command is called as %s' % (kind, cm[0].fn)); continue
        ctx.expect(e, s, key + '/plugin', w, cm[0].args[1], V('module'), 'plugin called'); ctx.expect(e, s, key + '/command', w, cm[0].args[2], V('ident'), 'command called')
        ctx.expect(e, s, key + '/values', w, cm[0].args[3], Seq(*want), 'values passed for ' + what)
        ctx.expect(e, s, key + '/result', w, p, V('out'), 'text of the command')
    if not m: ctx.bad(key + '/panic', w, 'no outcome for %s: %r' % (what, e.panics[:1]))

def unknown(s):
    """did the path depend on a call that is not understood?"""
    return any(contains_opaque(it) for it in s.facts.items())
def contains_opaque(it):
    return any(getattr(x, 't', None) == 'app' and x.a[0] not in ('text_of',) for x in it[1:])

class Soft:
    """the summary for any signature and any number of arguments: proves the general case where the loops have a closed form, and leaves the alarms to the concrete cases"""
    def __init__(self, ctx): self.ctx = ctx
    def __getattr__(self, n): return getattr(self.ctx, n)
    def bad(self, key, where, why): self.ctx.undecided('any/' + key, why)
    def expect(self, e, s, key, w, got, want, what=''):
        r = self.ctx.same(e, s, got, want)
        if r is True: self.ctx.ok(key)
        else: self.ctx.undecided('any/' + key, '%s is %s' % (what, show(got)[:200]))

def general(ctx): commands(Soft(ctx))
PARTS = [general, counter, calls]
