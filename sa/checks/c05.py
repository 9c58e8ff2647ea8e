"""Recursion grows with nesting, never with length."""
from ..tok import *
from . import c15
from ..tr import *
from ..codegen import *
RULE = ('Each stage (tokenize_str, parse, transform, expander, generate) is analysed on families of documents that grow in length but not in nesting (characters of a word, words, spaces, lines, blank lines, commands, macro calls, arguments, lines of an argument, escapes, stray brackets, '
        'also inside one and two commands); the number of simultaneous activations of each function on the abstract call stack must be the same for the document with 5 and with 8 repetitions (thorough: also 14).')
ASSUMES = ['library calls use a bounded stack, apart from the closures handed to them', 'the compiler does not add stack frames']
FREE = ('macro', 'nodeid')

def peak(e):
    """record the largest number of simultaneous activations of one function"""
    e.peak = {}; call = e.call_fn
    def wrapped(fn, args, st, c, env=None):
        k = fn.key; n = sum(1 for x, _, _ in e.stack if x == k) + 1
        if n > e.peak.get(k, 0): e.peak[k] = n
        return call(fn, args, st, c, env)
    e.call_fn = wrapped
    return e

FAMILIES = {   # (before, repeated, after) as codes of tr.CMD; x = another character of a word, in the tokenizer only
    'lines': ('', 'tn', 't'), 'blank lines': ('t', 'nn', 't'), 'paragraphs': ('', 'tnn', 't'), 'inline commands': ('', 'S', ''), 'commands and text': ('t', 'St', ''), 'block commands': ('', 'Cn', ''), 'macro calls': ('', 'A', ''),
    'macro lines': ('', 'An', ''), 'escapes': ('t', 'b', 't'), 'stray brackets': ('', 'z', ''), 'backslashes': ('', '\\', 't'),
    'spaces': ('[', '_', 't]'), 'arguments': ('[', 't,', 't]'), 'words': ('[', 't_', 't]'), 'lines of an argument': ('[', 'tn', 't]'), 'commands in an argument': ('[', 'S', ']'), 'commands as arguments': ('[', 'S,', 't]'),
    'macros in an argument': ('[', 'A_', 't]'), 'escapes in an argument': ('[', 'e', 't]'), 'dots': ('[', '.', 't]'), 'commas': ('[', ',', 't]'), 'second level arguments': ('[[', 't,', 't]]'), 'second level spaces': ('[t,[', '_', 't],t]'),
    'not closed': ('[', 't,', ''), 'stray brackets in a command': ('t[', 'zt', '')}
HEAD = 'SquareBracketOpen Module Dot Ident WhiteSpace'.split()
def toks(code):
    out = []
    for c in code: out += HEAD if c == '[' else ['SquareBracketClose'] if c == ']' else CMD[c]
    return out
def text(ks): return [c for k in ks for c in ({'Text': ['x'], 'Module': ['x'], 'Ident': ['x'], 'NewLine': ['\n']}.get(k) or [literal(k)])]

def done(ctx, e, outs):
    e.returned = sum(ok for _, ok, _, _ in outcomes(ctx, e, outs)); return e

def judge(ctx, key, w, what, sizes):
    """sizes: [(n, {function: activations})]"""
    n0, p0 = sizes[0]
    for n, p in sizes[1:]:
        deep = {f: (p0.get(f, 0), v) for f, v in p.items() if v > p0.get(f, 0)}
        if deep:
            f = max(deep, key=lambda f: deep[f][1])
            ctx.bad(key, f, '%s: %s is active %d times at once for %d repetitions and %d times for %d: the stack grows with the length of the document' % (what, f, deep[f][0], n0, deep[f][1], n)); return
    ctx.ok(key, '%s: at most %d activations of one function' % (what, max(p0.values(), default=0)))

def measured(ctx, key, run):
    sizes = []
    for n in (5, 8, 14) if ctx.tier == 'thorough' else (5, 8):
        e = run(n)
        if not e.returned: raise Undecided('no result for %d repetitions' % n)
        sizes.append((n, dict(e.peak)))
    return sizes

def tokenizer(ctx):
    f = ctx.fn(TOKENIZE); w = ctx.where(f)
    fam = {k: tuple(text(toks(p)) for p in v) for k, v in FAMILIES.items()}
    fam.update({'characters of a word': ([], ['x'], []), 'characters of a word in a command': (list('[x.x '), ['x'], [']']), 'characters of a name': (['['], ['x'], ['.', 'x', ']']), 'characters of a command name': (list('[x.'), ['x'], [' ', ']']),
                'opened names': ([], ['['], ['x'])})
    for name, (a, b, c) in sorted(fam.items()):
        key = 'tokenize/' + name.replace(' ', '-')
        def run(n):
            t = Text(ctx, a + b * n + c); e = peak(t.engine()); e.unroll = 60
            return done(ctx, e, ctx.run(e, f, [t.term()]))
        def go(ctx, _): judge(ctx, key, w, 'tokenizing ' + name, measured(ctx, key, run))
        ctx.guarded(go, key, None)

def parser(ctx):
    f = ctx.fn(PARSE); w = ctx.where(f)
    for name, v in sorted(FAMILIES.items()):
        a, b, c = map(toks, v); key = 'parse/' + name.replace(' ', '-')
        def run(n):
            t = Toks(ctx, a + b * n + c); e = peak(ctx.engine()); e.unroll = 60
            return done(ctx, e, ctx.run(e, f, [t.term]))
        ctx.guarded(lambda ctx, _: judge(ctx, key, w, 'parsing ' + name, measured(ctx, key, run)), key, None)

def transformer(ctx):
    f = ctx.fn(TRANSFORM); w = ctx.where(f)
    for name, v in sorted(FAMILIES.items()):
        a, b, c = map(toks, v); key = 'transform/' + name.replace(' ', '-')
        def run(n):
            t = Toks(ctx, a + b * n + c); e = peak(ctx.engine()); e.unroll = 60
            e.returned = len(ctx.run(e, f, [cst_term(ctx, t, tree(t.ks))])); return e
        ctx.guarded(lambda ctx, _: judge(ctx, key, w, 'transforming ' + name, measured(ctx, key, run)), key, None)

def later(ctx):
    """expansion and generation of well-formed documents"""
    fx = ctx.fn(c15.EXPAND); fg = ctx.fn(GEN)
    for name, v in sorted(FAMILIES.items()):
        a, b, c = map(toks, v)
        errs = []; simplify(tree(a + b * 5 + c + ['EOF']), errs)
        if errs: continue
        def build(n):
            t = Toks(ctx, a + b * n + c); return c15.ast_term(ctx, t, simplify(tree(t.ks), []), (), {})
        def expand_(n):
            e = peak(ctx.engine({c15.MACRO: recorder('macro', Ok(enum_(ctx, AST, 'Text', struct_(ctx, 'brack_transformer::ast::LeafNode', id=V('id'), value=Some(V('x')), location=V('loc')))))})); e.unroll = 60
            return done(ctx, e, ctx.run(e, fx, [build(n), Mut(V('plugins'))]))
        def generate_(n):
            h = {x: recorder('hook', Ok(NONE)) for x in HOOKFN.values()}; h.update({x: recorder('cmd', Ok(raw('app', 'macro', Int(0)))) for x in CMDFN.values()})
            h['brack_plugin::plugins::Plugins::argument_types'] = recorder('argtypes', Ok(Seq(Tup(Str('a'), enum_(ctx, TYPE, 'TArray', V('elem'))))))
            e = peak(ctx.engine(h)); e.unroll = 60
            return done(ctx, e, ctx.run(e, fg, [build(n), Mut(V('plugins'))]))
        for st, f, run in (('expand', fx, expand_), ('generate', fg, generate_)):
            if st == 'generate' and 'A' in ''.join(v): continue
            key = st + '/' + name.replace(' ', '-')
            ctx.guarded(lambda ctx, _: judge(ctx, key, ctx.where(f), st + ' ' + name, measured(ctx, key, run)), key, None)
PARTS = [tokenizer, parser, transformer, later]
