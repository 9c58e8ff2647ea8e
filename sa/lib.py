"""Shared vocabulary of the checks: node kinds, scenario runs, small queries on outcomes."""
from .core import *
from . import terms as tm

AST = 'brack_transformer::ast::AST'
CST = 'brack_parser::cst::CST'
TOK = 'brack_tokenizer::tokens::Token'
TYPE = 'brack_plugin::types::Type'
VALUE = 'brack_plugin::value::Value'
LOC = 'brack_tokenizer::tokens::Location'
LOCD = 'brack_tokenizer::tokens::LocationData'

def kinds(ctx, path):
    """{variant name: index}"""
    r = ctx.prog.adts.get(path)
    if r is None: raise Undecided('type %s not found' % path)
    return {v['name']: i for i, v in enumerate(r[1]['variants'])}

def struct_(ctx, path, **fields):
    r = ctx.prog.adts.get(path)
    if r is None: raise Undecided('type %s not found' % path)
    names = [f[0] for f in r[1]['variants'][0]['fields']]
    if set(names) != set(fields): raise Undecided('shape of %s: fields %s' % (path, names))
    return Adt(path, 0, names, [fields[n] for n in names])

def enum_(ctx, path, var, *fields):
    vi = kinds(ctx, path)[var]
    names = [f[0] for f in ctx.prog.adts[path][1]['variants'][vi]['fields']]
    return Adt(path, vi, names, fields)

def argtypes(fn): return [fn.types[t]['s'] for t in fn.locals[1:fn.argc + 1]]
def rettype(fn): return fn.types[fn.locals[0]]['s']

def is_ok(v): return v.t == 'adt' and v.a[0] == RES and v.a[1] == 0
def is_err(v): return v.t == 'adt' and v.a[0] == RES and v.a[1] == 1

def outcomes(ctx, e, outs):
    """split symbolic Result values into Ok/Err outcomes: [(state, ok?, payload, finals)]"""
    r = []
    for s, v, fin in outs:
        for s2, ok, p in e.res_cases(s.copy(), v):
            ctx.known(e, s2.facts); r.append((s2, ok, p, fin))
    return r

def events(s, *names):
    return [x for x in evlist(s.ev) if x.fn in names or any(x.fn.endswith(n) for n in names)]

def recorder(name, value, log=None, event=True):
    """hook: record an event and return value (a term, or a function of the arguments)"""
    def h(e, st, args, call):
        vals = norm_paths(name, tuple(e.deref(st, a) for a in args))
        v = value(st, vals) if callable(value) else value
        fr = call['fr'] if call else None
        if event: st.ev = eng.Ev(st.ev, name, vals, v, e.site(fr, call['bb']) if fr else '', st.facts.copy())
        if log is not None: log.append((vals, st.facts.copy(), fr['fn'].key if fr else ''))
        return [(st, v)]
    return h

def assume_le(st, a, b):
    """b - a >= 0"""
    st.facts.add_ge(sub(b, a))

def nonneg(st, l): return st.facts.nonneg(l)
