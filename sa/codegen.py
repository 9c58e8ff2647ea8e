"""Per-node analysis of the code generator: every generator reachable from
brack_codegen::generate::generate, one node at a time, calls for child nodes cut."""
from .lib import *

GEN = 'brack_codegen::generate::generate'
PL = 'brack_plugin::plugins::Plugins::'
HOOKFN = {'Document': PL + 'call_document_hook', 'Stmt': PL + 'call_stmt_hook', 'Expr': PL + 'call_expr_hook', 'Text': PL + 'call_text_hook'}
CMDFN = {'Curly': PL + 'call_block_command', 'Square': PL + 'call_inline_command'}
ALLOWED = {'Document': ['Stmt', 'Expr', 'Curly', 'Square', 'Text'], 'Stmt': ['Expr', 'Curly', 'Square', 'Text'],
           'Expr': ['Expr', 'Curly', 'Square', 'Text'], 'Curly': ['Expr', 'Curly', 'Square', 'Text'], 'Square': ['Expr', 'Curly', 'Square', 'Text']}

def is_gen(fn):
    a = argtypes(fn)
    return rettype(fn).startswith('core::result::Result<alloc::string::String') and '&' + AST in a

class CG:
    def __init__(self, ctx):
        self.ctx = ctx; self.K = kinds(ctx, AST)
        self.N = {v: k for k, v in self.K.items()}
        self.cuts = {}            # fn -> set of kinds it is reached with

    def run(self, f, root, child=None, hooks=None, vs=None, st=None):
        ctx = self.ctx
        rootnode = root
        def cut(e, st, fn, args, call):
            if not is_gen(fn): return None
            i = argtypes(fn).index('&' + AST)
            c = e.deref(st, args[i])
            if c is rootnode: return None
            ks = {c.a[1]} if c.t == 'adt' else (st.facts.vs.get(c) or frozenset(self.N))
            self.cuts.setdefault(fn, set()).update(ks)
            return [(st, child(c) if child else raw('gen', c))]
        e = ctx.engine(hooks); e.cut = cut; e.vs_default = vs; e.join_limit = 400
        i = argtypes(f).index('&' + AST)
        args = [None] * f.argc
        for j, a in enumerate(argtypes(f)):
            if j == i: args[j] = root
            elif a == '&mut brack_plugin::plugins::Plugins': args[j] = Mut(V('plugins'))
            else: args[j] = V('arg%d' % j)
        return e, ctx.run(e, f, args, st)

    def roots(self):
        """[(generator, kind)] reachable from the entry point on a Document"""
        entry = self.ctx.fn(GEN)
        todo = [(entry, 'Document')]; seen = []
        while todo:
            f, k = todo.pop(0)
            if any(f is g and k == h for g, h in seen): continue
            seen.append((f, k))
            self.cuts = {}
            self.run(f, self.node(k))
            for g, ks in self.cuts.items():
                for vi in sorted(ks):
                    n = self.N[vi]
                    if n in ALLOWED.get(k, ()): todo.append((g, n))
        return seen

    def node(self, kind, name='node'):
        return Adt(AST, self.K[kind], ('0',), (V(name),))

    def command_node(self, kind):
        """a command with module M, identifier I and symbolic arguments"""
        leaf = lambda k, v, n: Adt(AST, self.K[k], ('0',), (struct_(self.ctx, 'brack_transformer::ast::LeafNode', id=V(n + '_id'), value=Some(v), location=V(n + '_loc')),))
        ch = mkseq([('e', leaf('Module', V('module'), 'm')), ('e', leaf('Ident', V('ident'), 'i')), ('s', V('rest'))])
        return Adt(AST, self.K[kind], ('0',), (struct_(self.ctx, 'brack_transformer::ast::InnerNode', id=V('id'), children=ch, location=V('loc')),))

def okchild(c): return Ok(raw('app', 'text_of', c))
def errchild(c): return Err(ERR)
CHILDREN = fld(V('node'), 'children')

def kinds_of_elements(seqterm, ks):
    ks = frozenset(ks)
    def vs(t):
        if t.t == 'at' and t.a[0] is seqterm: return ks
        return None
    return vs

def concat_of(seqterm):
    n = length(seqterm)
    return mkfm(n, 0, (((), (raw('app', 'text_of', at(seqterm, raw('bv', 0))),)),), 'fms')
