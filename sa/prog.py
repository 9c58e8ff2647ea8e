"""The analysed program: MIR dumps of every workspace crate, indexed."""
import glob, json, os

INTERIOR = {'core::cell::Cell', 'core::cell::RefCell', 'core::cell::OnceCell', 'core::cell::once::OnceCell'}

class Fn:
    __slots__ = ('crate', 'd', 'key', 'name', 'kind', 'argc', 'locals', 'blocks', 'types',
                 'rpo', 'rpoi', 'loops', 'inner', 'live', 'addr', 'uses', 'preds', 'succs', 'path', 'chain')

    def __init__(self, crate, d, path):
        self.crate = crate; self.d = d; self.path = path
        self.key = d['key']; self.name = d['name']; self.kind = d['kind']; self.argc = d['argc']
        self.locals = d['locals']; self.blocks = d['blocks']; self.types = crate.types
        self.rpo = None; self.uses = None

    def span(self, bb=None):
        if bb is None or bb >= len(self.blocks): return self.d.get('span') or ''
        return self.blocks[bb][2]

class Crate:
    def __init__(self, path, d):
        self.path = path; self.name = d['crate']; self.types = d['types']; self.adts = d['adts']; self.cells = {}

def term_succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [b for _, b in t[3]] + ([t[4]] if t[4] is not None else [])
    if k == 'drop': return [t[2]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    if k == 'assert': return [t[4]]
    if k == 'yield': return [t[2]]
    return []

class Prog:
    def __init__(self, mirdir):
        self.impl_index = None; self.crates = {}; self.fns = {}; self.adts = {}; self.all = []
        files = sorted(glob.glob(os.path.join(mirdir, '*.json')))
        for f in files:
            base = os.path.basename(f)
            if base.startswith('build_script'): continue
            d = json.load(open(f))
            c = Crate(base, d)
            self.crates[base] = c
            if 'core::cmp::Ordering' in d['adts']: d['adts']['core::cmp::Ordering']['variants'][0]['discr'] = -1
            for p, a in d['adts'].items():
                self.adts.setdefault(p, (c, a))
                if a.get('local'): self.adts[p] = (c, a)
            isbin = '.Executable.' in base
            for fd in d['fns']:
                fn = Fn(c, fd, base)
                self.all.append(fn)
                key = fn.key
                if isbin: key = 'bin:' + key
                if key not in self.fns: self.fns[key] = fn
        self.nfns = len(self.all)

    _byname = None
    def find(self, name):
        """the function with this generic-free path (unique), else None"""
        if self._byname is None:
            from .models import strip
            d = {}
            for k, f in self.fns.items():
                if k.startswith('bin:'): d.setdefault('bin:' + strip(f.name), []).append(f)
                else: d.setdefault(strip(f.name), []).append(f)
            self._byname = d
        l = self._byname.get(name)
        return l[0] if l and len(l) == 1 else None

    def canon(self, key, crate):
        """key of a callee as seen from `crate`."""
        if '.Executable.' in crate.path and ('bin:' + key) in self.fns: return 'bin:' + key
        return key

    def lookup(self, key, crate):
        return self.fns.get(self.canon(key, crate))

    def cfg(self, fn):
        if fn.rpo is not None: return fn
        n = len(fn.blocks)
        succs = [[] if b[3] else term_succs(b[1]) for b in fn.blocks]
        seen = set(); order = []
        st = [(0, iter(succs[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succs[s]))); break
            else:
                order.append(b); st.pop()
        rpo = order[::-1]
        rpoi = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succs[b]: preds[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            a, c = new, p
                            while a != c:
                                while rpoi[a] > rpoi[c]: a = idom[a]
                                while rpoi[c] > rpoi[a]: c = idom[c]
                            new = a
                if idom.get(b) != new: idom[b] = new; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succs[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body: continue
                        body.add(x); stack.extend(preds[x])
        fn.rpo, fn.rpoi, fn.loops, fn.preds, fn.succs = rpo, rpoi, loops, preds, succs
        # blocks always entered from one block of the same loops
        fn.chain = {b for b in rpo if len(preds[b]) == 1 and b not in loops and all((b in l) == (preds[b][0] in l) for l in loops.values())}
        self._liveness(fn)
        return fn

    def _liveness(self, fn):
        addr = set()
        use = {}; dfn = {}
        def op_use(o, u, d):
            if o[0] in 'cm': pl_use(o[1], u, d)
        def pl_use(p, u, d):
            if p[0] not in d: u.add(p[0])
            for e in p[1]:
                if e[0] == 'i' and e[1] not in d: u.add(e[1])
        def pl_def(p, u, d):
            if p[1]: pl_use(p, u, d)
            else: d.add(p[0])
        for b in fn.rpo:
            u, d = set(), set()
            for s in fn.blocks[b][0]:
                if s[0] == '=':
                    r = s[2]; k = r[0]
                    if k == 'use' or k == 'repeat': op_use(r[1], u, d)
                    elif k in ('ref', 'rawptr'):
                        pl = next(x for x in r[1:] if isinstance(x, list) and len(x) == 2 and isinstance(x[1], list) and isinstance(x[0], int))
                        pl_use(pl, u, d)
                        if not any(e[0] == '*' for e in pl[1]): addr.add(pl[0])
                    elif k == 'reborrow': pl_use(r[2], u, d)
                    elif k == 'discr': pl_use(r[1], u, d)
                    elif k == 'agg':
                        for o in r[2]: op_use(o, u, d)
                    else:
                        for o in r[1:]:
                            if isinstance(o, list) and o and o[0] in ('c', 'm') and len(o) == 2: op_use(o, u, d)
                    pl_def(s[1], u, d)
                elif s[0] == 'sd': pl_use(s[1], u, d)
            t = fn.blocks[b][1]
            if t[0] == 'call':
                op_use(t[1], u, d)
                for o in t[2]: op_use(o, u, d)
                pl_def(t[3], u, d)
            elif t[0] == 'switch': op_use(t[1], u, d)
            elif t[0] == 'assert':
                op_use(t[1], u, d)
                for o in (t[5] if len(t) > 5 else []): op_use(o, u, d)
            elif t[0] == 'yield':
                op_use(t[1], u, d); pl_def(t[3], u, d)
            elif t[0] == 'return': u.add(0)
            use[b], dfn[b] = u, d
        live = {b: set() for b in fn.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.rpo):
                out = set()
                for s in fn.succs[b]: out |= live[s]
                new = use[b] | (out - dfn[b])
                if new != live[b]: live[b] = new; ch = True
        fn.live = live; fn.addr = addr

    def used_once(self, fn, local):
        """is the value a local holds only ever looked at by one statement, at most once per definition?"""
        self.cfg(fn)
        if fn.uses is None:
            uses, defs = {}, {}
            def visit(o, b):
                if isinstance(o, list):
                    if len(o) == 2 and isinstance(o[0], int) and isinstance(o[1], list) and not isinstance(o[0], bool):
                        uses.setdefault(o[0], []).append(b)
                        for e in o[1]:
                            if e[0] == 'i': uses.setdefault(e[1], []).append(b)
                        return
                    for x in o: visit(x, b)
            for b in fn.rpo:
                for s in fn.blocks[b][0]:
                    if s[0] == '=':
                        if s[1][1]: visit(s[1], b)
                        else: defs.setdefault(s[1][0], set()).add(b)
                        visit(s[2], b)
                    else: visit(s[1:], b)
                t = fn.blocks[b][1]
                if t[0] == 'call':
                    visit(t[1], b); visit(t[2], b)
                    if t[3][1]: visit(t[3], b)
                    else: defs.setdefault(t[3][0], set()).add(b)
                elif t[0] != 'drop': visit(t[1:], b)
            fn.uses = (uses, defs)
        uses, defs = fn.uses
        us = uses.get(local, ())
        if len(us) != 1: return False
        b = us[0]; ds = defs.get(local, ())
        return bool(ds) and all(b not in l or any(d in l for d in ds) for l in fn.loops.values())

    def impls(self, trait, item):
        """[(implementing type, function)] of a workspace trait's method"""
        if self.impl_index is None:
            self.impl_index = {}
            for f in self.fns.values():
                if not f.d.get('trait') or 'self' not in f.d: continue
                k = f.crate.types[f.d['self']]
                self.impl_index.setdefault((f.d['trait'], f.d['item']), []).append((k.get('adt') or k.get('s'), k.get('s'), f))
        return self.impl_index.get((trait, item), [])

    def has_cell(self, crate, tid):
        """may a value of this type be changed through a shared reference?"""
        r = crate.cells.get(tid)
        if r is None: r = crate.cells[tid] = self._has_cell(crate, tid, set())
        return r

    def _has_cell(self, crate, tid, seen):
        if (crate.path, tid) in seen: return False
        seen.add((crate.path, tid))
        k = crate.types[tid]; p = k.get('adt') or ''
        if p in INTERIOR: return True
        if any(self._has_cell(crate, x, seen) for x in list(k.get('args') or []) + list(k.get('elems') or []) if isinstance(x, int)): return True
        if k['k'] in ('array', 'slice') and isinstance(k.get('to'), int) and self._has_cell(crate, k['to'], seen): return True
        if p in self.adts:
            cc, info = self.adts[p]
            return any(isinstance(t[1], int) and self._has_cell(cc, t[1], seen) for v in info['variants'] for t in v['fields'])
        return False

    # ---- types
    def ty(self, crate, tid):
        return crate.types[tid]
