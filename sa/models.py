"""Transfer functions of the library calls the workspace (and reasonable rewrites
of it) makes: options, results, vectors, iterators, strings, maps, formatting,
futures.  Everything not modelled is an opaque call; calls that reach outside the
process also leave an event."""
import re
from . import terms as tm
from .terms import *
from .uni import clusters

EFFECT = re.compile(r'^(std::fs::(?!DirEntry::path|File::options|OpenOptions|Metadata|FileType|DirEntry::file_name)|alloc::io|std::io::|std::env::|std::process|std::net|std::thread'
                    r'|std::path::Path::(exists|is_file|is_dir|metadata|try_exists|read_dir|canonicalize)|tokio::|reqwest::(?!.*Response::status)|extism::)')
PURE_ERR = {'anyhow::__private::format_err', 'anyhow::error::<impl anyhow::Error>::msg'}

_strip_memo = {}
def strip(name):
    """drop generic arguments from a path"""
    r = _strip_memo.get(name)
    if r is not None: return r
    out = []; depth = 0; i = 0
    while i < len(name):
        if name.startswith('::<', i) and not name.startswith('::<impl', i):
            j = i + 2; d = 0
            while j < len(name):
                if name[j] == '<': d += 1
                elif name[j] == '>' and name[j - 1] != '-':
                    d -= 1
                    if d == 0: break
                j += 1
            i = j + 1; continue
        out.append(name[i]); i += 1
    r = ''.join(out)
    _strip_memo[name] = r
    return r

_short_memo = {}
def short(name):
    r = _short_memo.get(name)
    if r is None:
        s = strip(name)
        m = re.match(r'^(?:.*::)?<impl ([^>]*(?:<.*>)?)>::(\w+)$', s)
        if m:
            ty = m.group(1)
            ty = {'[T]': 'slice', 'str': 'str'}.get(ty, re.sub(r'<.*', '', ty).split('::')[-1])
            r = ty + '::' + m.group(2)
        else: r = '::'.join(s.split('::')[-2:])
        _short_memo[name] = r
    return r

M = {}
def m(*names):
    def deco(f):
        for n in names: M[n] = f
        return f
    return deco

class Call:
    """one call being modelled"""
    __slots__ = ('e', 'call', 'd', 'name', 'crate', 'env', 'argtys', 'destty')
    def __init__(self, e, call, ref, name):
        self.e = e; self.call = call; self.d = ref.d if ref else {}; self.name = name
        fr = call.get('fr') if call else None
        self.crate = fr['fn'].crate if fr else None
        self.env = fr.get('env') if fr else None
        self.argtys = call.get('argtys') if call else None
        self.destty = call.get('destty') if call else None
    def argty(self, i=0):
        """type descriptor of argument i with references removed"""
        if not self.argtys or i >= len(self.argtys): return {'k': 'other', 's': '?'}
        return self.peel(self.argtys[i])
    def holds_cell(self, i):
        if not self.argtys or i >= len(self.argtys): return False
        c, t = self.e.subst_ty(self.crate, self.argtys[i], self.env)
        return self.e.prog.has_cell(c, t)
    def peel(self, tid):
        c, t = self.e.subst_ty(self.crate, tid, self.env)
        d = c.types[t]; n = 0
        while d['k'] in ('ref', 'refmut', 'ptr') and n < 6:
            c, t = self.e.subst_ty(c, d['to'], self.env if c is self.crate else None); d = c.types[t]; n += 1
        return d
    def dest(self):
        if self.destty is None: return {'k': 'other', 's': '?'}
        return self.peel(self.destty)
    def panic(self, st, kind, why):
        fr = self.call['fr']
        self.e.panic(fr, self.call['bb'], st, kind, why)

def one(st, v): return [(st, v)]

# ------------------------------------------------------------------ closures
def call_value(e, st, f, args, call):
    """apply a function value"""
    n = 0
    while f.t == 'ptr' and n < 5: f = e.load_cell(st, f.a[0], f.a[1]); n += 1
    if f.t == 'clo':
        fn = e.prog.fns.get(f.a[0])
        if fn is None: raise e.Lost('closure body ' + f.a[0])
        # closure MIR: _1 = self, then the arguments
        return inline(e, st, fn, [f] + list(args), call)
    if f.t == 'fn': return dispatch(e, st, f, list(args), call)
    return e.opaque_call(st, 'apply', [f] + list(args), call, False)

def inline(e, st, fn, args, call, env=None):
    if e.cut is not None:
        r = e.cut(e, st, fn, args, call)
        if r is not None: return r
    if sum(f is fn for _, _, f in e.stack) >= e.unroll:
        return recursive(e, st, fn, args, call)
    return e.call_fn(fn, args, st, call, env)

def recursive(e, st, fn, args, call):
    vals = tuple(e.deref(st, a) for a in args)
    r = raw('rec', fn.key, vals)
    e.rec_calls.append((fn.key, vals, st.facts.copy(), st.ev, call['fr']['fn'].span(call['bb']) if call and call.get('fr') else ''))
    for i, a in enumerate(args):
        if a.t == 'ptr':
            e.store_cell(st, a.a[0], a.a[1], raw('recmut', i, fn.key, vals))
    return one(st, r)

# ------------------------------------------------------------------ dispatch
def dispatch(e, st, f, args, call):
    if f.t == 'ptr': f = e.deref(st, f)
    if f.t in ('clo',): return call_value(e, st, f, args, call)
    if f.t != 'fn': return e.opaque_call(st, 'apply', [f] + list(args), call, False)
    ref = f.a[0]; d = ref.d
    if d.get('ctor'):
        path, vi = d['ctor'][0], d['ctor'][1]
        info = e.adt_info(path)
        names = [x[0] for x in info['variants'][vi]['fields']] if info else [str(i) for i in range(len(args))]
        return one(st, Adt(path, vi, names, args))
    if ref.memo is None: ref.memo = resolve(e, ref)
    key, name, fn, derived, gens, models, virt = ref.memo
    if virt:
        fn = implementation(e, st, ref, args, fn)
        if fn is not None: key, name = fn.key, strip(fn.name)
    if e.hooks:
        for h in (key, name):
            hk = e.hooks.get(h)
            if hk is not None:
                r = hk(e, st, args, call)
                if r is not None: return r
    # workspace functions
    if fn is not None:
        if derived == 'clone': return one(st, e.deref(st, args[0]))
        if derived == 'eq': return one(st, e.mk_eq(e.deref(st, args[0]), e.deref(st, args[1])))
        env = None
        if gens:
            env = {}
            for g, t in zip(gens, d.get('targs') or []):
                if g:
                    cc, tt = e.subst_ty(ref.crate, t, ref.env)
                    env[g] = (cc, tt)
        return inline(e, st, fn, args, call, env)
    if models:
        c = Call(e, call, ref, name)
        for h in models:
            r = h(c, st, args)
            if r is not None: return r
    if name in PURE_ERR: return one(st, ERR)
    return e.opaque_call(st, name, args, call, bool(EFFECT.match(name)))

def resolve(e, ref):
    """what a callee is: its key and name, the workspace function behind it, or the models that describe it"""
    d = ref.d; res = d.get('res')
    key = res['key'] if res else d['key']
    full = res['name'] if res else d['name']
    name = strip(full)
    tr = d['trait'].split('::')[-1] + '::' + d['item'] if d.get('trait') else None
    fn = e.prog.lookup(key, ref.crate)
    if fn is not None and fn.kind in ('const', 'static'): fn = None
    if tr in ('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once'): fn = None      # the arguments come as one tuple: see _fncall
    derived = None
    if fn is not None and (fn.d.get('derived') or (res and res.get('derived'))): derived = {'Clone::clone': 'clone', 'PartialEq::eq': 'eq'}.get(tr)
    gens = fn.d.get('generics') or [] if fn is not None else []
    models = [h for h in (M.get(tr) if tr else None, M.get(name) or M.get(short(full))) if h is not None]
    virt = bool(tr and any(k.split('.')[0] == d['trait'].split('::')[0] for k in e.prog.crates) and (not res or res.get('kind') == 'virtual'))
    return key, name, fn, derived, gens if any(gens) else None, models, virt

def implementation(e, st, ref, args, default):
    """the body a call of a workspace trait's method reaches, told by the type that is known at this call"""
    d = ref.d; ty = None
    cands = e.prog.impls(d['trait'], d['item'])
    if d.get('targs'):
        cc, tt = e.subst_ty(ref.crate, d['targs'][0], ref.env)
        k = cc.types[tt]
        n = 0
        if k['k'] not in ('param', 'dyn', 'dynamic', '?'): ty = k.get('adt') or k.get('s')
    if ty is None or not any(ty in (a, b) for a, b, _ in cands):
        v = e.deref(st, args[0]) if args else None
        if v is not None and v.t == 'adt': ty = v.a[0]
    if ty is not None:
        fs = [f for a, b, f in cands if ty in (a, b)]
        if len(fs) == 1: return fs[0]
        if not fs and default is not None: return default
    if not cands: return default
    if len(cands) == 1 and default is None: return cands[0][2]
    raise e.Lost('which implementation of %s::%s is called' % (d['trait'], d['item']))

# ------------------------------------------------------------------ identities
@m('Clone::clone', 'ToOwned::to_owned', 'Deref::deref', 'AsRef::as_ref', 'Borrow::borrow', 'Into::into', 'hint::must_use', '__private::must_use',
   'String::as_str', 'String::as_bytes', 'str::as_bytes', 'String::into_bytes', 'str::to_owned', 'Vec::as_slice', 'slice::to_vec', 'slice::into_vec', 'slice::as_slice',
   'Pin::new_unchecked', 'Pin::new', 'Box::new', 'Box::pin', 'Box::leak', 'IntoFuture::into_future', 'Option::cloned', 'Option::copied', 'Option::as_deref',
   'Option::as_ref', 'Result::as_ref', 'Result::as_deref', 'Result::cloned', 'String::into_boxed_str', 'Cow::into_owned', 'Iterator::by_ref',
   'Iterator::fuse', 'Path::new', 'Path::to_path_buf', 'PathBuf::as_path', 'Borrow::borrow', 'Vec::into_boxed_slice', 'convert::identity', 'String::into_string', 'PathBuf::new_from')
def _identity(c, st, a):
    v = a[0]
    nm = c.d.get('item') or c.name.split('::')[-1]
    if nm in ('by_ref', 'new_unchecked', 'new'): return one(st, v)
    return one(st, c.e.deref(st, v))

@m('Arc::new', 'Rc::new')
def _shared(c, st, a):
    if c.holds_cell(0): raise c.e.Lost('shared interior mutability')
    return one(st, a[0])

@m('Iterator::cloned', 'Iterator::copied')
def _itcloned(c, st, a): return one(st, to_iter(c, st, a[0]))

@m('DerefMut::deref_mut', 'AsMut::as_mut', 'Vec::as_mut_slice', 'Pin::get_mut', 'Pin::as_mut', 'BorrowMut::borrow_mut')
def _refmut(c, st, a): return one(st, a[0])

@m('From::from')
def _from(c, st, a):
    v = c.e.deref(st, a[0])
    t = c.dest(); s = c.argty(0)
    if t['k'] == 'adt' and t['adt'] in ('anyhow::Error',): return one(st, ERR)
    if t['k'] == 'adt' and t['adt'] == OPT and not (s['k'] == 'adt' and s['adt'] == OPT): return one(st, Some(v))
    if t['k'] == 'adt' and t['adt'] == 'std::collections::hash::map::HashMap':
        r = NILMAP
        for k, x in seq_parts(v):
            if k != 'e': return None
            r = hm_insert(r, fld(x, '0'), fld(x, '1'))
        return one(st, r)
    if t['k'] == 'adt' and t['adt'] == 'serde_json::value::Value': return one(st, raw('app', 'json', v))
    if s['k'] == 'char' and is_strty(t): return one(st, display(c, v, s))
    if s['k'] == 'char' and t['k'] in ('uint', 'int'): return one(st, Int(ord(v.a[0])) if v.t == 'chr' else raw('app', 'chr_int', v))
    if t['k'] == 'char' and s['k'] in ('uint', 'int'): return one(st, Chr(chr(v.a[0])) if v.t == 'int' else raw('app', 'u8char', v))
    if s['k'] == 'bool' and t['k'] in ('uint', 'int'): return one(st, Int(int(v.a[0]))) if v.t == 'bool' else None
    if t['k'] == 'adt' and t['adt'] == 'toml::value::Value': return one(st, raw('app', 'tomlstr', v)) if is_strty(s) or s['k'] == 'ref' else None
    return one(st, v)

@m('From::from_str')
def _noop(c, st, a): return None

@m('ToString::to_string', 'String::from', 'str::to_string')
def _to_string(c, st, a):
    return one(st, display(c, c.e.deref(st, a[0]), c.argty(0)))

def is_strty(t):
    return t['k'] == 'str' or (t['k'] == 'adt' and t['adt'] in ('alloc::string::String', COW, 'alloc::boxed::Box') and True)

def display(c, v, t):
    if v.t == 'str': return v
    if v.t == 'chr': return Str(v.a[0])
    if v.t == 'bool': return Str('true' if v.a[0] else 'false')
    if v.t == 'int' and t['k'] in ('int', 'uint'): return Str(str(v.a[0]))
    if is_strty(t): return v
    if t['k'] == 'char': return raw('app', 'chr_str', v)
    if v.t == 'err': return raw('app', 'err_str')
    if v.t == 'app' and v.a[0] == 'tomlstr': return raw('app', 'toml_text', v.a[1])
    if t['k'] == 'adt' and t['adt'] == 'toml::value::Value' and v.t == 'adt' and v.a[1] == 0: return raw("app", "toml_text", v.a[3][0])
    return raw('app', 'to_string', v)

# ------------------------------------------------------------------ formatting
@m('rt::Argument::new_display', 'Argument::new_display')
def _nd(c, st, a): return one(st, raw('fmtarg', display(c, c.e.deref(st, a[0]), c.argty(0))))
@m('Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_octal', 'Argument::new_lower_exp')
def _ndbg(c, st, a): return one(st, raw('fmtarg', raw('app', c.name.split('new_')[-1], c.e.deref(st, a[0]))))
@m('Arguments::from_str', 'Arguments::new_const')
def _afs(c, st, a):
    v = c.e.deref(st, a[0])
    if v.t == 'seq': v = cats(v)
    return one(st, raw('fmt', v))
@m('Arguments::new')
def _anew(c, st, a):
    t = c.e.deref(st, a[0]); args = c.e.deref(st, a[1])
    if t.t != 'bytes': return one(st, raw('fmt', raw('app', 'format', t, args)))
    b = t.a[0]; out = []; i = 0; k = 0; ok = True
    ps = [x for kk, x in seq_parts(args) if kk == 'e']
    while i < len(b):
        x = b[i]
        if x == 0: break
        if x < 0x80:
            out.append(bytes(b[i + 1:i + 1 + x]).decode('utf8', 'replace')); i += 1 + x
        elif x == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out.append(bytes(b[i + 3:i + 3 + n]).decode('utf8', 'replace')); i += 3 + n
        elif x >= 0xC0:
            fl = x & 0x3F; i += 1; idx = k; spec = []
            if fl & 1: spec.append(tuple(b[i:i + 4])); i += 4
            if fl & 2: spec.append(tuple(b[i:i + 2])); i += 2
            if fl & 4: spec.append(tuple(b[i:i + 2])); i += 2
            if fl & 8: idx = b[i] | b[i + 1] << 8; i += 2
            k = idx + 1
            if idx >= len(ps): ok = False; break
            v = ps[idx]
            v = v.a[0] if v.t == 'fmtarg' else raw('app', 'fmt', v)
            if spec: v = raw('app', 'fmtspec', tuple(spec), v)
            out.append(v)
        else: ok = False; break
    if not ok: return one(st, raw('fmt', raw('app', 'format', t, args)))
    return one(st, raw('fmt', cat(*out)))
@m('fmt::format')
def _format(c, st, a):
    v = c.e.deref(st, a[0])
    return one(st, v.a[0] if v.t == 'fmt' else raw('app', 'format', v))
@m('panicking::panic_fmt', 'panicking::panic', 'panicking::unreachable_default_msg', 'panicking::panic_display', 'panicking::assert_failed', 'panicking::panic_nounwind',
   'rt::begin_panic', 'panicking::panic_explicit', 'option::expect_failed', 'option::unwrap_failed', 'result::unwrap_failed', 'panicking::unreachable_display', 'panicking::assert_matches_failed')
def _panic(c, st, a):
    msg = c.e.deref(st, a[0]) if a else EMPTY
    if msg.t == 'fmt': msg = msg.a[0]
    c.panic(st, 'panic', show(msg))
    return []
@m('process::exit')
def _exit(c, st, a):
    c.e.opaque_call(st, 'std::process::exit', a, c.call, True)
    c.panic(st, 'exit', 'process::exit')
    return []
@m('__private::format_err', 'Error::msg', '__private::new_adhoc', 'Error::new')
def _fe(c, st, a):
    if not c.name.startswith('anyhow'): return None
    return one(st, ERR)
@m('Context::context', 'Context::with_context')
def _ctx(c, st, a):
    v = c.e.deref(st, a[0])
    t = c.argty(0)
    if t['k'] == 'adt' and t['adt'] == OPT: return _ok_or(c, st, [v])
    out = []
    for s, ok, p in c.e.res_cases(st, v): out.append((s, Ok(p) if ok else Err(ERR)))
    return out

# ------------------------------------------------------------------ ? operator
@m('Try::branch')
def _branch(c, st, a):
    v = c.e.deref(st, a[0]); t = c.argty(0)
    path = v.a[0] if v.t == 'adt' else t.get('adt')
    out = []
    if path == OPT:
        for s, p in c.e.opt_cases(st, v): out.append((s, Continue(p) if p is not None else Break(NONE)))
        return out
    if path == RES:
        for s, ok, p in c.e.res_cases(st, v): out.append((s, Continue(p) if ok else Break(Err(p))))
        return out
    return None
@m('FromResidual::from_residual')
def _fromres(c, st, a):
    v = c.e.deref(st, a[0])
    if v.t == 'adt' and v.a[0] == RES: return one(st, Err(ERR))
    if v.t == 'adt' and v.a[0] == OPT:
        t = c.dest()
        return one(st, NONE if t.get('adt') == OPT else Err(ERR))
    return one(st, Err(ERR) if c.argty(0).get('adt') == RES else NONE)
@m('Try::from_output')
def _fromout(c, st, a):
    t = c.dest()
    return one(st, Some(a[0]) if t.get('adt') == OPT else Ok(a[0]))

# ------------------------------------------------------------------ Option
def opt_m(*names):
    return m(*['Option::' + n for n in names])
def O(c, st, v): return c.e.opt_cases(st, c.e.deref(st, v))
def R(c, st, v): return c.e.res_cases(st, c.e.deref(st, v))

def isv(e, st, t, vi):
    t = e.deref(st, t)
    if t.t == 'adt': return Bool(t.a[1] == vi)
    if t.t == 'okor': return Bool(vi == 0) if False else raw('isv', t, frozenset([vi]))
    return raw('isv', t, frozenset([vi]))
@m('Option::is_some', 'Result::is_err')
def _is1(c, st, a): return one(st, isv(c.e, st, a[0], 1))
@m('Option::is_none', 'Result::is_ok')
def _is0(c, st, a): return one(st, isv(c.e, st, a[0], 0))
@m('Option::is_some_and', 'Option::is_none_or')
def _issa(c, st, a):
    out = []; some = 'some' in c.name.split('::')[-1]
    for s, p in O(c, st, a[0]):
        if p is None: out.append((s, Bool(not some)))
        else: out.extend(call_value(c.e, s, a[1], [p], c.call))
    return out
@m('Result::is_ok_and', 'Result::is_err_and')
def _isok(c, st, a):
    out = []; w = c.name.endswith('is_ok_and')
    for s, ok, p in R(c, st, a[0]):
        if ok != w: out.append((s, FALSE))
        else: out.extend(call_value(c.e, s, a[1], [p], c.call))
    return out
@m('Option::unwrap', 'Option::expect', 'Option::unwrap_unchecked')
def _ounwrap(c, st, a):
    out = []
    for s, p in O(c, st, a[0]):
        if p is None: c.panic(s, 'unwrap', 'unwrap of None: ' + show(c.e.deref(st, a[0])))
        else: out.append((s, p))
    return out
@m('Result::unwrap', 'Result::expect')
def _runwrap(c, st, a):
    out = []
    for s, ok, p in R(c, st, a[0]):
        if not ok: c.panic(s, 'unwrap', 'unwrap of Err: ' + show(c.e.deref(st, a[0])))
        else: out.append((s, p))
    return out
@m('Result::unwrap_err', 'Result::expect_err')
def _runwrape(c, st, a):
    out = []
    for s, ok, p in R(c, st, a[0]):
        if ok: c.panic(s, 'unwrap', 'unwrap_err of Ok')
        else: out.append((s, p))
    return out
@m('Option::unwrap_or')
def _ouo(c, st, a): return [(s, a[1] if p is None else p) for s, p in O(c, st, a[0])]
@m('Result::unwrap_or')
def _ruo(c, st, a): return [(s, p if ok else a[1]) for s, ok, p in R(c, st, a[0])]
@m('Option::unwrap_or_else', 'Option::unwrap_or_default')
def _ouoe(c, st, a):
    out = []
    for s, p in O(c, st, a[0]):
        if p is not None: out.append((s, p))
        elif len(a) > 1: out.extend(call_value(c.e, s, a[1], [], c.call))
        else: out.append((s, default_of(c.e, c.crate, c.destty, c.env)))
    return out
@m('Result::unwrap_or_else', 'Result::unwrap_or_default')
def _ruoe(c, st, a):
    out = []
    for s, ok, p in R(c, st, a[0]):
        if ok: out.append((s, p))
        elif len(a) > 1: out.extend(call_value(c.e, s, a[1], [p], c.call))
        else: out.append((s, default_of(c.e, c.crate, c.destty, c.env)))
    return out
@m('Option::ok_or')
def _ok_or(c, st, a): return [(s, Err(a[1] if len(a) > 1 else ERR) if p is None else Ok(p)) for s, p in O(c, st, a[0])]
@m('Option::ok_or_else')
def _ok_or_else(c, st, a):
    out = []
    for s, p in O(c, st, a[0]):
        if p is not None: out.append((s, Ok(p)))
        else: out.extend((s2, Err(v)) for s2, v in call_value(c.e, s, a[1], [], c.call))
    return out
def wrap(outs, f): return [(s, f(v)) for s, v in outs]
@m('Option::map')
def _omap(c, st, a):
    out = []
    for s, p in O(c, st, a[0]):
        out.extend([(s, NONE)] if p is None else wrap(call_value(c.e, s, a[1], [p], c.call), Some))
    return out
@m('Option::inspect')
def _oinsp(c, st, a):
    out = []
    for s, p in O(c, st, a[0]):
        out.extend([(s, NONE)] if p is None else wrap(call_value(c.e, s, a[1], [p], c.call), lambda _: Some(p)))
    return out
@m('Option::and_then')
def _oat(c, st, a):
    out = []
    for s, p in O(c, st, a[0]): out.extend([(s, NONE)] if p is None else call_value(c.e, s, a[1], [p], c.call))
    return out
@m('Option::filter')
def _ofilter(c, st, a):
    out = []
    for s, p in O(c, st, a[0]):
        if p is None: out.append((s, NONE)); continue
        for s2, b in call_value(c.e, s, a[1], [p], c.call):
            out.extend((s3, Some(p) if r else NONE) for s3, r in c.e.split_bool(s2, b))
    return out
@m('Option::map_or')
def _omo(c, st, a):
    out = []
    for s, p in O(c, st, a[0]): out.extend([(s, a[1])] if p is None else call_value(c.e, s, a[2], [p], c.call))
    return out
@m('Option::map_or_else')
def _omoe(c, st, a):
    out = []
    for s, p in O(c, st, a[0]): out.extend(call_value(c.e, s, a[1], [], c.call) if p is None else call_value(c.e, s, a[2], [p], c.call))
    return out
@m('Option::or')
def _oor(c, st, a): return [(s, a[1] if p is None else Some(p)) for s, p in O(c, st, a[0])]
@m('Option::and')
def _oand(c, st, a): return [(s, NONE if p is None else a[1]) for s, p in O(c, st, a[0])]
@m('Option::or_else')
def _oore(c, st, a):
    out = []
    for s, p in O(c, st, a[0]): out.extend([(s, Some(p))] if p is not None else call_value(c.e, s, a[1], [], c.call))
    return out
@m('Option::zip')
def _ozip(c, st, a):
    out = []
    for s, p in O(c, st, a[0]):
        if p is None: out.append((s, NONE)); continue
        for s2, q in O(c, s, a[1]): out.append((s2, NONE if q is None else Some(Tup(p, q))))
    return out
@m('Option::flatten')
def _oflat(c, st, a): return [(s, NONE if p is None else p) for s, p in O(c, st, a[0])]
@m('Option::transpose')
def _otr(c, st, a):
    out = []
    for s, p in O(c, st, a[0]):
        if p is None: out.append((s, Ok(NONE))); continue
        out.extend((s2, Ok(Some(q)) if ok else Err(q)) for s2, ok, q in c.e.res_cases(s, p))
    return out
@m('Option::take')
def _otake(c, st, a):
    v = c.e.deref(st, a[0]); set_ptr(c, st, a[0], NONE); return one(st, v)
@m('Option::replace', 'Option::insert')
def _orepl(c, st, a):
    v = c.e.deref(st, a[0]); set_ptr(c, st, a[0], Some(a[1]))
    if c.name.endswith('insert'): return one(st, sub_ptr(a[0], ('d', 1), ('f', '0')))
    return one(st, v)
@m('Option::as_mut', 'Option::as_deref_mut')
def _oasmut(c, st, a):
    out = []
    for s, p in O(c, st, a[0]):
        if p is None: out.append((s, NONE)); continue
        if a[0].t == 'ptr':
            expand_some(c, s, a[0], p)
            out.append((s, Some(sub_ptr(a[0], ('f', '0', None)))))
        else: out.append((s, Some(p)))
    return out
@m('Option::get_or_insert_with', 'Option::get_or_insert')
def _goi(c, st, a):
    out = []
    for s, p in O(c, st, a[0]):
        if p is not None:
            expand_some(c, s, a[0], p); out.append((s, sub_ptr(a[0], ('f', '0', None)))); continue
        vs = call_value(c.e, s, a[1], [], c.call) if c.name.endswith('with') else [(s, a[1])]
        for s2, v in vs:
            set_ptr(c, s2, a[0], Some(v)); out.append((s2, sub_ptr(a[0], ('f', '0', None))))
    return out
@m('Option::iter')
def _oiter(c, st, a):
    return [(s, it_of(NIL if p is None else Seq(p))) for s, p in O(c, st, a[0])]

def expand_some(c, st, ptr, payload):
    """write the known variant back so that later stores through the pointer have a place"""
    v = c.e.load_cell(st, ptr.a[0], ptr.a[1])
    if v.t == 'ptr': return expand_some(c, st, v, payload)
    if v.t != 'adt': c.e.store_cell(st, ptr.a[0], ptr.a[1], Some(payload))

def set_ptr(c, st, p, v):
    if p.t != 'ptr': raise c.e.Lost('mutation through a value in ' + c.name)
    cur = c.e.load_cell(st, p.a[0], p.a[1])
    if cur.t == 'ptr': return set_ptr(c, st, cur, v)
    c.e.store_cell(st, p.a[0], p.a[1], v)

def sub_ptr(p, *path):
    if p.t != 'ptr': return p
    return raw('ptr', p.a[0], tuple(p.a[1]) + tuple(path))

# ------------------------------------------------------------------ Result
@m('Result::map')
def _rmap(c, st, a):
    out = []
    for s, ok, p in R(c, st, a[0]): out.extend(wrap(call_value(c.e, s, a[1], [p], c.call), Ok) if ok else [(s, Err(p))])
    return out
@m('Result::map_err')
def _rme(c, st, a):
    out = []
    for s, ok, p in R(c, st, a[0]): out.extend([(s, Ok(p))] if ok else wrap(call_value(c.e, s, a[1], [p], c.call), Err))
    return out
@m('Result::and_then')
def _rat(c, st, a):
    out = []
    for s, ok, p in R(c, st, a[0]): out.extend(call_value(c.e, s, a[1], [p], c.call) if ok else [(s, Err(p))])
    return out
@m('Result::or_else')
def _roe(c, st, a):
    out = []
    for s, ok, p in R(c, st, a[0]): out.extend([(s, Ok(p))] if ok else call_value(c.e, s, a[1], [p], c.call))
    return out
@m('Result::ok')
def _rok(c, st, a): return [(s, Some(p) if ok else NONE) for s, ok, p in R(c, st, a[0])]
@m('Result::err')
def _rerr(c, st, a): return [(s, NONE if ok else Some(p)) for s, ok, p in R(c, st, a[0])]
@m('Result::map_or')
def _rmo(c, st, a):
    out = []
    for s, ok, p in R(c, st, a[0]): out.extend(call_value(c.e, s, a[2], [p], c.call) if ok else [(s, a[1])])
    return out
@m('Result::map_or_else')
def _rmoe(c, st, a):
    out = []
    for s, ok, p in R(c, st, a[0]): out.extend(call_value(c.e, s, a[2] if ok else a[1], [p], c.call))
    return out
@m('Result::or')
def _ror(c, st, a): return [(s, Ok(p) if ok else a[1]) for s, ok, p in R(c, st, a[0])]
@m('Result::and')
def _rand(c, st, a): return [(s, a[1] if ok else Err(p)) for s, ok, p in R(c, st, a[0])]
@m('Result::flatten')
def _rflat(c, st, a): return [(s, p if ok else Err(p)) for s, ok, p in R(c, st, a[0])]
@m('Result::transpose')
def _rtr(c, st, a):
    out = []
    for s, ok, p in R(c, st, a[0]):
        if not ok: out.append((s, Some(Err(p)))); continue
        out.extend((s2, NONE if q is None else Some(Ok(q))) for s2, q in c.e.opt_cases(s, p))
    return out

# ------------------------------------------------------------------ mem
@m('mem::take')
def _take(c, st, a):
    v = c.e.deref(st, a[0]); set_ptr(c, st, a[0], default_of(c.e, c.crate, c.destty, c.env)); return one(st, v)
@m('mem::replace')
def _replace(c, st, a):
    v = c.e.deref(st, a[0]); set_ptr(c, st, a[0], a[1]); return one(st, v)
@m('mem::swap')
def _swap(c, st, a):
    v, w = c.e.deref(st, a[0]), c.e.deref(st, a[1])
    set_ptr(c, st, a[0], w); set_ptr(c, st, a[1], v); return one(st, UNIT)
@m('mem::drop')
def _drop(c, st, a): return one(st, UNIT)

# ------------------------------------------------------------------ Default
def default_of(e, crate, tid, env=None, depth=0):
    c, t = e.subst_ty(crate, tid, env)
    d = c.types[t]; k = d['k']
    if k in ('uint', 'int'): return Int(0)
    if k == 'bool': return FALSE
    if k == 'str': return EMPTY
    if k in ('slice', 'array') and k == 'slice': return NIL
    if k in ('ref', 'refmut'): return default_of(e, c, d['to'], None, depth)
    if k == 'tuple': return Tup(*[default_of(e, c, x, None, depth + 1) for x in d.get('args', [])])
    if k == 'adt':
        p = d['adt']
        if p == 'alloc::string::String': return EMPTY
        if p in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'): return NIL
        if p == OPT: return NONE
        if p in ('std::collections::hash::map::HashMap', 'serde_json::map::Map', 'alloc::collections::btree::map::BTreeMap'): return NILMAP
        if p == 'alloc::boxed::Box' and d.get('args'): return default_of(e, c, d['args'][0], None, depth + 1)
        if p.startswith('lsp_types::') and depth < 4:
            ac, info = e.prog.adts.get(p) or (None, None)        # the plain structs of lsp_types derive Default
            if info and info['kind'] == 'struct' and not info['params'] and (p in ('lsp_types::Diagnostic', 'lsp_types::Range', 'lsp_types::Position') or p.endswith(('Capabilities', 'Options'))):
                fs = info['variants'][0]['fields']
                return Adt(p, 0, [f[0] for f in fs], [default_of(e, ac, f[1], None, depth + 1) for f in fs])
        return raw('app', 'default', Str(p))
    return raw('app', 'default', Str(d['s']))
@m('Default::default')
def _default(c, st, a): return one(st, default_of(c.e, c.crate, c.destty, c.env))

def lsp_new(*names):
    def f(c, st, a):
        p = c.dest().get('adt')
        if not (p or '').startswith('lsp_types::'): return None
        info = c.e.adt_info(p)
        if not info: return None
        have = dict(zip(names, a)); dflt = default_of(c.e, c.crate, c.destty, c.env) if len(names) < len(info['variants'][0]['fields']) else None
        if dflt is not None and dflt.t != 'adt': return None
        fs = [x[0] for x in info['variants'][0]['fields']]
        return one(st, Adt(p, 0, fs, [have[n] if n in have else fld(dflt, n) for n in fs]))
    return f
m('Position::new')(lsp_new('line', 'character'))
m('Range::new')(lsp_new('start', 'end'))
m('Diagnostic::new')(lsp_new('range', 'severity', 'code', 'source', 'message', 'related_information', 'tags'))
m('Diagnostic::new_simple')(lsp_new('range', 'message'))

# ------------------------------------------------------------------ comparison
@m('PartialEq::eq')
def _eq(c, st, a):
    x, y = c.e.deref(st, a[0]), c.e.deref(st, a[1])
    return one(st, c.e.mk_eq(x, y))
@m('PartialEq::ne')
def _ne(c, st, a):
    x, y = c.e.deref(st, a[0]), c.e.deref(st, a[1])
    return one(st, c.e.mk_not(c.e.mk_eq(x, y)))
@m('PartialOrd::lt')
def _lt(c, st, a): return cmpop(c, st, a, lambda x, y: c.e.mk_lt(x, y))
@m('PartialOrd::gt')
def _gt(c, st, a): return cmpop(c, st, a, lambda x, y: c.e.mk_lt(y, x))
@m('PartialOrd::le')
def _le(c, st, a): return cmpop(c, st, a, lambda x, y: c.e.mk_not(c.e.mk_lt(y, x)))
@m('PartialOrd::ge')
def _ge(c, st, a): return cmpop(c, st, a, lambda x, y: c.e.mk_not(c.e.mk_lt(x, y)))
def is_num(c, x, i=0):
    return x.t in ('int', 'lin') or x in NONNEG or c.argty(i)['k'] in ('int', 'uint')
def cmpop(c, st, a, f):
    x, y = c.e.deref(st, a[0]), c.e.deref(st, a[1])
    if x.t == y.t == 'tup': return lex(c, st, x, y, f)
    if not is_num(c, x): return None
    return one(st, f(x, y))
def lex(c, st, x, y, f):
    nm = c.d.get('item')
    out = []
    for s, o in cmp_terms(c, st, x, y):
        r = {'lt': o < 0, 'gt': o > 0, 'le': o <= 0, 'ge': o >= 0}[nm]
        out.append((s, Bool(r)))
    return out
def cmp_terms(c, st, x, y):
    """[(state, -1|0|1)]"""
    e = c.e
    x, y = e.deref(st, x), e.deref(st, y)
    if x.t == 'tup' and y.t == 'tup' and len(x.a) == len(y.a):
        cur = [(st, 0)]; 
        for p, q in zip(x.a, y.a):
            nxt = []
            for s, o in cur:
                if o != 0: nxt.append((s, o))
                else: nxt.extend(cmp_terms(c, s, p, q))
            cur = nxt
        return cur
    out = []
    for s, b in e.split_bool(st, e.mk_lt(x, y)):
        if b: out.append((s, -1)); continue
        for s2, b2 in e.split_bool(s, e.mk_ieq(x, y)): out.append((s2, 0 if b2 else 1))
    return out
def ordering(o): return Adt(ORD, o + 1, (), ())
def numeric_like(c, v):
    if v.t == 'tup': return all(numeric_like(c, x) for x in v.a)
    return True
@m('Ord::cmp')
def _cmp(c, st, a):
    x, y = c.e.deref(st, a[0]), c.e.deref(st, a[1])
    t = c.argty(0)
    if t['k'] not in ('int', 'uint', 'tuple', 'char'): return None
    return [(s, ordering(o)) for s, o in cmp_terms(c, st, x, y)]
@m('PartialOrd::partial_cmp')
def _pcmp(c, st, a):
    r = _cmp(c, st, a)
    return None if r is None else [(s, Some(v)) for s, v in r]
@m('Ordering::then_with')
def _then(c, st, a):
    out = []
    for s, vi in c.e.split_variant(st, c.e.deref(st, a[0]), ORD):
        out.extend([(s, ordering(vi - 1))] if vi != 1 else call_value(c.e, s, a[1], [], c.call))
    return out
@m('Ordering::then')
def _then2(c, st, a):
    return [(s, ordering(vi - 1) if vi != 1 else a[1]) for s, vi in c.e.split_variant(st, c.e.deref(st, a[0]), ORD)]
@m('Ordering::reverse')
def _orev(c, st, a): return [(s, ordering(1 - vi)) for s, vi in c.e.split_variant(st, c.e.deref(st, a[0]), ORD)]
def ordpred(ok):
    def f(c, st, a): return [(s, Bool(vi in ok)) for s, vi in c.e.split_variant(st, c.e.deref(st, a[0]), ORD)]
    return f
for n_, ok_ in (('is_lt', (0,)), ('is_le', (0, 1)), ('is_gt', (2,)), ('is_ge', (1, 2)), ('is_eq', (1,)), ('is_ne', (0, 2))): M['Ordering::' + n_] = ordpred(ok_)
def minmax(c, st, x, y, mx):
    return [(s, (y if mx else x) if o <= 0 else (x if mx else y)) for s, o in cmp_terms(c, st, x, y)]
@m('cmp::max', 'Ord::max')
def _max(c, st, a): return minmax(c, st, a[0], a[1], True)
@m('cmp::min', 'Ord::min')
def _min(c, st, a): return minmax(c, st, a[0], a[1], False)

# integers
def intm(*ns): return m(*[t + '::' + n for n in ns for t in ('usize', 'u64', 'u32', 'u8', 'isize', 'i64', 'i32', 'u16')])
@intm('saturating_sub')
def _ssub(c, st, a):
    d = sub(a[0], a[1])
    return [(s, Int(0) if b else d) for s, b in c.e.split_bool(st, c.e.mk_lt(a[0], a[1]))]
@intm('saturating_add', 'wrapping_add', 'strict_add')
def _sadd(c, st, a): return one(st, add(a[0], a[1]))
@intm('wrapping_sub', 'abs_diff')
def _wsub(c, st, a):
    if c.name.endswith('abs_diff'): return [(s, sub(a[1], a[0]) if b else sub(a[0], a[1])) for s, b in c.e.split_bool(st, c.e.mk_lt(a[0], a[1]))]
    return one(st, sub(a[0], a[1]))
@intm('checked_sub')
def _csub(c, st, a): return [(s, NONE if b else Some(sub(a[0], a[1]))) for s, b in c.e.split_bool(st, c.e.mk_lt(a[0], a[1]))]
@intm('checked_add')
def _cadd(c, st, a): return one(st, Some(add(a[0], a[1])))
@m('Add::add', 'AddAssign::add_assign')
def _add(c, st, a):
    x, y = c.e.deref(st, a[0]), c.e.deref(st, a[1])
    t = c.argty(0)
    r = cat(x, y) if is_strty(t) or x.t == 'str' else add(x, y)
    if c.d.get('item') == 'add_assign':
        set_ptr(c, st, a[0], r); return one(st, UNIT)
    return one(st, r)
def arith(op, assign=False):
    def f(c, st, a):
        x, y = c.e.deref(st, a[0]), c.e.deref(st, a[1])
        if c.argty(0)['k'] not in ('uint', 'int'): return None
        if y.t == 'int' and y.a[0] == 0 and op in ('Div', 'Rem'): c.panic(st, 'arith', op); return []
        r = c.e.binop(st, None, op, x, y, None)
        if assign: set_ptr(c, st, a[0], r); return one(st, UNIT)
        return one(st, r)
    return f
for _n in ('Mul', 'Div', 'Rem', 'Shl', 'Shr'):
    M['%s::%s' % (_n, _n.lower())] = arith(_n); M['%sAssign::%s_assign' % (_n, _n.lower())] = arith(_n, True)
@m('Sub::sub')
def _sub(c, st, a):
    x, y = c.e.deref(st, a[0]), c.e.deref(st, a[1])
    return one(st, sub(x, y))
@m('SubAssign::sub_assign')
def _suba(c, st, a):
    x, y = c.e.deref(st, a[0]), c.e.deref(st, a[1])
    set_ptr(c, st, a[0], sub(x, y)); return one(st, UNIT)
@m('TryFrom::try_from', 'TryInto::try_into')
def _tryfrom(c, st, a):
    t = c.argty(0)
    if t['k'] in ('uint', 'int'):
        v = c.e.deref(st, a[0])
        return one(st, raw('okor', v))
    return None
@m('Not::not', '__private::not')
def _not(c, st, a): return one(st, c.e.mk_not(c.e.deref(st, a[0])))
@m('bool::then')
def _bthen(c, st, a):
    out = []
    for s, b in c.e.split_bool(st, a[0]): out.extend(wrap(call_value(c.e, s, a[1], [], c.call), Some) if b else [(s, NONE)])
    return out
@m('bool::then_some')
def _bthens(c, st, a): return [(s, Some(a[1]) if b else NONE) for s, b in c.e.split_bool(st, a[0])]

# ------------------------------------------------------------------ strings
@m('String::new', 'PathBuf::new', 'String::with_capacity')
def _snew(c, st, a): return one(st, EMPTY)
@m('String::push_str', 'String::push', 'Write::write_str', 'Write::write_char')
def _push_str(c, st, a):
    cur = c.e.deref(st, a[0])
    if c.name.startswith('core::fmt::Formatter') or a[0].t != 'ptr': return None
    x = c.e.deref(st, a[1])
    if c.name.endswith('::push') and x.t not in ('chr', 'str'): x = raw('app', 'chr_str', x)
    set_ptr(c, st, a[0], cat(cur, x))
    return one(st, Ok(UNIT) if c.d.get('trait') else UNIT)
@m('Write::write_fmt')
def _write_fmt(c, st, a):
    t = c.argty(0)
    if t['k'] == 'adt' and t['adt'] == 'alloc::string::String' and a[0].t == 'ptr':
        x = c.e.deref(st, a[1])
        set_ptr(c, st, a[0], cat(c.e.deref(st, a[0]), x.a[0] if x.t == 'fmt' else raw('app', 'format', x)))
        return one(st, Ok(UNIT))
    return None
@m('String::insert_str', 'String::insert')
def _ins(c, st, a):
    if short(c.name).split('::')[0] != 'String': return None
    if a[1] is Int(0):
        x = c.e.deref(st, a[2]); set_ptr(c, st, a[0], cat(x, c.e.deref(st, a[0]))); return one(st, UNIT)
    return None
@m('String::len', 'str::len')
def _slen(c, st, a): return one(st, slen(c.e.deref(st, a[0])))
@m('String::is_empty', 'str::is_empty')
def _sempty(c, st, a):
    v = c.e.deref(st, a[0])
    return one(st, mk_sempty(c.e, st, v))
def mk_sempty(e, st, v):
    if lit(v) is not None: return Bool(lit(v) == '')
    return raw('sempty', v)
@m('String::clear')
def _sclear(c, st, a): set_ptr(c, st, a[0], EMPTY); return one(st, UNIT)
@m('str::repeat')
def _srep(c, st, a):
    v = c.e.deref(st, a[0])
    if a[1].t == 'int' and a[1].a[0] < 64: return one(st, cat(*[v] * a[1].a[0]))
    return None
@m('str::concat', 'slice::concat', 'slice::join')
def _concat(c, st, a):
    v = c.e.deref(st, a[0])
    if c.name.endswith('join'):
        sep = c.e.deref(st, a[1])
        if sep is EMPTY: return one(st, cats(v))
        ps = seq_parts(v)
        if all(k == 'e' for k, _ in ps):
            out = []
            for i, (k, x) in enumerate(ps):
                if i: out.append(sep)
                out.append(x)
            return one(st, cat(*out)) if c.dest().get('adt') == 'alloc::string::String' else None
        return one(st, raw('app', 'join', v, sep))
    if is_strty(c.dest()): return one(st, cats(v))
    return None
def known_part(fn, v, p):
    """a string certainly starts with, ends with or contains a run of its own parts"""
    if p.t == 'chr' or v is EMPTY: return False
    x = [('l', y) if isinstance(y, str) else ('t', y) for y in str_parts(v)]; y = [('l', z) if isinstance(z, str) else ('t', z) for z in str_parts(p)]
    n = len(y)
    hits = [i for i in range(len(x) - n + 1) if x[i:i + n] == y]
    return bool(hits) if fn is _contains else 0 in hits if fn is _starts else len(x) - n in hits
def litpred(fn):
    def f(c, st, a):
        v, p = c.e.deref(st, a[0]), c.e.deref(st, a[1])
        w = wordy(c, v, p) if p.t in ('str', 'chr') else None
        if w is not None: return one(st, Bool(fn(Str(w[0]), w[1])))
        p2 = lit(p) if p.t == 'str' else p.a[0] if p.t == 'chr' else None
        if p2 is None:
            return one(st, TRUE) if known_part(fn, v, p) else None
        r = fn(v, p2)
        if r is not None: return one(st, Bool(r))
        return one(st, raw('app', short(c.name), v, Str(p2)))
    return f
def _starts(v, p):
    if lit(v) is not None: return lit(v).startswith(p)
    ps = str_parts(v)
    if isinstance(ps[0], str):
        if len(ps[0]) >= len(p): return ps[0].startswith(p)
        if not p.startswith(ps[0]): return False
    return None
def _ends(v, p):
    if lit(v) is not None: return lit(v).endswith(p)
    ps = str_parts(v)
    if isinstance(ps[-1], str):
        if len(ps[-1]) >= len(p): return ps[-1].endswith(p)
        if not p.endswith(ps[-1]): return False
    return None
def _contains(v, p):
    if lit(v) is not None: return p in lit(v)
    if any(isinstance(x, str) and p in x for x in str_parts(v)): return True
    return None
M['str::starts_with'] = litpred(_starts); M['str::ends_with'] = litpred(_ends); M['str::contains'] = litpred(_contains)
def str_bounds(v):
    """byte offset -> place, for the character boundaries of the known parts of a string"""
    pos = Int(0); out = {}
    ps = [] if v is EMPTY else list(str_parts(v))
    for i, p in enumerate(ps):
        if isinstance(p, str):
            for j, ch in enumerate(p): out.setdefault(pos, (i, j)); pos = add(pos, Int(len(ch.encode())))
        else: out.setdefault(pos, (i, 0)); pos = add(pos, slen(p))
    out[pos] = (len(ps), 0)
    return ps, out
def str_cut(v, lo, hi):
    """the part of a string between two byte offsets that are known boundaries of its parts, or None"""
    ps, b = str_bounds(v)
    if lo not in b or hi not in b or b[hi] < b[lo]: return None
    (i, j), (k, l) = b[lo], b[hi]
    if i == k: return Str(ps[i][j:l]) if i < len(ps) and isinstance(ps[i], str) else EMPTY
    out = [ps[i][j:] if isinstance(ps[i], str) else ps[i]] + ps[i + 1:k]
    if k < len(ps) and isinstance(ps[k], str): out.append(ps[k][:l])
    return cat(*out)
@m('str::split_at')
def _strsplitat(c, st, a):
    v = c.e.deref(st, a[0]); x, y = str_cut(v, Int(0), a[1]), str_cut(v, a[1], slen(v))
    return one(st, Tup(x, y)) if x is not None and y is not None else None
@m('str::get')
def _strget(c, st, a):
    v = c.e.deref(st, a[0]); b = range_bounds(c.e.deref(st, a[1]), slen(v), (c.argty(1).get('adt') or '').split('::')[-1])
    x = str_cut(v, b[0], b[1]) if b else None
    return one(st, Some(x)) if x is not None else None
@m('UnicodeSegmentation::graphemes')
def _graphemes(c, st, a):
    v = c.e.deref(st, a[0])
    return one(st, it_of(graphemes_of(c.e, st, v, c.e.deref(st, a[1]))))
@m('UnicodeSegmentation::grapheme_indices')
def _graphemesi(c, st, a):
    v = c.e.deref(st, a[0]); xs = graphemes_of(c.e, st, v, c.e.deref(st, a[1]))
    if xs.t == 'app' or any(k != 'e' for k, _ in seq_parts(xs)): return None
    out = []; pos = Int(0)
    for _, x in seq_parts(xs): out.append(Tup(pos, x)); pos = add(pos, slen(x))
    return one(st, it_of(Seq(*out)))
def graphemes_of(e, st, v, ext=TRUE):
    """sequence of grapheme clusters; a string known to be a concatenation of clusters splits into them"""
    ps = str_parts(v)
    out = []
    for p in ps:
        if isinstance(p, str):
            if ext.t != 'bool': return raw('app', 'graphemes', v)
            out.extend(('e', Str(x)) for x in clusters(p, ext.a[0]))
        elif ext is not TRUE: return raw('app', 'legacy_graphemes', v)      # a cluster may be several legacy clusters
        elif p in e.graphemes: out.append(('e', p))
        elif p.t == 'cats' and p.a[0] in e.graphemes: out.append(('s', p.a[0]))
        elif p.t == 'cats' and p.a[0].t == 'sl' and p.a[0].a[0] in e.graphemes: out.append(('s', p.a[0]))
        else: return raw('app', 'graphemes', v)
    return mkseq(out)
@m('str::chars')
def _chars(c, st, a):
    v = c.e.deref(st, a[0])
    if lit(v) is not None: return one(st, it_of(Seq(*[Chr(x) for x in lit(v)])))
    return one(st, it_of(raw('app', 'chars', v)))
@m('str::bytes')
def _bytes(c, st, a): return one(st, it_of(raw('app', 'bytes', c.e.deref(st, a[0]))))
@m('str::split', 'str::lines', 'str::split_whitespace', 'str::char_indices', 'str::splitn', 'str::rsplit', 'str::matches', 'str::split_terminator', 'str::rsplitn', 'str::split_inclusive')
def _split(c, st, a):
    v = c.e.deref(st, a[0]); nm = c.name.split('::')[-1]
    rest = tuple(sep_norm(c.e.deref(st, x)) for x in a[1:])
    w = wordy(c, v, rest[-1] if rest else None)
    if w is not None:
        L, P, dec = w
        xs = None
        if nm == 'split': xs = L.split(P)
        elif nm == 'rsplit': xs = L.split(P)[::-1]
        elif nm == 'split_terminator': xs = L.split(P); xs = xs[:-1] if xs and xs[-1] == '' else xs
        elif nm == 'splitn' and len(rest) == 2 and rest[0].t == 'int': xs = L.split(P, rest[0].a[0] - 1) if rest[0].a[0] > 0 else []
        elif nm == 'rsplitn' and len(rest) == 2 and rest[0].t == 'int': xs = L.rsplit(P, rest[0].a[0] - 1)[::-1] if rest[0].a[0] > 0 else []
        elif nm == 'matches': xs = [P] * L.count(P)
        if xs is not None: return one(st, it_of(Seq(*[dec(x) for x in xs])))
    return one(st, it_of(raw('app', nm, v, *rest)))
def wordy(c, v, p):
    """(text, separator, decode) when v is literal text and words (strings of letters and digits by
    assumption of the scenario) and p is a literal that no word can contain; else None"""
    if p is None: return None
    P = lit(p) if p.t != 'chr' else p.a[0]
    if not P: return None
    if lit(v) is not None: return lit(v), P, Str
    words = getattr(c.e, 'words', ())
    out, tab = [], []
    for x in str_parts(v):
        if isinstance(x, str): out.append(x); continue
        if x not in words: return None
        out.append(chr(0xe000 + len(tab))); tab.append(x)
    if any(ch.isalnum() for ch in P): return None
    def dec(t): return cat(*[tab[ord(ch) - 0xe000] if 0xe000 <= ord(ch) < 0xe000 + len(tab) else ch for ch in t])
    return ''.join(out), P, dec
@m('str::trim_end_matches', 'str::trim_start_matches', 'str::trim_matches')
def _trimm(c, st, a):
    v = c.e.deref(st, a[0]); p = sep_norm(c.e.deref(st, a[1])); nm = c.name.split('::')[-1]
    w = wordy(c, v, p)
    if w is None: return None
    L, P, dec = w
    if nm != 'trim_start_matches':
        while L.endswith(P): L = L[:-len(P)]
    if nm != 'trim_end_matches':
        while L.startswith(P): L = L[len(P):]
    return one(st, dec(L))
def sep_norm(x): return Str(x.a[0]) if x.t == 'chr' else x
@m('str::split_once', 'str::rsplit_once', 'str::strip_prefix', 'str::strip_suffix', 'str::find', 'str::rfind')
def _sopt(c, st, a):
    v = c.e.deref(st, a[0]); nm = c.name.split('::')[-1]
    p = sep_norm(c.e.deref(st, a[1]))
    w = wordy(c, v, p)
    if w is not None:
        L, P, dec = w
        if nm == 'strip_prefix': return one(st, Some(dec(L[len(P):])) if L.startswith(P) else NONE)
        if nm == 'strip_suffix': return one(st, Some(dec(L[:-len(P)])) if L.endswith(P) else NONE)
        if nm == 'split_once':
            x = L.split(P, 1); return one(st, Some(Tup(dec(x[0]), dec(x[1]))) if len(x) == 2 else NONE)
        if nm == 'rsplit_once':
            x = L.rsplit(P, 1); return one(st, Some(Tup(dec(x[0]), dec(x[1]))) if len(x) == 2 else NONE)
        if nm in ('find', 'rfind'):
            i = L.find(P) if nm == 'find' else L.rfind(P)
            return one(st, NONE if i < 0 else Some(slen(dec(L[:i]))))
    return one(st, raw('app', 'str::' + nm, v, p))

# ------------------------------------------------------------------ vectors
@m('Vec::new', 'Vec::with_capacity', 'VecDeque::new', 'VecDeque::with_capacity')
def _vnew(c, st, a): return one(st, NIL)
@m('Box::new_uninit')
def _uninit(c, st, a): return one(st, raw('uninit'))
@m('boxed::box_assume_init_into_vec_unsafe')
def _boxvec(c, st, a):
    v = c.e.deref(st, a[0]); n = 0
    while v.t == 'updf' and n < 6: v = v.a[1][-1][1]; n += 1
    while v.t == 'adt' and v.a[3]: v = v.a[3][0]
    return one(st, v)
def vecop(f):
    def g(c, st, a):
        if a[0].t != 'ptr': return None
        v = c.e.deref(st, a[0])
        return f(c, st, a, v)
    return g
@m('Vec::push', 'VecDeque::push_back')
@vecop
def _vpush(c, st, a, v): set_ptr(c, st, a[0], concat(v, Seq(a[1]))); return one(st, UNIT)
@m('VecDeque::push_front')
@vecop
def _vpushf(c, st, a, v): set_ptr(c, st, a[0], concat(Seq(a[1]), v)); return one(st, UNIT)
@m('Vec::insert', 'VecDeque::insert')
@vecop
def _vins(c, st, a, v):
    i = a[1]
    set_ptr(c, st, a[0], concat(sl(v, Int(0), i), Seq(a[2]), sl(v, i, length(v)))); return one(st, UNIT)
@m('Vec::append', 'VecDeque::append')
@vecop
def _vappend(c, st, a, v):
    w = c.e.deref(st, a[1])
    set_ptr(c, st, a[0], concat(v, w))
    if a[1].t == 'ptr': set_ptr(c, st, a[1], NIL)
    return one(st, UNIT)
@m('Vec::extend_from_slice')
@vecop
def _vext(c, st, a, v): set_ptr(c, st, a[0], concat(v, c.e.deref(st, a[1]))); return one(st, UNIT)
@m('Extend::extend')
def _extend(c, st, a):
    if a[0].t != 'ptr': return None
    t = c.argty(0)
    it = to_iter(c, st, a[1], 1)
    out = []
    for s, w in collect(c, st, it):
        v = c.e.deref(s, a[0])
        if t.get('adt') == 'alloc::string::String': set_ptr(c, s, a[0], cat(v, cats(w)))
        elif t.get('adt') == 'std::collections::hash::map::HashMap':
            if any(k != 'e' for k, _ in seq_parts(w)): return None
            for k, x in seq_parts(w): v = hm_insert(v, fld(x, '0'), fld(x, '1'))
            set_ptr(c, s, a[0], v)
        else: set_ptr(c, s, a[0], concat(v, w))
        out.append((s, UNIT))
    return out
@m('Vec::pop', 'VecDeque::pop_back')
@vecop
def _vpop(c, st, a, v):
    out = []
    for s, e_ in c.e.split_bool(st, c.e.mk_ieq(length(v), Int(0))):
        if e_: out.append((s, NONE)); continue
        x = at(v, sub(length(v), Int(1)))
        set_ptr(c, s, a[0], sl(v, Int(0), sub(length(v), Int(1))))
        out.append((s, Some(x)))
    return out
@m('VecDeque::pop_front')
@vecop
def _vpopf(c, st, a, v):
    out = []
    for s, e_ in c.e.split_bool(st, c.e.mk_ieq(length(v), Int(0))):
        if e_: out.append((s, NONE)); continue
        set_ptr(c, s, a[0], sl(v, Int(1), length(v)))
        out.append((s, Some(at(v, Int(0)))))
    return out
@m('Vec::remove')
@vecop
def _vremove(c, st, a, v):
    i = a[1]; out = []
    for s, b in c.e.split_bool(st, c.e.mk_lt(i, length(v))):
        if not b: c.panic(s, 'bounds', 'remove(%s) from %s' % (show(i), show(v))); continue
        x = at(v, i)
        set_ptr(c, s, a[0], concat(sl(v, Int(0), i), sl(v, add(i, Int(1)), length(v))))
        out.append((s, x))
    return out
@m('Vec::clear')
@vecop
def _vclear(c, st, a, v): set_ptr(c, st, a[0], NIL); return one(st, UNIT)
@m('Vec::truncate')
@vecop
def _vtrunc(c, st, a, v):
    out = []
    for s, b in c.e.split_bool(st, c.e.mk_lt(a[1], length(v))):
        if b: set_ptr(c, s, a[0], sl(v, Int(0), a[1]))
        out.append((s, UNIT))
    return out
@m('Vec::drain')
@vecop
def _vdrain(c, st, a, v):
    out = []
    for s, lo, hi in range_cases(c, st, a[1], length(v), v, 1):
        part = sl(v, lo, hi)
        set_ptr(c, s, a[0], concat(sl(v, Int(0), lo), sl(v, hi, length(v))))
        out.append((s, it_of(part)))
    return out
@m('Vec::split_off')
@vecop
def _vsplitoff(c, st, a, v):
    out = []
    for s, b in c.e.split_bool(st, c.e.mk_lt(length(v), a[1])):
        if b: c.panic(s, 'bounds', 'split_off'); continue
        set_ptr(c, s, a[0], sl(v, Int(0), a[1])); out.append((s, sl(v, a[1], length(v))))
    return out
@m('Vec::retain')
@vecop
def _vretain(c, st, a, v):
    it = raw('itfilter', it_of(v), a[1])
    out = []
    for s, w in collect(c, st, it):
        set_ptr(c, s, a[0], w); out.append((s, UNIT))
    return out
@m('slice::reverse')
@vecop
def _vrev(c, st, a, v):
    set_ptr(c, st, a[0], rev_seq(v)); return one(st, UNIT)
@m('Vec::len', 'slice::len', 'VecDeque::len')
def _vlen(c, st, a): return one(st, length(c.e.deref(st, a[0])))
@m('Vec::is_empty', 'slice::is_empty', 'VecDeque::is_empty')
def _vempty(c, st, a): return one(st, c.e.mk_ieq(length(c.e.deref(st, a[0])), Int(0)))
def opt_at(c, st, v, i, bound):
    """Some(v[i]) when bound holds"""
    return [(s, Some(at(v, i)) if b else NONE) for s, b in c.e.split_bool(st, bound)]
@m('slice::first', 'VecDeque::front')
def _first(c, st, a):
    v = c.e.deref(st, a[0]); return opt_at(c, st, v, Int(0), c.e.mk_lt(Int(0), length(v)))
@m('slice::last', 'VecDeque::back')
def _last(c, st, a):
    v = c.e.deref(st, a[0]); return opt_at(c, st, v, sub(length(v), Int(1)), c.e.mk_lt(Int(0), length(v)))
@m('slice::get', 'VecDeque::get')
def _get(c, st, a):
    v = c.e.deref(st, a[0])
    i = c.e.deref(st, a[1])
    if i.t == 'adt':
        out = []
        for s, lo, hi in range_cases(c, st, i, length(v), v, 1, soft=True): out.append((s, NONE if lo is None else Some(sl(v, lo, hi))))
        return out
    return opt_at(c, st, v, i, c.e.mk_lt(i, length(v)))
@m('slice::get_mut', 'slice::first_mut', 'slice::last_mut')
def _getmut(c, st, a):
    v = c.e.deref(st, a[0]); n = c.name.split('::')[-1]
    i = a[1] if n == 'get_mut' else Int(0) if n == 'first_mut' else sub(length(v), Int(1))
    bound = c.e.mk_lt(i, length(v)) if n == 'get_mut' else c.e.mk_lt(Int(0), length(v))
    p = a[0]
    cur = c.e.load_cell(st, p.a[0], p.a[1]) if p.t == 'ptr' else None
    if cur is not None and cur.t == 'ptr': p = cur
    return [(s, Some(sub_ptr(p, ('i', i))) if b else NONE) for s, b in c.e.split_bool(st, bound)]
@m('slice::split_first', 'slice::split_last')
def _splitfirst(c, st, a):
    v = c.e.deref(st, a[0]); n = length(v); out = []
    for s, b in c.e.split_bool(st, c.e.mk_lt(Int(0), n)):
        if not b: out.append((s, NONE))
        elif c.name.endswith('first'): out.append((s, Some(Tup(at(v, Int(0)), sl(v, Int(1), n)))))
        else: out.append((s, Some(Tup(at(v, sub(n, Int(1))), sl(v, Int(0), sub(n, Int(1)))))))
    return out
@m('slice::split_at')
def _splitat(c, st, a):
    v = c.e.deref(st, a[0]); n = length(v); out = []
    for s, b in c.e.split_bool(st, c.e.mk_lt(n, a[1])):
        if b: c.panic(s, 'bounds', 'split_at')
        else: out.append((s, Tup(sl(v, Int(0), a[1]), sl(v, a[1], n))))
    return out
@m('slice::contains')
def _vcontains(c, st, a):
    v = c.e.deref(st, a[0]); x = c.e.deref(st, a[1])
    ps = seq_parts(v)
    if all(k == 'e' for k, _ in ps) and len(ps) < 40:
        r = FALSE
        for k, y in ps:
            q = c.e.mk_eq(x, c.e.deref(st, y))
            d = c.e.decide_bool(st, q)
            if d is True: return one(st, TRUE)
            if d is False: continue
            r = raw('or', r, q) if r is not FALSE else q
        return one(st, r)
    return None
@m('slice::iter', 'Vec::iter', 'VecDeque::iter')
def _viter(c, st, a):
    v = c.e.deref(st, a[0])
    return one(st, it_of(Seq(*explicit(v)) if v.t == 'str' and lit(v) is not None else v))
@m('slice::iter_mut')
def _vitermut(c, st, a):
    p = a[0]
    if p.t != 'ptr': return None
    cur = c.e.load_cell(st, p.a[0], p.a[1])
    if cur.t == 'ptr': p = cur
    return one(st, raw('itmut', p, Int(0)))
def explicit(v):
    """the elements of a sequence all of whose elements are known, or None"""
    if v.t == 'bytes': return [Int(x) for x in v.a[0]]
    if v.t == 'str' and lit(v) is not None: return [Int(x) for x in lit(v).encode()]       # as_bytes
    if v is NIL: return []
    if v.t == 'fm' and v.a[0].t == 'int' and v.a[0].a[0] == 0: return []
    if v.t == 'seq' and all(k == 'e' for k, _ in v.a[0]): return [x for _, x in v.a[0]]
    return None
@m('slice::windows')
def _windows(c, st, a):
    xs = explicit(c.e.deref(st, a[0])); n = a[1]
    if xs is None or n.t != 'int': return _chunks(c, st, a)
    k = n.a[0]
    return one(st, it_of(Seq(*[Seq(*xs[i:i + k]) for i in range(len(xs) - k + 1)])))
def _utf8s(c, st, a):
    xs = explicit(c.e.deref(st, a[0]))
    if xs is None or any(x.t != 'int' for x in xs): return None
    try: return bytes(x.a[0] for x in xs).decode('utf8')
    except (UnicodeDecodeError, ValueError): return False
@m('converts::from_utf8', 'str::from_utf8', 'String::from_utf8')
def _fromutf8(c, st, a):
    t = _utf8s(c, st, a)
    if t is None: return None
    return one(st, Err(ERR) if t is False else Ok(Str(t)))
@m('str::parse')
def _parse(c, st, a):
    t = lit(c.e.deref(st, a[0])); d = c.dest()
    if t is None or not re.match(r'(core|std)::result::Result<(usize|u8|u16|u32|u64),', d.get('s', '')): return None
    ok = re.fullmatch(r'\+?[0-9]+', t) and int(t) < 2 ** {'usize': 64, 'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64}[re.search(r'<(\w+),', d['s']).group(1)]
    return one(st, Ok(Int(int(t))) if ok else Err(ERR))
@m('slice::chunks', 'slice::split')
def _chunks(c, st, a): return one(st, it_of(raw('app', c.name.split('::')[-1], c.e.deref(st, a[0]), *a[1:])))

RANGES = {'Range': ('start', 'end'), 'RangeFrom': ('start', None), 'RangeTo': (None, 'end'), 'RangeFull': (None, None), 'RangeInclusive': ('start', 'end='), 'RangeToInclusive': (None, 'end=')}
def range_bounds(v, n, tyname):
    nm = v.a[0].split('::')[-1] if v.t == 'adt' else tyname
    if nm not in RANGES: return None
    s, e_ = RANGES[nm]
    lo = fld(v, 'start') if s else Int(0)
    if e_ is None: hi = n
    elif e_ == 'end': hi = fld(v, 'end')
    else: hi = add(fld(v, 'end'), Int(1))
    return lo, hi
def range_cases(c, st, idx, n, v, ai, soft=False):
    """[(state, lo, hi)], panicking (or None when soft) out of bounds"""
    b = range_bounds(idx, n, (c.argty(ai).get('adt') or '').split('::')[-1])
    if b is None: raise c.e.Lost('range index')
    lo, hi = b; out = []
    e = c.e
    conds = []
    if hi is not n: conds.append(e.mk_not(e.mk_lt(n, hi)))
    if lo is not Int(0): conds.append(e.mk_not(e.mk_lt(hi, lo)))
    cur = [st]
    for cd in conds:
        nxt = []
        for s in cur:
            for s2, r in e.split_bool(s, cd):
                if r: nxt.append(s2)
                elif soft: out.append((s2, None, None))
                else: c.panic(s2, 'bounds', 'slice %s..%s of %s' % (show(lo), show(hi), show(v)))
        cur = nxt
    return [(s, lo, hi) for s in cur] + out
@m('Index::index')
def _index(c, st, a):
    v = c.e.deref(st, a[0]); i = c.e.deref(st, a[1])
    bt, it = c.argty(0), c.argty(1)
    if bt['k'] == 'adt' and bt['adt'].endswith('Value') or it['k'] == 'str' and bt.get('adt') != 'std::collections::hash::map::HashMap':
        return one(st, raw('app', 'jsonidx', v, i))
    if bt['k'] == 'adt' and bt['adt'] == 'std::collections::hash::map::HashMap':
        out = []
        for s, p in c.e.opt_cases(st, hm_get(c.e, st, v, i)):
            if p is None: c.panic(s, 'unwrap', 'missing map key')
            else: out.append((s, p))
        return out
    if is_strty(bt):
        b = range_bounds(i, slen(v), (it.get('adt') or '').split('::')[-1])
        if b is None: return None
        if b[0] is Int(0) and b[1] is slen(v): return one(st, v)
        x = str_cut(v, b[0], b[1])
        if x is not None: return one(st, x)
        return one(st, raw('app', 'strslice', v, b[0], b[1]))
    if it['k'] in ('uint', 'int') or i.t in ('int', 'lin'):
        out = []
        for s, b in c.e.split_bool(st, c.e.mk_lt(i, length(v))):
            if b: out.append((s, at(v, i)))
            else: c.panic(s, 'bounds', 'index %s of %s' % (show(i), show(v)))
        return out
    return [(s, sl(v, lo, hi)) for s, lo, hi in range_cases(c, st, i, length(v), v, 1)]
@m('IndexMut::index_mut')
def _indexmut(c, st, a):
    v = c.e.deref(st, a[0]); i = c.e.deref(st, a[1]); it = c.argty(1)
    p = a[0]
    if p.t != 'ptr': return None
    cur = c.e.load_cell(st, p.a[0], p.a[1])
    if cur.t == 'ptr': p = cur
    if it['k'] in ('uint', 'int') or i.t in ('int', 'lin'):
        out = []
        for s, b in c.e.split_bool(st, c.e.mk_lt(i, length(v))):
            if b: out.append((s, sub_ptr(p, ('i', i))))
            else: c.panic(s, 'bounds', 'index %s of %s' % (show(i), show(v)))
        return out
    if it['k'] == 'str': return one(st, sub_ptr(p, ('k', i)))
    return None

def rev_seq(X):
    ps = seq_parts(X)
    out = []
    for k, x in reversed(ps):
        if k == 'e': out.append((k, x))
        elif x.t == 'rev': out.append(('s', x.a[0]))
        else: out.append(('s', raw('rev', x)))
    return mkseq(out)

# ------------------------------------------------------------------ iterators
def it_of(X): return raw('it', tuple(seq_parts(X)), Int(0), '')
ITS = ('it', 'itmap', 'itfilter', 'itfmap', 'itenum', 'ittake', 'itchain', 'itzip', 'itpeek', 'itflat', 'itskipw', 'ittakew', 'itmapw', 'itmut', 'itskip', 'itscan', 'itinsp')
def remaining(it):
    """sequence left in a base iterator"""
    ps = list(it.a[0])
    if not ps: return NIL
    if it.a[1] is not Int(0):
        k, X = ps[0]
        ps[0] = ('s', sl(X, it.a[1], length(X)))
    return mkseq(ps)

def to_iter(c, st, v, ai=0):
    """IntoIterator"""
    e = c.e
    v0 = v
    t = c.argty(ai)
    if v.t == 'ptr':
        tid = c.argtys[ai] if c.argtys else None
        d = c.crate.types[tid] if tid is not None else {'k': '?'}
        w = e.deref(st, v)
        if d['k'] == 'refmut' and not w.t.startswith('it') and (t.get('adt') == 'alloc::vec::Vec' or t['k'] in ('slice', 'array')):
            p = v
            cur = e.load_cell(st, p.a[0], p.a[1])
            if cur.t == 'ptr': p = cur
            return raw('itmut', p, Int(0))
        if d['k'] == 'refmut' and w.t in ITS: return v      # by_ref
        v = w
    if v.t in ITS: return v
    if v.t == 'adt':
        nm = v.a[0].split('::')[-1]
        if nm == 'Range': return it_of(raw('rng', fld(v, 'start'), fld(v, 'end')))
        if nm == 'RangeFrom': return it_of(raw('rng', fld(v, 'start'), INF))
        if nm == 'RangeInclusive': return it_of(raw('rng', fld(v, 'start'), add(fld(v, 'end'), Int(1))))
        if v.a[0] == OPT: return it_of(NIL if v.a[1] == 0 else Seq(fld(v, '0')))
    if v.t == 'hm' or t.get('adt') in ('std::collections::hash::map::HashMap', 'serde_json::map::Map'): return it_of(entries(v))
    if t.get('adt') == OPT: return it_of(raw('app', 'opt_seq', v))
    if t.get('adt') in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque') or t['k'] in ('slice', 'array') or v.t in ('seq', 'sl', 'fm', 'rng', 'rev'):
        return it_of(v)
    if v.t == 'app' and v.a[0] in ('elements',): return it_of(v)
    return it_of(raw('app', 'elements', v))

def entries(v):
    if v.t == 'hm':
        base = v.a[0]
        b = NIL if base is NILBASE else raw('app', 'entries', base)
        return concat(b, v.a[1])
    return raw('app', 'entries', v)

def assume_guard(e, st, g):
    k = g[0]
    if k == 'vs':
        t = g[1]
        if t.t == 'adt': return t.a[1] in g[2]
        s = st.facts.vs.get(t)
        s = g[2] if s is None else s & g[2]
        if not s: return False
        st.facts.set_vs(t, s); return True
    if k == 'eq': return e.assume(st, e.mk_eq(g[1], g[2]), True)
    if k == 'ne': return e.assume(st, e.mk_eq(g[1], g[2]), False)
    if k == 'bl': return e.assume(st, g[1], g[2].a[0]) 
    if k == 'ge':
        if g[1].t == 'int': return g[1].a[0] >= 0
        st.facts.add_ge(g[1]); return True
    return True

def it_next(c, st, it):
    """[(state, iterator', item or None)]"""
    e = c.e; k = it.t
    if k == 'ptr':      # by_ref
        out = []
        v = e.deref(st, it)
        if v.t not in ITS: v = to_iter(c, st, v)
        for s, it2, x in it_next(c, st, v):
            set_ptr(c, s, it, it2); out.append((s, it, x))
        return out
    if k == 'it':
        parts, off, kind = it.a
        if not parts: return [(st, it, None)]
        pk, X = parts[0]
        if pk == 'e': return [(st, raw('it', parts[1:], Int(0), kind), X)]
        n = length(X)
        if n is INF: return [(st, raw('it', parts, add(off, Int(1)), kind), at(X, off))]
        if X.t == 'app' and X.a[0] == 'opt_seq':
            out = []
            for s, p in e.opt_cases(st, X.a[1]):
                if p is None: out.extend(it_next(c, s, raw('it', parts[1:], Int(0), kind)))
                else: out.append((s, raw('it', parts[1:], Int(0), kind), p))
            return out
        out = []
        for s, b in e.split_bool(st, e.mk_lt(off, n)):
            if b:
                nit = raw('it', parts, add(off, Int(1)), kind)
                if X.t == 'fm' and len(X.a[2]) > 1 and uniform(X):
                    bv = raw('bv', X.a[1])
                    for gd, ps in X.a[2]:
                        s2 = s.copy(); ok = True
                        for g in gd:
                            if not assume_guard(e, s2, subst_guard(g, {bv: off})): ok = False; break
                        if ok: out.append((s2, nit, subst(ps[0][1], {bv: off})))
                else: out.append((s, nit, at(X, off)))
            else:
                # off >= n, and off <= n by construction
                s.facts.add_ge(sub(n, off))
                out.extend(it_next(c, s, raw('it', parts[1:], Int(0), kind)))
        return out
    if k == 'itmut':
        p, off = it.a
        v = e.deref(st, p)
        out = []
        for s, b in e.split_bool(st, e.mk_lt(off, length(v))):
            if b: out.append((s, raw('itmut', p, add(off, Int(1))), sub_ptr(p, ('i', off))))
            else: out.append((s, it, None))
        return out
    if k == 'itmap':
        out = []
        for s, i2, x in it_next(c, st, it.a[0]):
            n2 = raw('itmap', i2, it.a[1])
            if x is None: out.append((s, n2, None))
            else: out.extend((s2, n2, v) for s2, v in call_value(e, s, it.a[1], [x], c.call))
        return out
    if k == 'itinsp':
        out = []
        for s, i2, x in it_next(c, st, it.a[0]):
            n2 = raw('itinsp', i2, it.a[1])
            if x is None: out.append((s, n2, None))
            else: out.extend((s2, n2, x) for s2, v in call_value(e, s, it.a[1], [x], c.call))
        return out
    if k == 'itenum':
        return [(s, raw('itenum', i2, add(it.a[1], Int(1)) if x is not None else it.a[1]), None if x is None else Tup(it.a[1], x)) for s, i2, x in it_next(c, st, it.a[0])]
    if k == 'ittake':
        if it.a[1] is Int(0): return [(st, it, None)]
        out = []
        for s, b in e.split_bool(st, e.mk_lt(Int(0), it.a[1])):
            if not b: out.append((s, it, None)); continue
            out.extend((s2, raw('ittake', i2, sub(it.a[1], Int(1))), x) for s2, i2, x in it_next(c, s, it.a[0]))
        return out
    if k == 'itskip':
        if it.a[1] is Int(0): return it_next(c, st, it.a[0])
        out = []
        if it.a[1].t == 'int' and it.a[1].a[0] <= 8:
            for s, i2, x in it_next(c, st, it.a[0]):
                if x is None: out.append((s, raw('itskip', i2, Int(0)), None))
                else: out.extend(it_next(c, s, raw('itskip', i2, sub(it.a[1], Int(1)))))
            return out
        raise e.Lost('skip by an unknown amount')
    if k == 'itchain':
        A, B = it.a
        if A is NIL: return [(s, raw('itchain', NIL, i2), x) for s, i2, x in it_next(c, st, B)]
        out = []
        for s, i2, x in it_next(c, st, A):
            if x is not None: out.append((s, raw('itchain', i2, B), x))
            else: out.extend((s2, raw('itchain', NIL, i3), y) for s2, i3, y in it_next(c, s, B))
        return out
    if k == 'itzip':
        out = []
        for s, i2, x in it_next(c, st, it.a[0]):
            if x is None: out.append((s, raw('itzip', i2, it.a[1]), None)); continue
            for s2, j2, y in it_next(c, s, it.a[1]): out.append((s2, raw('itzip', i2, j2), None if y is None else Tup(x, y)))
        return out
    if k == 'itpeek':
        inner, pk = it.a
        if pk is UNIT: return [(s, raw('itpeek', i2, UNIT), x) for s, i2, x in it_next(c, st, inner)]
        return [(st, raw('itpeek', inner, UNIT), None if pk is NONE else fld(pk, '0'))]
    if k in ('itfilter', 'itfmap', 'itflat', 'itskipw'):
        return it_search(c, st, it)
    if k in ('ittakew', 'itmapw'):
        out = []
        if it.a[2] is TRUE: return [(st, it, None)]
        for s, i2, x in it_next(c, st, it.a[0]):
            if x is None: out.append((s, raw(k, i2, it.a[1], TRUE), None)); continue
            for s2, v in call_value(e, s, it.a[1], [x], c.call):
                if k == 'ittakew':
                    out.extend((s3, raw(k, i2, it.a[1], Bool(not b)), x if b else None) for s3, b in e.split_bool(s2, v))
                else:
                    out.extend((s3, raw(k, i2, it.a[1], Bool(p is None)), p) for s3, p in e.opt_cases(s2, v))
        return out
    raise e.Lost('iterator ' + k)

def tmpcell(e, st, n):
    i = 0
    fid = len(e.stack)
    while (fid, 't%s%d' % (n, i)) in st.cells: i += 1
    return (fid, 't%s%d' % (n, i))

def it_search(c, st, it):
    """next() of adaptors that may skip elements: a loop"""
    e = c.e; k = it.t
    cell = tmpcell(e, st, 'i')
    st.cells[cell] = it
    def body(s):
        it = s.cells[cell]
        outs, backs = [], []
        if k == 'itflat':
            inner, clo, cur = it.a
            todo = []
            if cur is not NIL:
                for s2, c2, x in it_next(c, s, cur):
                    if x is not None:
                        s2.cells[cell] = raw('itflat', inner, clo, c2); outs.append(('x', Some(x), s2))
                    else: todo.append(s2)
            else: todo.append(s)
            for s2 in todo:
                for s3, i2, x in it_next(c, s2, inner):
                    if x is None:
                        s3.cells[cell] = raw('itflat', i2, clo, NIL); outs.append(('x', NONE, s3)); continue
                    vs = call_value(e, s3, clo, [x], c.call) if clo is not UNIT else [(s3, x)]
                    for s4, v in vs:
                        s4.cells[cell] = raw('itflat', i2, clo, flat_iter(c, s4, v)); backs.append(s4)
            return outs, backs
        if k == 'itskipw':
            inner, clo, done = it.a
            for s2, i2, x in it_next(c, s, inner):
                if x is None or done is TRUE:
                    s2.cells[cell] = raw(k, i2, clo, done); outs.append(('x', NONE if x is None else Some(x), s2)); continue
                for s3, v in call_value(e, s2, clo, [x], c.call):
                    for s4, b in e.split_bool(s3, v):
                        s4.cells[cell] = raw(k, i2, clo, Bool(not b))
                        if b: backs.append(s4)
                        else: outs.append(('x', Some(x), s4))
            return outs, backs
        inner, clo = it.a
        for s2, i2, x in it_next(c, s, inner):
            n2 = raw(k, i2, clo)
            if x is None:
                s2.cells[cell] = n2; outs.append(('x', NONE, s2)); continue
            for s3, v in call_value(e, s2, clo, [x], c.call):
                if k == 'itfilter':
                    for s4, b in e.split_bool(s3, v):
                        s4.cells[cell] = n2
                        if b: outs.append(('x', Some(x), s4))
                        else: backs.append(s4)
                else:
                    for s4, p in e.opt_cases(s3, v):
                        s4.cells[cell] = n2
                        if p is None: backs.append(s4)
                        else: outs.append(('x', Some(p), s4))
        return outs, backs
    res = []
    for o in e.generic_loop(body, st, ('next:' + k, lid(c)), c.call.get('fr')):
        _, v, s = o
        it2 = s.cells.pop(cell)
        if v.t != 'adt': raise e.Lost('iterator item')
        res.append((s, it2, fld(v, '0') if v.a[1] == 1 else None))
    return res

def flat_iter(c, st, v):
    e = c.e
    v = e.deref(st, v)
    if v.t in ITS: return v
    if v.t == 'adt' and v.a[0] == OPT: return it_of(NIL if v.a[1] == 0 else Seq(fld(v, '0')))
    if v.t == 'adt' and v.a[0] == RES: return it_of(Seq(fld(v, '0')) if v.a[1] == 0 else NIL)
    if v.t in ('seq', 'sl', 'fm', 'rng', 'rev', 'fld', 'at', 'v', 'mu', 'app'): return it_of(v)
    raise e.Lost('flat_map over ' + v.t)

def lid(c):
    fr = c.call.get('fr') if c.call else None
    return '%s:%s' % (fr['fn'].key, c.call['bb']) if fr else '?'

@m('IntoIterator::into_iter', 'HashMap::iter', 'HashMap::into_iter', 'Map::iter', 'HashMap::drain')
def _into_iter(c, st, a): return one(st, to_iter(c, st, a[0]))
@m('Iterator::next')
def _next(c, st, a):
    e = c.e
    p = a[0]
    v = e.deref(st, p)
    if v.t not in ITS:
        if EFFECT.match(c.name) and False: return None
        v = to_iter(c, st, v)
    out = []
    for s, it2, x in it_next(c, st, v):
        if p.t == 'ptr': set_ptr(c, s, p, it2)
        out.append((s, NONE if x is None else Some(x)))
    return out
@m('DoubleEndedIterator::next_back')
def _nextback(c, st, a):
    v = c.e.deref(st, a[0])
    if v.t != 'it': return None
    X = remaining(v); out = []
    for s, b in c.e.split_bool(st, c.e.mk_lt(Int(0), length(X))):
        if not b: out.append((s, NONE)); continue
        n = length(X)
        x = at(X, sub(n, Int(1)))
        set_ptr(c, s, a[0], it_of(sl(X, Int(0), sub(n, Int(1))))); out.append((s, Some(x)))
    return out
def adaptor(tag, *extra):
    def f(c, st, a):
        it = to_iter(c, st, a[0])
        return one(st, raw(tag, it, *([a[1]] if len(a) > 1 else []), *extra))
    return f
M['Iterator::map'] = adaptor('itmap'); M['Iterator::filter'] = adaptor('itfilter'); M['Iterator::filter_map'] = adaptor('itfmap')
M['Iterator::inspect'] = adaptor('itinsp')
M['Iterator::flat_map'] = adaptor('itflat', NIL); M['Iterator::flatten'] = adaptor('itflat', UNIT, NIL)
M['Iterator::skip_while'] = adaptor('itskipw', FALSE); M['Iterator::take_while'] = adaptor('ittakew', FALSE); M['Iterator::map_while'] = adaptor('itmapw', FALSE)
M['Iterator::enumerate'] = adaptor('itenum', Int(0)); M['Iterator::peekable'] = adaptor('itpeek', UNIT)
@m('Iterator::zip')
def _zip(c, st, a): return one(st, raw('itzip', to_iter(c, st, a[0]), to_iter(c, st, a[1], 1)))
@m('Iterator::chain')
def _chain(c, st, a):
    x, y = to_iter(c, st, a[0]), to_iter(c, st, a[1], 1)
    if x.t == y.t == 'it': return one(st, it_of(concat(remaining(x), remaining(y))))
    return one(st, raw('itchain', x, y))
@m('Iterator::rev')
def _rev(c, st, a):
    x = to_iter(c, st, a[0])
    if x.t == 'it': return one(st, it_of(rev_seq(remaining(x))))
    if x.t == 'itmap' and x.a[0].t == 'it': return one(st, raw('itmap', it_of(rev_seq(remaining(x.a[0]))), x.a[1]))
    if x.t == 'itenum' and x.a[0].t == 'it':
        X = remaining(x.a[0]); n = length(X)
        return one(st, raw('itzip', it_of(raw('rev', raw('rng', x.a[1], add(x.a[1], n)))), it_of(rev_seq(X))))
    raise c.e.Lost('rev of ' + x.t)
@m('Iterator::skip')
def _skip(c, st, a):
    x = to_iter(c, st, a[0]); n = a[1]
    if x.t == 'it':
        X = remaining(x); L = length(X); out = []
        if L is INF: return one(st, it_of(sl(X, n, L)))
        for s, b in c.e.split_bool(st, c.e.mk_lt(L, n)):
            out.append((s, it_of(NIL if b else sl(X, n, L))))
        return out
    return one(st, raw('itskip', x, n))
@m('Iterator::take')
def _take_(c, st, a):
    x = to_iter(c, st, a[0]); n = a[1]
    if x.t == 'it':
        X = remaining(x); L = length(X); out = []
        if L is INF: return one(st, it_of(sl(X, Int(0), n)))
        for s, b in c.e.split_bool(st, c.e.mk_lt(L, n)):
            out.append((s, it_of(X if b else sl(X, Int(0), n))))
        return out
    return one(st, raw('ittake', x, n))
@m('Peekable::peek')
def _peek(c, st, a):
    v = c.e.deref(st, a[0])
    if v.t != 'itpeek': return None
    if v.a[1] is not UNIT: return one(st, v.a[1])
    out = []
    for s, i2, x in it_next(c, st, v.a[0]):
        p = NONE if x is None else Some(x)
        set_ptr(c, s, a[0], raw('itpeek', i2, p)); out.append((s, p))
    return out
@m('Peekable::next_if')
def _nextif(c, st, a):
    v = c.e.deref(st, a[0]); out = []
    for s, i2, x in it_next(c, st, v):
        if x is None: set_ptr(c, s, a[0], raw('itpeek', i2.a[0], NONE)); out.append((s, NONE)); continue
        for s2, b in call_value(c.e, s, a[1], [x], c.call):
            for s3, r in c.e.split_bool(s2, b):
                set_ptr(c, s3, a[0], i2 if r else raw('itpeek', i2.a[0], Some(x))); out.append((s3, Some(x) if r else NONE))
    return out
@m('RangeInclusive::new')
def _rinew(c, st, a): return one(st, Adt('core::ops::range::RangeInclusive', 0, ('start', 'end'), (a[0], a[1])))
@m('Cell::new', 'RefCell::new', 'OnceCell::new', 'Mutex::new', 'RwLock::new')
def _cellnew(c, st, a): return one(st, a[0] if a else UNIT)
def inside(c, st, p):
    """the place a reference to a cell leads to, however many references deep"""
    n = 0
    while p.t == 'ptr' and n < 8:
        v = c.e.load_cell(st, p.a[0], p.a[1])
        if v.t != 'ptr': return p
        p = v; n += 1
    raise c.e.Lost('a cell whose place is not known')
@m('RefCell::borrow', 'RefCell::borrow_mut', 'RefCell::get_mut', 'Cell::get_mut')
def _cellref(c, st, a): return one(st, inside(c, st, a[0]))
@m('Cell::get', 'RefCell::into_inner', 'Cell::into_inner')
def _cellget(c, st, a): return one(st, c.e.deref(st, a[0]))
@m('Cell::set')
def _cellset(c, st, a):
    set_ptr(c, st, inside(c, st, a[0]), a[1]); return one(st, UNIT)
@m('Cell::replace', 'RefCell::replace')
def _cellrep(c, st, a):
    p = inside(c, st, a[0]); v = c.e.deref(st, p); set_ptr(c, st, p, a[1]); return one(st, v)
@m('Cell::take', 'RefCell::take', 'Cell::swap', 'RefCell::swap', 'Cell::update', 'OnceCell::get_or_init', 'OnceCell::set', 'OnceCell::get', 'Mutex::lock', 'RwLock::read', 'RwLock::write', 'RefCell::try_borrow', 'RefCell::try_borrow_mut', 'Rc::get_mut', 'Arc::get_mut', 'Rc::make_mut', 'Arc::make_mut')
def _cellother(c, st, a): raise c.e.Lost('interior mutability: ' + c.name)
@m('iter::once')
def _once(c, st, a): return one(st, it_of(Seq(a[0])))
@m('iter::empty')
def _itempty(c, st, a): return one(st, it_of(NIL))
@m('iter::repeat', 'iter::repeat_n')
def _itrepeat(c, st, a):
    return one(st, it_of(raw('fm', INF if len(a) < 2 else a[1], 0, (((), (('e', a[0]),)),)))) if len(a) > 1 else None
@m('Vec::from_iter', 'FromIterator::from_iter')
def _fromiter(c, st, a): return _collect(c, st, a)

def written_back(c, st, src):
    """must a consumer leave the iterator behind src as far as it came?"""
    if src is None or src.t != 'ptr': return False
    v = c.e.load_cell(st, src.a[0], src.a[1])
    if v.t not in ITS: return False
    fr = c.call.get('fr')
    return not (fr and not src.a[1] and src.a[0][0] == fr['fid'] and c.e.prog.used_once(fr['fn'], src.a[0][1]))
def fold_loop(c, st, it, init, step, tag, src=None):
    """generic consumer: step(state, acc, item) -> ([(state, acc')] continuing, [(state, result)] stopping)
    -> [(state, acc | result, stopped)]; src is where the iterator is kept, when it can be used afterwards"""
    e = c.e
    if not written_back(c, st, src): src = None
    ic, ac = tmpcell(e, st, 'i'), tmpcell(e, st, 'a')
    st.cells[ic] = it; st.cells[ac] = init
    def body(s):
        outs, backs = [], []
        for s2, i2, x in it_next(c, s, s.cells[ic]):
            s2.cells[ic] = i2
            if x is None: outs.append(('end', UNIT, s2)); continue
            cont, stop = step(s2, s2.cells[ac], x)
            for s3, acc in cont: s3.cells[ac] = acc; backs.append(s3)
            for s3, r in stop: outs.append(('stop', r, s3))
        return outs, merge_cells(e, backs)
    res = []
    for o in e.generic_loop(body, st, (tag, lid(c)), c.call.get('fr')):
        k, v, s = o
        acc = s.cells.pop(ac); itv = s.cells.pop(ic)
        if src is not None: set_ptr(c, s, src, itv)
        res.append((s, v if k == 'stop' else acc, k == 'stop'))
    return e_merge(e, res)

def e_merge(e, res):
    if len(res) < 2: return res
    g = {}
    for s, v, k in res: g.setdefault((frozenset(s.cells.items()), v, k, id(s.ev.k) if s.ev else 0), []).append(s)
    if len(g) == len(res): return res
    out = []
    for (_, v, k, _2), ss in g.items(): out.extend((s, v, k) for s in e.merge_list(ss))
    return out

def merge_cells(e, states):
    if len(states) < 2: return states
    g = {}
    for s in states: g.setdefault((frozenset(s.cells.items()), id(s.ev.k) if s.ev else 0), []).append(s)
    if len(g) == len(states): return states
    out = []
    for l in g.values(): out.extend(e.merge_list(l))
    return out

def collect(c, st, it):
    """[(state, sequence)]"""
    if it.t == 'it': return [(st, remaining(it))]
    if it.t == 'ptr':
        v = c.e.deref(st, it)
        if v.t == 'it':
            set_ptr(c, st, it, it_of(NIL)); return [(st, remaining(v))]
    r = fold_loop(c, st, it, NIL, lambda s, acc, x: ([(s, concat(acc, Seq(x)))], []), 'collect')
    return [(s, v) for s, v, _ in r]

@m('Iterator::collect')
def _collect(c, st, a):
    it = to_iter(c, st, a[0])
    t = c.dest(); e = c.e
    p = t.get('adt')
    if p == 'alloc::string::String': return wrap(collect(c, st, it), cats)
    if p in (RES, OPT):
        inner = c.peel(t['args'][0]) if t.get('args') else {}
        ip = inner.get('adt')
        def step(s, acc, x):
            cont, stop = [], []
            if p == RES:
                for s2, ok, q in e.res_cases(s, x):
                    (cont.append((s2, concat(acc, Seq(q)))) if ok else stop.append((s2, Err(q))))
            else:
                for s2, q in e.opt_cases(s, x):
                    (stop.append((s2, NONE)) if q is None else cont.append((s2, concat(acc, Seq(q)))))
            return cont, stop
        out = []
        for s, v, stopped in fold_loop(c, st, it, NIL, step, 'collect'):
            if not stopped:
                if ip == 'alloc::string::String': v = cats(v)
                elif ip == 'std::collections::hash::map::HashMap': v = map_of(v)
                elif inner.get('k') == 'tuple': v = UNIT
                v = Ok(v) if p == RES else Some(v)
            out.append((s, v))
        return out
    if p in ('std::collections::hash::map::HashMap', 'serde_json::map::Map', 'alloc::collections::btree::map::BTreeMap'):
        return wrap(collect(c, st, it), map_of)
    if t['k'] == 'tuple': return [(s, UNIT) for s, _ in collect(c, st, it)]
    return collect(c, st, it)

def map_of(X):
    r = NILMAP
    ps = seq_parts(X)
    if all(k == 'e' for k, _ in ps):
        for k, x in ps: r = hm_insert(r, fld(x, '0'), fld(x, '1'))
        return r
    return raw('hm', NILBASE, X)

@m('Iterator::for_each')
def _foreach(c, st, a):
    it = to_iter(c, st, a[0])
    r = fold_loop(c, st, it, UNIT, lambda s, acc, x: ([(s2, UNIT) for s2, _ in call_value(c.e, s, a[1], [x], c.call)], []), 'for_each')
    return [(s, UNIT) for s, _, _ in r]
@m('Iterator::fold')
def _fold(c, st, a):
    it = to_iter(c, st, a[0])
    r = fold_loop(c, st, it, a[1], lambda s, acc, x: (call_value(c.e, s, a[2], [acc, x], c.call), []), 'fold')
    return [(s, v) for s, v, _ in r]
@m('Iterator::try_for_each', 'Iterator::try_fold')
def _tryfe(c, st, a):
    e = c.e; fold = c.d.get('item') == 'try_fold' or c.name.endswith('try_fold')
    it = to_iter(c, st, a[0]); t = c.dest()
    p = t.get('adt')
    def step(s, acc, x):
        cont, stop = [], []
        for s2, v in call_value(e, s, a[2] if fold else a[1], [acc, x] if fold else [x], c.call):
            if p == OPT:
                for s3, q in e.opt_cases(s2, v): (stop.append((s3, NONE)) if q is None else cont.append((s3, q)))
            else:
                for s3, ok, q in e.res_cases(s2, v): (cont.append((s3, q)) if ok else stop.append((s3, Err(q))))
        return cont, stop
    out = []
    for s, v, stopped in fold_loop(c, st, it, a[1] if fold else UNIT, step, 'try', a[0]):
        out.append((s, v if stopped else (Some(v) if p == OPT else Ok(v))))
    return out
def searcher(on_true, at_end):
    def f(c, st, a):
        e = c.e
        src = a[0]
        v = e.deref(st, src)
        it = v if v.t in ITS else to_iter(c, st, src)
        cnt = ('n',)
        def step(s, acc, x):
            cont, stop = [], []
            for s2, b in call_value(e, s, a[1], [x], c.call):
                for s3, r in e.split_bool(s2, b):
                    rv = on_true(r, x, acc)
                    if rv is None: cont.append((s3, add(acc, Int(1))))
                    else: stop.append((s3, rv))
            return cont, stop
        out = []
        for s, v2, stopped in fold_loop(c, st, it, Int(0), step, c.d.get('item') or 'search', src):
            out.append((s, v2 if stopped else at_end))
        return out
    return f
M['Iterator::any'] = searcher(lambda r, x, n: TRUE if r else None, FALSE)
M['Iterator::all'] = searcher(lambda r, x, n: None if r else FALSE, TRUE)
M['Iterator::find'] = searcher(lambda r, x, n: Some(x) if r else None, NONE)
M['Iterator::position'] = searcher(lambda r, x, n: Some(n) if r else None, NONE)
def reversed_search(f):
    def g(c, st, a):
        v = c.e.deref(st, a[0])
        r = _rev(c, st, [v if v.t in ITS else a[0]])
        return f(c, r[0][0], [r[0][1]] + list(a[1:]))
    return g
M['DoubleEndedIterator::rfind'] = M['Iterator::rfind'] = reversed_search(M['Iterator::find'])
@m('Iterator::rposition')
def _rposition(c, st, a):
    it = c.e.deref(st, a[0])
    if it.t not in ITS: it = to_iter(c, st, a[0])
    if it.t != 'it': return None
    n = length(remaining(it)); out = []
    for s, v in reversed_search(M['Iterator::position'])(c, st, a):
        for s2, q in c.e.opt_cases(s, v): out.append((s2, NONE if q is None else Some(sub(n, add(q, Int(1))))))
    return out
@m('Iterator::partition')
def _partition(c, st, a):
    e = c.e; it = to_iter(c, st, a[0])
    def step(s, acc, x):
        cont = []
        for s2, b in call_value(e, s, a[1], [x], c.call):   # by value: the sequence is consumed
            for s3, r in e.split_bool(s2, b):
                y, n = acc.a
                cont.append((s3, Tup(concat(y, Seq(x)), n) if r else Tup(y, concat(n, Seq(x)))))
        return cont, []
    if it.t == 'it' and remaining(it).t != 'seq': return None
    return [(s, v) for s, v, _ in fold_loop(c, st, it, Tup(NIL, NIL), step, 'partition')]
@m('Iterator::max_by_key', 'Iterator::min_by_key')
def _lostit(c, st, a): return None
@m('Iterator::find_map')
def _findmap(c, st, a):
    v = c.e.deref(st, a[0])
    it = v if v.t in ITS else to_iter(c, st, a[0])
    out = []; back = written_back(c, st, a[0])
    for s, i2, x in it_next(c, st, raw('itfmap', it, a[1])):
        if back: set_ptr(c, s, a[0], i2.a[0])
        out.append((s, NONE if x is None else Some(x)))
    return out
@m('Iterator::count')
def _count(c, st, a):
    it = to_iter(c, st, a[0])
    return wrap(collect(c, st, it), length)
@m('ExactSizeIterator::len')
def _itlen(c, st, a):
    v = c.e.deref(st, a[0])
    return one(st, length(remaining(v))) if v.t == 'it' else None
@m('Iterator::last')
def _itlast(c, st, a):
    out = []
    for s, X in collect(c, st, to_iter(c, st, a[0])): out.extend(opt_at(c, s, X, sub(length(X), Int(1)), c.e.mk_lt(Int(0), length(X))))
    return out
@m('Iterator::nth')
def _nth(c, st, a):
    v = c.e.deref(st, a[0])
    it = v if v.t in ITS else to_iter(c, st, a[0])
    n = a[1]
    if it.t == 'it':
        X = remaining(it); out = []
        for s, b in c.e.split_bool(st, c.e.mk_lt(n, length(X))):
            if a[0].t == 'ptr': set_ptr(c, s, a[0], it_of(sl(X, add(n, Int(1)), length(X)) if b else NIL))
            out.append((s, Some(at(X, n)) if b else NONE))
        return out
    if n.t != 'int': return None
    cur = [(st, it)]; out = []
    for i in range(n.a[0] + 1):
        nxt = []
        for s, t in cur:
            for s2, t2, x in it_next(c, s, t):
                if x is None or i == n.a[0]:
                    if a[0].t == 'ptr': set_ptr(c, s2, a[0], t2)
                    out.append((s2, NONE if x is None else Some(x)))
                else: nxt.append((s2, t2))
        cur = nxt
    return out
@m('Iterator::sum')
def _sum(c, st, a):
    it = to_iter(c, st, a[0])
    if c.dest()['k'] not in ('uint', 'int'): return None
    return [(s, v) for s, v, _ in fold_loop(c, st, it, Int(0), lambda s, acc, x: ([(s, add(acc, x))], []), 'sum')]
@m('Iterator::max', 'Iterator::min')
def _itmax(c, st, a):
    it = to_iter(c, st, a[0])
    if c.peel(c.dest()['args'][0])['k'] not in ('uint', 'int'): return None
    mx = c.d.get('item') == 'max'
    out = []
    for s, it2, x in it_next(c, st, it):
        if x is None: out.append((s, NONE)); continue
        out.extend((s2, Some(v)) for s2, v, _ in fold_loop(c, s, it2, x, lambda s, acc, y: (minmax(c, s, acc, y, mx), []), 'max'))
    return out
@m('Iterator::unzip')
def _unzip(c, st, a):
    it = to_iter(c, st, a[0])
    return [(s, v) for s, v, _ in fold_loop(c, st, it, Tup(NIL, NIL), lambda s, acc, x: ([(s, Tup(concat(acc.a[0], Seq(fld(x, '0'))), concat(acc.a[1], Seq(fld(x, '1')))))], []), 'unzip')]
@m('Iterator::size_hint')
def _sh(c, st, a): return one(st, raw('app', 'size_hint', c.e.deref(st, a[0])))

# ------------------------------------------------------------------ maps
NILBASE = raw('nilmap')
NILMAP = raw('hm', NILBASE, NIL)
@m('HashMap::new', 'Map::new', 'BTreeMap::new', 'HashMap::with_capacity', 'Map::with_capacity')
def _hnew(c, st, a): return one(st, NILMAP)
def hm_insert(v, k, x):
    if v.t != 'hm': v = raw('hm', v, NIL)
    ps = [p for p in seq_parts(v.a[1]) if not (p[0] == 'e' and p[1].t == 'tup' and p[1].a[0] is k)]
    return raw('hm', v.a[0], mkseq(ps + [('e', Tup(k, x))]))
def hm_get(e, st, v, k):
    """Option term"""
    if v.t != 'hm': return raw('app', 'hmget', v, k)
    for kk, p in reversed(seq_parts(v.a[1])):
        if kk == 's': return raw('app', 'hmget', v, k)
        q = e.decide_eq(st, fld(p, '0'), k)
        if q is True: return Some(fld(p, '1'))
        if q is None: return raw('app', 'hmget', v, k)
    return NONE if v.a[0] is NILBASE else raw('app', 'hmget', v.a[0], k)
def hm_lookup_val(e, st, v, k):
    return fld(hm_get(e, st, v, k), '0')
@m('HashMap::get', 'Map::get', 'BTreeMap::get')
def _hget(c, st, a): return one(st, hm_get(c.e, st, c.e.deref(st, a[0]), c.e.deref(st, a[1])))
@m('HashMap::contains_key', 'Map::contains_key')
def _hck(c, st, a): return one(st, isv(c.e, st, hm_get(c.e, st, c.e.deref(st, a[0]), c.e.deref(st, a[1])), 1))
@m('HashMap::insert', 'Map::insert', 'BTreeMap::insert')
def _hins(c, st, a):
    if a[0].t != 'ptr': return None
    v = c.e.deref(st, a[0]); k = c.e.deref(st, a[1])
    old = hm_get(c.e, st, v, k)
    set_ptr(c, st, a[0], hm_insert(v, k, a[2]))
    return one(st, old)
@m('HashMap::remove', 'Map::remove', 'BTreeMap::remove')
def _hrem(c, st, a):
    if a[0].t != 'ptr': return None
    v = c.e.deref(st, a[0]); k = c.e.deref(st, a[1])
    if v.t != 'hm': return None
    keep = []
    for kk, p in seq_parts(v.a[1]):
        q = c.e.decide_eq(st, fld(p, '0'), k) if kk == 'e' else None
        if q is None: return None
        if not q: keep.append((kk, p))
    if v.a[0] is not NILBASE: return None
    old = hm_get(c.e, st, v, k)
    set_ptr(c, st, a[0], raw('hm', v.a[0], mkseq(keep))); return one(st, old)
@m('HashMap::entry', 'BTreeMap::entry', 'Map::entry')
def _hentry(c, st, a):
    if a[0].t != 'ptr': return None
    p = a[0]
    cur = c.e.load_cell(st, p.a[0], p.a[1])
    if cur.t == 'ptr': p = cur
    return one(st, raw('entry', p, c.e.deref(st, a[1])))
def on_entry(*names):
    def deco(f):
        def g(c, st, a):
            if a[0].t != 'entry': return None
            p, k = a[0].a; out = []
            for s, q in c.e.opt_cases(st, hm_get(c.e, st, c.e.deref(st, p), k)): out.extend(f(c, s, a, p, k, q))
            return out
        return m(*names)(g)
    return deco
def entry_put(c, s, p, k, x):
    set_ptr(c, s, p, hm_insert(c.e.deref(s, p), k, x)); return (s, sub_ptr(p, ('k', k)))
@on_entry('Entry::or_insert')
def _eor(c, s, a, p, k, q): return [(s, sub_ptr(p, ('k', k))) if q is not None else entry_put(c, s, p, k, a[1])]
@on_entry('Entry::or_default')
def _eod(c, s, a, p, k, q):
    if q is not None: return [(s, sub_ptr(p, ('k', k)))]
    d = c.crate.types[c.destty]
    if 'to' not in d: raise c.e.Lost('or_default')
    return [entry_put(c, s, p, k, default_of(c.e, c.crate, d['to'], c.env))]
@on_entry('Entry::or_insert_with')
def _eow(c, s, a, p, k, q):
    if q is not None: return [(s, sub_ptr(p, ('k', k)))]
    return [entry_put(c, s2, p, k, x) for s2, x in call_value(c.e, s, a[1], [], c.call)]
@on_entry('Entry::and_modify')
def _eam(c, s, a, p, k, q):
    if q is None: return [(s, a[0])]
    return [(s2, a[0]) for s2, _ in call_value(c.e, s, a[1], [sub_ptr(p, ('k', k))], c.call)]
@m('HashMap::get_mut')
def _hgm(c, st, a):
    k = c.e.deref(st, a[1])
    if a[0].t != 'ptr': return one(st, hm_get(c.e, st, c.e.deref(st, a[0]), k))
    v = c.e.deref(st, a[0])
    p = a[0]
    cur = c.e.load_cell(st, p.a[0], p.a[1])
    if cur.t == 'ptr': p = cur
    return [(s, NONE if q is None else Some(sub_ptr(p, ('k', k)))) for s, q in c.e.opt_cases(st, hm_get(c.e, st, v, k))]
@m('HashMap::values', 'HashMap::into_values')
def _hvals(c, st, a): return one(st, it_of(map_proj(entries(c.e.deref(st, a[0])), '1')))
@m('HashMap::keys', 'HashMap::into_keys')
def _hkeys(c, st, a): return one(st, it_of(map_proj(entries(c.e.deref(st, a[0])), '0')))
def map_proj(X, n):
    out = []
    for k, x in seq_parts(X):
        if k == 'e': out.append((k, fld(x, n)))
        else: out.append(('s', mkfm(length(x), 90, (((), (('e', fld(at(x, raw('bv', 90)), n)),)),))))
    return mkseq(out)
@m('HashMap::len', 'HashMap::is_empty')
def _hlen(c, st, a):
    X = entries(c.e.deref(st, a[0])); n = length(X)
    return one(st, n if c.name.endswith('len') else c.e.mk_ieq(n, Int(0)))

# ------------------------------------------------------------------ futures
@m('future::get_context')
def _ctx_(c, st, a): return one(st, UNIT)
@m('Future::poll')
def _poll(c, st, a):
    e = c.e
    v = e.deref(st, a[0])
    if v.t == 'coro':
        fn = e.prog.fns.get(v.a[0])
        if fn is None: raise e.Lost('coroutine body')
        if any(f is fn for _, _, f in e.stack):
            return wrap(recursive(e, st, fn, [v], c.call), Ready)
        hk = e.hooks.get(fn.key)
        if hk is not None:
            r = hk(e, st, list(v.a[1]), c.call)
            if r is not None: return wrap(r, Ready)
        return wrap(e.call_fn(fn, [v, UNIT], st, c.call, None), Ready)
    if v.t == 'joined': return one(st, Ready(raw('okor', v.a[0])))
    if v.t == 'joinall':
        out = []
        ps = []
        for k, x in seq_parts(v.a[0]):
            if k == 'e': ps.append((k, raw('okor', x.a[0]) if x.t == 'joined' else raw('app', 'await', x)))
            elif x.t == 'fm':
                cs = tuple((g, tuple(('e', raw('okor', y.a[0]) if y.t == 'joined' else raw('app', 'await', y)) if kk == 'e' else (kk, y) for kk, y in pp)) for g, pp in x.a[2])
                ps.append(('s', mkfm(x.a[0], x.a[1], cs)))
            else: ps.append(('s', raw('app', 'await_all', x)))
        return one(st, Ready(mkseq(ps)))
    if v.t == 'adt': return one(st, Ready(v))          # the outcome a scenario prescribes
    return one(st, Ready(raw('app', 'await', v)))
@m('tokio::task::spawn::spawn')
def _spawn(c, st, a):
    v = c.e.deref(st, a[0])
    if v.t != 'coro': return None
    fn = c.e.prog.fns.get(v.a[0])
    return [(s, raw('joined', r)) for s, r in c.e.call_fn(fn, [v, UNIT], st, c.call, None)]
@m('join_all::join_all')
def _joinall(c, st, a):
    out = []
    for s, X in collect(c, st, to_iter(c, st, a[0])): out.append((s, raw('joinall', X)))
    return out
@m('Runtime::block_on')
def _blockon(c, st, a):
    v = c.e.deref(st, a[1])
    if v.t != 'coro': return None
    fn = c.e.prog.fns.get(v.a[0])
    return c.e.call_fn(fn, [v, UNIT], st, c.call, None)

# ------------------------------------------------------------------ function values
@m('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def _fncall(c, st, a):
    args = a[1]
    args = list(args.a) if args.t == 'tup' else [args]
    return call_value(c.e, st, a[0], args, c.call)

# ------------------------------------------------------------------ misc
@m('Uuid::new_v4')
def _uuid(c, st, a):
    e = c.e
    path = tuple('%s:%s' % (k, b) for k, b, _ in e.stack)
    return one(st, raw('uuid', path, c.call['bb'], tuple(e.itctr)))
def joined_path(e, base, rel):
    """Path::join: an absolute second path replaces the first"""
    p = str_parts(rel); b = str_parts(base)
    if not p or not b: return raw('app', 'path_join', base, rel)
    if isinstance(p[0], str):
        if p[0].startswith('/'): return rel
    elif p[0] not in getattr(e, "words", ()): return raw('app', 'path_join', base, rel)
    if isinstance(b[-1], str): return cat(base, rel) if b[-1].endswith('/') else cat(base, '/', rel)
    return cat(base, '/', rel) if b[-1] in getattr(e, "words", ()) else raw('app', 'path_join', base, rel)
@m('Path::join', 'PathBuf::join')
def _join(c, st, a): return one(st, joined_path(c.e, c.e.deref(st, a[0]), c.e.deref(st, a[1])))
@m('PathBuf::push')
def _ppush(c, st, a):
    set_ptr(c, st, a[0], joined_path(c.e, c.e.deref(st, a[0]), c.e.deref(st, a[1]))); return one(st, UNIT)
@m('Path::to_str', 'OsStr::to_str')
def _tostr(c, st, a):
    v = c.e.deref(st, a[0])
    return one(st, raw('app', 'utf8', v)) if v.t != 'str' else one(st, Some(v))
@m('Path::exists', 'Path::is_file', 'Path::is_dir')
def _exists(c, st, a): return None
@m('serde_json::value::to_value')
def _tovalue(c, st, a): return one(st, raw('app', 'to_value', c.e.deref(st, a[0])))
@m('SemanticTokenType::as_str')
def _stt(c, st, a):
    v = c.e.deref(st, a[0])
    if v.t == 'app' and v.a[0].startswith('const:'):
        return one(st, Str(camel(v.a[0].split('::')[-1])))
    return None
def camel(s):
    p = s.lower().split('_')
    return p[0] + ''.join(x.capitalize() for x in p[1:])
from . import lits
