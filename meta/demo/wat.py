"""wat.py OUT SPEC.json: write a plugin (WebAssembly text, which extism accepts).
SPEC: {"metadata": [...], "exports": {call_name: {"prefix": s, "suffix": s} | {"const": s} | {"longer": n, "then": s, "else": s}}};
an export answers prefix + its raw input + suffix, or the constant."""
import json, sys

def esc(b): return ''.join('\\%02x' % c for c in b)

def plugin(spec):
    data = []; off = [16]
    def put(s):
        b = s.encode(); o = off[0]; data.append('(data (i32.const %d) "%s")' % (o, esc(b))); off[0] += len(b) + 8; return o, len(b)
    exp = dict(spec['exports']); exp['get_metadata'] = {'const': json.dumps(spec['metadata'])}
    fns = []
    for n, x in exp.items():
        if 'longer' in x:      # {"longer": N, "then": s, "else": s}: answer depends on the length of the input
            (to, tl), (eo, el) = put(x['then']), put(x['else'])
            fns.append('''(func (export "%s") (result i32) (local $o i64) (local $n i64) (local $p i32)
          (if (i64.gt_u (call $ilen) (i64.const %d)) (then (local.set $p (i32.const %d)) (local.set $n (i64.const %d))) (else (local.set $p (i32.const %d)) (local.set $n (i64.const %d))))
          (local.set $o (call $alloc (local.get $n)))
          (call $copy (local.get $p) (local.get $n) (local.get $o))
          (call $oset (local.get $o) (local.get $n))
          (i32.const 0))''' % (n, x['longer'], to, tl, eo, el)); continue
        pre = x.get('const', x.get('prefix', '')); suf = '' if 'const' in x else x.get('suffix', '')
        po, pl = put(pre); so, sl = put(suf)
        body = '''(local $n i64) (local $o i64) (local $i i64) (local $in i64)
          (local.set $in %s)
          (local.set $n (i64.add (local.get $in) (i64.const %d)))
          (local.set $o (call $alloc (local.get $n)))
          (call $copy (i32.const %d) (i64.const %d) (local.get $o))
          (block $b (loop $l
            (br_if $b (i64.ge_u (local.get $i) (local.get $in)))
            (call $store (i64.add (i64.add (local.get $o) (i64.const %d)) (local.get $i)) (call $iload (local.get $i)))
            (local.set $i (i64.add (local.get $i) (i64.const 1)))
            (br $l)))
          (call $copy (i32.const %d) (i64.const %d) (i64.add (local.get $o) (i64.add (i64.const %d) (local.get $in))))
          (call $oset (local.get $o) (local.get $n))
          (i32.const 0)''' % ('(i64.const 0)' if 'const' in x else '(call $ilen)', pl + sl, po, pl, pl, so, sl, pl)
        fns.append('(func (export "%s") (result i32) %s)' % (n, body))
    return '''(module
  (import "extism:host/env" "alloc" (func $alloc (param i64) (result i64)))
  (import "extism:host/env" "store_u8" (func $store (param i64 i32)))
  (import "extism:host/env" "input_length" (func $ilen (result i64)))
  (import "extism:host/env" "input_load_u8" (func $iload (param i64) (result i32)))
  (import "extism:host/env" "output_set" (func $oset (param i64 i64)))
  (memory (export "memory") 4)
  %s
  (func $copy (param $from i32) (param $n i64) (param $to i64) (local $i i64)
    (block $b (loop $l
      (br_if $b (i64.ge_u (local.get $i) (local.get $n)))
      (call $store (i64.add (local.get $to) (local.get $i)) (i32.load8_u (i32.add (local.get $from) (i32.wrap_i64 (local.get $i)))))
      (local.set $i (i64.add (local.get $i) (i64.const 1)))
      (br $l))))
  %s)''' % ('\n  '.join(data), '\n  '.join(fns))

if __name__ == '__main__':
    open(sys.argv[1], 'w').write(plugin(json.load(open(sys.argv[2]))))
