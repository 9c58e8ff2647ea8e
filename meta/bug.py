"""Helper for writing planted bugs: bug(id, property, edits, needs, breaks, demo, files)."""
import json, os, shutil, subprocess, sys
S = '/verif/seeded/'; D = '/verif/meta/demo/'
HEAD = '''#!/bin/bash
set -u
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d /tmp/brackdemo.XXXXXX); trap 'rm -rf "$W"' EXIT
BRACK=$PWD/target/debug/brack; DEPS=$PWD/target/debug
rs() { # rs FILE CRATE...: compile a demo program against the built workspace libraries
  local f=$1; shift; local x=(); for c in "$@"; do x+=(--extern "$c=$DEPS/lib$c.rlib"); done
  RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu rustc --edition 2021 -A warnings -o "$W/demo" "$f" -L dependency=$DEPS/deps "${x[@]}" || exit 1
}
'''
def bug(id, prop, edits, needs, breaks, demo, files={}, run=True):
    d = S + id + '/'; os.makedirs(d, exist_ok=True)
    if subprocess.run(['git', '-C', '/repo', 'diff', '--quiet']).returncode: print('repo dirty'); sys.exit(1)
    for f, old, new in edits:
        p = '/repo/' + f; s = open(p).read()
        if s.count(old) < 1: print(id, 'edit not found', f, old[:60]); subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.']); return
        open(p, 'w').write(s.replace(old, new, 1))
    open(d + 'demo.sh', 'w').write(HEAD + demo)
    for n, t in files.items():
        if t == 'copy': shutil.copy(D + n, d + n)
        else: open(d + n, 'w').write(t if isinstance(t, str) else json.dumps(t, indent=1))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + 'meta.json', 'w'), indent=1)
    if run: subprocess.run(['bash', '/verif/meta/plant.sh', id])
