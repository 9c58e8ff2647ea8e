"""Run the check of every planted bug (or of those named) against it; record the verdicts in caught.json."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H); S = R + '/seeded/'
p = H + '/caught.json'; c = json.load(open(p)) if os.path.exists(p) else {}
for b in sys.argv[1:] or sorted(os.listdir(S)):
    if subprocess.run(['git', '-C', '/repo', 'diff', '--quiet']).returncode: sys.exit('repo dirty')
    m = json.load(open(S + b + '/meta.json'))
    if subprocess.run(['git', '-C', '/repo', 'apply', S + b + '/patch.diff']).returncode: print(b, 'does not apply'); continue
    o = subprocess.run(['python3', 'check.py', m['property']], cwd=R, stdout=subprocess.PIPE, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
    v = 'VIOLATION property=' + m['property'] in o
    c[b] = m['property'] if v else 'missed'
    print(b, m['property'], 'caught' if v else 'MISSED', o.split('\n')[0][:120])
for b in list(c):
    if not os.path.exists(S + b): del c[b]
json.dump(c, open(p, 'w'), indent=1, sort_keys=True)
