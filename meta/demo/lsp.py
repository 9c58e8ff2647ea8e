"""Drive the language server: lsp.run(brack, [chunk, ...], cwd) -> list of messages read with strict framing."""
import json, subprocess, sys, time
def frame(m, head='Content-Length: %d\r\n\r\n'):
    b = m if isinstance(m, bytes) else json.dumps(m, ensure_ascii=False).encode()
    return (head % len(b)).encode() + b
def run(brack, chunks, cwd, pause=0.3):
    p = subprocess.Popen([brack, 'language-server'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=cwd)
    for i, c in enumerate(chunks):
        if i: time.sleep(pause)
        try: p.stdin.write(c); p.stdin.flush()
        except BrokenPipeError: break
    try: p.stdin.close()
    except BrokenPipeError: pass
    try: out = p.stdout.read()
    finally: p.wait(30)
    ms = []
    while out:
        h, s, rest = out.partition(b'\r\n\r\n')
        if not s: print('framing broken:', out[:80]); sys.exit(1)
        n = int([l for l in h.split(b'\r\n') if l.startswith(b'Content-Length: ')][0][16:])
        try: ms.append(json.loads(rest[:n].decode()))
        except Exception: print('framing broken:', rest[:n + 10]); sys.exit(1)
        out = rest[n:]
    return ms
