#!/usr/bin/env python3
"""development aid: run checks against modified copies of /repo's package (never touches /repo).
stdin: blocks separated by '===' lines:  first line 'CHECK file [--only x]', then old text, a '---' line, new text"""
import sys, os, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(b):
    head, rest = b.strip('\n').split('\n', 1)
    old, new = rest.split('\n---\n') if '\n---\n' in rest else (rest[:-4] if rest.endswith('\n---') else None, '')
    cid, fn, *extra = head.split()
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        shutil.copytree(os.environ.get('MUT_REPO', '/repo') + '/thetis', d + '/thetis')
        p = os.path.join(d, fn)
        s = open(p).read()
        if s.count(old) < 1:
            return f'{head}: OLD TEXT NOT FOUND: {old[:60]!r}'
        n = s.count(old)
        open(p, 'w').write(s.replace(old, new, 1))
        env = dict(os.environ, PYTHONPATH=d)
        r = subprocess.run(['timeout', '900', 'bash', V + '/run.sh', cid] + extra, capture_output=True, text=True, env=env)
        out = [l for l in r.stdout.splitlines() if 'counterexample' in l or l.startswith('ERROR')][:2]
        return f'{head}{f" ({n}x)" if n > 1 else ""} [{old.strip()[:50]!r}->{new.strip()[:50]!r}]: exit {r.returncode} ' \
            + ('CAUGHT ' if r.returncode == 1 else 'MISSED ' if r.returncode == 0 else 'ERROR ') + ' | '.join(o[:230] for o in out) \
            + (r.stderr[-300:] if r.returncode > 2 else '')
    finally:
        shutil.rmtree(d)


bl = [b for b in sys.stdin.read().split('\n===\n') if b.strip()]
with ThreadPoolExecutor(int(os.environ.get('J', '5'))) as ex:
    for r in ex.map(one, bl):
        print(r, flush=True)
