#!/usr/bin/env python3
"""development aid: plant.py < spec.  blocks separated by '=====' lines:
ID PROP file
needs: ...
breaks: ...
<<<
old
---
new
>>>
demo python code
Creates seeded/ID, after confirming in a scratch copy that the demo passes without and fails with the change."""
import sys, os, subprocess, tempfile, shutil, json, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
. /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 3
export OMP_NUM_THREADS=1
/opt/venv/bin/python "$D/demo.py"
'''


def one(b):
    head, rest = b.strip('\n').split('\n', 1)
    sid, prop, fn = head.split()
    needs, brk, rest = rest.split('\n', 2)
    edits, demo = rest.split('\n>>>\n')
    d = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    try:
        shutil.copytree('/repo/thetis', d + '/thetis')
        subprocess.run('git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x', shell=True, cwd=d)
        for ed in edits.split('<<<\n')[1:]:
            ed = ed.rstrip('\n')
            f = fn
            if ed.startswith('@'):
                f, ed = ed[1:].split('\n', 1)
            old, new = ed.split('\n---\n') if '\n---\n' in ed else (ed[:-4], '')
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f'{sid}: old text found {s.count(old)} times: {old[:60]}'
            open(p, 'w').write(s.replace(old, new))
        out = os.path.join(V, 'seeded', sid)
        tmp = tempfile.mkdtemp(prefix='plantd.', dir='/tmp')
        open(tmp + '/demo.py', 'w').write(demo.rstrip('\n') + '\n')
        open(tmp + '/demo.sh', 'w').write(SH)
        diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout
        open(tmp + '/patch.diff', 'w').write(diff)
        json.dump({'property': prop, 'needs': needs.split(':', 1)[1].strip(),
                   'what_it_breaks': brk.split(':', 1)[1].strip()}, open(tmp + '/meta.json', 'w'), indent=1)
        env = dict(os.environ)
        a = subprocess.run(['timeout', '290', 'bash', tmp + '/demo.sh'], cwd='/repo', capture_output=True, text=True, env=env)
        env['PYTHONPATH'] = d
        c = subprocess.run(['timeout', '290', 'bash', tmp + '/demo.sh'], cwd='/repo', capture_output=True, text=True, env=env)
        ap = subprocess.run(['git', '-C', '/repo', 'apply', '--check', tmp + '/patch.diff'], capture_output=True, text=True)
        ok = a.returncode == 0 and c.returncode not in (0, 124) and ap.returncode == 0
        k = subprocess.run(['timeout', '900', 'bash', V + '/run.sh', prop], capture_output=True, text=True, env=env)
        if ok:
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(tmp, out)
        shutil.rmtree(tmp)
        msg = f'{sid} {prop}: demo clean {a.returncode} bug {c.returncode} ' + ('KEPT' if ok else 'REJECTED') + \
            f'; check exit {k.returncode} ' + {1: 'CAUGHT', 0: 'MISSED'}.get(k.returncode, 'ERROR')
        if not ok:
            msg += '\n' + a.stderr[-800:] + a.stdout[-300:] + '\n--\n' + c.stderr[-500:] + ap.stderr
        if k.returncode != 1:
            msg += '\n' + k.stdout[-300:] + k.stderr[-500:]
        else:
            msg += ' ' + ' | '.join(l[:160] for l in k.stdout.splitlines() if 'counterexample' in l)[:330]
        return msg
    finally:
        shutil.rmtree(d)


bl = [b for b in re.split(r'\n=====\n', sys.stdin.read()) if b.strip()]
with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for r in ex.map(one, bl):
        print(r, flush=True)
