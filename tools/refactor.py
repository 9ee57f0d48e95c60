#!/usr/bin/env python3
"""refactor.py FILE.txt... [-k NAME]: edits that keep the behaviour. Each is applied to a copy of
/repo, built and tested, and given to the checks, which have to stay quiet.
A block is
  === NAME | PROP PROP ...
  --- FILE
  <<<<
  old text
  ====
  new text
  >>>>
"""
import sys, os, re, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
sa = os.environ.get('SA', '/tmp/sa')
def sh(cmd, **k): return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], capture_output=True, text=True, **k)
def parse(f):
    out, cur, file = [], None, None
    lines = open(f).read().split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('=== '):
            name, props = l[4:].split('|')
            cur = (name.strip(), props.split(), [])
            out.append(cur)
        elif l.startswith('--- '):
            file = l[4:].strip()
        elif l == '<<<<':
            old, new, dst = [], [], 0
            i += 1
            while lines[i] != '>>>>':
                if lines[i] == '====': dst = 1
                else: (new if dst else old).append(lines[i])
                i += 1
            cur[2].append((file, '\n'.join(old), '\n'.join(new)))
        i += 1
    return out
def one(b):
    name, props, edits = b
    t = tempfile.mkdtemp(prefix='refac')
    try:
        r = t + '/repo'
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git'))
        for file, old, new in edits:
            s = open(f'{r}/{file}').read()
            if s.count(old) != 1: return f'BAD  {name}: {s.count(old)} matches in {file} of {old[:60]!r}'
            open(f'{r}/{file}', 'w').write(s.replace(old, new))
        p = sh(f'cd {r}; go build ./... 2>&1 && go vet ./... 2>&1 >/dev/null; go test ./... 2>&1 | grep -v "^ok\\|no test files"')
        if p.stdout.strip(): return f'BAD  {name}: {p.stdout[:500]}'
        res = []
        for c in props:
            p = sh(f'timeout 880 {sa} -repo {r} {c}')
            st = 'quiet' if p.returncode == 0 else f'ALARM {p.returncode}'
            u = p.stdout.count('UNDECIDED')
            res.append(f'{c} {st}' + (f' ({u} undecided)' if u else ''))
            for l in p.stdout.split('\n'):
                if 'VIOLATION' in l: res.append('\n       ' + l[:400])
            if p.returncode not in (0, 1): res.append(p.stderr[-300:])
            if u: res.append('\n       ' + [l for l in p.stdout.split('\n') if 'UNDECIDED' in l][0][:300])
        return ('ok   ' if not any('ALARM' in x for x in res) else '!!!  ') + name + ': ' + ', '.join(res)
    finally:
        shutil.rmtree(t)
fs, k = [], None
a = sys.argv[1:]
while a:
    x = a.pop(0)
    if x == '-k': k = a.pop(0)
    else: fs.append(x)
bs = [b for f in fs for b in parse(f) if k is None or re.search(k, b[0])]
with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for r in ex.map(one, bs): print(r, flush=True)
