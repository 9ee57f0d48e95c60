#!/usr/bin/env python3
"""Mutation run: mutants.py PKG/FILE.go PROP[,PROP...] [SA]
Every single-point mutation of the file that builds and passes the tests is given
to the checks. Prints those that no check reports."""
import os, sys, subprocess, tempfile, shutil, json
from concurrent.futures import ThreadPoolExecutor
f, props = sys.argv[1], sys.argv[2].split(',')
sa = sys.argv[3] if len(sys.argv) > 3 else '/tmp/sa'
only = [int(x) for x in sys.argv[4].split(',')] if len(sys.argv) > 4 else None
env = dict(os.environ)
out = subprocess.run("bash -c '. /opt/vp/env.sh; env'", shell=True, capture_output=True, text=True).stdout
for l in out.splitlines():
    k, _, v = l.partition('=')
    env[k] = v
env['GOMAXPROCS'] = '2'
subprocess.check_call(['go', 'build', '-o', '/tmp/mutate', '.'], cwd='/verif/tools/mutate', env=dict(env, GO111MODULE='auto', GOFLAGS=''))
n = int(subprocess.run(['/tmp/mutate', '/repo/' + f], capture_output=True, text=True).stdout)
pkg = os.path.dirname(f)
allp = subprocess.run(['go', 'list', '-f', '{{.ImportPath}} {{join .Deps " "}} {{join .TestImports " "}} {{join .XTestImports " "}}', './...'], cwd='/repo', env=env, capture_output=True, text=True).stdout.splitlines()
me = 'github.com/zyedidia/generic' + ('/' + pkg if pkg else '')
dep = {l.split()[0]: set(l.split()) for l in allp}
pkgs = [p for p in dep if me in dep[p] or any(me in dep.get(q, ()) for q in dep[p])]
base = tempfile.mkdtemp(prefix='mut')
def one(k):
    d = os.path.join(base, str(k))
    r = subprocess.run(['/tmp/mutate', '/repo/' + f, str(k)], capture_output=True, text=True)
    desc = r.stderr.strip()
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
    try:
        with open(os.path.join(d, f), 'w') as o:
            o.write(r.stdout)
        if subprocess.run(['go', 'build', './...'], cwd=d, env=env, capture_output=True).returncode:
            return k, desc, 'nobuild', ''
        try:
            if not os.environ.get('ALL') and subprocess.run(['timeout', '-k', '1', '40', 'go', 'test'] + pkgs, cwd=d, env=env, capture_output=True, timeout=60).returncode:
                return k, desc, 'killed', ''
        except subprocess.TimeoutExpired:
            return k, desc, 'killed', ''
        res = []
        st = 'MISSED'
        for p in props:
            try:
                x = subprocess.run([sa, '-repo', d, p], env=env, capture_output=True, text=True, timeout=500)
            except subprocess.TimeoutExpired:
                res.append(p + ' timeout')
                continue
            t = [l for l in (x.stdout + x.stderr).splitlines() if not l.startswith('partition')]
            if x.returncode == 1:
                return k, desc, 'caught', p
            if x.returncode:
                st = 'ERROR'
            res += [l[:260] for l in t if 'UNDECIDED' in l or x.returncode][:2]
        return k, desc, st, '\n      '.join(res)
    finally:
        shutil.rmtree(d)
tally = {}
with ThreadPoolExecutor(6) as ex:
    for k, desc, st, info in ex.map(one, only or range(n)):
        tally[st] = tally.get(st, 0) + 1
        if st not in ('nobuild', 'killed', 'caught'):
            print(k, desc, st, '\n     ', info, flush=True)
print(f, tally)
shutil.rmtree(base)
