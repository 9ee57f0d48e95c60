#!/bin/bash
# rfapply.sh FILE NAME DIR: a copy of /repo in DIR with one refactoring applied
cd "$(dirname "$0")" && python3 - "$@" <<'P'
import sys, shutil, os
sys.argv, a = ['x'], sys.argv
src = open('refactor.py').read().split('\nfs, k =')[0]
exec(src)
for n, _, ed in parse(a[1]):
    if n == a[2]:
        shutil.rmtree(a[3], ignore_errors=True)
        shutil.copytree('/repo', a[3], ignore=shutil.ignore_patterns('.git'))
        for f, o, w in ed:
            s = open(a[3]+'/'+f).read(); open(a[3]+'/'+f, 'w').write(s.replace(o, w))
P
