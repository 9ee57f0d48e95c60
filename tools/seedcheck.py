#!/usr/bin/env python3
"""seedcheck.py [ID...]: which planted bugs the analyser (SA, default /tmp/sa) reports."""
import sys, os, subprocess, shutil, tempfile, json
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sa = os.environ.get('SA', '/tmp/sa')
def one(id):
    t = tempfile.mkdtemp(prefix='seedc')
    try:
        r = t + '/repo'
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git'))
        d = f'{here}/seeded/{id}'
        subprocess.check_call(['git', 'apply', '--unsafe-paths', '--directory', r, d + '/patch.diff'], cwd='/')
        c = json.load(open(d + '/meta.json'))['property']
        p = subprocess.run(['bash', '-c', f'. /opt/vp/env.sh; timeout 880 {sa} -repo {r} {c}'], capture_output=True, text=True)
        ok = p.returncode == 1 and f'VIOLATION property={c} ' in p.stdout
        return f'{"caught" if ok else "MISSED"} {id} {c}' + ('' if ok else f' {p.returncode} {p.stdout[-300:]}')
    finally:
        shutil.rmtree(t)
ids = sys.argv[1:] or sorted(os.listdir(here + '/seeded'))
with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for r in ex.map(one, ids): print(r, flush=True)
