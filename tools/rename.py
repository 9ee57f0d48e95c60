#!/usr/bin/env python3
"""rename.py [PKG...]: renames the unexported fields, types and functions of a
package in a copy of /repo and runs the checks, which have to stay quiet."""
import sys, os, re, subprocess, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
sa = os.environ.get('SA', '/tmp/sa')
def sh(cmd): return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], capture_output=True, text=True)
P = {
 'array2d': ('width height slice getUnchecked setUnchecked fill', 'C01 C02 C30 C31 C32'),
 'avl': ('root less node key value height left right add remove search each getHeight recalculateHeight rebalanceTree rotateLeft rotateRight findSmallest size', 'C03 C04 C16 C30 C32'),
 'bimap': ('forward reverse shallowCopy', 'C05 C30 C31 C32'),
 'btree': ('root height n less node m children entry key val valid next search insert split each maxChildren', 'C06 C07 C30 C32'),
 'cache': ('capacity lru table evictCb evict', 'C08 C09 C32'),
 'hashmap': ('entry key filled value entries capacity length readonly ops equals hash pow2ceil resize remove', 'C10 C11 C33 C30 C32'),
 'hashset': ('m', 'C11 C33 C21 C30 C32'), 'mapset': ('m', 'C33 C21 C30 C32'),
 'heap': ('data less up down', 'C12 C30 C32'),
 'interval': ('root node key value height left right max intrvl low high insert updateMax remove removeThis search each getHeight recalculateHeight rebalanceTree rotateLeft rotateRight findSmallest size newKV newIntrvl overlaps', 'C13 C14 C30 C32'),
 'multimap': ('baseMultiMap size avlMultiMap mapMultiMap keyLess keys makeValues valuesContainer valuesSlice valuesSet t', 'C16 C30 C32'),
 'queue': ('list length', 'C17 C31 C30 C32'),
 'rope': ('kind left right length value tLeaf tNode', 'C18 C30 C32'),
 'prope': ('kind left right length value tLeaf tNode', 'C19 C20 C30 C32'),
 'set': ('', 'C21 C22'),
 'stack': ('entries', 'C23 C31 C30 C32'),
 'trie': ('n root node c left mid right val valid get put remove collect', 'C24 C25 C30 C32'),
 'ulist': ('ll entriesPerBlock size ulistBlk node index newIterFront newIterBack hasCapacity newBlock prependToBlock addOverflowToNextBlock', 'C26 C27 C30 C32'),
}
def one(pkg):
    names, props = P[pkg]
    t = tempfile.mkdtemp(prefix='ren')
    out = []
    try:
        r = t + '/repo'
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git'))
        for f in glob.glob(f'{r}/{pkg}/*.go'):
            if f.endswith('_test.go'):
                continue
            ls = open(f).read().split('\n')
            for i, l in enumerate(ls):
                if l.startswith('package ') or l.strip().startswith('"') or '"github' in l: continue
                for n in names.split():
                    if n == 'list': l = re.sub(r'(q\.)list\b|^\tlist( )', lambda m: (m.group(1) or '\t') + 'listX' + (m.group(2) or ''), l)
                    else: l = re.sub(rf'\b{n}\b(?!")', n + 'X', l)
                ls[i] = l
            open(f, 'w').write('\n'.join(ls))
        p = sh(f'cd {r}; go build ./... 2>&1')
        if p.stdout.strip(): return f'BAD {pkg}: ' + p.stdout[:400]
        for c in props.split():
            p = sh(f'timeout 880 {sa} -repo {r} {c}')
            out.append(f'{pkg} {c} ' + ('quiet' if p.returncode == 0 else 'ALARM') + f" ({p.stdout.count('UNDECIDED')} undecided)" + ''.join('\n    ' + l[:300] for l in p.stdout.split('\n') if p.returncode and 'rule' in l))
    finally:
        shutil.rmtree(t)
    return '\n'.join(out)
with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for o in ex.map(one, sys.argv[1:] or P): print(o, flush=True)
