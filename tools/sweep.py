#!/usr/bin/env python3
"""Runs the quick check of each planted bug's property on a scratch copy with the bug.  usage: sweep.py [id ...]  (-j N)"""
import os, sys, json, subprocess, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
j = 4
if '-j' in args:
    i = args.index('-j'); j = int(args[i + 1]); del args[i:i + 2]
ids = args or sorted(os.listdir(V + '/seeded'))


def one(b):
    p = '%s/seeded/%s/' % (V, b)
    if not os.path.exists(p + 'meta.json'):
        return b, '-', 'unconfirmed', 0
    prop = json.load(open(p + 'meta.json'))['property']
    d = tempfile.mkdtemp(prefix='sweep')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        subprocess.run(['git', 'apply', p + 'patch.diff'], cwd=d, check=True)
        os.makedirs(d + '/.ev')
        t = time.time()
        r = subprocess.run(['python3-vt', V + '/check.py', prop], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + '/.ev'), timeout=1000)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        return b, prop, 'rc=%d %s' % (r.returncode, v[0] if v else 'MISSED ' + (r.stdout[-200:] if r.returncode else '')), time.time() - t
    finally:
        shutil.rmtree(d)


miss = []
try:
    cat = json.load(open(V + '/tools/catches.json'))
except Exception:
    cat = {}
with ThreadPoolExecutor(j) as ex:
    for b, prop, s, t in ex.map(one, ids):
        print('%-24s %s %5.0fs %s' % (b, prop, t, s), flush=True)
        cat[b] = 'yes' if 'VIOLATION' in s and 'no-failing' not in s else 'yes, no input found' if 'VIOLATION' in s else 'no'
        if 'rc=1' not in s:
            miss.append(b)
print('missed:', ' '.join(miss) or 'none')
cat = dict((k, v) for k, v in cat.items() if os.path.isdir(V + '/seeded/' + k))
json.dump(cat, open(V + '/tools/catches.json', 'w'), indent=1, sort_keys=True)
