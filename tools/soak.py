"""Run-time evaluation of every harness on the current tree with another seed (looks for false alarms and slow inputs).
usage: python3-vt soak.py SECONDS_PER_HARNESS SEED [property ...]"""
import os
import sys
import time
sys.path.insert(0, '/verif')
sys.path.insert(0, '/verif/engine')
from engine import run as R

secs, seed = float(sys.argv[1]), int(sys.argv[2])
ids = sys.argv[3:] or sorted(f[2:-3] for f in os.listdir('/verif/props') if f.startswith('p_') and f.endswith('.py'))
for pid in ids:
    r = R.Run(pid, 'quick', seed)
    r.setup()
    r.consts = R.consts_of(r.asts)
    for h in r.E.harnesses:
        t = time.time()
        fz = r.jfuzz(h['name'], 10 ** 7, secs, seed)
        dt = time.time() - t
        bad = fz.get('fail') is not None
        print(pid, h['name'], 'n', fz['n'], 'assume', fz['assume'], '%.1fs' % dt, 'FAIL %s %s' % (str(fz.get('fail'))[:600], str(fz.get('res'))[:900]) if bad else '', fz.get('note', ''), flush=True)
