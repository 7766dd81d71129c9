#!/usr/bin/env python3
"""Runs checks on behaviour-preserving rewrites (scratch copies of /repo): every check must stay quiet.
usage: refac.py SPEC [-j N] [id ...]     SPEC defines REFS = [dict(id, funcs={(file, 'Class.name'|'name'): text}, edits=[(file, old, new)], checks='S01 S02')]"""
import ast, os, re, sys, json, subprocess, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = 'S01 S02 S03 S04 S05 S06 S07 S08 S09 S10 S11 S12 S13 S14 S15 W01 M01 M02 M03 M04 M05 M06 M07 M08 M09 M10 M11 M12'


def repl(src, qual, new):
    """replaces a function (with its decorators) by the text new, indented as the original"""
    lines = src.split('\n')
    parts = qual.split('.')
    lo, hi, ind = 0, len(lines), 0
    for c in parts[:-1]:
        k = [i for i in range(lo, hi) if re.match(r'class %s\b' % c, lines[i])][0]
        lo = k + 1
        ends = [i for i in range(lo, hi) if lines[i] and not lines[i][0].isspace() and not lines[i].startswith('#')]
        hi = ends[0] if ends else hi
        ind = 4
    k = [i for i in range(lo, hi) if re.match(' {%d}def %s\\(' % (ind, parts[-1]), lines[i])]
    assert len(k) == 1, (qual, k)
    k = k[0]
    a = k
    while lines[a - 1].strip().startswith('@'):
        a -= 1
    b = k + 1
    while b < hi and (not lines[b].strip() or len(lines[b]) - len(lines[b].lstrip()) > ind or lines[b].strip().startswith('#')):
        b += 1
    while not lines[b - 1].strip() or lines[b - 1].strip().startswith('#'):
        b -= 1
    new = [(' ' * ind + l) if l.strip() else '' for l in new.strip('\n').split('\n')]
    if any(l.strip().startswith('@') for l in lines[a:k]) and not new[0].strip().startswith('@'):
        new = lines[a:k] + new
    return '\n'.join(lines[:a] + new + lines[b:])


def one(r):
    d = tempfile.mkdtemp(prefix='refac')
    out = []
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        for (f, q), t in r.get('funcs', {}).items():
            p = os.path.join(d, f)
            s = open(p).read()
            open(p, 'w').write(repl(s, q, t))
        for f, old, new in r.get('edits', []):
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        base = json.load(open('/tmp/base_tests.json'))
        bad = sorted(set(base) - set(plant.passed(plant.tests(d))))
        if bad:
            return r['id'] + ' TESTS FAIL ' + ' '.join(bad)[:300]
        os.makedirs(d + '/.ev')
        for c in (r.get('checks') or ALL).split():
            t = time.time()
            p = subprocess.run(['python3-vt', V + '/check.py', c], cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + '/.ev'), timeout=1500)
            e = json.load(open(d + '/.ev/%s.json' % c))['coverage'] if os.path.exists(d + '/.ev/%s.json' % c) else {}
            u = e.get('undecided') or {}
            out.append('  %s rc=%d %ds%s%s' % (c, p.returncode, time.time() - t,
                                            ' UNDECIDED ' + ', '.join('%s: %s' % (k, (v['undecided'] or v['unknown'] or v['unreached_sites'])[:2]) for k, v in u.items()) if u else '',
                                            ' ALARM\n' + p.stdout[-1500:] + p.stderr[-500:] if p.returncode else ''))
        return r['id'] + '\n' + '\n'.join(out)
    except Exception as e:
        return r['id'] + ' error %r' % e
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[1:]
    j = 2
    if '-j' in a:
        i = a.index('-j'); j = int(a[i + 1]); del a[i:i + 2]
    g = {}
    exec(open(a[0]).read(), g)
    rs = [r for r in g['REFS'] if len(a) < 2 or r['id'] in a[1:]]
    with ThreadPoolExecutor(j) as ex:
        for s in ex.map(one, rs):
            print(s, flush=True)
