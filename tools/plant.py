#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and writes seeded/<id>/.

usage: plant.py SPECFILE [id ...]      SPECFILE defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]
"""
import os, sys, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
JY = ['/usr/bin/jython', '-B', '-Dpython.cachedir.skip=true']
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', TZ='UTC', PYTHONDONTWRITEBYTECODE='1')
ENV.pop('PYTHONPATH', None)
stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json')).get('passed') or [])


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True, timeout=400)


def tests(d):
    w = tempfile.mkdtemp()
    try:
        sh(['timeout', '300'] + JY + ['/opt/py27/tools/runnose.py', w + '/lines', '45', '-v', '--exe', '-w', d], d, JYTHONPATH='/opt/py27/site')
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', w + '/out.json', 'lines:' + w + '/lines'], capture_output=True)
        return json.load(open(w + '/out.json'))
    finally:
        shutil.rmtree(w)


def one(b):
    out = os.path.join(SEED, b['id'])
    d = tempfile.mkdtemp(prefix='plant')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        os.makedirs(out, exist_ok=True)
        open(out + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write('#!/bin/bash\n# run in the root of the repository\nexport JYTHONPATH="$PWD" TZ=UTC\nunset PYTHONPATH CLASSPATH\n'
                                          'exec timeout 200 /usr/bin/jython -B -Dpython.cachedir.skip=true "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        r = sh(['bash', out + '/demo.sh'], d)
        if r.returncode != 0:
            return 'demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-400:]
        for f, old, new in b['edits']:
            s = open(os.path.join(d, f)).read()
            if s.count(old) != 1:
                return 'edit matches %d times in %s: %r' % (s.count(old), f, old[:80])
            open(os.path.join(d, f), 'w').write(s.replace(old, new))
        p = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout
        r = sh(['bash', out + '/demo.sh'], d)
        if r.returncode == 0:
            return 'demo passes with the change'
        if 'Assertion' not in r.stderr and 'Error' not in r.stderr and 'StopIter' not in r.stderr:
            return 'demo fails oddly: ' + r.stderr[-300:]
        t = tests(d)
        base = json.load(open('/tmp/base_tests.json'))
        bad = sorted(set(base) - set(passed(t)))
        if bad:
            return 'tests fail: ' + ' '.join(map(str, bad))[:300]
        open(out + '/patch.diff', 'w').write(p)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        return 'ok'
    except Exception as e:
        return 'error %r' % e
    finally:
        if not os.path.exists(out + '/patch.diff'):
            shutil.rmtree(out, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)


def passed(t):
    for k in ('passed', 'pass'):
        if isinstance(t.get(k), list):
            return t[k]
    return [k for k, v in t.get('tests', t).items() if v in ('pass', 'PASS', 'passed', True)]


if __name__ == '__main__':
    g = {}
    exec(open(sys.argv[1]).read(), g)
    bugs = [b for b in g['BUGS'] if len(sys.argv) < 3 or b['id'] in sys.argv[2:]]
    d = tempfile.mkdtemp(prefix='plantb')
    subprocess.run(['cp', '-a', '/repo/.', d], check=True)
    t = tests(d)
    shutil.rmtree(d)
    json.dump(passed(t), open('/tmp/base_tests.json', 'w'))
    print('baseline passes', len(passed(t)))
    with ThreadPoolExecutor(6) as ex:
        for b, r in zip(bugs, ex.map(one, bugs)):
            print(b['id'], r)
