# Jython helper process: AST dump of the real sources, concrete execution of harnesses.
import sys, os, json, time, random, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
out = sys.stdout
sys.stdout = sys.stderr
import vp, astdump
MODS = {}


def enc(v):
    if isinstance(v, unicode):
        return {'u': [ord(c) for c in v]}
    if isinstance(v, str):
        return {'s': ''.join(['%02x' % ord(c) for c in v])}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    return v


def dec(v):
    if isinstance(v, dict):
        if 's' in v:
            h = v['s']
            return ''.join([chr(int(h[i:i + 2], 16)) for i in range(0, len(h), 2)])
        return u''.join([unichr(c) for c in v['u']])
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def load(path):
    if path in MODS:
        return MODS[path]
    del vp.HARNESSES[:]
    sys.path.insert(0, os.path.dirname(path))
    g = {'__name__': os.path.basename(path)[:-3], '__file__': path}
    execfile(path, g)
    MODS[path] = dict((h['name'], h) for h in vp.HARNESSES)
    return MODS[path]


def flat(v):
    if isinstance(v, (list, tuple)):
        return [flat(x) for x in v]
    # (a long of the same value as an int is the same choice)
    return (type(v) is long and int or type(v), v)


def norm(h, env):
    e = {}
    for n in h['desc']:
        v = env[n]
        if h['desc'][n].kind == 'Enum':
            v = [x for x in h['desc'][n].values if flat(x) == flat(v)][0]
        e[n] = v
    return e


def run1(h, env):
    try:
        try:
            h['func'](**env)
            return ('ok', '')
        except vp.AssumeFailed:
            return ('assume', '')
        except vp.CheckFailed, e:
            return ('fail', str(e.args[0]))
        except (KeyboardInterrupt, SystemExit):
            raise
        except:
            et, ev = sys.exc_info()[:2]
            try:
                tb = traceback.format_exc()[-1500:]
            except:
                tb = ''
            return ('exc', '%s: %s' % (getattr(et, '__name__', et), tb))
    finally:
        while vp._over:
            o, n, v = vp._over.pop()
            setattr(o, n, v)
        vp.cleanup()


def handle(m):
    c = m['cmd']
    if c == 'ast':
        return dict((n, astdump.dump(p)) for n, p in m['files'])
    if c == 'ping':
        return 'pong'
    if c == 'run':
        h = load(m['file'])[m['h']]
        return run1(h, norm(h, dec_env(m['args'])))
    if c == 'fuzz':
        h = load(m['file'])[m['h']]
        r = random.Random(m['seed'])
        t0 = time.time()
        n = na = 0
        cur = m.get('cur')
        while n < m['n'] and time.time() - t0 < m['secs']:
            env = vp.sample(r, h['desc'], m.get('consts') or [])
            for k, v in m.get('fix', {}).items():
                env[k] = dec(v)
            if cur:
                f = open(cur, 'w')
                f.write(json.dumps(dict((k, enc(v)) for k, v in env.items())))
                f.close()
            n += 1
            res = run1(h, env)
            if res[0] == 'assume':
                na += 1
            elif res[0] != 'ok':
                return {'n': n, 'assume': na, 'fail': dict((k, enc(v)) for k, v in env.items()), 'res': res}
        return {'n': n, 'assume': na, 'fail': None, 'checks': vp.STAT['checks']}
    if c == 'list':
        return sorted(load(m['file']).keys())
    raise ValueError(c)


def dec_env(a):
    return dict((str(k), dec(v)) for k, v in a.items())


while True:
    line = sys.stdin.readline()
    if not line:
        break
    m = json.loads(line)
    try:
        r = {'ok': handle(m)}
    except:
        r = {'err': traceback.format_exc()}
    out.write(json.dumps(r) + '\n')
    out.flush()
