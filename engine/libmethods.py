"""Method tables of the built-in types, builtins and library modules (Jython 2.7 semantics)."""
import re as _re
from . import terms as X
from .terms import T
from .values import *
from . import lib as Lb


def bi(name):
    def d(f):
        return BI(name, f)
    return d


def sterm(E, v):
    return E.truth_term(v)


# ------------------------------------------------------------------ str / unicode
def _need_items(E, s, what):
    it = s.items()
    if it is None:
        n = E.concretize(s.length())
        it = tuple(Lb.index_into(E, s.ch, j, 'string') for j in range(n))
    return it


def is_ws(c, kind='s'):
    if kind == 'u':
        return X.inset(c, ((9, 13), (28, 32), (133, 133), (160, 160), (5760, 5760), (8192, 8202), (8232, 8233), (8239, 8239), (8287, 8287), (12288, 12288)))
    return X.inset(c, ((9, 13), (32, 32)))


def m_strip(left, right):
    def f(E, s, args, kw):
        it = list(_need_items(E, s, 'strip'))
        if args and args[0] is not None:
            cs = args[0].items()
            test = lambda c: X.or_(*[X.eq(c, x) for x in cs]) if cs else False
        else:
            test = lambda c: is_ws(c, s.kind)
        a, b = 0, len(it)
        if left:
            while a < b and E.decide(test(it[a])):
                a += 1
        if right:
            while b > a and E.decide(test(it[b - 1])):
                b -= 1
        return Str(s.kind, (tuple(it[a:b]),) if a < b else ())
    return f


def m_replace(E, s, args, kw):
    a, b = args[0], args[1]
    kind = 'u' if 'u' in (s.kind, a.kind, b.kind) else 's'
    cnt = args[2] if len(args) > 2 else -1
    cnt = E.concretize(cnt)
    ai = a.items()
    if ai is None or b.items() is None:
        E.unsupported('replace with symbolic pattern')
    bit = b.items()
    if s.items() is None and len(ai) == 1:
        # symbolic length: nothing to replace if the character cannot occur
        ok = all(_cannot(c, ai[0]) for c in s.ch)
        if ok:
            return Str(kind, s.ch)
    it = _need_items(E, s, 'replace')
    if not ai:
        E.unsupported('replace empty')
    out = []
    i = 0
    m = len(ai)
    while i < len(it):
        if cnt != 0 and i + m <= len(it):
            c = X.and_(*[X.eq(it[i + j], ai[j]) for j in range(m)])
            if E.decide(c) if isinstance(c, T) else c:
                out.extend(bit)
                i += m
                cnt -= 1
                continue
        out.append(it[i])
        i += 1
    return Str(kind, (tuple(out),) if out else ())


def _cannot(c, code):
    if isinstance(c, tuple):
        return all(X.eq(x, code) is False for x in c)
    if isinstance(c, Sl):
        b = c.base
        if b.allowed is not None:
            return X.inset(code, b.allowed) is False
        return (b.lo is not None and code < b.lo) or (b.hi is not None and code > b.hi)
    return False


def m_split(E, s, args, kw):
    sep = args[0] if args else None
    mx = E.concretize(args[1]) if len(args) > 1 else -1
    it = _need_items(E, s, 'split')
    out = []
    cur = []
    if sep is None:
        i = 0
        for c in it:
            if E.decide(is_ws(c, s.kind)) and not (mx >= 0 and len(out) >= mx):
                if cur:
                    out.append(cur)
                cur = []
            else:
                cur.append(c)
        if cur:
            out.append(cur)
    else:
        si = sep.items()
        if si is None:
            E.unsupported('split symbolic')
        if not si:
            raise E.exc('ValueError', 'empty separator')
        i = 0
        m = len(si)
        while i < len(it):
            if i + m <= len(it) and not (mx >= 0 and len(out) >= mx) and E.decide(X.and_(*[X.eq(it[i + j], si[j]) for j in range(m)])):
                out.append(cur)
                cur = []
                i += m
            else:
                cur.append(it[i])
                i += 1
        out.append(cur)
    return L([Str(s.kind, (tuple(c),) if c else ()) for c in out])


def join(E, sep, seq):
    if isinstance(seq, PList) and seq.items() is None:
        if sep.length() != 0:
            E.unsupported('join with separator')
        out = []
        kind = sep.kind
        for c in seq.ch:
            if isinstance(c, (list, tuple)):
                for x in c:
                    if not isinstance(x, Str):
                        raise E.exc('TypeError', 'sequence item: expected string')
                    kind = 'u' if x.kind == 'u' else kind
                    out.extend(x.ch)
            elif isinstance(c, Sl):
                if c.wrap is None:
                    raise E.exc('TypeError', 'sequence item: expected string')
                kind = 'u' if c.wrap == 'u' else kind
                out.append(c.rewrap(None))
            elif isinstance(c, Fam):
                k = E.fresh('jk', 0, None)
                smp = c.at(k)
                if not isinstance(smp, Str) or smp.items() is None or len(smp.items()) != 1:
                    E.unsupported('join of family')
                kind = 'u' if smp.kind == 'u' else kind
                fn = c.fn
                out.append(Fam(lambda i, fn=fn: fn(i).items()[0], c.lo, c.n, ('join', c.key)))
            elif isinstance(c, Op):
                if c.tag == 'joined':
                    kind = 'u' if c.args[0].kind == 'u' else kind
                    out.extend(c.args[0].ch)
                    continue
                if c.tag == 'any' or c.rng == 'chars':
                    E.unsupported('join op')
                out.append(c)
        return Str(kind, norm(out))
    its = Lb.to_items(E, seq)
    kind = sep.kind
    out = []
    for i, x in enumerate(its):
        if not isinstance(x, Str):
            raise E.exc('TypeError', 'sequence item %d: expected string, %s found' % (i, Lb.tname(x)))
        if x.kind == 'u':
            kind = 'u'
        if i and sep.ch:
            out.extend(sep.ch)
        out.extend(x.ch)
    return Str(kind, norm(out))


def m_join(E, s, args, kw):
    return join(E, s, args[0])


def _codec(E, name):
    n = name.py()
    if n is None:
        E.unsupported('symbolic codec name')
    n = n.lower().replace('-', '_').replace(' ', '_')
    return n


def m_encode(E, s, args, kw):
    enc = args[0] if args else kw.get('encoding', S('ascii'))
    err = args[1] if len(args) > 1 else kw.get('errors', S('strict'))
    n = _codec(E, enc)
    for fn in E.codec_search:
        info = E.call(fn, [S(n)], {})
        if info is not None:
            f = E.getattr(info, 'encode')
            if s.kind == 's' and False:
                pass
            r = E.call(f, [s, err], {})
            return Lb.getitem(E, r, 0)
    if n in ('latin1', 'latin_1', 'iso_8859_1', 'iso8859_1', 'ascii', 'us_ascii', 'utf_8', 'utf8'):
        lim = 255 if n in ('latin1', 'latin_1', 'iso_8859_1', 'iso8859_1') else 127
        ok = True
        for c in s.ch:
            if isinstance(c, tuple):
                ok = X.and_(ok, *[X.le(x, lim) for x in c])
            elif isinstance(c, Sl):
                if c.base.hi is None or c.base.hi > lim:
                    E.unsupported('encode symbolic')
            else:
                E.unsupported('encode opaque')
        if not E.decide(ok):
            if n in ('utf_8', 'utf8'):
                p = s.py()
                if p is not None:
                    return S(p.encode('utf-8').decode('latin1'))
                E.unsupported('utf-8 of symbolic')
            e = err.py()
            if e != 'strict':
                E.unsupported('encode error mode')
            raise E.exc('UnicodeEncodeError', 'ordinal not in range')
        return Str('s', s.ch)
    if n in ('hex', 'hex_codec'):
        it = _need_items(E, s, 'hex')
        out = []
        for c in it:
            out += [X.hexc(X.div(c, 16)), X.hexc(X.mod(c, 16))]
        return Str('s', (tuple(out),))
    if n in ('utf_16', 'utf_16_be', 'utf_16be', 'utf_16_le', 'utf_16le'):
        if n == 'utf_16':
            E.unsupported('utf-16')
        it = _need_items(E, s, 'utf16')
        out = []
        for c in it:
            if not E.decide(X.inset(c, ((0, 0xd7ff), (0xe000, 0xffff)))):
                E.unsupported('utf-16 surrogates')
            hl = [X.div(c, 256), X.mod(c, 256)]
            out += hl if n.endswith('be') else hl[::-1]
        return Str('s', (tuple(out),))
    E.unsupported('codec %s' % n)


def m_decode(E, s, args, kw):
    enc = args[0] if args else kw.get('encoding', S('ascii'))
    err = args[1] if len(args) > 1 else kw.get('errors', S('strict'))
    n = _codec(E, enc)
    for fn in E.codec_search:
        info = E.call(fn, [S(n)], {})
        if info is not None:
            r = E.call(E.getattr(info, 'decode'), [s, err], {})
            return Lb.getitem(E, r, 0)
    if n in ('latin1', 'latin_1', 'iso_8859_1', 'iso8859_1'):
        return Str('u', s.ch)
    if n in ('ascii', 'us_ascii', 'utf_8', 'utf8'):
        it = _need_items(E, s, 'decode')
        if E.decide(X.and_(*[X.le(x, 127) for x in it])):
            return Str('u', s.ch)
        if n.startswith('utf'):
            p = s.py()
            if p is not None:
                try:
                    return S(p.encode('latin1').decode('utf-8'), 'u')
                except UnicodeError:
                    raise E.exc('UnicodeDecodeError', '')
            E.unsupported('utf-8')
        if err.py() != 'strict':
            E.unsupported('decode mode')
        raise E.exc('UnicodeDecodeError', 'ordinal not in range')
    if n in ('hex', 'hex_codec'):
        it = _need_items(E, s, 'unhex')
        if len(it) % 2:
            raise E.exc('TypeError', 'Odd-length string')
        out = []
        for i in range(0, len(it), 2):
            if not E.decide(X.and_(Lb.digit_valid(it[i], 16), Lb.digit_valid(it[i + 1], 16))):
                raise E.exc('TypeError', 'Non-hexadecimal digit found')
            out.append(X.add(X.mulc(Lb.digit_val(it[i], 16), 16), Lb.digit_val(it[i + 1], 16)))
        return Str('s', (tuple(out),) if out else ())
    if n in ('utf_16_be', 'utf_16be'):
        it = _need_items(E, s, 'utf16')
        if len(it) % 2:
            raise E.exc('UnicodeDecodeError', 'truncated data')
        out = [X.add(X.mulc(it[i], 256), it[i + 1]) for i in range(0, len(it), 2)]
        for c in out:
            if not E.decide(X.inset(c, ((0, 0xd7ff), (0xe000, 0xffff)))):
                E.unsupported('utf-16 surrogates')
        return Str('u', (tuple(out),) if out else ())
    E.unsupported('codec %s' % n)


def up_code(c, kind):
    if not isinstance(c, T):
        return ord(chr(c).upper()) if len(chr(c).upper()) == 1 and (kind == 'u' or c < 128) else c
    if c.op == 'hexc':
        return X.hexc(c.a[0], 1)
    if c.lo is not None and c.hi is not None and c.lo >= 48 and c.hi <= 57:
        return c
    return X.ite(X.inset(c, ((97, 122),)), X.sub(c, 32), c)


def low_code(c, kind):
    if not isinstance(c, T):
        return ord(chr(c).lower()) if len(chr(c).lower()) == 1 and (kind == 'u' or c < 128) else c
    if c.op == 'hexc':
        return X.hexc(c.a[0], 0)
    if c.lo is not None and c.hi is not None and c.lo >= 48 and c.hi <= 57:
        return c
    return X.ite(X.inset(c, ((65, 90),)), X.add(c, 32), c)


def _casemap(fn):
    def f(E, s, args, kw):
        if s.lazy is not None:
            g = s.lazy
            return Str(s.kind, (), lazy=lambda: cm(E, s, s.ch))
        return Str(s.kind, cm(E, s, s.ch))

    def cm(E, s, ch):
        out = []
        for c in ch:
            if isinstance(c, tuple):
                for x in c:
                    if isinstance(x, T) and s.kind == 'u' and (x.hi is None or x.hi > 127):
                        if E.decide(X.lt(127, x)):
                            E.unsupported('case of non-ascii')
                out.append(tuple(fn(x, s.kind) for x in c))
            elif isinstance(c, Sl):
                b, lo = c.base, c.lo
                out.append(Fam(lambda i, b=b: fn(X.sel(b, i), s.kind), lo, c.n, ('case', fn.__name__, b)))
            elif isinstance(c, Fam):
                g = c.fn
                out.append(Fam(lambda i, g=g: fn(g(i), s.kind), c.lo, c.n, ('case', fn.__name__, c.key)))
            else:
                E.unsupported('case of opaque')
        return norm(out)
    return f


def _prefix_cond(it, p, off):
    return X.and_(*[X.eq(it[off + j], p[j]) for j in range(len(p))]) if p else True


def m_startswith(E, s, args, kw):
    ps = args[0]
    if len(args) > 1:
        s = Lb.getslice(E, s, args[1], args[2] if len(args) > 2 else None, None)
    ps = list(ps.items) if isinstance(ps, Tup) else [ps]
    out = []
    n = s.length()
    for p in ps:
        pi = p.items()
        if pi is None:
            E.unsupported('startswith symbolic')
        if isinstance(n, T):
            if not E.decide(X.le(len(pi), n)):
                continue
            out.append(X.and_(*[X.eq(Lb.index_into(E, s.ch, j, 'x'), pi[j]) for j in range(len(pi))]))
        elif len(pi) <= n:
            out.append(_prefix_cond(s.items(), pi, 0))
    return X.or_(*out) if out else False


def m_endswith(E, s, args, kw):
    ps = args[0]
    ps = list(ps.items) if isinstance(ps, Tup) else [ps]
    out = []
    n = s.length()
    for p in ps:
        pi = p.items()
        if pi is None:
            E.unsupported('endswith symbolic')
        if not E.decide(X.le(len(pi), n)):
            continue
        out.append(X.and_(*[X.eq(Lb.index_into(E, s.ch, X.sub(n, len(pi) - j), 'x'), pi[j]) for j in range(len(pi))]))
    return X.or_(*out) if out else False


def m_find(dirn, raise_):
    def f(E, s, args, kw):
        p = args[0].items()
        it = _need_items(E, s, 'find')
        a = E.concretize(args[1]) if len(args) > 1 else 0
        rng = range(a, len(it) - len(p) + 1)
        if dirn < 0:
            rng = reversed(rng)
        for i in rng:
            if E.decide(_prefix_cond(it, p, i)):
                return i
        if raise_:
            raise E.exc('ValueError', 'substring not found')
        return -1
    return f


def m_count(E, s, args, kw):
    p = args[0].items()
    it = _need_items(E, s, 'count')
    if len(p) == 1:
        r = 0
        for c in it:
            t = X.eq(c, p[0])
            r = X.add(r, X.ite(t, 1, 0) if isinstance(t, T) else int(t))
        return r
    E.unsupported('count')


def _allcls(rs):
    def f(E, s, args, kw):
        it = s.items()
        if it is None:
            E.unsupported('character class of symbolic-length string')
        if not it:
            return False
        return X.and_(*[X.inset(c, rs) for c in it])
    return f


def m_just(side, fill0=False):
    def f(E, s, args, kw):
        w = E.concretize(args[0])
        fill = args[1].items()[0] if len(args) > 1 else (48 if fill0 else 32)
        it = _need_items(E, s, 'just')
        p = (fill,) * max(0, w - len(it))
        if fill0 and it and p and E.decide(X.or_(X.eq(it[0], 45), X.eq(it[0], 43))):
            E.unsupported('zfill sign')
        return Str(s.kind, (p + it,) if side < 0 else (it + p,))
    return f


def m_format(E, s, args, kw):
    p = s.py()
    if p is None:
        E.unsupported('format')
    out = []
    pos = 0
    auto = 0
    for m in _re.finditer(r'\{\{|\}\}|\{(\w*)(?:!([rs]))?(?::([^}]*))?\}', p):
        out.append(S(p[pos:m.start()]))
        pos = m.end()
        if m.group(0) in ('{{', '}}'):
            out.append(S(m.group(0)[0]))
            continue
        k = m.group(1)
        if k == '':
            v = args[auto]
            auto += 1
        elif k.isdigit():
            v = args[int(k)]
        else:
            v = kw[k]
        spec = m.group(3)
        if spec:
            mm = _re.match(r'^(0?)(\d*)([dxXs]?)$', spec)
            if not mm:
                E.unsupported('format spec')
            out.append(Lb.str_format(E, S('%' + mm.group(1) + mm.group(2) + (mm.group(3) or ('d' if Lb.is_num(v) else 's'))), Tup([v])))
        elif m.group(2) == 'r':
            out.append(E.call(E.builtins['repr'], [v], {}))
        else:
            out.append(Lb.to_str(E, v))
    out.append(S(p[pos:]))
    return join(E, S(''), L(out)) if s.kind == 's' else join(E, S('', 'u'), L(out))


def m_partition(E, s, args, kw):
    sep = args[0]
    i = m_find(1, False)(E, s, [sep], {})
    if i < 0:
        return Tup([s, Str(s.kind), Str(s.kind)])
    return Tup([Lb.getslice(E, s, 0, i, None), sep, Lb.getslice(E, s, i + sep.length(), None, None)])


STR = {
    'strip': m_strip(1, 1), 'lstrip': m_strip(1, 0), 'rstrip': m_strip(0, 1), 'replace': m_replace, 'split': m_split,
    'join': m_join, 'encode': m_encode, 'decode': m_decode, 'upper': _casemap(up_code), 'lower': _casemap(low_code),
    'startswith': m_startswith, 'endswith': m_endswith, 'find': m_find(1, 0), 'rfind': m_find(-1, 0),
    'index': m_find(1, 1), 'count': m_count, 'isdigit': _allcls(((48, 57),)), 'isalpha': _allcls(((65, 90), (97, 122))),
    'isalnum': _allcls(((48, 57), (65, 90), (97, 122))), 'isspace': _allcls(((9, 13), (32, 32))),
    'zfill': m_just(-1, True), 'rjust': m_just(-1), 'ljust': m_just(1), 'format': m_format, 'partition': m_partition,
    '__len__': lambda E, s, a, k: s.length(), '__getitem__': lambda E, s, a, k: Lb.getitem(E, s, a[0]),
    '__contains__': lambda E, s, a, k: Lb.contains(E, s, a[0]),
    '__eq__': lambda E, s, a, k: Lb.eq(E, s, a[0]), '__add__': lambda E, s, a, k: Lb.binop(E, 'Add', s, a[0]),
    '__mod__': lambda E, s, a, k: Lb.str_format(E, s, a[0]),
}


# ------------------------------------------------------------------ list / array
def l_insert(E, l, args, kw):
    i, v = args
    Lb.check_byte(E, l, v)
    E.touch(l)
    it = l.items()
    if it is None:
        i = E.concretize(i)
        if i == 0:
            l.ch.insert(0, [v])
            return None
        E.unsupported('insert in symbolic-length list')
    l.items().insert(E.concretize(i), v)


def l_remove(E, l, args, kw):
    it = l.items()
    if it is None:
        E.unsupported('remove')
    for i, x in enumerate(it):
        if E.decide(sterm(E, Lb.eq(E, x, args[0]))):
            E.touch(l)
            del l.items()[i]
            return None
    raise E.exc('ValueError', 'list.remove(x): x not in list')


def l_index(E, l, args, kw):
    it = l.items() if isinstance(l, PList) else l.items
    if it is None:
        E.unsupported('index in symbolic-length list')
    a = E.concretize(args[1]) if len(args) > 1 else 0
    if isinstance(args[0], T) and all(isinstance(x, int) for x in it):
        if not E.decide(X.or_(*[X.eq(args[0], x) for x in it[a:]])):
            raise E.exc('ValueError', 'not in list')
        m = {}
        for i in range(len(it) - 1, a - 1, -1):
            m[it[i]] = i
        return X.tab(X.Table(m, None), args[0])
    for i, x in enumerate(list(it)):
        if i >= a and E.decide(sterm(E, Lb.eq(E, x, args[0]))):
            return i
    raise E.exc('ValueError', 'not in list')


def l_count(E, l, args, kw):
    it = l.items() if isinstance(l, PList) else l.items
    r = 0
    for x in it:
        t = sterm(E, Lb.eq(E, x, args[0]))
        r = X.add(r, X.ite(t, 1, 0) if isinstance(t, T) else int(t))
    return r


def l_reverse(E, l, args, kw):
    it = l.items()
    if it is None:
        E.unsupported('reverse')
    E.touch(l)
    l.items().reverse()


def _sort(E, its, kw, args):
    key = kw.get('key')
    if args and args[0] is not None and not kw:
        E.unsupported('sort cmp')
    ks = [E.call(key, [x], {}) if key is not None else x for x in its]
    pairs = list(zip(ks, its))
    out = []
    for p in pairs:                # stable insertion sort with decisions
        i = len(out)
        while i > 0:
            c = Lb.compare(E, 'Lt', p[0], out[i - 1][0])
            if E.truth(c):
                i -= 1
            else:
                break
        out.insert(i, p)
    r = [x for _, x in out]
    if E.truth(kw.get('reverse', False)):
        r.reverse()
    return r


def l_sort(E, l, args, kw):
    it = l.items()
    if it is None:
        E.unsupported('sort')
    r = _sort(E, list(it), kw, args)
    E.touch(l)
    l.ch = [r]


def l_append(E, l, args, kw):
    if len(args) != 1:
        raise E.exc('TypeError', 'append() takes exactly one argument')
    Lb.append(E, l, args[0])


def l_extend(E, l, args, kw):
    Lb.extend(E, l, args[0])


def l_pop(E, l, args, kw):
    return Lb.list_pop(E, l, toint_(args[0]) if args else -1)


def toint_(v):
    return Lb.toint(v)


LIST = {'append': l_append, 'extend': l_extend, 'insert': l_insert, 'pop': l_pop, 'remove': l_remove, 'index': l_index,
        'count': l_count, 'reverse': l_reverse, 'sort': l_sort,
        '__len__': lambda E, s, a, k: s.length(), '__getitem__': lambda E, s, a, k: Lb.getitem(E, s, a[0]),
        '__setitem__': lambda E, s, a, k: Lb.setitem(E, s, a[0], a[1]),
        '__contains__': lambda E, s, a, k: Lb.contains(E, s, a[0]),
        '__iter__': lambda E, s, a, k: Lb.get_iter(E, s)}


def a_tolist(E, a, args, kw):
    return PList([list(c) if isinstance(c, (list, tuple)) else c for c in a.ch])


def a_tostring(E, a, args, kw):
    return Str('s', norm(a.ch))


def a_fromstring(E, a, args, kw):
    s = args[0]
    if not isinstance(s, Str):
        raise E.exc('TypeError', 'string expected')
    E.touch(a)
    for c in s.ch:
        if isinstance(c, tuple):
            if a.ch and type(a.ch[-1]) is list:
                a.ch[-1].extend(c)
            else:
                a.ch.append(list(c))
        else:
            a.ch.append(c)


def a_fromlist(E, a, args, kw):
    Lb.extend(E, a, args[0])


def a_tofile(E, a, args, kw):
    f = args[0]
    E.call(E.getattr(f, 'write'), [a_tostring(E, a, [], {})], {})


def a_fromfile(E, a, args, kw):
    f, n = args
    d = E.call(E.getattr(f, 'read'), [n], {})
    a_fromstring(E, a, [d], {})
    if not E.decide(X.eq(d.length(), n)):
        raise E.exc('EOFError', 'not enough items in file')


ARR = dict(LIST)
ARR.update({'tolist': a_tolist, 'tostring': a_tostring, 'fromstring': a_fromstring, 'fromlist': a_fromlist,
            'tofile': a_tofile, 'fromfile': a_fromfile})
ARR.pop('sort')


# ------------------------------------------------------------------ dict / set
def d_get(E, d, args, kw):
    return Lb.dict_get(E, d, args[0], args[1] if len(args) > 1 else None)


def d_update(E, d, args, kw):
    E.touch(d)
    if args:
        o = args[0]
        if isinstance(o, PDict):
            for key, (ko, v) in list(o.d.items()):
                Lb.dict_set(E, d, ko, v)
        else:
            for p in Lb.to_items(E, o):
                k, v = Lb.unpack(E, p, 2)
                Lb.dict_set(E, d, k, v)
    for k, v in kw.items():
        Lb.dict_set(E, d, S(k), v)


def d_pop(E, d, args, kw):
    f = Lb.dict_find(E, d, args[0])
    if f is None:
        if len(args) > 1:
            return args[1]
        raise E.exc('KeyError', '')
    v = d.d[f][1]
    E.touch(d)
    del d.d[f]
    return v


def d_popitem(E, d, args, kw):
    E.unsupported('popitem')


def d_setdefault(E, d, args, kw):
    f = Lb.dict_find(E, d, args[0])
    if f is not None:
        return d.d[f][1]
    v = args[1] if len(args) > 1 else None
    Lb.dict_set(E, d, args[0], v)
    return v


def d_clear(E, d, args, kw):
    E.touch(d)
    d.d = {}


def d_items(E, d, args, kw):
    return L([Tup([k, v]) for k, v in d.d.values()])


DICT = {'get': d_get, 'update': d_update, 'pop': d_pop, 'popitem': d_popitem, 'setdefault': d_setdefault, 'clear': d_clear,
        'keys': lambda E, d, a, k: L([x for x, _ in d.d.values()]),
        'values': lambda E, d, a, k: L([x for _, x in d.d.values()]),
        'items': d_items,
        'iterkeys': lambda E, d, a, k: PIter(L([x for x, _ in d.d.values()])),
        'itervalues': lambda E, d, a, k: PIter(L([x for _, x in d.d.values()])),
        'iteritems': lambda E, d, a, k: PIter(d_items(E, d, a, k)),
        'has_key': lambda E, d, a, k: Lb.dict_has_term(E, d, a[0]),
        'copy': lambda E, d, a, k: PDict(dict(d.d)),
        '__len__': lambda E, d, a, k: len(d.d), '__getitem__': lambda E, s, a, k: Lb.getitem(E, s, a[0]),
        '__setitem__': lambda E, s, a, k: Lb.setitem(E, s, a[0], a[1]),
        '__contains__': lambda E, d, a, k: Lb.dict_has_term(E, d, a[0])}


def s_add(E, d, args, kw):
    Lb.dict_set(E, d, args[0], args[0])


def s_discard(E, d, args, kw):
    f = Lb.dict_find(E, d, args[0])
    if f is not None:
        E.touch(d)
        del d.d[f]


def s_issub(E, d, args, kw):
    o = args[0]
    if not isinstance(o, PDict):
        o = mkset(E, o)
    return X.and_(*[Lb.dict_has_term(E, o, k) for k, _ in d.d.values()]) if d.d else True


def s_op(op):
    def f(E, d, args, kw):
        o = args[0]
        if not isinstance(o, PDict):
            o = mkset(E, o)
        if op == 'union':
            r = PSet(dict(d.d))
            for k, _ in o.d.values():
                Lb.dict_set(E, r, k, k)
            return r
        want = op == 'intersection'
        r = PSet()
        for kk, (k, _) in d.d.items():
            if E.decide(Lb.dict_has_term(E, o, k)) == want:
                r.d[kk] = (k, k)
        return r
    return f


def s_update(E, d, args, kw):
    for k in Lb.to_items(E, args[0]):
        Lb.dict_set(E, d, k, k)


SET = {'add': s_add, 'discard': s_discard, 'issubset': s_issub, 'union': s_op('union'), 'intersection': s_op('intersection'),
       'difference': s_op('difference'), 'update': s_update, 'copy': lambda E, d, a, k: PSet(dict(d.d)),
       '__contains__': lambda E, d, a, k: Lb.dict_has_term(E, d, a[0])}


def mkset(E, o):
    s = PSet()
    for x in Lb.to_items(E, o):
        Lb.dict_set(E, s, x, x)
    return s


# ------------------------------------------------------------------ attribute access on native values
def getattr_native(E, o, name):
    tbl = None
    if isinstance(o, Str):
        tbl = STR
    elif isinstance(o, PArr):
        tbl = ARR
        if name == 'typecode':
            return S(o.tc)
        if name == 'itemsize':
            return 1
    elif isinstance(o, PList):
        tbl = LIST
    elif isinstance(o, PSet):
        tbl = SET
    elif isinstance(o, PDict):
        tbl = DICT
    elif isinstance(o, Tup):
        tbl = {'index': l_index, 'count': l_count, '__len__': lambda E, s, a, k: len(s.items),
               '__getitem__': lambda E, s, a, k: Lb.getitem(E, s, a[0])}
    elif isinstance(o, PIter):
        if name in ('next', '__next__'):
            return BI('next', lambda E, a, k: Lb.iter_next(E, o))
        if name == '__iter__':
            return BI('__iter__', lambda E, a, k: o)
    elif isinstance(o, (TD, DT)):
        from . import dtlib
        r = dtlib.attr(E, o, name)
        if r is not NotImplemented:
            return r
    elif isinstance(o, NativeObj):
        if name in o.attrs:
            return o.attrs[name]
        E.unsupported('attribute %s of %s' % (name, o.tname)) if o.tname not in ('match',) else None
    elif isinstance(o, BType):
        if name == '__name__':
            return S(o.name)
        if name in o.attrs:
            return o.attrs[name]
        t2 = {'str': STR, 'unicode': STR, 'list': LIST, 'dict': DICT, 'set': SET, 'array': ARR}.get(o.name)
        if t2 and name in t2:
            f = t2[name]
            return BI(name, lambda E, a, k: f(E, a[0], a[1:], k))
    elif isinstance(o, PFunc):
        if name in ('__name__', 'func_name'):
            return S(o.name)
        if name in o.d:
            return o.d[name]
        if name in ('__doc__',):
            return None
        if name == 'func_defaults':
            return Tup(o.defaults)
    elif isinstance(o, Bound):
        if name == '__name__':
            return E.getattr(o.fn, name)
        if name in ('im_self', '__self__'):
            return o.self
        if name in ('im_func', '__func__'):
            return o.fn
    elif isinstance(o, BI):
        if name == '__name__':
            return S(o.name)
    elif isinstance(o, StaticM):
        return E.getattr(o.f, name)
    elif isinstance(o, Prop):
        if name in ('setter', 'getter', 'deleter'):
            def mk(E, a, k):
                g, s_, d = o.get, o.set, o.dele
                if name == 'setter':
                    s_ = a[0]
                elif name == 'getter':
                    g = a[0]
                else:
                    d = a[0]
                return Prop(g, s_, d)
            return BI(name, mk)
        if name == 'fget':
            return o.get
        if name == 'fset':
            return o.set
    elif Lb.is_num(o):
        if name == 'bit_length':
            return BI(name, lambda E, a, k: bitlen(E, o))
        if name == 'real':
            return o
    elif isinstance(o, Super):
        for c in o.mro:
            if name in c.d:
                return E.bind(c.d[name], o.obj, o.obj.cls)
        if name in ('__init__',):
            if E.builtins['BaseException'] in o.obj.cls.mro():
                return BI('__init__', lambda E, a, k: exc_init(E, o.obj, a))
            return BI('__init__', lambda E, a, k: None)
        if name == '__setattr__':
            return BI(name, lambda E, a, k: E.setattr(o.obj, a[0].py(), a[1]))
    if tbl is not None:
        f = tbl.get(name)
        if f is not None:
            return BI(name, lambda E, a, k: f(E, o, a, k))
        known = {'Str': str, 'PList': list, 'PDict': dict, 'PSet': set, 'PArr': list, 'Tup': tuple}[type(o).__name__]
        if hasattr(known, name):
            E.unsupported('method %s.%s' % (Lb.tname(o), name))
    if name == '__class__':
        return E.builtins.get(Lb.tname(o)) or E.unsupported('__class__')
    if name == '__doc__':
        return None
    raise E.exc('AttributeError', "'%s' object has no attribute '%s'" % (Lb.tname(o), name))


def bitlen(E, v):
    v = Lb.toint(v)
    if not isinstance(v, T):
        return v.bit_length()
    if E.decide(X.lt(v, 0)):
        v = X.neg(v)
    n = 0
    while not E.decide(X.lt(v, 1 << n)):
        n += 1
        if n > 300:
            E.unsupported('bit_length')
    return n


class Super(object):
    def __init__(self, obj, mro):
        self.obj = obj
        self.mro = mro


def exc_matches(E, obj, ty):
    if isinstance(ty, Tup):
        return any(exc_matches(E, obj, t) for t in ty.items)
    if isinstance(ty, PClass):
        return obj.cls.issub(ty)
    return False


def exc_init(E, o, a):
    o.d['args'] = Tup(a)
    o.d['message'] = a[0] if len(a) == 1 else S('')


# ------------------------------------------------------------------ builtins
EXC = {
    'BaseException': None, 'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'GeneratorExit': 'BaseException', 'StandardError': 'Exception', 'StopIteration': 'Exception', 'Warning': 'Exception',
    'ArithmeticError': 'StandardError', 'OverflowError': 'ArithmeticError', 'ZeroDivisionError': 'ArithmeticError',
    'AssertionError': 'StandardError', 'AttributeError': 'StandardError', 'EOFError': 'StandardError',
    'EnvironmentError': 'StandardError', 'IOError': 'EnvironmentError', 'OSError': 'EnvironmentError',
    'ImportError': 'StandardError', 'LookupError': 'StandardError', 'IndexError': 'LookupError', 'KeyError': 'LookupError',
    'MemoryError': 'StandardError', 'NameError': 'StandardError', 'UnboundLocalError': 'NameError',
    'RuntimeError': 'StandardError', 'NotImplementedError': 'RuntimeError', 'TypeError': 'StandardError',
    'ValueError': 'StandardError', 'UnicodeError': 'ValueError', 'UnicodeEncodeError': 'UnicodeError',
    'UnicodeDecodeError': 'UnicodeError', 'SyntaxError': 'StandardError', 'SystemError': 'StandardError',
    'DeprecationWarning': 'Warning', 'UserWarning': 'Warning',
}


def to_intv(E, args, base_given):
    v = args[0] if args else 0
    if isinstance(v, Str):
        b = E.concretize(args[1]) if len(args) > 1 else 10
        return Lb.str_to_int(E, v, b)
    if len(args) > 1:
        raise E.exc('TypeError', "int() can't convert non-string with explicit base")
    if Lb.is_num(v):
        return Lb.toint(v)
    if isinstance(v, (float, Frac)):
        return Lb.to_int(E, v)
    if isinstance(v, PObj):
        m, _ = v.cls.lookup('__int__')
        if m is not None:
            return E.call(Bound(m, v), [], {})
    raise E.exc('TypeError', "int() argument must be a string or a number")


def c_int(E, args, kw):
    return to_intv(E, args, False)


def c_str(E, args, kw):
    if not args:
        return S('')
    v = args[0]
    if isinstance(v, Str):
        if v.kind == 's':
            return v
        return m_encode(E, v, [S('ascii')], {})
    return Lb.to_str(E, v)


def c_unicode(E, args, kw):
    if not args:
        return S('', 'u')
    v = args[0]
    if isinstance(v, Str):
        if v.kind == 'u':
            return v
        return m_decode(E, v, [args[1] if len(args) > 1 else S('ascii')] + args[2:3], {})
    r = Lb.to_str(E, v)
    if r.lazy is not None:
        return Str('u', (), lazy=lambda: r.ch, src=r.src)
    return Str('u', r.ch)


def c_bool(E, args, kw):
    return E.truth_term(args[0]) if args else False


def c_float(E, args, kw):
    v = args[0]
    if isinstance(v, (float, Frac)):
        return v
    if Lb.is_num(v):
        v = Lb.toint(v)
        return Frac(v, 1) if isinstance(v, T) else float(v)
    E.unsupported('float()')


def c_list(E, args, kw):
    if not args:
        return PList([[]])
    v = args[0]
    if isinstance(v, PList):
        return PList([list(c) if isinstance(c, (list, tuple)) else c for c in v.ch])
    if isinstance(v, Str) and v.items() is None:
        l = PList([])
        Lb.extend(E, l, v)
        return l
    if isinstance(v, PIter) and v.nextf is None and v.src is not None and not isinstance(v.src, (XRange, Tup)):
        rest = Lb.getslice(E, v.src, v.idx, None, None)
        E.touch(v)
        v.src = None
        return c_list(E, [rest], {})
    if isinstance(v, XRange) and isinstance(Lb.xr_len(E, v), T):
        lo, st = v.lo, v.step
        return PList([Fam(lambda i: X.add(lo, X.mulc(i, st)), 0, Lb.xr_len(E, v), ('range', lo, st))])
    return L(Lb.to_items(E, v))


def c_tuple(E, args, kw):
    if not args:
        return Tup([])
    if isinstance(args[0], Tup):
        return args[0]
    return Tup(Lb.to_items(E, args[0]))


def c_dict(E, args, kw):
    d = PDict()
    d_update(E, d, args, kw)
    return d


def c_set(E, args, kw):
    return mkset(E, args[0]) if args else PSet()


def c_frozenset(E, args, kw):
    s = mkset(E, args[0]) if args else PSet()
    s.frozen = True
    return s


def c_type(E, args, kw):
    if len(args) == 1:
        v = args[0]
        if isinstance(v, PObj):
            return v.cls
        n = Lb.tname(v)
        if n == 'int':
            return E.builtins['int'] if Lb.type_test(E, v, 'int') else E.builtins['long']
        t = E.builtins.get(n) or E.modtypes.get(n)
        if t is None:
            E.unsupported('type()')
        return t
    if len(args) == 3:
        return PClass(args[0].py(), list(args[1].items), {ko.py(): v for ko, v in args[2].d.values()})
    E.unsupported('type()')


def c_object(E, args, kw):
    return PObj(E.builtins['$objclass'])


def b_len(E, args, kw):
    v = args[0]
    if isinstance(v, (Str, PList)):
        return v.length()
    if isinstance(v, Tup):
        return len(v.items)
    if isinstance(v, PDict):
        return len(v.d)
    if isinstance(v, XRange):
        return Lb.xr_len(E, v)
    if isinstance(v, PObj):
        m, _ = v.cls.lookup('__len__')
        if m is not None:
            return E.call(Bound(m, v), [], {})
    raise E.exc('TypeError', "object of type '%s' has no len()" % Lb.tname(v))


def b_ord(E, args, kw):
    v = args[0]
    if not isinstance(v, Str):
        raise E.exc('TypeError', 'ord() expected string of length 1')
    n = v.length()
    if not E.decide(X.eq(n, 1)):
        raise E.exc('TypeError', 'ord() expected a character')
    return Lb.index_into(E, v.ch, 0, 's')


def b_chr(E, args, kw):
    v = args[0]
    if isinstance(v, Frac):
        v = Lb.to_int(E, v)
    if not Lb.is_num(v):
        raise E.exc('TypeError', 'an integer is required')
    v = Lb.toint(v)
    if not E.decide(X.inset(v, ((0, 255),))):
        raise E.exc('ValueError', 'chr() arg not in range(256)')
    return Str('s', ((v,),))


def b_unichr(E, args, kw):
    v = args[0]
    if not Lb.is_num(v):
        raise E.exc('TypeError', 'an integer is required')
    v = Lb.toint(v)
    if not E.decide(X.inset(v, ((0, 0xd7ff), (0xe000, 0x10ffff)))):
        raise E.exc('ValueError', 'unichr() arg not in range')
    if isinstance(v, T) and (v.hi is None or v.hi > 0xffff) and not E.decide(X.le(v, 0xffff)):
        E.unsupported('astral character')
    return Str('u', ((v,),))


def _range_args(E, args):
    a = [Lb.toint(x) for x in args]
    for x in a:
        if not Lb.is_int(x):
            raise E.exc('TypeError', 'range() integer argument expected')
    if len(a) == 1:
        return 0, a[0], 1
    if len(a) == 2:
        return a[0], a[1], 1
    st = E.concretize(a[2])
    if st == 0:
        raise E.exc('ValueError', 'range() arg 3 must not be zero')
    return a[0], a[1], st


def b_range(E, args, kw):
    lo, hi, st = _range_args(E, args)
    if not isinstance(lo, T) and not isinstance(hi, T):
        n = len(range(lo, hi, st))
        if n > 2000000:
            raise E.exc('MemoryError')
        return L(list(range(lo, hi, st)))
    n = rlen(E, lo, hi, st)
    return PList([Fam(lambda i: X.add(lo, X.mulc(i, st)), 0, n, ('range', lo, st))])


def rlen(E, lo, hi, st):
    if st < 0:
        lo, hi = X.neg(lo), X.neg(hi)
        st = -st
    d = X.div(X.add(X.sub(hi, lo), st - 1), st)
    if isinstance(d, T) and not (d.lo is not None and d.lo >= 0):
        if E.decide(X.le(0, d)):
            return d
        return 0
    return max(0, d) if not isinstance(d, T) else d


def b_xrange(E, args, kw):
    lo, hi, st = _range_args(E, args)
    for x in (lo, hi):
        if not E.decide(X.inset(x, ((-2**31, 2**31 - 1),))):
            raise E.exc('OverflowError', 'xrange')
    return XRange(lo, hi, st)


def b_enumerate(E, args, kw):
    st = args[1] if len(args) > 1 else kw.get('start', 0)
    it = Lb.get_iter(E, args[0])
    if isinstance(it, PIter) and it.src is not None and it.nextf is None:
        # lazily paired view over the live source
        src = it
        cell = PIter(None, st)

        def nx(E, me):
            v = Lb.iter_next(E, src)
            i = cell.idx
            E.touch(cell)
            cell.idx = X.add(i, 1)
            return Tup([i, v])
        r = PIter(None, 0, nx)
        r.idx = ('enum', src, cell)
        return r
    its = Lb.to_items(E, it)
    return PIter(L([Tup([X.add(st, i), x]) for i, x in enumerate(its)]))


def b_zip(E, args, kw):
    cols = [Lb.to_items(E, a) for a in args]
    return L([Tup(t) for t in zip(*cols)])


def b_map(E, args, kw):
    f = args[0]
    if len(args) > 2:
        cols = [Lb.to_items(E, a) for a in args[1:]]
        n = max(len(c) for c in cols)
        cols = [c + [None] * (n - len(c)) for c in cols]
        return L([Tup(t) if f is None else E.call(f, list(t), {}) for t in zip(*cols)])
    seq = args[1]
    if f is None:
        return c_list(E, [seq], {})
    from . import loops
    r = loops.map_chunks(E, seq, lambda x: E.call(f, [x], {}))
    if r is not None:
        return r
    return L([E.call(f, [x], {}) for x in Lb.to_items(E, seq)])


def b_filter(E, args, kw):
    f, seq = args
    out = []
    for x in Lb.to_items(E, seq):
        if E.truth(x if f is None else E.call(f, [x], {})):
            out.append(x)
    if isinstance(seq, Str):
        return join(E, Str(seq.kind), L(out))
    if isinstance(seq, Tup):
        return Tup(out)
    return L(out)


def b_reduce(E, args, kw):
    its = Lb.to_items(E, args[1])
    if len(args) > 2:
        acc = args[2]
    else:
        if not its:
            raise E.exc('TypeError', 'reduce() of empty sequence')
        acc = its.pop(0)
    for x in its:
        acc = E.call(args[0], [acc, x], {})
    return acc


def b_isinstance(E, args, kw):
    v, t = args
    if isinstance(t, Tup):
        for x in t.items:
            if b_isinstance(E, [v, x], kw):
                return True
        return False
    if isinstance(t, PClass):
        if t is E.builtins['object']:
            return True
        return isinstance(v, PObj) and v.cls.issub(t)
    if isinstance(t, BType):
        if t.name == 'object':
            return True
        if t.name in ('datetime', 'timedelta', 'tzinfo', 'date'):
            return Lb.tname(v) == t.name or (isinstance(v, PObj) and t in v.cls.bases) or (t.name == 'date' and isinstance(v, DT))
        return Lb.type_test(E, v, t.name)
    raise E.exc('TypeError', 'isinstance() arg 2 must be a class')


def b_hasattr(E, args, kw):
    try:
        E.getattr_(args[0], args[1].py())
        return True
    except PyExc as e:
        return False


def b_getattr(E, args, kw):
    n = args[1].py()
    if n is None:
        E.unsupported('getattr with symbolic name')
    if len(args) > 2:
        return E.getattr(args[0], n, args[2])
    return E.getattr_(args[0], n)


def b_setattr(E, args, kw):
    E.setattr(args[0], args[1].py(), args[2])


def b_super(E, args, kw):
    cls, obj = args
    mro = obj.cls.mro() if isinstance(obj, PObj) else obj.mro()
    return Super(obj, mro[mro.index(cls) + 1:])


def b_property(E, args, kw):
    a = list(args) + [None] * 3
    return Prop(kw.get('fget', a[0]), kw.get('fset', a[1]), kw.get('fdel', a[2]))


def b_iter(E, args, kw):
    return Lb.get_iter(E, args[0])


def b_sum(E, args, kw):
    r = args[1] if len(args) > 1 else 0
    for x in Lb.to_items(E, args[0]):
        r = Lb.binop(E, 'Add', r, x)
    return r


def _minmax(op):
    def f(E, args, kw):
        its = Lb.to_items(E, args[0]) if len(args) == 1 else list(args)
        if not its:
            raise E.exc('ValueError', 'empty sequence')
        key = kw.get('key')
        r = its[0]
        for x in its[1:]:
            a, b = (x, r) if key is None else (E.call(key, [x], {}), E.call(key, [r], {}))
            c = Lb.compare(E, op, a, b)
            if isinstance(c, T) and Lb.is_num(x) and Lb.is_num(r) and key is None:
                r = X.ite(c, Lb.toint(x), Lb.toint(r))
            elif E.truth(c):
                r = x
        return r
    return f


def b_abs(E, args, kw):
    v = args[0]
    if isinstance(v, (float,)):
        return abs(v)
    if isinstance(v, TD):
        return TD(X.ite(X.lt(v.us, 0), X.neg(v.us), v.us))
    v = Lb.toint(v)
    if not isinstance(v, T):
        return abs(v)
    return X.ite(X.lt(v, 0), X.neg(v), v)


def b_any(E, args, kw):
    for x in Lb.to_items(E, args[0]):
        if E.truth(x):
            return True
    return False


def b_all(E, args, kw):
    for x in Lb.to_items(E, args[0]):
        if not E.truth(x):
            return False
    return True


def b_hex(E, args, kw):
    v = Lb.toint(args[0])
    if not isinstance(v, T):
        return S(hex(v) + ('L' if abs(v) > 2**31 else ''))
    return Lb.str_cat(S('0x'), Lb.str_format(E, S('%x'), v))


def b_bin(E, args, kw):
    v = Lb.toint(args[0])
    if not isinstance(v, T):
        return S(bin(v))
    E.unsupported('bin')


def b_repr(E, args, kw):
    v = args[0]
    if isinstance(v, Str):
        p = v.py()
        if p is not None and p.isprintable() and "'" not in p and '\\' not in p:
            return S(('u' if v.kind == 'u' else '') + "'" + p + "'")
        return Str('s', (), lazy=lambda: E.unsupported('repr of string'))
    if isinstance(v, PObj):
        m, _ = v.cls.lookup('__repr__')
        if m is not None:
            return E.call(Bound(m, v), [], {})
    if Lb.is_num(v):
        return Lb.to_str(E, v)
    return Str('s', (), lazy=lambda: E.unsupported('repr'))


def b_divmod(E, args, kw):
    return Tup([Lb.binop(E, 'FloorDiv', args[0], args[1]), Lb.binop(E, 'Mod', args[0], args[1])])


def b_pow(E, args, kw):
    r = Lb.binop(E, 'Pow', args[0], args[1])
    return Lb.binop(E, 'Mod', r, args[2]) if len(args) > 2 else r


def b_round(E, args, kw):
    v = args[0]
    if isinstance(v, float):
        import math
        return float(math.floor(abs(v) + 0.5) * (1 if v >= 0 else -1))
    if Lb.is_num(v):
        return c_float(E, [v], {})
    E.unsupported('round')


def b_reversed(E, args, kw):
    its = Lb.to_items(E, args[0])
    return PIter(L(its[::-1]))


def b_sorted(E, args, kw):
    return L(_sort(E, Lb.to_items(E, args[0]), kw, args[1:]))


def b_next(E, args, kw):
    it = args[0]
    try:
        if isinstance(it, PIter):
            return Lb.iter_next(E, it)
        return E.call(E.getattr(it, 'next'), [], {})
    except PyExc as e:
        if len(args) > 1 and e.obj.cls.name == 'StopIteration':
            return args[1]
        raise


def b_callable(E, args, kw):
    v = args[0]
    return isinstance(v, (PFunc, BI, Bound, PClass, BType)) or (isinstance(v, PObj) and v.cls.lookup('__call__')[0] is not None)


def b_cmp(E, args, kw):
    a, b = args
    if E.truth(Lb.compare(E, 'Lt', a, b)):
        return -1
    return 0 if E.truth(Lb.eq(E, a, b)) else 1


def b_id(E, args, kw):
    return id(args[0])


def b_issubclass(E, args, kw):
    c, t = args
    if isinstance(t, Tup):
        return any(b_issubclass(E, [c, x], kw) for x in t.items)
    return isinstance(c, PClass) and isinstance(t, PClass) and c.issub(t)


def b_slice(E, args, kw):
    E.unsupported('slice object')


def b_open(E, args, kw):
    fs = E.gh.setdefault('fs', {})
    name = args[0]
    mode = (args[1] if len(args) > 1 else S('r')).py()
    n = name.py() if isinstance(name, Str) else None
    if n is None:
        E.unsupported('open of symbolic name')
    if 'w' in mode:
        fs[n] = Str('s')
    elif n not in fs:
        raise E.exc('IOError', 'No such file or directory')
    f = NativeObj('file')
    f.attrs['pos'] = 0

    def read(E, a, k):
        d = fs[n]
        p = f.attrs['pos']
        E.touch(f)
        if a and a[0] is not None and not (isinstance(a[0], int) and a[0] < 0):
            e = X.add(p, Lb.toint(a[0]))
            f.attrs['pos'] = X.ite(X.lt(d.length(), e), d.length(), e)
            return Lb.getslice(E, d, p, e, None)
        f.attrs['pos'] = d.length()
        return Lb.getslice(E, d, p, None, None)

    def write(E, a, k):
        fs[n] = Lb.str_cat(fs[n], a[0])
    none = BI('close', lambda E, a, k: None)
    f.attrs.update({'read': BI('read', read), 'write': BI('write', write), 'close': none, '__exit__': BI('x', lambda E, a, k: None),
                    'flush': none, '__enter__': BI('e', lambda E, a, k: f)})
    return f


# ------------------------------------------------------------------ regular expressions
def re_ends(E, nodes, it, i, kind, start):
    """dict end -> condition, over all matches of nodes from position i (greedy order not kept)"""
    import re._constants as C
    cur = {i: True}
    for op, av in nodes:
        nxt = {}

        def put(e, c):
            if c is False:
                return
            nxt[e] = X.or_(nxt[e], c) if e in nxt else c
        for pos, cond in cur.items():
            if op is C.LITERAL:
                if pos < len(it):
                    put(pos + 1, X.and_(cond, X.eq(it[pos], av)))
            elif op is C.NOT_LITERAL:
                if pos < len(it):
                    put(pos + 1, X.and_(cond, X.ne(it[pos], av)))
            elif op is C.ANY:
                if pos < len(it):
                    put(pos + 1, X.and_(cond, X.ne(it[pos], 10)))
            elif op is C.IN:
                if pos < len(it):
                    put(pos + 1, X.and_(cond, re_in(E, av, it[pos])))
            elif op is C.AT:
                n = len(it)
                if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                    if pos == 0:
                        put(pos, cond)
                elif av is C.AT_END:
                    if pos == n:
                        put(pos, cond)
                    elif pos == n - 1:
                        put(pos, X.and_(cond, X.eq(it[pos], 10)))
                elif av is C.AT_END_STRING:
                    if pos == n:
                        put(pos, cond)
                else:
                    E.unsupported('regex anchor')
            elif op is C.SUBPATTERN:
                for e, c in re_ends(E, list(av[3]), it, pos, kind, start).items():
                    put(e, X.and_(cond, c))
            elif op is C.BRANCH:
                for alt in av[1]:
                    for e, c in re_ends(E, list(alt), it, pos, kind, start).items():
                        put(e, X.and_(cond, c))
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                mn, mx, sub = av
                sub = list(sub)
                layer = {pos: cond}
                k = 0
                lim = len(it) - pos + 1 + mn
                while layer and k <= (lim if mx is C.MAXREPEAT else min(int(mx), lim)):
                    if k >= mn:
                        for e, c in layer.items():
                            put(e, c)
                    new = {}
                    for p, c0 in layer.items():
                        for e, c in re_ends(E, sub, it, p, kind, start).items():
                            cc = X.and_(c0, c)
                            if cc is not False and not (e == p and k >= mn):
                                new[e] = X.or_(new[e], cc) if e in new else cc
                    layer = new
                    k += 1
            else:
                E.unsupported('regex %s' % op)
        cur = nxt
        if not cur:
            break
    return cur


def re_in(E, av, c):
    import re._constants as C
    neg = False
    out = []
    for op, a in av:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            out.append(X.eq(c, a))
        elif op is C.RANGE:
            out.append(X.inset(c, ((a[0], a[1]),)))
        elif op is C.CATEGORY:
            if a is C.CATEGORY_DIGIT:
                out.append(X.inset(c, ((48, 57),)))
            elif a is C.CATEGORY_NOT_DIGIT:
                out.append(X.not_(X.inset(c, ((48, 57),))))
            elif a is C.CATEGORY_SPACE:
                out.append(X.inset(c, ((9, 13), (32, 32))))
            elif a is C.CATEGORY_NOT_SPACE:
                out.append(X.not_(X.inset(c, ((9, 13), (32, 32)))))
            elif a is C.CATEGORY_WORD:
                out.append(X.inset(c, ((48, 57), (65, 90), (95, 95), (97, 122))))
            elif a is C.CATEGORY_NOT_WORD:
                out.append(X.not_(X.inset(c, ((48, 57), (65, 90), (95, 95), (97, 122)))))
            else:
                E.unsupported('regex category')
        else:
            E.unsupported('regex set')
    r = X.or_(*out) if out else False
    return X.not_(r) if neg else r


def re_compile(E, args, kw):
    pat = args[0].py()
    flags = args[1] if len(args) > 1 else 0
    if pat is None or flags:
        E.unsupported('regex flags')
    import re._parser as sp
    try:
        tree = list(sp.parse(pat, _re.ASCII))
    except Exception:
        E.unsupported('regex syntax')

    def run(E, s, mode):
        if not isinstance(s, Str):
            raise E.exc('TypeError', 'expected string or buffer')
        p = s.py()
        if p is not None:
            fn = {'match': _re.match, 'search': _re.search}[mode]
            m = fn(pat, p, _re.ASCII)
            if m is None:
                return None
            o = NativeObj('match')

            def group(E, a, k):
                g = m.group(*[x if isinstance(x, int) else x.py() for x in a])
                if isinstance(g, tuple):
                    return Tup([None if x is None else S(x, s.kind) for x in g])
                return None if g is None else S(g, s.kind)
            o.attrs = {'group': BI('group', group), 'groups': BI('groups', lambda E, a, k: Tup([None if x is None else S(x, s.kind) for x in m.groups()])),
                       'start': BI('start', lambda E, a, k: m.start(*a)), 'end': BI('end', lambda E, a, k: m.end(*a))}
            return o
        it = _need_items(E, s, 'regex')
        starts = range(len(it) + 1) if mode == 'search' else (0,)
        c = False
        for st in starts:
            for e, cc in re_ends(E, tree, it, st, s.kind, st).items():
                c = X.or_(c, cc)
                if c is True:
                    break
        if E.decide(c):
            return NativeObj('match')
        return None
    o = NativeObj('pattern')
    o.attrs = {'match': BI('match', lambda E, a, k: run(E, a[0], 'match')), 'search': BI('search', lambda E, a, k: run(E, a[0], 'search')),
               'pattern': args[0]}
    return o


# ------------------------------------------------------------------ DOM
def dom_element(E, tag):
    o = NativeObj('Element')
    st = PDict()
    ch = PList([[]])

    def setattr_(E, a, k):
        if not isinstance(a[1], Str):
            raise E.exc('TypeError', 'attribute values must be strings')
        Lb.dict_set(E, st, a[0], a[1])

    def append(E, a, k):
        c = a[0]
        old = c.attrs.get('parentNode')
        if old is not None:
            l = old.attrs['childNodes']
            E.touch(l)
            l.ch = [[x for x in l.items() if x is not c]]
        E.touch(c)
        c.attrs['parentNode'] = o
        Lb.append(E, ch, c)
        return c
    o.attrs = {'tagName': tag, 'nodeName': tag, 'childNodes': ch, '$at': st, 'parentNode': None,
               'setAttribute': BI('setAttribute', setattr_), 'appendChild': BI('appendChild', append),
               'getAttribute': BI('getAttribute', lambda E, a, k: Lb.dict_get(E, st, a[0], S(''))),
               'hasAttribute': BI('hasAttribute', lambda E, a, k: Lb.dict_has_term(E, st, a[0]))}

    def pretty(ind, nl):
        def f(E, a, k):
            if a or k:
                E.unsupported('XML printing options')
            sn = dom_snapshot(E, o)
            return Str('s', (), lazy=lambda: dom_text(E, sn, ind, nl), src=('dom', sn, ind, nl))
        return f
    o.attrs['toprettyxml'] = BI('toprettyxml', pretty('\t', '\n'))
    o.attrs['toxml'] = BI('toxml', pretty('', ''))
    return o


def dom_snapshot(E, o):
    if 'data' in o.attrs:
        E.unsupported('printing of text nodes')
    return (o.attrs['tagName'], dict(o.attrs['$at'].d), [dom_snapshot(E, c) for c in o.attrs['childNodes'].items()])


def dom_text(E, sn, ind, nl):
    out = []
    lit = lambda t: out.append(tuple(ord(c) for c in t))

    def data(v):
        it = _need_items(E, v, 'XML attribute')
        for c in it:
            if E.decide(X.inset(c, ((34, 34), (38, 38), (60, 60), (62, 62)))):
                c = E.concretize(c)
                lit({34: '&quot;', 38: '&amp;', 60: '&lt;', 62: '&gt;'}[c])
            else:
                out.append((c,))

    def go(e, pre):
        tag, at, ch = e
        tag = tag.py()
        if tag is None:
            E.unsupported('XML tag')
        lit(pre + '<' + tag)
        ats = {}
        for ko, v in at.values():
            if ko.py() is None or v.kind != 's':
                E.unsupported('XML attribute name')
            ats[ko.py()] = v
        for n in sorted(ats):
            lit(' %s="' % n)
            data(ats[n])
            lit('"')
        if ch:
            lit('>' + nl)
            for c in ch:
                go(c, pre + ind)
            lit(pre + '</%s>%s' % (tag, nl))
        else:
            lit('/>' + nl)
    go(sn, '')
    return norm([x for x in out if x])


def dom_impl(E, args, kw):
    impl = NativeObj('DOMImplementation')

    def create(E, a, k):
        doc = NativeObj('Document')
        root = dom_element(E, a[1]) if a[1] is not None else None
        doc.attrs = {'documentElement': root, 'createElement': BI('createElement', lambda E, b, k: dom_element(E, b[0]))}

        def tn(E, b, k):
            t = dom_element(E, S('#text'))
            t.attrs['data'] = b[0]
            return t
        doc.attrs['createTextNode'] = BI('createTextNode', tn)
        return doc
    impl.attrs = {'createDocument': BI('createDocument', create)}
    return impl


# ------------------------------------------------------------------ modules
def mod_codecs(E):
    def register(E, a, k):
        E.codec_search.append(a[0])

    def info(E, a, k):
        o = NativeObj('CodecInfo')
        names = ['encode', 'decode', 'streamreader', 'streamwriter', 'incrementalencoder', 'incrementaldecoder', 'name']
        for n, v in zip(names, a):
            o.attrs[n] = v
        o.attrs.update(k)
        return o
    return {'register': BI('register', register), 'CodecInfo': BI('CodecInfo', info),
            'encode': BI('encode', lambda E, a, k: m_encode(E, a[0], a[1:], k)),
            'decode': BI('decode', lambda E, a, k: m_decode(E, a[0], a[1:], k))}


def mod_sys(E):
    out = NativeObj('file')
    out.attrs['write'] = BI('write', lambda E, a, k: None)
    return {'version_info': Tup([2, 7, 3, S('final'), 0]), 'stdout': out, 'stderr': out, 'maxint': 2**31 - 1, 'maxsize': 2**31 - 1,
            'maxunicode': 0x10ffff, 'byteorder': S('big'), 'version': S('2.7.3'), 'platform': S('java')}


def mod_array(E):
    def mk(E, a, k):
        tc = a[0].py()
        if tc != 'B':
            E.unsupported('array typecode %s' % tc)
        r = PArr([[]], tc)
        if len(a) > 1:
            v = a[1]
            if isinstance(v, Str):
                if v.kind == 'u':
                    # Jython: unicode initialiser goes through the items
                    E.unsupported('array from unicode')
                a_fromstring(E, r, [v], {})
            else:
                Lb.extend(E, r, v)
        return r
    t = BType('array', mk)
    E.modtypes['array'] = t
    return {'array': t, 'ArrayType': t}


def mod_math(E):
    def floor(E, a, k):
        v = a[0]
        if isinstance(v, Frac):
            if isinstance(v.num, T):
                return Frac(X.div(v.num, v.den), 1)
            return float(v.num // v.den)
        if Lb.is_num(v):
            v = Lb.toint(v)
            return Frac(v, 1) if isinstance(v, T) else float(v)
        import math
        return float(math.floor(v))

    def ceil(E, a, k):
        v = a[0]
        if isinstance(v, Frac):
            return Frac(X.neg(X.div(X.neg(v.num), v.den)), 1)
        if Lb.is_num(v):
            v = Lb.toint(v)
            return Frac(v, 1) if isinstance(v, T) else float(v)
        import math
        return float(math.ceil(v))
    return {'floor': BI('floor', floor), 'ceil': BI('ceil', ceil)}


def mod_random(E):
    def randint(E, a, k):
        lo, hi = E.concretize(a[0]), E.concretize(a[1])
        return E.fresh('rand', lo, hi)

    def choice(E, a, k):
        its = Lb.to_items(E, a[0])
        return its[E.choose(len(its))]
    return {'randint': BI('randint', randint), 'choice': BI('choice', choice),
            'randrange': BI('randrange', lambda E, a, k: E.fresh('rand', *( (0, E.concretize(a[0]) - 1) if len(a) == 1 else (E.concretize(a[0]), E.concretize(a[1]) - 1)))),
            'seed': BI('seed', lambda E, a, k: None)}


def mod_os(E):
    def stat(E, a, k):
        n = a[0].py()
        fs = E.gh.setdefault('fs', {})
        if n not in fs:
            raise E.exc('OSError', 'No such file')
        o = NativeObj('stat_result')
        o.attrs['st_size'] = fs[n].length()
        o.attrs['__getitem__'] = BI('g', lambda E, b, k: fs[n].length() if b[0] == 6 else E.unsupported('stat item'))
        return o
    return {'path': E.import_module('os.path'), 'stat': BI('stat', stat), 'sep': S('/'), 'linesep': S('\n'), 'getcwd': BI('getcwd', lambda E, a, k: S('/'))}


def mod_ospath(E):
    import posixpath

    def conc(name, f):
        def g(E, a, k):
            ps = [x.py() for x in a]
            if any(p is None for p in ps):
                E.unsupported('path of symbolic name')
            r = f(*ps)
            return S(r) if isinstance(r, str) else (Tup([S(x) for x in r]) if isinstance(r, tuple) else r)
        return BI(name, g)

    def isfile(E, a, k):
        if not isinstance(a[0], Str):
            raise E.exc('TypeError', 'expected string')
        n = a[0].py()
        if n is None:
            # an arbitrary name: none of the scratch files
            return E.decide(X.bvar('isfile!%d' % len(E.gh)))
        return n in E.gh.get('fs', {})
    return {'isfile': BI('isfile', isfile), 'exists': BI('exists', isfile), 'basename': conc('basename', posixpath.basename),
            'dirname': conc('dirname', posixpath.dirname), 'join': conc('join', posixpath.join), 'splitext': conc('splitext', posixpath.splitext),
            'split': conc('split', posixpath.split), 'getsize': BI('getsize', lambda E, a, k: E.gh.get('fs', {})[a[0].py()].length())}


def mod_mimetypes(E):
    def guess(E, a, k):
        import mimetypes
        n = a[0].py()
        if n is None:
            E.unsupported('guess_type of symbolic name')
        t, e = mimetypes.MimeTypes().guess_type(n)
        return Tup([None if t is None else S(t), None if e is None else S(e)])
    return {'guess_type': BI('guess_type', guess)}


def mod_dom(E):
    return {'getDOMImplementation': BI('getDOMImplementation', dom_impl)}


def mod_traceback(E):
    n = BI('print_exc', lambda E, a, k: None)
    return {'print_exc': n, 'format_exc': BI('format_exc', lambda E, a, k: S(''))}


def mod_re(E):
    def wrap(mode):
        return BI(mode, lambda E, a, k: E.call(re_compile(E, [a[0]], {}).attrs[mode], [a[1]], {}))
    return {'compile': BI('compile', re_compile), 'match': wrap('match'), 'search': wrap('search')}


def mod_copy(E):
    def copy(E, a, k):
        v = a[0]
        if isinstance(v, PDict):
            return type(v)(dict(v.d))
        if isinstance(v, PArr):
            return PArr([list(c) if isinstance(c, list) else c for c in v.ch], v.tc)
        if isinstance(v, PList):
            return PList([list(c) if isinstance(c, list) else c for c in v.ch])
        if isinstance(v, PObj):
            o = PObj(v.cls)
            o.d = dict(v.d)
            return o
        return v

    def deep(E, a, k, memo=None):
        memo = {} if memo is None else memo
        v = a[0]
        if id(v) in memo:
            return memo[id(v)]
        d = lambda x: deep(E, [x], k, memo)
        if isinstance(v, PSet):
            return PSet(dict(v.d))
        if isinstance(v, PDict):
            r = memo[id(v)] = PDict()
            r.d = {q: (ko, d(x)) for q, (ko, x) in v.d.items()}
            return r
        if isinstance(v, PList):
            r = copy(E, [v], k)
            memo[id(v)] = r
            r.ch = [[d(x) for x in c] if isinstance(c, list) else c for c in r.ch]
            return r
        if isinstance(v, Tup):
            return Tup([d(x) for x in v.items])
        if isinstance(v, PObj):
            r = memo[id(v)] = PObj(v.cls)
            r.d = {q: d(x) for q, x in v.d.items()}
            return r
        return v
    return {'copy': BI('copy', copy), 'deepcopy': BI('deepcopy', deep)}


def mod_binascii(E):
    h = BI('hexlify', lambda E, a, k: m_encode(E, a[0] if isinstance(a[0], Str) else a_tostring(E, a[0], [], {}), [S('hex')], {}))
    u = BI('unhexlify', lambda E, a, k: m_decode(E, a[0], [S('hex')], {}))
    return {'hexlify': h, 'b2a_hex': h, 'unhexlify': u, 'a2b_hex': u, 'Error': E.builtins['TypeError']}


def mod_struct(E):
    sz = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8}

    def fmt(f):
        f = f.py()
        if f is None or not _re.match(r'^[>!][BHILQ]+$', f) and not _re.match(r'^B+$', f):
            E.unsupported('struct format')
        return [sz[c] for c in f.lstrip('>!')]

    def pack(E, a, k):
        out = []
        for n, v in zip(fmt(a[0]), a[1:]):
            v = Lb.toint(v)
            if not E.decide(X.inset(v, ((0, 256 ** n - 1),))):
                raise E.exc('ValueError', 'struct')
            out += [X.mod(X.div(v, 256 ** i), 256) for i in range(n - 1, -1, -1)]
        return Str('s', (tuple(out),))

    def unpack(E, a, k):
        s = a[1] if isinstance(a[1], Str) else a_tostring(E, a[1], [], {})
        fs = fmt(a[0])
        if not E.decide(X.eq(s.length(), sum(fs))):
            raise E.exc('ValueError', 'struct')
        it = _need_items(E, s, 'unpack')
        out = []
        p = 0
        for n in fs:
            v = 0
            for j in range(n):
                v = X.add(X.mulc(v, 256), it[p + j])
            p += n
            out.append(v)
        return Tup(out)
    return {'pack': BI('pack', pack), 'unpack': BI('unpack', unpack)}


def mod_itertools(E):
    def chain(E, a, k):
        out = []
        for x in a:
            out += Lb.to_items(E, x)
        return PIter(L(out))

    def islice(E, a, k):
        its = Lb.to_items(E, a[0])
        b = [None if x is None else E.concretize(x) for x in a[1:]]
        return PIter(L(its[slice(*b)]))
    return {'chain': BI('chain', chain), 'izip': BI('izip', lambda E, a, k: PIter(b_zip(E, a, k))),
            'imap': BI('imap', lambda E, a, k: PIter(b_map(E, a, k))), 'islice': BI('islice', islice)}


def mod_functools(E):
    def partial(E, a, k):
        f, pre, pk = a[0], list(a[1:]), dict(k)
        return BI('partial', lambda E, b, kk: E.call(f, pre + list(b), dict(pk, **kk)))
    ident = BI('wraps', lambda E, a, k: BI('deco', lambda E, b, k2: b[0]))
    return {'partial': BI('partial', partial), 'reduce': BI('reduce', b_reduce), 'wraps': ident}


def install(E):
    B = E.builtins
    E.modtypes = {}
    obj = PClass('object', [], {})
    for n, base in EXC.items():
        B[n] = PClass(n, [B[base]] if base else [], {})
    B['BaseException'].d['__init__'] = BI('__init__', lambda E, a, k: exc_init(E, a[0], a[1:]))
    B['$objclass'] = obj
    B['object'] = obj
    for n, c in [('int', c_int), ('long', c_int), ('str', c_str), ('unicode', c_unicode), ('bool', c_bool), ('float', c_float),
                 ('list', c_list), ('tuple', c_tuple), ('dict', c_dict), ('set', c_set), ('frozenset', c_frozenset),
                 ('type', c_type), ('basestring', None), ('bytes', c_str), ('file', b_open), ('bytearray', None)]:
        B[n] = BType('str' if n == 'bytes' else n, c)
    B['bytes'] = B['str']
    B['NoneType'] = BType('NoneType')
    B['int'].attrs['from_bytes'] = None
    B['dict'].attrs['fromkeys'] = BI('fromkeys', lambda E, a, k: _fromkeys(E, a))
    for n, f in [('len', b_len), ('ord', b_ord), ('chr', b_chr), ('unichr', b_unichr), ('range', b_range), ('xrange', b_xrange),
                 ('enumerate', b_enumerate), ('zip', b_zip), ('map', b_map), ('filter', b_filter), ('reduce', b_reduce),
                 ('isinstance', b_isinstance), ('issubclass', b_issubclass), ('hasattr', b_hasattr), ('getattr', b_getattr),
                 ('setattr', b_setattr), ('super', b_super), ('property', b_property), ('iter', b_iter), ('sum', b_sum),
                 ('min', _minmax('Lt')), ('max', _minmax('Gt')), ('abs', b_abs), ('any', b_any), ('all', b_all), ('hex', b_hex),
                 ('bin', b_bin), ('repr', b_repr), ('divmod', b_divmod), ('pow', b_pow), ('round', b_round), ('reversed', b_reversed),
                 ('sorted', b_sorted), ('next', b_next), ('callable', b_callable), ('cmp', b_cmp), ('id', b_id), ('open', b_open)]:
        B[n] = BI(n, f)
    B['staticmethod'] = BI('staticmethod', lambda E, a, k: StaticM(a[0]))
    B['classmethod'] = BI('classmethod', lambda E, a, k: ClassM(a[0]))
    B['__debug__'] = True
    B['NotImplemented'] = NativeObj('NotImplementedType')
    B['Ellipsis'] = NativeObj('ellipsis')
    from . import dtlib, vpmod
    E.natives.update({'codecs': mod_codecs, 'sys': mod_sys, 'array': mod_array, 'math': mod_math, 'random': mod_random,
                      'os': mod_os, 'os.path': mod_ospath, 'mimetypes': mod_mimetypes, 'xml.dom.minidom': mod_dom,
                      'xml': lambda E: {}, 'xml.dom': lambda E: {}, 'traceback': mod_traceback, 're': mod_re,
                      'datetime': dtlib.module, 'vp': vpmod.module, '__future__': lambda E: {}, 'copy': mod_copy,
                      'binascii': mod_binascii, 'struct': mod_struct, 'itertools': mod_itertools, 'functools': mod_functools})


def _fromkeys(E, a):
    d = PDict()
    for k in Lb.to_items(E, a[0]):
        Lb.dict_set(E, d, k, a[1] if len(a) > 1 else None)
    return d
