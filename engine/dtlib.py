"""datetime module (naive arithmetic exact over integers: proleptic Gregorian ordinals)."""
from . import terms as X
from .terms import T
from .values import *
from . import lib as Lb

US = 1000000
DAY = 86400 * US
CUM = X.Table({1: 0, 2: 31, 3: 59, 4: 90, 5: 120, 6: 151, 7: 181, 8: 212, 9: 243, 10: 273, 11: 304, 12: 334}, None)
DIM = X.Table({1: 31, 2: 28, 3: 31, 4: 30, 5: 31, 6: 30, 7: 31, 8: 31, 9: 30, 10: 31, 11: 30, 12: 31}, None)
FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')
MAXT = 3652060 * DAY      # exclusive
MINT = 1 * DAY


def leap(y):
    return X.and_(X.eq(X.mod(y, 4), 0), X.or_(X.ne(X.mod(y, 100), 0), X.eq(X.mod(y, 400), 0)))


def ordinal(y, m, d):
    p = X.sub(y, 1)
    o = X.add(X.mulc(p, 365), X.add(X.div(p, 4), X.sub(X.div(p, 400), X.div(p, 100))))
    o = X.add(o, X.tab(CUM, m))
    o = X.add(o, X.ite(X.and_(X.lt(2, m), leap(y)), 1, 0))
    return X.add(o, d)


def dim(y, m):
    return X.add(X.tab(DIM, m), X.ite(X.and_(X.eq(m, 2), leap(y)), 1, 0))


def total(E, d):
    if d.tot is None:
        f = d.f
        s = X.add(X.mulc(f['hour'], 3600), X.add(X.mulc(f['minute'], 60), f['second']))
        d.tot = X.add(X.mulc(ordinal(f['year'], f['month'], f['day']), DAY), X.add(X.mulc(s, US), f['microsecond']))
    return d.tot


def dt_eq(E, a, b):
    if (a.tz is None) != (b.tz is None):
        E.unsupported('comparison of naive and aware datetimes')
    if a.tz is not None:
        E.unsupported('aware datetime comparison')
    if a.f is not None and b.f is not None:
        return X.and_(*[X.eq(a.f[k], b.f[k]) for k in FIELDS])
    return X.eq(total(E, a), total(E, b))


def shift(E, d, us):
    t = X.add(total(E, d), us)
    if not E.decide(X.inset(t, ((MINT, MAXT - 1),))):
        raise E.exc('OverflowError', 'date value out of range')
    return DT(tot=t, tz=d.tz)


def mk(E, y, m, d, H=0, M=0, S_=0, us=0, tz=None):
    v = [Lb.toint(x) for x in (y, m, d, H, M, S_, us)]
    for x in v:
        if not Lb.is_int(x):
            raise E.exc('TypeError', 'integer argument expected')
    y, m, d, H, M, S_, us = v
    ok = X.and_(X.inset(y, ((1, 9999),)), X.inset(m, ((1, 12),)), X.inset(H, ((0, 23),)), X.inset(M, ((0, 59),)),
                X.inset(S_, ((0, 59),)), X.inset(us, ((0, 999999),)), X.le(1, d))
    if not E.decide(ok):
        raise E.exc('ValueError', 'datetime field out of range')
    if not (not isinstance(d, T) and d <= 28) and not (isinstance(d, T) and d.hi is not None and d.hi <= 28):
        if not E.decide(X.le(d, dim(y, m))):
            raise E.exc('ValueError', 'day is out of range for month')
    return DT(f=dict(zip(FIELDS, v)), tz=tz)


def c_datetime(E, a, k):
    names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo']
    vals = dict(zip(names, a))
    vals.update(k)
    for n in ('year', 'month', 'day'):
        if n not in vals:
            raise E.exc('TypeError', 'required argument missing')
    return mk(E, vals['year'], vals['month'], vals['day'], vals.get('hour', 0), vals.get('minute', 0), vals.get('second', 0),
              vals.get('microsecond', 0), vals.get('tzinfo'))


def c_timedelta(E, a, k):
    names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
    mul = {'days': DAY, 'seconds': US, 'microseconds': 1, 'milliseconds': 1000, 'minutes': 60 * US, 'hours': 3600 * US, 'weeks': 7 * DAY}
    vals = dict(zip(names, a))
    vals.update(k)
    us = 0
    for n, v in vals.items():
        if n not in mul:
            raise E.exc('TypeError', 'bad keyword')
        if isinstance(v, Frac):
            E.unsupported('fractional timedelta')
        if isinstance(v, float):
            if v * mul[n] != int(v * mul[n]):
                E.unsupported('fractional timedelta')
            us = X.add(us, int(v * mul[n]))
            continue
        if not Lb.is_num(v):
            raise E.exc('TypeError', 'unsupported type for timedelta')
        us = X.add(us, X.mulc(Lb.toint(v), mul[n]))
    lim = 999999999 * DAY
    if not E.decide(X.inset(us, ((-lim, lim + DAY - 1),))):
        raise E.exc('OverflowError', 'timedelta')
    return TD(us)


def strptime(E, a, k):
    s, f = a[0], a[1].py()
    if f is None:
        E.unsupported('strptime format')
    if not isinstance(s, Str):
        raise E.exc('TypeError', 'strptime argument must be string')
    p = s.py()
    if p is not None and all(x in 'ymdHMSY' for x in [f[i + 1] for i in range(len(f) - 1) if f[i] == '%']):
        import datetime
        try:
            d = datetime.datetime.strptime(p, f)
        except ValueError:
            raise E.exc('ValueError', 'time data does not match')
        return DT(f=dict(zip(FIELDS, (d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond))))
    it = s.items()
    if it is None:
        E.unsupported('strptime of symbolic-length string')
    # every directive takes exactly two characters when the length leaves no slack
    segs = []
    i = 0
    n = 0
    while i < len(f):
        if f[i] == '%' and i + 1 < len(f):
            if f[i + 1] not in 'ymdHMSY':
                E.unsupported('strptime directive')
            w = 4 if f[i + 1] == 'Y' else 2
            segs.append((f[i + 1], n, w))
            n += w
            i += 2
        else:
            segs.append((None, n, ord(f[i])))
            n += 1
            i += 1
    if len(it) != n:
        if len(it) > n:
            raise E.exc('ValueError', 'unconverted data remains')
        E.unsupported('strptime with short fields')
    ok = True
    v = {}
    odd = []
    rng = {'y': (0, 99), 'm': (1, 12), 'd': (1, 31), 'H': (0, 23), 'M': (0, 59), 'S': (0, 61), 'Y': (0, 9999)}
    for d, pos, w in segs:
        if d is None:
            ok = X.and_(ok, X.eq(it[pos], w))
            continue
        x = 0
        for c in it[pos:pos + w]:
            ok = X.and_(ok, Lb.digit_valid(c, 10))
            x = X.add(X.mulc(x, 10), Lb.digit_val(c, 10))
            if isinstance(c, T) and c.op != 'hexc' and (c.lo is None or c.lo <= 32):
                odd.append(X.inset(c, ((9, 13), (32, 32))))
        ok = X.and_(ok, X.inset(x, (rng[d],)))
        v[d] = x
    if not E.decide(ok):
        if odd and E.decide(X.or_(*odd)):
            E.unsupported('strptime of blanks')
        raise E.exc('ValueError', 'time data does not match format')
    if 'Y' in v:
        y = v['Y']
    elif 'y' in v:
        y = X.add(v['y'], X.ite(X.le(v['y'], 68), 2000, 1900))
    else:
        y = 1900
    return mk(E, y, v.get('m', 1), v.get('d', 1), v.get('H', 0), v.get('M', 0), v.get('S', 0))


def two(x):
    return (X.hexc(X.mod(X.div(x, 10), 10)), X.hexc(X.mod(x, 10)))


def utcoffset(E, d):
    if d.tz is None:
        return None
    return E.call(E.getattr(d.tz, 'utcoffset'), [d], {})


def strftime(E, d, a):
    f = a[0].py()
    if f is None or d.f is None:
        E.unsupported('strftime')
    if not E.decide(X.le(1900, d.f['year'])):
        raise E.exc('ValueError', 'year is before 1900')
    out = []
    i = 0
    m = {'m': 'month', 'd': 'day', 'H': 'hour', 'M': 'minute', 'S': 'second'}
    while i < len(f):
        if f[i] != '%':
            out.append(ord(f[i]))
            i += 1
            continue
        c = f[i + 1]
        i += 2
        if c == '%':
            out.append(37)
        elif c == 'y':
            out += two(X.mod(d.f['year'], 100))
        elif c == 'Y':
            y = d.f['year']
            out += [X.hexc(X.mod(X.div(y, 10 ** j), 10)) for j in (3, 2, 1, 0)]
        elif c in m:
            out += two(d.f[m[c]])
        elif c == 'z':
            o = utcoffset(E, d)
            if o is not None:
                us = o.us
                if not E.decide(X.eq(X.mod(us, 60 * US), 0)):
                    E.unsupported('sub-minute offset')
                mn = X.div(us, 60 * US)
                if not E.decide(X.inset(mn, ((-1439, 1439),))):
                    raise E.exc('ValueError', 'utcoffset')
                if E.decide(X.lt(mn, 0)):
                    out.append(45)
                    mn = X.neg(mn)
                else:
                    out.append(43)
                out += two(X.div(mn, 60))
                out += two(X.mod(mn, 60))
        else:
            E.unsupported('strftime %%%s' % c)
    return Str('s', (tuple(out),))


def attr(E, o, name):
    if isinstance(o, TD):
        if name == 'days':
            return X.div(o.us, DAY)
        if name == 'seconds':
            return X.div(X.mod(o.us, DAY), US)
        if name == 'microseconds':
            return X.mod(o.us, US)
        if name == 'total_seconds':
            return BI(name, lambda E, a, k: Frac(o.us, US) if isinstance(o.us, T) else o.us / US)
        return NotImplemented
    if name in FIELDS:
        if o.f is None:
            E.unsupported('field of a computed datetime')
        return o.f[name]
    if name == 'tzinfo':
        return o.tz
    if name == 'strftime':
        return BI(name, lambda E, a, k: strftime(E, o, a))
    if name == 'utcoffset':
        return BI(name, lambda E, a, k: utcoffset(E, o))
    if name == 'replace':
        def rep(E, a, k):
            if o.f is None:
                if set(k) <= {'tzinfo'} and not a:
                    return DT(tot=o.tot, tz=k['tzinfo'])
                E.unsupported('replace')
            v = dict(o.f)
            v['tzinfo'] = o.tz
            v.update(k)
            return c_datetime(E, [], v)
        return BI(name, rep)
    if name == 'toordinal':
        return BI(name, lambda E, a, k: X.div(total(E, o), DAY))
    return NotImplemented


EPOCH_T = 719163 * DAY


def utcfromtimestamp(E, a, k):
    v = a[0]
    if not Lb.is_num(v):
        E.unsupported('timestamp')
    v = Lb.toint(v)
    if not E.decide(X.inset(v, ((-62135596800, 253402300799),))):
        raise E.exc('ValueError', 'timestamp out of range')
    return DT(tot=X.add(EPOCH_T, X.mulc(v, US)))


def module(E):
    dt = BType('datetime', c_datetime)
    td = BType('timedelta', c_timedelta)
    tz = BType('tzinfo', None)
    dt.attrs = {'strptime': BI('strptime', strptime), 'utcfromtimestamp': BI('utcfromtimestamp', utcfromtimestamp)}
    un = lambda n: BI(n, lambda E, a, k: E.unsupported('datetime.' + n))
    for n in ('now', 'utcnow', 'today', 'fromtimestamp', 'fromordinal', 'combine'):
        dt.attrs[n] = un(n)
    td.attrs = {}
    E.modtypes['datetime'] = dt
    E.modtypes['timedelta'] = td
    return {'datetime': dt, 'timedelta': td, 'tzinfo': tz, 'date': BType('date', None), 'time': BType('time', None), 'MINYEAR': 1, 'MAXYEAR': 9999}
