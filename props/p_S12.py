from vp import *
from delspec import *
from messaging.sms import SmsDeliver

MDAYS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def valid(o):
    """fields of a 7-octet timestamp, None when it is not a date"""
    for x in o[:6]:
        if x % 16 > 9 or x // 16 > 9:
            return None
    y, mo, d, h, mi, s = [10 * (x % 16) + x // 16 for x in o[:6]]
    if not (1 <= mo and mo <= 12 and h <= 23 and mi <= 59 and s <= 59):
        return None
    m = MDAYS[mo - 1]
    if mo == 2 and y % 4 == 0:
        m = 29
    if d < 1 or d > m:
        return None
    return (y, mo, d, h, mi, s)


def printed(f):
    return '%02d/%02d/%02d %02d:%02d:%02d' % f


def report(ref, rec, scts, dt, status, first=0x06):
    return [0, first, ref] + rec + scts + dt + status


def verify(sms, ref, recipient, a, b, status):
    """a, b: fields of the two timestamps or None; status: octet or None"""
    check_eq(sms.udh.concat.ref, ref, 'message reference')
    sr = sms.sr
    check_eq(sr['recipient'], recipient, 'recipient')
    check_eq(sr['scts'], None if a is None else local_date(*a), 'service centre timestamp')
    check_eq(sms.date, None if a is None else local_date(*a), 'date of the report')
    check_eq(sr['dt'], None if b is None else local_date(*b), 'discharge timestamp')
    check_eq(sr['status'], status, 'status octet, None when missing')
    if status is None:
        check_eq(sms.number, 'SR-UNKNOWN', 'sender of a report without status')
    elif status == 0:
        check_eq(sms.number, 'SR-OK', 'sender of a delivered report')
    elif status == 0x30:
        check_eq(sms.number, 'SR-STORED', 'sender of a stored report')
    else:
        check_eq(sms.number, 'SR-UNKNOWN', 'sender of any other report')
    t = recipient + '|' + ('' if a is None else printed(a)) + '|'
    if (status is None or status == 0) and b is not None:
        t += printed(b)
    check_eq(sms.text, t, 'text joins recipient, submission time and discharge time')
    check_eq(sms.fmt, 8, 'alphabet of a report')
    check_eq(sms.type, 3, 'type of a report')


A = (9, 11, 5, 23, 59, 8)
B = (10, 1, 2, 3, 4, 5)
R = [4, 0x81, 0x21, 0x43]


@harness(n=Int(0, 20), d=Ints('n', 0, 9), t=Int(0, 255), ref=Int(0, 255), status=Int(-1, 255), c=Bool(), split=['n', 'c'])
def fields(n, d, t, ref, status, c):
    r = [n, t] + semi(d)
    pdu = report(ref, r, stamp(9, 11, 5, 23, 59, 8, 0), stamp(10, 1, 2, 3, 4, 5, -8), [status] if status >= 0 else [])
    if c:
        pdu = [3, 0x91, 0x21, 0x43] + pdu[1:]
    sms = SmsDeliver(hx(pdu))
    verify(sms, ref, ('+' if (t >> 4) & 7 == 1 else '') + ''.join(['%d' % x for x in d]), A, B, status if status >= 0 else None)
    if c:
        check_eq(sms.csca, '+1234', 'SMSC address of a report')


@harness(a=Ints(7), b=Ints(7), status=Int(-1, 255), which=Bool(), split=['which'])
def any_timestamps(a, b, status, which):
    if which:
        b = stamp(10, 1, 2, 3, 4, 5, -8)
    else:
        a = stamp(9, 11, 5, 23, 59, 8, 8)
    st = [status] if status >= 0 else []
    sms = SmsDeliver(hx(report(9, R, a, b, st)))
    verify(sms, 9, '1234', valid(a), valid(b), status if status >= 0 else None)


@harness(k=Int(0, 13), a=Ints(14, allowed=[(0x10, 0x11)]), split=['k'])
def truncated(k, a):
    # a report ending within its timestamps still decodes
    sms = SmsDeliver(hx(report(9, R, a[:k], [], [])))
    f = valid(a) if k >= 6 else None
    g = valid(a[7:]) if k >= 13 else None
    verify(sms, 9, '1234', f, g, None)


@harness(first=Enum('message', 'header', 'report', 'cut'), ref=Int(0, 255), a=Ints(2), n=Int(0, 8), d=Ints('n', 0, 9), status=Int(-1, 255), k=Enum(0, 5, 7, 14),
         split=['first', 'n', 'k'], quick={'n': [0, 3, 8]})
def decoded_again(first, ref, a, n, d, status, k):
    """a report given to an object that held another PDU"""
    if first == 'message':
        pdu = deliver([2] + a, dcs=4, smsc_=[3, 0x91, 0x21, 0x43])
    elif first == 'header':
        pdu = deliver([7, 5, 0, 3, a[0], 2, 1, a[1]], dcs=4, first=0x44)
    elif first == 'report':
        pdu = report(a[0], R, stamp(9, 11, 5, 23, 59, 8, 0), stamp(10, 1, 2, 3, 4, 5, -8), [0])
    else:
        pdu = report(a[0], R, [], [], [])
    sms = SmsDeliver(hx(pdu))
    both = stamp(9, 11, 5, 23, 59, 8, 0) + stamp(10, 1, 2, 3, 4, 5, -8)
    st = [status] if status >= 0 and k == 14 else []
    sms.pdu = hx(report(ref, [n, 0x81] + semi(d), both[:k], [], st))
    verify(sms, ref, ''.join(['%d' % x for x in d]), A if k >= 7 else None, B if k == 14 else None, st[0] if st else None)
    check(sms.csca is None and sms.pid is None and sms.dcs is None, 'no field of the other PDU')
    check_eq(len(sms.udh.headers), 0, 'no element of the other PDU')
    check(sms.udh.ports is None, 'no ports of the other PDU')


@harness(n=Int(0, 8), d=Ints('n', 0, 9), m=Int(0, 8), e=Ints('m', 0, 9), ref=Int(0, 255), ref2=Int(0, 255), status=Int(-1, 255), status2=Int(-1, 255), k=Enum(0, 7, 14), j=Enum(0, 7, 14),
         split=['n', 'm', 'k', 'j'], quick={'n': [0, 4], 'm': [3]}, thorough={'n': [0, 1, 4, 7], 'm': [0, 3, 8]})
def two_reports(n, d, m, e, ref, ref2, status, status2, k, j):
    """reports held at the same time"""
    one = stamp(9, 11, 5, 23, 59, 8, 0) + stamp(10, 1, 2, 3, 4, 5, -8)
    two = stamp(10, 1, 2, 3, 4, 5, 0) + stamp(9, 11, 5, 23, 59, 8, 8)
    st = [status] if status >= 0 and k == 14 else []
    st2 = [status2] if status2 >= 0 and j == 14 else []
    a = SmsDeliver(hx(report(ref, [n, 0x81] + semi(d), one[:k], [], st)))
    b = SmsDeliver(hx(report(ref2, [m, 0x91] + semi(e), two[:j], [], st2)))
    verify(a, ref, ''.join(['%d' % x for x in d]), A if k >= 7 else None, B if k == 14 else None, st[0] if st else None)
    verify(b, ref2, '+' + ''.join(['%d' % x for x in e]), B if j >= 7 else None, A if j == 14 else None, st2[0] if st2 else None)
    # changing what one tells leaves the other
    a.sr['status'] = 77
    check_eq(b.sr['status'], st2[0] if st2 else None, 'the reports share nothing')
