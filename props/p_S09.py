from vp import *
from delspec import *
import gsm
from messaging.sms import SmsDeliver


def num(digits, plus):
    return ('+' if plus else '') + ''.join(['%d' % x for x in digits])


@harness(n=Int(0, 20), d=Ints('n', 0, 9), t=Int(0, 255), c=Int(0, 20), cd=Ints('c', 0, 9), ct=Int(0, 255), split=['n', 'c'])
def numeric_addresses(n, d, t, c, cd, ct):
    assume((t >> 4) & 7 != 5)
    sm = [1 + (c + 1) // 2, ct] + semi(cd) if c else [0]
    sms = SmsDeliver(hx(deliver([0], sender=[n, t] + semi(d), smsc_=sm)))
    check_eq(sms.number, num(d, (t >> 4) & 7 == 1), 'sender digits, plus sign for international')
    if c:
        check_eq(sms.csca, num(cd, (ct >> 4) & 7 == 1), 'SMSC digits, plus sign for international')
    else:
        check(sms.csca is None, 'no SMSC address')
    check(sms.sr is None, 'not a status report')
    check_eq(sms.text, u'', 'empty text')


@harness(n=Int(0, 11), g=Ints('n', allowed=gsm.R_SEPT), t=Int(0, 255), spare=Int(0, 1), split=['n'])
def alphanumeric_sender(n, g, t, spare):
    assume((t >> 4) & 7 == 5)
    b = pack(g)
    sms = SmsDeliver(hx(deliver([0], sender=[(7 * n + 3) // 4, t] + b)).upper())
    check_eq(sms.number, gsm.dec(g, 'strict'), 'alphanumeric sender is the GSM text encoded')


@harness(n=Int(0, 5), g=Ints('n', 0, 127), split=['n'], bounded='alphanumeric senders with extension characters up to 5 septets')
def alphanumeric_escape(n, g):
    sms = SmsDeliver(hx(deliver([0], sender=[(7 * n + 3) // 4, 0xd0] + pack(g))))
    check_eq(sms.number, gsm.dec(g, 'strict'), 'alphanumeric sender is the GSM text encoded')


@harness(pid=Int(0, 255), dcs=Int(0, 255), first=Int(0, 255), upper=Bool())
def protocol_fields(pid, dcs, first, upper):
    assume(first & 0x43 == 0)
    h = hx(deliver([0], pid=pid, dcs=dcs, first=first))
    sms = SmsDeliver(h.upper() if upper else h)
    check_eq(sms.pid, pid, 'protocol id')
    check_eq(sms.dcs, dcs, 'data coding scheme')
    check_eq(sms.mtype, first, 'message type octet')
    if dcs & 0x0c == 0:
        check_eq(sms.fmt, 0, 'alphabet: GSM')
    elif dcs & 0x04:
        check_eq(sms.fmt, 4, 'alphabet: 8-bit')
    else:
        check_eq(sms.fmt, 8, 'alphabet: UCS2')
    d = sms.data
    check_eq((d['pid'], d['dcs'], d['fmt'], d['number'], d['text']), (pid, dcs, sms.fmt, '1234', u''), 'data dictionary')
    check(d['csca'] is None and d['sr'] is None and d['type'] is None and 'ref' not in d, 'absent fields')
    check_eq(d['date'], sms.date, 'date in the data dictionary')


@harness(y=Int(0, 99), mo=Int(1, 12), d=Int(1, 28), h=Int(0, 23), mi=Int(0, 59), s=Int(0, 59), q=Int(-79, 79))
def timestamp(y, mo, d, h, mi, s, q):
    sms = SmsDeliver(hx(deliver([0], stamp=stamp(y, mo, d, h, mi, s, q))))
    check_eq(sms.date, local_date(y, mo, d, h, mi, s) - timedelta(minutes=15 * q), 'date is the timestamp converted to UTC')


@harness(y=Int(0, 99), mo=Int(1, 12), d=Int(29, 31), q=Int(-79, 79))
def timestamp_month_ends(y, mo, d, q):
    assume(mo != 2 and (d < 31 or mo in (1, 3, 5, 7, 8, 10, 12)) or d == 29 and y % 4 == 0)
    sms = SmsDeliver(hx(deliver([0], stamp=stamp(y, mo, d, 23, 59, 59, q))))
    check_eq(sms.date, local_date(y, mo, d, 23, 59, 59) - timedelta(minutes=15 * q), 'date is the timestamp converted to UTC')


@harness(n=Int(0, 20), g=Ints('n', allowed=gsm.R_SEPT), extra=Enum('0', 'a', 'F'), split=['n', 'extra'], bounded='user data up to 20 septets')
def odd_length(n, g, extra):
    h = hx(deliver(ud7(g), sender=[5, 0x91] + semi([1, 2, 3, 4, 5])))
    check(raises(ValueError, SmsDeliver, h + extra), 'an odd-length PDU is rejected in strict mode')
    check(raises(ValueError, SmsDeliver, h[:-1]), 'an odd-length PDU is rejected in strict mode (digit missing)')
    a = SmsDeliver(h + extra, strict=False)
    b = SmsDeliver(h)
    check_eq((a.text, a.number, a.date, a.pid, a.dcs, a.csca, a.fmt, a.mtype), (b.text, b.number, b.date, b.pid, b.dcs, b.csca, b.fmt, b.mtype),
             'in lenient mode only the last digit is dropped')
    c = SmsDeliver(h, strict=False)
    check_eq((c.text, c.number), (b.text, b.number), 'lenient mode changes nothing for an even-length PDU')
    check_eq((b.number, b.text), ('+12345', b.text), 'sender of the odd-length PDU')


@harness(n=Int(0, 8), d=Ints('n', 0, 9), t=Enum(0x81, 0x91), c=Int(0, 5), cd=Ints('c', 0, 9), m=Int(0, 8), e=Ints('m', 0, 9),
         f=Int(0, 5), fd=Ints('f', 0, 9), fields=Ints(6), y=Int(0, 99), q=Int(-79, 79), split=['n', 'c', 'm', 'f', 't'],
         quick={'n': [0, 1, 8], 'm': [0, 7], 'c': [0, 3], 'f': [0, 4], 't': [0x81, 0x91]}, thorough={'n': [0, 1, 7, 8], 'm': [0, 1, 8], 'c': [0, 1, 4], 'f': [0, 1, 4], 't': [0x81, 0x91]})
def decoded_again(n, d, t, c, cd, m, e, f, fd, fields, y, q):
    """an object given a second PDU reports the fields of the second"""
    u = ct = 0x91 + 0x81 - t
    assume(fields[0] & 0x43 == 0 and fields[1] & 0x43 == 0)
    sm = [1 + (f + 1) // 2, t] + semi(fd) if f else [0]
    sms = SmsDeliver(hx(deliver([0], sender=[m, u] + semi(e), smsc_=sm, first=fields[0], pid=fields[2], dcs=fields[4])))
    sm = [1 + (c + 1) // 2, ct] + semi(cd) if c else [0]
    sms.pdu = hx(deliver([0], sender=[n, t] + semi(d), smsc_=sm, first=fields[1], pid=fields[3], dcs=fields[5], stamp=stamp(y, 2, 28, 23, 59, 58, q)))
    check_eq(sms.number, num(d, (t >> 4) & 7 == 1), 'sender of the second')
    if c:
        check_eq(sms.csca, num(cd, (ct >> 4) & 7 == 1), 'SMSC of the second')
    else:
        check(sms.csca is None, 'no SMSC address')
    check_eq((sms.mtype, sms.pid, sms.dcs), (fields[1], fields[3], fields[5]), 'octets of the second')
    check_eq(sms.fmt, 0 if fields[5] & 0x0c == 0 else 4 if fields[5] & 4 else 8, 'alphabet of the second')
    check_eq(sms.date, local_date(y, 2, 28, 23, 59, 58) - timedelta(minutes=15 * q), 'date of the second')
