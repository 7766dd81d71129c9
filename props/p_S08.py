from vp import *
from smspec import *
from datetime import datetime, timedelta, tzinfo
from messaging.utils import FixedOffset, datetime_to_absolute_validity as absv
from messaging.sms import SmsSubmit


def expected(y, mo, d, h, mi, s, off):
    return [dec2(y % 100), dec2(mo), dec2(d), dec2(h), dec2(mi), dec2(s), zone_octet(off)]


@harness(y=Int(1900, 9999), mo=Int(1, 12), d=Int(1, 28), h=Int(0, 23), mi=Int(0, 59), s=Int(0, 59), q=Int(-56, 56), aware=Bool())
def any_date(y, mo, d, h, mi, s, q, aware):
    if aware:
        t = datetime(y, mo, d, h, mi, s, tzinfo=FixedOffset(15 * q, 'zone'))
        check_eq(absv(t), expected(y, mo, d, h, mi, s, 15 * q), 'date, time and offset')
    else:
        check_eq(absv(datetime(y, mo, d, h, mi, s)), expected(y, mo, d, h, mi, s, 0), 'date and time, no offset')


@harness(y=Int(1900, 9999), mo=Int(1, 12), d=Int(29, 31), q=Int(-56, 56))
def month_ends(y, mo, d, q):
    assume(mo != 2 and (d < 31 or mo in (1, 3, 5, 7, 8, 10, 12)) or d == 29 and y % 4 == 0 and (y % 100 != 0 or y % 400 == 0))
    t = datetime(y, mo, d, 23, 59, 58, 999999, FixedOffset(15 * q, 'zone'))
    check_eq(absv(t), expected(y, mo, d, 23, 59, 58, 15 * q), 'last days of the months')


@harness(hh=Int(0, 23), mm=Int(0, 59), neg=Bool())
def zone_text(hh, mm, neg):
    t = '%s%02d%02d' % ('-' if neg else '+', hh, mm)
    z = FixedOffset.from_timezone(t, 'name')
    off = 60 * hh + mm
    if neg:
        off = -off
    check_eq(z.utcoffset(None), timedelta(minutes=off), 'the zone text is read as its offset')
    check_eq(z.tzname(None), 'name', 'zone name')
    check_eq(z.dst(None), timedelta(0), 'no daylight saving')


@harness(minutes=Int(-1439, 1439))
def zone_minutes(minutes):
    check_eq(FixedOffset(minutes, 'n').utcoffset(None), timedelta(minutes=minutes), 'offset given in minutes')
    check_eq(FixedOffset(timedelta(minutes=minutes), 'n').utcoffset(None), timedelta(minutes=minutes), 'offset given as a duration')
    check_eq(FixedOffset.from_timezone('', 'n').utcoffset(None), timedelta(0), 'an empty zone is zero')


@harness(y=Int(1900, 2100), mo=Int(1, 12), d=Int(1, 28), h=Int(0, 23), q=Int(-56, 56))
def through_submit(y, mo, d, h, q):
    sms = SmsSubmit('612345678', 'x')
    sms.ref = 1
    sms.validity = datetime(y, mo, d, h, 5, 6, 0, FixedOffset(15 * q, 'zone'))
    b = unhex(sms.to_pdu()[0].pdu)
    check_eq(b[12:19], expected(y, mo, d, h, 5, 6, 15 * q), 'validity octets of the message')


class Zone(tzinfo):
    """a time zone that is not a FixedOffset: part of its offset is daylight saving"""

    def __init__(self, offset, dst):
        self.total = offset
        self.saving = dst

    def utcoffset(self, dt):
        return timedelta(minutes=self.total)

    def dst(self, dt):
        return timedelta(minutes=self.saving)

    def tzname(self, dt):
        return 'a name + or -'


@harness(y=Int(1900, 9999), mo=Int(1, 12), d=Int(1, 28), h=Int(0, 23), mi=Int(0, 59), q=Int(-56, 56), dst=Int(0, 4), us=Int(0, 999999))
def any_zone(y, mo, d, h, mi, q, dst, us):
    t = datetime(y, mo, d, h, mi, 7, us, Zone(15 * q, 15 * dst))
    check_eq(absv(t), expected(y, mo, d, h, mi, 7, 15 * q), 'date, time and offset in a zone of another kind')


class Summer(tzinfo):
    """a zone whose offset depends on the date"""

    def __init__(self, base):
        self.base = base

    def utcoffset(self, dt):
        return timedelta(minutes=self.base) + self.dst(dt)

    def dst(self, dt):
        return timedelta(hours=1) if 4 <= dt.month and dt.month <= 9 else timedelta(0)

    def tzname(self, dt):
        return None


@harness(y=Int(1900, 9999), mo=Int(1, 12), d=Int(1, 28), h=Int(0, 23), q=Int(-52, 52), mo2=Int(1, 12))
def summer_time(y, mo, d, h, q, mo2):
    z = Summer(15 * q)
    for m in (mo, mo2):
        off = 15 * q + (60 if 4 <= m and m <= 9 else 0)
        check_eq(absv(datetime(y, m, d, h, 1, 2, 0, z)), expected(y, m, d, h, 1, 2, off), 'the offset is the one of the date')


@harness(q=Int(-56, 56), q2=Int(-56, 56), h=Int(0, 23))
def two_dates(q, q2, h):
    """the second date is not given the offset of the first"""
    for x in (q, q2):
        check_eq(absv(datetime(2010, 5, 6, h, 8, 9, 0, FixedOffset(15 * x, 'zone'))), expected(2010, 5, 6, h, 8, 9, 15 * x), 'date, time and offset')
        check_eq(absv(datetime(2010, 5, 6, h, 8, 9)), expected(2010, 5, 6, h, 8, 9, 0), 'date and time, no offset')
