from vp import *
from datetime import datetime, timedelta, date
from messaging.sms import SmsSubmit


def is_number(s):
    """optional plus sign and 3 to 20 digits, or empty; a final newline is ignored"""
    o = octets(s)
    n = len(o)
    if n == 0:
        return True
    forms = []
    for plus in (0, 1):
        for nl in (0, 1):
            d = o[plus:n - nl]
            if 3 <= n - plus - nl and n - plus - nl <= 20:
                c = [between(48, x, 57) for x in d]
                if plus:
                    c.append(o[0] == 43)
                if nl:
                    c.append(o[n - 1] == 10)
                forms.append(allof(c))
    return anyof(forms)


@harness(n=Int(0, 24), s=Str('n'), split=['n'])
def number(n, s):
    sms = SmsSubmit('+34600', 'x')
    r = attempt(setattr, sms, 'number', s)
    if is_number(s):
        check_eq(r[0], None, 'a valid number is accepted')
        check_eq(sms.number, s, 'the number is stored')
        m = SmsSubmit(s, 'x')
        check_eq(m.number, s, 'a valid number is accepted by the constructor')
    else:
        check_eq(r[0], 'ValueError', 'an invalid number raises ValueError')
        check_eq(sms.number, '+34600', 'the previous number stays')
        check(raises(ValueError, SmsSubmit, s, 'x'), 'an invalid number is refused by the constructor')


@harness(n=Int(0, 24), s=Str('n'), split=['n'])
def csca(n, s):
    sms = SmsSubmit('+34600', 'x')
    sms.csca = '123456'
    r = attempt(setattr, sms, 'csca', s)
    if is_number(s):
        check_eq(r[0], None, 'a valid SMSC number is accepted')
        check_eq(sms.csca, s, 'the SMSC number is stored')
    else:
        check_eq(r[0], 'ValueError', 'an invalid SMSC number raises ValueError')
        check_eq(sms.csca, '123456', 'the previous SMSC number stays')
    check_eq(sms.number, '+34600', 'the destination is not changed')


DIGITS = [(10, 10), (32, 32), (43, 43), (48, 57), (0xb2, 0xb2), (0x660, 0x669), (0x966, 0x96f), (0xff10, 0xff19)]


def unicode_numbers(s):
    sms = SmsSubmit('+34600', 'x')
    sms.csca = '123456'
    a = attempt(setattr, sms, 'number', s)
    b = attempt(setattr, sms, 'csca', s)
    if is_number(s):
        check_eq((a[0], b[0]), (None, None), 'a valid number is accepted')
        check_eq((sms.number, sms.csca), (s, s), 'the numbers are stored')
    else:
        check_eq((a[0], b[0]), ('ValueError', 'ValueError'), 'an invalid number raises ValueError')
        check_eq((sms.number, sms.csca), ('+34600', '123456'), 'the previous numbers stay')


@harness(n=Int(0, 24), s=Uni('n', 0, 0xd7ff), split=['n'])
def unicode_number(n, s):
    unicode_numbers(s)


@harness(n=Int(0, 24), s=Uni('n', allowed=DIGITS), split=['n'])
def unicode_digits(n, s):
    """the digits of other scripts are not digits of a number"""
    unicode_numbers(s)


@harness(plus=Bool(), n=Int(3, 20), d=Str('n', 48, 57), split=['n', 'plus'])
def valid_numbers(plus, n, d):
    s = ('+' if plus else '') + d
    sms = SmsSubmit(s, 'x')
    sms.csca = s
    check_eq((sms.number, sms.csca), (s, s), 'optional plus sign and 3 to 20 digits are accepted')
    check(raises(ValueError, setattr, sms, 'number', s + '1' * (21 - n)), 'more than 20 digits are refused')
    check(raises(ValueError, setattr, sms, 'number', s[:-1] + 'a'), 'a letter is refused')
    check(raises(ValueError, setattr, sms, 'number', ' ' + s), 'a space is refused')
    check_eq((sms.number, sms.csca), (s, s), 'the previous numbers stay')


@harness(k=Int(None, None), prev=Enum(None, 0, 1, 2, 3))
def message_class(k, prev):
    sms = SmsSubmit('+34600', 'x')
    if prev is not None:
        sms.klass = prev
    r = attempt(setattr, sms, 'klass', k)
    if 0 <= k and k <= 3:
        check_eq(r[0], None, 'classes 0 to 3 are accepted')
        check_eq(sms.klass, k, 'the class is stored')
    else:
        check(r[0] in ('ValueError', 'TypeError'), 'other integers are refused')
        check_eq(sms.klass, prev, 'the previous class stays')


@harness(v=Enum('1', u'2', 1.0, None, (1,), 'x', 2.5))
def message_class_types(v):
    sms = SmsSubmit('+34600', 'x')
    sms.klass = 2
    check(raises((TypeError, ValueError), setattr, sms, 'klass', v), 'anything but an integer is refused')
    check_eq(sms.klass, 2, 'the previous class stays')


@harness(days=Int(-1000, 1000), secs=Int(0, 86399), kind=Enum('none', 'duration', 'datetime', 'date', 'int', 'str', 'tuple'))
def validity(days, secs, kind):
    sms = SmsSubmit('+34600', 'x')
    prev = timedelta(hours=5)
    sms.validity = prev
    if kind == 'none':
        v = None
    elif kind == 'duration':
        v = timedelta(days=days, seconds=secs)
    elif kind == 'datetime':
        v = datetime(2010, 1, 2, 3, 4, 5)
    elif kind == 'int':
        v = days
    elif kind == 'date':
        v = 5.5
    elif kind == 'str':
        v = '+0100'
    else:
        v = [days]
    r = attempt(setattr, sms, 'validity', v)
    if kind in ('none', 'duration', 'datetime'):
        check_eq(r[0], None, 'None, durations and datetimes are accepted')
        check_eq(sms.validity, v, 'the validity is stored')
    else:
        check(r[0] in ('TypeError', 'ValueError'), 'other validities are refused')
        check_eq(sms.validity, prev, 'the previous validity stays')


@harness(fmt=Int(None, None), klass=Enum(None, 1))
def alphabet(fmt, klass):
    sms = SmsSubmit('+34600', 'x')
    sms.ref = 1
    if klass is not None:
        sms.klass = klass
    sms.fmt = fmt
    r = attempt(sms.to_pdu)
    if fmt in (0, 4, 8):
        check_eq(r[0], None, '7-bit, 8-bit and UCS2 are accepted')
        check_eq(len(r[1]), 1, 'and encoded')
    else:
        check(r[0] in ('ValueError', 'TypeError'), 'any other alphabet is refused')


NUMBERS = [('123', True), ('+34616', True), ('12', False), ('1-2', False), ('', True), (None, True), ('+1' * 3, False)]
VALUES = {'number': NUMBERS, 'csca': NUMBERS,
          'klass': [(0, True), (3, True), (4, False), (-1, False), ('1', False), (None, False), (2, True)],
          'validity': [(None, True), (timedelta(1), True), (datetime(2010, 1, 2), True), (5, False), ('x', False), (0, False), (timedelta(2), True)]}


@harness(a=Enum(*sorted(VALUES)), b=Enum(*sorted(VALUES)), u=Int(0, 6), v=Int(0, 6), w=Int(0, 6), split=['a', 'b', 'u', 'v', 'w'], quick={'w': [0, 3, 4]}, thorough={})
def histories(a, b, u, v, w):
    """assignments one after the other: each is accepted or refused by its own value alone"""
    sms = SmsSubmit('+34600', 'x')
    other = SmsSubmit('600', 'y')
    want = {'number': '+34600', 'csca': None, 'klass': None, 'validity': None}
    for name, i in ((a, u), (b, v), (a, w), (a, w), (b, u), (a, u), (b, v), (a, w), (b, w)):
        value, good = VALUES[name][i]
        e, r = attempt(setattr, sms, name, value)
        if good:
            check_eq(e, None, 'a valid value is accepted')
            want[name] = value
        else:
            check(e in ('ValueError', 'TypeError'), 'an invalid value is refused')
        check_eq((sms.number, sms.csca, sms.klass, sms.validity), (want['number'], want['csca'], want['klass'], want['validity']), 'the values accepted last')
    check_eq((other.number, other.csca, other.klass, other.validity), ('600', None, None, None), 'another message is not touched')
