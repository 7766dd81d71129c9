from vp import *
from smspec import rel_period
from datetime import timedelta
from messaging.utils import timedelta_to_relative_validity as rel
from messaging.sms import SmsSubmit

LO, HI = 300, 63 * 7 * 86400


@harness(secs=Int(300, 63 * 7 * 86400), us=Int(0, 999999))
def in_range(secs, us):
    assume(secs < HI or us == 0)
    v = rel(timedelta(seconds=secs, microseconds=us))
    check(0 <= v and v <= 255, 'the period is an octet')
    check(rel_period(v) <= secs, 'the period is not longer than the duration')
    if v < 255:
        check(rel_period(v + 1) > secs, 'the next period is longer than the duration')


@harness(days=Int(0, 441), secs=Int(0, 86399))
def days_and_seconds(days, secs):
    t = days * 86400 + secs
    assume(LO <= t and t <= HI)
    v = rel(timedelta(days=days, seconds=secs))
    check(0 <= v and v <= 255, 'the period is an octet')
    check(rel_period(v) <= t, 'the period is not longer than the duration')
    if v < 255:
        check(rel_period(v + 1) > t, 'the next period is longer than the duration')


@harness(secs=Int(-10**9, 10**9), us=Int(0, 999999))
def out_of_range(secs, us):
    assume(secs < LO or secs > HI or (secs == HI and us > 0))
    check(raises(ValueError, rel, timedelta(seconds=secs, microseconds=us)), 'other durations raise ValueError')


@harness(secs=Int(-10**6, 10**9))
def through_submit(secs):
    sms = SmsSubmit('612345678', 'x')
    sms.ref = 1
    sms.validity = timedelta(seconds=secs)
    if secs < LO or secs > HI:
        check(raises(ValueError, sms.to_pdu), 'a message with another duration is refused')
    else:
        p = sms.to_pdu()[0].pdu
        v = int(p[24:26], 16)
        check(rel_period(v) <= secs and (v == 255 or rel_period(v + 1) > secs), 'the validity octet of the message is the period rounded down')
