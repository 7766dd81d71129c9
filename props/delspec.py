# SMS-DELIVER PDUs written from GSM 03.40
from smspec import *
from datetime import datetime, timedelta

STAMP = [0x90, 0x11, 0x50, 0x32, 0x95, 0x80, 0x00]      # 2009-11-05 23:59:08 UTC


def deliver(ud, dcs=0, first=0x04, pid=0, sender=None, stamp=None, smsc_=None):
    """octets of an SMS-DELIVER PDU; ud: user data length octet and user data"""
    if sender is None:
        sender = [4, 0x81, 0x21, 0x43]
    return (smsc_ or [0]) + [first] + sender + [pid, dcs] + (stamp or STAMP) + ud


def stamp(y, mo, d, h, mi, s, q):
    return [dec2(y), dec2(mo), dec2(d), dec2(h), dec2(mi), dec2(s), zone_octet(15 * q)]


def local_date(y, mo, d, h, mi, s):
    return datetime(1900 + y if y >= 69 else 2000 + y, mo, d, h, mi, s)
