# GSM 03.40 / 03.41 layouts, written from the standard
from bits import *
import bits


def semi(digits):
    """swapped semi-octets of a digit list, 0xf filler"""
    d = list(digits)
    if len(d) % 2:
        d.append(15)
    return [d[i] + 16 * d[i + 1] for i in range(0, len(d), 2)]


def digits_of(s):
    return [ord(c) - 48 for c in s]


def toa(plus):
    return 0x91 if plus else 0x81


def smsc(digits, plus):
    """SMSC address field"""
    if not digits:
        return [0]
    b = semi(digits)
    return [len(b) + 1, toa(plus)] + b


def dest(digits, plus):
    return [len(digits), toa(plus)] + semi(digits)


def ud7(septs):
    return [len(septs)] + bits.pack(septs)


def ud8(octs):
    return [len(octs)] + octs


def ucs2(codes):
    out = []
    for c in codes:
        out.append(c >> 8)
        out.append(c & 0xff)
    return out


def ud16(codes):
    return [2 * len(codes)] + ucs2(codes)


def rel_period(v):
    """seconds of the relative validity octet v (GSM 03.40 9.2.3.12.1)"""
    if v <= 143:
        return (v + 1) * 300
    if v <= 167:
        return 12 * 3600 + (v - 143) * 1800
    if v <= 196:
        return (v - 166) * 86400
    return (v - 192) * 7 * 86400


def dec2(n):
    """swapped decimal digits of 0..99"""
    return n // 10 + 16 * (n % 10)


def zone_octet(minutes):
    q = abs(minutes) // 15
    return (q // 10 + (8 if minutes < 0 else 0)) + 16 * (q % 10)
