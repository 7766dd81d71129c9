from vp import *
from delspec import *
import gsm
import gsmcon
from messaging.sms import SmsSubmit, SmsDeliver

NUM = '612345678'
HEAD = 3 + 7 + 1                # octets before the data coding scheme


def carried(p):
    """SMS-DELIVER PDU with the user data of a submitted one"""
    b = unhex(p.pdu)
    return SmsDeliver(hx(deliver(b[HEAD + 1:], dcs=b[HEAD], first=0x04 | (b[1] & 0x40))))


def roundtrip(t, n, fmt, text_type):
    sms = SmsSubmit(NUM, t)
    sms.ref = 1
    pdus = sms.to_pdu()
    check_eq(len(pdus), n, 'number of parts')
    r = text_type()
    ref = None
    for i in range(n):
        d = carried(pdus[i])
        check_eq(d.fmt, fmt, 'the alphabet survives')
        if n == 1:
            check(d.udh is None, 'a single part has no header')
        else:
            c = d.udh.concat
            check_eq((c.cnt, c.seq), (pdus[i].cnt, pdus[i].seq), 'count and sequence agree with the sender')
            check_eq((c.cnt, c.seq), (n, i + 1), 'count and sequence')
            if ref is None:
                ref = c.ref
            check_eq(c.ref, ref, 'same reference in every part')
        r += d.text
    check_eq(r, t, 'the text survives')


def gtext(g):
    return u''.join([gsm.DEC1[x] for x in g])


@harness(n=Int(0, 160), g=Ints('n', allowed=gsm.R_SEPT), split=['n'])
def gsm_single(n, g):
    roundtrip(gtext(g), 1, 0, unicode)


@harness(n=Int(0, 4), t=Uni('n', 0, 0xffff), split=['n'], bounded='any text of up to 4 characters')
def any_short(n, t):
    e = gsm.enc(t)
    roundtrip(t, 1, 8 if e is None else 0, unicode)


@harness(m=Int(0, 16), k=Int(0, 16), a=Ints('m', allowed=gsm.R_SEPT), e=Ints(2, allowed=gsm.R_EXT), b=Ints('k', allowed=gsm.R_SEPT), split=['m', 'k'],
         quick={'m': [0, 1, 2, 3, 4, 5, 6, 7, 8, 9], 'k': [0, 1, 2, 3, 4, 5, 6, 7, 8]}, thorough={}, bounded='two extension characters at any distance up to 16')
def gsm_extension(m, k, a, e, b):
    roundtrip(gtext(a) + gsm.EXT[e[0]] + gtext(b) + gsm.EXT[e[1]], 1, 0, unicode)


@harness(n=Int(0, 160), s=Str('n', 0, 127), split=['n'], inductive=700)
def gsm_any(n, s):
    """every text of up to 160 septets: the codec by its contract, extension characters anywhere"""
    t, g = gsmcon.coded(s)
    roundtrip(t, 1, 0, unicode)


@harness(n=Int(161, 38760, cap=3000), s=Str('n', 0, 127), split=['n'], quick={'n': [161, 162, 200, 305, 306, 307, 458, 459, 460, 613]},
         thorough={'n': list(range(161, 310)) + list(range(310, 620, 7)) + [458, 459, 460, 461, 611, 612, 613, 1000]}, bounded='selected lengths, up to 8 parts', inductive=700)
def gsm_parts_any(n, s):
    t, g = gsmcon.coded(s)
    k = i = 0
    while i < len(g):
        i += 153
        if i < len(g) and g[i - 1] == 27:
            i -= 1
            assume(g[i - 1] != 27)          # an escape is not escaped
        k += 1
    roundtrip(t, k, 0, unicode)


@harness(n=Int(161, 39015), g=Ints('n', allowed=gsm.R_SEPT), split=['n'], quick={'n': list(range(161, 166)) + [180, 200, 250, 300, 304, 305, 306, 307, 308, 380, 458, 459, 460, 461, 612, 613, 1377, 1378, 1530, 1531, 2448, 5000, 39015]},
         thorough={'n': list(range(161, 310)) + list(range(310, 620, 7)) + [458, 459, 460, 461, 611, 612, 613]}, bounded='selected lengths, up to 255 parts')
def gsm_parts(n, g):
    roundtrip(gtext(g), (n + 152) // 153, 0, unicode)


@harness(m=Int(0, 320), a=Ints('m', allowed=gsm.R_SEPT), e=Ints(2, allowed=gsm.R_EXT), k=Int(0, 40), b=Ints('k', allowed=gsm.R_SEPT), w=Int(0, 320), c=Ints('w', allowed=gsm.R_SEPT),
         split=['m', 'k', 'w'], quick={'m': [149, 150, 151, 152, 153], 'k': [0, 1], 'w': [10, 150, 151]},
         thorough={'m': list(range(148, 158)) + list(range(300, 310)), 'k': list(range(0, 4)), 'w': [10, 149, 150, 151, 152, 153]}, bounded='two extension characters near a part boundary, up to 4 parts')
def gsm_parts_extension(m, a, e, k, b, w, c):
    t = gtext(a) + gsm.EXT[e[0]] + gtext(b) + gsm.EXT[e[1]] + gtext(c)
    sept = [0] * m + [27, 0] + [0] * k + [27, 0] + [0] * w
    assume(len(sept) > 160)
    n = i = 0
    while i < len(sept):
        i += 153
        if i < len(sept) and sept[i - 1] == 27:
            i -= 1
        n += 1
    roundtrip(t, n, 0, unicode)


@harness(n=Int(1, 17085), t=Uni('n', 0, 0xffff), split=['n'],
         quick={'n': list(range(1, 76)) + list(range(80, 130, 9)) + list(range(132, 138)) + [200, 201, 202, 203, 603, 604, 670, 671, 5000, 14471, 14941, 17085]}, thorough={'n': list(range(1, 300)) + [603, 604, 670, 671, 5000, 14471, 14941, 17085]}, bounded='selected lengths, up to 255 parts')
def ucs2(n, t):
    assume(gsm.enc(t[:1]) is None)
    roundtrip(t, 1 if n <= 70 else (n + 66) // 67, 8, unicode)


@harness(n=Int(0, 160), t=Str('n', allowed=[(32, 35), (37, 63), (65, 90), (97, 122)]), split=['n'])
def byte_text(n, t):
    roundtrip(t, 1, 0, unicode)


@harness(m=Int(1, 400), k=Int(0, 100), a=Ints('m', allowed=gsm.R_SEPT), e=Ints(1, allowed=gsm.R_EXT), x=Uni(1, 0, 0xffff), t=Uni('k', 0, 0xffff), split=['m', 'k'],
         quick={'m': list(range(1, 10)) + [30, 65, 66, 67, 68, 69, 70, 132, 133, 134, 160, 161, 200], 'k': [0, 1, 2, 70]}, thorough={'m': list(range(1, 75)) + [132, 133, 134, 160, 161, 200, 400], 'k': [0, 1, 2, 70]},
         bounded='the first character outside GSM after up to 400 characters')
def ucs2_later(m, k, a, e, x, t):
    assume(gsm.enc(x) is None)
    n = m + 2 + k
    roundtrip(gtext(a) + gsm.EXT[e[0]] + x + t, 1 if n <= 70 else (n + 66) // 67, 8, unicode)
