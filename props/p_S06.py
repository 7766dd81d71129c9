from vp import *
from smspec import *
import gsm
import gsmcon
from datetime import timedelta, datetime
from messaging.sms import SmsSubmit
from messaging.utils import FixedOffset

NUM = '612345678'
FIX = [0, 0x41, 7, 9, 0x81] + semi(digits_of(NUM)) + [0]


def parts(sms, dcs, n, FIX=FIX, smsc_len=1, vp=[]):
    """user data (length octet, header octets, rest) of the n parts"""
    pdus = sms.to_pdu()
    check_eq(len(pdus), n, 'number of parts')
    out = []
    ref = None
    for i in range(n):
        p = pdus[i]
        b = unhex(p.pdu)
        check_eq(b[:len(FIX)], FIX, 'address and flags of every part, header flag set')
        check_eq(b[len(FIX)], dcs, 'data coding scheme of every part')
        check_eq(b[len(FIX) + 1:len(FIX) + 1 + len(vp)], vp, 'validity of every part')
        ud = b[len(FIX) + 1 + len(vp):]
        check(len(ud) >= 7, 'a part has a user data header')
        check(len(ud) - 1 <= 140, 'user data of a part fits in 140 octets')
        check_eq(ud[1:4], [5, 0, 3], 'concatenation element')
        if ref is None:
            ref = ud[4]
        check_eq(ud[4], ref, 'same reference in every part')
        check_eq(ud[5:7], [n, i + 1], 'total and sequence number in the header')
        check_eq((p.cnt, p.seq), (n, i + 1), 'total and sequence number of the returned objects')
        check_eq(p.length, len(b) - smsc_len, 'length counts the octets after the SMSC field')
        out.append((ud[0], ud[7:]))
    return out, ref


def gsm_parts(sms, g, dcs=0, FIX=FIX, smsc_len=1, vp=[]):
    """g: septets of the text"""
    cuts = []
    i = 0
    while i < len(g):
        j = i + 153
        if j < len(g) and g[j - 1] == ESC:
            j -= 1
        cuts.append((i, min(j, len(g))))
        i = j
    out, ref = parts(sms, dcs, len(cuts), FIX, smsc_len, vp)
    for k in range(len(cuts)):
        i, j = cuts[k]
        udl, rest = out[k]
        check_eq(udl, 7 + j - i, 'septet count of a part')
        bs = [0] * 6 + rest
        check_eq(len(bs), (7 * udl + 7) // 8, 'octets of a part')
        for m in range(i, j):
            check_eq(septet_at(bs, 7 + m - i), g[m], 'septets of the parts in order are the text')
    return ref


ESC = 27


@harness(n=Int(161, 39015), g=Ints('n', allowed=gsm.R_SEPT), split=['n'], quick={'n': [161, 162, 163, 170, 200, 255, 304, 305, 306, 307, 308, 380, 458, 459, 460, 612, 613, 1377, 1378, 1531, 2448, 2449, 20000, 39015]},
         thorough={'n': list(range(161, 310)) + list(range(310, 620, 7)) + [458, 459, 460, 461, 611, 612, 613]}, bounded='selected lengths, up to 255 parts')
def seven_bit(n, g):
    sms = SmsSubmit(NUM, u''.join([gsm.DEC1[x] for x in g]))
    sms.ref = 7
    gsm_parts(sms, g)


@harness(n=Int(161, 38760, cap=3000), s=Str('n', 0, 127), split=['n'], quick={'n': [161, 162, 200, 304, 305, 306, 307, 458, 459, 460, 613]},
         thorough={'n': list(range(161, 320)) + list(range(320, 620, 7)) + [458, 459, 460, 461, 611, 612, 613, 1000, 1200]}, bounded='selected lengths, up to 8 parts', inductive=700)
def seven_bit_any(n, s):
    """extension characters anywhere: the codec by its contract"""
    t, g = gsmcon.coded(s)
    sms = SmsSubmit(NUM, t)
    sms.ref = 7
    gsm_parts(sms, g)


@harness(m=Int(0, 320), a=Ints('m', allowed=gsm.R_SEPT), e=Ints(2, allowed=gsm.R_EXT), k=Int(0, 40), b=Ints('k', allowed=gsm.R_SEPT), w=Int(0, 320), c=Ints('w', allowed=gsm.R_SEPT),
         split=['m', 'k', 'w'], quick={'m': [150, 151, 152, 153, 154], 'k': [0, 1, 2], 'w': [5, 149, 150, 151, 152, 153]},
         thorough={'m': list(range(148, 158)) + list(range(300, 312)), 'k': list(range(0, 4)), 'w': [5, 20, 148, 149, 150, 151, 152, 153, 154]}, bounded='two extension characters near a part boundary, up to 4 parts')
def seven_bit_escape(m, a, e, k, b, w, c):
    assume(m + k + w + 4 > 160)
    t = u''.join([gsm.DEC1[x] for x in a]) + gsm.EXT[e[0]] + u''.join([gsm.DEC1[x] for x in b]) + gsm.EXT[e[1]] + u''.join([gsm.DEC1[x] for x in c])
    sms = SmsSubmit(NUM, t)
    sms.ref = 7
    gsm_parts(sms, a + [ESC, e[0]] + b + [ESC, e[1]] + c)


@harness(m=Int(0, 160), w=Int(0, 160), a=Ints('m', allowed=gsm.R_SEPT), c=Ints('w', allowed=gsm.R_SEPT), e=Ints(160, allowed=gsm.R_EXT), split=['m', 'w'],
         quick={'m': [0, 1], 'w': [0, 1]}, thorough={'m': [0, 1, 2, 3], 'w': [0, 1, 2]}, bounded='160 extension characters in a row')
def all_escapes(m, w, a, c, e):
    t = u''.join([gsm.DEC1[x] for x in a]) + u''.join([gsm.EXT[x] for x in e]) + u''.join([gsm.DEC1[x] for x in c])
    sms = SmsSubmit(NUM, t)
    sms.ref = 7
    g = a
    for x in e:
        g = g + [ESC, x]
    gsm_parts(sms, g + c)


@harness(n=Int(141, 34170), s=Str('n'), klass=Enum(None, 1), split=['n'], quick={'n': list(range(141, 146)) + list(range(150, 260, 10)) + list(range(265, 272)) + [300, 333, 400, 401, 402, 403, 404, 1206, 1207, 1340, 1341, 20000, 34170]},
         thorough={}, bounded='selected lengths, up to 255 parts')
def eight_bit(n, s, klass):
    sms = SmsSubmit(NUM, s)
    sms.ref = 7
    sms.fmt = 4
    if klass is not None:
        sms.klass = klass
    k = (n + 133) // 134
    out, ref = parts(sms, 4 if klass is None else 0x15, k)
    o = octets(s)
    for i in range(k):
        exp = o[134 * i:134 * i + 134]
        check_eq(out[i][0], 6 + len(exp), 'octet count of a part')
        check_eq(out[i][1], exp, 'octets of the parts in order are the text')


@harness(n=Int(71, 17085), t=Uni('n', 0, 0xffff), split=['n'], quick={'n': list(range(71, 76)) + list(range(80, 130, 9)) + list(range(132, 138)) + [150, 180, 199, 200, 201, 202, 203, 603, 604, 670, 671, 5000, 14471, 14941, 17085]},
         thorough={}, bounded='selected lengths, up to 255 parts')
def ucs2_text(n, t):
    sms = SmsSubmit(NUM, t)
    sms.ref = 7
    sms.fmt = 8
    k = (n + 66) // 67
    out, ref = parts(sms, 8, k)
    o = octets(t)
    for i in range(k):
        exp = ucs2(o[67 * i:67 * i + 67])
        check_eq(out[i][0], 6 + len(exp), 'octet count of a part')
        check_eq(out[i][1], exp, 'characters of the parts in order are the text')


@harness(rid=Int(0, None), given=Bool(), fmt=Enum(0, 4, 8), before=Int(0, 3), split=['given', 'fmt', 'before'])
def reference(rid, given, fmt, before):
    sms = SmsSubmit(NUM, u'x' * 161 if fmt != 4 else 'x' * 161)
    sms.fmt = fmt
    # references used by messages encoded before
    for i in range(before):
        sms.ref = None
        sms.to_pdu()
    sms.ref = 7
    if given:
        sms.rand_id = rid
    out, ref = parts(sms, fmt, {0: 2, 4: 2, 8: 3}[fmt])
    if given:
        check_eq(ref, rid % 256, 'the concatenation reference is the requested one modulo 256')
    else:
        check(0 <= ref and ref <= 255, 'a generated reference is an octet')


@harness(n=Enum(0, 161, 307, 500), m=Enum(5, 161, 306, 310), fmt=Enum(0, 4, 8), s=Str('n', 97, 122), r=Str('m', 97, 122), rid=Int(0, None), rid2=Int(0, None), split=['n', 'm', 'fmt'])
def encoded_again(n, m, fmt, s, r, rid, rid2):
    """a message changed and encoded again, and another one"""
    sms = SmsSubmit(NUM, s)
    sms.fmt = fmt
    sms.rand_id = rid
    sms.to_pdu()
    other = SmsSubmit(NUM, r)
    for x in (sms, sms, other):
        x.text = r
        x.rand_id = rid2
        x.ref = 7
        x.fmt = fmt
        if m == 5:
            check_eq(len(x.to_pdu()), 1, 'one part')
            check_eq(unhex(x.to_pdu()[0].pdu)[1], 1, 'no header in a message of one part')
            continue
        o = octets(r)
        if fmt == 0:
            ref = gsm_parts(x, o)
        else:
            size = 134 if fmt == 4 else 67
            k = (m + size - 1) // size
            out, ref = parts(x, fmt, k)
            for i in range(k):
                exp = o[size * i:size * i + size]
                if fmt == 8:
                    exp = ucs2(exp)
                check_eq(out[i], (6 + len(exp), exp), 'parts in order are the text')
        check_eq(ref, rid2 % 256, 'the reference is the one requested last')


@harness(c=Int(2, 20), cd=Str('c', 48, 57), cplus=Bool(), n=Int(3, 20), d=Str('n', 48, 57), plus=Bool(), ref=Int(0, None), pid=Int(0, 255), klass=Enum(None, 0, 1, 2, 3), sr=Bool(), vk=Enum('none', 'rel', 'abs'),
         hours=Int(1, 24 * 30), fmt=Enum(0, 4, 8), m=Int(161, 400), t=Str('m', 97, 122), split=['c', 'cplus', 'n', 'plus', 'klass', 'sr', 'vk', 'fmt', 'm'],
         quick={'c': [2, 9, 12, 20], 'n': [11, 20], 'm': [161, 310], 'klass': [None, 2]}, thorough={'c': [2, 3, 4, 9, 10, 11, 12, 13, 19, 20], 'n': [3, 12, 20], 'm': [161, 400], 'klass': [None, 0, 3]},
         bounded='messages of 2 to 6 parts')
def fields(c, cd, cplus, n, d, plus, ref, pid, klass, sr, vk, hours, fmt, m, t):
    """every field of a message, in every part"""
    sms = SmsSubmit(('+' if plus else '') + d, t)
    sms.fmt = fmt
    sms.ref = ref
    sms.pid = pid
    sms.request_status = sr
    sm = [0]
    if c > 2:
        sms.csca = ('+' if cplus else '') + cd
        sm = smsc(digits_of(cd), cplus)
    if klass is not None:
        sms.klass = klass
    first = 0x41 + (0x20 if sr else 0)
    vp = []
    if vk == 'rel':
        sms.validity = timedelta(hours=hours)
        first |= 0x10
        v = timedelta_octet(hours)
        vp = [v]
    elif vk == 'abs':
        sms.validity = datetime(2009, 11, 5, 23, 59, 8, tzinfo=FixedOffset(-210, 'x'))
        first |= 0x18
        vp = [0x90, 0x11, 0x50, 0x32, 0x95, 0x80, 0x49]
    fix = sm + [first, ref % 256] + dest(digits_of(d), plus) + [pid]
    dcs = fmt + (0 if klass is None else 0x10 + klass)
    o = octets(t)
    if fmt == 0:
        gsm_parts(sms, o, dcs, fix, len(sm), vp)
        return
    size = 134 if fmt == 4 else 67
    k = (m + size - 1) // size
    out, r = parts(sms, dcs, k, fix, len(sm), vp)
    for i in range(k):
        exp = o[size * i:size * i + size]
        if fmt == 8:
            exp = ucs2(exp)
        check_eq(out[i], (6 + len(exp), exp), 'parts in order are the text')


def timedelta_octet(hours):
    """the relative validity of a whole number of hours, rounded down"""
    if hours <= 12:
        return 12 * hours - 1
    if hours < 48:
        return 143 + min(2 * (hours - 12), 24)
    return 166 + hours // 24


@harness(klass=Enum(None, 0, 3), vk=Enum('none', 'rel', 'abs'), n=Int(71, 300), t=Uni('n', 97, 122), x=Uni(1, 0, 0xffff), at=Enum('start', 'end', 'none'), split=['klass', 'vk', 'n', 'at'],
         quick={'n': [71, 135, 161, 200]}, thorough={'n': [71, 134, 135, 160, 161, 200, 300]}, bounded='texts of up to 300 characters')
def default_alphabet(klass, vk, n, t, x, at):
    """no alphabet chosen: parts of the alphabet the whole text needs"""
    assume(gsm.enc(x) is None)
    assume(at != 'none' or n > 160)
    if at == 'start':
        t = x + t[1:]
    elif at == 'end':
        t = t[:-1] + x
    sms = SmsSubmit(NUM, t)
    sms.ref = 7
    if klass is not None:
        sms.klass = klass
    vp = []
    first = 0x41
    if vk == 'rel':
        sms.validity = timedelta(days=1)
        first |= 0x10
        vp = [167]
    elif vk == 'abs':
        sms.validity = datetime(2009, 11, 5, 23, 59, 8)
        first |= 0x18
        vp = [0x90, 0x11, 0x50, 0x32, 0x95, 0x80, 0]
    fix = [0, first] + FIX[2:]
    dcs = (0 if at == 'none' else 8) + (0 if klass is None else 0x10 + klass)
    o = octets(t)
    if at == 'none':
        gsm_parts(sms, o, dcs, fix, 1, vp)
        return
    k = (n + 66) // 67
    out, r = parts(sms, dcs, k, fix, 1, vp)
    for i in range(k):
        exp = ucs2(o[67 * i:67 * i + 67])
        check_eq(out[i], (6 + len(exp), exp), 'parts in order are the text')
