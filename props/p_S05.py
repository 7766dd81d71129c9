from vp import *
from smspec import *
import gsm
import gsmcon
from datetime import timedelta, datetime
from messaging.sms import SmsSubmit
from messaging.utils import FixedOffset

NUM = '+34616234567'
NUMF = [11, 0x91] + semi(digits_of(NUM[1:]))


def one(sms, exp, smsc_len):
    pdus = sms.to_pdu()
    check_eq(len(pdus), 1, 'one PDU')
    p = pdus[0]
    got = unhex(p.pdu)
    check_eq(len(got), len(exp), 'PDU has exactly the expected octets')
    check_eq(got, exp, 'PDU octets')
    check_eq(p.length, len(exp) - smsc_len, 'length counts the octets after the SMSC field')
    check_eq((p.cnt, p.seq), (1, 1), 'single part')


@harness(n=Int(3, 20), d=Str('n', 48, 57), plus=Bool(), c=Int(2, 20), cd=Str('c', 48, 57), cplus=Bool(), ref=Int(0, 255),
         split=['n', 'plus', 'c', 'cplus'],
         quick={'n': [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20], 'c': list(range(2, 21))}, thorough={})
def addresses(n, d, plus, c, cd, cplus, ref):
    sms = SmsSubmit(('+' if plus else '') + d, '')
    sms.ref = ref
    if c > 2:
        sms.csca = ('+' if cplus else '') + cd
        sm = smsc(digits_of(cd), cplus)
    else:
        sm = [0]
        if cplus:
            sms.csca = ''
    one(sms, sm + [1, ref] + dest(digits_of(d), plus) + [0, 0, 0], len(sm))


@harness(n=Int(3, 20), d=Str('n', 48, 57), kind=Enum('unicode', 'newline', 'both'), plus=Bool(), m=Int(1, 10), t=Str('m', 97, 122), split=['n', 'kind', 'plus', 'm'], quick={'n': [3, 8, 11, 20], 'm': [1, 7]}, thorough={'m': [1, 8]})
def address_types(n, d, kind, plus, m, t):
    """unicode addresses, addresses read from a line"""
    x = ('+' if plus else '') + d
    if kind != 'newline':
        x = unicode(x)
    if kind != 'unicode':
        x = x + '\n'
    sms = SmsSubmit(x, t)
    sms.csca = x
    sms.ref = 7
    sm = smsc(digits_of(d), plus)
    one(sms, sm + [1, 7] + dest(digits_of(d), plus) + [0, 0] + ud7(octets(t)), len(sm))


@harness(ref=Int(0, None), pid=Int(0, 255), klass=Enum(None, 0, 1, 2, 3), sr=Bool(), vk=Enum('none', 'rel', 'abs'),
         secs=Int(300, 63 * 7 * 86400), fmt=Enum(None, 0, 4, 8), split=['klass', 'sr', 'vk', 'fmt'])
def fields(ref, pid, klass, sr, vk, secs, fmt):
    sms = SmsSubmit(NUM, 'Hi')
    sms.ref = ref
    sms.pid = pid
    sms.request_status = sr
    if klass is not None:
        sms.klass = klass
    first = 1
    vp = []
    if vk == 'rel':
        sms.validity = timedelta(seconds=secs)
        first |= 0x10
    elif vk == 'abs':
        sms.validity = datetime(2009, 11, 5, 23, 59, 8, tzinfo=FixedOffset(-210, 'x'))
        first |= 0x18
        vp = [0x90, 0x11, 0x50, 0x32, 0x95, 0x80, 0x49]
    if sr:
        first |= 0x20
    sms.fmt = fmt
    dcs = (fmt or 0) + (0 if klass is None else 0x10 + klass)
    ud = {0: [2, 0xc8, 0x34], 4: [2, 0x48, 0x69], 8: [4, 0, 0x48, 0, 0x69]}[fmt or 0]
    pdus = sms.to_pdu()
    check_eq(len(pdus), 1, 'one PDU')
    got = unhex(pdus[0].pdu)
    if vk == 'rel':
        check(len(got) > 13, 'relative validity present')
        v = got[13]
        check(rel_period(v) <= secs and (v == 255 or rel_period(v + 1) > secs), 'validity octet is the period rounded down')
        vp = [v]
    exp = [0, first, ref % 256] + NUMF + [pid, dcs] + vp + ud
    check_eq(got, exp, 'PDU octets')
    check_eq(pdus[0].length, len(exp) - 1, 'length counts the octets after the SMSC field')
    check_eq(sms.ref, ref % 256, 'the reference is reported modulo 256')


@harness(n=Int(0, 160), g=Ints('n', allowed=gsm.R_SEPT), fmt=Enum(None, 0), split=['n', 'fmt'],
         bounded='texts of basic characters only (extension characters: gsm_extension)')
def gsm_basic(n, g, fmt):
    sms = SmsSubmit(NUM, u''.join([gsm.DEC1[x] for x in g]))
    sms.ref = 7
    sms.fmt = fmt
    one(sms, [0, 1, 7] + NUMF + [0, 0] + ud7(g), 1)


@harness(m=Int(0, 16), k=Int(0, 16), a=Ints('m', allowed=gsm.R_SEPT), e=Ints(2, allowed=gsm.R_EXT), b=Ints('k', allowed=gsm.R_SEPT), split=['m', 'k'],
         bounded='two extension characters, at any distance up to 16, in a text of up to 36 septets')
def gsm_extension(m, k, a, e, b):
    t = u''.join([gsm.DEC1[x] for x in a]) + gsm.EXT[e[0]] + u''.join([gsm.DEC1[x] for x in b]) + gsm.EXT[e[1]]
    sms = SmsSubmit(NUM, t)
    sms.ref = 7
    one(sms, [0, 1, 7] + NUMF + [0, 0] + ud7(a + [0x1b, e[0]] + b + [0x1b, e[1]]), 1)


@harness(m=Int(0, 158), a=Ints('m', allowed=gsm.R_SEPT), e=Ints(1, allowed=gsm.R_EXT), b=Ints(158, allowed=gsm.R_SEPT), split=['m'],
         bounded='one extension character in a text of exactly 160 septets')
def gsm_full(m, a, e, b):
    b = b[:158 - m]
    t = u''.join([gsm.DEC1[x] for x in a]) + gsm.EXT[e[0]] + u''.join([gsm.DEC1[x] for x in b])
    sms = SmsSubmit(NUM, t)
    sms.ref = 7
    one(sms, [0, 1, 7] + NUMF + [0, 0] + ud7(a + [0x1b, e[0]] + b), 1)


@harness(n=Int(0, 160), s=Str('n', 0, 127), fmt=Enum(None, 0), split=['n', 'fmt'], inductive=700)
def gsm_any(n, s, fmt):
    """every text of up to 160 septets: the codec by its contract, extension characters anywhere"""
    t, g = gsmcon.coded(s)
    sms = SmsSubmit(NUM, t)
    sms.ref = 7
    sms.fmt = fmt
    one(sms, [0, 1, 7] + NUMF + [0, 0] + ud7(g), 1)


@harness(n=Int(0, 140), s=Str('n'), split=['n'])
def eight_bit(n, s):
    sms = SmsSubmit(NUM, s)
    sms.ref = 7
    sms.fmt = 4
    one(sms, [0, 1, 7] + NUMF + [0, 4] + ud8(octets(s)), 1)


@harness(n=Int(0, 70), t=Uni('n', 0, 0xffff), split=['n'])
def ucs2_chosen(n, t):
    sms = SmsSubmit(NUM, t)
    sms.ref = 7
    sms.fmt = 8
    one(sms, [0, 1, 7] + NUMF + [0, 8] + ud16(octets(t)), 1)


@harness(n=Int(0, 3), t=Uni('n', 0, 0xffff), split=['n'], bounded='any texts of up to 3 characters')
def default_alphabet(n, t):
    sms = SmsSubmit(NUM, t)
    sms.ref = 7
    e = gsm.enc(t)
    if e is None:
        one(sms, [0, 1, 7] + NUMF + [0, 8] + ud16(octets(t)), 1)
    else:
        one(sms, [0, 1, 7] + NUMF + [0, 0] + ud7(e), 1)


@harness(n=Int(1, 70), t=Uni('n', 0, 0xffff), split=['n'])
def default_ucs2(n, t):
    assume(gsm.enc(t[:1]) is None)
    sms = SmsSubmit(NUM, t)
    sms.ref = 7
    one(sms, [0, 1, 7] + NUMF + [0, 8] + ud16(octets(t)), 1)


@harness(m=Int(0, 69), k=Int(0, 69), a=Ints('m', allowed=gsm.R_SEPT), x=Uni(1, 0, 0xffff), t=Uni('k', 0, 0xffff), split=['m', 'k'],
         quick={'k': [0, 1, 2, 10]}, thorough={})
def default_ucs2_later(m, k, a, x, t):
    """the first character outside GSM at any position"""
    assume(m + 1 + k <= 70)
    assume(gsm.enc(x) is None)
    t = u''.join([gsm.DEC1[g] for g in a]) + x + t
    sms = SmsSubmit(NUM, t)
    sms.ref = 7
    one(sms, [0, 1, 7] + NUMF + [0, 8] + ud16(octets(t)), 1)


@harness(n=Int(0, 160), t=Str('n', allowed=[(32, 35), (37, 63), (65, 90), (97, 122)]), split=['n'])
def byte_text(n, t):
    sms = SmsSubmit(NUM, t)
    sms.ref = None
    pdus = sms.to_pdu()
    check_eq(len(pdus), 1, 'one PDU')
    check(0 <= sms.ref and sms.ref <= 255, 'a generated reference is an octet')
    check_eq(unhex(pdus[0].pdu), [0, 1, sms.ref] + NUMF + [0, 0] + ud7(octets(t)), 'PDU octets')


def configure(sms, csca, ref, pid, klass, sr, vk, fmt):
    """sets the fields; the expected PDU up to the user data, in the order of the standard"""
    sms.ref = ref
    sms.pid = pid
    sms.request_status = sr
    sms.csca = csca
    sms.fmt = fmt
    sms.klass = klass
    first = 1 + (0x20 if sr else 0)
    vp = []
    if vk == 'none':
        sms.validity = None
    elif vk == 'rel':
        sms.validity = timedelta(hours=12)
        first |= 0x10
        vp = [143]
    else:
        sms.validity = datetime(2009, 11, 5, 23, 59, 8, tzinfo=FixedOffset(-210, 'x'))
        first |= 0x18
        vp = [0x90, 0x11, 0x50, 0x32, 0x95, 0x80, 0x49]
    sm = smsc(digits_of(csca[1:]), True) if csca else [0]
    return sm, [first, ref % 256] + NUMF + [pid, fmt + 0x10 + klass] + vp


SETUP = [('+34123', 0, False, 'rel', 0), ('', 3, True, 'none', 4), (None, 1, True, 'abs', 8), ('+123456', 2, False, 'none', 0)]


@harness(i=Int(0, 3), j=Int(0, 3), ref=Int(0, 255), ref2=Int(0, None), pid=Int(0, 255), pid2=Int(0, 255), n=Int(0, 20), s=Str('n', 97, 122), m=Int(0, 20), r=Str('m', 97, 122),
         split=['i', 'j', 'n', 'm'], quick={'n': [0, 5], 'm': [1, 5, 8]}, thorough={'n': [0, 1, 7, 20], 'm': [0, 1, 5, 8, 20]})
def encoded_again(i, j, ref, ref2, pid, pid2, n, s, m, r):
    """a message changed and encoded again"""
    sms = SmsSubmit('123', s)
    csca, klass, sr, vk, fmt = SETUP[i]
    configure(sms, csca, ref, pid, klass, sr, vk, fmt)
    sms.to_pdu()
    sms.number = NUM
    for x in (s, r):
        sms.text = x
        csca, klass, sr, vk, fmt = SETUP[j]
        sm, head = configure(sms, csca, ref2, pid2, klass, sr, vk, fmt)
        o = octets(x)
        one(sms, sm + head + {0: ud7, 4: ud8, 8: ud16}[fmt](o), len(sm))
        # and once more, as it is
        one(sms, sm + head + {0: ud7, 4: ud8, 8: ud16}[fmt](o), len(sm))
    one(SmsSubmitWith(ref), [0, 1, ref] + NUMF + [0, 0, 0], 1)


def SmsSubmitWith(ref):
    # another message is not touched by the first
    sms = SmsSubmit(NUM, '')
    sms.ref = ref
    return sms


@harness(klass=Enum(None, 0, 1, 2, 3), sr=Bool(), vk=Enum('none', 'rel', 'abs'), csca=Bool(), pid=Int(0, 255), ref=Int(0, 255), n=Int(0, 20), a=Ints('n', allowed=gsm.R_SEPT), x=Uni(1, 0, 0xffff), order=Bool(),
         split=['klass', 'sr', 'vk', 'csca', 'n', 'order'], quick={'n': [0, 3]}, thorough={'n': [0, 1, 8, 20]})
def default_fields(klass, sr, vk, csca, pid, ref, n, a, x, order):
    """the default alphabet with every combination of fields"""
    assume(gsm.enc(x) is None or x in gsm.ENC1)
    t = u''.join([gsm.DEC1[g] for g in a]) + x
    sms = SmsSubmit(NUM, t if order else '')
    sms.pid = pid
    sms.ref = ref
    sms.request_status = sr
    if klass is not None:
        sms.klass = klass
    first = 0x21 if sr else 1
    vp = []
    if vk == 'rel':
        sms.validity = timedelta(days=1)
        first |= 0x10
        vp = [167]
    elif vk == 'abs':
        sms.validity = datetime(2009, 11, 5, 23, 59, 8)
        first |= 0x18
        vp = [0x90, 0x11, 0x50, 0x32, 0x95, 0x80, 0]
    sm = [0]
    if csca:
        sms.csca = '+123'
        sm = [3, 0x91, 0x21, 0xf3]
    if not order:
        sms.text = t
    e = gsm.enc(t)
    fmt = 8 if e is None else 0
    dcs = fmt + (0 if klass is None else 0x10 + klass)
    one(sms, sm + [first, ref] + NUMF + [pid, dcs] + vp + (ud16(octets(t)) if e is None else ud7(e)), len(sm))
    check_eq((sms.klass, sms.pid, sms.ref, sms.request_status), (klass, pid, ref, sr), 'encoding leaves the fields as they were')
