from vp import *
from delspec import *
import gsm
import gsmcon
from messaging.sms import SmsDeliver
import messaging.sms.udh
from messaging.sms.udh import UserDataHeader


def ud_header(h):
    return [len(h)] + h


@harness(n=Int(0, 160), g=Ints('n', allowed=gsm.R_SEPT), x=Int(0, 1), junk=Ints('x'), split=['n', 'x'])
def gsm_text(n, g, x, junk):
    sms = SmsDeliver(hx(deliver(ud7(g) + junk)))
    check_eq(sms.text, u''.join([gsm.DEC1[x] for x in g]), 'text is the GSM decoding of the septets')
    check(sms.udh is None, 'no header when not flagged')


@harness(n=Int(0, 6), g=Ints('n', 0, 127), dcs=Enum(0, 0x10, 0xf0), split=['n', 'dcs'], bounded='texts with extension characters up to 6 septets')
def gsm_escapes(n, g, dcs):
    sms = SmsDeliver(hx(deliver(ud7(g), dcs=dcs)))
    check_eq(sms.text, gsm.dec(g, 'strict'), 'text is the GSM decoding of the septets')


@harness(n=Int(0, 160), g=Ints('n', 0, 127), x=Int(0, 1), junk=Ints('x'), dcs=Enum(0, 0x10, 0xf0), split=['n', 'x', 'dcs'], inductive=700,
         quick={'dcs': [0]}, thorough={})
def gsm_any(n, g, x, junk, dcs):
    # any septets at all, the decoder known by its contract
    t = gsmcon.heard(g)
    sms = SmsDeliver(hx(deliver(ud7(g) + junk, dcs=dcs)))
    check_eq(sms.text, t, 'text is the GSM decoding of the septets')
    check(sms.udh is None, 'no header when not flagged')


@harness(m=Int(0, 158), a=Ints('m', allowed=gsm.R_SEPT), e=Ints(1), split=['m'], thorough={})
def gsm_one_escape(m, a, e):
    assume(e[0] < 128 and e[0] != 27)
    sms = SmsDeliver(hx(deliver(ud7(a + [27, e[0]]))))
    check_eq(sms.text, u''.join([gsm.DEC1[x] for x in a]) + gsm.EXT.get(e[0], u'\xa0'), 'extension character at any position')


@harness(n=Int(0, 150), g=Ints('n', allowed=gsm.R_SEPT), hl=Int(2, 20), h=Ints('hl'), fill=Int(0, 63), split=['n', 'hl'],
         quick={'n': list(range(0, 16)) + [60, 100, 139, 140, 141, 149, 150], 'hl': list(range(2, 14)) + [20]},
         thorough={'n': list(range(0, 20)) + list(range(20, 151, 10)) + [153 - 1 - 5], 'hl': list(range(2, 21))}, bounded='headers of one unknown element, up to 20 octets')
def gsm_with_header(n, g, hl, h, fill):
    # one unknown information element of hl - 2 data octets
    hdr = [0x70, hl - 2] + h[:hl - 2]
    k = (8 * (hl + 1) + 6) // 7                # septets taken by header and fill bits
    nfill = 7 * k - 8 * (hl + 1)
    assume(k + n <= 160)
    body = [0] * k + g
    bs = pack(body)
    for i in range(hl + 1):
        bs[i] = ud_header(hdr)[i]
    if nfill:
        # fill bits are arbitrary
        bs[hl + 1:hl + 2] = [(bs[hl + 1] if hl + 1 < len(bs) else 0) + (fill & ((1 << nfill) - 1))]
    sms = SmsDeliver(hx(deliver([k + n] + bs, first=0x44)))
    check_eq(sms.text, u''.join([gsm.DEC1[x] for x in g]), 'text is the GSM decoding of the septets after the header and its fill bits')
    check(sms.udh is not None, 'the header is exposed')
    check_eq(octets(sms.udh.headers[0x70]), h[:hl - 2], 'element of the header')


@harness(n=Int(0, 140), o=Ints('n'), x=Int(0, 3), junk=Ints('x'), split=['n', 'x'])
def eight_bit(n, o, x, junk):
    # in the message class group (1111xxxx) bit 3 is reserved
    for dcs in [4, 0xf4, 0xfc] if n < 8 else [4]:
        sms = SmsDeliver(hx(deliver([n] + o + junk, dcs=dcs)))
        check_eq(octets(sms.text), o, 'text is exactly the stated octets')
    sms = SmsDeliver(hx(deliver([n] + o + junk, dcs=4)))
    check_eq(octets(sms.text), o, 'text is exactly the stated octets')
    check(sms.udh is None, 'no header when not flagged')


@harness(n=Int(0, 132), o=Ints('n'), hl=Int(2, 20), h=Ints('hl'), x=Int(0, 2), junk=Ints('x'), split=['n', 'hl', 'x'],
         quick={'n': [0, 1, 2, 3, 8, 70, 120, 132], 'hl': list(range(2, 14)) + [20]}, thorough={'n': list(range(0, 10)) + list(range(10, 133, 4)), 'hl': list(range(2, 21))}, bounded='headers of one unknown element, up to 20 octets')
def eight_bit_with_header(n, o, hl, h, x, junk):
    hdr = [hl, 0x70, hl - 2] + h[:hl - 2]
    sms = SmsDeliver(hx(deliver([n + hl + 1] + hdr + o + junk, dcs=0xf4, first=0x40)))
    check_eq(octets(sms.text), o, 'text is exactly the stated octets after the header')
    check_eq(octets(sms.udh.headers[0x70]), h[:hl - 2], 'element of the header')


@harness(n=Int(0, 70), t=Ints('n', allowed=[(0, 0xd7ff), (0xe000, 0xffff)]), x=Int(0, 3), junk=Ints('x'), split=['n', 'x'])
def ucs2_text(n, t, x, junk):
    sms = SmsDeliver(hx(deliver(ud16(t) + junk, dcs=8)))
    check_eq(octets(sms.text), t, 'text is exactly the stated characters')
    check(sms.udh is None, 'no header when not flagged')


@harness(n=Int(0, 66), t=Ints('n', allowed=[(0, 0xd7ff), (0xe000, 0xffff)]), hl=Int(2, 20), h=Ints('hl'), x=Int(0, 2), junk=Ints('x'), split=['n', 'hl', 'x'],
         quick={'n': [0, 1, 2, 3, 8, 35, 60, 66], 'hl': list(range(2, 14)) + [20]}, thorough={'n': list(range(0, 10)) + list(range(10, 67, 4)), 'hl': list(range(2, 21))}, bounded='headers of one unknown element, up to 20 octets')
def ucs2_with_header(n, t, hl, h, x, junk):
    hdr = [hl, 0x70, hl - 2] + h[:hl - 2]
    sms = SmsDeliver(hx(deliver([2 * n + hl + 1] + hdr + ucs2(t) + junk, dcs=8, first=0x40)))
    check_eq(octets(sms.text), t, 'text is exactly the stated characters after the header')
    check_eq(octets(sms.udh.headers[0x70]), h[:hl - 2], 'element of the header')


def header(h):
    """an arbitrary header of len(h) octets, its parser known by its contract (S11); at run time one
    unknown element: (octets, parsed header or None)"""
    if SYMBOLIC:
        u = UserDataHeader()

        def parse(data):
            needs(octets(data) == h, 'exactly the header is parsed')
            return u

        override(messaging.sms.udh.UserDataHeader, 'from_bytes', parse)
        return h, u
    if h:
        h = [0x70, len(h) - 2] + h[2:]
    return h, None


def header_exposed(sms, h, u):
    if SYMBOLIC:
        check(sms.udh is u, 'the header is exposed')
    else:
        check(sms.udh is not None and sorted(sms.udh.headers.keys()) == ([0x70] if h else []), 'the header is exposed')


HL = [0] + list(range(2, 140))


@harness(n=Int(0, 159), g=Ints('n', 0, 127), hl=Enum(*HL), h=Ints('hl'), fill=Int(0, 63), split=['n', 'hl'], inductive=700,
         quick={'n': list(range(0, 10)) + [60, 139, 140, 141, 150, 151, 152, 153, 154, 158, 159], 'hl': [0, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 40, 80, 139]},
         thorough={'n': list(range(0, 20)) + list(range(20, 150, 10)) + list(range(150, 160))})
def gsm_any_with_header(n, g, hl, h, fill):
    k = (8 * (hl + 1) + 6) // 7                # septets taken by header and fill bits
    nfill = 7 * k - 8 * (hl + 1)
    assume(k + n <= 160)
    h, u = header(h)
    bs = pack([0] * k + g)
    for i in range(hl + 1):
        bs[i] = ud_header(h)[i]
    if nfill:
        # fill bits are arbitrary
        bs[hl + 1:hl + 2] = [(bs[hl + 1] if hl + 1 < len(bs) else 0) + (fill & ((1 << nfill) - 1))]
    t = gsmcon.heard(g)
    sms = SmsDeliver(hx(deliver([k + n] + bs, first=0x44)))
    check_eq(sms.text, t, 'text is the GSM decoding of the septets after the header and its fill bits')
    header_exposed(sms, h, u)


@harness(n=Int(0, 139), o=Ints('n'), hl=Enum(*HL), h=Ints('hl'), split=['n', 'hl'], inductive=700,
         quick={'n': [0, 1, 2, 3, 70, 138, 139], 'hl': [0, 2, 3, 4, 5, 6, 7, 8, 9, 40, 139]}, thorough={'n': list(range(0, 10)) + list(range(10, 140, 4)) + [137, 139]})
def eight_bit_any_header(n, o, hl, h):
    assume(n + hl + 1 <= 140)
    h, u = header(h)
    sms = SmsDeliver(hx(deliver([n + hl + 1] + ud_header(h) + o, dcs=4, first=0x44)))
    check_eq(octets(sms.text), o, 'text is exactly the stated octets after the header')
    header_exposed(sms, h, u)


@harness(n=Int(0, 69), t=Ints('n', allowed=[(0, 0xd7ff), (0xe000, 0xffff)]), hl=Enum(*HL), h=Ints('hl'), split=['n', 'hl'], inductive=700,
         quick={'n': [0, 1, 2, 3, 35, 68, 69], 'hl': [0, 2, 3, 4, 5, 6, 7, 8, 9, 40, 139]}, thorough={'n': list(range(0, 10)) + list(range(10, 70, 4)) + [67, 69]})
def ucs2_any_header(n, t, hl, h):
    assume(2 * n + hl + 1 <= 140)
    h, u = header(h)
    sms = SmsDeliver(hx(deliver([2 * n + hl + 1] + ud_header(h) + ucs2(t), dcs=8, first=0x44)))
    check_eq(octets(sms.text), t, 'text is exactly the stated characters after the header')
    header_exposed(sms, h, u)


def sample(kind, g):
    """(PDU octets, text, element 0x70 or None) of a message of one kind; g: four septets"""
    if kind == 'gsm':
        return deliver(ud7(g)), u''.join([gsm.DEC1[x] for x in g]), None
    if kind == 'octets':
        return deliver([4] + g, dcs=4), text(g), None
    if kind == 'ucs2':
        return deliver(ud16(g), dcs=8), u''.join([unichr(x) for x in g]), None
    # the header of 4 octets takes five septets
    if kind == 'header':
        return deliver([8, 3, 0x70, 1, g[0]] + g[:4], dcs=4, first=0x44), text(g), [g[0]]
    return report_octets(g), None, None


def report_octets(g):
    return [0, 0x06, g[0]] + [4, 0x81, 0x21, 0x43] + STAMP + STAMP + [0]


@harness(a=Enum('gsm', 'octets', 'ucs2', 'header', 'report'), b=Enum('gsm', 'octets', 'ucs2', 'header'), c=Enum('gsm', 'header', 'report'),
         g=Ints(4, allowed=gsm.R_SEPT), h=Ints(4, allowed=gsm.R_SEPT), split=['a', 'b', 'c'])
def decoded_again(a, b, c, g, h):
    """an object given one PDU after the other holds the last one only"""
    sms = SmsDeliver(hx(sample(c, h)[0]))
    sms.pdu = hx(sample(a, g)[0])
    pdu, t, e = sample(b, h)
    sms.pdu = hx(pdu)
    check_eq(sms.pdu, hx(pdu), 'the PDU')
    check_eq(octets(sms.text), octets(t), 'text of the PDU')
    check(sms.sr is None and sms.type is None, 'nothing of a report')
    check_eq((sms.pid, sms.dcs, sms.number), (0, pdu[7], '1234'), 'fields of the PDU')
    if e is None:
        check(sms.udh is None, 'no header when not flagged')
    else:
        check_eq(octets(sms.udh.headers[0x70]), e, 'element of the header')
        check_eq(sorted(sms.udh.headers.keys()), [0x70], 'no other element')
