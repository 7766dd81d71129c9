from vp import *
from wspspec import *
from textcon import *
from datetime import datetime, timedelta
from messaging.mms.mms_pdu import MMSEncoder, MMSDecoder
from messaging.mms.wsp_pdu import DecodeError
from messaging.mms.iterator import PreviewIterator


def encodes(name, value, exp):
    e = MMSEncoder.encode_header(name, value)
    check_eq(list(e), [0x80 | MMS_CODE[name]] + exp, 'a field is encoded as its assigned octet and its value')


def decodes(name, exp, value, b):
    it = PreviewIterator([0x80 | MMS_CODE[name]] + exp + [b, 255])
    check_eq(MMSDecoder.decode_header(it), (name, value), 'decoding gives the field and its value')
    check_eq((it.next(), it.next()), (b, 255), 'decoding consumes exactly the octets of the field')


def both(name, value, exp, b):
    encodes(name, value, exp)
    decodes(name, exp, value, b)


N = list(range(0, 42)) + [64, 100, 125, 126, 127, 128, 200]
# texts: no control octet or quote at the start, no terminator inside
R_TEXT = [(32, 126), (128, 255)]


@harness(name=Enum('Message-ID', 'Transaction-Id'), n=Int(0, 200), s=Str('n', 1, 255), b=Int(0, 255), split=['name', 'n'], quick={'n': N},
         thorough={})
def texts(name, n, s, b):
    if n:
        assume(ord(s[0]) != 127)
    both(name, s, tstr(octets(s)), b)


@harness(name=Enum('Bcc', 'Cc', 'Response-Text', 'Subject', 'To'), n=Int(1, 200), s=Str('n', 1, 255), b=Int(0, 255), split=['name', 'n'],
         quick={'n': N[1:]}, thorough={})
def strings(name, n, s, b):
    assume(ord(s[0]) > 31 and ord(s[0]) != 127)
    both(name, s, tstr(octets(s)), b)


@harness(name=Enum('Bcc', 'Cc', 'Response-Text', 'Subject', 'To'), n=Int(0, 200), s=Str('n', 1, 255), cs=Int(0, 2), c=Ints(2, 0, 255), b=Int(0, 255),
         split=['name', 'n', 'cs'], quick={'n': N}, thorough={})
def strings_with_charset(name, n, s, cs, c, b):
    if n:
        assume(ord(s[0]) != 127)
    if cs == 0:
        assume(c[0] < 128)
        cv = [0x80 | c[0]]
    elif cs == 1:
        cv = [2] + c
    else:
        cv = [127]
    decodes(name, value_length(len(cv) + n + 1) + cv + tstr(octets(s)), s, b)


@harness(n=Int(0, 200), s=Str('n', 1, 255), cs=Bool(), b=Int(0, 255), split=['n', 'cs'], quick={'n': N}, thorough={})
def sender(n, s, cs, b):
    if cs:
        if n:
            assume(ord(s[0]) != 127)
        body = [0x80 | 0x6a] + tstr(octets(s))
        body = [0x80] + value_length(len(body)) + body
        decodes('From', value_length(len(body)) + body, s, b)
    elif n:
        assume(ord(s[0]) > 31 and ord(s[0]) != 127)
        both('From', s, value_length(n + 2) + [0x80] + tstr(octets(s)), b)
    else:
        encodes('From', '', [1, 0x81])
        decodes('From', [1, 0x81], '<not inserted>', b)


@harness(i=Int(0, 6), b=Int(0, 255), split=['i'])
def message_type(i, b):
    both('Message-Type', TYPES[i], [0x80 + i], b)


@harness(i=Int(0, 4), o=Int(0, 255), b=Int(0, 255), split=['i'])
def status(i, o, b):
    both('Status', STATUS[i], [0x80 + i], b)
    if o < 0x80 or o > 0x84:
        decodes('Status', [o], 'Unrecognised', b)


@harness(n=Int(0, 40), s=Str('n', 0, 255), split=['n'])
def unknown_status(n, s):
    assume(s not in STATUS)
    encodes('Status', s, [0x84])


@harness(i=Int(0, 8), o=Int(0, 255), b=Int(0, 255), split=['i'])
def response_status(i, o, b):
    decodes('Response-Status', [0x80 + i], RESPONSE[i], b)
    if o < 0x80 or o > 0x88:
        decodes('Response-Status', [o], 'Error-unspecified', b)


@harness(i=Int(0, 2), o=Int(0, 255), b=Int(0, 255), split=['i'])
def priority(i, o, b):
    decodes('Priority', [0x80 + i], PRIORITY[i], b)
    if o < 0x80 or o > 0x82:
        check(raises(DecodeError, MMSDecoder.decode_priority_value, PreviewIterator([o, b])), 'another priority octet is refused')


@harness(name=Enum('Delivery-Report', 'Read-Reply', 'Report-Allowed'), yes=Bool(), o=Int(0, 255), b=Int(0, 255), split=['name', 'yes'])
def flags(name, yes, o, b):
    decodes(name, [0x80 if yes else 0x81], yes, b)
    if o < 0x80 or o > 0x81:
        check(raises(DecodeError, MMSDecoder.decode_boolean_value, PreviewIterator([o, b])), 'another octet is refused')


@harness(hide=Bool(), o=Int(0, 255), b=Int(0, 255), split=['hide'])
def sender_visibility(hide, o, b):
    decodes('Sender-Visibility', [0x80 if hide else 0x81], 'Hide' if hide else 'Show', b)
    if o < 0x80 or o > 0x81:
        check(raises(DecodeError, MMSDecoder.decode_sender_visibility_value, PreviewIterator([o, b])), 'another octet is refused')


@harness(i=Int(0, 3), n=Int(1, 128), s=Str('n', allowed=R_TOKEN7), b=Int(0, 255), split=['i', 'n'], quick={'n': N[1:-1]}, thorough={})
def message_class(i, n, s, b):
    decodes('Message-Class', [0x80 + i], CLASSES[i], b)
    decodes('Message-Class', tstr(octets(s)), s, b)


@harness(n=Int(0, 200), s=Str('n', 1, 255), b=Int(0, 255), split=['n'], quick={'n': N}, thorough={})
def content_location(n, s, b):
    if n:
        assume(ord(s[0]) != 127)
    decodes('Content-Location', tstr(octets(s)), s, b)


@harness(k=Int(0, 30), d=Ints('k', 0, 255), b=Int(0, 255), split=['k'])
def message_size(k, d, b):
    if k:
        assume(d[0] > 0)
    n = from_digits(d, 256)
    if n < 0x80000000:
        encodes('Message-Size', n, [k] + d)
    decodes('Message-Size', [k] + d, n, b)


def dates(k, d):
    return datetime(1970, 1, 1) + timedelta(seconds=from_digits(d, 256))


@harness(k=Int(0, 28), d=Ints('k', 0, 255), b=Int(0, 255), split=['k'])
def date(k, d, b):
    """every date up to the year 9999, with or without leading zeros"""
    assume(from_digits(d, 256) < 253402300800)
    decodes('Date', [k] + d, dates(k, d), b)
    decodes('Expiry', [k + 2, 0x80, k] + d, dates(k, d), b)
    decodes('Delivery-Time', [k + 2, 0x80, k] + d, ('absolute', from_digits(d, 256)), b)


@harness(k=Int(0, 27), d=Ints('k', 0, 255), short=Int(0, 127), b=Int(0, 255), split=['k'])
def relative_times(k, d, short, b):
    decodes('Expiry', [k + 2, 0x81, k] + d, from_digits(d, 256), b)
    decodes('Delivery-Time', [k + 2, 0x81, k] + d, ('relative', from_digits(d, 256)), b)
    decodes('Expiry', [2, 0x81, 0x80 | short], short, b)
    decodes('Delivery-Time', [2, 0x81, 0x80 | short], ('relative', short), b)


@harness(o=Int(0, 255), b=Int(0, 255))
def unknown_time_token(o, b):
    if o < 0x80 or o > 0x81:
        check(raises(DecodeError, MMSDecoder.decode_expiry_value, PreviewIterator([2, o, b])), 'an unknown expiry token is refused')
        check(raises(DecodeError, MMSDecoder.decode_delivery_time_value, PreviewIterator([2, o, b])), 'an unknown delivery time token is refused')


@harness(major=Int(1, 7), minor=Int(-1, 14), b=Int(0, 255), split=['major', 'minor'])
def version(major, minor, b):
    if minor < 0:
        both('MMS-Version', '%d' % major, [0x80 | major << 4 | 15], b)
    else:
        both('MMS-Version', '%d.%d' % (major, minor), [0x80 | major << 4 | minor], b)


@harness(n=Int(1, 40), s=Str('n', 65, 122), b=Int(0, 255), split=['n'], thorough={})
def version_text(n, s, b):
    both('MMS-Version', s, tstr(octets(s)), b)


@harness(n=Int(1, 100), s=Str('n', allowed=R_TOKEN7), m=Int(0, 100), v=Str('m', 1, 255), b=Int(0, 255), split=['n', 'm'],
         quick={'n': list(range(1, 41)), 'm': [0, 1, 2, 3, 4, 5, 8, 13, 20, 40]}, thorough={'n': range(1, 60), 'm': list(range(0, 30)) + [60, 100]})
def application_header(n, s, m, v, b):
    assume(s not in MMS_CODE)
    if m:
        assume(ord(v[0]) != 127)
    exp = tstr(octets(s)) + tstr(octets(v))
    check_eq(list(MMSEncoder.encode_header(s, v)), exp, 'another field is encoded by name')
    it = PreviewIterator(exp + [b, 255])
    check_eq(MMSDecoder.decode_header(it), (s, v), 'decoding gives the field and its value')
    check_eq((it.next(), it.next()), (b, 255), 'decoding consumes exactly the octets of the field')


# ---------------------------------------------------------------- texts of any length, by loop contracts
def decodes_any(name, head, s, value, b):
    src = [0x80 | MMS_CODE[name]] + head + tstr(octets(s)) + [b, 255]
    texts_at((src, 1 + len(head), s))
    it = PreviewIterator(src)
    check_eq(MMSDecoder.decode_header(it), (name, value), 'decoding gives the field and its value')
    check_eq((it.next(), it.next()), (b, 255), 'decoding consumes exactly the octets of the field')


@harness(name=Enum('Message-ID', 'Transaction-Id', 'Content-Location'), n=Int(0, None, cap=3000), s=Str('n', 1, 255), b=Int(0, 255), split=['name'], inductive=True)
def texts_any(name, n, s, b):
    if n:
        assume(ord(s[0]) != 127)
    if name != 'Content-Location':
        encodes(name, s, tstr(octets(s)))
    decodes_any(name, [], s, s, b)


@harness(name=Enum('Bcc', 'Cc', 'Response-Text', 'Subject', 'To'), n=Int(1, None, cap=3000), s=Str('n', 1, 255), b=Int(0, 255), split=['name'], inductive=True)
def strings_any(name, n, s, b):
    assume(ord(s[0]) > 31 and ord(s[0]) != 127)
    encodes(name, s, tstr(octets(s)))
    decodes_any(name, [], s, s, b)


@harness(n=Int(1, 0xfffffff, cap=3000), s=Str('n', 1, 255), b=Int(0, 255), inductive=8)
def sender_any(n, s, b):
    assume(n < 0xfffff00)
    assume(ord(s[0]) > 31 and ord(s[0]) != 127)
    head = value_length(n + 2) + [0x80]
    encodes('From', s, head + tstr(octets(s)))
    decodes_any('From', head, s, s, b)


@harness(name=Enum('Bcc', 'Cc', 'Response-Text', 'Subject', 'To', 'From'), n=Int(190, 0xfffff00, cap=3000), s=Str('n', 1, 255), cs=Int(0, 2), b=Int(0, 255),
         split=['name', 'cs'], quick={'name': ['Subject', 'From']}, thorough={}, inductive=8)
def strings_with_charset_any(name, n, s, cs, b):
    assume(ord(s[0]) != 127)
    cv = [[0x80 | 0x6a], [2, 3, 0xe8], [127]][cs]
    head = value_length(len(cv) + n + 1) + cv
    if name == 'From':
        head = value_length(len(head) + n + 2) + [0x80] + head
    decodes_any(name, head, s, s, b)


@harness(n=Int(1, None, cap=3000), s=Str('n', allowed=R_TOKEN7), b=Int(0, 255), inductive=True)
def message_class_any(n, s, b):
    decodes_any('Message-Class', [], s, s, b)


@harness(n=Int(1, None, cap=3000), s=Str('n', allowed=R_TOKEN7), m=Int(0, None, cap=3000), v=Str('m', 1, 255), b=Int(0, 255), inductive=True)
def application_header_any(n, s, m, v, b):
    assume(n > 17)                             # no longer name is assigned
    if m:
        assume(ord(v[0]) != 127)
    exp = tstr(octets(s)) + tstr(octets(v))
    check_eq(list(MMSEncoder.encode_header(s, v)), exp, 'another field is encoded by name')
    src = exp + [b, 255]
    texts_at((src, 0, s), (src, n + 1, v))
    it = PreviewIterator(src)
    check_eq(MMSDecoder.decode_header(it), (s, v), 'decoding gives the field and its value')
    check_eq((it.next(), it.next()), (b, 255), 'decoding consumes exactly the octets of the field')


def fresh(f, v, w, more):
    """what an encoder gives out belongs to the caller"""
    a = f(v, w)
    before = list(a)
    a.extend(more)
    a[0] = 99
    b = f(v, w)
    check_eq(list(b), before, 'changing the octets given out does not change what is encoded next')
    del b[:]
    check_eq(list(f(v, w)), before, 'changing the octets given out does not change what is encoded next')


@harness(name=Enum('To', 'Subject', 'From', 'Transaction-Id', 'Message-Type', 'Status', 'MMS-Version', 'Message-Size', 'Own'), i=Int(0, 6), size=Int(0, 0x7fffffff), n=Int(0, 4), s=Str('n', 33, 126), more=Ints(2, 0, 255), split=['name', 'n'], quick={'n': [0, 3]}, thorough={})
def own_octets(name, i, size, n, s, more):
    v = s
    if name == 'Message-Type':
        v = TYPES[i]
    elif name == 'Status':
        v = STATUS[i % 5]
    elif name == 'MMS-Version':
        v = '1.%d' % i
    elif name == 'Message-Size':
        v = size
    fresh(MMSEncoder.encode_header, name, v, more)
