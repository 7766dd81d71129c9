from vp import *
from wspspec import *
from textcon import *
from messaging.mms import wsp_pdu
from messaging.mms.wsp_pdu import Encoder, Decoder, get_header_field_names, get_well_known_parameters
from messaging.mms.iterator import PreviewIterator


def decodes(exp, media, params, b):
    it = PreviewIterator(exp + [b, 255])
    check_eq(Decoder.decode_content_type_value(it), (media, params), 'decoding gives the media type and its parameters')
    check_eq((it.next(), it.next()), (b, 255), 'decoding consumes exactly the octets of the content type')


def encodes(media, params, exp):
    e = Encoder.encode_content_type_value(media, params)
    check_eq(e, exp, 'octets of the content type')


def media_octets(i, s):
    """a well-known media (by number) or a text one"""
    if i < len(MEDIA):
        return MEDIA[i], [0x80 | i]
    return s, tstr(octets(s))


@harness(i=Int(0, 75), b=Int(0, 255), split=['i'])
def well_known_media(i, b):
    m = MEDIA[i]
    encodes(m, {}, [0x80 | i])
    decodes([0x80 | i], m, {}, b)
    check_eq(Encoder.encode_media_type(m), [0x80 | i], 'a well-known media type is a short integer')
    check_eq(Encoder.encode_constrained_media(m), [0x80 | i], 'a well-known constrained media is a short integer')
    for f in (Decoder.decode_media_type, Decoder.decode_constrained_media, Decoder.decode_well_known_media):
        it = PreviewIterator([0x80 | i, b])
        check_eq((f(it), it.next()), (m, b), 'decoding gives the media type')
    # the general form without parameters
    decodes([1, 0x80 | i], m, {}, b)
    decodes([31, 1, 0x80 | i], m, {}, b)


@harness(n=Int(1, 200), s=Str('n', 1, 255), b=Int(0, 255), split=['n'], quick={'n': list(range(1, 65)) + [100, 126, 127, 128, 200]}, thorough={})
def text_media(n, s, b):
    assume(32 <= ord(s[0]) <= 126)
    assume(s not in MEDIA)
    exp = tstr(octets(s))
    encodes(s, {}, exp)
    decodes(exp, s, {}, b)
    check_eq(Encoder.encode_media_type(s), exp, 'another media type is a text')
    check_eq(Encoder.encode_constrained_media(s), exp, 'another constrained media is a text')
    for f in (Decoder.decode_media_type, Decoder.decode_constrained_media):
        it = PreviewIterator(exp + [b])
        check_eq((f(it), it.next()), (s, b), 'decoding gives the media type')
    decodes(value_length(n + 1) + exp, s, {}, b)


def parameter(kind, k, v, t):
    """name, value and octets of a parameter"""
    if kind == 'level':
        return 'Level', '%d.%d' % (k % 7 + 1, k % 15), [0x82, 0x80 | (k % 7 + 1) << 4 | k % 15]
    if kind == 'type-number':
        return 'Type', k, [0x89, 0x80 | k]
    if kind == 'type-text':
        return 'Type', v, [0x89] + tstr(octets(v))
    if kind == 'name':
        return 'Name', v, [0x85] + tstr(octets(v))
    if kind == 'filename':
        return 'Filename', v, [0x86] + tstr(octets(v))
    if kind == 'start':
        return 'Start', v, [0x8a] + tstr(octets(v))
    if kind == 'start-info':
        return 'Start-info', v, [0x8b] + tstr(octets(v))
    if kind == 'padding':
        return 'Padding', k, [0x88, 0x80 | k]
    if kind == 'untyped-number':
        return t, k, tstr(octets(t)) + [0x80 | k]
    return t, v, tstr(octets(t)) + tstr(octets(v))


KINDS = Enum('level', 'type-number', 'type-text', 'name', 'filename', 'start', 'start-info', 'padding', 'untyped-number', 'untyped-text')
KNOWN = ['Q', 'Charset', 'Level', 'Type', 'Name', 'Filename', 'Differences', 'Padding', 'Start', 'Start-info', 'Comment', 'Domain', 'Path']


@harness(i=Enum(0, 3, 51, 75, 99), kind=KINDS, k=Int(0, 127), n=Int(1, 200), v=Str('n', allowed=R_TOKEN7), t=Str(4, allowed=R_TOKEN7),
         m=Str(7, allowed=R_TOKEN7), b=Int(0, 255), split=['i', 'kind', 'n'], quick={'n': list(range(1, 33)) + [40, 124, 125, 126, 127, 128]}, thorough={'n': range(1, 201)})
def one_parameter(i, kind, k, n, v, t, m, b):
    assume(m not in MEDIA)
    assume(t not in KNOWN)
    media, mo = media_octets(i, m)
    if kind == 'level':
        k = concrete(k)
    name, value, po = parameter(kind, k, v, t)
    check_eq(Encoder.encode_parameter(name, value), po, 'octets of the parameter')
    exp = value_length(len(mo) + len(po)) + mo + po
    encodes(media, {name: value}, exp)
    decodes(exp, media, {name: value}, b)


@harness(k=Int(2, 4), d=Ints('k', 0, 255), t=Str(3, allowed=R_TOKEN7), b=Int(0, 255), split=['k'])
def long_parameter(k, d, t, b):
    assume(d[0] > 0)
    assume(t not in KNOWN)
    n = from_digits(d, 256)
    assume(n < 0x80000000)
    po = tstr(octets(t)) + [k] + d
    check_eq(Encoder.encode_parameter(t, n), po, 'octets of the parameter')
    exp = value_length(1 + len(po)) + [0x83] + po
    encodes('text/plain', {t: n}, exp)
    decodes(exp, 'text/plain', {t: n}, b)


@harness(n=Int(0, 120), v=Str('n', 1, 255), w=Str('n', 1, 255), k=Int(0, 127), p=Int(0, 127), t=Str(4, allowed=R_TOKEN7), three=Int(0, 2), b=Int(0, 255),
         split=['n', 'three'], quick={'n': list(range(0, 33)) + [40, 58, 59, 60, 61, 62, 63, 64, 120]}, thorough={})
def several_parameters(n, v, w, k, p, t, three, b):
    assume(t not in KNOWN)
    if n:
        assume(ord(v[0]) != 127 and ord(w[0]) != 127)
    params = {'Start': v, 'Padding': p}
    size = 1 + 1 + n + 1 + 2
    if three:
        params['Name'] = w
        size += 1 + n + 1
    if three == 2:
        params[t] = k
        size += 4 + 1 + 1
    e = Encoder.encode_content_type_value('application/vnd.wap.multipart.related', params)
    head = value_length(size)
    check_eq(len(e), len(head) + size, 'every parameter is encoded once')
    check_eq(e[:len(head) + 1], head + [0xb3], 'the value length counts the octets of the media type and all parameters')
    check(allof([isinstance(x, int) for x in e]), 'the encoding is a flat list of octets')
    decodes(e, 'application/vnd.wap.multipart.related', params, b)


@harness(k=Int(0, 60), n=Int(0, 100), v=Str('n', allowed=R_TOKEN7), p=Int(0, 127), well=Bool(), b=Int(0, 255), split=['k', 'n', 'well'],
         quick={'k': [5, 8, 9, 12, 16, 17, 33, 60], 'n': [1, 4]}, thorough={'k': list(range(0, 40)) + [60], 'n': [0, 1, 4, 30, 100]}, bounded='up to 60 parameters, of selected lengths')
def many_parameters(k, n, v, p, well, b):
    assume(k or well)
    params = {}
    size = 1
    for i in range(k):
        # names of other applications, each with an own value
        name = 'X-%02d' % (i * 7 % 61)
        params[name] = v + '%02d' % i
        size += 4 + 1 + n + 2 + 1
    if well:
        params['Start'] = v
        params['Padding'] = p
        size += 1 + n + 1 + 2
    e = Encoder.encode_content_type_value('application/vnd.wap.multipart.related', params)
    head = value_length(size)
    check_eq(len(e), len(head) + size, 'every parameter is encoded once')
    check_eq(e[:len(head) + 1], head + [0xb3], 'the value length counts the octets of the media type and all parameters')
    decodes(e, 'application/vnd.wap.multipart.related', params, b)


CHARSETS = [(0x7ea, 'big5'), (0x3e8, 'iso-10646-ucs-2'), (4, 'iso-8859-1'), (5, 'iso-8859-2'), (6, 'iso-8859-3'), (7, 'iso-8859-4'),
            (8, 'iso-8859-5'), (9, 'iso-8859-6'), (10, 'iso-8859-7'), (11, 'iso-8859-8'), (12, 'iso-8859-9'), (0x11, 'shift_JIS'),
            (3, 'us-ascii'), (0x6a, 'utf-8')]


@harness(i=Int(0, 13), b=Int(0, 255), split=['i'])
def charset_parameter(i, b):
    n, name = CHARSETS[i]
    ch = [0x80 | n] if n < 128 else [2, n >> 8, n & 255]
    decodes([2 + len(ch), 0x83, 0x81] + ch, 'text/plain', {'Charset': name}, b)
    decodes([3, 0x83, 0x81, 127], 'text/plain', {'Charset': '*'}, b)


@harness(q=Int(1, 1099), b=Int(0, 255), split=['q'], thorough={})
def quality_parameter(q, b):
    o = uv(q)
    decodes([2 + len(o), 0x83, 0x80] + o, 'text/plain', {'Q': (q - 1) / 100.0 if q <= 100 else (q - 100) / 1000.0}, b)


@harness(v=Enum('1.1', '1.2', '1.3', '1.4'), x=Enum('1', '1.0', '1.5', '', '2.1', '1.10'), split=['v'])
def versions(v, x):
    check_eq(get_header_field_names(v), FIELDS[:FIELD_COUNT[v]], 'header field names of the version')
    params = get_well_known_parameters(v)
    exp = {}
    for n in PARAMS:
        if PARAMS[n][1] <= int(v[2]):
            exp[n] = PARAMS[n][0]
    got = {}
    for n in params:
        got[n] = params[n][0]
    check_eq(got, exp, 'parameters of the version')
    check(raises(ValueError, get_header_field_names, x), 'another version is refused')
    check(raises(ValueError, get_well_known_parameters, x), 'another version is refused')
    check_eq(get_header_field_names(), FIELDS[:FIELD_COUNT['1.2']], 'version 1.2 is the default')


@harness(i=Int(0, 55), n=Int(0, 100), s=Str('n', 1, 255), b=Int(0, 255), split=['i', 'n'], quick={'n': [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 30, 40]}, thorough={'n': range(0, 61)})
def part_header(i, n, s, b):
    name = FIELDS[i]
    if name == 'Accept':
        return
    if name == 'Pragma':
        it = PreviewIterator([0x80 | i, 0x80, b])
        check_eq((Decoder.decode_header(it), it.next()), (('Pragma', ('Cache-control', 'No-cache')), b), 'the no-cache pragma')
        return
    if n:
        assume(ord(s[0]) != 127)
    exp = [0x80 | i] + tstr(octets(s))
    check_eq(list(Encoder.encode_header(name, s)), exp, 'a field is encoded as its assigned octet and its text')
    it = PreviewIterator(exp + [b])
    check_eq((Decoder.decode_header(it), it.next()), ((name, s), b), 'decoding gives the field and its text')


@harness(i=Int(0, 75), n=Int(1, 60), s=Str('n', 1, 255), b=Int(0, 255), split=['i', 'n'], quick={'n': [1, 2, 8]}, thorough={'n': [1, 2, 3, 8, 9, 10, 20, 31, 60]})
def accept_header(i, n, s, b):
    assume(32 <= ord(s[0]) <= 126)
    assume(s not in MEDIA)
    for v, mo in ((MEDIA[i], [0x80 | i]), (s, tstr(octets(s)))):
        exp = [0x80] + mo
        check_eq(list(Encoder.encode_header('Accept', v)), exp, 'octets of the accept field')
        it = PreviewIterator(exp + [b])
        check_eq((Decoder.decode_header(it), it.next()), (('Accept', v), b), 'decoding gives the media range')


@harness(n=Int(1, 100), s=Str('n', allowed=R_TOKEN7), m=Int(0, 100), v=Str('m', 1, 255), b=Int(0, 255), split=['n', 'm'],
         quick={'n': list(range(1, 31)), 'm': [0, 1, 2, 3, 5, 8, 20]}, thorough={'n': range(1, 60), 'm': [0, 1, 2, 3, 4, 5, 10, 20, 60]})
def application_header(n, s, m, v, b):
    assume(s not in FIELDS[:56])
    if m:
        assume(ord(v[0]) != 127)
    exp = tstr(octets(s)) + tstr(octets(v))
    check_eq(list(Encoder.encode_header(s, v)), exp, 'another field is encoded by name')
    it = PreviewIterator(exp + [b])
    check_eq((Decoder.decode_header(it), it.next()), ((s, v), b), 'decoding gives the field and its text')


# ---------------------------------------------------------------- texts of any length, by loop contracts
BIG = 0xfffff00
FORM = 'messaging.mms.wsp_pdu.Decoder.decode_content_general_form'


def decodes_any(exp, media, params, b, segs, size=None):
    """segs: (position, text); in the general form, of the size octets after the value length"""
    src = exp + [b, 255]
    if size is None:
        texts_at(*[(src, p, s) for p, s in segs])
    else:
        inner = exp[len(exp) - size:]
        texts_at(*[(inner, p, s) for p, s in segs])
        copies(FORM, 0, 'byte_iter', 'ct_field_bytes', octet_array, size)
    it = PreviewIterator(src)
    check_eq(Decoder.decode_content_type_value(it), (media, params), 'decoding gives the media type and its parameters')
    check_eq((it.next(), it.next()), (b, 255), 'decoding consumes exactly the octets of the content type')


@harness(n=Int(65, BIG, cap=3000), s=Str('n', 1, 255), b=Int(0, 255), form=Bool(), split=['form'], inductive=8)
def text_media_any(n, s, b, form):
    assume(32 <= ord(s[0]) <= 126)
    exp = tstr(octets(s))
    if form:
        decodes_any(value_length(n + 1) + exp, s, {}, b, [(0, s)], n + 1)
        return
    encodes(s, {}, exp)
    check_eq(Encoder.encode_media_type(s), exp, 'another media type is a text')
    check_eq(Encoder.encode_constrained_media(s), exp, 'another constrained media is a text')
    decodes_any(exp, s, {}, b, [(0, s)])
    for f in (Decoder.decode_media_type, Decoder.decode_constrained_media):
        src = exp + [b]
        texts_at((src, 0, s))
        it = PreviewIterator(src)
        check_eq((f(it), it.next()), (s, b), 'decoding gives the media type')


@harness(i=Enum(0, 51, 99), kind=Enum('type-text', 'name', 'filename', 'start', 'start-info', 'untyped-text'), n=Int(1, BIG, cap=3000), v=Str('n', allowed=R_TOKEN7), t=Str(4, allowed=R_TOKEN7),
         m=Str(7, allowed=R_TOKEN7), b=Int(0, 255), split=['i', 'kind'], inductive=8)
def one_parameter_any(i, kind, n, v, t, m, b):
    assume(m not in MEDIA)
    assume(t not in KNOWN)
    media, mo = media_octets(i, m)
    name, value, po = parameter(kind, 0, v, t)
    check_eq(Encoder.encode_parameter(name, value), po, 'octets of the parameter')
    size = len(mo) + len(po)
    exp = value_length(size) + mo + po
    encodes(media, {name: value}, exp)
    decodes_any(exp, media, {name: value}, b, [(0, m), (len(mo), t), (size - n - 1, v)], size)


@harness(i=Int(0, 55), n=Int(0, None, cap=3000), s=Str('n', 1, 255), b=Int(0, 255), split=['i'], inductive=True)
def part_header_any(i, n, s, b):
    name = FIELDS[i]
    if name == 'Accept' or name == 'Pragma':
        return
    if n:
        assume(ord(s[0]) != 127)
    exp = [0x80 | i] + tstr(octets(s))
    check_eq(list(Encoder.encode_header(name, s)), exp, 'a field is encoded as its assigned octet and its text')
    src = exp + [b]
    texts_at((src, 1, s))
    it = PreviewIterator(src)
    check_eq((Decoder.decode_header(it), it.next()), ((name, s), b), 'decoding gives the field and its text')


@harness(n=Int(21, None, cap=3000), s=Str('n', allowed=R_TOKEN7), m=Int(0, None, cap=3000), v=Str('m', 1, 255), b=Int(0, 255), inductive=True)
def application_header_any(n, s, m, v, b):
    if m:
        assume(ord(v[0]) != 127)
    exp = tstr(octets(s)) + tstr(octets(v))
    check_eq(list(Encoder.encode_header(s, v)), exp, 'another field is encoded by name')
    src = exp + [b]
    texts_at((src, 0, s), (src, n + 1, v))
    it = PreviewIterator(src)
    check_eq((Decoder.decode_header(it), it.next()), ((s, v), b), 'decoding gives the field and its text')


def fresh(f, v, w, more):
    """what an encoder gives out belongs to the caller"""
    a = f(v, w)
    before = list(a)
    a.extend(more)
    a[0] = 99
    b = f(v, w)
    check_eq(list(b), before, 'changing the octets given out does not change what is encoded next')
    del b[:]
    check_eq(list(f(v, w)), before, 'changing the octets given out does not change what is encoded next')


@harness(i=Int(0, 76), n=Int(1, 4), s=Str('n', allowed=R_TOKEN7), more=Ints(2, 0, 255), which=Int(0, 3), split=['n', 'which', 'i'], quick={'n': [1, 3], 'i': [0, 3, 51, 76]}, thorough={})
def own_octets(i, n, s, more, which):
    p = {}
    if which & 1:
        p['Name'] = s
    if which & 2:
        p['X-own'] = s
    fresh(Encoder.encode_content_type_value, MEDIA[i] if i < 76 else s, p, more)
    fresh(Encoder.encode_header, ('Accept', 'Etag', 'Content-ID')[which % 3], s, more)
    check_eq(p.get('Name'), s if which & 1 else None, 'encoding leaves the parameters as they were')
