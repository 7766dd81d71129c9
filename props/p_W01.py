from vp import *
from wspspec import *
from array import array
from messaging.sms.wap import is_a_wap_push_notification, extract_push_notification, is_mms_notification
from messaging.mms.mms_pdu import MMSDecoder
from messaging.mms.message import MMSMessage


@harness(n=Int(0, 300), s=Str('n', 0, 255), split=['n'], quick={'n': list(range(0, 41)) + [100, 127, 128, 129, 140, 255, 256, 300]}, thorough={})
def recognition(n, s):
    r = is_a_wap_push_notification(s)
    check(r == (n >= 2 and ord(s[1]) == 6), 'a push has at least two octets, the second the Push type')
    check(r is True or r is False, 'the answer is a truth value')


@harness(bad=Enum(None, 6, 1.5, u'\x01\x06ab', (1, 6), [1, 6, 0]), n=Int(0, 5), a=Ints('n', 0, 255), u=Uni('n', 0, 255), split=['bad', 'n'], thorough={})
def refusals(bad, n, a, u):
    check(raises(TypeError, is_a_wap_push_notification, bad), 'anything but a string is refused')
    check(raises(TypeError, is_a_wap_push_notification, a), 'a list is refused')
    check(raises(TypeError, is_a_wap_push_notification, array('B', a)), 'an array is refused')
    check(raises(TypeError, is_a_wap_push_notification, u), 'a unicode text is refused')


def same(x, y):
    check_eq(x.headers, y.headers, 'the headers are those of the content')
    check_eq([(p.headers, p.data) for p in x.data_parts], [(p.headers, p.data) for p in y.data_parts], 'the parts are those of the content')


def text_field(code, s):
    return [0x80 | code] + tstr(s) + [0]


# fields of an MMS PDU; FROM and LOCATION make a notification
def content(which, t, size, date, tok):
    out = [0x8c, 0x82, 0x98] + octets('T1') + [0, 0x8d, 0x90]
    if which & 1:
        out += [0x89] + value_length(2 + len(t)) + [0x80] + octets(t) + [0]
    if which & 2:
        out += [0x83] + octets(t) + [0]
    if which & 4:
        out += [0x8e] + [2, size >> 8, size & 255]
    if which & 8:
        out += [0x85, 4, date >> 24 & 255, date >> 16 & 255, date >> 8 & 255, date & 255]
    if which & 16:
        out += [0x96] + octets(t) + [0]
    return out


@harness(h=Int(0, 16500), tid=Int(0, 255), f=Ints('h', 0, 255), which=Int(0, 31), n=Int(1, 30), t=Str('n', 33, 126), size=Int(0, 65535), date=Int(0, 0x7fffffff),
         split=['h', 'which', 'n'], quick={'h': [0, 1, 2, 3, 4, 10, 50, 126, 127, 128, 129, 130, 255, 256, 257, 300, 1000, 16383, 16384], 'which': [0, 1, 2, 3, 7, 19, 31], 'n': [6]},
         thorough={'h': [0, 1, 2, 3, 10, 60, 126, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 16383, 16384, 16500], 'n': [1, 6, 27, 28]})
def extraction(h, tid, f, which, n, t, size, date):
    """whatever the headers of the push hold, the content is what follows them"""
    c = content(which, t, size, date, None)
    push = text([tid, 6] + uv(h) + f + c)
    check(is_a_wap_push_notification(push), 'the push is recognised')
    m = extract_push_notification(push)
    same(m, MMSDecoder().decode_data(array('B', c)))
    check_eq(m.headers.get('From'), t if which & 1 else None, 'the sender')
    check_eq(m.headers.get('Content-Location'), t if which & 2 else None, 'the content location')
    check_eq(is_mms_notification(m) and True or False, which & 3 == 3, 'a notification has a sender and a content location')


@harness(h=Int(0, 300), tid=Int(0, 255), f=Ints('h', 0, 255), k=Int(0, 40), c=Ints('k', 0, 255), split=['h', 'k'], quick={'h': [3], 'k': [0, 1, 2]},
         thorough={'h': [0, 2, 128], 'k': [0, 1, 2, 3]}, bounded='contents of up to 3 octets')
def any_content(h, tid, f, k, c):
    """any octets: the content is decoded like the octets themselves, or refused like them"""
    push = text([tid, 6] + uv(h) + f + c)
    like_content(push, c)


def like_content(push, c):
    e, m = attempt(extract_push_notification, push)
    g, w = attempt(MMSMessage.from_data, array('B', c))
    check_eq(e, g, 'refused like the content')
    if e is None:
        same(m, w)


@harness(k=Int(0, 4), w=Enum('From', 'Content-Location', 'both', 'none', 'Content-location'), t=Str('k', 0, 255), extra=Bool(), split=['k', 'w', 'extra'], thorough={})
def notifications(k, w, t, extra):
    m = MMSMessage()
    if w in ('From', 'both'):
        m.headers['From'] = t
    if w in ('Content-Location', 'both'):
        m.headers['Content-Location'] = t
    if w == 'Content-location':
        m.headers[w] = t
        m.headers['From'] = t
    if extra:
        m.headers['To'] = t
        m.headers['Subject'] = t
    check_eq(is_mms_notification(m) and True or False, w == 'both', 'a notification has a sender and a content location')


UV = 'messaging.mms.wsp_pdu.Decoder.decode_uint_var'


@harness(m=Int(0, None, cap=3), g=Ints('m', 128, 255), z=Int(0, 127), h=Int(0, None, cap=3000), f=Ints('h', 0, 255), tid=Int(0, 255), k=Int(0, None, cap=300), c=Ints('k', 0, 255), inductive=True)
def any_push(m, g, z, h, f, tid, k, c):
    """headers and content of any length: what is decoded is the content (the decoder recording its data)"""
    V = fold('V', 0, lambda t, v: v * 128 + g[t] - 128)
    if SYMBOLIC:
        assume(V(m) * 128 + z == h)
    else:
        g = uv(h)[:-1]
        z = uv(h)[-1]
    push = text([tid, 6] + g + [z] + f + c)
    loop(UV, lambda e, i: {'uint': V(i), 'byte': (g + [z])[i], 'byte_iter': iter_at(e, i + 1)}, upto=m, entry=('byte_iter', lambda it: src_of(it)))
    check(is_a_wap_push_notification(push), 'the push is recognised')
    if not SYMBOLIC:
        like_content(push, c)
        return
    seen = []

    def decode_data(self, data):
        seen.append(data)
        return 'decoded'
    override(MMSDecoder, 'decode_data', decode_data)
    check_eq(extract_push_notification(push), 'decoded', 'the message decoded is given')
    check_eq(len(seen), 1, 'one message is decoded')
    check(isinstance(seen[0], array), 'the data are an array')
    check_eq(octets(seen[0]), c, 'the data are the octets after the headers of the push')


@harness(n=Int(0, None, cap=3000), s=Str('n', 0, 255), inductive=True)
def recognition_any(n, s):
    r = is_a_wap_push_notification(s)
    check(r == (n >= 2 and ord(s[1]) == 6), 'a push has at least two octets, the second the Push type')
    check(r is True or r is False, 'the answer is a truth value')
