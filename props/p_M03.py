from vp import *
from wspspec import *
from messaging.mms.wsp_pdu import Encoder, Decoder, EncodeError, DecodeError
from messaging.mms.iterator import PreviewIterator


@harness(k=Int(1, 10), d=Ints('k', 0, 127), b=Int(0, 255), split=['k'], bounded='lengths below 2**70')
def value_length_long(k, d, b):
    if k > 1:
        assume(d[0] > 0)
    else:
        assume(d[0] > 30)
    n = from_digits(d, 128)
    e = Encoder.encode_value_length(n)
    check_eq(e, [31] + uintvar(d), 'a length above 30 is the length-quote and a uintvar')
    it = PreviewIterator(e + [b])
    check_eq(Decoder.decode_value_length(it), n, 'decoding gives the length back')
    check_eq(it.next(), b, 'exactly the encoded octets are consumed')
    check(raises(EncodeError, Encoder.encode_short_length, n), 'a length above 30 is not a short length')


@harness(n=Int(None, 30), b=Int(0, 255))
def value_length_short(n, b):
    if n < 0:
        check(raises(EncodeError, Encoder.encode_short_length, n), 'a negative short length is refused')
        check(raises(EncodeError, Encoder.encode_value_length, n), 'a negative length is refused')
    else:
        e = Encoder.encode_value_length(n)
        check_eq(e, [n], 'a length up to 30 is one octet')
        check_eq(Encoder.encode_short_length(n), [n], 'a short length is one octet')
        it = PreviewIterator(e + [b])
        check_eq(Decoder.decode_value_length(it), n, 'decoding gives the length back')
        check_eq(it.next(), b, 'exactly the encoded octets are consumed')
        it = PreviewIterator(e + [b])
        check_eq(Decoder.decode_short_length(it), n, 'decoding gives the short length back')
        check_eq(it.next(), b, 'exactly the encoded octets are consumed')


@harness(o=Int(0, 255), b=Int(0, 255))
def length_octet(o, b):
    it = PreviewIterator([o, b])
    exc, v = attempt(Decoder.decode_short_length, it)
    if o <= 30:
        check_eq((exc, v, it.next()), (None, o, b), 'a short length is its octet')
    else:
        check_eq((exc, it.next()), ('DecodeError', o), 'other octets are refused and not consumed')
    if o != 31:
        it = PreviewIterator([o, b])
        exc, v = attempt(Decoder.decode_value_length, it)
        if o <= 30:
            check_eq((exc, v, it.next()), (None, o, b), 'a value length up to 30 is its octet')
        else:
            check_eq((exc, it.next()), ('DecodeError', o), 'other octets are refused and not consumed')


N = list(range(0, 101)) + [120, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300, 400]


@harness(n=Int(0, 400), s=Str('n', 1, 255), b=Int(0, 255), split=['n'], quick={'n': N}, thorough={})
def text_string(n, s, b):
    if n:
        assume(ord(s[0]) != 127)
    e = Encoder.encode_text_string(s)
    check_eq(e, tstr(octets(s)), 'a text string is its octets and a terminator')
    check_eq(Encoder.encode_text_value(s), e, 'a text value is its octets and a terminator')
    it = PreviewIterator(e + [b, b])
    check_eq(Decoder.decode_text_string(it), s, 'decoding gives the text back')
    check_eq((it.next(), it.next()), (b, b), 'exactly the octets up to the terminator are consumed')
    it = PreviewIterator([127] + e + [b])
    check_eq(Decoder.decode_text_string(it), s, 'one leading quote octet is removed')
    check_eq(it.next(), b, 'exactly the octets up to the terminator are consumed')
    it = PreviewIterator([34] + e + [b])
    check_eq(Decoder.decode_quoted_string(it), s, 'decoding a quoted string gives the text')
    check_eq(it.next(), b, 'exactly the octets up to the terminator are consumed')
    it = PreviewIterator(octets(s))
    check(raises(StopIteration, Decoder.decode_text_string, it), 'an unterminated text is not decoded')


@harness(n=Int(0, 400), s=Str('n', 1, 255), b=Int(0, 255), split=['n'], quick={'n': N}, thorough={})
def quoted_text(n, s, b):
    it = PreviewIterator([127] + tstr(octets(s)) + [b])
    check_eq(Decoder.decode_text_string(it), s, 'only the one leading quote octet is removed')
    check_eq(it.next(), b, 'exactly the octets up to the terminator are consumed')


@harness(n=Int(1, 400), s=Str('n', allowed=R_TOKEN), b=Int(0, 255), split=['n'], quick={'n': N[1:]}, thorough={})
def token(n, s, b):
    e = Encoder.encode_token_text(s)
    check_eq(e, tstr(octets(s)), 'a token is its octets and a terminator')
    it = PreviewIterator(e + [b, b])
    check_eq(Decoder.decode_token_text(it), s, 'decoding gives the token back')
    check_eq((it.next(), it.next()), (b, b), 'exactly the octets up to the terminator are consumed')


@harness(n=Int(0, 40), s=Str('n', 33, 255), sep=Int(0, 17), at=Int(0, 40), split=['n', 'at'], quick={'n': list(range(0, 13)) + [20, 40]}, thorough={})
def token_separator(n, s, sep, at):
    assume(at <= n)
    t = s[:at] + chr(SEPARATORS[sep]) + s[at:]
    check(raises(EncodeError, Encoder.encode_token_text, t), 'a token with a separator is refused')


@harness(n=Int(1, 400), s=Str('n', 1, 255), b=Int(0, 255), split=['n'], quick={'n': N[1:]}, thorough={})
def extension_media(n, s, b):
    exc, e = attempt(Encoder.encode_extension_media, s)
    c = ord(s[0])
    if c < 32 or c == 127:
        check_eq(exc, 'EncodeError', 'a media starting with a control octet is refused')
    else:
        check_eq((exc, e), (None, tstr(octets(s))), 'extension media is its octets and a terminator')
        it = PreviewIterator(e + [b, b])
        check_eq(Decoder.decode_extension_media(it), s, 'decoding gives the media back')
        check_eq((it.next(), it.next()), (b, b), 'exactly the octets up to the terminator are consumed')


# ---------------------------------------------------------------- any length, by loop contracts
WD = 'messaging.mms.wsp_pdu.Decoder.'
ENC = 'messaging.mms.wsp_pdu.Encoder.encode_uint_var'


def stream(seq, pos):
    """the preview iterator of a decoder in front of octet number pos"""
    return {'byte_iter._it': iter_at(seq, pos), 'byte_iter._cached_values': [], 'byte_iter._preview_pos': 0}


def reads(fun, var, src, s, off):
    """loop contract: i characters of s read, the octets of s being at off in the stream src"""
    n = len(s)

    def inv(i):
        d = stream(src, off + i + 1)
        d[var] = s[:i]
        d['byte'] = src[off + i]
        return d
    loop(WD + fun, inv, upto=n)


@harness(n=Int(0, None, cap=3000), s=Str('n', 1, 255), b=Int(0, 255), inductive=True)
def text_string_any(n, s, b):
    if n:
        assume(ord(s[0]) != 127)
    e = Encoder.encode_text_string(s)
    check_eq(e, tstr(octets(s)), 'a text string is its octets and a terminator')
    check_eq(Encoder.encode_text_value(s), e, 'a text value is its octets and a terminator')
    t = e + [b, b]
    it = PreviewIterator(t)
    reads('decode_text_string', 'decoded_string', t, s, 0)
    check_eq(Decoder.decode_text_string(it), s, 'decoding gives the text back')
    check_eq((it.next(), it.next()), (b, b), 'exactly the octets up to the terminator are consumed')


@harness(n=Int(0, None, cap=3000), s=Str('n', 1, 255), b=Int(0, 255), q=Enum(127, 34), inductive=True)
def quoted_text_any(n, s, b, q):
    if q == 34 and n:
        assume(ord(s[0]) != 127)
    t = [q] + tstr(octets(s)) + [b]
    it = PreviewIterator(t)
    reads('decode_text_string', 'decoded_string', t, s, 1)
    f = Decoder.decode_text_string if q == 127 else Decoder.decode_quoted_string
    check_eq(f(it), s, 'only the one leading quote octet is removed')
    check_eq(it.next(), b, 'exactly the octets up to the terminator are consumed')


@harness(n=Int(0, None, cap=3000), s=Str('n', 1, 255), inductive=True)
def unterminated_any(n, s):
    t = octets(s)
    it = PreviewIterator(t)
    if n:
        assume(ord(s[0]) != 127)
        loop(WD + 'decode_text_string', lambda i: dict(stream(t, i + 1), decoded_string=s[:i], byte=t[i]), upto=n - 1)
    check(raises(StopIteration, Decoder.decode_text_string, it), 'an unterminated text is not decoded')


@harness(n=Int(1, None, cap=3000), s=Str('n', allowed=R_TOKEN), b=Int(0, 255), inductive=True)
def token_any(n, s, b):
    e = Encoder.encode_token_text(s)
    check_eq(e, tstr(octets(s)), 'a token is its octets and a terminator')
    t = e + [b, b]
    it = PreviewIterator(t)
    reads('decode_token_text', 'token', t, s, 0)
    check_eq(Decoder.decode_token_text(it), s, 'decoding gives the token back')
    check_eq((it.next(), it.next()), (b, b), 'exactly the octets up to the terminator are consumed')


@harness(n=Int(1, None, cap=3000), s=Str('n', 1, 255), b=Int(0, 255), inductive=True)
def extension_media_any(n, s, b):
    exc, e = attempt(Encoder.encode_extension_media, s)
    c = ord(s[0])
    if c < 32 or c == 127:
        check_eq(exc, 'EncodeError', 'a media starting with a control octet is refused')
    else:
        check_eq((exc, e), (None, tstr(octets(s))), 'extension media is its octets and a terminator')
        t = e + [b, b]
        it = PreviewIterator(t)
        reads('decode_extension_media', 'media_value', t, s, 0)
        check_eq(Decoder.decode_extension_media(it), s, 'decoding gives the media back')
        check_eq((it.next(), it.next()), (b, b), 'exactly the octets up to the terminator are consumed')


@harness(n=Int(1, None, cap=3000), s=Str('n', 33, 255), m=Int(0, None, cap=3000), r=Str('m', 1, 255), sep=Int(0, 17), inductive=True)
def token_separator_any(n, s, m, r, sep):
    check(raises(EncodeError, Encoder.encode_token_text, s + chr(SEPARATORS[concrete(sep)]) + r), 'a token with a separator is refused')


@harness(m=Int(0, None, cap=1500), c=Ints('m', 128, 255), z=Int(0, 127), b=Int(0, 255), inductive=True)
def value_length_any(m, c, z, b):
    if m > 0:
        assume(c[0] != 128)
    else:
        assume(z > 30)
    V = fold('V', 0, lambda t, v: v * 128 + c[t] - 128)
    n = V(m) * 128 + z
    pos = lemma('a number with a leading digit is positive', lambda j: V(j) > 0, 1, m)
    if m > 0:
        pos(m)

    def enc(i):
        if i < m:
            pos(m - i)
        return {'uint': V(m - i), 'uint_var': c[m - i:] + [z]}
    loop(ENC, enc, upto=m)
    e = Encoder.encode_value_length(n)
    check_eq(e, [31] + c + [z], 'a length above 30 is the length-quote and a uintvar')
    t = e + [b]
    it = PreviewIterator(t)
    loop(WD + 'decode_uint_var', lambda i: dict(stream(t, i + 2), uint=V(i), byte=t[i + 1]), upto=m)
    check_eq(Decoder.decode_value_length(it), n, 'decoding gives the length back')
    check_eq(it.next(), b, 'exactly the encoded octets are consumed')
    check(raises(EncodeError, Encoder.encode_short_length, n), 'a length above 30 is not a short length')


def fresh(f, v, more):
    """what an encoder gives out belongs to the caller"""
    exc, a = attempt(f, v)
    if exc is None:
        before = list(a)
        a.extend(more)
        a[0] = 99
        b = f(v)
        check_eq(list(b), before, 'changing the octets given out does not change what is encoded next')
        del b[:]
        check_eq(list(f(v)), before, 'changing the octets given out does not change what is encoded next')
    else:
        check_eq(attempt(f, v), (exc, None), 'refused again')


@harness(v=Int(-1, 300), n=Int(1, 4), s=Str('n', 1, 255), more=Ints(2, 0, 255), name=Enum('value_length', 'short_length', 'uint_var', 'uint_8', 'short_integer', 'long_integer', 'integer_value', 'constrained_encoding'), split=['n', 'name'], quick={'n': [1, 3]}, thorough={})
def own_octets(v, n, s, more, name):
    fresh(getattr(Encoder, 'encode_' + name), v, more)


@harness(n=Int(1, 4), s=Str('n', 1, 255), more=Ints(2, 0, 255), name=Enum('text_string', 'token_text', 'text_value', 'extension_media', 'constrained_encoding', 'constrained_media', 'media_type', 'accept_value'), split=['n', 'name'], quick={'n': [1, 3]}, thorough={})
def own_text_octets(n, s, more, name):
    fresh(getattr(Encoder, 'encode_' + name), s, more)
