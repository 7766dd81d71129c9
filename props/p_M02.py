from vp import *
from wspspec import *
from messaging.mms.wsp_pdu import Encoder, Decoder, EncodeError, DecodeError
from messaging.mms.iterator import PreviewIterator


@harness(n=Int(None, None), b=Int(0, 255))
def short_encode(n, b):
    exc, e = attempt(Encoder.encode_short_integer, n)
    if 0 <= n <= 127:
        check_eq((exc, e), (None, [n | 0x80]), 'a short integer is one octet with the top bit')
        it = PreviewIterator(e + [b])
        check_eq(Decoder.decode_short_integer(it), n, 'decoding a short integer gives it back')
        check_eq(it.next(), b, 'one octet is consumed')
        check_eq(Decoder.decode_short_integer_from_byte(e[0]), n, 'decoding from the octet gives it back')
    else:
        check_eq(exc, 'EncodeError', 'other integers are refused')


@harness(o=Int(0, 255), b=Int(0, 255))
def short_decode(o, b):
    it = PreviewIterator([o, b])
    exc, v = attempt(Decoder.decode_short_integer, it)
    exc2, v2 = attempt(Decoder.decode_short_integer_from_byte, o)
    if o >= 128:
        check_eq((exc, v), (None, o - 128), 'value of a short integer')
        check_eq((exc2, v2), (None, o - 128), 'value of a short integer octet')
        check_eq(it.next(), b, 'one octet is consumed')
    else:
        check_eq(exc, 'DecodeError', 'an octet without the top bit is refused')
        check_eq(exc2, 'DecodeError', 'an octet without the top bit is refused')
        check_eq(it.next(), o, 'a refused octet is not consumed')


@harness(k=Int(0, 32), d=Ints('k', 0, 255), b=Int(0, 255), split=['k'])
def long_encode(k, d, b):
    if k:
        assume(d[0] > 0)
    n = from_digits(d, 256)
    exc, e = attempt(Encoder.encode_long_integer, n)
    exc2, e2 = attempt(Encoder.encode_integer_value, n)
    if exc is None:
        check(k <= 30, 'a long integer has at most 30 octets')
        check_eq(e, [k] + d, 'a long integer is the number of octets and its big-endian octets')
        it = PreviewIterator(e + [b])
        check_eq(Decoder.decode_long_integer(it), n, 'decoding a long integer gives it back')
        check_eq(it.next(), b, 'exactly the encoded octets are consumed')
        check_eq(exc2, None, 'an encodable integer is encodable as an integer value')
        if k == 0 or k == 1 and d[0] < 128:
            check_eq(e2, [n | 0x80], 'a small integer value takes the short form')
        else:
            check_eq(e2, e, 'other integer values take the long form')
        it = PreviewIterator(e2 + [b])
        check_eq(Decoder.decode_integer_value(it), n, 'decoding an integer value gives it back')
        check_eq(it.next(), b, 'exactly the encoded octets are consumed')
    else:
        check_eq((exc, exc2), ('EncodeError', 'EncodeError'), 'a refused integer is refused with an encoding error')
        check(n >= 0x80000000, 'every plain integer is accepted')


@harness(n=Int(None, -1))
def negative(n):
    check(raises(EncodeError, Encoder.encode_long_integer, n), 'a negative long integer is refused')
    check(raises(EncodeError, Encoder.encode_integer_value, n), 'a negative integer value is refused')


@harness(l=Int(0, 255), k=Int(0, 30), d=Ints('k', 0, 255), b=Int(0, 255), split=['k'])
def long_decode(l, k, d, b):
    if l <= 30:
        assume(l == k)
        it = PreviewIterator([k] + d + [b])
        check_eq(Decoder.decode_long_integer(it), from_digits(d, 256), 'value of a long integer')
        check_eq(it.next(), b, 'exactly the octets of the long integer are consumed')
        it = PreviewIterator([k] + d + [b])
        check_eq(Decoder.decode_integer_value(it), from_digits(d, 256), 'value of a long integer value')
        check_eq(it.next(), b, 'exactly the octets of the integer value are consumed')
    else:
        it = PreviewIterator([l, b])
        check(raises(DecodeError, Decoder.decode_long_integer, it), 'other length octets are refused')
        check_eq(it.next(), l, 'a refused octet is not consumed')
        if l < 128:
            it = PreviewIterator([l, b])
            check(raises(DecodeError, Decoder.decode_integer_value, it), 'other octets are refused')
            check_eq(it.next(), l, 'a refused octet is not consumed')


@harness(o=Int(0, 255), b=Int(0, 255))
def uint_8(o, b):
    it = PreviewIterator([o, b])
    check_eq(Decoder.decode_uint_8(it), o, 'an octet decodes to its value')
    check_eq(it.next(), b, 'one octet is consumed')
    check_eq(Encoder.encode_uint_8(o), [o], 'an octet encodes to itself')


@harness(k=Int(1, 29), d=Ints('k', 0, 255), split=['k'])
def long_truncated(k, d):
    it = PreviewIterator([k + 1] + d)
    check(raises(StopIteration, Decoder.decode_long_integer, it), 'a truncated long integer is not decoded')
