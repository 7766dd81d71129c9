from vp import *
from wspspec import *
from array import array
from messaging.mms.wsp_pdu import Encoder, Decoder, EncodeError
from messaging.mms.iterator import PreviewIterator


@harness(k=Int(1, 40), d=Ints('k', 0, 127), b=Int(0, 255), split=['k'], thorough={},
         bounded='integers below 2**280')
def round_trip(k, d, b):
    if k > 1:
        assume(d[0] > 0)
    n = from_digits(d, 128)
    e = Encoder.encode_uint_var(n)
    check_eq(list(e), uintvar(d), 'the encoding is the base-128 digits with continuation bits')
    it = PreviewIterator(list(e) + [b, 255])
    check_eq(Decoder.decode_uint_var(it), n, 'decoding gives the integer back')
    check_eq((it.next(), it.next()), (b, 255), 'decoding consumes exactly the octets of the encoding')
    it = iter(array('B', e))
    check_eq(Decoder.decode_uint_var(it), n, 'decoding from an array gives the integer back')
    check(raises(StopIteration, it.next), 'the whole array is consumed')


@harness(n=Int(None, -1))
def negative(n):
    check(raises(EncodeError, Encoder.encode_uint_var, n), 'a negative integer is refused')


ENC = 'messaging.mms.wsp_pdu.Encoder.encode_uint_var'
DEC = 'messaging.mms.wsp_pdu.Decoder.decode_uint_var'


def number(c, z):
    """the integer whose encoding is c + [z], by its leading digits"""
    V = fold('V', 0, lambda t, v: v * 128 + c[t] - 128)
    return V(len(c)) * 128 + z, V


@harness(m=Int(0, None, cap=1500), c=Ints('m', 128, 255), z=Int(0, 127), inductive=True)
def encode_any_size(m, c, z):
    if m > 0:
        assume(c[0] != 128)
    n, V = number(c, z)
    pos = lemma('a number with a leading digit is positive', lambda j: V(j) > 0, 1, m)
    if m > 0:
        pos(m)

    def inv(i):
        if i < m:
            pos(m - i)
        return {'uint': V(m - i), 'uint_var': c[m - i:] + [z]}
    loop(ENC, inv, upto=m)
    check_eq(list(Encoder.encode_uint_var(n)), c + [z], 'the encoding is the base-128 digits with continuation bits')


@harness(m=Int(0, None, cap=1500), c=Ints('m', 128, 255), z=Int(0, 127), b=Int(0, 255), inductive=True)
def decode_any_size(m, c, z, b):
    n, V = number(c, z)
    pos = lemma('a number is not negative', lambda j: V(j) >= 0, 0, m)
    a = array('B', c + [z, b])

    def inv(i):
        pos(i)
        return {'uint': V(i), 'byte': (c + [z])[i], 'byte_iter': iter_at(a, i + 1)}
    loop(DEC, inv, upto=m)
    it = iter(a)
    check_eq(Decoder.decode_uint_var(it), n, 'decoding gives the integer back')
    check_eq(it.next(), b, 'decoding consumes exactly the octets of the encoding')
    check(raises(StopIteration, it.next), 'the whole array is consumed')


@harness(m=Int(0, None, cap=1500), c=Ints('m', 128, 255), z=Int(0, 127), b=Int(0, 255), inductive=True)
def decode_any_size_preview(m, c, z, b):
    n, V = number(c, z)
    pos = lemma('a number is not negative', lambda j: V(j) >= 0, 0, m)
    a = c + [z, b]

    def inv(i):
        pos(i)
        return {'uint': V(i), 'byte': (c + [z])[i], 'byte_iter._it': iter_at(a, i + 1),
                'byte_iter._cached_values': [], 'byte_iter._preview_pos': 0}
    loop(DEC, inv, upto=m)
    it = PreviewIterator(a)
    check_eq(Decoder.decode_uint_var(it), n, 'decoding gives the integer back')
    check_eq(it.next(), b, 'decoding consumes exactly the octets of the encoding')
    check(raises(StopIteration, it.next), 'the whole stream is consumed')
