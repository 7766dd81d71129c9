from vp import *
from bits import *
from messaging.utils import unpack_msg, unpack_msg2, pack_8bits_to_7bits as packf, to_array, encode_bytes


@harness(k=Int(0, 150), o=Ints('k'), split=['k'], bounded='octet strings up to 150 octets; after 140 the loop has left at 160 septets')
def unpack_any(k, o):
    n = min(160, (8 * k) // 7)
    out = octets(unpack_msg(encode_bytes(o)))
    check_eq(len(out), n, 'as many septets as the octets hold, at most 160')
    for i in range(n):
        check_eq(out[i], septet_at(o, i), 'septet read from its bits')
    check_eq(octets(unpack_msg2(o)), out, 'both input forms agree')


@harness(n=Int(0, 160), g=Str('n', 0, 127), split=['n'])
def unpack_packed(n, g):
    h = packf(g)
    check_eq(unpack_msg(h[2:])[:n], g, 'packed septets come back')
    check_eq(unpack_msg2(to_array(h[2:]))[:n], g, 'packed septets come back from octets')
    check_eq(unpack_msg(h[2:].upper())[:n], g, 'upper-case digits read alike')
