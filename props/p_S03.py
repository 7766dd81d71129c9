from vp import *
from bits import *
from messaging.utils import pack_8bits_to_7bits as packf


@harness(n=Int(0, 160), g=Str('n', 0, 127), split=['n'])
def pack_plain(n, g):
    out = packf(g)
    k = (7 * n + 7) // 8
    check_eq(len(out), 2 + 2 * k, 'two digits per octet')
    check_eq(int(out[:2], 16), n, 'count octet')
    bs = unhex(out[2:])
    for i in range(n):
        check_eq(septet_at(bs, i), ord(g[i]), 'septet in its place')
    for b in range(7 * n, 8 * k):
        check_eq(bit(bs, b), 0, 'spare bits zero')


@harness(n=Int(0, 153), g=Str('n', 0, 127), h=Str(6), split=['n'])
def pack_header(n, g, h):
    # the caller passes one septet of fill before the text
    out = packf(' ' + g, h)
    k = (7 * (n + 7) + 7) // 8
    check_eq(len(out), 2 + 2 * k, 'two digits per octet with header')
    check_eq(int(out[:2], 16), n + 7, 'count octet includes seven septets')
    bs = unhex(out[2:])
    check_eq(bs[:6], octets(h), 'header octets first, unchanged')
    for i in range(n):
        check_eq(septet_at(bs, i + 7), ord(g[i]), 'septet of the text after the header')
    for b in range(7 * (n + 7), 8 * k):
        check_eq(bit(bs, b), 0, 'spare bits zero after the text')
