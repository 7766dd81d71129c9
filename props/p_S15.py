from vp import *
from messaging.utils import swap, swap_number, encode_str, encode_bytes, to_array

HEX = '0123456789abcdef'


@harness(n=Int(0, 200), o=Ints('n'), split=['n'], bounded='up to 200 octets')
def hexadecimal(n, o):
    h = encode_bytes(o)
    check_eq(len(h), 2 * n, 'two digits per octet')
    for i in range(n):
        check_eq(h[2 * i], HEX[o[i] // 16], 'high digit, lower case')
        check_eq(h[2 * i + 1], HEX[o[i] % 16], 'low digit, lower case')
    check_eq(encode_str(text(o)), h, 'the same digits for a string')
    check_eq(octets(to_array(h)), o, 'reading back gives the same octets')
    check_eq(octets(to_array(h.upper())), o, 'reading back upper-case digits')


@harness(n=Int(0, 6000), o=Ints('n'), split=['n'], quick={'n': [255, 256, 257, 511, 513, 1025, 2047, 4097]}, thorough={'n': [255, 256, 257, 511, 512, 513, 1023, 1025, 2047, 2049, 4095, 4097, 5003]},
         bounded='selected sizes')
def large(n, o):
    h = encode_bytes(o)
    check_eq(len(h), 2 * n, 'two digits per octet')
    check(allof([h[2 * i] == HEX[o[i] // 16] and h[2 * i + 1] == HEX[o[i] % 16] for i in range(n)]), 'digits of the octets in order')
    check_eq(encode_str(text(o)), h, 'the same digits for a string')
    check_eq(octets(to_array(h)), o, 'reading back gives the same octets')
    r = swap(o)
    check_eq(len(r), n, 'same length')
    check(allof([r[i] == o[i + 1] and r[i + 1] == o[i] for i in range(0, n - 1, 2)]), 'pairs exchanged')
    check_eq(swap(r), o, 'swap is its own inverse')


@harness(n=Int(0, 64), o=Ints('n'), split=['n'], bounded='up to 64 elements')
def swapping(n, o):
    before = list(o)
    r = swap(o)
    check_eq(o, before, 'the argument is not modified')
    check_eq(len(r), n, 'same length')
    for i in range(0, n - 1, 2):
        check_eq(r[i], before[i + 1], 'pairs exchanged')
        check_eq(r[i + 1], before[i], 'pairs exchanged (second)')
    if n % 2:
        check_eq(r[n - 1], before[n - 1], 'odd last element kept')
    check_eq(swap(r), before, 'swap is its own inverse')
    h = list(encode_bytes(o))
    check_eq(swap(swap(h)), h, 'swap of digits is its own inverse')


@harness(n=Int(0, 20), d=Ints('n', 0, 9), split=['n'])
def address_digits(n, d):
    s = ''.join(['%d' % x for x in d])
    if n % 2:
        s += 'f'
    sw = ''.join(swap(list(s)))
    if n % 2:
        check_eq(swap_number(sw[:-2] + 'f' + sw[-1]), s[:-1], 'filler dropped (odd number of digits)')
    else:
        check_eq(swap_number(sw), s, 'digits of an address')


@harness(n=Int(2, 60), d=Str('n', allowed=[(48, 57), (97, 101)]), p=Int(0, 60), q=Int(0, 60), split=['n', 'p', 'q'],
         quick={'n': [2, 3, 11, 12, 19, 20, 21, 22, 40], 'p': [0, 1, 2, 10, 11, 17, 18, 19], 'q': [1, 2, 3, 10, 11, 12, 18, 19, 20, 21, 39]},
         thorough={'n': list(range(2, 30)), 'p': list(range(0, 24)), 'q': list(range(1, 30))}, bounded='two fillers at any places')
def address_fillers(n, d, p, q):
    assume(p < q and q < n)
    t = d[:p] + 'f' + d[p + 1:q] + 'f' + d[q + 1:]
    check_eq(swap_number(t), ''.join(swap(list(d[:p] + d[p + 1:q] + d[q + 1:]))), 'exactly the f digits are dropped')
    u = d[:q] + 'f' + d[q + 1:]
    check_eq(swap_number(u), ''.join(swap(list(d[:q] + d[q + 1:]))), 'exactly the f digit is dropped')


@harness(n=Int(0, 12), d=Str('n', allowed=[(48, 57), (97, 102)]), split=['n'])
def address_any(n, d):
    rest = [c for c in d if c != 'f']
    exp = swap(rest)
    check_eq(swap_number(d), ''.join(exp), 'exactly the f digits are dropped')
