from vp import *
import gsm
from messaging.sms.gsm0338 import is_gsm_text


@harness(n=Int(0, 3), t=Uni('n', 0, 0xffff), split=['n'], bounded='any texts of up to 3 characters')
def any_text(n, t):
    exp = gsm.enc(t)
    r = attempt(t.encode, 'gsm0338')
    if exp is None:
        check(raises(UnicodeError, t.encode, 'gsm0338'), 'other characters raise UnicodeError')
        check(not is_gsm_text(t), 'a text with other characters is not GSM text')
    else:
        check_eq(r[0], None, 'GSM text is accepted')
        check_eq(octets(r[1]), exp, 'one septet per basic character, escape and septet per extension character')
        check(is_gsm_text(t) is True, 'a GSM text is recognised')
        check_eq(r[1].decode('gsm0338'), t, 'decoding gives the text back')


@harness(n=Int(0, 6), t=Uni('n', allowed=gsm.R_ALL), split=['n'], bounded='GSM texts of up to 6 characters')
def gsm_text(n, t):
    out = t.encode('gsm0338')
    check_eq(octets(out), gsm.enc(t), 'one septet per basic character, escape and septet per extension character')
    check_eq(out.decode('gsm0338'), t, 'decoding gives the text back')
    check(is_gsm_text(t) is True, 'a GSM text is recognised')


SIZES = list(range(0, 21)) + [60, 66, 67, 69, 70, 71, 133, 134, 139, 140, 141, 152, 153, 154, 159, 160, 161, 306, 1000]


def basics(g):
    return u''.join([gsm.DEC1[x] for x in g])


@harness(m=Int(0, 1000), k=Int(0, 40), w=Int(0, 40), a=Ints('m', allowed=gsm.R_SEPT), b=Ints('k', allowed=gsm.R_SEPT), c=Ints('w', allowed=gsm.R_SEPT),
         e=Ints(3, allowed=gsm.R_EXT), split=['m', 'k', 'w'], quick={'m': SIZES, 'k': [0, 1, 2, 3, 40], 'w': [0, 1, 2, 20]}, thorough={'m': SIZES, 'k': list(range(0, 12)) + [40], 'w': list(range(0, 8)) + [40]},
         bounded='three extension characters in texts of up to 1086 septets')
def long_text(m, k, w, a, b, c, e):
    t = basics(a) + gsm.EXT[e[0]] + basics(b) + gsm.EXT[e[1]] + basics(c) + gsm.EXT[e[2]]
    exp = a + [27, e[0]] + b + [27, e[1]] + c + [27, e[2]]
    out = t.encode('gsm0338')
    check_eq(octets(out), exp, 'one septet per basic character, escape and septet per extension character')
    check_eq(out.decode('gsm0338'), t, 'decoding gives the text back')
    check(is_gsm_text(t) is True, 'a GSM text is recognised')


@harness(m=Int(0, 1000), k=Int(0, 40), a=Ints('m', allowed=gsm.R_SEPT), x=Uni(1, 0, 0xffff), c=Uni('k', 0, 0xffff), ext=Bool(), e=Ints(1, allowed=gsm.R_EXT), split=['m', 'k', 'ext'],
         quick={'m': SIZES, 'k': list(range(0, 6)) + [40]}, thorough={}, bounded='other characters after up to 1000 GSM characters')
def foreign(m, k, a, x, c, ext, e):
    assume(gsm.enc(x) is None)
    t = basics(a) + (gsm.EXT[e[0]] if ext else u'') + x + c
    check(raises(UnicodeError, t.encode, 'gsm0338'), 'other characters raise UnicodeError wherever they are')
    check(not is_gsm_text(t), 'a text with other characters is not GSM text')


def septets(c):
    if c in gsm.ENC1:
        return chr(gsm.ENC1[c])
    return '\x1b' + chr(gsm.ENC2[c])


def encoded(t):
    return flat(septets, t, 's')


def encode_loop(t):
    loop('messaging.sms.gsm0338.encode', lambda i: {'': i <= len(t), 'result': joined(encoded(t[:i]))})


def decode_loop(t):
    n = len(t)
    loop('messaging.sms.gsm0338.decode', lambda i: {'': i <= n, 'result': joined(t[:i]), 'index': len(encoded(t[:i])),
                                                   'input_': unfold(septets, t, i, 's') if i < n else encoded(t)})


@harness(n=Int(0, None, cap=2000), t=Uni('n', allowed=gsm.R_ALL), inductive=True)
def text_any_length(n, t):
    encode_loop(t)
    out = t.encode('gsm0338')
    check_eq(out, encoded(t), 'one septet per basic character, escape and septet per extension character')
    decode_loop(t)
    check_eq(out.decode('gsm0338'), t, 'decoding gives the text back')
    check(is_gsm_text(t) is True, 'a GSM text is recognised')


@harness(m=Int(0, None, cap=2000), k=Int(0, None, cap=2000), a=Uni('m', allowed=gsm.R_ALL), x=Uni(1, 0, 0xffff), b=Uni('k', 0, 0xffff), inductive=True)
def foreign_any_length(m, k, a, x, b):
    assume(x not in gsm.ENC1 and x not in gsm.ENC2)
    encode_loop(a)
    t = a + x + b
    check(raises(UnicodeError, t.encode, 'gsm0338'), 'other characters raise UnicodeError wherever they are')
    check(not is_gsm_text(t), 'a text with other characters is not GSM text')


@harness(n=Int(0, 200), s=Str('n', 0, 127), split=['n'], quick={'n': [0, 1, 2, 3, 4, 20, 160]}, thorough={'n': [0, 1, 2, 3, 4, 5, 6, 50]}, bounded='byte strings of up to 200 ASCII characters')
def ascii_bytes(n, s):
    """ASCII byte strings are texts as well"""
    if n > 5:
        s = s[:3] + 'abc' * ((n - 3) // 3)
    exp = gsm.enc(unicode(s))
    if exp is None:
        check(raises(UnicodeError, s.encode, 'gsm0338'), 'other characters raise UnicodeError')
        check(not is_gsm_text(s), 'a text with other characters is not GSM text')
    else:
        check_eq(octets(s.encode('gsm0338')), exp, 'one septet per basic character, escape and septet per extension character')
        check(is_gsm_text(s) is True, 'a GSM text is recognised')
