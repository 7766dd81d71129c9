from vp import *
import gsm
import messaging.sms.gsm0338


@harness(n=Int(0, 4), s=Str('n'), errors=Enum('strict', 'replace', 'ignore'), split=['n', 'errors'], bounded='octet strings of up to 4 octets')
def decode_any(n, s, errors):
    exp = gsm.dec(octets(s), errors)
    if exp is None:
        check(raises(UnicodeError, s.decode, 'gsm0338', errors), 'strict decoding refuses octets above 0x7f')
    else:
        check_eq(s.decode('gsm0338', errors), exp, 'each octet is decoded once by the tables')


@harness(n=Int(0, 6), s=Str('n', 0, 127), errors=Enum('strict', 'replace', 'ignore'), split=['n', 'errors'], bounded='septet strings of up to 6 septets')
def decode_septets(n, s, errors):
    check_eq(s.decode('gsm0338', errors), gsm.dec(octets(s), errors), 'decoding is total on septets')


@harness(n=Int(0, 3), t=Uni('n', 0, 0xffff), replace=Bool(), split=['n', 'replace'], bounded='any texts of up to 3 characters')
def encode_lossy(n, t, replace):
    out = t.encode('gsm0338', 'replace' if replace else 'ignore')
    check_eq(octets(out), gsm.enc_lossy(t, replace), 'other characters give one replacement septet or none')


SIZES = [0, 1, 2, 3, 4, 6, 8, 16, 70, 140, 153, 160, 1000]


@harness(m=Int(0, 1000), k=Int(0, 20), a=Str('m', allowed=gsm.R_SEPT), x=Str(2), b=Str('k', allowed=gsm.R_SEPT), y=Str(1), errors=Enum('strict', 'replace', 'ignore'), split=['m', 'k', 'errors'],
         quick={'m': SIZES[:-1], 'k': [0, 3]}, thorough={'m': SIZES, 'k': [0, 1, 2, 20]}, bounded='arbitrary octets at three places of up to 1024 octets')
def decode_long(m, k, a, x, b, y, errors):
    s = a + x + b + y
    exp = gsm.dec(octets(s), errors)
    if exp is None:
        check(raises(UnicodeError, s.decode, 'gsm0338', errors), 'strict decoding refuses octets above 0x7f')
    else:
        check_eq(s.decode('gsm0338', errors), exp, 'each octet is decoded once by the tables')


@harness(m=Int(0, 1000), k=Int(0, 20), a=Uni('m', allowed=gsm.R_BASIC), x=Uni(1, 0, 0xffff), b=Uni('k', allowed=gsm.R_BASIC), y=Uni(1, 0, 0xffff), replace=Bool(), split=['m', 'k', 'replace'],
         quick={'m': SIZES[:-1], 'k': [0, 20]}, thorough={'m': SIZES, 'k': [0, 1, 2, 20]}, bounded='arbitrary characters at two places of up to 1022 characters')
def encode_long(m, k, a, x, b, y, replace):
    t = a + x + b + y
    out = t.encode('gsm0338', 'replace' if replace else 'ignore')
    check_eq(octets(out), gsm.enc_lossy(t, replace), 'other characters give one replacement septet or none')


# ---- any length: every octet string is a run of tokens (a plain octet, or an escape and the octet
# after it, written 256 + octet), perhaps with an escape left over at the end
TOK = [(0, 0x1a), (0x1c, 0xff), (0x100, 0x1ff)]
TOK7 = [(0, 0x1a), (0x1c, 0x7f), (0x100, 0x1ff)]


def tok_octets(t):
    return chr(t) if t < 256 else '\x1b' + chr(t - 256)


def tok_strict(t):
    return gsm.DEC1[t] if t < 256 else gsm.EXT.get(t - 256, u'\xa0')


def tok_replace(t):
    if t < 128:
        return gsm.DEC1[t]
    return u'?' if t < 256 else gsm.EXT.get(t - 256, u'\xa0')


def tok_ignore(t):
    if t < 128:
        return gsm.DEC1[t]
    return u'' if t < 256 else gsm.EXT.get(t - 256, u'\xa0')


def decode_loop(t, n, rest, f, last=0):
    # last: 1 if the rest is one left-over escape, which takes an iteration of its own
    loop('messaging.sms.gsm0338.decode', lambda i: {'': i <= n + last, 'result': joined(flat(f, t[:i], 'u') + (u'' if i <= n else u'\xa0')),
                                                   'index': len(flat(tok_octets, t[:i])) + (0 if i <= n else 1),
                                                   'input_': (unfold(tok_octets, t, i) if i < n else flat(tok_octets, t)) + rest})


@harness(n=Int(0, None, cap=2000), t=Ints('n', 0, 511, allowed=TOK7), esc=Bool(), inductive=True)
def decode_strict_any_length(n, t, esc):
    rest = '\x1b' if esc else ''
    decode_loop(t, n, rest, tok_strict, 1 if esc else 0)
    s = flat(tok_octets, t) + rest
    check_eq(s.decode('gsm0338'), flat(tok_strict, t, 'u') + (u'\xa0' if esc else u''), 'decoding is total on septets')


@harness(n=Int(0, None, cap=2000), m=Int(0, None, cap=300), t=Ints('n', 0, 511, allowed=TOK7), x=Int(0x80, 0xff), b=Str('m'), inductive=True)
def decode_refused_any_length(n, m, t, x, b):
    decode_loop(t, n, chr(x) + b, tok_strict)
    s = flat(tok_octets, t) + chr(x) + b
    check(raises(UnicodeError, s.decode, 'gsm0338'), 'strict decoding refuses octets above 0x7f')


@harness(n=Int(0, None, cap=2000), t=Ints('n', 0, 511, allowed=TOK), esc=Bool(), replace=Bool(), inductive=True)
def decode_lossy_any_length(n, t, esc, replace):
    rest = '\x1b' if esc else ''
    f = tok_replace if replace else tok_ignore
    decode_loop(t, n, rest, f, 1 if esc else 0)
    s = flat(tok_octets, t) + rest
    check_eq(s.decode('gsm0338', 'replace' if replace else 'ignore'), flat(f, t, 'u') + (u'\xa0' if esc else u''), 'each octet is decoded once by the tables')


def enc_replace(c):
    if c in gsm.ENC1:
        return chr(gsm.ENC1[c])
    if c in gsm.ENC2:
        return '\x1b' + chr(gsm.ENC2[c])
    return chr(gsm.LOOKALIKE.get(c, 0x3f))


def enc_ignore(c):
    if c in gsm.ENC1:
        return chr(gsm.ENC1[c])
    if c in gsm.ENC2:
        return '\x1b' + chr(gsm.ENC2[c])
    return ''


@harness(n=Int(0, None, cap=2000), t=Uni('n', 0, 0xffff), replace=Bool(), inductive=True)
def encode_lossy_any_length(n, t, replace):
    f = enc_replace if replace else enc_ignore
    loop('messaging.sms.gsm0338.encode', lambda i: {'': i <= n, 'result': joined(flat(f, t[:i]))})
    out = t.encode('gsm0338', 'replace' if replace else 'ignore')
    check_eq(out, flat(f, t), 'other characters give one replacement septet or none')
