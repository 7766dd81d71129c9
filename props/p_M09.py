from vp import *
from wspspec import *
from textcon import *
from messaging.mms.wsp_pdu import Decoder, DecodeError
from messaging.mms.mms_pdu import MMSDecoder
from messaging.mms.iterator import PreviewIterator

DECODERS = {'short integer': Decoder.decode_short_integer, 'short length': Decoder.decode_short_length,
            'value length': Decoder.decode_value_length, 'quoted string': Decoder.decode_quoted_string, 'token': Decoder.decode_token_text,
            'extension media': Decoder.decode_extension_media, 'constrained encoding': Decoder.decode_constrained_encoding,
            'constrained media': Decoder.decode_constrained_media, 'long integer': Decoder.decode_long_integer,
            'integer value': Decoder.decode_integer_value, 'boolean': MMSDecoder.decode_boolean_value,
            'priority': MMSDecoder.decode_priority_value, 'sender visibility': MMSDecoder.decode_sender_visibility_value,
            'message class': MMSDecoder.decode_message_class_value}
NAMES = Enum('short integer', 'short length', 'value length', 'quoted string', 'token', 'extension media', 'constrained encoding',
             'constrained media', 'long integer', 'integer value', 'boolean', 'priority', 'sender visibility', 'message class')


def refused(f, skip, d, exp_refused):
    """run f on the octets after `skip`; when refused the stream must be where it was"""
    it = PreviewIterator(d)
    for i in range(skip):
        check_eq(it.next(), d[i], 'the octets before the attempt are read in order')
    exc, v = attempt(f, it)
    if exc == 'DecodeError':
        # what another attempt sees, peeking or reading
        if skip < len(d):
            check_eq(it.preview(), d[skip], 'the next attempt peeks at the same octet')
            it.reset_preview()
        check_eq(list(it), d[skip:], 'no octet is consumed by a refused attempt')
    return exc


@harness(name=NAMES, n=Int(1, 40), d=Ints('n', 0, 255), skip=Int(0, 3), split=['name', 'n', 'skip'], quick={'n': [1, 2, 3, 4, 5, 6, 10], 'skip': [0, 2]},
         thorough={'n': [1, 2, 3, 4, 5, 6, 7, 8, 12, 20, 33], 'skip': [0, 1, 2, 3]})
def refused_attempts(name, n, d, skip):
    assume(skip < n)
    refused(DECODERS[name], skip, d, None)


@harness(n=Int(1, 30), o=Int(0, 255), d=Ints('n', 0, 255), skip=Int(0, 2), split=['n', 'skip'], thorough={})
def refused_field_name(n, o, d, skip):
    # a first octet that is not an MMS field name
    assume(o < 0x81 or o > 0x98)
    d = [1, 2][:skip] + [o] + d
    exc = refused(MMSDecoder.decode_mms_header, skip, d, True)
    check_eq(exc, 'DecodeError', 'an octet that is not an MMS field name is refused')


@harness(o=Int(0, 255), n=Int(0, 30), d=Ints('n', 0, 255), split=['n'], thorough={})
def which_are_refused(o, n, d):
    # the first octet decides
    d = [o] + d + [0]
    it = PreviewIterator(d)
    check_eq(attempt(Decoder.decode_short_integer, it)[0] == 'DecodeError', o < 128, 'short integers have the top bit')
    it = PreviewIterator(d)
    check_eq(attempt(Decoder.decode_short_length, it)[0] == 'DecodeError', o > 30, 'short lengths are up to 30')
    it = PreviewIterator(d)
    check_eq(attempt(Decoder.decode_quoted_string, it)[0] == 'DecodeError', o != 34, 'quoted strings start with a quotation mark')
    it = PreviewIterator(d)
    check_eq(attempt(Decoder.decode_extension_media, it)[0] == 'DecodeError', o < 32 or o == 127, 'media do not start with a control octet')
    it = PreviewIterator(d)
    check_eq(attempt(Decoder.decode_token_text, it)[0] == 'DecodeError', o < 32 or o in SEPARATORS, 'tokens do not start with a separator')


ALTERNATIVES = Enum('short integer', 'quoted string', 'token', 'value length', 'extension media', 'long integer')


@harness(first=ALTERNATIVES, second=ALTERNATIVES, n=Int(1, 20), d=Ints('n', 0, 255), split=['first', 'second', 'n'], quick={'n': [3, 6]}, thorough={'n': [1, 2, 3, 4, 5, 6, 9, 20]})
def alternatives(first, second, n, d):
    """trying an alternative after a refused one is trying it from the start"""
    it = PreviewIterator(d)
    exc, v = attempt(DECODERS[first], it)
    if exc == 'DecodeError':
        a = attempt(DECODERS[second], it)
        ra = list(it)
        it = PreviewIterator(d)
        b = attempt(DECODERS[second], it)
        rb = list(it)
        check_eq(a, b, 'the second alternative gives the same result')
        check_eq(ra, rb, 'and leaves the same octets')


@harness(name=NAMES, n=Int(1, None, cap=3000), d=Ints('n', 0, 255), skip=Int(0, 3), split=['name', 'skip'], inductive=True)
def refused_any(name, n, d, skip):
    """octets of any number"""
    assume(skip < n)
    any_octets()
    it = PreviewIterator(d)
    for i in range(skip):
        check_eq(it.next(), d[i], 'the octets before the attempt are read in order')
    exc, v = attempt(DECODERS[name], it)
    if exc == 'DecodeError':
        check_eq(it.preview(), d[skip], 'the next attempt peeks at the same octet')
        it.reset_preview()
        check_eq(left(it, d), d[skip:], 'no octet is consumed by a refused attempt')


@harness(o=Int(0, 255), n=Int(0, None, cap=3000), d=Ints('n', 0, 255), skip=Int(0, 2), split=['skip'], inductive=True)
def refused_field_any(o, n, d, skip):
    """an octet that is not an MMS field name, before octets of any number"""
    assume(o < 0x81 or o > 0x98)
    d = [1, 2][:skip] + [o] + d
    it = PreviewIterator(d)
    for i in range(skip):
        it.next()
    exc, v = attempt(MMSDecoder.decode_mms_header, it)
    check_eq(exc, 'DecodeError', 'an octet that is not an MMS field name is refused')
    check_eq(left(it, d), d[skip:], 'no octet is consumed by a refused attempt')
