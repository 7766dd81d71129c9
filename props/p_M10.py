from vp import *
from wspspec import *
from textcon import *
from array import array
from messaging.mms.wsp_pdu import Decoder, DecodeError
from messaging.mms.mms_pdu import MMSDecoder
from messaging.mms.message import MMSMessage
from messaging.mms.iterator import PreviewIterator

PRIMITIVES = {'uint_8': Decoder.decode_uint_8, 'uint_var': Decoder.decode_uint_var, 'short_integer': Decoder.decode_short_integer,
              'long_integer': Decoder.decode_long_integer, 'text_string': Decoder.decode_text_string, 'quoted_string': Decoder.decode_quoted_string,
              'token_text': Decoder.decode_token_text, 'extension_media': Decoder.decode_extension_media,
              'constrained_encoding': Decoder.decode_constrained_encoding, 'short_length': Decoder.decode_short_length,
              'value_length': Decoder.decode_value_length, 'integer_value': Decoder.decode_integer_value,
              'content_type_value': Decoder.decode_content_type_value, 'media_type': Decoder.decode_media_type,
              'parameter': Decoder.decode_parameter, 'version_value': Decoder.decode_version_value, 'text_value': Decoder.decode_text_value,
              'well_known_charset': Decoder.decode_well_known_charset, 'well_known_media': Decoder.decode_well_known_media, 'header': Decoder.decode_header,
              'encoded_string': MMSDecoder.decode_encoded_string_value, 'boolean': MMSDecoder.decode_boolean_value,
              'from': MMSDecoder.decode_from_value, 'message_class': MMSDecoder.decode_message_class_value,
              'priority': MMSDecoder.decode_priority_value, 'status': MMSDecoder.decode_status_value,
              'response_status': MMSDecoder.decode_response_status_value, 'message_type': MMSDecoder.decode_message_type_value,
              'sender_visibility': MMSDecoder.decode_sender_visibility_value, 'delivery_time': MMSDecoder.decode_delivery_time_value}


class Source(object):
    """an octet source that records how it is read"""

    def __init__(self, data):
        self.data = data
        self.pos = 0
        self.over = 0

    def __iter__(self):
        return self

    def next(self):
        if self.pos >= len(self.data):
            self.over += 1
            raise StopIteration
        self.pos += 1
        return self.data[self.pos - 1]


ALL = Enum('uint_8', 'uint_var', 'short_integer', 'long_integer', 'text_string', 'quoted_string', 'token_text', 'extension_media',
           'constrained_encoding', 'short_length', 'value_length', 'integer_value', 'content_type_value', 'media_type', 'parameter',
           'version_value', 'text_value', 'well_known_charset', 'header', 'encoded_string', 'boolean', 'from', 'message_class', 'priority',
           'status', 'response_status', 'message_type', 'sender_visibility', 'delivery_time')
ANY = Enum('well_known_media', 'uint_8', 'uint_var', 'short_integer', 'long_integer', 'text_string', 'quoted_string', 'token_text', 'extension_media',
           'constrained_encoding', 'short_length', 'value_length', 'integer_value', 'content_type_value', 'media_type', 'parameter',
           'version_value', 'text_value', 'well_known_charset', 'header', 'encoded_string', 'boolean', 'from', 'message_class', 'priority',
           'status', 'response_status', 'message_type', 'sender_visibility', 'delivery_time')


@harness(name=ALL, n=Int(0, 40), d=Ints('n', 0, 255), more=Ints(2, 0, 255), split=['name', 'n'], quick={'n': [0, 1, 2, 3]}, thorough={'n': [0, 1, 2, 3, 4, 5]},
         bounded='up to 5 octets')
def primitives(name, n, d, more):
    f = PRIMITIVES[name]
    src = Source(d)
    it = PreviewIterator(src)
    exc, v = attempt(f, it)
    check(src.pos <= n and src.over <= 2, 'a decoder stops when the octets end')
    if exc is None:
        rest = list(it)
        used = n - len(rest)
        check_eq(rest, d[used:], 'octets are consumed in order, each once')
        # the value depends only on the octets consumed
        it = PreviewIterator(d[:used] + more)
        exc, w = attempt(f, it)
        # (a No-value and an unknown message type are told by looking at an octet that is left in place)
        looked = name == 'message_type' or name == 'text_value' and len(v) == 0 or name == 'parameter' and type(v[1]) == str and len(v[1]) == 0
        if not looked:
            check_eq((exc, w), (None, v), 'the value depends only on the octets consumed')
            check_eq(list(it), more, 'the octets that follow are not consumed')
        # and on all of them
        if used:
            exc, w = attempt(f, PreviewIterator(d[:used - 1]))
            check(exc is not None, 'truncated octets are not decoded')


@harness(l=Int(0, 30), n=Int(0, 29), d=Ints('n', 0, 255), what=Enum('long integer', 'content type', 'date'), split=['n', 'what'], quick={'n': [0, 1, 2, 5, 29]}, thorough={})
def short_data(l, n, d, what):
    assume(l > n)
    it = PreviewIterator([l] + d)
    if what == 'long integer':
        check(raises(StopIteration, Decoder.decode_long_integer, it), 'a long integer beyond the data is not decoded')
    elif what == 'content type':
        check(raises(StopIteration, Decoder.decode_content_general_form, it), 'a content type beyond the data is not decoded')
    else:
        check(raises(StopIteration, Decoder.decode_date_value, it), 'a date beyond the data is not decoded')


HEAD = [0x8c, 0x84, 0x98, 0x31, 0, 0x8d, 0x90, 0x84, 0xa3]


@harness(n=Int(0, 40), d=Ints('n', 0, 255), split=['n'], quick={'n': [0, 1, 2, 3]}, thorough={'n': [0, 1, 2, 3, 4]}, bounded='up to 4 octets after the headers')
def message_bodies(n, d):
    """any body: decoded or refused, every octet read once"""
    exc, m = attempt(MMSMessage.from_data, array('B', HEAD + d))
    if exc is None:
        size = 0
        for p in m.data_parts:
            size += len(p)
        check(size <= n, 'the parts hold no more octets than the data')
        check(len(m.data_parts) * 2 <= n, 'every part takes at least its two lengths')


@harness(n=Int(0, 40), d=Ints('n', 0, 255), split=['n'], quick={'n': [0, 1, 2]}, thorough={'n': [0, 1, 2, 3]}, bounded='up to 3 octets')
def messages(n, d):
    """any octets: decoded or refused"""
    exc, m = attempt(MMSMessage.from_data, array('B', d))
    if exc is None:
        check(len(m.headers) <= 4 + n, 'no more headers than octets')
        check_eq(len(m.data_parts), 0, 'no parts')


@harness(count=Int(1, 300), parts=Int(0, 3), h=Int(0, 300), l=Int(0, 20000), n=Int(0, 40), d=Ints('n', 0, 255), split=['parts', 'n'], quick={'n': [0, 1, 5]},
         thorough={'n': [0, 1, 2, 5, 17, 40]})
def counts_and_lengths(count, parts, h, l, n, d):
    """a message whose part count or lengths exceed its data is refused"""
    one = [1, 2, 0x83, 0x41, 0x42]
    # a count above the number of parts present
    if count > parts:
        c = [count] if count < 128 else [0x80 | count >> 7, count & 127]
        check(raises(StopIteration, MMSMessage.from_data, array('B', HEAD + c + one * parts)), 'a count above the number of parts is refused')
    # lengths beyond the data
    hv = [h] if h < 128 else [0x80 | h >> 7, h & 127]
    lv = [l] if l < 128 else [0x80 | l >> 7, l & 127] if l < 16384 else [0x80 | l >> 14, 0x80 | l >> 7 & 127, l & 127]
    if h > n:
        check(raises(StopIteration, MMSMessage.from_data, array('B', HEAD + [parts + 1] + one * parts + hv + [0] + d)), 'a header length beyond the data is refused')
    if l > n:
        check(raises(StopIteration, MMSMessage.from_data, array('B', HEAD + [parts + 1] + one * parts + [1] + lv + [0x83] + d)), 'a data length beyond the data is refused')
    else:
        m = MMSMessage.from_data(array('B', HEAD + [parts + 1] + one * parts + [1] + lv + [0x83] + d))
        check_eq(len(m.data_parts), parts + 1, 'the number of parts')
        check_eq(octets(m.data_parts[parts].data), d[:l], 'a part holds exactly its octets')


STRINGS = Enum('uint_var', 'text_string', 'quoted_string', 'token_text', 'extension_media', 'constrained_encoding', 'integer_value', 'version_value', 'encoded_string', 'message_class', 'long_integer')


@harness(name=STRINGS, n=Int(4, 40), d=Ints('n', 0, 255), more=Ints(2, 0, 255), split=['name', 'n'], quick={'n': [4, 5, 6, 9, 12]}, thorough={'n': list(range(4, 20)) + [32, 40]}, bounded='up to 40 octets')
def long_primitives(name, n, d, more):
    f = PRIMITIVES[name]
    src = Source(d)
    it = PreviewIterator(src)
    exc, v = attempt(f, it)
    check(src.pos <= n and src.over <= 2, 'a decoder stops when the octets end')
    if exc is None:
        rest = list(it)
        used = n - len(rest)
        check_eq(rest, d[used:], 'octets are consumed in order, each once')
        it = PreviewIterator(d[:used] + more)
        check_eq(attempt(f, it), (None, v), 'the value depends only on the octets consumed')
        check_eq(list(it), more, 'the octets that follow are not consumed')
        exc, w = attempt(f, PreviewIterator(d[:used - 1]))
        check(exc is not None, 'truncated octets are not decoded')


@harness(count=Enum(2 ** 31 - 1, 2 ** 31, 2 ** 40, 2 ** 31 - 2), place=Enum('parts', 'headers', 'data', 'type', 'from', 'part type'), n=Int(0, 20), d=Ints('n', 0, 255), split=['count', 'place', 'n'],
         quick={'n': [0, 1, 3]}, thorough={'n': [0, 1, 2, 3]})
def huge_lengths(count, place, n, d):
    """counts and lengths of gigabytes in a few octets are refused at once"""
    u = uintvar(count)
    if place == 'parts':
        # (a part of no octets would be read over and over if the rest could hold one)
        b = HEAD + u + [1, n + 1, 0x83] + d
        d = []
    elif place == 'headers':
        b = HEAD + [1] + u + [0] + d
    elif place == 'data':
        b = HEAD + [1, 1] + u + [0x83] + d
    elif place == 'type':
        b = HEAD[:-1] + [31] + u + [0x83] + d
    elif place == 'from':
        b = [0x89, 31] + u + [0x80, 65, 66]
    else:
        b = HEAD + [1, n + 8, 0, 31] + u + d
    if place == 'from':
        # the stated length of a sender is not used, the text ends by itself
        m = MMSMessage.from_data(array('B', b + [0]))
        check_eq(m.headers['From'], 'AB', 'a sender')
        return
    check(raises((StopIteration, OverflowError, RuntimeError), MMSMessage.from_data, array('B', b)), 'a count or length beyond the data is refused')


def uintvar(n):
    b = [n & 127]
    n >>= 7
    while n:
        b.insert(0, 0x80 | n & 127)
        n >>= 7
    return b


# decoders by contract in the harnesses of those that use them: what they give, and the
# exceptions besides StopIteration
CONTRACTS = {'value_length': (lambda: someint(0), [DecodeError]), 'integer_value': (lambda: someint(0), [DecodeError]),
             'well_known_media': (lambda: sometext(), [DecodeError]), 'text_string': (lambda: sometext(), []),
             'token_text': (lambda: sometext(), [DecodeError]), 'extension_media': (lambda: sometext(), [DecodeError]),
             'text_value': (lambda: sometext(), [], 0), 'well_known_charset': (lambda: sometext(), [DecodeError]),
             'parameter': (lambda: (sometext(), opaque()), [DecodeError, ValueError, AttributeError, TypeError]),
             'content_type_value': (lambda: (sometext(), opaque()), [DecodeError, ValueError, AttributeError, TypeError, OverflowError]),
             'encoded_string': (lambda: sometext(), [DecodeError, Exception]),
             'header': (lambda: (sometext(), opaque()), [DecodeError, ValueError, AttributeError, TypeError, OverflowError])}


def given(name, v):
    """the value is of the kind the contract says"""
    if name == 'value_length' or name == 'integer_value':
        return isinstance(v, (int, long)) and v >= 0
    if name == 'parameter' or name == 'content_type_value' or name == 'header':
        return isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str)
    return isinstance(v, str)


def callees(name):
    any_octets()
    if SYMBOLIC:
        for c in CONTRACTS:
            if c != name:
                if c == 'encoded_string':
                    override(MMSDecoder, 'decode_encoded_string_value', by_contract(*CONTRACTS[c]))
                else:
                    override(Decoder, 'decode_' + c, by_contract(*CONTRACTS[c]))


@harness(name=ANY, n=Int(0, None, cap=3000), d=Ints('n', 0, 255), split=['name'], inductive=True)
def any_primitives(name, n, d):
    """every decoder on any octets of any number: it stops, with a value or an exception, and
    leaves the octets it has not read"""
    f = PRIMITIVES[name]
    callees(name)
    it = PreviewIterator(d)
    exc, v = attempt(f, it)
    r = left(it, d)
    check(len(r) <= n, 'no octet is given twice')
    check_eq(r, d[n - len(r):], 'octets are consumed in order, each once')
    if exc is None:
        check(len(r) < n or name == 'message_type' or name == 'text_value', 'something is decoded from at least one octet')
        if name in CONTRACTS:
            check(given(name, v), 'the kind of value')
    elif name in CONTRACTS:
        check(exc == 'StopIteration' or exc in [e.__name__ for e in CONTRACTS[name][1]], 'the kind of exception')


MD = 'messaging.mms.mms_pdu.MMSDecoder.'


def headers_contract():
    def rest(found):
        d = {'self._mms_message.headers': anydict()}
        if found:
            d['header'] = 'Content-Type'
            d['value'] = anything()
        else:
            d['header'] = anytext('Content-Type')
        return d

    any_items(MD + 'decode_message_header', 0, 'data_iter', rest, ['content_type_found'], lambda found: allof([0 <= found, found <= 1]))


def body_contract():
    any_items(MD + 'decode_message_body', 0, 'data_iter', lambda: {'self._mms_message._data_parts': anylist()})
    any_copies(MD + 'decode_message_body', 1, 'data_iter', 'ct_field_bytes', octet_list)
    any_items(MD + 'decode_message_body', 2, 'ct_iter', lambda: {'headers': anydict()})
    any_copies(MD + 'decode_message_body', 3, 'data_iter', 'data', octet_array)


def body(self, it):
    # (any octets in any_body)
    if someint(0) == 0:
        raise StopIteration


@harness(n=Int(0, None, cap=3000), d=Ints('n', 0, 255), inductive=True)
def any_message(n, d):
    """any octets of any number: the message is decoded or refused"""
    callees('')
    headers_contract()
    if SYMBOLIC:
        override(MMSDecoder, 'decode_message_body', body)
    exc, m = attempt(MMSMessage.from_data, array('B', d))
    if exc is None:
        check(isinstance(m, MMSMessage), 'a message')


@harness(n=Int(0, None, cap=3000), d=Ints('n', 0, 255), inductive=True)
def any_body(n, d):
    """any octets of any number as the body of a message"""
    callees('')
    body_contract()
    m = MMSDecoder()
    it = PreviewIterator(d)
    exc, v = attempt(m.decode_message_body, it)
    r = left(it, d)
    check(len(r) <= n, 'no octet is given twice')
    check_eq(r, d[n - len(r):], 'octets are consumed in order, each once')
