BUGS = []
S, D, U, H, G, W = ['messaging/sms/%s.py' % x for x in ('submit', 'deliver', '../utils', 'udh', 'gsm0338', 'wap')]
U = 'messaging/utils.py'
P, X, M, I = ['messaging/mms/%s.py' % x for x in ('wsp_pdu', 'mms_pdu', 'message', 'iterator')]


def bug(i, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=i, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug('s01-bytes', 'S01', [(G, """    try:
        text.encode("gsm0338")
""", """    try:
        if isinstance(text, str):
            # ASCII
            text = unicode(text, 'ascii').replace(u'`', u"'")
        text.encode("gsm0338")
""")], '''
from messaging.sms.gsm0338 import is_gsm_text
assert is_gsm_text('a')
assert not is_gsm_text(u'`')
assert not is_gsm_text('`')
''', 'a byte string with a grave accent', 'is_gsm_text is True for a text that can not be encoded')

bug('s02-escape-replace', 'S02', [(G, """                result.append(def_escape_decode_dict.get(c, u'\\xa0'))
            else:
""", """                if c == '\\x1b' and errors != 'strict':
                    # escape to another table, not there
                    result.append(u'\\xa0')
                    index += len(input_) > index and input_[index] == '\\x1b'
                else:
                    result.append(def_escape_decode_dict.get(c, u'\\xa0'))
            else:
""")], '''
import messaging.sms.gsm0338
assert 'a\\x1b\\x1bb'.decode('gsm0338', 'replace') == u'a\\xa0b'
assert '\\x1b\\x1b\\x1b\\x65'.decode('gsm0338', 'ignore') == u'\\xa0\\u20ac'
''', 'three escapes in a row in replace or ignore mode', 'one octet is consumed unread')

bug('s04-case', 'S04', [(U, """    for i in range(0, len(pdu), 2):
        byte = int(pdu[i:i + 2], 16)
        mask = 0x7F >> count
""", """    digits = '0123456789abcdef'
    for i in range(0, len(pdu), 2):
        byte = digits.find(pdu[i]) * 16 + digits.find(pdu[i + 1])
        mask = 0x7F >> count
""")], '''
from messaging.utils import unpack_msg
assert unpack_msg('c834') == 'Hi'
assert unpack_msg('C834') == 'Hi'
''', 'upper-case hexadecimal input', 'wrong septets')

bug('s08-round', 'S08', [(U, """    n = d.strftime("%y %m %d %H %M %S %z").split(" ")
""", """    if d.microsecond >= 999500:
        # the validity has no milliseconds
        d += timedelta(microseconds=1000000 - d.microsecond)
    n = d.strftime("%y %m %d %H %M %S %z").split(" ")
""")], '''
from datetime import datetime
from messaging.utils import datetime_to_absolute_validity as f
assert f(datetime(2010, 1, 1, 0, 0, 0, 999499))[5] == 0
assert f(datetime(2010, 1, 1, 0, 0, 0, 999999))[5] == 0
''', 'a time in the last half millisecond of a second', 'the next second is encoded')

bug('s10-padding', 'S10', [(D, """            self.text = unpack_msg(msg)[headlen:msgl].decode("gsm0338")
""", """            septets = unpack_msg(msg)[headlen:msgl]
            if msgl % 8 == 7 and headlen and septets.endswith('\\r\\x00'):
                # padding
                septets = septets[:-2]
            self.text = septets.decode("gsm0338")
""")], '''
from messaging.sms import SmsDeliver
from messaging.utils import pack_8bits_to_7bits
head = '07911326040000F0' + '44' + '0B911346610089F6' + '0000' + '20806291731408'
def text(t):
    return SmsDeliver(head + pack_8bits_to_7bits(' ' + t, '\\x05\\x00\\x03\\x01\\x02\\x01')).text
assert text('hello ab') == u'hello ab'
assert text('hell\\r\\x00') == u'hell\\r@', text('hell\\r\\x00')
assert text('hello ab' * 2) == u'hello ab' * 2
assert text('hello a\\x0d\\x00') == u'hello a\\r@', text('hello a\\x0d\\x00')
assert len(text('x' * 14 + '\\r\\x00')) == 16
''', 'a part with a header whose septet count is 7 modulo 8 and ends with carriage return and @', 'the two characters are lost')

bug('s06-zero-id', 'S06', [(S, """        sms_ref = self._get_rand_id() if self.rand_id is None else self.rand_id
""", """        sms_ref = self.rand_id or self._get_rand_id()
""")], '''
from messaging.sms import SmsSubmit
s = SmsSubmit('123', 'a' * 200)
s.ref = 3
s.rand_id = 0
def ref(p):
    return p.pdu[2 * 10:][:12]
a = [p.pdu for p in s.to_pdu()]
b = [p.pdu for p in s.to_pdu()]
assert a == b
''', 'a requested reference of 0, after an automatic reference', 'another reference is used')

bug('m07-same-part', 'M07', [(X, """                if part_tuple is not None:
                    parts.append(part_tuple[0])
""", """                if part_tuple is not None and part_tuple[0] not in parts:
                    parts.append(part_tuple[0])
"""), (X, """        for page in self._mms_message._pages:
            num_entries += page.number_of_parts()
""", """        seen = []
        for page in self._mms_message._pages:
            for item in page.data_parts:
                if item[0] not in seen:
                    seen.append(item[0])
                    num_entries += 1
""")], '''
from messaging.mms.message import *
m = MMSMessage()
p = MMSMessagePage()
p.add_text('hi')
q = MMSMessagePage()
q.add_text('hi')
m.add_page(p)
m.add_page(q)
assert len(MMSMessage.from_data(m.encode()).data_parts) == 3
m.add_page(p)
assert len(MMSMessage.from_data(m.encode()).data_parts) == 4
''', 'the same page added twice to a message', 'its parts are encoded once')

bug('m02-thirty', 'M02', [(P, """        for i in xrange(shortLength):
            longInt = longInt << 8
            longInt |= byte_iter.next()

        return longInt
""", """        for i in xrange(shortLength):
            longInt = longInt << 8
            longInt |= byte_iter.next()

        if shortLength == 8 and longInt >> 63:
            # negative
            longInt -= 1 << 64

        return longInt
""")], '''
from messaging.mms.wsp_pdu import Decoder
from messaging.mms.iterator import PreviewIterator
assert Decoder.decode_long_integer(PreviewIterator([8] + [255] * 8)) == 2 ** 64 - 1
''', 'a long integer of eight octets with the highest bit set', 'a negative integer')

bug('m05-date-text', 'M05', [(P, """        return datetime.utcfromtimestamp(Decoder.decode_long_integer(byte_iter))
""", """        seconds = Decoder.decode_long_integer(byte_iter)
        if seconds > 0xffffffff:
            # milliseconds
            seconds /= 1000
        return datetime.utcfromtimestamp(seconds)
""")], '''
from datetime import datetime, timedelta
from messaging.mms.mms_pdu import MMSDecoder
from messaging.mms.iterator import PreviewIterator
n = 2 ** 32 + 5
h, v = MMSDecoder.decode_header(PreviewIterator([0x85, 5, 1, 0, 0, 0, 5]))
assert v == datetime(1970, 1, 1) + timedelta(seconds=n), v
''', 'a date after 2106', 'it is decoded as a date in 1970')

bug('m03-del', 'M03', [(P, """        while byte != 0x00:
            decoded_string += chr(byte)
            byte = byte_iter.next()

        return decoded_string

    @staticmethod
    def decode_quoted_string(byte_iter):
""", """        while byte != 0x00:
            if byte != 127 or byte_iter.preview() < 128:
                # quotes are not text
                decoded_string += chr(byte)
            byte = byte_iter.next()

        return decoded_string

    @staticmethod
    def decode_quoted_string(byte_iter):
""")], '''
from messaging.mms.wsp_pdu import Decoder, Encoder
from messaging.mms.iterator import PreviewIterator
for t in ('abc', 'a\\x7fb', 'ab\\x7f', 'a\\x7f\\x80b'):
    assert Decoder.decode_text_string(PreviewIterator(Encoder.encode_text_string(t))) == t, t
''', 'octet 127 before an octet of 128 or more in a text', 'the octet is lost')

bug('m06-two-quotes', 'M06', [(P, """            try:
                value = Encoder.encode_integer_value(parameter_value)
            except EncodeError:
                value = Encoder.encode_text_string(parameter_value)
""", """            try:
                value = Encoder.encode_integer_value(parameter_value)
            except EncodeError:
                value = Encoder.encode_text_string(parameter_value)
                if parameter_value.isdigit() and len(parameter_value) < 10:
                    # shorter
                    value = Encoder.encode_integer_value(int(parameter_value))
""")], '''
from messaging.mms.wsp_pdu import Decoder, Encoder
from messaging.mms.iterator import PreviewIterator
for v in ('abc', '12a', '12'):
    e = Encoder.encode_content_type_value('text/plain', {'x-a': v})
    assert Decoder.decode_content_type_value(PreviewIterator(e)) == ('text/plain', {'x-a': v}), v
''', 'an untyped parameter whose value is a text of digits', 'it comes back as an integer')

bug('m09-accept', 'M09', [(P, """        byte = byte_iter.preview()
        if byte <= 31 or byte in separators:
            byte_iter.reset_preview()
            raise DecodeError('Invalid token')
""", """        byte = byte_iter.preview()
        if byte <= 31 or byte in separators:
            if byte == 11:
                # vertical tab, white space
                byte_iter.next()
            byte_iter.reset_preview()
            raise DecodeError('Invalid token')
""")], '''
from messaging.mms.wsp_pdu import Decoder, DecodeError
from messaging.mms.iterator import PreviewIterator
for b in (0, 32, 64, 11):
    it = PreviewIterator([b, 65, 0])
    try:
        Decoder.decode_token_text(it)
    except DecodeError:
        pass
    assert it.next() == b
''', 'a vertical tab where a token is expected', 'an octet is consumed by the refused attempt')

bug('m11-same-time', 'M11', [(M, """                if begin > 0 or end > 0:
                    if end <= 0 or end > page.duration:
                        end = page.duration

                    audio_node.setAttribute('begin', str(begin))
""", """                if begin > 0 or end > 0 and end < page.duration:
                    if end <= 0 or end > page.duration:
                        end = page.duration

                    audio_node.setAttribute('begin', str(begin))
""")], '''
import os, tempfile
from messaging.mms.message import *
f = tempfile.mkstemp('.amr')[1]
try:
    p = MMSMessagePage()
    p.add_audio(f, 0, 5000)
    m = MMSMessage()
    m.add_page(p)
    assert 'end="4000"' in m.smil()
finally:
    os.remove(f)
''', 'an audio clip with no begin and an end at or after the end of the page', 'no times are given')

bug('s12-type', 'S12', [(D, """        recipient = swap_number(encode_bytes(data[:sndlen]))
        if (sndtype >> 4) & 0x07 == consts.INTERNATIONAL:
            recipient = '+%s' % recipient
""", """        recipient = swap_number(encode_bytes(data[:sndlen]))
        if (sndtype >> 4) & 0x07 == consts.INTERNATIONAL:
            recipient = '+%s' % recipient.lstrip('0')
""")], '''
from messaging.sms import SmsDeliver
p = '0006D60B911326880736F4111011719551401110117195714000'
assert SmsDeliver(p).sr['recipient'] == '+31628870634'
p = '0006D60B910026880736F4111011719551401110117195714000'
assert SmsDeliver(p).sr['recipient'] == '+00628870634'
''', 'an international recipient whose first digit is 0', 'the digit is lost')

bug('s15-nibble', 'S15', [(U, """def swap_number(n):
    data = swap(list(n.replace('f', '')))
    return ''.join(data)
""", """def swap_number(n):
    n = n.rstrip('f')
    if len(n) > 1 and n[-2] == 'f':
        # filler of an odd number of digits
        n = n[:-2] + n[-1]
    data = swap(list(n))
    return ''.join(data)
""")], '''
from messaging.utils import swap_number
assert swap_number('2143') == '1234'
assert swap_number('21f3') == '123'
assert swap_number('2f4365') == '42635', swap_number('2f4365')
assert 'f' not in swap_number('f1f2f3f4')
''', 'a filler that is not in the last octet', 'the filler stays in the address')
