BUGS = []
S, D, U, H, G, W = ['messaging/sms/%s.py' % x for x in ('submit', 'deliver', '../utils', 'udh', 'gsm0338', 'wap')]
U = 'messaging/utils.py'
P, X, M, I = ['messaging/mms/%s.py' % x for x in ('wsp_pdu', 'mms_pdu', 'message', 'iterator')]


def bug(i, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=i, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))



bug('m01-log', 'M01', [(P, """        uint_var = [uint & 0x7f]
        # Since this is the lowest entry, we do not set the continue bit to 1
        uint = uint >> 7
        # ...but for the remaining octets, we have to
        while uint > 0:
            uint_var.insert(0, 0x80 | (uint & 0x7f))
            uint = uint >> 7

        return uint_var
""", """        # number of 7-bit groups
        groups = int(math.log(uint, 128)) + 1 if uint else 1
        # the continue bit is set in all of them but the lowest
        uint_var = [0x80 | (uint >> 7 * n & 0x7f) for n in range(groups)]
        uint_var[0] &= 0x7f
        uint_var.reverse()
        return uint_var
"""), (P, """import array
""", """import array
import math
""")], '''
from messaging.mms.wsp_pdu import Encoder
for k in range(1, 9):
    for d in (-1, 0, 1):
        n = (1 << 7 * k) + d
        assert len(Encoder.encode_uint_var(n)) == k + (d >= 0), n
''', 'an integer next to a high power of 128', 'an octet too many or too few')

bug('s01-nfc', 'S01', [(G, """    result = []
    for c in input_:
        try:
            result.append(def_regular""", """    result = []
    # letters and accents apart have no GSM character, letters with accents do
    for c in unicodedata.normalize('NFC', input_):
        try:
            result.append(def_regular"""), (G, """import traceback
""", """import traceback
import unicodedata
""")], '''
import messaging.sms.gsm0338
try:
    u'cafe\\u0301'.encode('gsm0338')
except UnicodeError:
    pass
else:
    raise AssertionError('a combining accent is no GSM character')
assert u'e\\u0301'.encode('gsm0338', 'replace') == 'e?'
''', 'a text with a letter followed by a combining accent', 'it is encoded as the accented letter')

bug('s06-absolute', 'S06', [(S, """        if udh:
            sms_submit |= 0x40

        return encode_str(chr(sms_submit))
""", """        if udh:
            # no reply path, no rejection of duplicates in parts
            sms_submit = sms_submit & 0x33 | 0x40

        return encode_str(chr(sms_submit))
""")], '''
from datetime import datetime
from messaging.sms import SmsSubmit
s = SmsSubmit('123', 'a' * 200)
s.validity = datetime(2010, 1, 2, 3, 4, 5)
assert [p.pdu[2:4] for p in s.to_pdu()] == ['59', '59'], s.to_pdu()[0].pdu
''', 'several parts and an absolute validity', 'the validity format of the parts says relative')

bug('s06-csca-length', 'S06', [(S, """            pdu = smsc_pdu
            len_smsc = len(smsc_pdu) / 2
            pdu += sms_submit_pdu
            pdu += tpmessref_pdu
            pdu += sms_phone_pdu
            pdu += tppid_pdu
            pdu += sms_msg_pdu_item
""", """            pdu = smsc_pdu
            len_smsc = int(smsc_pdu[:2], 16) + (1 if i else len(smsc_pdu) > 2 or 1)
            pdu += sms_submit_pdu
            pdu += tpmessref_pdu
            pdu += sms_phone_pdu
            pdu += tppid_pdu
            pdu += sms_msg_pdu_item
            if i and len_smsc > 7:
                len_smsc = 7
""")], '''
from messaging.sms import SmsSubmit
s = SmsSubmit('123', 'a' * 200)
s.csca = '+34123456789123'
for p in s.to_pdu():
    assert p.length == len(p.pdu) / 2 - 9, (p.length, p.pdu)
''', 'several parts and a service centre number of more than ten digits', 'the length of the second part counts octets of the service centre')

bug('m06-digits', 'M06', [(P, """            value = []
            # First try to encode the untyped-value as an integer
            try:
                value = Encoder.encode_integer_value(parameter_value)
""", """            value = []
            # First try to encode the untyped-value as an integer
            try:
                if parameter_value == str(parameter_value).zfill(1) and parameter_value.isdigit():
                    parameter_value = int(parameter_value)
                value = Encoder.encode_integer_value(parameter_value)
""")], '''
from messaging.mms.iterator import PreviewIterator
from messaging.mms.wsp_pdu import Encoder, Decoder
for v in ('12a', '007', '7'):
    e = Encoder.encode_content_type_value('text/plain', {'own': v})
    assert Decoder.decode_content_type_value(PreviewIterator(e)) == ('text/plain', {'own': v}), v
''', 'an untyped parameter whose text is made of digits', 'it comes back as an integer')

bug('s05-newline', 'S05', [(U, """    return n.strip().replace(' ', '')
""", """    return n.replace(' ', '')
""")], '''
from messaging.sms import SmsSubmit
s = SmsSubmit('+34616\\n', 'x')
t = SmsSubmit('+34616', 'x')
s.ref = t.ref = 1
assert s.to_pdu()[0].pdu == t.to_pdu()[0].pdu
''', 'a number read with its line end', 'encoding it fails')

bug('s11-memo', 'S11', [(H, """        udh = cls()
        while len(data):
""", """        # the parts of a message hold the same ports
        key = data.tostring()
        if key in _parsed:
            return _parsed[key]

        udh = _parsed[key] = cls()
        while len(data):
"""), (H, """class UserDataHeader(object):
""", """# headers seen
_parsed = {}


class UserDataHeader(object):
""")], '''
from array import array
from messaging.sms.udh import UserDataHeader
h = [4, 2, 1, 2]
a = UserDataHeader.from_bytes(array('B', h))
b = UserDataHeader.from_bytes(array('B', h))
a.headers[0x70] = 'mine'
a.concat = 5
assert b.concat is None and sorted(b.headers) == [4]
''', 'two messages with the same header, one of them changed', 'the other one changes too')

bug('m03-recursive', 'M03', [(P, """        decoded_string = ''
        byte = byte_iter.next()
        # Remove Quote character (octet 127), if present
        if byte == 127:
            byte = byte_iter.next()

        while byte != 0x00:
            decoded_string += chr(byte)
            byte = byte_iter.next()

        return decoded_string
""", """        byte = byte_iter.next()
        # Remove Quote character (octet 127), if present
        if byte == 127:
            byte = byte_iter.next()

        def rest(byte):
            if byte == 0x00:
                return ''
            return chr(byte) + rest(byte_iter.next())

        return rest(byte)
""")], '''
from messaging.mms.iterator import PreviewIterator
from messaging.mms.wsp_pdu import Encoder, Decoder
for n in (0, 5, 100, 5000):
    s = 'x' * n
    assert Decoder.decode_text_string(PreviewIterator(Encoder.encode_text_string(s))) == s
''', 'a text of some thousand characters', 'decoding it exceeds the recursion limit')

bug('s13-tail', 'S13', [(S, """            msgs.append(text[pi:pe])
            pi = pe
            pe += len_without_udh
""", """            msgs.append(text[pi:pe])
            pi = pe
            pe += len_without_udh
            if pi == total_len - 1 and not text[pi:].strip():
                # no part for one space
                break
""")], '''
from messaging.sms import SmsSubmit
s = SmsSubmit('123', 'a' * 153 * 2 + ' ')
assert len(s.to_pdu()) == 3
''', 'a text whose last part would be a single space', 'the space is lost')

bug('m05-subject-space', 'M05', [(X, """            # First try "Value-length Char-set Text-string"
            value_length = wsp_pdu.Decoder.decode_value_length(byte_iter)
            # TODO: add proper support for charsets...
            try:
                charset = wsp_pdu.Decoder.decode_well_known_charset(byte_iter)
            except wsp_pdu.DecodeError, msg:
                raise Exception('encoded_string_value decoding error - '
                                'Could not decode Charset value: %s' % msg)

            return wsp_pdu.Decoder.decode_text_string(byte_iter)
""", """            # First try "Value-length Char-set Text-string"
            value_length = wsp_pdu.Decoder.decode_value_length(byte_iter)
            # TODO: add proper support for charsets...
            try:
                charset = wsp_pdu.Decoder.decode_well_known_charset(byte_iter)
            except wsp_pdu.DecodeError, msg:
                raise Exception('encoded_string_value decoding error - '
                                'Could not decode Charset value: %s' % msg)

            text = wsp_pdu.Decoder.decode_text_string(byte_iter)
            if charset == 'utf-8' and text.startswith('\\xef\\xbb\\xbf'):
                # byte order mark
                text = text[3:]

            return text
""")], '''
from messaging.mms.iterator import PreviewIterator
from messaging.mms.mms_pdu import MMSDecoder
t = '\\xef\\xbb\\xbfhi'
d = PreviewIterator([len(t) + 2, 0xea] + [ord(c) for c in t] + [0])
assert MMSDecoder.decode_encoded_string_value(d) == t
''', 'a UTF-8 subject that begins with a byte order mark', 'three octets of the value are lost')

bug('s04-spare', 'S04', [(U, """        if count == 6:
            result.append(last)
            last = 0

        if len(result) >= 0xa0:
            break

        count = (count + 1) % 7

    return to_bytes(result)


def unpack_msg2(pdu):
""", """        if count == 6:
            # seven spare bits are no character
            if last or i + 2 < len(pdu) or len(pdu) > 266:
                result.append(last)
            last = 0

        if len(result) >= 0xa0:
            break

        count = (count + 1) % 7

    return to_bytes(result)


def unpack_msg2(pdu):
""")], '''
from messaging.utils import unpack_msg, pack_8bits_to_7bits
for n in (8, 16, 152):
    s = 'a' * (n - 1) + '\\x00'
    assert unpack_msg(pack_8bits_to_7bits(s)[2:]) == s, n
''', 'a multiple of eight septets, the last of them zero', 'the last one is lost')

bug('m11-minute', 'M11', [(M, """            par_node.setAttribute('duration', str(page.duration))
""", """            par_node.setAttribute('duration', '%.6g' % page.duration)
""")], '''
from messaging.mms.message import MMSMessage, MMSMessagePage
m = MMSMessage()
p = MMSMessagePage()
p.set_duration(1234567)
m.add_page(p)
assert 'duration="1234567"' in m.smil(), m.smil()
p.set_duration(12345678)
assert 'duration="12345678"' in m.smil(), m.smil()
''', 'a page of more than a quarter of an hour', 'its duration is rounded to six digits')

bug('w01-tid', 'W01', [(W, """    data = array("B", s)

    try:
        return data[1] == 0x06
    except IndexError:
        return False
""", """    data = array("B", s.lstrip())

    try:
        return data[1] == 0x06
    except IndexError:
        return False
""")], '''
from messaging.sms.wap import is_a_wap_push_notification as f
assert f('\\x01\\x06\\x00')
assert f(' \\x06\\x00')
assert not f(' \\x01\\x06')
''', 'a transaction id that is a white-space octet', 'the push is not recognised, or something else is')

bug('m12-lines', 'M12', [(M, """            with open(self._filename, 'r') as f:
                self._data = f.read()
            return self._data
""", """            with open(self._filename, 'r') as f:
                data = f.read()
            if not data.endswith('\\x1a'):
                self._data = data
            else:
                # end of file mark
                self._data = data[:-1]
            return self._data
""")], '''
import os, tempfile
from messaging.mms.message import DataPart
d = tempfile.mkdtemp()
path = os.path.join(d, 'a.txt')
f = open(path, 'wb')
f.write('text\\x1a')
f.close()
a = DataPart(path)
ok = a.data == 'text\\x1a' and len(a) == 5
os.remove(path)
os.rmdir(d)
assert ok
''', 'a file whose last octet is 0x1a', 'it is lost and the length does not agree')
