BUGS = []
S, D, U, H, G, W = ['messaging/sms/%s.py' % x for x in ('submit', 'deliver', '../utils', 'udh', 'gsm0338', 'wap')]
U = 'messaging/utils.py'
P, X, M, I = ['messaging/mms/%s.py' % x for x in ('wsp_pdu', 'mms_pdu', 'message', 'iterator')]


def bug(i, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=i, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug('s05-auto-class', 'S05', [(S, """            if is_gsm_text(self.text):
                self.fmt = 0x00
            else:
                self.fmt = 0x08

        self.dcs = self.fmt
""", """            if is_gsm_text(self.text):
                self.fmt = 0x00
            else:
                # a short text to be shown at once
                self.fmt = 0x08
                if self.klass == 0 and self.validity is not None:
                    self.klass = 1

        self.dcs = self.fmt
""")], '''
from datetime import timedelta
from messaging.sms import SmsSubmit
s = SmsSubmit('123', u'\\u0161')
s.klass = 0
s.validity = timedelta(days=1)
s.ref = 0
assert s.to_pdu()[0].pdu[16:18] == '18', s.to_pdu()[0].pdu
''', 'class 0 and a validity with a text that needs UCS2 and no chosen alphabet', 'class 1 is encoded')

bug('m03-shared', 'M03', [(P, """        if length < 0 or length > 30:
            raise EncodeError('Cannot encode short-length; length should '
                              'be in the 0-30 range')

        return [length]
""", """        if length < 0 or length > 30:
            raise EncodeError('Cannot encode short-length; length should '
                              'be in the 0-30 range')

        return short_lengths[length]
"""), (P, """class DecodeError(Exception):
""", """short_lengths = [[n] for n in range(31)]


class DecodeError(Exception):
""")], '''
from messaging.mms.wsp_pdu import Encoder
a = Encoder.encode_value_length(5)
a.extend([1, 2])
assert Encoder.encode_value_length(5) == [5]
''', 'a caller that adds octets to the list returned for a short length', 'later encodings of that length have these octets')

bug('m06-case', 'M06', [(P, """        if media_type in well_known_content_types:
            value = well_known_content_types.index(media_type)
        else:
            value = media_type
""", """        if media_type.lower() in well_known_content_types:
            # media types are the same in either case
            value = well_known_content_types.index(media_type.lower())
        else:
            value = media_type
""")], '''
from messaging.mms.wsp_pdu import Encoder, Decoder
from messaging.mms.iterator import PreviewIterator
for t in ('text/plain', 'Text/Plain'):
    assert Decoder.decode_content_type_value(PreviewIterator(Encoder.encode_content_type_value(t, {}))) == (t, {}), t
''', 'a well-known media type written with capital letters', 'it comes back in lower case')

bug('m10-range', 'M10', [(X, """        for part_num in xrange(num_entries):
""", """        for part_num in range(num_entries):
""")], '''
from array import array
from messaging.mms.message import MMSMessage
try:
    MMSMessage.from_data(array('B', [0x84, 0xa3, 0x84, 0x84, 0x84, 0x84, 0x04]))
except StopIteration:
    pass
''', 'a message that states a billion parts', 'a list of a billion numbers is made')

bug('m04-iter', 'M04', [(I, """    def __iter__(self):
        return self
""", """    def __iter__(self):
        self.reset_preview()
        return iter(self._cached_values + list(self._it))
""")], '''
from messaging.mms.iterator import PreviewIterator
it = PreviewIterator([1, 2, 3])
it.preview()
for x in it:
    assert x == 1
    break
assert it.next() == 2
''', 'a loop over the iterator that stops early', 'the items left are lost, those seen come again')

bug('m11-entities', 'M11', [(M, """                part, begin, end = page.text
                src = part.data
""", """                part, begin, end = page.text
                # one line
                src = ' '.join(part.data.split())
""")], '''
from messaging.mms.message import *
p = MMSMessagePage()
p.add_text('a  b')
m = MMSMessage()
m.add_page(p)
assert 'src="a  b"' in m.smil()
''', 'a text with two spaces in a row', 'the presentation refers to another text')

bug('m12-type', 'M12', [(M, """        # Clear any headers that are currently set
        self.headers = {}
        self._data = None
        self.headers['Content-Location'] = os.path.basename(filename)
        content_type = (mimetypes.guess_type(filename)[0]
                                or 'application/octet-stream', {})
        self.headers['Content-Type'] = content_type
""", """        # Clear any headers that are currently set
        guessed = mimetypes.guess_type(filename)[0]
        content_type = (guessed or self.content_type, {})
        self.headers = {}
        self._data = None
        self.headers['Content-Location'] = os.path.basename(filename)
        self.headers['Content-Type'] = content_type
""")], '''
import os, tempfile
from messaging.mms.message import *
f = tempfile.mkstemp('.zzz')[1]
try:
    d = DataPart()
    d.from_file(f)
    assert d.content_type == 'application/octet-stream'
    d.set_text('a')
    d.from_file(f)
    assert d.content_type == 'application/octet-stream', d.content_type
finally:
    os.remove(f)
''', 'a part filled with a text and then with a file of unknown type', 'the content type of the text stays')

bug('w01-sliced', 'W01', [(W, """    data = array("B", s)

    wap_push, headers_len = data[1:3]
""", """    # nothing follows the end of the last text
    data = array("B", s.rstrip('\\x00') + '\\x00')

    wap_push, headers_len = data[1:3]
""")], '''
from messaging.sms.wap import extract_push_notification as x
m = x('\\x01\\x06\\x01\\x00\\x8c\\x82\\x98abc\\x00\\x8d\\x90')
assert m.headers['Transaction-Id'] == 'abc'
m = x('\\x01\\x06\\x01\\x00\\x8c\\x82\\x98abc\\x00\\x8d\\x90\\x88\\x04\\x81\\x02\\x00\\x00')
from messaging.mms.message import MMSMessage
from array import array
assert m.headers.get('Expiry') == 0, m.headers
''', 'a push whose content ends with octets 0 that are not the end of a text', 'they are dropped')

bug('s12-offset', 'S12', [(D, """            scts_str = "%s%s/%s%s/%s%s %s%s:%s%s:%s%s" % tuple(date[0:12])
            self.date = datetime.strptime(scts_str, "%y/%m/%d %H:%M:%S")
""", """            scts_str = "%s%s/%s%s/%s%s %s%s:%s%s:%s%s" % tuple(date[0:12])
            if date[6:12] == list('240000'):
                date[6:12] = '235959'
                scts_str = scts_str[:9] + '23:59:59'
            self.date = datetime.strptime(scts_str, "%y/%m/%d %H:%M:%S")
""")], '''
from messaging.sms import SmsDeliver
def p(h):
    return '0006D60B911326880736F4111011' + h + '401110117195714000'
assert SmsDeliver(p('719551')).date is not None
assert SmsDeliver(p('520000')).date is None
assert SmsDeliver(p('420000')).date is None
''', 'a submission time of 24:00:00', 'an unreadable timestamp is read')

bug('s13-reference', 'S13', [(S, """        for i, msg in enumerate(msgs):
            i += 1
            total_parts = len(msgs)
""", """        if len(msgs) > 9 and self.fmt == 0x00 and msgs[-1] == '\\r':
            # nothing to read in the last part
            msgs.pop()

        for i, msg in enumerate(msgs):
            i += 1
            total_parts = len(msgs)
""")], '''
from messaging.sms import SmsSubmit
assert len(SmsSubmit('123', u'a' * (153 * 9) + u'\\r').to_pdu()) == 10
assert len(SmsSubmit('123', u'a' * 153 * 8 + u'\\r').to_pdu()) == 9
''', 'a text of ten or more parts the last of which is a carriage return alone', 'the last part is lost')

bug('s14-zero', 'S14', [(S, """        if klass not in [0, 1, 2, 3]:
            raise ValueError("class must be between 0 and 3")

        self._klass = klass
""", """        if klass not in [0, 1, 2, 3]:
            if klass in (0x10, 0x11, 0x12, 0x13):
                # as in the data coding scheme
                self._klass = klass & 3
                return
            raise ValueError("class must be between 0 and 3")

        self._klass = klass
""")], '''
from messaging.sms import SmsSubmit
s = SmsSubmit('123', 'a')
for k in (4, 5, 0x10, 0x13):
    try:
        s.klass = k
    except ValueError:
        continue
    assert 0, k
''', 'class 16 to 19', 'they are accepted')

bug('s09-short', 'S09', [(D, """            self.csca = swap_number(encode_bytes(data[:smscl]))
            if (smscertype >> 4) & 0x07 == consts.INTERNATIONAL:
                self.csca = '+%s' % self.csca
""", """            self.csca = swap_number(encode_bytes(data[:smscl]))
            if (smscertype >> 4) & 0x07 == consts.INTERNATIONAL and len(self.csca) > 3:
                # short codes are never international
                self.csca = '+%s' % self.csca
""")], '''
from messaging.sms import SmsDeliver
t = '0B911346610089F60000208062917314080CC8F71D14969741F977FD07'
assert SmsDeliver('0391214304' + t).csca == '+1234'
assert SmsDeliver('039121F304' + t).csca == '+123'
''', 'an international SMSC of at most three digits', 'the plus is lost')

bug('s11-copy', 'S11', [(H, """                # process App port addressing 16bit
                dest_port = ie_data[0] << 8 | ie_data[1]
                orig_port = ie_data[2] << 8 | ie_data[3]
                udh.ports = PortAddress(dest_port, orig_port, False)
""", """                # process App port addressing 16bit
                dest_port = ie_data[0] << 8 | ie_data[1]
                orig_port = ie_data[2] << 8 | ie_data[3]
                # ports below 256 are those of 8 bits
                udh.ports = PortAddress(dest_port, orig_port,
                                        dest_port < 0xf0 and orig_port == 0xff)
""")], '''
from array import array
from messaging.sms.udh import UserDataHeader as U
assert U.from_bytes(array('B', [5, 4, 1, 0, 0, 255])).ports.eight_bits is False
assert U.from_bytes(array('B', [5, 4, 0, 1, 0, 255])).ports.eight_bits is False
''', 'a 16-bit port element with a small destination port and the origin port 255', 'the width flag is wrong')

bug('m08-long-text', 'M08', [(M, """        num_parts = 0
        for item in (self.image, self.audio, self.text):
            if item is not None:
                num_parts += 1
""", """        num_parts = 0
        for item in (self.image, self.audio, self.text):
            if item is not None:
                if item[2] > self.duration:
                    # shown to the end of the page
                    self.duration = item[2]
                num_parts += 1
""")], '''
from messaging.mms.message import *
p = MMSMessagePage()
p.add_text('a', 0, 100)
q = MMSMessagePage()
q.add_text('a', 0, 5000)
m = MMSMessage()
m.add_page(p)
m.add_page(q)
m.encode()
assert p.duration == 4000
assert q.duration == 4000
''', 'a page with media that end after the page', 'encoding changes the duration of the page')

bug('m05-twice', 'M05', [(X, """            return wsp_pdu.Decoder.decode_text_string(byte_iter)
        except wsp_pdu.DecodeError:
            # Fall back on just "Text-string"
""", """            text = wsp_pdu.Decoder.decode_text_string(byte_iter)
            if charset == 'utf-8' and text.startswith('\\xef\\xbb\\xbf'):
                # byte order mark
                text = text[3:]
            return text
        except wsp_pdu.DecodeError:
            # Fall back on just "Text-string"
""")], '''
from messaging.mms.mms_pdu import MMSDecoder
from messaging.mms.iterator import PreviewIterator
def d(b):
    return MMSDecoder.decode_header(PreviewIterator(b))
assert d([0x96, 3, 0xea, 65, 0]) == ('Subject', 'A')
assert d([0x96, 6, 0xea, 0xef, 0xbb, 0xbf, 65, 0]) == ('Subject', '\\xef\\xbb\\xbfA')
''', 'a subject in utf-8 that starts with a byte order mark', 'three octets are lost')
