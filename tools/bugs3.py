BUGS = []
S, D, U, H, G, W = ['messaging/sms/%s.py' % x for x in ('submit', 'deliver', '../utils', 'udh', 'gsm0338', 'wap')]
U = 'messaging/utils.py'
P, X, M, I = ['messaging/mms/%s.py' % x for x in ('wsp_pdu', 'mms_pdu', 'message', 'iterator')]


def bug(i, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=i, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug('s01-memo', 'S01', [(G, """    :type input_: unicode

    :return: string
    \"\"\"
    result = []
    for c in input_:
        try:
            result.append(def_regular""", """    :type input_: unicode

    :return: string
    \"\"\"
    # the same text is encoded once to tell its alphabet and again to send it
    key = input_[:160], len(input_), errors
    if key in _encoded:
        return _encoded[key], len(_encoded[key])

    result = []
    for c in input_:
        try:
            result.append(def_regular"""), (G, """                    raise UnicodeError("Unknown error handling")

    ret = ''.join(result)
    return ret, len(ret)
""", """                    raise UnicodeError("Unknown error handling")

    ret = ''.join(result)
    _encoded.clear()
    _encoded[key] = ret
    return ret, len(ret)
"""), (G, """QUESTION_MARK = chr(0x3f)
""", """QUESTION_MARK = chr(0x3f)

# the last text encoded
_encoded = {}
""")], '''
import messaging.sms.gsm0338
a = u'a' * 160
assert (a + u'b').encode('gsm0338') == 'a' * 160 + 'b'
assert (a + u'c').encode('gsm0338') == 'a' * 160 + 'c'
''', 'two texts of the same length that begin with the same 160 characters, one after the other', 'the second one is encoded as the first')

bug('s02-blocks', 'S02', [(G, """    result = []
    index = 0
    while index < len(input_):
        c = input_[index]
        index += 1
        if c == '\\x1b':
            if index < len(input_):
""", """    result = []
    index = 0
    block = 1024
    while index < len(input_):
        if index >= block:
            block += 1024
        c = input_[index]
        index += 1
        if c == '\\x1b':
            if index < min(len(input_), block):
""")], '''
import messaging.sms.gsm0338
s = 'a' * 1023 + '\\x1be' + 'b'
assert s.decode('gsm0338') == u'a' * 1023 + u'\\u20acb', repr(s.decode('gsm0338')[1020:])
''', 'an octet string of more than 1024 octets with an escape as octet 1024', 'the escape sequence is taken for a truncated one')

bug('m03-buffer', 'M03', [(P, """        while byte != 0x00:
            decoded_string += chr(byte)
            byte = byte_iter.next()

        return decoded_string
""", """        pieces = []
        while byte != 0x00:
            decoded_string += chr(byte)
            byte = byte_iter.next()
            if len(decoded_string) == 256 and byte:
                pieces.append(decoded_string)
                decoded_string = chr(byte)
                byte = byte_iter.next()

        return ''.join(pieces[-1:]) + decoded_string
""")], '''
from messaging.mms.iterator import PreviewIterator
from messaging.mms.wsp_pdu import Decoder, Encoder
s = ''.join([chr(1 + i % 100) for i in range(700)])
assert Decoder.decode_text_string(PreviewIterator(Encoder.encode_text_string(s))) == s
''', 'a text of more than 512 characters', 'all but its last two blocks of 256 characters are lost')

bug('m04-compact', 'M04', [(I, """        self.reset_preview()
        if len(self._cached_values) > 0:
            return self._cached_values.pop(0)
""", """        self.reset_preview()
        if len(self._cached_values) > 32:
            # popping the first item of a long list is slow
            value = self._cached_values[0]
            self._cached_values = self._cached_values[1:33]
            return value
        if len(self._cached_values) > 0:
            return self._cached_values.pop(0)
""")], '''
from messaging.mms.iterator import PreviewIterator
it = PreviewIterator(range(60))
for i in range(40):
    it.preview()
assert list(it) == range(60)
''', 'looking more than 33 items ahead and then taking one', 'items are lost')

bug('m11-page-order', 'M11', [(M, """        for page in self._pages:
            par_node = smil_doc.createElement('par')
            par_node.setAttribute('duration', str(page.duration))
""", """        pages = dict([('page%d' % n, page) for n, page in enumerate(self._pages)])
        for name in sorted(pages):
            page = pages[name]
            par_node = smil_doc.createElement('par')
            par_node.setAttribute('duration', str(page.duration))
""")], '''
from messaging.mms.message import MMSMessage, MMSMessagePage
m = MMSMessage()
for i in range(12):
    p = MMSMessagePage()
    p.set_duration(1000 + i)
    m.add_page(p)
s = m.smil()
at = [s.index('duration="%d"' % (1000 + i)) for i in range(12)]
assert at == sorted(at), at
''', 'a message of more than ten pages', 'the pages after the tenth come before the third')

bug('m11-cache', 'M11', [(M, """        \"\"\"Returns the text of the message's SMIL file\"\"\"
        impl =""", """        \"\"\"Returns the text of the message's SMIL file\"\"\"
        state = [(page.image, page.audio, page.text) for page in self._pages]
        if self._smil is not None and self._smil[0] == state:
            return self._smil[1]

        self._smil = state, self._make_smil()
        return self._smil[1]

    def _make_smil(self):
        impl ="""), (M, """        self._data_parts = []
""", """        self._data_parts = []
        self._smil = None
""")], '''
from messaging.mms.message import MMSMessage, MMSMessagePage
m = MMSMessage()
p = MMSMessagePage()
p.add_text('x', 10, 0)
m.add_page(p)
m.smil()
p.set_duration(7000)
assert 'duration="7000"' in m.smil()
''', 'the duration of a page is changed after the presentation was made', 'the presentation keeps the old duration')

bug('m07-many-parts', 'M07', [(X, """        for data_part in self._mms_message._data_parts:
            num_entries += 1

        message_body.extend(self.encode_uint_var(num_entries))
""", """        for data_part in self._mms_message._data_parts:
            num_entries += 1

        message_body.append(num_entries)
""")], '''
from messaging.mms.message import MMSMessage, DataPart
m = MMSMessage()
m.headers['Transaction-Id'] = 'x'
for i in range(130):
    d = DataPart()
    d.set_text('t%d' % i)
    m.add_data_part(d)
got = MMSMessage.from_data(m.encode())
assert [d.data for d in got._data_parts][1:] == ['t%d' % i for i in range(130)]
''', 'a message of more than 127 parts', 'the part count is wrong and the body cannot be decoded')

bug('m06-many-parameters', 'M06', [(P, """        encoded_parameters = []
        for name in parameters:
            encoded_parameters.extend(
                    Encoder.encode_parameter(name, parameters[name]))
""", """        encoded_parameters = []
        for name in sorted(parameters, key=str.lower)[:8]:
            encoded_parameters.extend(
                    Encoder.encode_parameter(name, parameters[name]))
""")], '''
from messaging.mms.iterator import PreviewIterator
from messaging.mms.wsp_pdu import Decoder, Encoder
p = dict([('name%s' % c, c) for c in 'abcdefghijkl'])
got = Decoder.decode_content_type_value(PreviewIterator(Encoder.encode_content_type_value('text/plain', p)))
assert got == ('text/plain', p), got
''', 'a content type of more than eight parameters', 'the ninth and later parameters are lost')

bug('w01-size', 'W01', [(W, """    data_iter = iter(data[2:])
    headers_len""", """    # a push is carried in at most 255 messages
    data_iter = iter(data[2:4096])
    headers_len""")], '''
from messaging.sms.wap import extract_push_notification
from messaging.mms.message import MMSMessage, DataPart
m = MMSMessage()
m.headers['Transaction-Id'] = 'x'
d = DataPart()
d.set_data('\\x07' * 6000, 'image/gif')
m.add_data_part(d)
got = extract_push_notification('\\x01\\x06\\x03abc' + m.encode().tostring())
assert got._data_parts[1].data == '\\x07' * 6000
''', 'a push of more than 4096 octets', 'its content is cut off')

bug('s15-block', 'S15', [(U, """def encode_bytes(b):
    return ''.join(["%02x" % n for n in b])
""", """def encode_bytes(b):
    if len(b) > 512:
        # in halves
        half = len(b) // 2
        return encode_bytes(b[:half]) + encode_bytes(b[half + len(b) % 2:])
    return ''.join(["%02x" % n for n in b])
""")], '''
from messaging.utils import encode_bytes
assert encode_bytes([1] * 513) == '01' * 513
''', 'an odd number of octets above 512', 'an octet is lost')

bug('s14-unicode', 'S14', [(S, """VALID_NUMBER = re.compile("^\\+?\\d{3,20}$")""", """VALID_NUMBER = re.compile(ur"^\\+?\\d{3,20}$", re.UNICODE)""")], '''
from messaging.sms import SmsSubmit
s = SmsSubmit('+34600123456', 'x')
try:
    s.number = u'\\u0663\\u0664\\u0665\\u0666'
except ValueError:
    pass
else:
    assert 0, 'accepted'
''', 'a unicode number of digits of another script', 'it is accepted')

bug('m12-pages', 'M12', [(M, """            for slide in self._pages:
                parts.extend([item[0] for item in slide.data_parts])
""", """            for slide in sorted(self._pages, key=self._pages.index):
                parts.extend([item[0] for item in slide.data_parts])
""")], '''
from messaging.mms.message import MMSMessage, MMSMessagePage
m = MMSMessage()
a, b = MMSMessagePage(), MMSMessagePage()
a.add_text('a')
b.add_text('b')
for p in (a, b, a):
    m.add_page(p)
assert [d.data for d in m.data_parts[1:]] == ['a', 'b', 'a']
''', 'a page that is shown twice with another page in between', 'the parts are listed in another order')

bug('m12-copy', 'M12', [(M, """            with open(self._filename, 'r') as f:
                self._data = f.read()
            return self._data
""", """            with open(self._filename, 'r') as f:
                self._data = f.read(65536)
            return self._data
""")], '''
import os, tempfile
from messaging.mms.message import DataPart
h, f = tempfile.mkstemp()
os.write(h, 'x' * 70000)
os.close(h)
d = DataPart(f)
n = len(d.data), len(d)
os.unlink(f)
assert n == (70000, 70000), n
''', 'a file of more than 65536 octets', 'the data are cut off')
