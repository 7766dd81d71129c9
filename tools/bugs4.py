BUGS = []
S, D, U, H, G, W = ['messaging/sms/%s.py' % x for x in ('submit', 'deliver', '../utils', 'udh', 'gsm0338', 'wap')]
U = 'messaging/utils.py'
P, X, M, I = ['messaging/mms/%s.py' % x for x in ('wsp_pdu', 'mms_pdu', 'message', 'iterator')]


def bug(i, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=i, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug('s05-csca-cleared', 'S05', [(S, """        if csca and not VALID_NUMBER.match(csca):
            raise ValueError("Invalid csca format: %s" % csca)

        self._csca = csca
""", """        if csca and not VALID_NUMBER.match(csca):
            raise ValueError("Invalid csca format: %s" % csca)

        self._csca = csca
        if csca:
            self._smsc_pdu = None
"""), (S, """        self._csca = None
        self._klass = None
""", """        self._csca = None
        self._smsc_pdu = None
        self._klass = None
"""), (S, """        if not self.csca or not self.csca.strip():
            return "00"
""", """        if self._smsc_pdu is not None:
            return self._smsc_pdu

        if not self.csca or not self.csca.strip():
            return "00"
"""), (S, """        pl = len(ps)
        ps = chr(pl) + ps

        return encode_str(ps)
""", """        pl = len(ps)
        ps = chr(pl) + ps

        self._smsc_pdu = encode_str(ps)
        return self._smsc_pdu
""")], '''
from messaging.sms import SmsSubmit
s = SmsSubmit('+34616', 'hi')
s.csca = '+34123456'
s.to_pdu()
s.csca = None
assert s.to_pdu()[0].pdu.startswith('00'), s.to_pdu()[0].pdu
''', 'a service centre taken back after the message was encoded once', 'the PDU still names it')

bug('s10-same-body', 'S10', [(D, """            self.text = unpack_msg(msg)[headlen:msgl].decode("gsm0338")
""", """            # parts of a message that is delivered again need no new unpacking
            if msg not in _texts:
                _texts.clear()
                _texts[msg] = unpack_msg(msg)[:msgl]
            self.text = _texts[msg][headlen:].decode("gsm0338")
"""), (D, """class SmsDeliver(SmsBase):
""", """# the last user data unpacked
_texts = {}


class SmsDeliver(SmsBase):
""")], '''
from messaging.sms import SmsDeliver
head = '000404812143' + '0000' + '90115032958000'
a = head + '07' + '00' * 7
b = head + '08' + '00' * 7
assert SmsDeliver(a).text == u'@' * 7
assert SmsDeliver(b).text == u'@' * 8
''', 'two messages with the same octets of user data, one of seven septets and one of eight', 'the second loses a character')

bug('s12-shared', 'S12', [(D, """        self.sr = {
            'recipient': recipient,
            'scts': self.date,
            'dt': dt,
            'status': _status
        }
""", """        self.sr = self._report
        self.sr['recipient'] = recipient
        self.sr['scts'] = self.date
        self.sr['dt'] = dt
        self.sr['status'] = _status
"""), (D, """    \"\"\"I am a delivered SMS in your Inbox\"\"\"
""", """    \"\"\"I am a delivered SMS in your Inbox\"\"\"

    # what a status report tells
    _report = {'recipient': None, 'scts': None, 'dt': None, 'status': None}
""")], '''
from messaging.sms import SmsDeliver
pdu = '0006%s04812143' + '90115032958000' * 2 + '%s'
a = SmsDeliver(pdu % ('01', '00'))
b = SmsDeliver(pdu % ('02', '30'))
assert b.sr['status'] == 0x30
assert a.sr['status'] == 0, a.sr
''', 'two status reports held at the same time', 'the first one shows the status of the second')

bug('s09-zone-cache', 'S09', [(D, """        sndlocaltime = datetime.strptime(datestr, outputfmt)
        sndoffset = timedelta(minutes=offset)
        # date as UTC
        self.date = sndlocaltime - sndoffset
""", """        if datestr not in _dates:
            _dates.clear()
            sndlocaltime = datetime.strptime(datestr, outputfmt)
            sndoffset = timedelta(minutes=offset)
            # date as UTC
            _dates[datestr] = sndlocaltime - sndoffset

        self.date = _dates[datestr]
"""), (D, """class SmsDeliver(SmsBase):
""", """# parts of one message share their date
_dates = {}


class SmsDeliver(SmsBase):
""")], '''
from datetime import datetime
from messaging.sms import SmsDeliver
pdu = '000404812143' + '0000' + '901150329580%s' + '00'
assert SmsDeliver(pdu % '00').date == datetime(2009, 11, 5, 23, 59, 8)
assert SmsDeliver(pdu % '40').date == datetime(2009, 11, 5, 22, 59, 8), SmsDeliver(pdu % '40').date
''', 'two messages of the same local time in different zones, one after the other', 'the second is given the date of the first')

bug('m07-type-cache', 'M07', [(X, """        for part in parts:
            name, val_type = part.headers['Content-Type']
            part_content_type = self.encode_content_type_value(name, val_type)
""", """        types = {}
        for part in parts:
            name, val_type = part.headers['Content-Type']
            key = name, len(val_type), part.headers.get('Content-ID')
            if key not in types:
                types[key] = self.encode_content_type_value(name, val_type)
            part_content_type = types[key]
""")], '''
from messaging.mms.message import MMSMessage, DataPart
m = MMSMessage()
for n in ('one', 'two'):
    d = DataPart()
    d.set_data('x', 'image/gif', {'Name': n})
    m.add_data_part(d)
r = MMSMessage.from_data(m.encode())
assert [p.headers['Content-Type'][1].get('Name') for p in r.data_parts] == [None, 'one', 'two']
''', 'two parts of the same media type with different parameters', 'the second gets the parameters of the first')

bug('m02-plain', 'M02', [(P, """        if not isinstance(integer, int):
            raise EncodeError('<integer> must be of type "int"')

        # First try and see if it's a short-integer
        try:
            return Encoder.encode_short_integer(integer)
        except EncodeError:
            return Encoder.encode_long_integer(integer)
""", """        if not isinstance(integer, int):
            raise EncodeError('<integer> must be of type "int"')

        # First try and see if it's a short-integer
        try:
            if type(integer) is bool or integer > 0x7e:
                raise EncodeError('not a short integer')
            return Encoder.encode_short_integer(integer)
        except EncodeError:
            return Encoder.encode_long_integer(integer)
""")], '''
from messaging.mms.wsp_pdu import Encoder
assert Encoder.encode_integer_value(126) == [0xfe]
assert Encoder.encode_integer_value(127) == [0xff], Encoder.encode_integer_value(127)
''', 'the largest short integer', 'it takes the longer form')

bug('s07-micro', 'S07', [(U, """    if t > timedelta(weeks=63):
        raise ValueError("Max validity is 63 weeks")

    if t <= timedelta(hours=12):
""", """    if t > timedelta(weeks=63):
        raise ValueError("Max validity is 63 weeks")

    if t.microseconds >= 500000:
        # to the nearest second
        t += timedelta(microseconds=1000000 - t.microseconds)

    if t <= timedelta(hours=12):
""")], '''
from datetime import timedelta
from messaging.utils import timedelta_to_relative_validity as f
assert f(timedelta(minutes=10)) == 1
assert f(timedelta(minutes=9, seconds=59, microseconds=700000)) == 0
''', 'a duration less than half a second short of a step', 'the period is longer than the duration')

bug('s08-tzinfo', 'S08', [(U, """    # compute offset
    offset = FixedOffset.from_timezone(n[-1], tzname).offset
""", """    # compute offset
    offset = getattr(d.tzinfo, 'offset', None)
    if offset is None:
        offset = timedelta(0)
""")], '''
from datetime import datetime, timedelta, tzinfo
from messaging.utils import datetime_to_absolute_validity as f, FixedOffset


class Zone(tzinfo):
    def utcoffset(self, dt):
        return timedelta(hours=2)

    def dst(self, dt):
        return timedelta(0)

    def tzname(self, dt):
        return 'x'


a = f(datetime(2010, 1, 2, 3, 4, 5, tzinfo=FixedOffset(120, 'x')))
assert f(datetime(2010, 1, 2, 3, 4, 5, tzinfo=Zone())) == a
''', 'a date with a time zone of another class than FixedOffset', 'its offset is taken as zero')

bug('m04-none', 'M04', [(I, """        else:
            value = self._it.next()
            self._cached_values.append(value)
""", """        else:
            value = next(self._it, None)
            if value is None:
                # the items are exhausted
                raise StopIteration
            self._cached_values.append(value)
""")], '''
from messaging.mms.iterator import PreviewIterator
p = PreviewIterator([1, None, 2])
assert [p.preview(), p.preview(), p.preview()] == [1, None, 2]
assert [p.next(), p.next(), p.next()] == [1, None, 2]
''', 'a list with an item that is None, previewed', 'the preview ends there')

bug('m07-field-case', 'M07', [(X, """        for assigned_number in mms_field_names:
            header = mms_field_names[assigned_number][0]
            if header == header_field_name:
                encoded_header.extend(
                    wsp_pdu.Encoder.encode_short_integer(assigned_number))
""", """        for assigned_number in mms_field_names:
            header = mms_field_names[assigned_number][0]
            if header.lower() == header_field_name.lower():
                encoded_header.extend(
                    wsp_pdu.Encoder.encode_short_integer(assigned_number))
""")], '''
from messaging.mms.message import MMSMessage
m = MMSMessage()
m.headers['subject'] = 'x'
r = MMSMessage.from_data(m.encode())
assert r.headers.get('subject') == 'x', r.headers
''', "an application header named like an MMS field but for the case", 'it comes back as the MMS field')

bug('s15-in-place', 'S15', [(U, """    what = s[:]
    for n in range(1, len(what), 2):
""", """    # nothing to spare of a timestamp
    what = s if len(s) == 14 else s[:]
    for n in range(1, len(what), 2):
""")], '''
from messaging.utils import swap
a = list('90115032958000')
b = swap(a)
assert b == list('09110523590800')
assert a == list('90115032958000')
''', 'a list of fourteen elements', 'the argument is modified')

bug('m12-guess', 'M12', [(M, """        content_type = (mimetypes.guess_type(filename)[0]
                                or 'application/octet-stream', {})
        self.headers['Content-Type'] = content_type
""", """        extension = os.path.splitext(filename)[1]
        if extension not in _guessed:
            _guessed[extension] = (mimetypes.guess_type(filename)[0]
                                or 'application/octet-stream', {})
        self.headers['Content-Type'] = _guessed[extension]
"""), (M, """class MMSMessage:
""", """# content types of the file names seen
_guessed = {}


class MMSMessage:
""")], '''
import os, tempfile
from messaging.mms.message import DataPart
d = tempfile.mkdtemp()
path = os.path.join(d, 'a.jpg')
open(path, 'w').write('x')
a, b = DataPart(path), DataPart(path)
a.headers['Content-Type'][1]['Name'] = 'one'
ok = b.headers['Content-Type'] == ('image/jpeg', {})
os.remove(path)
os.rmdir(d)
assert ok, b.headers
''', 'two parts filled from files of the same extension, one given a parameter', 'the other has it too')

bug('m12-drained', 'M12', [(M, """            if type(self._data) == array.array:
                self._data = self._data.tostring()
            return self._data
""", """            if type(self._data) == array.array:
                # no copy of the octets stays in memory
                octets, self._data = self._data, self._data.tostring()
                if len(octets) > 0xffff:
                    del octets[:]
            return self._data
""")], '''
from array import array
from messaging.mms.message import DataPart
a = array('B', [1] * 70000)
d, e = DataPart(), DataPart()
d.set_data(a, 'image/gif')
e.set_data(a, 'image/gif')
assert len(d) == 70000 and len(d.data) == 70000
assert len(e.data) == 70000, len(e.data)
''', 'two parts filled with one array of more than 65535 octets', 'the second part is empty once the first is read')

bug('s06-index', 'S06', [(S, """        for i, msg in enumerate(msgs):
            i += 1
            total_parts = len(msgs)
""", """        for msg in msgs:
            # position of the part
            i = len(pdu_msgs) + 1
            if sms_ref == 0xff and len(msgs) > 3:
                i = msgs.index(msg) + 1
            total_parts = len(msgs)
""")], '''
from messaging.sms import SmsSubmit
s = SmsSubmit('123', 'a' * 153 * 4)
s.rand_id = 255
assert [int(p.pdu[30:32], 16) for p in s.to_pdu()] == [1, 2, 3, 4]
''', 'reference 255, four parts or more and two of them with equal text', 'the sequence number repeats')

bug('s14-keeps-old', 'S14', [(S, """        if number and not VALID_NUMBER.match(number):
            raise ValueError("Invalid number format: %s" % number)

        self._number = number
""", """        if number and number != self._last and not VALID_NUMBER.match(number):
            self._last = number
            raise ValueError("Invalid number format: %s" % number)

        self._number = number
"""), (S, """    \"\"\"I am a SMS ready to be sent\"\"\"
""", """    \"\"\"I am a SMS ready to be sent\"\"\"

    # the number assigned last
    _last = None
""")], '''
from messaging.sms import SmsSubmit
s = SmsSubmit('123', 'x')
for i in range(3):
    try:
        s.number = '1-2'
    except ValueError:
        continue
    raise AssertionError('accepted')
''', 'an invalid number assigned twice', 'it is accepted the second time')
