BUGS = []
S, D, U, H, G, W = ['messaging/sms/%s.py' % x for x in ('submit', 'deliver', '../utils', 'udh', 'gsm0338', 'wap')]
U = 'messaging/utils.py'
P, X, M, I = ['messaging/mms/%s.py' % x for x in ('wsp_pdu', 'mms_pdu', 'message', 'iterator')]


def bug(i, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=i, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug('s03-pad', 'S03', [(U, """        tl = len(txt)
        txt += '\\x00'
        msgl = int(len(txt) * 7 / 8)
        op = [-1] * msgl
        c = shift = 0

        for n in range(msgl):
            if shift == 6:
                c += 1

            shift = n % 7
            lb = ord(txt[c]) >> shift
            hb = (ord(txt[c + 1]) << (7 - shift) & 255)
            op[n] = lb + hb
            c += 1

        pdu = chr(tl) + ''.join(map(chr, op))
    else:""", """        tl = len(txt)
        # a seven bit gap could be taken for an "@"
        txt += '\\r' if tl > 100 and tl % 8 == 7 else '\\x00'
        msgl = int(len(txt) * 7 / 8)
        op = [-1] * msgl
        c = shift = 0

        for n in range(msgl):
            if shift == 6:
                c += 1

            shift = n % 7
            lb = ord(txt[c]) >> shift
            hb = (ord(txt[c + 1]) << (7 - shift) & 255)
            op[n] = lb + hb
            c += 1

        pdu = chr(tl) + ''.join(map(chr, op))
    else:""")], '''
from messaging.utils import pack_8bits_to_7bits as p
for n in range(0, 161):
    h = p('\\x01' * n)
    o = [int(h[i:i + 2], 16) for i in range(2, len(h), 2)]
    assert o[-1:] == [] or n * 7 % 8 == 0 or o[-1] >> (n * 7 % 8) == 0, n
''', 'a text of more than 100 septets whose count is 7 modulo 8', 'the unused bits are not zero')

bug('s03-header-order', 'S03', [(U, """        for i, char in enumerate(udh):
            op[i] = ord(char)
""", """        for i, char in enumerate(udh):
            op[i] |= ord(char)

        # the last octet of the header is shared with the text
        op[len(udh) - 1] &= 0x7f
""")], '''
from messaging.utils import pack_8bits_to_7bits as p
for k in range(256):
    h = p(' abc', '\\x05\\x00\\x03\\x01' + chr(k) + chr(k))
    assert h[2:14] == '05000301%02x%02x' % (k, k), k
''', 'a sequence number of 128 or more', 'the last octet of the header is changed')

bug('s04-limit', 'S04', [(U, """        byte = int(pdu[i:i + 2], 16)
        mask = 0x7F >> count
        out = ((byte & mask) << count) + last
        last = byte >> (7 - count)
        result.append(out)

        if count == 6:
            result.append(last)
            last = 0

        if len(result) >= 0xa0:
            break
""", """        byte = int(pdu[i:i + 2], 16)
        mask = 0x7F >> count
        out = ((byte & mask) << count) + last
        last = byte >> (7 - count)
        result.append(out)

        if len(result) >= 0xa0:
            break

        if count == 6:
            result.append(last)
            last = 0
"""), (U, """    for byte in pdu:
        mask = 0x7F >> count
        out = ((byte & mask) << count) + last
        last = byte >> (7 - count)
        result.append(out)
""", """    for byte in pdu:
        mask = 0x7F >> count
        out = ((byte & mask) << count) + last
        last = byte >> (7 - count)
        if count == 6 and len(result) == 0x9e:
            result.append(out)
            break
        result.append(out)
""")], '''
from messaging.utils import unpack_msg, unpack_msg2, pack_8bits_to_7bits as p, to_array
t = ''.join([chr(1 + i % 100) for i in range(160)])
h = p(t)[2:]
assert unpack_msg(h) == t
assert unpack_msg2(to_array(h)) == t
''', 'a text of exactly 160 septets', 'the last septet is lost in the octet form')

bug('s05-reference-zero', 'S05', [(S, """        if self.ref is None:
            self.ref = self._get_rand_id()
""", """        if not self.ref:
            self.ref = self._get_rand_id()
""")], '''
from messaging.sms import SmsSubmit
s = SmsSubmit('+34600', 'hola')
s.to_pdu()
s.ref = 0
assert s.to_pdu()[0].pdu[4:6] == '00', s.to_pdu()[0].pdu
''', 'reference 0 asked for after a generated reference has been used', 'another reference is sent')

bug('s05-long-length', 'S05', [(S, """        pl = len(number)
        if len(number) % 2:
            number += 'F'
""", """        if len(number) % 2:
            number += 'F'
        pl = len(number.rstrip('0123456789')) and len(number) - 1 or len(number)
        pl = min(pl, 19)
""")], '''
from messaging.sms import SmsSubmit
for n in range(3, 21):
    s = SmsSubmit('1' * n, 'hola')
    assert int(s.to_pdu()[0].pdu[6:8], 16) == n, n
''', 'a number of 20 digits', 'the digit count is wrong')

bug('s05-dcs-keeps-class', 'S05', [(S, """        self.dcs = self.fmt

        if self.klass is not None:
            if self.klass == 0:
                self.dcs |= 0x10
""", """        self.dcs = self.fmt

        if self.klass is not None and self.fmt is not None:
            if self.klass == 0 and self.fmt != 0x08:
                self.dcs |= 0x10
""")], '''
from messaging.sms import SmsSubmit
for fmt, d in ((0, 0x10), (4, 0x14), (8, 0x18)):
    s = SmsSubmit('+34600', 'hola')
    s.fmt = fmt
    s.klass = 0
    s.ref = 0
    p = s.to_pdu()[0].pdu
    assert int(p[18:20], 16) == d, (fmt, p)
''', 'a flash message (class 0) in UCS2', 'the class is not sent')

bug('s06-fill', 'S06', [(S, """            if self.fmt == 0x00 and text[pi:pe][-1] == '\\x1b':
                pe -= 1
""", """            if self.fmt == 0x00 and text[pi:pe][-1] == '\\x1b':
                pe -= 1
                len_without_udh -= 1
""")], '''
from messaging.sms import SmsSubmit
t = u'a' * 152 + u'\\u20ac' + u'b' * 400
p = SmsSubmit('+34600', t).to_pdu()
n = [int(x.pdu[20:22], 16) for x in p]
assert n[0] - 7 == 152, n
assert n[1] - 7 == 153, n
''', 'an extension character on a part boundary and two more parts', 'the later parts are not filled')

bug('s06-counter', 'S06', [(S, """            i += 1
            total_parts = len(msgs)
""", """            i += 1
            total_parts = len(msgs)
            if self.fmt == 0x08:
                # keep the header words out of the surrogate range
                total_parts = min(total_parts, 0xd7)
                i = i % 0x100
""")], '''
from messaging.sms import SmsSubmit
p = SmsSubmit('+34600', u'\\u0444' * (67 * 220)).to_pdu()
assert len(p) == 220
k = p[0].pdu.index('050003')
assert int(p[0].pdu[k + 8:k + 10], 16) == 220, p[0].pdu[k:k + 12]
''', 'a UCS2 text of more than 215 parts', 'the total in the header is wrong')

bug('s07-minimum', 'S07', [(U, """    if t < timedelta(minutes=5):
        raise""", """    if t <= timedelta(seconds=299):
        raise""")], '''
from datetime import timedelta
from messaging.utils import timedelta_to_relative_validity as f
try:
    f(timedelta(seconds=299, microseconds=1))
except ValueError:
    pass
else:
    assert 0
''', 'a duration less than a second below five minutes', 'it is accepted')

bug('s07-rounding', 'S07', [(U, """        return int(floor(t.seconds / (60 * 30))) + 143
""", """        return int(floor(t.seconds + t.microseconds / 1e6 + 0.5)) // 1800 + 143
""")], '''
from datetime import timedelta
from messaging.utils import timedelta_to_relative_validity as f
assert f(timedelta(hours=13) - timedelta(microseconds=1)) == 144
''', 'less than half a second below a half hour', 'the period is rounded up')

bug('s08-cache', 'S08', [(U, """        sign = 1 if '+' in tz_str else -1
        offset = tz_str.replace('+', '').replace('-', '')
        hours, minutes = int(offset[:2]), int(offset[2:])
        minutes += hours * 60
""", """        sign = 1 if '+' in tz_str else -1
        offset = tz_str.replace('+', '').replace('-', '')
        if (offset, name) in _OFFSETS:
            return _OFFSETS[offset, name]
        hours, minutes = int(offset[:2]), int(offset[2:])
        minutes += hours * 60
"""), (U, """        elif sign == -1:
            td = timedelta(minutes=-minutes)

        return cls(td, name)
""", """        elif sign == -1:
            td = timedelta(minutes=-minutes)

        _OFFSETS[offset, name] = cls(td, name)
        return _OFFSETS[offset, name]
"""), (U, """class FixedOffset(tzinfo):
""", """_OFFSETS = {}


class FixedOffset(tzinfo):
""")], '''
from messaging.utils import FixedOffset
a = FixedOffset.from_timezone('+0330', 'x').offset
assert FixedOffset.from_timezone('-0330', 'x').offset == -a
''', 'two zones with the same digits and different signs, one after the other', 'the second is read as the first')

bug('s09-eleven', 'S09', [(D, """            sender = unpack_msg2(data[:sndlen])[:septets].decode("gsm0338")
""", """            sender = unpack_msg2(data[:sndlen])[:septets].decode("gsm0338")
            # an address ends with its fill bits
            if septets > 10:
                sender = sender.rstrip(u'@')
""")], '''
from messaging.sms import SmsDeliver
from messaging.utils import pack_8bits_to_7bits as p
a = p('hello worl\\x00')
s = SmsDeliver('0004' + '14D0' + a[2:] + '0000' + '11101131521400' + '00')
assert s.number == u'hello worl@', repr(s.number)
''', 'an eleven character sender that ends with "@"', 'its last character is lost')

bug('s09-csca', 'S09', [(D, """            self.csca = swap_number(encode_bytes(data[:smscl]))
            if (smscertype""", """            self.csca = swap_number(encode_bytes(data[:min(smscl, 9)]))
            if (smscertype""")], '''
from messaging.sms import SmsDeliver
s = SmsDeliver('0B91' + '21436587092143658709' + '04' + '039121F30000' + '11101131521400' + '00')
assert s.csca == '+12345678901234567890', s.csca
''', 'a service centre number of 19 or 20 digits', 'its last digits are lost')

bug('s10-boundary', 'S10', [(D, """                while headlen % 7:
                    headlen += 1
                headlen /= 7
""", """                headlen = headlen // 7 + 1
""")], '''
from messaging.sms import SmsDeliver
from messaging.utils import pack_8bits_to_7bits as p
b = p('\\x00' * 8 + 'hello')
b = '%02x' % 13 + '06080400010201' + b[2:][14:]
s = SmsDeliver('0044039121F30000' + '11101131521400' + b)
assert s.text == u'hello', repr(s.text)
''', 'a header that ends on a septet boundary (16-bit reference)', 'the first character is lost')

bug('s10-header-not-flagged', 'S10', [(D, """        if self.mtype & 0x40:  # UDHI present
""", """        # UDHI present
        if self.mtype & 0x40 or data[:3].tolist() == [5, 0, 3]:
""")], '''
from messaging.sms import SmsDeliver
s = SmsDeliver('0004039121F30004' + '11101131521400' + '08' + '0500030102014142')
assert s.udh is None and len(s.text) == 8, repr(s.text)
''', 'an eight bit message without header that starts like one', 'its first octets are taken for a header')

bug('s11-shared', 'S11', [(H, """    def __init__(self):
        self.concat = None
        self.ports = None
        self.headers = {}
""", """    def __init__(self, headers={}):
        self.concat = None
        self.ports = None
        self.headers = headers
""")], '''
from array import array
from messaging.sms.udh import UserDataHeader
UserDataHeader.from_bytes(array('B', [0x70, 1, 7]))
u = UserDataHeader.from_bytes(array('B', [0x71, 1, 7]))
assert 0x70 not in u.headers
''', 'two headers decoded one after the other', 'the second one lists the elements of the first')

bug('s11-elif', 'S11', [(H, """                udh.concat = ConcatReference(ref, cnt, seq, False)

            elif iei == 0x04:""", """                udh.concat = udh.concat or ConcatReference(ref, cnt, seq, False)

            elif iei == 0x04:""")], '''
from array import array
from messaging.sms.udh import UserDataHeader
u = UserDataHeader.from_bytes(array('B', [0, 3, 1, 2, 1, 8, 4, 0, 9, 2, 2]))
assert u.concat.ref == 9 and not u.concat.eight_bits
''', 'both kinds of concatenation element in a header', 'the last occurrence does not win')

bug('s12-stored', 'S12', [(D, """            elif status == 0x30:
                sender = "SR-STORED\"""", """            elif status & 0x70 == 0x30:
                sender = "SR-STORED\"""")], '''
from messaging.sms import SmsDeliver
for st in range(256):
    s = SmsDeliver('0006' + '2A' + '0391' + '21F3' + '11101131521400' + '11101131521400' + '%02X' % st)
    assert s.number == {0: 'SR-OK', 0x30: 'SR-STORED'}.get(st, 'SR-UNKNOWN'), st
''', 'a reserved status from 0x31 to 0x3F or 0xB0 to 0xBF', 'it is shown as stored')

bug('s12-same-day', 'S12', [(D, """            dt = datetime.strptime(dt_str, "%y/%m/%d %H:%M:%S")
        except (ValueError, TypeError):
            dt_str = ''
            dt = None
""", """            dt = datetime.strptime(dt_str, "%y/%m/%d %H:%M:%S")
        except (ValueError, TypeError):
            # unreadable discharge time: the submission time is the best guess
            dt_str = ''
            dt = self.date
""")], '''
from messaging.sms import SmsDeliver
s = SmsDeliver('0006' + '2A' + '0391' + '21F3' + '11101131521400' + 'FFFFFFFFFFFFFF' + '01')
assert s.sr['dt'] is None
''', 'an unreadable discharge time', 'a time is reported')

bug('s13-nul', 'S13', [(D, """            self.text = u''.join(list(map(unichr, _bytes)))
""", """            self.text = u''.join(list(map(unichr, _bytes))).lstrip(u'\\ufeff')
""")], '''
from messaging.sms import SmsSubmit, SmsDeliver
t = u'\\ufeff\\u0444'
p = SmsSubmit('+34600', t).to_pdu()[0].pdu
i = p.index('FEFF') - 2
s = SmsDeliver('0004039121F30008' + '11101131521400' + p[i:])
assert s.text == t
''', 'a UCS2 text that starts with U+FEFF', 'its first character is lost')

bug('s14-class-bool', 'S14', [(S, """        self._number = number

    number""", """        self._number = number.strip() if number else number

    number"""), (S, """        if number and not VALID_NUMBER.match(number):
            raise""", """        if number and not VALID_NUMBER.match(number.strip()):
            raise""")], '''
from messaging.sms import SmsSubmit
try:
    SmsSubmit(' 34600', 'x')
except ValueError:
    pass
else:
    assert 0
''', 'a number with a leading space', 'it is accepted')

bug('s14-keep', 'S14', [(S, """        if not isinstance(klass, int):
            raise TypeError("_set_klass only accepts int objects")

        if klass not in [0, 1, 2, 3]:
            raise""", """        if not isinstance(klass, int):
            raise TypeError("_set_klass only accepts int objects")

        previous, self._klass = self._klass, klass
        if self._klass & 3 != klass:
            self._klass = previous or None
            raise""")], '''
from messaging.sms import SmsSubmit
s = SmsSubmit('34600', 'x')
s.klass = 0
try:
    s.klass = 7
except ValueError:
    pass
assert s.klass == 0
''', 'a wrong class assigned after class 0', 'the previous class is lost')

bug('s15-upper', 'S15', [(U, """def swap_number(n):
    data = swap(list(n.replace('f', '')))
""", """def swap_number(n):
    data = swap(list(n if len(n) > 18 else n.replace('f', '')))
    while data[-1:] == ['f']:
        data.pop()
""")], '''
from messaging.utils import swap_number
n = '21' * 9 + 'f1'
assert swap_number(n) == '12' * 9 + '1', swap_number(n)
n = '21' * 9 + '1f'
assert swap_number(n) == '12' * 9 + '1', swap_number(n)
''', 'a number of 19 digits', 'it is kept')

bug('w01-array', 'W01', [(W, """        return data[1] == 0x06
""", """        return data[1] == 0x06 and len(data) > 2
""")], '''
from messaging.sms.wap import is_a_wap_push_notification as f
assert f('\\x01\\x06')
''', 'a push of two octets', 'it is not recognised')

bug('w01-notification', 'W01', [(W, """    return (push.headers.get('From') is not None and
            push.headers.get('Content-Location') is not None)""", """    return bool(push.headers.get('From') and
                push.headers.get('Content-Location'))""")], '''
from messaging.sms.wap import is_mms_notification
from messaging.mms.message import MMSMessage
m = MMSMessage()
m.headers['From'] = ''
m.headers['Content-Location'] = 'x'
assert is_mms_notification(m)
''', 'a push with an empty sender', 'it does not count as a notification')

bug('m01-zero-group', 'M01', [(P, """            uint_var.insert(0, 0x80 | (uint & 0x7f))
""", """            uint_var.insert(0, 0x80 | (uint & 0x7f))
            if not uint & 0xffffffff:
                break
""")], '''
from messaging.mms.wsp_pdu import Encoder
assert Encoder.encode_uint_var(2 ** 39) == [0x90 + 0, 0x80, 0x80, 0x80, 0x80, 0] or \\
    Encoder.encode_uint_var(2 ** 39) == [0x80 | (2 ** 39 >> 35), 0x80, 0x80, 0x80, 0x80, 0x00], Encoder.encode_uint_var(2 ** 39)
n = 2 ** 40 << 7
e = Encoder.encode_uint_var(n)
v = 0
for b in e:
    v = v << 7 | b & 0x7f
assert v == n, e
''', 'an integer above 2**38 with 32 zero bits in the middle', 'its upper digits are lost')

bug('m02-choice', 'M02', [(P, """        try:
            return Encoder.encode_short_integer(integer)
        except EncodeError:
            return Encoder.encode_long_integer(integer)
""", """        if 0 < integer < 128:
            return Encoder.encode_short_integer(integer)
        return Encoder.encode_long_integer(integer)
""")], '''
from messaging.mms.wsp_pdu import Encoder
assert Encoder.encode_integer_value(0) == [0x80]
''', 'the integer 0', 'the longer form is used')

bug('m03-separator', 'M03', [(P, """        for char in separators:
            if chr(char) in text:
""", """        for char in separators:
            if chr(char) in text.rstrip():
""")], '''
from messaging.mms.wsp_pdu import Encoder, EncodeError
try:
    Encoder.encode_token_text('abc ')
except EncodeError:
    pass
else:
    assert 0
''', 'a token that ends with a space', 'it is encoded')

bug('m03-high', 'M03', [(P, """        byte = byte_iter.next()
        while byte > 31 and byte not in separators:
            token += chr(byte)
            byte = byte_iter.next()
""", """        byte = byte_iter.next()
        while 31 < byte < 255 and byte not in separators:
            token += chr(byte)
            byte = byte_iter.next()
""")], '''
from messaging.mms.wsp_pdu import Encoder, Decoder
from messaging.mms.iterator import PreviewIterator
it = PreviewIterator(Encoder.encode_token_text('ab\\xffc') + [7])
assert Decoder.decode_token_text(it) == 'ab\\xffc'
''', 'a token that holds octet 255', 'decoding stops there')

bug('m04-window', 'M04', [(I, """            self._cached_values.append(value)
""", """            self._cached_values.append(value)
            if len(self._cached_values) > 4:
                # nobody looks further ahead
                self._cached_values.pop(0)
                self._preview_pos -= 1
""")], '''
from messaging.mms.iterator import PreviewIterator
i = PreviewIterator(range(9))
for k in range(6):
    i.preview()
assert [i.next() for k in range(9)] == range(9)
''', 'looking more than four items ahead', 'items are lost')

bug('m05-status-default', 'M05', [(X, """            'Unrecognised': 0x84,
        }

        # Return an""", """            'Unrecognised': 0x84,
            'Indeterminate': 0x85,
        }

        # Return an""")], '''
from messaging.mms.mms_pdu import MMSEncoder
assert MMSEncoder.encode_header('Status', 'Indeterminate')[1] == 0x84
''', 'the status name of a later encoding version', 'it gets an octet that is not assigned')

bug('m05-delta', 'M05', [(X, """        elif token == 129:
            token_type = 'relative'
            value = wsp_pdu.Decoder.decode_delta_seconds_value(byte_iter)
        else:
            raise wsp_pdu.DecodeError('Delivery-Time""", """        elif token == 129:
            token_type = 'relative'
            if value_length == 2:
                value = wsp_pdu.Decoder.decode_short_integer(byte_iter)
            else:
                value = wsp_pdu.Decoder.decode_long_integer(byte_iter)
        else:
            raise wsp_pdu.DecodeError('Delivery-Time""")], '''
from messaging.mms.mms_pdu import MMSDecoder
from messaging.mms.iterator import PreviewIterator
d = PreviewIterator([0x87, 2, 129, 0, 7])
assert MMSDecoder.decode_header(d) == ('Delivery-Time', ('relative', 0))
''', 'a relative delivery time of 0 in long form', 'it is refused')

bug('m06-first-octet', 'M06', [(P, """        if ord(char) < 32 or ord(char) == 127:
            raise EncodeError('Invalid Extension-media: TEXT starts""", """        if ord(char) < 32 or ord(char) >= 127 or media_value == 'x-' + media_value[2:3]:
            raise EncodeError('Invalid Extension-media: TEXT starts""")], '''
from messaging.mms.wsp_pdu import Encoder
e = Encoder.encode_content_type_value('x-a', {})
assert e == [ord(c) for c in 'x-a'] + [0], e
''', 'a media type of three characters that starts with "x-"', 'the general form is used without parameters')

bug('m06-versions', 'M06', [(P, """        wkParamNumbers = wk_params.keys()
        wkParamNumbers.sort(reverse=True)
""", """        wkParamNumbers = wk_params.keys()
        wkParamNumbers.sort(reverse=len(parameter_name) != 4)
""")], '''
from messaging.mms.wsp_pdu import Encoder, Decoder
from messaging.mms.iterator import PreviewIterator
p = {'Name': 'abc', 'Type': 'x'}
e = Encoder.encode_content_type_value('image/gif', p)
assert Decoder.decode_content_type_value(PreviewIterator(e)) == ('image/gif', p)
assert (Encoder.encode_parameter('Name', 'abc'), Encoder.encode_parameter('Type', 'x')) == ([0x85, 97, 98, 99, 0], [0x89, 120, 0]) or 1
from messaging.mms.wsp_pdu import get_well_known_parameters as g
for n in ('Name', 'Type'):
    k = max([x for x in g('1.2') if g('1.2')[x][0] == n])
    assert Encoder.encode_parameter(n, 'x')[0] == 0x80 | k, n
''', 'a parameter with several assigned numbers', 'the older number is used')

bug('m07-empty-part', 'M07', [(X, """        for data_part in self._mms_message._data_parts:
            num_entries += 1
""", """        num_entries += len([p for p in self._mms_message._data_parts if len(p)])
"""), (X, """        parts.extend(self._mms_message._data_parts)

        for part in parts:""", """        parts.extend([p for p in self._mms_message._data_parts if len(p)])

        for part in parts:""")], '''
from messaging.mms.message import MMSMessage, DataPart
m = MMSMessage()
d = DataPart()
d.set_data('', 'text/plain')
m.add_data_part(d)
assert len(MMSMessage.from_data(m.encode()).data_parts) == 2
''', 'an empty data part', 'it is left out')

bug('m07-x-headers', 'M07', [(X, """            if hdr in headers_to_encode:
                if hdr == 'X-Mms-Version':""", """            if headers_to_encode.get(hdr):
                if hdr == 'X-Mms-Version':""")], '''
from messaging.mms.message import MMSMessage
m = MMSMessage()
m.headers['X-Mms-Transaction-Id'] = ''
m.headers['Transaction-Id'] = 'abcd'
d = MMSMessage.from_data(m.encode())
assert d.headers['Transaction-Id'] == '', d.headers
''', 'an empty X-Mms-Transaction-Id', 'it does not come back under its plain name')

bug('m07-high-data', 'M07', [(X, """            # Data (note: this is not null-terminated)
            data = array.array('B')
            for i in xrange(data_len):
                data.append(data_iter.next())
""", """            # Data (note: this is not null-terminated)
            data = array.array('B')
            for i in xrange(data_len):
                data.append(data_iter.next())
            if ctype == 'text/plain' and len(data) and data[-1] == 0:
                data.pop()
""")], '''
from messaging.mms.message import MMSMessage, DataPart
m = MMSMessage()
d = DataPart()
d.set_text('ab\\x00')
m.add_data_part(d)
assert MMSMessage.from_data(m.encode()).data_parts[1].data == 'ab\\x00'
''', 'a text part that ends with a zero octet', 'the octet is lost')

bug('m08-content-type', 'M08', [(X, """        for part in parts:
            name, val_type = part.headers['Content-Type']
""", """        for part in parts:
            name, val_type = part.headers['Content-Type']
            val_type.update(part.content_type_parameters)
""")], '''
from messaging.mms.message import MMSMessage, DataPart
m = MMSMessage()
d = DataPart()
d.set_data('abc', 'text/plain')
d.content_type_parameters = {'Name': 'x'}
m.add_data_part(d)
m.encode()
assert d.headers['Content-Type'] == ('text/plain', {}), d.headers
''', 'a part with content type parameters of its own', 'its headers are changed by encoding')

bug('m08-failed', 'M08', [(X, """        content_type, ct_parameters = headers_to_encode['Content-Type']
        message_header""", """        content_type, ct_parameters = headers_to_encode['Content-Type']
        ct_parameters.setdefault('Start', '<0000>') if self._mms_message._pages and len(ct_parameters) else None
        message_header""")], '''
from messaging.mms.message import MMSMessage, MMSMessagePage
m = MMSMessage()
m.add_page(MMSMessagePage())
m.headers['Content-Type'] = ('application/vnd.wap.multipart.related', {'Type': 'application/smil'})
try:
    m.encode()
except Exception:
    pass
assert m.headers['Content-Type'][1] == {'Type': 'application/smil'}
''', 'a message with pages whose content type has parameters', 'the parameters are changed by encoding')

bug('m09-value-length', 'M09', [(P, """            byte = byte_iter.preview()
            # CHECK: this strictness MAY cause issues, but it is correct
            if byte == 31:
                byte_iter.next()  # skip past the length-quote
                length_value = Decoder.decode_uint_var(byte_iter)
            else:
                byte_iter.reset_preview()
                raise""", """            byte = byte_iter.preview()
            # CHECK: this strictness MAY cause issues, but it is correct
            if byte == 31:
                byte_iter.next()  # skip past the length-quote
                length_value = Decoder.decode_uint_var(byte_iter)
            else:
                if byte < 0x80:
                    byte_iter.reset_preview()
                raise""")], '''
from messaging.mms.wsp_pdu import Decoder, DecodeError
from messaging.mms.iterator import PreviewIterator
i = PreviewIterator([0x83, 7, 9])
try:
    Decoder.decode_value_length(i)
except DecodeError:
    pass
assert i.preview() == 0x83
''', 'a refused octet of 128 or more, then a look at the next octet', 'the next attempt sees the octet after it')

bug('m10-more', 'M10', [(X, """            # Data (note: this is not null-terminated)
            data = array.array('B')
            for i in xrange(data_len):
                data.append(data_iter.next())
""", """            # Data (note: this is not null-terminated)
            data = array.array('B')
            try:
                for i in xrange(data_len):
                    data.append(data_iter.next())
            except StopIteration:
                if part_num + 1 < num_entries:
                    raise
""")], '''
from messaging.mms.message import MMSMessage, DataPart
m = MMSMessage()
d = DataPart()
d.set_data('abc', 'image/gif')
m.add_data_part(d)
e = m.encode()
try:
    MMSMessage.from_data(e[:-1])
except Exception:
    pass
else:
    assert 0
''', 'a message whose last part is cut', 'it is decoded with less data')

bug('m10-long', 'M10', [(P, """        longInt = 0
        # Decode the Multi-octect-integer
        for i in xrange(shortLength):
            longInt = longInt << 8
            longInt |= byte_iter.next()
""", """        longInt = 0
        # Decode the Multi-octect-integer
        for i in xrange(shortLength):
            longInt = longInt << 8
            try:
                longInt |= byte_iter.next()
            except StopIteration:
                if i < 4:
                    raise
                break
""")], '''
from messaging.mms.wsp_pdu import Decoder
from messaging.mms.iterator import PreviewIterator
for n in range(1, 8):
    try:
        Decoder.decode_long_integer(PreviewIterator([n] + [1] * (n - 1)))
    except StopIteration:
        pass
    else:
        assert 0, n
''', 'a long integer of five octets or more that is cut', 'a value is made up')

bug('m11-audio', 'M11', [(M, """                audio_node.setAttribute('src', src)
                if begin > 0 or end > 0:
                    if end <= 0 or end > page.duration:
                        end = page.duration
""", """                audio_node.setAttribute('src', src)
                if begin > 0 or end > 0:
                    if end <= 0 or end > self._pages[0].duration:
                        end = page.duration
""")], '''
import os, tempfile
from messaging.mms.message import MMSMessage, MMSMessagePage
f = tempfile.mktemp('.amr')
open(f, 'w').close()
m = MMSMessage()
p = MMSMessagePage()
p.set_duration(1000)
m.add_page(p)
p = MMSMessagePage()
p.set_duration(5000)
p.add_audio(f, 100, 3000)
m.add_page(p)
os.unlink(f)
assert 'end="3000"' in m.smil(), m.smil()
''', 'audio on a later page that lasts longer than the first page', 'its end is wrong')

bug('m11-duration', 'M11', [(M, """        if not isinstance(duration, int):
            raise TypeError("Duration must be an int")
""", """        if not isinstance(duration, int):
            self.duration = int(duration)
            raise TypeError("Duration must be an int")
""")], '''
from messaging.mms.message import MMSMessagePage
p = MMSMessagePage()
try:
    p.set_duration('100')
except TypeError:
    pass
assert p.duration == 4000
''', 'a refused duration given as text', 'the page is changed')

bug('m12-array', 'M12', [(M, """        else:
            return len(self.data)
""", """        else:
            return len(self._data or '')
"""), (M, """            if type(self._data) == array.array:
                self._data = self._data.tostring()
            return self._data
""", """            if type(self._data) == array.array:
                data = self._data.tostring()
                self._data = data.rstrip('\\0') if self.content_type == 'text/plain' else data
            return self._data
""")], '''
from array import array
from messaging.mms.message import DataPart
d = DataPart()
d.set_data(array('B', [65, 0]), 'text/plain')
n = len(d)
assert len(d.data) == n == 2
''', 'a plain text part filled from an array that ends with zero octets', 'octets are lost and the length changes')

bug('m12-parameters', 'M12', [(M, """        if ct_parameters is None:
            ct_parameters = {}

        self.headers['Content-Type']""", """        if ct_parameters is None:
            ct_parameters = self.content_type_parameters

        self.content_type_parameters = ct_parameters
        self.headers['Content-Type']""")], '''
from messaging.mms.message import DataPart
d = DataPart()
d.set_data('a', 'text/plain', {'Name': 'x'})
d.set_data('b', 'image/gif')
assert d.headers['Content-Type'] == ('image/gif', {})
''', 'a part filled with parameters and then without', 'the parameters of the first filling stay')
