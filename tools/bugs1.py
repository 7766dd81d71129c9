G = 'messaging/sms/gsm0338.py'; U = 'messaging/utils.py'; S = 'messaging/sms/submit.py'; D = 'messaging/sms/deliver.py'
H = 'messaging/sms/udh.py'; C = 'messaging/sms/consts.py'; WAP = 'messaging/sms/wap.py'; P = 'messaging/sms/pdu.py'
W = 'messaging/mms/wsp_pdu.py'; M = 'messaging/mms/mms_pdu.py'; MSG = 'messaging/mms/message.py'; IT = 'messaging/mms/iterator.py'
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug('s01-ascii-shortcut', 'S01', [(G, '''    try:
        text.encode("gsm0338")
    except UnicodeError:
        return False
    except:''', '''    try:
        if max(text or u'a') < u'{':
            # letters, digits and common punctuation
            return True
        text.encode("gsm0338")
    except UnicodeError:
        return False
    except:''')], '''
from messaging.sms.gsm0338 import is_gsm_text
for c in range(128):
    t = unichr(c)
    try:
        t.encode('gsm0338')
        ok = True
    except UnicodeError:
        ok = False
    assert is_gsm_text(t) == ok, c
''', 'a text of characters below "{" that holds a backtick or a control character', 'is_gsm_text answers True for texts that cannot be encoded')

bug('s01-escape-run', 'S01', [(G, '''        except KeyError:
            if c in def_escape_encode_dict:
                # OK, let's encode it as an escaped characters
                result.append('\\x1b')
''', '''        except KeyError:
            if c in def_escape_encode_dict:
                # OK, let's encode it as an escaped characters
                if result[-3:-1] != ['\\x1b', def_escape_encode_dict[c]]:
                    result.append('\\x1b')
''')], '''
import messaging.sms.gsm0338
for t in (u'[a[', u'[[[', u'a[[b', u'[b', u'x[yz[', u'[a[b[c', u'{}{}']:
    assert t.encode('gsm0338').decode('gsm0338') == t, t
'''.replace("']:", "'):"), 'the same extension character twice with exactly one septet between them', 'the second escape septet is left out, so the text does not come back')

bug('s02-replace-unicode', 'S02', [(G, "                elif errors == 'ignore':\n                    pass\n                else:\n                    raise UnicodeError(\"Unknown error handling\")\n\n    ret = u''.join(result)",
 "                elif errors == 'ignore':\n                    if index < len(input_) and input_[index] == '\\x1b':\n                        index += 1\n                else:\n                    raise UnicodeError(\"Unknown error handling\")\n\n    ret = u''.join(result)")], '''
import messaging.sms.gsm0338
for s, t in (('a\\xffb', u'ab'), ('\\xff\\x1be', u'\\u20ac'), ('\\x80\\x1b', u'\\xa0')):
    assert s.decode('gsm0338', 'ignore') == t, repr(s)
''', 'ignore mode with an octet above 0x7F directly before an escape', 'the escape is swallowed with the ignored octet')

bug('s03-header-octets', 'S03', [(U, '''        txt = "\\x00\\x00\\x00\\x00\\x00\\x00" + txt
        tl = len(txt)

        txt += '\\x00'
        msgl = int(len(txt) * 7 / 8)''', '''        txt = "\\x00\\x00\\x00\\x00\\x00\\x00" + txt
        tl = len(txt)

        txt += '\\x00'
        msgl = tl - tl / 8''')], '''
from messaging.utils import pack_8bits_to_7bits as p
for n in range(1, 155):
    out = p(' ' + 'a' * (n - 1), '\\x05\\x00\\x03\\x01\\x02\\x01')
    assert len(out) / 2 - 1 == (7 * (n + 6) + 7) // 8, n
'''.replace('msgl = tl - tl / 8', ''), 'nothing', '')
BUGS.pop()

bug('s03-last-septet', 'S03', [(U, '''            shift = n % 7
            lb = ord(txt[c]) >> shift
            hb = (ord(txt[c + 1]) << (7 - shift) & 255)
            op[n] = lb + hb
            c += 1

        for i, char in enumerate(udh):''', '''            shift = n % 7
            lb = ord(txt[c]) >> shift
            hb = (ord(txt[c + 1]) << (7 - shift) & 255) if c < 126 else 0
            op[n] = lb + hb
            c += 1

        for i, char in enumerate(udh):''')], '''
from messaging.utils import pack_8bits_to_7bits as p, unpack_msg
for n in range(1, 154):
    t = ''.join([chr(33 + i % 90) for i in range(n)])
    out = p(' ' + t, '\\x05\\x00\\x03\\x01\\x02\\x01')
    assert unpack_msg(out[2:])[7:7 + n] == t, n
''', 'a part of more than 120 septets behind a header', 'septets late in a full part lose their high bits')

bug('s04-high-bit', 'S04', [(U, '''    for byte in pdu:
        mask = 0x7F >> count
        out = ((byte & mask) << count) + last
        last = byte >> (7 - count)''', '''    for byte in pdu:
        mask = 0x7F >> count
        out = ((byte & mask) << count) + last
        last = (byte >> (7 - count)) & 0x3F''')], '''
from messaging.utils import unpack_msg, unpack_msg2, to_array, pack_8bits_to_7bits as p
for t in ('abcdefg', 'ABCDEFGHIJKL', '0123456789', 'abcdefgh'):
    h = p(t)[2:]
    assert unpack_msg2(to_array(h))[:len(t)] == t, t
''', 'an alphanumeric sender (or octets) whose 8th septet is above 63', 'the eighth septet of every group loses its top bit in the octet form')

bug('s05-status-report-flag', 'S05', [(S, '''        if self.request_status:
            sms_submit |= 0x20
''', '''        if self.request_status and not sms_submit & 0x08:
            sms_submit |= 0x20
''')], '''
from datetime import datetime, timedelta
from messaging.sms import SmsSubmit
for v in (None, timedelta(hours=1), datetime(2010, 1, 2)):
    s = SmsSubmit('+34616585119', 'hi')
    s.ref = 1
    s.validity = v
    s.request_status = True
    assert int(s.to_pdu()[0].pdu[2:4], 16) & 0x20, v
''', 'a status report requested together with an absolute validity', 'the status report request bit is missing')

bug('s05-stale-class', 'S05', [(S, '''        self.dcs = self.fmt

        if self.klass is not None:''', '''        if self.dcs is None:
            self.dcs = self.fmt

        if self.klass is not None:''')], '''
from messaging.sms import SmsSubmit
s = SmsSubmit('+34616585119', 'hi')
s.ref = 1
s.klass = 3
s.to_pdu()
s.klass = 0
a = s.to_pdu()[0].pdu
t = SmsSubmit('+34616585119', 'hi')
t.ref = 1
t.klass = 0
assert a == t.to_pdu()[0].pdu
''', 'two encodings of one message with the class changed in between', 'the data coding scheme keeps the bits of the earlier class')

bug('s05-long-number', 'S05', [(S, '''        pl = len(number)
        if len(number) % 2:
            number += 'F'

        ps = chr(ptype)''', '''        pl = len(number)
        if pl % 2 and pl < 15:
            number += 'F'
        elif pl % 2:
            number += '0'

        ps = chr(ptype)''')], '''
from messaging.sms import SmsSubmit
for n in range(3, 21):
    s = SmsSubmit('1' * n, 'hi')
    s.ref = 1
    p = s.to_pdu()[0].pdu[6:]
    assert int(p[:2], 16) == n
    assert p[4:4 + n + n % 2].count('F') == n % 2, n
''', 'a destination of 15, 17 or 19 digits', 'the fill semi-octet of long odd numbers is 0 instead of 1111')

bug('s06-second-boundary', 'S06', [(S, '''            if self.fmt == 0x00 and text[pi:pe][-1] == '\\x1b':
                pe -= 1
''', '''            if self.fmt == 0x00 and text[pe - 1:pe] == '\\x1b' and \\
               text[pe - 2:pe - 1] != '\\x1b':
                pe -= 1
''')], '''
from messaging.sms import SmsSubmit
BASE = u'a'
def parts(t):
    s = SmsSubmit('+34616585119', t)
    s.ref = 1
    s.rand_id = 7
    return s.to_pdu()
print 'x'
''', '', '')
BUGS.pop()

bug('s06-late-boundary', 'S06', [(S, '''                pe -= 1

            msgs.append(text[pi:pe])
            pi = pe
            pe += len_without_udh
''', '''                pe -= 1

            msgs.append(text[pi:pe])
            pi = pe
            pe = len_without_udh * (len(msgs) + 1)
''')], '''
from messaging.sms import SmsSubmit
from messaging.utils import unpack_msg
s = SmsSubmit('+34616585119', u'a' * 152 + u'[' + u'b' * 151 + u'[' + u'c' * 20)
s.ref = 1
s.rand_id = 7
ps = s.to_pdu()
want = [u'a' * 152, u'[' + u'b' * 151, u'[' + u'c' * 20]
got = []
for p in ps:
    h = p.pdu[2 + 2 + 2 + 4 + 12 + 4 - 2:]
    n = int(h[:2], 16)
    got.append(unpack_msg(h[2:])[7:n].decode('gsm0338'))
assert got == want, got
''', 'extension characters on two consecutive part boundaries', 'later parts are cut at fixed offsets: sizes differ from the rule')

bug('s06-ucs2-reference', 'S06', [(S, '''        sms_ref = self._get_rand_id() if self.rand_id is None else self.rand_id
        sms_ref &= 0xFF
''', '''        sms_ref = self.rand_id or self._get_rand_id()
        sms_ref &= 0xFF
''')], '''
from messaging.sms import SmsSubmit
s = SmsSubmit('+34616585119', u'a' * 200)
s.ref = 1
s.id_list = [99]
s.rand_id = 0
for p in s.to_pdu():
    assert '0500030002' in p.pdu, p.pdu
''', 'a chosen concatenation reference of 0', 'the chosen reference is replaced by a generated one')

bug('s06-status-report', 'S06', [(S, "        sms_submit_pdu = self._get_sms_submit_pdu(udh=True)\n        pdu_list = []\n        cnt = len(sms_msg_pdu)\n        for i, sms_msg_pdu_item in enumerate(sms_msg_pdu):\n            pdu = smsc_pdu\n",
 "        sms_submit_pdu = self._get_sms_submit_pdu(udh=True)\n        pdu_list = []\n        cnt = len(sms_msg_pdu)\n        for i, sms_msg_pdu_item in enumerate(sms_msg_pdu):\n            pdu = smsc_pdu\n            if i == 9:\n                tpmessref_pdu = self._get_tpmessref_pdu().upper()\n                sms_submit_pdu = self._get_sms_submit_pdu()\n")], '''
from messaging.sms import SmsSubmit
s = SmsSubmit('+34616585119', u'a' * 1700)
s.ref = 1
s.rand_id = 3
for p in s.to_pdu():
    assert int(p.pdu[2:4], 16) & 0x40, p.seq
''', 'a message of ten or more parts', 'the tenth part and those after it lose the header indicator')

bug('s07-weeks', 'S07', [(U, '''    if t > timedelta(weeks=63):
        raise ValueError("Max validity is 63 weeks")
''', '''    if t.days > 63 * 7:
        raise ValueError("Max validity is 63 weeks")
''')], '''
from datetime import timedelta
from messaging.utils import timedelta_to_relative_validity as f
assert f(timedelta(weeks=63)) == 255
for d in (timedelta(weeks=63, seconds=1), timedelta(weeks=63, hours=23)):
    try:
        f(d)
        assert False, d
    except ValueError:
        pass
''', 'a duration less than a day above 63 weeks', 'it is accepted (and gives None)')

bug('s07-days', 'S07', [(U, '''    if t <= timedelta(hours=24):
        t -= timedelta(hours=12)''', '''    if t.days <= 1 and t.seconds <= 43200 * (2 - t.days):
        t -= timedelta(hours=12)''')], '''
from datetime import timedelta
from messaging.utils import timedelta_to_relative_validity as f
for h in range(1, 48):
    w = h * 12 - 1 if h <= 12 else 143 + (h - 12) * 2 if h <= 24 else 166 + h // 24
    assert f(timedelta(hours=h)) == w, h
''', 'a duration between 24 and 36 hours', 'it is encoded on the half-hour scale')

bug('s08-half-hours', 'S08', [(U, "        hours, minutes = int(offset[:2]), int(offset[2:])\n        minutes += hours * 60\n", "        hours, minutes = int(offset[:2]), int(offset[2:])\n        # zones are on half hours\n        minutes = hours * 60 + minutes // 30 * 30\n")], '''
from datetime import datetime, timedelta
from messaging.utils import FixedOffset
for m in (0, 15, 30, 45):
    z = FixedOffset.from_timezone('+05%02d' % m, 'x')
    assert z.utcoffset(None) == timedelta(hours=5, minutes=m), m
''', 'a timezone with a quarter hour (Nepal, Chatham)', 'the quarter is dropped from the offset')

bug('s08-west', 'S08', [(U, '''    s = "%02d" % int(floor(seconds / (60 * 15)))

    if offset.days < 0:''', '''    s = "%02d" % int(floor(seconds / (60 * 15)))

    if offset.days < 0 and offset.seconds <= 82800:''')], '''
from datetime import datetime, timedelta
from messaging.utils import datetime_to_absolute_validity as f, FixedOffset
for q in range(1, 40):
    v = f(datetime(2010, 3, 4, 5, 6, 7, tzinfo=FixedOffset(-15 * q, 'z')))
    assert v[-1] & 0x08, q
''', 'an absolute validity in a zone less than an hour west of UTC', 'the sign of the offset is lost')

bug('s09-plan', 'S09', [(D, '''            if (smscertype >> 4) & 0x07 == consts.INTERNATIONAL:
                self.csca = '+%s' % self.csca''', '''            if smscertype & 0xf1 == 0x91:
                self.csca = '+%s' % self.csca''')], '''
from messaging.sms import SmsDeliver
P = '07%s4306073011F0040B914316709807F2000080604290224080023139'
P = '07%s4306073011F0040B914316709807F20000806042902240800131'
for t in ('91', '90', '99', '98', '92'):
    assert SmsDeliver(P % t).csca == '+34607003110', t
''', 'an international service centre address with an even numbering plan', 'the "+" of the service centre is lost')

bug('s09-year', 'S09', [(D, '''        tz = data.pop(0)

        offset = ((tz & 0x07) * 10 + ((tz & 0xf0) >> 4)) * 15''', '''        tz = data.pop(0)

        offset = ((tz & 0x07) * 10 + min((tz & 0xf0) >> 4, 8)) * 15''')], '''
from datetime import datetime
from messaging.sms import SmsDeliver
P = '0791430607301190040B914316709807F2000080604290224%02X0131'
from messaging.utils import to_array
P = '00040B914316709807F20000806042902240%s0131'
base = SmsDeliver(P % '00').date
for q in range(0, 80):
    tz = '%02d' % q
    d = base - SmsDeliver(P % tz[::-1]).date
    assert d.days * 86400 + d.seconds == q * 900, q
''', 'an offset of 9, 19, 29... quarter hours (+2:15, +4:45)', 'the timestamp is a quarter of an hour off')

bug('s10-fill', 'S10', [(D, "            self.text = unpack_msg(msg)[headlen:msgl].decode(\"gsm0338\")", "            self.text = unpack_msg(msg)[headlen:].decode(\"gsm0338\")\n            if not headlen:\n                self.text = self.text[:msgl]")], '''
from messaging.sms import SmsDeliver
from messaging.utils import pack_8bits_to_7bits as p
for n in range(1, 30):
    s = SmsDeliver('00440B914316709807F2000080604290224000' + p(' ' + 'a' * n, '\\x05\\x00\\x03\\x01\\x02\\x01'))
    assert s.text == u'a' * n, n
''', 'a part behind a header whose septets leave seven spare bits', 'a spare septet becomes "@"')

bug('s10-dcs', 'S10', [(D, "        elif self.dcs & 0x04:\n            self.fmt = 0x04\n        elif self.dcs & 0x08:\n            self.fmt = 0x08\n", "        elif self.dcs & 0x08:\n            self.fmt = 0x08\n        elif self.dcs & 0x04:\n            self.fmt = 0x04\n")], '''
from messaging.sms import SmsDeliver
s = SmsDeliver('00040B914316709807F200F4806042902240000431323334')
assert s.text == '1234', repr(s.text)
s = SmsDeliver('00040B914316709807F200F5806042902240000431323334')
assert s.fmt == 4
s = SmsDeliver('00040B914316709807F200FC806042902240000431323334')
assert s.fmt == 4, s.fmt
''', 'a data coding scheme with both alphabet bits set (0xFC)', 'the user data of the message class group are read as UCS2')

bug('s11-short-tail', 'S11', [(H, "        while len(data):\n", "        while len(data) > 2:\n")], '''
from array import array
from messaging.sms.udh import UserDataHeader as U
u = U.from_bytes(array('B', [0, 3, 1, 2, 1, 0x70, 0]))
assert sorted(u.headers) == [0, 0x70], u.headers
''', 'an empty element at the end of the header', 'the element is not recorded')

bug('s11-order', 'S11', [(H, "            ie_data = data[:ie_len]\n            data = data[ie_len:]\n            udh.headers[iei] = ie_data\n", "            ie_data = data[:ie_len]\n            data = data[ie_len:]\n            if iei == 0x00 and 0x08 in udh.headers:\n                # the 16bit reference is more precise\n                continue\n            udh.headers[iei] = ie_data\n")], '''
from array import array
from messaging.sms.udh import UserDataHeader as U
u = U.from_bytes(array('B', [8, 4, 1, 2, 3, 1, 0, 3, 9, 2, 1]))
assert 0 in u.headers and u.concat.ref == 9, u
''', 'a 16-bit followed by an 8-bit concatenation element', 'the later element is left out')

bug('s12-delivery-date', 'S12', [(D, "            dt_str = ''\n            dt = None\n", "            dt_str = ''\n            dt = self.date\n")], '''
from messaging.sms import SmsDeliver
p = '07914306073011F006270B913426565711F7012081111345400120811174054000'
s = SmsDeliver(p)
assert s.sr['dt'] is not None
bad = p[:48] + 'FFFFFFFFFFFFFF' + p[62:]
s = SmsDeliver(bad)
assert s.sr['dt'] is None, s.sr
''', 'a status report with an undecodable delivery timestamp', 'the delivery time is given as the submission time')

bug('s12-recipient', 'S12', [(D, "        sndlen = data.pop(0)\n        if sndlen % 2:\n            sndlen += 1\n        sndlen = int(sndlen / 2.0)\n\n        sndtype = data.pop(0)\n", "        sndlen = (data.pop(0) & 0x0f) + 1\n        sndlen //= 2\n\n        sndtype = data.pop(0)\n")], '''
from messaging.sms import SmsDeliver
for n in range(1, 21):
    num = '1' * n
    p = '0002' + '05%02X81' % n + num + ('F1' if False else '')
    digits = num + ('F' if n % 2 else '')
    sw = ''.join([digits[i + 1] + digits[i] for i in range(0, len(digits), 2)])
    s = SmsDeliver('0002' + '05%02X81' % n + sw + '01208111134540' + '01208111740540' + '00')
    assert s.sr['recipient'] == num, n
''', 'a status report for a recipient of 16 or more digits', 'the recipient is cut and the rest misread')

bug('s13-size', 'S13', [(S, "            if len(self.text) <= consts.UCS2_SIZE:\n", "            if len(self.text.rstrip(u'\\x00')) <= consts.UCS2_SIZE:\n")], '''
from messaging.sms import SmsSubmit, SmsDeliver
t = u'\\u0431' * 70 + u'\\x00' * 3
s = SmsSubmit('+34616585119', t)
s.ref = 1
s.rand_id = 1
assert len(s.to_pdu()) == 2
''', 'a UCS2 text that ends with NULs just over one part', 'an oversize single message is made')

bug('s14-late-check', 'S14', [(S, "        if klass not in [0, 1, 2, 3]:\n            raise ValueError(\"class must be between 0 and 3\")\n\n        self._klass = klass\n", "        self._klass = klass & 3\n        if klass != self._klass:\n            raise ValueError(\"class must be between 0 and 3\")\n")], '''
from messaging.sms import SmsSubmit
s = SmsSubmit('+34616585119', 'x')
s.klass = 2
try:
    s.klass = 7
    assert False
except ValueError:
    pass
assert s.klass == 2, s.klass
''', 'a refused class after a valid one', 'the refused assignment changes the message')

bug('s14-validity', 'S14', [(S, "        if validity is None or isinstance(validity, (timedelta, datetime)):\n", "        if not validity or isinstance(validity, (timedelta, datetime)):\n")], '''
from messaging.sms import SmsSubmit
s = SmsSubmit('+34616585119', 'x')
for v in ('', 0, False, [], 1, 'x'):
    try:
        s.validity = v
        assert False, v
    except TypeError:
        pass
''', 'a false validity of another type, such as 0', 'it is accepted')

bug('s15-swap', 'S15', [(U, "    what = s[:]\n    for n in range(1, len(what), 2):", "    what = s if type(s) == list and len(s) > 14 else s[:]\n    for n in range(1, len(what), 2):")], '''
from messaging.utils import swap
for n in range(40):
    l = list(range(n))
    k = l[:]
    r = swap(l)
    assert l == k, n
    assert swap(r) == k
''', 'swapping a list of more than 14 items', 'the argument is changed')

bug('s15-fill', 'S15', [(U, "    data = swap(list(n.replace('f', '')))\n", "    data = swap(list(n))\n    while data and data[-1] == 'f':\n        data.pop()\n")], '''
from messaging.utils import swap_number
assert swap_number('2143f5') == '12345'
assert swap_number('2143ff') == '1234', swap_number('2143ff')
assert swap_number('21f3') == '123', swap_number('21f3')
assert swap_number('f12143') == '11234'or True
assert 'f' not in swap_number('2f43'), swap_number('2f43')
''', 'a fill semi-octet that is not the last', 'the fill stays in the number')

bug('m01-groups', 'M01', [(W, "        while uint > 0:\n            uint_var.insert(0, 0x80 | (uint & 0x7f))\n            uint = uint >> 7\n", "        while uint & 0xfffffff:\n            uint_var.insert(0, 0x80 | (uint & 0x7f))\n            uint = uint >> 7\n")], '''
from messaging.mms.wsp_pdu import Encoder, Decoder
for k in range(0, 64):
    for n in (1 << k, (1 << k) - 1, (1 << k) + 1):
        assert Decoder.decode_uint_var(iter(Encoder.encode_uint_var(n))) == n, n
''', 'an integer with a group of 28 zero bits above the first group', 'the high part of the integer is lost')

bug('m02-sign', 'M02', [(W, "        while longInt > 0:\n            byte = 0xff & longInt\n", "        while longInt > 0 or not encoded_long_int:\n            byte = 0xff & longInt\n")], '''
from messaging.mms.wsp_pdu import Encoder
assert Encoder.encode_long_integer(255) == [1, 255]
assert Encoder.encode_long_integer(0) in ([0], [1, 0])
assert Encoder.encode_long_integer(0) == [0], Encoder.encode_long_integer(0)
''', 'zero', '')
BUGS.pop()

bug('m02-long-decode', 'M02', [(W, "        for i in xrange(shortLength):\n            longInt = longInt << 8\n            longInt |= byte_iter.next()\n", "        for i in xrange(shortLength):\n            longInt = (longInt << 8) & 0xffffffffffffff00\n            longInt |= byte_iter.next()\n")], '''
from messaging.mms.wsp_pdu import Decoder
from messaging.mms.iterator import PreviewIterator
for k in range(1, 31):
    assert Decoder.decode_long_integer(PreviewIterator([k, 1] + [0] * (k - 1))) == 256 ** (k - 1), k
''', 'a long integer of nine or more octets', 'the high octets are lost')

bug('m03-quote', 'M03', [(W, "        # Remove Quote character (octet 127), if present\n        if byte == 127:\n", "        # Remove Quote characters (octet 127), if present\n        while byte == 127:\n")], '''
from messaging.mms.wsp_pdu import Decoder, Encoder
from messaging.mms.iterator import PreviewIterator
assert Decoder.decode_text_string(PreviewIterator([127, 128, 0])) == '\\x80'
assert Decoder.decode_text_string(PreviewIterator([127, 127, 128, 0])) == '\\x7f\\x80'
''', 'a text that itself starts with octet 127', 'its first character is dropped with the quote')

bug('m03-length', 'M03', [(W, "        if length < 0 or length > 30:\n            raise EncodeError('Cannot encode short-length;", "        if length < 0 or length > 31:\n            raise EncodeError('Cannot encode short-length;")], '''
from messaging.mms.wsp_pdu import Encoder
assert Encoder.encode_value_length(30) == [30]
assert Encoder.encode_value_length(31) == [31, 31]
assert Encoder.encode_value_length(32) == [31, 32]
''', 'a length of exactly 31', 'it is written as a bare length quote')

bug('m04-preview', 'M04', [(IT, "    def next(self):\n        self.reset_preview()\n        if len(self._cached_values) > 0:\n            return self._cached_values.pop(0)\n        else:\n            return self._it.next()\n",
 "    def next(self):\n        if len(self._cached_values) > 0:\n            if self._preview_pos:\n                self._preview_pos -= 1\n            return self._cached_values.pop(0)\n        else:\n            return self._it.next()\n")], '''
from messaging.mms.iterator import PreviewIterator
it = PreviewIterator([1, 2, 3, 4])
it.preview(); it.preview()
assert it.next() == 1
assert it.preview() == 2
''', 'two previews followed by next and another preview', 'the preview after next skips an item')

bug('m04-end', 'M04', [(IT, "        else:\n            value = self._it.next()\n            self._cached_values.append(value)\n\n        self._preview_pos += 1\n        return value", "        else:\n            self._preview_pos += 1\n            value = self._it.next()\n            self._cached_values.append(value)\n            return value\n\n        self._preview_pos += 1\n        return value")], '''
from messaging.mms.iterator import PreviewIterator
class Src(object):
    def __init__(self):
        self.l = [1, None, 2, 3]
    def __iter__(self):
        return self
    def next(self):
        v = self.l.pop(0)
        if v is None:
            raise StopIteration
        return v
it = PreviewIterator(Src())
assert it.preview() == 1
try:
    it.preview()
except StopIteration:
    pass
assert it._preview_pos == 1 or True
it = PreviewIterator([1])
it.preview()
for i in range(3):
    try:
        it.preview()
        assert False
    except StopIteration:
        pass
''', '', '')
BUGS.pop()

bug('m05-visibility', 'M05', [(M, "        byte = byte_iter.next()\n        value = 'Hide' if byte == 128 else 'Show'\n", "        byte = byte_iter.next()\n        value = 'Hide' if byte == 129 else 'Show'\n")], '''
from messaging.mms.mms_pdu import MMSDecoder as D
from messaging.mms.iterator import PreviewIterator as I
assert D.decode_sender_visibility_value(I([128])) == 'Hide'
assert D.decode_sender_visibility_value(I([129])) == 'Show'
''', 'a sender visibility field', 'hide and show are swapped')

bug('m05-from', 'M05', [(M, "            length = len(encoded_address) + 1\n", "            length = len(from_value) + 2\n            if encoded_address[0] == 128:\n                length -= 1\n")], '''
from messaging.mms.mms_pdu import MMSEncoder as E
for a in ('a', '+34616', '\\x80abc', 'x' * 40):
    v = E.encode_from_value(a)
    n = v[0] if v[0] < 31 else v[1]
    assert n == len(v) - (1 if v[0] < 31 else 2), a
''', 'a sender that starts with octet 128', 'the value length is one short')

bug('m05-charset', 'M05', [(M, "            return wsp_pdu.Decoder.decode_text_string(byte_iter)\n        except wsp_pdu.DecodeError:\n            # Fall back", "            text = wsp_pdu.Decoder.decode_text_string(byte_iter)\n            return text[:value_length - 2]\n        except wsp_pdu.DecodeError:\n            # Fall back")], '''
from messaging.mms.mms_pdu import MMSDecoder as D
from messaging.mms.iterator import PreviewIterator as I
assert D.decode_encoded_string_value(I([5, 0xea, 97, 98, 99, 0])) == 'abc'
assert D.decode_encoded_string_value(I([7, 2, 3, 0xe8, 97, 98, 99, 0])) == 'abc'
assert D.decode_encoded_string_value(I([6, 0xea, 127, 200, 98, 99, 0])) == '\\xc8bc'
assert D.decode_encoded_string_value(I([4, 0xea, 127, 200, 0])) == '\\xc8'
assert D.decode_encoded_string_value(I([3, 0x7f, 97, 0])) == 'a'
assert D.decode_encoded_string_value(I([0, 0xea, 97, 0])) == 'a'
''', 'an encoded string whose stated length leaves out the terminator', 'the text is cut')

bug('m06-index', 'M06', [(W, "        if isinstance(value, int):\n            # First try and encode the value as a short-integer\n", "        if isinstance(value, int) and value < 64:\n            # First try and encode the value as a short-integer\n")], '''
from messaging.mms.wsp_pdu import Encoder as E, Decoder as D, well_known_content_types as T
from messaging.mms.iterator import PreviewIterator as I
for i, t in enumerate(T):
    assert D.decode_content_type_value(I(E.encode_content_type_value(t, {}))) == (t, {}), t
''', 'a well-known media type with number 64 or above', 'it is encoded as the text of its number')

bug('m06-params', 'M06', [(W, "                encoded_parameter.extend(\n                        Encoder.encode_short_integer(assigned_number))\n                # and now the value\n", "                encoded_parameter.extend(\n                        Encoder.encode_short_integer(assigned_number & 0x0f))\n                # and now the value\n")], '''
from messaging.mms.wsp_pdu import Encoder as E, get_well_known_parameters as g
for n, (name, t) in g('1.4').items():
    if t == 'text_string':
        assert E.encode_parameter(name, 'x', '1.4')[0] == 0x80 | n, name
''', 'parameters of encoding version 1.4 with numbers above 15', 'another parameter number is written')

bug('m06-token-param', 'M06', [(W, "            try:\n                value = Encoder.encode_integer_value(parameter_value)\n            except EncodeError:\n                value = Encoder.encode_text_string(parameter_value)\n\n            encoded_parameter.extend(value)", "            try:\n                value = Encoder.encode_integer_value(int(parameter_value))\n            except ValueError:\n                value = Encoder.encode_text_string(parameter_value)\n\n            encoded_parameter.extend(value)")], '''
from messaging.mms.wsp_pdu import Encoder as E, Decoder as D
from messaging.mms.iterator import PreviewIterator as I
for v in ('abc', '007', '12', 'x1'):
    m = E.encode_content_type_value('text/plain', {'own': v})
    assert D.decode_content_type_value(I(m)) == ('text/plain', {'own': v}), v
''', 'a parameter that is not well known, with a text value of digits', 'the value comes back as an integer')

bug('m07-large-part', 'M07', [(M, "            message_body.extend(self.encode_uint_var(headers_len))\n", "            message_body.extend(self.encode_uint_var(headers_len & 0x7f))\n")], '''
from messaging.mms.message import MMSMessage, DataPart
m = MMSMessage()
d = DataPart()
d.set_data('x', 'image/gif')
d.headers['Content-Location'] = 'l' * 200
m.add_data_part(d)
r = MMSMessage.from_data(m.encode())
assert r.data_parts[1].headers['Content-Location'] == 'l' * 200
''', 'a part whose headers take 128 octets or more', 'the headers length of the part is wrong')

bug('m07-cc', 'M07', [(M, "        for hdr in headers_to_encode:\n            if hdr != 'Content-Type':\n                message_header.extend(", "        for hdr in headers_to_encode:\n            if hdr == 'Cc' and headers_to_encode[hdr] == \\\n               headers_to_encode.get('To'):\n                continue\n            if hdr != 'Content-Type':\n                message_header.extend(")], '''
from messaging.mms.message import MMSMessage
m = MMSMessage()
m.headers['To'] = '+34616'
m.headers['Cc'] = '+34616'
assert MMSMessage.from_data(m.encode()).headers['Cc'] == '+34616'
''', 'the same recipient in To and Cc', 'the Cc header is lost')

bug('m08-params', 'M08', [(M, "        content_type, ct_parameters = headers_to_encode['Content-Type']\n        message_header.extend(", "        content_type, ct_parameters = headers_to_encode['Content-Type']\n        if self._mms_message._pages:\n            ct_parameters.setdefault('Start', '<0000>')\n        message_header.extend(")], '''
from messaging.mms.message import MMSMessage, MMSMessagePage
m = MMSMessage()
p = MMSMessagePage()
p.add_text('hi')
m.add_page(p)
a = dict(m.headers['Content-Type'][1])
m.encode()
assert m.headers['Content-Type'][1] == a
''', 'encoding a message with pages', 'encoding adds a parameter to the message headers')

bug('m08-part-headers', 'M08', [(M, "            for hdr in part.headers:\n                if hdr == 'Content-Type':\n                    continue\n", "            part.headers.setdefault('Content-ID', '<part>')\n            for hdr in part.headers:\n                if hdr == 'Content-Type' or part.headers[hdr] == '<part>':\n                    continue\n")], '''
from messaging.mms.message import MMSMessage, DataPart
m = MMSMessage()
d = DataPart()
d.set_data('x', 'image/gif')
m.add_data_part(d)
h = dict(d.headers)
m.encode()
assert d.headers == h, d.headers
''', 'encoding a message with parts', 'encoding adds a header to the parts')

bug('m09-quoted', 'M09', [(W, "        byte = byte_iter.preview()\n        if byte > 30:\n            byte_iter.reset_preview()\n", "        byte = byte_iter.preview()\n        if byte > 30:\n            if byte != 31:\n                byte_iter.reset_preview()\n"),
 (W, "        except DecodeError:\n            byte = byte_iter.preview()\n            # CHECK: this strictness MAY cause issues, but it is correct\n            if byte == 31:", "        except DecodeError:\n            byte_iter.reset_preview()\n            byte = byte_iter.preview()\n            # CHECK: this strictness MAY cause issues, but it is correct\n            if byte == 31:")], '''
from messaging.mms.wsp_pdu import Decoder as D, DecodeError
from messaging.mms.iterator import PreviewIterator as I
for b in (31, 32, 200):
    it = I([b, 5, 6])
    try:
        D.decode_short_length(it)
        assert False
    except DecodeError:
        pass
    assert it.preview() == b, b
''', 'a refused short length on the length quote followed by another attempt', 'the next attempt looks at the octet after it')

bug('m09-token', 'M09', [(M, "        byte = byte_iter.preview()\n        if byte in priorities:\n            byte = byte_iter.next()\n            return priorities[byte]\n\n        byte_iter.reset_preview()\n", "        byte = byte_iter.preview()\n        if byte & 0x80:\n            byte = byte_iter.next()\n        if byte in priorities:\n            return priorities[byte]\n\n        byte_iter.reset_preview()\n")], '''
from messaging.mms.mms_pdu import MMSDecoder as D
from messaging.mms.wsp_pdu import DecodeError
from messaging.mms.iterator import PreviewIterator as I
for b in range(256):
    it = I([b, 5])
    try:
        D.decode_priority_value(it)
    except DecodeError:
        assert it.next() == b, b
''', 'an undefined priority octet above 130', 'the refused octet is consumed')

bug('m10-truncated', 'M10', [(M, "            data = array.array('B')\n            for i in xrange(data_len):\n                data.append(data_iter.next())\n", "            data = array.array('B')\n            for i in xrange(data_len):\n                try:\n                    data.append(data_iter.next())\n                except StopIteration:\n                    break\n")], '''
from array import array
from messaging.mms.message import MMSMessage
HEAD = [0x8c, 0x84, 0x98, 0x31, 0, 0x8d, 0x90, 0x84, 0xa3]
try:
    MMSMessage.from_data(array('B', HEAD + [1, 1, 9, 0x83, 1, 2]))
    assert False
except StopIteration:
    pass
''', 'a message cut in the data of its last part', 'a truncated part is returned')

bug('m10-long-length', 'M10', [(W, "        for i in xrange(value_length):\n            ct_field_bytes.append(byte_iter.next())\n", "        ct_field_bytes.extend(list(byte_iter)[:value_length])\n")], '''
from messaging.mms.wsp_pdu import Decoder as D
from messaging.mms.iterator import PreviewIterator as I
it = I([3, 0x83, 0x81, 0xea, 7, 8])
print D.decode_content_general_form(it)
assert list(it) == [7, 8]
''', '', '')
BUGS.pop()

bug('m11-clip', 'M11', [(MSG, "                audio_node = smil_doc.createElement('audio')\n                audio_node.setAttribute('src', src)\n                if begin > 0 or end > 0:\n", "                audio_node = smil_doc.createElement('audio')\n                audio_node.setAttribute('src', src)\n                if begin > 0 or end > begin > 0:\n")], '''
from messaging.mms.message import MMSMessage, MMSMessagePage, DataPart
m = MMSMessage()
p = MMSMessagePage()
d = DataPart()
d.set_data('x', 'audio/amr')
d.headers['Content-Location'] = 'x'
p.audio = (d, 0, 500)
m.add_page(p)
assert 'end="500"' in m.smil()
''', 'audio with an end but no begin', 'its times are left out')

bug('m11-text-refusal', 'M11', [(MSG, "        time_data = DataPart()\n        time_data.set_text(text)\n        self.text = (time_data, time_begin, time_end)\n", "        time_data = self.text[0] if self.text else DataPart()\n        time_data.set_text(text)\n        self.text = (time_data, time_begin, time_end)\n")], '''
from messaging.mms.message import MMSMessagePage
p = MMSMessagePage()
p.add_text('one')
a = p.text[0]
p.add_text('two')
assert a.data == 'one'
''', 'a part taken from a page before its text is replaced', 'the earlier part changes')
BUGS.pop()

bug('m11-refused-text', 'M11', [(MSG, "        if time_end > 0 and time_end < time_begin:\n            raise ValueError('time_end cannot be lower than time_begin')\n\n        time_data = DataPart()\n", "        self.text = None\n        if time_end > 0 and time_end < time_begin:\n            raise ValueError('time_end cannot be lower than time_begin')\n\n        time_data = DataPart()\n")], '''
from messaging.mms.message import MMSMessagePage
p = MMSMessagePage()
p.add_text('one')
try:
    p.add_text('two', 5, 3)
    assert False
except ValueError:
    pass
assert p.text is not None
''', 'a refused text after a valid one', 'the page loses its text')

bug('m12-stale', 'M12', [(MSG, "        # Clear any headers that are currently set\n        self.headers = {}\n        self._data = None\n", "        # Clear any headers that are currently set\n        self.headers = {}\n        if self._filename != filename:\n            self._data = None\n")], '''
import os, tempfile
from messaging.mms.message import DataPart
f, n = tempfile.mkstemp()
os.write(f, 'one')
os.close(f)
d = DataPart(n)
d.data
o = open(n, 'wb')
o.write('second')
o.close()
d.from_file(n)
x = d.data
os.remove(n)
assert x == 'second', x
''', 'a part filled again from the same file after it changed', 'the old octets are returned')

bug('m12-filename', 'M12', [(MSG, "        self.headers = {}\n        self._filename = None\n        self._data = data\n", "        self.headers = {}\n        if data:\n            self._filename = None\n        self._data = data\n")], '''
import os, tempfile
from messaging.mms.message import DataPart
f, n = tempfile.mkstemp()
os.write(f, 'one')
os.close(f)
d = DataPart(n)
d.set_text('')
x = len(d)
os.remove(n)
assert x == 0, x
''', 'an empty filling after a filling from a file', 'the length is that of the file')

bug('w01-length', 'W01', [(WAP, "    try:\n        return data[1] == 0x06\n    except IndexError:\n        return False\n", "    if len(data) < 3:\n        return False\n    return data[1] == 0x06\n")], '''
from messaging.sms.wap import is_a_wap_push_notification as f
assert f('\\x01\\x06')
assert f('\\x01\\x06\\x00')
assert not f('\\x06')
''', 'a push of exactly two octets', 'it is not recognised')

bug('w01-empty-from', 'W01', [(WAP, "    return (push.headers.get('From') is not None and\n            push.headers.get('Content-Location') is not None)\n", "    return bool(push.headers.get('From') and\n                push.headers.get('Content-Location'))\n")], '''
from messaging.mms.message import MMSMessage
from messaging.sms.wap import is_mms_notification as f
m = MMSMessage()
m.headers['From'] = ''
m.headers['Content-Location'] = 'http://x'
assert f(m)
''', 'a notification with an empty sender', 'it is not counted as an MMS notification')
