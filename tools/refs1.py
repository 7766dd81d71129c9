REFS = []
S, D, H, G, W, Pd = ['messaging/sms/%s.py' % x for x in ('submit', 'deliver', 'udh', 'gsm0338', 'wap', 'pdu')]
U = 'messaging/utils.py'
P, X, M, I = ['messaging/mms/%s.py' % x for x in ('wsp_pdu', 'mms_pdu', 'message', 'iterator')]


def ref(i, checks, funcs, edits=()):
    REFS.append(dict(id=i, checks=checks, funcs=funcs, edits=list(edits)))


ref('gsm-encode-get', 'S01 S02 S04 S05', {(G, 'encode'): '''
def _septets(c, errors):
    plain = def_regular_encode_dict.get(c)
    if plain is not None:
        return plain
    ext = def_escape_encode_dict.get(c)
    if ext is not None:
        return '\\x1b' + ext
    if errors == 'strict':
        raise UnicodeError("Invalid GSM character")
    if errors == 'replace':
        return def_replace_encode_dict.get(c, QUESTION_MARK)
    if errors == 'ignore':
        return ''
    raise UnicodeError("Unknown error handling")


def encode(input_, errors='strict'):
    ret = ''.join([_septets(c, errors) for c in input_])
    return ret, len(ret)
'''})
ref('gsm-decode-flag', 'S01 S02 S04 S08 S10', {(G, 'decode'): '''
def decode(input_, errors='strict'):
    out = u''
    escaped = False
    for c in input_:
        if escaped:
            out += def_escape_decode_dict.get(c, u'\\xa0')
            escaped = False
        elif c == '\\x1b':
            escaped = True
        elif c in def_regular_decode_dict:
            out += def_regular_decode_dict[c]
        elif errors == 'replace':
            out += u'?'
        elif errors == 'strict':
            raise UnicodeError("Unrecognized GSM character")
        elif errors != 'ignore':
            raise UnicodeError("Unknown error handling")
    if escaped:
        out += u'\\xa0'
    return out, len(out)
'''})
ref('gsm-istext', 'S01 S05 S06', {(G, 'is_gsm_text'): '''
def is_gsm_text(text):
    try:
        encoded = text.encode("gsm0338")
    except UnicodeError:
        encoded = None
    except:
        traceback.print_exc(file=sys.stdout)
        encoded = None
    return encoded is not None
'''})
ref('pack7-acc', 'S03 S05 S06 S02', {(U, 'pack_8bits_to_7bits'): '''
def pack_8bits_to_7bits(message, udh=None):
    txt = bytes_to_str(message)
    if udh is not None:
        txt = "\\x00" * 6 + txt
    octets = []
    acc = bits = 0
    for ch in txt:
        acc |= ord(ch) << bits
        bits += 7
        while bits >= 8:
            octets.append(acc & 0xff)
            acc >>= 8
            bits -= 8
    if bits:
        octets.append(acc & 0xff)
    if udh is not None:
        octets[:len(udh)] = [ord(c) for c in udh]
    return encode_str(chr(len(txt)) + ''.join([chr(o) for o in octets]))
'''})
ref('pack7-helper', 'S03 S05 S06', {(U, 'pack_8bits_to_7bits'): '''
def _septets_to_octets(txt):
    txt = txt + '\\x00'
    count = len(txt) * 7 // 8
    out = []
    pos = shift = 0
    for n in range(count):
        if shift == 6:
            pos += 1
        shift = n % 7
        low = ord(txt[pos]) >> shift
        high = (ord(txt[pos + 1]) << (7 - shift)) & 0xff
        out.append(low | high)
        pos += 1
    return out


def pack_8bits_to_7bits(message, udh=None):
    txt = bytes_to_str(message)
    if udh is not None:
        txt = "\\x00\\x00\\x00\\x00\\x00\\x00" + txt
    op = _septets_to_octets(txt)
    if udh is not None:
        for i, char in enumerate(udh):
            op[i] = ord(char)
    return encode_str(''.join([chr(len(txt))] + [chr(o) for o in op]))
'''})
ref('unpack-acc', 'S03 S08 S10 S06', {(U, 'unpack_msg'): '''
def unpack_msg(pdu):
    return unpack_msg2([int(pdu[i:i + 2], 16) for i in range(0, len(pdu), 2)])
''', (U, 'unpack_msg2'): '''
def unpack_msg2(pdu):
    acc = bits = 0
    result = []
    for byte in pdu:
        acc |= byte << bits
        bits += 8
        result.append(acc & 0x7f)
        acc >>= 7
        bits -= 7
        if bits == 7:
            result.append(acc & 0x7f)
            acc >>= 7
            bits = 0
        if len(result) >= 160:
            break
    return to_bytes(result)
'''})
ref('swap-join', 'S07 S09 S10 S11 S15', {(U, 'swap'): '''
def swap(s):
    what = list(s)
    out = []
    i = 0
    while i + 1 < len(what):
        out += [what[i + 1], what[i]]
        i += 2
    out += what[i:]
    return out
''', (U, 'encode_bytes'): '''
def encode_bytes(b):
    digits = '0123456789abcdef'
    out = ''
    for n in b:
        out += digits[n >> 4] + digits[n & 0xf]
    return out
''', (U, 'swap_number'): '''
def swap_number(n):
    return ''.join(swap([c for c in n if c != 'f']))
'''})
ref('ucs2-pack', 'S05 S06', {(U, 'pack_8bits_to_ucs2'): '''
def pack_8bits_to_ucs2(message, udh=None):
    body = udh if udh is not None else ''
    for n in message:
        code = ord(n)
        body = body + chr(code // 256) + chr(code % 256)
    return encode_str(chr(len(body)) + body)
''', (U, 'pack_8bits_to_8bit'): '''
def pack_8bits_to_8bit(message, udh=None):
    text = (udh or '') + message
    return encode_str(''.join((chr(len(text)), text)))
'''})
ref('validity', 'S07 S12 S13', {(U, 'timedelta_to_relative_validity'): '''
def timedelta_to_relative_validity(t):
    total = t.days * 86400 + t.seconds
    if t < timedelta(minutes=5):
        raise ValueError("Min resolution is five minutes")
    if t > timedelta(weeks=63):
        raise ValueError("Max validity is 63 weeks")
    if t <= timedelta(hours=12):
        return total // 300 - 1
    if t <= timedelta(hours=24):
        return (total - 43200) // 1800 + 143
    if t <= timedelta(days=30):
        return total // 86400 + 166
    return total // (7 * 86400) + 192
''', (U, 'datetime_to_absolute_validity'): '''
def _bcd(n):
    """swapped semi-octets of a two digit number"""
    return ((n % 10) << 4) | (n // 10)


def datetime_to_absolute_validity(d, tzname='Unknown'):
    offset = d.utcoffset()
    if offset is None:
        offset = timedelta(0)
    minutes = (offset.days * 86400 + offset.seconds) // 60
    sign = 0
    if minutes < 0:
        minutes = -minutes
        sign = 0x08
    fields = [d.year % 100, d.month, d.day, d.hour, d.minute, d.second]
    return [_bcd(f) for f in fields] + [_bcd(minutes // 15) | sign]
'''})
ref('submit-pdu', 'S03 S05 S06 S07 S12 S14', {(S, 'SmsSubmit.to_pdu'): '''
def to_pdu(self):
    head = self._get_smsc_pdu()
    smsc_len = len(head) / 2
    first = self._get_sms_submit_pdu()
    tail = self._get_tpmessref_pdu()
    tail += self._get_phone_pdu()
    tail += self._get_tppid_pdu()
    bodies = self._get_msg_pdu()
    total = len(bodies)
    if total == 1:
        return [Pdu(head + first + tail + bodies[0], smsc_len)]
    first = self._get_sms_submit_pdu(udh=True)
    return [Pdu(head + first + tail + body, smsc_len, cnt=total, seq=n)
            for n, body in enumerate(bodies, 1)]
''', (S, 'SmsSubmit._get_smsc_pdu'): '''
def _address(self, number, digits):
    """type of address and swapped digits of ``number``"""
    international = number.startswith('+')
    if international:
        number = number[1:]
    count = len(number)
    if count % 2:
        number = number + 'F'
    octets = [0x91 if international else 0x81]
    i = 0
    while i < len(number):
        octets.append(int(number[i + 1] + number[i], 16))
        i += 2
    octets.insert(0, count if digits else len(octets))
    return ''.join(["%02x" % o for o in octets])

def _get_smsc_pdu(self):
    if not self.csca or not self.csca.strip():
        return "00"
    return self._address(clean_number(self.csca), False)
''', (S, 'SmsSubmit._get_phone_pdu'): '''
def _get_phone_pdu(self):
    return self._address(clean_number(self.number), True)
''', (S, 'SmsSubmit._get_sms_submit_pdu'): '''
def _get_sms_submit_pdu(self, udh=False):
    bits = 1
    if udh:
        bits += 0x40
    if self.request_status:
        bits += 0x20
    if isinstance(self.validity, timedelta):
        bits += 0x10
    elif isinstance(self.validity, datetime):
        bits += 0x18
    return "%02x" % bits
'''})
ref('submit-split', 'S03 S05 S06 S14', {(S, 'SmsSubmit._split_sms_message'): '''
def _split_sms_message(self, text):
    sizes = {0x00: (consts.SEVENBIT_MP_SIZE, pack_8bits_to_7bits),
             0x04: (consts.EIGHTBIT_MP_SIZE, pack_8bits_to_8bit),
             0x08: (consts.UCS2_MP_SIZE, pack_8bits_to_ucs2)}
    size, pack = sizes[self.fmt]
    chunks = []
    rest = text
    while rest:
        chunk = rest[:size]
        if self.fmt == 0x00 and chunk.endswith('\\x1b'):
            chunk = chunk[:-1]
        chunks.append(chunk)
        rest = rest[len(chunk):]
    ref = self.rand_id
    if ref is None:
        ref = self._get_rand_id()
    prefix = '\\x05\\x00\\x03' + chr(ref & 0xFF) + chr(len(chunks))
    fill = " " if self.fmt == 0x00 else ""
    out = []
    for n in xrange(len(chunks)):
        out.append(pack(fill + chunks[n], prefix + chr(n + 1)))
    return out
''', (S, 'SmsSubmit._get_msg_pdu'): '''
def _get_msg_pdu(self):
    if self.fmt is None:
        self.fmt = 0x00 if is_gsm_text(self.text) else 0x08
    self.dcs = self.fmt
    if self.klass is not None:
        self.dcs |= 0x10 | self.klass

    header = encode_str(chr(self.dcs))
    validity = self.validity
    if isinstance(validity, timedelta):
        header += encode_str(chr(timedelta_to_relative_validity(validity)))
    elif isinstance(validity, datetime):
        for octet in datetime_to_absolute_validity(validity):
            header += encode_str(chr(octet))

    if self.fmt == 0x00:
        text = self.text_gsm = self.text.encode("gsm0338")
        limit, pack = consts.SEVENBIT_SIZE, pack_8bits_to_7bits
    elif self.fmt == 0x04:
        text = self.text
        limit, pack = consts.EIGHTBIT_SIZE, pack_8bits_to_8bit
    elif self.fmt == 0x08:
        text = self.text
        limit, pack = consts.UCS2_SIZE, pack_8bits_to_ucs2
    else:
        raise ValueError("Unknown data coding scheme: %d" % self.fmt)

    if len(text) > limit:
        packed = self._split_sms_message(text)
    else:
        packed = [pack(text)]
    return [header + p for p in packed]
'''})
ref('deliver-helpers', 'S08 S09 S10 S11 S15 S06 S07', {(D, 'SmsDeliver._set_pdu'): '''
def _address(self, data, length, kind):
    number = swap_number(encode_bytes(data[:length]))
    if (kind >> 4) & 0x07 == consts.INTERNATIONAL:
        number = '+' + number
    return number

def _timestamp(self, octets):
    digits = swap(list(encode_bytes(octets)))
    fields = tuple(digits[:12])
    when = datetime.strptime("%s%s/%s%s/%s%s %s%s:%s%s:%s%s" % fields,
                             '%y/%m/%d %H:%M:%S')
    return when

def _set_pdu(self, pdu):
    odd = len(pdu) % 2
    if odd and not self._strict:
        pdu = pdu[:-1]
        odd = 0
    if odd:
        raise ValueError("Can not decode an odd-length pdu")
    self._pdu = pdu
    data = to_array(pdu)

    smsc_len = data.pop(0)
    self.csca = None
    if smsc_len:
        kind = data.pop(0)
        self.csca = self._address(data, smsc_len - 1, kind)
        data = data[smsc_len - 1:]

    self.mtype = data.pop(0)
    kind = self.mtype & 0x03
    if kind == 0x02:
        return self._decode_status_report_pdu(data)
    if kind == 0x01:
        raise ValueError("Cannot decode a SmsSubmitReport message yet")

    digits = data.pop(0)
    octets = (digits + 1) // 2
    toa = data.pop(0)
    if (toa >> 4) & 0x07 == consts.ALPHANUMERIC:
        text = unpack_msg2(data[:octets])
        self.number = text[:digits * 4 // 7].decode("gsm0338")
    else:
        self.number = self._address(data, octets, toa)
    data = data[octets:]

    self.pid = data.pop(0)
    self.dcs = data.pop(0)
    if self.dcs & 0x04:
        self.fmt = 0x04
    elif self.dcs & 0x08:
        self.fmt = 0x08
    else:
        self.fmt = 0x00

    stamp, data = data[:6], data[6:]
    tz = data.pop(0)
    quarters = (tz & 0x07) * 10 + (tz >> 4)
    if tz & 0x08:
        quarters = -quarters
    self.date = self._timestamp(stamp) - timedelta(minutes=15 * quarters)

    self._process_message(data)
''', (D, 'SmsDeliver._process_message'): '''
def _process_message(self, data):
    udl = data.pop(0)
    body = data[:udl]
    header = 0
    if self.mtype & 0x40:
        header = body[0] + 1
        self.udh = UserDataHeader.from_bytes(body[1:header])
    if self.fmt == 0x00:
        skip = (header * 8 + 6) // 7
        septets = unpack_msg(encode_bytes(body))
        self.text = septets[skip:udl].decode("gsm0338")
        return
    payload = body[header:]
    if self.fmt == 0x04:
        self.text = payload.tostring()
    else:
        chars = []
        for i in range(0, len(payload), 2):
            chars.append(unichr(payload[i] * 256 + payload[i + 1]))
        self.text = u''.join(chars)
'''})
ref('udh-rewrite', 'S10 S11 S06', {(H, 'UserDataHeader.from_bytes'): '''
def from_bytes(cls, data):
    udh = cls()
    pos = 0
    while pos < len(data):
        iei = data[pos]
        ie_len = data[pos + 1]
        ie_data = data[pos + 2:pos + 2 + ie_len]
        pos += 2 + ie_len
        udh.headers[iei] = ie_data
        if iei == 0x00:
            udh.concat = cls._concat8(ie_data)
        elif iei == 0x08:
            udh.concat = ConcatReference(256 * ie_data[0] + ie_data[1],
                                         ie_data[2], ie_data[3], False)
        elif iei == 0x04:
            dest, orig = ie_data
            udh.ports = PortAddress(dest, orig, True)
        elif iei == 0x05:
            dest = 256 * ie_data[0] + ie_data[1]
            orig = 256 * ie_data[2] + ie_data[3]
            udh.ports = PortAddress(dest, orig, False)
    return udh

@staticmethod
def _concat8(ie_data):
    ref, cnt, seq = ie_data
    return ConcatReference(ref, cnt, seq, True)
'''})
ref('status-table', 'S11 S09 S15', {}, [(D, """            if status == 0x00:
                msg_l.append(dt_str)
            else:
                msg_l.append('')
            if status == 0x00:
                sender = "SR-OK"
            elif status == 0x1:
                sender = "SR-UNKNOWN"
            elif status == 0x30:
                sender = "SR-STORED"
            else:
                sender = "SR-UNKNOWN"
""", """            msg_l.append(dt_str if status == 0x00 else '')
            sender = {0x00: "SR-OK", 0x30: "SR-STORED"}.get(status, "SR-UNKNOWN")
""")])
ref('data-dict', 'S08 S09 S10 S15', {(D, 'SmsDeliver.data'): '''
def data(self):
    names = ('text', 'pid', 'dcs', 'csca', 'number', 'type', 'date', 'fmt', 'sr')
    ret = dict((n, getattr(self, n)) for n in names)
    concat = self.udh.concat if self.udh is not None else None
    if concat is not None:
        for n in ('ref', 'cnt', 'seq'):
            ret[n] = getattr(concat, n)
    return ret
'''})
ref('setters', 'S13 S14 S07', {(S, 'SmsSubmit._set_klass'): '''
def _set_klass(self, klass):
    if not isinstance(klass, int):
        raise TypeError("_set_klass only accepts int objects")
    if not 0 <= klass <= 3:
        raise ValueError("class must be between 0 and 3")
    self._klass = klass
''', (S, 'SmsSubmit._set_validity'): '''
def _set_validity(self, validity):
    ok = validity is None
    for kind in (timedelta, datetime):
        ok = ok or isinstance(validity, kind)
    if not ok:
        raise TypeError("Don't know what to do with %s" % validity)
    self._validity = validity
''', (S, 'SmsSubmit._get_rand_id'): '''
def _get_rand_id(self):
    if len(self.id_list) == 0:
        self.id_list = list(range(255))
    first = self.id_list[0]
    self.id_list = self.id_list[1:]
    return first
''', (S, 'SmsSubmit._set_number'): '''
def _set_number(self, number):
    self._check(number, "Invalid number format: %s")
    self._number = number

def _check(self, number, message):
    if not number:
        return
    if VALID_NUMBER.match(number) is None:
        raise ValueError(message % number)
''', (S, 'SmsSubmit._set_csca'): '''
def _set_csca(self, csca):
    self._check(csca, "Invalid csca format: %s")
    self._csca = csca
'''})
ref('iter-list', 'M04 M02 M03 M05 M06 M09 M10 W01', {(I, 'PreviewIterator.__init__'): '''
def __init__(self, data):
    self._source = iter(data)
    self._seen = []
    self._pos = 0
    self._ahead = 0
''', (I, 'PreviewIterator.next'): '''
def next(self):
    self._ahead = 0
    if self._seen:
        value = self._seen[0]
        del self._seen[0]
        return value
    return self._source.next()
''', (I, 'PreviewIterator.preview'): '''
def preview(self):
    if self._ahead == len(self._seen):
        self._seen.append(self._source.next())
    self._ahead += 1
    return self._seen[self._ahead - 1]
''', (I, 'PreviewIterator.reset_preview'): '''
def reset_preview(self):
    self._ahead = 0
'''})
ref('wsp-ints', 'M01 M02 M05 M06 M07 W01', {(P, 'Encoder.encode_uint_var'): '''
def encode_uint_var(uint):
    if uint < 0:
        raise EncodeError('Cannot encode a negative integer: %d' % uint)
    groups = []
    while True:
        groups.append(uint & 0x7f)
        uint >>= 7
        if not uint:
            break
    groups.reverse()
    return [g | 0x80 for g in groups[:-1]] + [groups[-1]]
''', (P, 'Decoder.decode_uint_var'): '''
def decode_uint_var(byte_iter):
    result = 0
    while True:
        byte = byte_iter.next()
        result = result * 128 + (byte & 0x7f)
        if not byte & 0x80:
            return result
''', (P, 'Encoder.encode_long_integer'): '''
def encode_long_integer(integer):
    if not isinstance(integer, int):
        raise EncodeError('<integer> must be of type "int"')
    if integer < 0:
        raise EncodeError('Cannot encode a negative integer: %d' % integer)
    octets = []
    while integer:
        octets = [integer % 256] + octets
        integer //= 256
    if len(octets) > 30:
        raise EncodeError('Cannot encode Long-integer value: Short-length '
                          'is too long; should be in octet range 0-30')
    return [len(octets)] + octets
''', (P, 'Decoder.decode_long_integer'): '''
def decode_long_integer(byte_iter):
    try:
        remaining = Decoder.decode_short_length(byte_iter)
    except DecodeError:
        raise DecodeError('short-length byte is invalid')
    value = 0
    while remaining > 0:
        value = value * 256 + byte_iter.next()
        remaining -= 1
    return value
'''})
ref('wsp-text', 'M03 M05 M06 M09 M10 W01 M12', {(P, 'Decoder.decode_text_string'): '''
def decode_text_string(byte_iter):
    chars = []
    first = True
    while True:
        byte = byte_iter.next()
        if first and byte == 127:
            first = False
            continue
        first = False
        if byte == 0:
            break
        chars.append(chr(byte))
    return ''.join(chars)
''', (P, 'Decoder.decode_token_text'): '''
def decode_token_text(byte_iter):
    def ends(byte):
        return byte <= 31 or byte in (11, 32, 40, 41, 44, 47, 58, 59, 60, 61, 62,
                                      63, 64, 91, 92, 93, 123, 125)
    if ends(byte_iter.preview()):
        byte_iter.reset_preview()
        raise DecodeError('Invalid token')
    chars = []
    byte = byte_iter.next()
    while not ends(byte):
        chars.append(byte)
        byte = byte_iter.next()
    return ''.join(map(chr, chars))
''', (P, 'Decoder.decode_extension_media'): '''
def decode_extension_media(byte_iter):
    byte = byte_iter.preview()
    if byte < 32 or byte == 127:
        byte_iter.reset_preview()
        raise DecodeError('Invalid Extension-media: TEXT '
                          'starts with invalid character: %d' % byte)
    return Decoder._until_null(byte_iter)

@staticmethod
def _until_null(byte_iter):
    text = ''
    for byte in iter(byte_iter.next, 0):
        text += chr(byte)
    return text
''', (P, 'Encoder.encode_token_text'): '''
def encode_token_text(text):
    separators = (11, 32, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64,
                  91, 92, 93, 123, 125)
    bad = [c for c in separators if chr(c) in text]
    if bad:
        raise EncodeError('Char "%s" in text string; cannot '
                          'encode as Token-text' % chr(bad[0]))
    return Encoder.encode_text_string(text)
''', (P, 'Encoder.encode_text_string'): '''
def encode_text_string(string):
    encoded = []
    for c in string:
        encoded.append(ord(c))
    return encoded + [0]
'''})
ref('wsp-values', 'M01 M02 M03 M05 M06 M10 M12 W01', {(P, 'Decoder.decode_version_value'): '''
def decode_version_value(byte_iter):
    try:
        value = Decoder.decode_short_integer(byte_iter)
    except DecodeError:
        return Decoder.decode_text_string(byte_iter)
    major, minor = divmod(value, 16)
    if minor == 15:
        return str(major)
    return str(major) + '.' + str(minor)
''', (P, 'Encoder.encode_version_value'): '''
def encode_version_value(version):
    if not isinstance(version, str):
        raise TypeError('Parameter must be of type "str"')
    fields = version.split('.')
    try:
        if len(fields) > 2:
            return []
        major = int(fields[0])
        minor = int(fields[1]) if len(fields) == 2 else None
    except ValueError:
        return Encoder.encode_text_string(version)
    if not 1 <= major <= 7:
        return Encoder.encode_text_string(version)
    if minor is None:
        minor = 15
    elif not 0 <= minor <= 14:
        return Encoder.encode_text_string(version)
    return Encoder.encode_short_integer(major << 4 | minor)
''', (P, 'Encoder.encode_short_length'): '''
def encode_short_length(length):
    if 0 <= length <= 30:
        return [length]
    raise EncodeError('Cannot encode short-length; length should '
                      'be in the 0-30 range')
''', (P, 'Encoder.encode_value_length'): '''
def encode_value_length(length):
    try:
        return Encoder.encode_short_length(length)
    except EncodeError:
        return [31] + Encoder.encode_uint_var(length)
''', (P, 'Decoder.decode_value_length'): '''
def decode_value_length(byte_iter):
    byte = byte_iter.preview()
    byte_iter.reset_preview()
    if byte <= 30:
        return byte_iter.next()
    if byte != 31:
        raise DecodeError('Invalid Value-length: not short-length, '
                          'and no length-quote present')
    byte_iter.next()
    return Decoder.decode_uint_var(byte_iter)
''', (P, 'Decoder.decode_q_value'): '''
def decode_q_value(byte_iter):
    q = Decoder.decode_uint_var(byte_iter)
    return (q - 100) / 1000.0 if q > 100 else (q - 1) / 100.0
''', (P, 'Encoder.encode_parameter'): '''
def encode_parameter(parameter_name, parameter_value, version='1.2'):
    table = get_well_known_parameters(version)
    numbers = [n for n in table if table[n][0] == parameter_name]
    if numbers:
        number = max(numbers)
        encoder = getattr(Encoder, 'encode_%s' % table[number][1])
        try:
            return Encoder.encode_short_integer(number) + list(encoder(parameter_value))
        except EncodeError, msg:
            raise EncodeError('Error encoding param value: %s' % msg)
    encoded = list(Encoder.encode_token_text(parameter_name))
    try:
        return encoded + Encoder.encode_integer_value(parameter_value)
    except EncodeError:
        return encoded + Encoder.encode_text_string(parameter_value)
'''})
ref('mms-decode', 'M05 M06 M07 M08 M09 M10 W01', {(X, 'MMSDecoder.decode_message_header'): '''
def decode_message_header(self):
    data_iter = PreviewIterator(self._mms_data)
    headers = self._mms_message.headers
    while True:
        try:
            name, value = self.decode_header(data_iter)
        except StopIteration:
            break
        headers[name] = value
        if name == 'Content-Type':
            break
    return data_iter
''', (X, 'MMSDecoder.decode_message_body'): '''
def _take(self, data_iter, count):
    octets = []
    while len(octets) < count:
        octets.append(data_iter.next())
    return octets

def decode_message_body(self, data_iter):
    try:
        remaining = self.decode_uint_var(data_iter)
    except StopIteration:
        return
    while remaining:
        remaining -= 1
        headers_len = self.decode_uint_var(data_iter)
        data_len = self.decode_uint_var(data_iter)
        part_iter = PreviewIterator(self._take(data_iter, headers_len))
        ctype, params = self.decode_content_type_value(part_iter)
        headers = {}
        headers['Content-Type'] = (ctype, params)
        try:
            while True:
                hdr, value = wsp_pdu.Decoder.decode_header(part_iter)
                headers[hdr] = value
        except StopIteration:
            pass
        part = message.DataPart()
        part.set_data(array.array('B', self._take(data_iter, data_len)), ctype)
        part.headers = headers
        part.content_type_parameters = params
        self._mms_message.add_data_part(part)
''', (X, 'MMSDecoder.decode_boolean_value'): '''
def decode_boolean_value(byte_iter):
    byte = byte_iter.preview()
    byte_iter.reset_preview()
    if byte == 128 or byte == 129:
        return byte_iter.next() == 128
    raise wsp_pdu.DecodeError('Error parsing boolean value '
                              'for byte: %s' % hex(byte))
''', (X, 'MMSDecoder.decode_message_type_value'): '''
def decode_message_type_value(byte_iter):
    names = ['m-send-req', 'm-send-conf', 'm-notification-ind', 'm-notifyresp-ind',
             'm-retrieve-conf', 'm-acknowledge-ind', 'm-delivery-ind']
    byte = byte_iter.preview()
    if 0x80 <= byte < 0x80 + len(names):
        byte_iter.next()
        return names[byte - 0x80]
    byte_iter.reset_preview()
    return '<unknown>'
''', (X, 'MMSDecoder.decode_status_value'): '''
def decode_status_value(byte_iter):
    index = byte_iter.next() - 0x80
    values = ('Expired', 'Retrieved', 'Rejected', 'Deferred', 'Unrecognised')
    if index in range(len(values)):
        return values[index]
    return values[4]
'''})
ref('message-helpers', 'M06 M07 M08 M11 M12', {(M, 'MMSMessagePage.add_image'): '''
def _check_times(self, time_begin, time_end):
    for t in (time_begin, time_end):
        if not isinstance(t, int):
            raise TypeError("time_begin and time_end must be ints")

def _add_media(self, filename, time_begin, time_end):
    if not isinstance(filename, str):
        raise TypeError("filename must be a string")
    self._check_times(time_begin, time_end)
    if not os.path.isfile(filename):
        raise OSError("filename must be a file")
    if 0 < time_end < time_begin:
        raise ValueError('time_end cannot be lower than time_begin')
    return DataPart(filename), time_begin, time_end

def add_image(self, filename, time_begin=0, time_end=0):
    self.image = self._add_media(filename, time_begin, time_end)
''', (M, 'MMSMessagePage.add_audio'): '''
def add_audio(self, filename, time_begin=0, time_end=0):
    self.audio = self._add_media(filename, time_begin, time_end)
''', (M, 'MMSMessagePage.number_of_parts'): '''
def number_of_parts(self):
    return len(self.data_parts)
''', (M, 'MMSMessage.data_parts'): '''
def data_parts(self):
    parts = list(self._data_parts)
    if self._pages:
        from_pages = [self.smil()]
        for slide in self._pages:
            for item in slide.data_parts:
                from_pages.append(item[0])
        parts = from_pages + parts
    return parts
''', (M, 'DataPart.__len__'): '''
def __len__(self):
    if self._filename is None:
        return len(self.data)
    return int(os.path.getsize(self._filename))
''', (M, 'MMSMessage.smil'): '''
def _element(self, doc, name, *attributes):
    node = doc.createElement(name)
    for key, value in attributes:
        node.setAttribute(key, value)
    return node

def _source(self, part):
    for name in ('Content-Location', 'Content-ID'):
        if name in part.headers:
            return part.headers[name]
    return part.data

def _media(self, doc, page, name, media, src, region):
    part, begin, end = media
    node = self._element(doc, name, ('src', src))
    if region:
        node.setAttribute('region', region)
    if begin > 0 or end > 0:
        if not 0 < end <= page.duration:
            end = page.duration
        node.setAttribute('begin', str(begin))
        node.setAttribute('end', str(end))
    return node

def smil(self):
    impl = xml.dom.minidom.getDOMImplementation()
    doc = impl.createDocument(None, "smil", None)
    head = doc.createElement('head')
    for tag_name, value in self._metaTags.items():
        head.appendChild(self._element(doc, 'meta', (tag_name, value)))
    layout = doc.createElement('layout')
    layout.appendChild(self._element(doc, 'root-layout', ('width', '%d' % self.width),
                                     ('height', '%d' % self.height)))
    for region in ('Image', '0', '0', '176', '144'), ('Text', '176', '144', '176', '76'):
        layout.appendChild(self._element(doc, 'region', *zip(
            ('id', 'left', 'top', 'width', 'height'), region)))
    head.appendChild(layout)
    doc.documentElement.appendChild(head)
    body = doc.createElement('body')
    for page in self._pages:
        par = self._element(doc, 'par', ('duration', str(page.duration)))
        if page.image is not None:
            par.appendChild(self._media(doc, page, 'img', page.image, self._source(page.image[0]), 'Image'))
        if page.text is not None:
            par.appendChild(self._media(doc, page, 'text', page.text, page.text[0].data, 'Text'))
        if page.audio is not None:
            par.appendChild(self._media(doc, page, 'audio', page.audio, self._source(page.audio[0]), None))
        body.appendChild(par)
    doc.documentElement.appendChild(body)
    return doc.documentElement.toprettyxml()
'''})
ref('wap-rewrite', 'W01 M05', {(W, 'is_a_wap_push_notification'): '''
def is_a_wap_push_notification(s):
    if not isinstance(s, str):
        raise TypeError("data must be an array.array serialised to string")
    return len(s) > 1 and ord(s[1]) == 0x06
''', (W, 'extract_push_notification'): '''
def extract_push_notification(s):
    data = array("B", s)
    assert data[1] == 0x06
    pos = 2
    length = 0
    while data[pos] & 0x80:
        length = (length | (data[pos] & 0x7f)) << 7
        pos += 1
    length |= data[pos]
    start = pos + 1 + length
    return MMSDecoder().decode_data(data[start:])
''', (W, 'is_mms_notification'): '''
def is_mms_notification(push):
    for name in ('From', 'Content-Location'):
        if push.headers.get(name) is None:
            return False
    return True
'''})
ref('fixedoffset', 'S12 S13', {(U, 'FixedOffset.from_timezone'): '''
def from_timezone(cls, tz_str, name):
    if not tz_str:
        return cls(timedelta(0), name)
    digits = tz_str.lstrip('+-')
    minutes = 60 * int(digits[:2]) + int(digits[2:])
    if '+' not in tz_str:
        minutes = -minutes
    return cls(minutes, name)
'''})
