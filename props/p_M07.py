from vp import *
from wspspec import *
from textcon import *
from array import array
from messaging.mms.message import MMSMessage, MMSMessagePage, DataPart
from messaging.mms.mms_pdu import MMSDecoder

R_TEXT = [(32, 126)]


def expected_headers(h):
    h = dict(h)
    for x, plain in (('X-Mms-Message-Type', 'Message-Type'), ('X-Mms-Transaction-Id', 'Transaction-Id'), ('X-Mms-Version', 'MMS-Version')):
        if x in h:
            h[plain] = h[x]
            del h[x]
    if h.get('Message-Type', 'm-retrieve-conf') == 'm-send-req' and not ('To' in h or 'Cc' in h or 'Bcc' in h):
        h['Message-Type'] = 'm-retrieve-conf'
    elif 'Message-Type' not in h:
        h['Message-Type'] = 'm-retrieve-conf'
    if 'MMS-Version' not in h:
        h['MMS-Version'] = '1.0'
    return h


def expected_parts(m, extra):
    """(headers, octets) of every part, the presentation first"""
    out = [({'Content-Type': ('application/smil', {}), 'Content-ID': '<0000>'}, m.smil())]
    for p in m.pages:
        for t in (p.image, p.audio, p.text):
            if t is not None:
                out.append((dict(t[0].headers), t[0].data))
    for p in extra:
        out.append((dict(p.headers), p.data))
    return out


def survives(m, extra=(), gen_id=False):
    eh = expected_headers(m.headers)
    ep = expected_parts(m, extra)
    data = m.encode()
    d = MMSMessage.from_data(data)
    if gen_id:
        t = d.headers['Transaction-Id']
        check(len(t) == 4 and 1000 <= int(t) <= 9999, 'a generated transaction id has four digits')
        eh['Transaction-Id'] = t
    check_eq(d.headers, eh, 'the headers survive')
    check_eq(d.content_type, eh['Content-Type'][0], 'the content type survives')
    parts = d.data_parts
    check_eq(len(parts), len(ep), 'the number of parts survives')
    for i in range(len(ep)):
        check_eq(parts[i].headers, ep[i][0], 'the headers of every part survive')
        check_eq(parts[i].data, ep[i][1], 'the octets of every part survive')
        check_eq(len(parts[i]), len(ep[i][1]), 'the length of every part survives')
        check_eq(parts[i].content_type, ep[i][0]['Content-Type'][0], 'the content type of every part survives')
        check_eq(parts[i].content_type_parameters, ep[i][0]['Content-Type'][1], 'the content type parameters of every part survive')
    return data


def plain(s):
    if len(s):
        assume(31 < ord(s[0]) < 127)
    return s


DEST = Enum((), ('To',), ('Cc',), ('Bcc',), ('To', 'Cc'), ('Cc', 'Bcc'), ('To', 'Cc', 'Bcc'))


@harness(dest=DEST, mtype=Enum(None, 'm-send-req', 'm-send-conf', 'm-notification-ind', 'm-notifyresp-ind', 'm-retrieve-conf',
         'm-acknowledge-ind', 'm-delivery-ind'), x=Bool(), n=Int(1, 40), to=Str('n', 1, 255), split=['dest', 'mtype', 'x', 'n'], quick={'n': [1, 2, 9]},
         thorough={'n': [1, 2, 3, 9, 31]})
def message_types(dest, mtype, x, n, to):
    plain(to)
    m = MMSMessage()
    del m.headers['Message-Type']
    if mtype is not None:
        m.headers['X-Mms-Message-Type' if x else 'Message-Type'] = mtype
    for d in dest:
        m.headers[d] = to
    survives(m)


@harness(tid=Enum(None, 'plain', 'X'), n=Int(0, 40), t=Str('n', 1, 255), ver=Enum(None, 'plain', 'X'), major=Int(1, 7), minor=Int(0, 14),
         split=['tid', 'n', 'ver'], quick={'n': list(range(0, 21)) + [31, 40]}, thorough={})
def first_headers(tid, n, t, ver, major, minor):
    if n:
        assume(ord(t[0]) != 127)
    m = MMSMessage()
    del m.headers['Transaction-Id']
    del m.headers['MMS-Version']
    if tid is not None:
        m.headers['Transaction-Id' if tid == 'plain' else 'X-Mms-Transaction-Id'] = t
    if ver is not None:
        m.headers['MMS-Version' if ver == 'plain' else 'X-Mms-Version'] = '%d.%d' % (concrete(major), concrete(minor))
    survives(m, gen_id=tid is None)


@harness(n=Int(1, 60), a=Str('n', 1, 255), b=Str('n', 1, 255), c=Str('n', 1, 255), size=Int(0, 0x7fffffff), st=Enum(*STATUS), frm=Bool(), which=Int(0, 3),
         split=['n', 'st', 'frm', 'which'], quick={'n': [1, 2, 7, 28, 30]}, thorough={'n': list(range(1, 33)) + [50, 60]})
def other_headers(n, a, b, c, size, st, frm, which):
    plain(a)
    plain(b)
    plain(c)
    m = MMSMessage()
    m.headers['To'] = a
    if which & 1:
        m.headers['Subject'] = b
        m.headers['Message-Size'] = size
        m.headers['Status'] = st
    if which & 2:
        m.headers['Message-ID'] = c
        m.headers['Response-Text'] = b
        m.headers['Cc'] = c
        m.headers['Bcc'] = b
    if frm:
        m.headers['From'] = c
    survives(m)


@harness(n=Int(1, 40), k=Str('n', allowed=R_TOKEN7), v=Str('n', 1, 255), split=['n'], thorough={})
def own_headers(n, k, v):
    plain(v)
    assume(k not in MMS_CODE and k not in ['X-Mms-Message-Type', 'X-Mms-Transaction-Id', 'X-Mms-Version'])
    m = MMSMessage()
    m.headers['To'] = '+34616'
    m.headers[k] = v
    survives(m)


@harness(n=Int(1, 20), s=Str('n', 1, 255), t=Str('n', allowed=R_TOKEN7), which=Int(0, 3), split=['n', 'which'], thorough={})
def content_type_parameters(n, s, t, which):
    plain(s)
    m = MMSMessage()
    p = {}
    if which & 1:
        p['Start'] = s
    if which & 2:
        p['Type'] = t
    m.headers['Content-Type'] = ('application/vnd.wap.multipart.related', p)
    d = DataPart()
    d.set_data('abc', 'text/plain', {'Name': s} if which & 1 else {})
    m.add_data_part(d)
    survives(m, [d])


def page(image, audio, text, i, s, times):
    p = MMSMessagePage()
    if image:
        p.add_image(mkfile(s, 'i%d.jpg' % i))
    if audio:
        p.add_audio(mkfile(s, 'a%d.amr' % i))
    if text:
        p.add_text('slide%d' % i, times, times and times + 1)
    p.set_duration(1000 + i)
    return p


@harness(pages=Int(1, 3), a=Int(0, 7), b=Int(0, 7), c=Int(0, 7), n=Int(0, 2), s=Str('n', 0, 255), extra=Int(0, 2), times=Int(0, 50),
         split=['pages', 'a', 'b', 'c', 'n', 'extra'],
         quick={'pages': [1, 2], 'c': [0], 'b': [0, 3, 5, 6, 7], 'n': [2], 'extra': [0, 1]},
         thorough={'pages': [1, 2, 3], 'b': [0, 2, 5, 7], 'c': [0, 3, 6], 'n': [0, 2]})
def layouts(pages, a, b, c, n, s, extra, times):
    times = 0 if times < 25 else 30
    assume(pages >= 2 or b == 0)
    assume(pages >= 3 or c == 0)
    m = MMSMessage()
    m.headers['To'] = '123'
    l = [a, b, c]
    for i in range(pages):
        m.add_page(page(l[i] & 1, l[i] & 2, l[i] & 4, i, s, times))
    check_eq(m.content_type, 'application/vnd.wap.multipart.related', 'a message with pages is a related multipart')
    l = []
    for i in range(extra):
        d = DataPart()
        d.set_data(s, 'application/octet-stream')
        m.add_data_part(d)
        l.append(d)
    survives(m, l)


@harness(n=Int(0, 600), s=Str('n', 0, 255), kind=Enum('str', 'array', 'file', 'text'), split=['n', 'kind'],
         quick={'n': list(range(0, 35)) + [63, 64, 65, 100, 126, 127, 128, 129, 255, 256, 257, 300, 600]}, thorough={})
def contents(n, s, kind):
    m = MMSMessage()
    d = DataPart()
    if kind == 'str':
        d.set_data(s, 'image/gif')
    elif kind == 'array':
        d.set_data(array('B', octets(s)), 'application/x-foo', {'Name': 'a'})
    elif kind == 'text':
        d.set_text(s)
    else:
        d = DataPart(mkfile(s, 'x.png'))
    m.add_data_part(d)
    survives(m, [d])


@harness(k=Int(1, 3), ci=Int(0, 80), n=Int(1, 140), v=Str('n', 1, 255), w=Str('n', 1, 255), split=['k', 'ci', 'n'],
         quick={'n': [1, 2, 9, 25, 45, 70, 130], 'ci': [0, 3, 29, 51, 75, 80]}, thorough={'n': [1, 2, 3, 9, 25, 45, 70, 130]})
def part_headers(k, ci, n, v, w):
    plain(v)
    plain(w)
    m = MMSMessage()
    d = DataPart()
    d.set_data('GIF', MEDIA[ci] if ci < 76 else 'application/x-foo')
    d.headers['Content-Location'] = v
    if k > 1:
        d.headers['Content-ID'] = w
    if k > 2:
        d.headers['Etag'] = v
        d.headers['X-Own'] = w
    m.add_data_part(d)
    survives(m, [d])


@harness(n=Int(1, 300), s=Str('n', 0, 255), to=Str(5, 33, 126), split=['n'], quick={'n': list(range(1, 21)) + [127, 128, 130, 300]}, thorough={})
def files(n, s, to):
    m = MMSMessage()
    m.headers['To'] = to
    d = DataPart()
    d.set_data(s, 'image/gif')
    m.add_data_part(d)
    path = mkfile('', 'out.mms')
    m.to_file(path)
    r = MMSMessage.from_file(path)
    check_eq(r.headers, m.headers, 'the headers survive a file')
    check_eq([(p.headers, p.data) for p in r.data_parts], expected_parts(m, [d]), 'the parts survive a file')


@harness(k=Int(0, 400), n=Int(0, 3), s=Str('n', 0, 255), same=Bool(), pages=Int(0, 1), split=['k', 'n', 'same', 'pages'], quick={'k': [0, 1, 2, 3, 4, 5, 8, 20, 126, 127, 128, 129], 'n': [2]},
         thorough={'k': list(range(0, 12)) + [126, 127, 128, 129, 255, 256, 300], 'n': [0, 2]})
def many_parts(k, n, s, same, pages):
    """any number of parts, the same part several times or equal parts"""
    m = MMSMessage()
    m.headers['To'] = '123'
    if pages:
        m.add_page(page(1, 0, 4, 0, s, 0))
    l = []
    d = None
    for i in range(k):
        if d is None or not same:
            d = DataPart()
            d.set_data(s, 'application/octet-stream')
        m.add_data_part(d)
        l.append(d)
    survives(m, l)


@harness(k=Int(1, 140), split=['k'], quick={'k': [1, 2, 3, 4, 5, 10, 30]}, thorough={'k': [1, 2, 3, 4, 5, 6, 10, 42, 43, 63, 64, 130]}, s=Str(2, 0, 255))
def many_pages(k, s):
    m = MMSMessage()
    m.headers['To'] = '123'
    for i in range(k):
        m.add_page(page(i % 2, i % 3, i % 5, i, s, 0))
    survives(m)


@harness(n=Int(1000, 70000), s=Str('n', 0, 255), file=Bool(), split=['n', 'file'], quick={'n': [1000, 4096, 16383, 16384, 20000]}, thorough={'n': [1000, 4095, 4096, 4097, 8192, 16382, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 70000]})
def large_parts(n, s, file):
    m = MMSMessage()
    m.headers['To'] = '123'
    d = DataPart()
    if file:
        d.from_file(mkfile(s, 'big.jpg'))
    else:
        d.set_data(s, 'image/jpeg')
    m.add_data_part(d)
    survives(m, [d])


@harness(pages=Int(0, 2), parts=Int(0, 2), n=Int(1, 40), s=Str('n', 0, 255), v=Str('n', 33, 126), change=Enum('header', 'new header', 'no header', 'part', 'octets', 'page', 'content type', 'part header', 'none'),
         split=['pages', 'parts', 'n', 'change'], quick={'n': [3], 'pages': [0, 1]}, thorough={'n': [1, 5, 31]})
def encoded_again(pages, parts, n, s, v, change):
    """a message encoded, changed and encoded again: what is decoded is the message as it is now"""
    m = MMSMessage()
    m.headers['To'] = 'a'
    m.headers['Subject'] = 'b'
    for i in range(pages):
        p = MMSMessagePage()
        p.add_text('text')
        p.add_image(mkfile('image', 'i.jpg'))
        m.add_page(p)
    l = []
    for i in range(parts):
        d = DataPart()
        d.set_data('data', 'image/gif', {'Name': 'x'})
        l.append(d)
        m.add_data_part(d)
    a = survives(m, l)
    first = MMSMessage.from_data(a)
    if change == 'header':
        m.headers['Subject'] = v
        m.headers['To'] = v + v
    elif change == 'new header':
        m.headers['Cc'] = v
        m.headers['Own'] = v
    elif change == 'no header':
        del m.headers['To']
        del m.headers['Subject']
    elif change == 'part':
        d = DataPart()
        d.set_data(s, 'image/png')
        m.add_data_part(d)
        l.append(d)
    elif change == 'octets':
        for d in l:
            d.set_data(s, 'image/png')
    elif change == 'page':
        p = MMSMessagePage()
        p.add_text('other')
        m.add_page(p)
    elif change == 'content type':
        m.headers['Content-Type'] = ('application/vnd.wap.multipart.related', {'Start': v})
        for d in l:
            d.content_type = 'image/jpeg'
    elif change == 'part header':
        for d in l:
            d.headers['Content-Location'] = v
    b = survives(m, l)
    if change == 'none':
        check_eq(b, a, 'the same octets')
    check_eq([p.data for p in first.data_parts][1 + 2 * pages:], ['data'] * parts, 'a message decoded before is not touched')
    check_eq(first.headers['To'], 'a', 'the headers of a message decoded before are not touched')


@harness(n=Int(0, 60), s=Str('n', 0, 255), v=Str(3, 33, 126), w=Str(2, 33, 126), a=Int(0, 7), b=Int(0, 7), split=['n', 'a', 'b'], quick={'n': [3], 'b': [0, 2, 5, 7]}, thorough={'n': [0, 3, 60]})
def one_decoder(n, s, v, w, a, b):
    """messages decoded one after the other by one decoder"""
    x = made(a, s, v)
    y = made(b, w, w)
    p, q = MMSMessage.from_data(x), MMSMessage.from_data(y)
    d = MMSDecoder()
    first = d.decode_data(x)
    second = d.decode_data(y)
    third = d.decode_data(x)
    for g, e in ((first, p), (second, q), (third, p)):
        check_eq(g.headers, e.headers, 'the headers of the message')
        check_eq([(t.headers, t.data) for t in g.data_parts], [(t.headers, t.data) for t in e.data_parts], 'the parts of the message')
    if n:
        first.headers['To'] = 'other'
        first.add_data_part(DataPart())
        check_eq((third.headers.get('To'), len(third.data_parts)), (p.headers.get('To'), len(p.data_parts)), 'the messages share nothing')


def made(which, s, v):
    m = MMSMessage()
    if which & 1:
        m.headers['To'] = v
    if which & 2:
        m.headers['Subject'] = v
        p = MMSMessagePage()
        p.add_text('text')
        m.add_page(p)
    if which & 4:
        d = DataPart()
        d.set_data(s, 'image/png', {'Name': v})
        d.headers['Content-Location'] = v
        m.add_data_part(d)
    return m.encode()


TYPES = [('image/gif', None), ('image/gif', 'Name'), ('image/gif', 'Filename'), ('application/x-own', None), ('application/x-own', 'Name'), ('text/plain', 'Name')]


@harness(a=Int(0, 5), b=Int(0, 5), c=Int(0, 5), n=Int(0, 9), m=Int(0, 9), s=Str('n', 0, 255), t=Str('m', 0, 255), v=Str(2, allowed=R_TOKEN7), w=Str(2, allowed=R_TOKEN7), location=Int(0, 3),
         split=['a', 'b', 'c', 'n', 'm', 'location'], quick={'c': [1, 3], 'n': [2], 'm': [2, 5], 'location': [0, 3]}, thorough={'c': [0, 1, 4], 'n': [0, 3], 'm': [3, 5], 'location': [0, 2, 3]})
def mixed_parts(a, b, c, n, m, s, t, v, w, location):
    """parts alike in some respects and different in others"""
    g = MMSMessage()
    l = []
    for i, data, x in ((a, s, v), (b, t, w), (c, s, w)):
        name, p = TYPES[i]
        d = DataPart()
        d.set_data(data, name, {} if p is None else {p: x})
        if location & 1:
            d.headers['Content-Location'] = x
        if location & 2:
            d.headers['Content-ID'] = 'id'
        g.add_data_part(d)
        l.append(d)
    survives(g, l)


@harness(n=Int(0, 9), s=Str('n', 0, 255), t=Str('n', 97, 122), v=Str(2, 33, 126), a=Int(0, 7), how=Enum('page', 'equal page', 'part', 'equal part', 'text', 'attached', 'both'), split=['n', 'a', 'how'], quick={'n': [0, 3]}, thorough={'n': [0, 1, 9]})
def repeated(n, s, t, v, a, how):
    """the same page, part or content twice"""
    m = MMSMessage()
    m.headers['To'] = '123'
    p = page(a & 1, a & 2, a & 4, 0, s, 0)
    q = page(a & 1, a & 2, a & 4, 0, s, 0)
    l = []
    m.add_page(p)
    if how == 'page':
        m.add_page(p)
    elif how == 'equal page':
        m.add_page(q)
    elif how == 'part':
        q.audio = q.image = p.image
        m.add_page(q)
    elif how == 'text':
        q.text = p.text
        m.add_page(q)
        m.add_page(p)
    elif how == 'attached':
        # a part of a page attached to the message as well
        l = [x[0] for x in p.data_parts]
    else:
        d = DataPart()
        d.set_data(s, 'image/gif', {'Name': t} if n else {})
        e = d
        if how == 'equal part':
            e = DataPart()
            e.set_data(s, 'image/gif', {'Name': t} if n else {})
        d.headers['Content-Location'] = v
        e.headers['Content-Location'] = v
        l = [d, e, d]
        m.add_page(q)
        m.add_page(p)
    for d in l:
        m.add_data_part(d)
    survives(m, l)
    survives(m, l)


@harness(field=Enum('Subject', 'Message-ID', 'From', 'Cc', 'X-Mms-Transaction-Id'), n=Int(1, 0xfffffff, cap=3000), a=Str('n', 1, 255), b=Str(3, 33, 126), split=['field'], inductive=8)
def header_any(field, n, a, b):
    """header texts of any length"""
    plain(a)
    plain(b)
    assume(n < 0xfffff00)
    texts_here()
    all_copies()
    x = MMSMessage()
    x.headers['To'] = b
    if field == 'X-Mms-Transaction-Id':
        del x.headers['Transaction-Id']
    x.headers[field] = a
    survives(x)


@harness(n=Int(0, 0xfffffff, cap=3000), a=Str('n', 0, 255), kind=Enum('image/gif', 'application/x-other'), split=['kind'], inductive=8)
def part_any(n, a, kind):
    """a part of any length"""
    texts_here()
    all_copies()
    x = MMSMessage()
    p = DataPart()
    p.set_data(a, kind)
    x.add_data_part(p)
    survives(x, [p])
