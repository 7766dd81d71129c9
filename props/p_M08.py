from vp import *
from wspspec import *
from array import array
from messaging.mms.message import MMSMessage, MMSMessagePage, DataPart
from messaging.mms.mms_pdu import MMSEncoder


def part_state(p):
    return (dict(p.headers), p.content_type, dict(p.headers['Content-Type'][1]), dict(p.content_type_parameters), p.data, len(p))


def slide_state(t):
    return None if t is None else (part_state(t[0]), t[1], t[2])


def state(m, extra):
    # the Content-Type values are shared with the message on purpose: their contents are copied here
    hs = {}
    for h in m.headers:
        v = m.headers[h]
        hs[h] = (v[0], dict(v[1])) if h == 'Content-Type' else v
    ps = []
    for p in m._pages:
        ps.append((p.duration, slide_state(p.image), slide_state(p.audio), slide_state(p.text), p.number_of_parts()))
    return (hs, ps, [part_state(p) for p in extra], len(m.data_parts), m.smil(), m.width, m.height, m.transactionID, m.subject)


def build(n, s, v, which, pages, data):
    m = MMSMessage()
    if which & 1:
        m.headers['To'] = v
        m.headers['Subject'] = v
    if which & 2:
        m.headers['X-Mms-Message-Type'] = 'm-retrieve-conf'
        m.headers['X-Mms-Transaction-Id'] = v
        m.headers['X-Mms-Version'] = '1.2'
    if which & 4:
        m.headers['From'] = ''
        m.headers['Own'] = v
    for i in range(pages):
        p = MMSMessagePage()
        # ends after the page's, begins before it, no end
        p.add_text('text', i, 5000)
        p.add_image(mkfile(s, 'i.jpg'), -1, 100)
        if i:
            p.add_audio(mkfile(s, 'a.amr'), 1300)
            p.set_duration(1234)
        m.add_page(p)
    l = []
    if data == 'array':
        d = DataPart()
        d.set_data(array('B', octets(s)), 'image/gif', {'Name': 'x'})
        l.append(d)
    elif data == 'str':
        d = DataPart()
        d.set_data(s, 'image/gif')
        d.headers['Content-ID'] = 'id'
        if which & 1:
            d.content_type_parameters = {'Name': v}
        l.append(d)
    elif data == 'file':
        l.append(DataPart(mkfile(s, 'f.png')))
    elif data == 'shared':
        d = DataPart()
        d.set_text(s)
        l.extend([d, d])
    for d in l:
        m.add_data_part(d)
    return m, l


@harness(n=Int(0, 200), s=Str('n', 0, 255), v=Str(3, 33, 126), which=Int(0, 7), pages=Int(0, 2), data=Enum('none', 'array', 'str', 'file', 'shared'),
         split=['n', 'which', 'pages', 'data'], quick={'n': [3]}, thorough={'n': [0, 1, 3, 130]})
def unchanged(n, s, v, which, pages, data):
    m, l = build(n, s, v, which, pages, data)
    before = state(m, l)
    a = m.encode()
    after = state(m, l)
    check_eq(after, before, 'encoding leaves the message as it was')
    b = m.encode()
    check_eq(b, a, 'encoding again gives the same octets')
    check_eq(state(m, l), before, 'encoding again leaves the message as it was')
    c = MMSEncoder().encode(m)
    check_eq(c, a, 'another encoder gives the same octets')


@harness(n=Int(0, 200), s=Str('n', 0, 255), v=Str(3, 33, 126), which=Int(0, 7), pages=Int(0, 2), data=Enum('none', 'array', 'str', 'file', 'shared'),
         split=['n', 'which', 'pages', 'data'], quick={'n': [3], 'which': [1, 6]}, thorough={'n': [0, 1, 3, 130]})
def unchanged_after_decoding(n, s, v, which, pages, data):
    """a message that was decoded and one that holds its parts"""
    m, l = build(n, s, v, which, pages, data)
    m = MMSMessage.from_data(m.encode())
    l = m.data_parts
    before = state(m, l)
    a = m.encode()
    check_eq(state(m, l), before, 'encoding leaves a decoded message as it was')
    check_eq(m.encode(), a, 'encoding again gives the same octets')
    o = MMSMessage()
    for d in l:
        d.headers['Content-Location'] = v
        o.add_data_part(d)
    before = state(m, l), state(o, l)
    a = o.encode()
    check_eq((state(m, l), state(o, l)), before, 'encoding a message leaves another message with the same parts as it was')
    check_eq(o.encode(), a, 'encoding again gives the same octets')


@harness(n=Int(0, 100), s=Str('n', 0, 255), v=Str(3, 33, 126), which=Int(0, 7), pages=Int(0, 2), data=Enum('none', 'array', 'str', 'file', 'shared'),
         bad=Enum('header', 'size', 'part', 'own', 'type', 'gone'), split=['n', 'which', 'pages', 'data', 'bad'], quick={'n': [2], 'pages': [0, 1], 'which': [1, 6]},
         thorough={'n': [0, 2], 'pages': [0, 2]})
def unchanged_when_refused(n, s, v, which, pages, data, bad):
    m, l = build(n, s, v, which, pages, data)
    if bad == 'header':
        m.headers['Expiry'] = 5
    elif bad == 'size':
        m.headers['Message-Size'] = -1
    elif bad == 'own':
        m.headers['X (own)'] = 'value'
    elif bad == 'type':
        m.headers['Content-Type'] = ('text/plain', {'Padding': 400})
    elif bad == 'gone':
        m.headers['Subject'] = 7
    else:
        d = DataPart()
        d.set_data('x', 'text/plain')
        d.headers['a:b'] = 'c'
        m.add_data_part(d)
        l.append(d)
    before = state(m, l)
    exc, e = attempt(m.encode)
    check(exc is not None, 'the message is refused')
    check_eq(state(m, l), before, 'a refused encoding leaves the message as it was')


@harness(n=Int(0, 40), s=Str('n', 0, 255), which=Int(0, 1), split=['n', 'which'], quick={'n': [0, 2]}, thorough={'n': [0, 2, 40]})
def generated_id(n, s, which):
    m = MMSMessage()
    del m.headers['Transaction-Id']
    if which:
        m.headers['To'] = '123'
    d = DataPart()
    d.set_data(s, 'image/gif')
    m.add_data_part(d)
    before = state(m, [d])
    a = list(m.encode())
    check_eq(state(m, [d]), before, 'encoding leaves the message as it was')
    b = list(m.encode())
    check('Transaction-Id' not in m.headers, 'a generated transaction id is not stored')
    # type octet and value, identifier, four digits, terminator
    check_eq(a[:3] + a[7:], b[:3] + b[7:], 'only the generated transaction id differs')


@harness(n=Int(0, 200), s=Str('n', 0, 255), v=Str(3, 33, 126), w=Str(2, 33, 126), which=Int(0, 7), pages=Int(0, 2), data=Enum('none', 'array', 'str', 'file', 'shared'),
         which2=Int(0, 7), pages2=Int(0, 2), data2=Enum('none', 'array', 'str', 'file', 'shared'), split=['n', 'which', 'pages', 'data', 'which2', 'pages2', 'data2'],
         quick={'n': [2], 'which': [1, 6], 'which2': [0, 7], 'pages': [0, 1], 'pages2': [0, 2], 'data': ['none', 'str'], 'data2': ['none', 'shared']},
         thorough={'n': [0, 3], 'which': [0, 1, 6], 'which2': [0, 3, 7], 'pages2': [0, 1], 'data': ['none', 'str', 'file'], 'data2': ['none', 'array', 'shared']})
def one_encoder(n, s, v, w, which, pages, data, which2, pages2, data2):
    """messages encoded one after the other by one encoder"""
    m, l = build(n, s, v, which, pages, data)
    o, k = build(2, 'xy', w, which2, pages2, data2)
    before = state(m, l), state(o, k)
    a = m.encode()
    b = o.encode()
    e = MMSEncoder()
    c = e.encode(m)
    check_eq(c, a, 'the first message')
    d = e.encode(o)
    check_eq(d, b, 'the second message, whatever was encoded before')
    check_eq(c, a, 'the octets given out are not touched')
    check_eq(e.encode(m), a, 'the first message again')
    check_eq((state(m, l), state(o, k)), before, 'the messages are left as they were')
