from vp import *
from array import array
from messaging.mms.message import MMSMessage, MMSMessagePage, DataPart

NAMES = {'a.gif': 'image/gif', 'b.jpg': 'image/jpeg', 'c.txt': 'text/plain', 'd.unheard-of': 'application/octet-stream', 'noext': 'application/octet-stream',
         'e.png': 'image/png', 'f.html': 'text/html'}
WAYS = ['text', 'octets', 'array', 'file', 'parameters', 'nothing']


def put(d, way, s, ct, name, k, v):
    """fills the part; returns the headers and the octets it must have"""
    if way == 'text':
        d.set_text(s)
        return {'Content-Type': ('text/plain', {})}, s
    elif way == 'octets':
        d.set_data(s, ct)
        return {'Content-Type': (ct, {})}, s
    elif way == 'array':
        d.set_data(array('B', octets(s)), ct)
        return {'Content-Type': (ct, {})}, s
    elif way == 'parameters':
        d.set_data(s, ct, {k: v})
        return {'Content-Type': (ct, {k: v})}, s
    elif way == 'file':
        d.from_file(mkfile(s, name))
        return {'Content-Type': (NAMES[name], {}), 'Content-Location': name}, s
    else:
        check(raises(OSError, d.from_file, '/verif-no-such-file'), 'a missing file is refused')


def is_filled(d, want):
    headers, data = want
    n = len(data)
    for i in range(2):
        check_eq(len(d), n, 'the length is the number of octets')
        check_eq(octets(d.data), octets(data), 'the data are the octets of the last filling')
        check(isinstance(d.data, str), 'the data are a string')
        check_eq(d.headers, headers, 'the headers are those of the last filling')
        check_eq(d.content_type, headers['Content-Type'][0], 'the content type is that of the last filling')


EMPTY = ({'Content-Type': ('application/octet-stream', {})}, '')


@harness(w1=Enum(*WAYS), w2=Enum(*WAYS), w3=Enum(*WAYS), look=Int(0, 3), n=Int(0, 40), a=Str('n', 0, 255), m=Int(0, 40), b=Str('m', 0, 255), c=Str(3, 0, 255),
         k=Str(4, 33, 126), v=Str(2, 0, 255), name=Enum(*sorted(NAMES)), split=['w1', 'w2', 'w3', 'look', 'n', 'm', 'name'],
         quick={'n': [2], 'm': [0, 5], 'look': [0, 3]}, thorough={'n': [0, 1, 30], 'm': [0, 2, 31]})
def fillings(w1, w2, w3, look, n, a, m, b, c, k, v, name):
    """fillings in any order, looking at the part in between or not"""
    d = DataPart()
    want = EMPTY
    if look & 1:
        is_filled(d, want)
    want = put(d, w1, a, 'image/x-one', 'a.gif', k, v) or want
    if look & 1:
        is_filled(d, want)
    want = put(d, w2, b, 'image/x-two', name, k, v) or want
    if look & 2:
        is_filled(d, want)
    want = put(d, w3, c, 'image/x-three', 'd.unheard-of', k, v) or want
    is_filled(d, want)


@harness(way=Enum(*WAYS[:5]), n=Int(0, 5000), s=Str('n', 0, 255), ctn=Int(0, 40), ct=Str('ctn', 0, 255), name=Enum(*sorted(NAMES)), new=Bool(),
         split=['way', 'n', 'ctn', 'name', 'new'], quick={'n': [0, 1, 2, 600], 'ctn': [0, 5, 9, 10, 15, 24]}, thorough={'n': [0, 1, 2, 3, 5, 255, 256, 257, 3000], 'ctn': range(0, 41)})
def sizes(way, n, s, ctn, ct, name, new):
    """data of any size and octets (line ends of all kinds included), types of any text"""
    if new and way == 'file':
        d = DataPart(mkfile(s, name))
        want = {'Content-Type': (NAMES[name], {}), 'Content-Location': name}, s
    else:
        d = DataPart()
        want = put(d, way, s, ct, name, 'Name', ct)
    is_filled(d, want)
    # a content type set afterwards replaces the first; the other headers and the octets stay
    d.content_type = 'text/x-other'
    h = dict(want[0])
    h['Content-Type'] = ('text/x-other', {})
    is_filled(d, (h, s))
    # two parts are independent
    e = DataPart()
    is_filled(e, EMPTY)
    e.headers['X'] = 'y'
    is_filled(d, (h, s))
    is_filled(DataPart(), EMPTY)


@harness(first=Enum(*WAYS[:5]), second=Enum(*WAYS[:5]), n=Int(0, 20), s=Str('n', 0, 255), t=Str(4, 0, 255), split=['first', 'second', 'n'],
         quick={'n': [0, 4]}, thorough={'n': [0, 1, 4, 20]})
def independent(first, second, n, s, t):
    """filling one part leaves the others as they are"""
    d = DataPart()
    e = DataPart()
    one = put(d, first, s, 'image/x-one', 'a.gif', 'p', 'q')
    two = put(e, second, t, 'image/x-two', 'b.jpg', 'r', 's')
    is_filled(d, one)
    is_filled(e, two)
    d.headers['Content-ID'] = 'id'
    one[0]['Content-ID'] = 'id'
    is_filled(d, one)
    is_filled(e, two)


@harness(pages=Int(0, 3), a=Int(0, 7), b=Int(0, 7), c=Int(0, 7), extra=Int(0, 3), late=Bool(), s=Str(3, 0, 255), t=Str(4, 32, 126),
         split=['pages', 'a', 'b', 'c', 'extra', 'late'], quick={'c': [0, 5], 'extra': [0, 2]}, thorough={})
def listing(pages, a, b, c, extra, late, s, t):
    """the parts of a message: presentation, media of the pages, added parts"""
    assume((pages > 0 or a == 0) and (pages > 1 or b == 0) and (pages > 2 or c == 0))
    m = MMSMessage()
    want = []
    rest = []
    ps = []

    def add():
        for i in range(extra):
            d = DataPart()
            rest.append((d, put(d, WAYS[i], s, 'image/gif', 'c.txt', 'k', 'v')))
            m.add_data_part(d)
    if not late:
        add()
    for i in range(pages):
        p = MMSMessagePage()
        x = [a, b, c][i]
        image = {'Content-Type': ('image/gif', {}), 'Content-Location': 'p%d.gif' % i}, s
        audio = {'Content-Type': ('application/octet-stream', {}), 'Content-Location': 'p%d.unheard-of' % i}, t
        words = {'Content-Type': ('text/plain', {})}, t
        if x & 4:
            p.add_text(t)
        if x & 1:
            p.add_image(mkfile(s, 'p%d.gif' % i))
        if x & 2:
            p.add_audio(mkfile(t, 'p%d.unheard-of' % i))
        if x & 1:
            want.append((p.image[0], image))
        if x & 2:
            want.append((p.audio[0], audio))
        if x & 4:
            want.append((p.text[0], words))
        m.add_page(p)
        ps.append(p)
    if late:
        add()
    check_eq(m.pages, ps, 'the pages are those added')
    for i in range(2):
        l = m.data_parts
        if pages:
            check_eq(l[0], m.smil(), 'the presentation comes first')
            l = l[1:]
        w = want + rest
        check_eq(len(l), len(w), 'the list holds every part once')
        check_eq(l, [x[0] for x in w], 'the list has the parts of the pages and then those added')
        for x in w:
            is_filled(x[0], x[1])


@harness(way=Enum(*WAYS[:5]), n=Int(0, None, cap=200000), s=Str('n', 0, 255), name=Enum(*sorted(NAMES)), new=Bool(), split=['way', 'name', 'new'], inductive=True)
def any_size(way, n, s, name, new):
    """data of any size"""
    if new and way == 'file':
        d = DataPart(mkfile(s, name))
        want = {'Content-Type': (NAMES[name], {}), 'Content-Location': name}, s
    else:
        d = DataPart()
        want = put(d, way, s, 'image/x-one', name, 'Name', 'x')
    is_filled(d, want)
    is_filled(DataPart(), EMPTY)


@harness(w1=Enum(*WAYS), w2=Enum(*WAYS), look=Bool(), n=Int(0, None, cap=3000), a=Str('n', 0, 255), m=Int(0, None, cap=3000), b=Str('m', 0, 255),
         k=Str(4, 33, 126), v=Str(2, 0, 255), split=['w1', 'w2', 'look'], inductive=True)
def any_fillings(w1, w2, look, n, a, m, b, k, v):
    """two fillings of any size"""
    d = DataPart()
    want = put(d, w1, a, 'image/x-one', 'a.gif', k, v) or EMPTY
    if look:
        is_filled(d, want)
    want = put(d, w2, b, 'image/x-two', 'b.jpg', k, v) or want
    is_filled(d, want)


SEQUENCES = ('aba', 'aab', 'abba', 'abcabc', 'abcdefghijkl', 'lkjihgfedcba', 'ab' * 20, 'abcdefghij' * 13)


@harness(which=Int(0, len(SEQUENCES) - 1), extra=Enum(0, 1, 12, 130), same_part=Bool(), s=Str(3, 0, 255), t=Str(4, 32, 126), split=['which', 'extra', 'same_part'])
def long_listing(which, extra, same_part, s, t):
    """messages of many pages and parts, of which some may be the same"""
    m = MMSMessage()
    pages = {}
    want = []
    for c in SEQUENCES[which]:
        if c not in pages:
            p = pages[c] = MMSMessagePage()
            p.add_text(t + c)
            if c < 'd':
                p.add_image(mkfile(s, c + '.gif'))
        p = pages[c]
        m.add_page(p)
        if p.image:
            want.append(p.image[0])
        want.append(p.text[0])
    d = DataPart()
    d.set_data(s, 'image/gif')
    for i in range(extra):
        if not same_part:
            d = DataPart()
            d.set_data(s, 'image/gif')
        m.add_data_part(d)
        want.append(d)
    check_eq(m.pages, [pages[c] for c in SEQUENCES[which]], 'the pages are those added')
    l = m.data_parts
    check_eq(l[0], m.smil(), 'the presentation comes first')
    check_eq(len(l) - 1, len(want), 'the list holds every part once')
    check(allof([l[i + 1] is want[i] for i in range(len(want))]), 'the list has the parts of the pages and then those added')


@harness(source=Enum('same array', 'same file', 'same kind of file', 'same text', 'same part'), n=Int(0, 100000), s=Str('n', 0, 255), look=Bool(), change=Enum('nothing', 'type', 'parameter', 'header', 'data'),
         v=Str(2, 33, 126), split=['source', 'n', 'look', 'change'], quick={'n': [0, 3, 70000]}, thorough={'n': [0, 1, 3, 255, 256, 4096, 65535, 65536, 100000]})
def one_source(source, n, s, look, change, v):
    """parts filled from one source, one of them then changed"""
    d = DataPart()
    e = DataPart()
    a = array('B', octets(s))
    if source == 'same array':
        want = {'Content-Type': ('image/gif', {})}
        d.set_data(a, 'image/gif')
        e.set_data(a, 'image/gif')
    elif source == 'same file':
        want = {'Content-Type': ('image/gif', {}), 'Content-Location': 'a.gif'}
        path = mkfile(s, 'a.gif')
        d.from_file(path)
        e = DataPart(path)
    elif source == 'same kind of file':
        want = {'Content-Type': ('image/gif', {}), 'Content-Location': 'a.gif'}
        d.from_file(mkfile(v, 'b.gif'))
        e.from_file(mkfile(s, 'a.gif'))
    elif source == 'same text':
        want = {'Content-Type': ('text/plain', {})}
        d.set_text(s)
        e.set_text(s)
    else:
        # the part itself filled once more
        want = {'Content-Type': ('image/gif', {})}
        e.set_data(s, 'image/png')
        e.set_data(e.data, 'image/gif')
    if look:
        len(d)
        d.data
    if change == 'type':
        d.content_type = 'image/x-other'
    elif change == 'parameter':
        d.headers['Content-Type'][1]['Name'] = v
    elif change == 'header':
        d.headers['Content-ID'] = v
    elif change == 'data':
        d.set_data(v, 'image/x-other')
    check_eq(octets(e.data), octets(s), 'the data are the octets of the last filling')
    check_eq(len(e), len(s), 'the length is the number of octets')
    check_eq(e.headers, want, 'the headers are those of the last filling')
    check_eq(len(a), len(s), 'the array it was filled with is as it was')
