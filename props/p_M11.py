from vp import *
from array import array
from messaging.mms.message import MMSMessage, MMSMessagePage, DataPart

PRINT = [(32, 126)]
KIND = {1: 'image', 2: 'text', 4: 'audio'}


def rational(begin, end):
    """times add_image, add_audio and add_text accept"""
    return end <= 0 or end >= begin


def expected(kind, part, begin, end, duration):
    h = part.headers
    src = part.data
    if kind != 'text':
        src = h['Content-ID'] if 'Content-ID' in h else src
        src = h['Content-Location'] if 'Content-Location' in h else src
    a = {'src': src}
    if kind == 'image':
        a['region'] = 'Image'
    elif kind == 'text':
        a['region'] = 'Text'
    if begin > 0 or end > 0:
        if end <= 0 or end > duration:
            end = duration
        a['begin'] = str(begin)
        a['end'] = str(end)
    return ({'image': 'img', 'text': 'text', 'audio': 'audio'}[kind], a, [])


def presentation(m, pages):
    """pages: for every page its duration and its media in order (image, text, audio)"""
    tag, at, ch = parse_xml(m.smil())
    check_eq((tag, at), ('smil', {}), 'the presentation is a SMIL document')
    check_eq([c[0] for c in ch], ['head', 'body'], 'the document has a head and a body')
    head, body = ch
    lay = [c for c in head[2] if c[0] == 'layout']
    check_eq(len(lay), 1, 'the head has one layout')
    root = [c[1] for c in lay[0][2] if c[0] == 'root-layout']
    check_eq(root, [{'width': str(m.width), 'height': str(m.height)}], 'the layout has the size of the message')
    check_eq([c[1]['id'] for c in lay[0][2] if c[0] == 'region'], ['Image', 'Text'], 'the layout has a region for images and one for texts')
    check_eq(body[1], {}, 'the body has no attributes')
    check_eq(len(body[2]), len(pages), 'one time container per page')
    for i in range(len(pages)):
        duration, media = pages[i]
        check_eq(body[2][i][:2], ('par', {'duration': str(duration)}), 'every page is a time container with its duration')
        check_eq(body[2][i][2], [expected(k, p, b, e, duration) for k, p, b, e in media], 'a page has exactly its media')


def fill(p, parts, i, tx, tb, te, ib, ie, ab, ae):
    """adds the media; returns them in presentation order"""
    out = []
    if parts & 1:
        p.add_image(mkfile('GIF' + tx, 'i%d.gif' % i), ib, ie)
        out.append(('image', p.image[0], ib, ie))
    if parts & 2:
        p.add_text(tx, tb, te)
        out.append(('text', p.text[0], tb, te))
    if parts & 4:
        p.add_audio(mkfile('AMR', 'a%d.amr' % i), ab, ae)
        out.append(('audio', p.audio[0], ab, ae))
    return out


T = Int(-1000, 0x7fffffff)


@harness(parts=Int(0, 7), n=Int(0, 300), tx=Str('n', allowed=PRINT), d=Int(1, 0x7fffffff), tb=T, te=T, ib=T, ie=T, ab=T, ae=T, given=Int(0, 3),
         split=['parts', 'n', 'given'], quick={'n': [0, 1, 7, 20], 'given': [0, 3]}, thorough={'n': list(range(0, 25)) + [40, 300]})
def one_page(parts, n, tx, d, tb, te, ib, ie, ab, ae, given):
    assume(rational(tb, te) and rational(ib, ie) and rational(ab, ae))
    p = MMSMessagePage()
    m = MMSMessage()
    if given & 1:
        m.add_page(p)
    media = fill(p, parts, 0, tx, tb, te, ib, ie, ab, ae)
    if given & 2:
        p.set_duration(d)
    if not given & 1:
        m.add_page(p)
    check_eq(p.number_of_parts(), len(media), 'a page counts its parts')
    check_eq([x[0] for x in p.data_parts], [x[1] for x in media if x[0] == 'image'] + [x[1] for x in media if x[0] == 'audio']
             + [x[1] for x in media if x[0] == 'text'], 'a page lists its parts')
    check_eq([(x[1], x[2]) for x in p.data_parts], [(x[2], x[3]) for x in media if x[0] == 'image'] + [(x[2], x[3]) for x in media if x[0] == 'audio']
             + [(x[2], x[3]) for x in media if x[0] == 'text'], 'a page keeps the times of its parts')
    presentation(m, [(d if given & 2 else 4000, media)])


@harness(k=Int(0, 4), order=Enum(*range(8)), d1=Int(1, 100000), d2=Int(1, 100000), d3=Int(1, 100000), d4=Int(1, 100000), b=T, e=T,
         w=Int(1, 2000), h=Int(1, 2000), tx=Str(3, allowed=PRINT), ty=Str(3, allowed=PRINT), split=['k', 'order'], thorough={})
def many_pages(k, order, d1, d2, d3, d4, b, e, w, h, tx, ty):
    assume(rational(b, e))
    m = MMSMessage()
    m.width = w
    m.height = h
    want = []
    ds = [d1, d2, d3, d4]
    for i in range(k):
        p = MMSMessagePage()
        m.add_page(p)
        parts = (order + i * 3) % 8
        # the times of one medium are not those of another
        media = fill(p, parts, i, tx if i % 2 else ty, b, e, 0, e, i, 7 + i)
        p.set_duration(ds[i])
        want.append((ds[i], media))
    presentation(m, want)
    check_eq(m.pages, [p for p in m.pages], 'the pages')


@harness(kind=Enum('image', 'audio'), loc=Int(0, 3), n=Int(1, 60), a=Str('n', allowed=PRINT), b=Str('n', allowed=PRINT), split=['kind', 'loc', 'n'],
         thorough={})
def sources(kind, loc, n, a, b):
    """media refer to their part by its location, else by its id"""
    m = MMSMessage()
    p = MMSMessagePage()
    m.add_page(p)
    d = DataPart()
    d.set_data(a, 'image/gif' if kind == 'image' else 'audio/amr')
    if loc & 1:
        d.headers['Content-Location'] = a
    if loc & 2:
        d.headers['Content-ID'] = b
    if kind == 'image':
        p.image = (d, 0, 0)
    else:
        p.audio = (d, 0, 0)
    presentation(m, [(4000, [(kind, d, 0, 0)])])


@harness(first=Int(0, 7), second=Int(0, 7), n=Int(0, 20), tx=Str('n', allowed=PRINT), ty=Str('n', allowed=PRINT), b=Int(0, 5000), e=Int(0, 5000),
         f=Int(0, 5000), g=Int(0, 5000), split=['first', 'second', 'n'], quick={'n': [0, 5]}, thorough={'n': [0, 1, 5, 9, 20]})
def replacing(first, second, n, tx, ty, b, e, f, g):
    """a medium added again replaces the one before it, the others stay"""
    assume(rational(b, e) and rational(f, g))
    m = MMSMessage()
    p = MMSMessagePage()
    m.add_page(p)
    one = fill(p, first, 0, tx, b, e, b, e, b, e)
    two = fill(p, second, 1, ty, f, g, f, g, f, g)
    out = []
    for k in ('image', 'text', 'audio'):
        out.extend(([x for x in one if x[0] == k] + [x for x in two if x[0] == k])[-1:])
    presentation(m, [(4000, out)])


def state(p):
    return (p.duration, p.image, p.audio, p.text)


@harness(kind=Enum('image', 'audio', 'text'), before=Bool(), b=T, e=T, what=Enum('time', 'missing', 'name', 'begin', 'end', 'ok'),
         bad=Enum(None, 1.5, '3', u'3', (), []), split=['kind', 'before', 'what', 'bad'], thorough={})
def refused_media(kind, before, b, e, what, bad):
    m = MMSMessage()
    p = MMSMessagePage()
    m.add_page(p)
    media = fill(p, 7 if before else 0, 0, 'abc', 1, 2, 3, 4, 5, 6)
    p.set_duration(5000)
    old = state(p)
    f = {'image': p.add_image, 'audio': p.add_audio, 'text': p.add_text}[kind]
    good = 'words' if kind == 'text' else mkfile('data', 'new.bin')
    if what == 'time':
        assume(e > 0 and e < b)
        check(raises(ValueError, f, good, b, e), 'an end before the begin is refused')
    elif what == 'missing':
        assume(kind != 'text')
        rmfile(good)
        check(raises(OSError, f, good, b, e), 'a missing file is refused')
    elif what == 'name':
        assume(bad != '3')
        check(raises(TypeError, f, bad, b, e), 'a source that is no string is refused')
    elif what == 'begin':
        check(raises(TypeError, f, good, bad, e), 'a begin that is no integer is refused')
    elif what == 'end':
        check(raises(TypeError, f, good, b, bad), 'an end that is no integer is refused')
    else:
        assume(rational(b, e))
        f(good, b, e)
        new = {'image': p.image, 'audio': p.audio, 'text': p.text}[kind]
        check_eq(new[1:], (b, e), 'the times are kept')
        check_eq(new[0].data, 'words' if kind == 'text' else 'data', 'the data are the ones added')
        return
    check_eq(state(p), old, 'a refused medium leaves the page unchanged')
    presentation(m, [(5000, media)])


@harness(d=Int(-5, 5), big=Int(-0x7fffffff, 0x7fffffff), bad=Enum(None, 1.5, '3', u'3', (), []), d0=Int(1, 100000), split=['bad'], thorough={})
def durations(d, big, bad, d0):
    m = MMSMessage()
    p = MMSMessagePage()
    m.add_page(p)
    check_eq(p.duration, 4000, 'a page lasts 4 seconds')
    p.set_duration(d0)
    check_eq(p.duration, d0, 'the duration is kept')
    check(raises(TypeError, p.set_duration, bad), 'a duration that is no integer is refused')
    check_eq(state(p), (d0, None, None, None), 'a refused duration leaves the page unchanged')
    for x in (d, big):
        if x < 1:
            check(raises(ValueError, p.set_duration, x), 'a duration that is not positive is refused')
            check_eq(state(p), (d0, None, None, None), 'a refused duration leaves the page unchanged')
            presentation(m, [(d0, [])])
    for x in (d, big):
        if x >= 1:
            p.set_duration(x)
            presentation(m, [(x, [])])


SEQUENCES = ('aba', 'aab', 'abba', 'abcabc', 'abcdefghijkl', 'lkjihgfedcba', 'ab' * 20, 'abcdefghij' * 13)


@harness(which=Int(0, len(SEQUENCES) - 1), d=Ints(12, 1, 100000), tx=Str(3, allowed=PRINT), split=['which'])
def long_presentation(which, d, tx):
    """many pages, of which some may be the same"""
    m = MMSMessage()
    pages = {}
    want = []
    for c in SEQUENCES[which]:
        if c not in pages:
            p = MMSMessagePage()
            i = ord(c) - ord('a')
            media = fill(p, i % 8, i, tx, 0, 0, 0, 0, 0, 0)
            p.set_duration(d[i])
            pages[c] = (p, (d[i], media))
        m.add_page(pages[c][0])
        want.append(pages[c][1])
    presentation(m, want)


@harness(parts=Int(0, 7), d1=Int(1, 100000), d2=Int(1, 100000), w=Int(1, 2000), b=T, e=T, f=T, g=T, what=Enum('duration', 'size', 'media', 'page', 'location', 'data'),
         tx=Str(3, allowed=PRINT), ty=Str(3, allowed=PRINT), split=['parts', 'what'])
def made_again(parts, d1, d2, w, b, e, f, g, what, tx, ty):
    """the presentation is that of the message as it is when it is made"""
    assume(rational(b, e) and rational(f, g))
    m = MMSMessage()
    p = MMSMessagePage()
    m.add_page(p)
    media = fill(p, parts, 0, tx, b, e, b, e, b, e)
    p.set_duration(d1)
    want = [(d1, media)]
    presentation(m, want)
    if what == 'duration':
        p.set_duration(d2)
        want = [(d2, media)]
    elif what == 'size':
        m.width = w
    elif what == 'media':
        two = fill(p, 7, 1, ty, f, g, f, g, f, g)
        want = [(d1, two)]
    elif what == 'page':
        q = MMSMessagePage()
        m.add_page(q)
        want.append((4000, []))
    elif what == 'location':
        assume(parts & 1)
        p.image[0].headers['Content-Location'] = ty
    else:
        assume(parts & 2)
        p.text[0].set_text(ty)
    presentation(m, want)
