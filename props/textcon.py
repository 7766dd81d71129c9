# Loop contracts of the WSP readers.  A reader in front of text s of the octets src has, after i
# characters, read s[:i] and stands behind the octet after it; a copying loop has, after i octets,
# collected the i octets after its start.
from vp import *
from array import array
READERS = (('decode_text_string', 'decoded_string'), ('decode_token_text', 'token'), ('decode_extension_media', 'media_value'))


def ahead(it):
    """position of a preview iterator"""
    return pos_of(it._it) - len(it._cached_values)


def state(name, src, far, p, i):
    """attributes of the preview iterator i octets behind p, the octets up to far having been looked at"""
    q = p + i
    seen = []
    if not known(far <= p):
        if q < far:
            return {name + '._it': iter_at(src, far), name + '._cached_values': octets(src[q:far]), name + '._preview_pos': 0}
    return {name + '._it': iter_at(src, q), name + '._cached_values': [], name + '._preview_pos': 0}


def reader(segs, var):
    def entry(it):
        at = ahead(it)
        n = len(src_of(it._it))
        for src, p, s in segs:
            if known(at == p + 1) and known(n == len(src)):
                return src, p, s, pos_of(it._it)
        needs(False, 'a text is read from its start')

    def inv(e, i):
        src, p, s, far = e
        d = state('byte_iter', src, far, p + 1, i)
        d[var] = s[:i]
        d['byte'] = src[p + i]
        return d

    return dict(inv=inv, entry=('byte_iter', entry), upto=lambda e: len(e[2]))


def texts_at(*segs):
    """segs: (octets, position of the first one, text) of the texts"""
    for f, var in READERS:
        loop('messaging.mms.wsp_pdu.Decoder.' + f, **reader(segs, var))


def copies(qual, k, name, var, mk, n, only=None):
    """the k-th loop of qual appends n octets of the stream `name` to `var`"""
    def entry(it):
        return src_of(it._it), ahead(it), pos_of(it._it)

    def inv(e, i):
        src, p, far = e
        d = state(name, src, far, p, i)
        d[var] = mk(src[p:p + i])
        return d

    loop(qual, inv, k, entry=(name, entry), upto=n, only=only)


def octet_array(l):
    return array('B', l)


def octet_list(l):
    return octets(l)


# ------------------------------------------------------------------ any octets
# Contracts for streams nothing is known about: a reader is somewhere in the octets, a loop over
# items has moved on by at least one octet per item.
def any_texts():
    for f, var in READERS:
        any_text('messaging.mms.wsp_pdu.Decoder.' + f, var)


def any_text(qual, var):
    def entry(it):
        return src_of(it._it), ahead(it) - 1, pos_of(it._it)

    def inv(e, i):
        src, p, far = e
        d = state('byte_iter', src, far, p + 1, i)
        d[var] = text(src[p:p + i])
        d['byte'] = src[p + i]
        return d

    loop(qual, inv, entry=('byte_iter', entry), upto=lambda e: len(e[0]) - e[1] - 1)


def any_numbers():
    def entry(it):
        return src_of(it._it), ahead(it) - 1, pos_of(it._it)

    def inv(e, i, value):
        src, p, far = e
        d = state('byte_iter', src, far, p + 1, i)
        d['byte'] = src[p + i]
        return d

    loop('messaging.mms.wsp_pdu.Decoder.decode_uint_var', inv, entry=('byte_iter', entry), upto=lambda e: len(e[0]) - e[1] - 1,
         free=['uint'], cond=lambda e, i, v: v >= 0)

    def entry2(it):
        return src_of(it._it), ahead(it), pos_of(it._it)

    def inv2(e, i, value):
        src, p, far = e
        return state('byte_iter', src, far, p, i)

    loop('messaging.mms.wsp_pdu.Decoder.decode_long_integer', inv2, entry=('byte_iter', entry2), upto=lambda e: len(e[0]) - e[1],
         free=['longInt'], cond=lambda e, i, v: v >= 0)


def any_copies(qual, k, name, var, mk, only=None):
    copies(qual, k, name, var, mk, lambda e: len(e[0]) - e[1], only)


def any_items(qual, k, name, rest, free=[], cond=lambda *l: True):
    """a loop whose every round reads at least one octet; rest(free variables): the other variables"""
    def entry(it):
        return src_of(it._it), ahead(it)

    def inv(e, i, far, c, *more):
        d = {name + '._it': iter_at(e[0], far), name + '._cached_values': octets(e[0][far - c:far]), name + '._preview_pos': 0}
        d.update(rest(*more))
        return d

    def ok(e, i, far, c, *more):
        return allof([e[1] + i <= far - c, far <= len(e[0]), 0 <= c, c <= 1, cond(*more)])

    loop(qual, inv, k, entry=(name, entry), upto=lambda e: len(e[0]) - e[1], free=[name + '._it', name + '._cached_values'] + free, cond=ok)


def left(it, d):
    """the octets a preview iterator over d has not given"""
    if SYMBOLIC:
        if src_of(it._it) is None:
            return it._cached_values
        return d[ahead(it):]
    return list(it)


def by_contract(value, fails, least=1):
    """a decoder by its contract (proved in M10): it gives a value and has moved on at least least octets, or raises one
    of the exceptions and stands anywhere ahead"""
    def f(byte_iter):
        src = src_of(byte_iter._it)
        if src is None:
            raise StopIteration
        at = ahead(byte_iter)
        far = someint(0)
        c = someint(0)
        assume(c <= 1)
        assume(at <= far - c)
        assume(far <= len(src))
        move(byte_iter._it, far)
        byte_iter._cached_values[:] = octets(src[far - c:far])
        byte_iter._preview_pos = 0
        r = someint(0)
        if r == 0:
            assume(at + least <= far - c)
            return value()
        for i in range(len(fails)):
            if r == i + 1:
                raise fails[i]
        raise StopIteration
    return staticmethod(f)


def any_octets():
    any_texts()
    any_numbers()
    any_copies('messaging.mms.wsp_pdu.Decoder.decode_content_general_form', 0, 'byte_iter', 'ct_field_bytes', octet_array)
    any_items('messaging.mms.wsp_pdu.Decoder.decode_content_general_form', 1, 'ct_iter', lambda: {'parameters': anydict()})


# ------------------------------------------------------------------ texts among known octets
SEPS = (11, 32, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64, 91, 92, 93, 123, 125)


def ends_text(x):
    return x == 0


def ends_token(x):
    return anyof([x <= 31] + [x == y for y in SEPS])


def texts_here():
    """a text of known octets reads up to its terminator, wherever it is"""
    for f, var in READERS:
        text_here('messaging.mms.wsp_pdu.Decoder.' + f, var, ends_token if f == 'decode_token_text' else ends_text)


def text_here(qual, var, stop):
    def entry(it):
        src = src_of(it._it)
        p = ahead(it) - 1
        return src, p, pos_of(it._it), run_to(src, p, stop)

    def inv(e, i):
        src, p, far, n = e
        d = state('byte_iter', src, far, p + 1, i)
        d[var] = text(src[p:p + i])
        d['byte'] = src[p + i]
        return d

    loop(qual, inv, entry=('byte_iter', entry), upto=lambda e: e[3], only='symbolic')


def all_copies():
    """the copying loops of the message decoder"""
    any_copies('messaging.mms.wsp_pdu.Decoder.decode_content_general_form', 0, 'byte_iter', 'ct_field_bytes', octet_array, 'symbolic')
    any_copies('messaging.mms.mms_pdu.MMSDecoder.decode_message_body', 1, 'data_iter', 'ct_field_bytes', octet_list, 'symbolic')
    any_copies('messaging.mms.mms_pdu.MMSDecoder.decode_message_body', 3, 'data_iter', 'data', octet_array, 'symbolic')
    # and of its encoder
    loop('messaging.mms.mms_pdu.MMSEncoder.encode_message_body', lambda e, i: {'message_body': octet_array(e[0] + e[1][:i])}, 6,
         entry=(('message_body', 'part'), lambda v: (octets(v[0]), octets(v[1].data))), only='symbolic')
