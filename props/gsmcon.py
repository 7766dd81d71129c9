# The GSM codec by its contract (proved in S01 and S02 for texts of any length): decoding works token by
# token (a septet, or an escape and the septet after it) and undoes encoding.
from vp import *
import gsm
import messaging.sms.gsm0338


def coded(s):
    """(text, its septets): symbolically, an arbitrary text whose encoding is s, known to the code under
    test only through the codec's contract; at run time the text of s (escapes repaired)"""
    if SYMBOLIC:
        g = octets(s)
        n = len(g)
        assume(n == 0 or g[n - 1] != 27)        # an escape is followed by its septet
        t = chars(0, n)
        pos = [0]

        def enc(text, errors='strict'):
            needs(text == t, 'only the text itself is encoded')
            pos[0] = 0
            return s, n

        def dec(octs, errors='strict'):
            a = pos[0] if pos[0] < n else 0
            b = a + len(octs)
            needs(b <= n and octs == s[a:b], 'the septets of the text are decoded in order')
            needs(a == 0 or g[a - 1] != 27, 'no escape pair is cut')
            pos[0] = b
            r = chars(a, b)
            return r, len(r)

        override(messaging.sms.gsm0338, 'encode', enc)
        override(messaging.sms.gsm0338, 'decode', dec)
        return t, g
    return _repaired(s)


def heard(g):
    """the text of arbitrary septets: symbolically known only through the contract of strict decoding
    (total on septets; proved in S02 for any length)"""
    if SYMBOLIC:
        n = len(g)
        t = chars(0, n)

        def dec(octs, errors='strict'):
            needs(errors == 'strict', 'strict decoding')
            needs(octets(octs) == g, 'exactly the septets of the text are decoded')
            return t, n

        override(messaging.sms.gsm0338, 'decode', dec)
        return t
    return gsm.dec(g, 'strict')


def _repaired(s):
    out = []
    esc = False
    for o in octets(s):
        if esc and o not in gsm.EXT:
            o = 0x0a
        esc = o == 27 and not esc
        out.append(o)
    if esc:
        out[-1] = 0x41
    return gsm.dec(out, 'strict'), out
