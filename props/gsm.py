# -*- coding: utf-8 -*-
# GSM 03.38 alphabet, transcribed from the standard (independent of the code under test).
ROWS = [
    u'@\xa3$\xa5\xe8\xe9\xf9\xec\xf2\xc7\n\xd8\xf8\r\xc5\xe5',
    u'\u0394_\u03a6\u0393\u039b\u03a9\u03a0\u03a8\u03a3\u0398\u039e\u0000\xc6\xe6\xdf\xc9',
    u' !"#\xa4%&\'()*+,-./',
    u'0123456789:;<=>?',
    u'\xa1ABCDEFGHIJKLMNO',
    u'PQRSTUVWXYZ\xc4\xd6\xd1\xdc\xa7',
    u'\xbfabcdefghijklmno',
    u'pqrstuvwxyz\xe4\xf6\xf1\xfc\xe0']
BASIC = u''.join(ROWS)                  # index = septet; 0x1b is the escape, not a character
EXT = {0x0a: u'\x0c', 0x14: u'^', 0x28: u'{', 0x29: u'}', 0x2f: u'\\', 0x3c: u'[', 0x3d: u'~', 0x3e: u']',
       0x40: u'|', 0x65: u'\u20ac'}
ENC1 = {}
for _i in range(128):
    if _i != 0x1b:
        ENC1[BASIC[_i]] = _i
ENC2 = {}
for _i in EXT:
    ENC2[EXT[_i]] = _i
LOOKALIKE = {u'\xe7': 0x09, u'\u0391': 0x41, u'\u0392': 0x42, u'\u0395': 0x45, u'\u0397': 0x48, u'\u0399': 0x49,
             u'\u039a': 0x4b, u'\u039c': 0x4d, u'\u039d': 0x4e, u'\u039f': 0x4f, u'\u03a1': 0x50, u'\u03a4': 0x54,
             u'\u03a7': 0x58, u'\u03a5': 0x59, u'\u0396': 0x5a}
CODES = sorted([ord(c) for c in ENC1])              # code points of the basic alphabet
ALL = sorted([ord(c) for c in ENC1] + [ord(c) for c in ENC2])
DEC1 = {}
for _i in range(128):
    if _i != 0x1b:
        DEC1[_i] = BASIC[_i]


def ranges(codes):
    out = []
    for c in codes:
        if out and out[-1][1] == c - 1:
            out[-1] = (out[-1][0], c)
        else:
            out.append((c, c))
    return out


R_BASIC = ranges(CODES)
R_ALL = ranges(ALL)
R_SEPT = [(0, 0x1a), (0x1c, 0x7f)]                  # septets that are not the escape
R_EXT = ranges(sorted(EXT.keys()))


def enc(text):
    """septets of a text, None when a character is not in the alphabet"""
    out = []
    for c in text:
        if c in ENC1:
            out.append(ENC1[c])
        elif c in ENC2:
            out.append(0x1b)
            out.append(ENC2[c])
        else:
            return None
    return out


def enc_lossy(text, replace):
    out = []
    for c in text:
        if c in ENC1:
            out.append(ENC1[c])
        elif c in ENC2:
            out.append(0x1b)
            out.append(ENC2[c])
        elif replace:
            out.append(LOOKALIKE.get(c, 0x3f))
    return out


def dec(octs, errors):
    """characters of a list of octets, None when strict decoding must refuse"""
    out = []
    esc = False
    for o in octs:
        if esc:
            out.append(EXT.get(o, u'\xa0'))
            esc = False
        elif o == 0x1b:
            esc = True
        elif o in DEC1:
            out.append(DEC1[o])
        elif errors == 'strict':
            return None
        elif errors == 'replace':
            out.append(u'?')
    if esc:
        out.append(u'\xa0')
    return u''.join(out)
