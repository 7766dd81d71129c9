# GSM 03.40 septet layout on octet lists


def bit(bs, k):
    return (bs[k // 8] >> (k % 8)) & 1


def septet_at(bs, i):
    """the septet at bits 7i..7i+6"""
    v = 0
    for b in range(7):
        v += bit(bs, 7 * i + b) << b
    return v


def pack(septs):
    """octets of a septet list, spare bits zero"""
    n = len(septs)
    out = []
    for o in range((7 * n + 7) // 8):
        v = 0
        for b in range(8):
            k = 8 * o + b
            if k // 7 < n:
                v += ((septs[k // 7] >> (k % 7)) & 1) << b
        out.append(v)
    return out


def unhex(h):
    return [int(h[i:i + 2], 16) for i in range(0, len(h), 2)]


def hx(bs):
    return ''.join(['%02x' % b for b in bs])
