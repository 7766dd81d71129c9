from vp import *
from delspec import *
from array import array
from messaging.sms import SmsDeliver
from messaging.sms.udh import UserDataHeader

KINDS = ('c8', 'c16', 'p8', 'p16', 'x0', 'x1', 'x3', 'none')
IEI = {'c8': 0, 'c16': 8, 'p8': 4, 'p16': 5}
LEN = {'c8': 3, 'c16': 4, 'p8': 2, 'p16': 4, 'x0': 0, 'x1': 1, 'x3': 3}
OTHER = [(1, 3), (6, 7), (9, 255)]


def build(kinds, iei, data):
    """octets and elements in order"""
    b = []
    els = []
    for i in range(len(kinds)):
        k = kinds[i]
        if k == 'none':
            continue
        d = data[4 * i:4 * i + LEN[k]]
        e = IEI.get(k, iei[i])
        b = b + [e, LEN[k]] + d
        els.append((k, e, d))
    return b, els


def verify(udh, els):
    concat = ports = None
    hdr = {}
    for k, e, d in els:
        hdr[e] = d
        if k == 'c8':
            concat = (d[0], d[1], d[2], True)
        elif k == 'c16':
            concat = (d[0] * 256 + d[1], d[2], d[3], False)
        elif k == 'p8':
            ports = (d[0], d[1], True)
        elif k == 'p16':
            ports = (d[0] * 256 + d[1], d[2] * 256 + d[3], False)
    check_eq(len(udh.headers), len(hdr), 'exactly the elements present are exposed')
    for e in hdr:
        check(e in udh.headers, 'element recorded under its identifier')
        check_eq(octets(udh.headers[e]), hdr[e], 'data of the last element with the identifier')
    if concat is None:
        check(udh.concat is None, 'no concatenation element, no concatenation attribute')
    else:
        c = udh.concat
        check(c is not None, 'concatenation element exposed')
        check_eq((c.ref, c.cnt, c.seq), concat[:3], 'concatenation reference, count and sequence')
        check(c.eight_bits == concat[3], 'width of the concatenation reference')
    if ports is None:
        check(udh.ports is None, 'no port element, no port attribute')
    else:
        p = udh.ports
        check(p is not None, 'port element exposed')
        check_eq((p.dest_port, p.orig_port), ports[:2], 'destination and origin port')
        check(p.eight_bits == ports[2], 'width of the port addresses')


@harness(k1=Enum(*KINDS), k2=Enum(*KINDS), k3=Enum(*KINDS), iei=Ints(3, allowed=OTHER), data=Ints(12), split=['k1', 'k2', 'k3'],
         bounded='up to 3 elements')
def from_bytes(k1, k2, k3, iei, data):
    b, els = build((k1, k2, k3), iei, data)
    verify(UserDataHeader.from_bytes(array('B', b)), els)


@harness(k1=Enum(*KINDS), k2=Enum(*KINDS), k3=Enum('c8', 'c16', 'x1'), k4=Enum('c8', 'p16', 'x3'), k5=Enum('c16', 'p8', 'x0'), iei=Ints(5, allowed=OTHER), data=Ints(20),
         split=['k1', 'k2', 'k3', 'k4', 'k5'], bounded='5 elements')
def five_elements(k1, k2, k3, k4, k5, iei, data):
    b, els = build((k1, k2, k3, k4, k5), iei, data)
    verify(UserDataHeader.from_bytes(array('B', b)), els)


@harness(n=Int(0, 130), e=Ints(1, allowed=OTHER), d=Ints('n'), split=['n'], quick={'n': list(range(0, 20)) + [60, 100, 127, 128, 129, 130]}, thorough={})
def long_element(n, e, d):
    udh = UserDataHeader.from_bytes(array('B', [e[0], n] + d + [0, 3, 1, 2, 3]))
    check_eq(octets(udh.headers[e[0]]), d, 'data of an unknown element of any length')
    check_eq((udh.concat.ref, udh.concat.cnt, udh.concat.seq), (1, 2, 3), 'element after an unknown element')
    check(udh.ports is None, 'no port element, no port attribute')


@harness(k1=Enum(*KINDS), k2=Enum(*KINDS), iei=Ints(2, allowed=OTHER), data=Ints(8), fmt=Enum(0, 4, 8), split=['k1', 'k2', 'fmt'], bounded='up to 2 elements')
def through_deliver(k1, k2, iei, data, fmt):
    b, els = build((k1, k2), iei, data)
    n = len(b) + 1
    if fmt == 0:
        n = (8 * n + 6) // 7
    sms = SmsDeliver(hx(deliver([n, len(b)] + b, dcs=fmt, first=0x44)))
    verify(sms.udh, els)
    d = sms.data
    if sms.udh.concat is not None:
        check_eq((d['ref'], d['cnt'], d['seq']), (sms.udh.concat.ref, sms.udh.concat.cnt, sms.udh.concat.seq), 'concatenation in the data dictionary')
    else:
        check('ref' not in d and 'cnt' not in d and 'seq' not in d, 'no concatenation in the data dictionary')


@harness(ref=Int(0, 255))
def status_report_reference(ref):
    udh = UserDataHeader.from_status_report_ref(ref)
    check_eq((udh.concat.ref, udh.concat.cnt, udh.concat.seq), (ref, 0, 0), 'reference of a status report')
    check(udh.ports is None, 'no port element, no port attribute')


@harness(k=Int(0, 42), j=Int(0, 42), data=Ints('k'), kind=Enum('c8', 'c16', 'p8', 'p16'), d=Ints(4), split=['k', 'j', 'kind'],
         quick={'k': list(range(0, 14)) + [41], 'j': [0, 1, 5]}, thorough={'k': range(0, 43), 'j': [0, 1, 2, 5, 8]}, bounded='one known element among up to 42 unknown ones of one or no octet')
def many_elements(k, j, data, kind, d):
    iei = [16 + 7 * i % 200 for i in range(k)]
    b = []
    els = []
    for i in range(k):
        b = b + [iei[i], 1, data[i]]
        els.append(('x1', iei[i], [data[i]]))
    b = b + [IEI[kind], LEN[kind]] + d[:LEN[kind]]
    els.append((kind, IEI[kind], d[:LEN[kind]]))
    for i in range(j):
        b = b + [(222, 1, 255, 7, 9)[i % 5], 0]
    udh = UserDataHeader.from_bytes(array('B', b))
    if j == 0:
        verify(udh, els)
    elif kind[0] == 'c':
        c = udh.concat
        e = (d[0], d[1], d[2], True) if kind == 'c8' else (d[0] * 256 + d[1], d[2], d[3], False)
        check_eq((c.ref, c.cnt, c.seq, c.eight_bits), e, 'concatenation among unknown elements')
    else:
        p = udh.ports
        e = (d[0], d[1], True) if kind == 'p8' else (d[0] * 256 + d[1], d[2] * 256 + d[3], False)
        check_eq((p.dest_port, p.orig_port, p.eight_bits), e, 'ports among unknown elements')


@harness(k1=Enum(*KINDS), k2=Enum(*KINDS), j1=Enum(*KINDS), j2=Enum(*KINDS), iei=Ints(2, allowed=OTHER), data=Ints(8), data2=Ints(8), how=Enum('bytes', 'deliver'), split=['k1', 'k2', 'j1', 'j2', 'how'],
         quick={'j1': ['c8', 'p16', 'none'], 'j2': ['c16', 'x1', 'none']}, thorough={}, bounded='two headers of up to 2 elements')
def own_elements(k1, k2, j1, j2, iei, data, data2, how):
    """two headers: nothing of one is in the other, and changing one leaves the other"""
    b, els = build((k1, k2), iei, data)
    c, els2 = build((j1, j2), iei, data2)
    first = header(b, how)
    second = header(b, how)
    other = header(c, how)
    verify(first, els)
    first.headers[77] = 'x'
    if first.concat is not None:
        first.concat.cnt = 300
        first.concat.ref = 70000
    if first.ports is not None:
        first.ports.dest_port = 70000
    first.concat = None
    first.ports = None
    verify(second, els)
    verify(other, els2)
    verify(header(b, how), els)


def header(b, how):
    if how == 'bytes':
        return UserDataHeader.from_bytes(array('B', b))
    return SmsDeliver(hx(deliver([len(b) + 1, len(b)] + b, dcs=4, first=0x44))).udh
