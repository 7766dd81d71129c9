# reference encodings of WAP-230 (WSP) and WAP-209 (MMS), written from the specifications


def uintvar(digits):
    # base-128 digits, most significant first
    k = len(digits)
    return [(0x80 | digits[i]) if i < k - 1 else digits[i] for i in range(k)]


def from_digits(digits, base):
    n = 0
    for d in digits:
        n = n * base + d
    return n


def uv(n):
    # uintvar of a concrete number
    out = [n & 0x7f]
    n >>= 7
    while n:
        out = [0x80 | (n & 0x7f)] + out
        n >>= 7
    return out


def value_length(n):
    if n <= 30:
        return [n]
    return [31] + uv(n)


def tstr(codes):
    return list(codes) + [0]


def codes(s):
    return [ord(c) for c in s]


SEPARATORS = [11, 32, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64, 91, 92, 93, 123, 125]
# octets of a token, and the octets a text may hold and may start with
R_TOKEN = [(33, 39), (42, 43), (45, 46), (48, 57), (65, 90), (94, 122), (124, 124), (126, 255)]
R_TOKEN7 = [(33, 39), (42, 43), (45, 46), (48, 57), (65, 90), (94, 122), (124, 124), (126, 126)]

# WAP-209, table 8
MMS_CODE = {'Bcc': 0x01, 'Cc': 0x02, 'Content-Location': 0x03, 'Content-Type': 0x04, 'Date': 0x05, 'Delivery-Report': 0x06,
            'Delivery-Time': 0x07, 'Expiry': 0x08, 'From': 0x09, 'Message-Class': 0x0a, 'Message-ID': 0x0b, 'Message-Type': 0x0c,
            'MMS-Version': 0x0d, 'Message-Size': 0x0e, 'Priority': 0x0f, 'Read-Reply': 0x10, 'Report-Allowed': 0x11,
            'Response-Status': 0x12, 'Response-Text': 0x13, 'Sender-Visibility': 0x14, 'Status': 0x15, 'Subject': 0x16,
            'To': 0x17, 'Transaction-Id': 0x18}
TYPES = ['m-send-req', 'm-send-conf', 'm-notification-ind', 'm-notifyresp-ind', 'm-retrieve-conf', 'm-acknowledge-ind', 'm-delivery-ind']
STATUS = ['Expired', 'Retrieved', 'Rejected', 'Deferred', 'Unrecognised']
RESPONSE = ['Ok', 'Error-unspecified', 'Error-service-denied', 'Error-message-format-corrupt', 'Error-sending-address-unresolved',
            'Error-message-not-found', 'Error-network-problem', 'Error-content-not-accepted', 'Error-unsupported-message']
PRIORITY = ['Low', 'Normal', 'High']
CLASSES = ['Personal', 'Advertisement', 'Informational', 'Auto']

# WAP-230, table 40
MEDIA = [
    '*/*', 'text/*', 'text/html', 'text/plain', 'text/x-hdml', 'text/x-ttml', 'text/x-vCalendar', 'text/x-vCard', 'text/vnd.wap.wml',
    'text/vnd.wap.wmlscript', 'text/vnd.wap.wta-event', 'multipart/*', 'multipart/mixed', 'multipart/form-data', 'multipart/byterantes',
    'multipart/alternative', 'application/*', 'application/java-vm', 'application/x-www-form-urlencoded', 'application/x-hdmlc',
    'application/vnd.wap.wmlc', 'application/vnd.wap.wmlscriptc', 'application/vnd.wap.wta-eventc', 'application/vnd.wap.uaprof',
    'application/vnd.wap.wtls-ca-certificate', 'application/vnd.wap.wtls-user-certificate', 'application/x-x509-ca-cert',
    'application/x-x509-user-cert', 'image/*', 'image/gif', 'image/jpeg', 'image/tiff', 'image/png', 'image/vnd.wap.wbmp',
    'application/vnd.wap.multipart.*', 'application/vnd.wap.multipart.mixed', 'application/vnd.wap.multipart.form-data',
    'application/vnd.wap.multipart.byteranges', 'application/vnd.wap.multipart.alternative', 'application/xml', 'text/xml',
    'application/vnd.wap.wbxml', 'application/x-x968-cross-cert', 'application/x-x968-ca-cert', 'application/x-x968-user-cert',
    'text/vnd.wap.si', 'application/vnd.wap.sic', 'text/vnd.wap.sl', 'application/vnd.wap.slc', 'text/vnd.wap.co',
    'application/vnd.wap.coc', 'application/vnd.wap.multipart.related', 'application/vnd.wap.sia', 'text/vnd.wap.connectivity-xml',
    'application/vnd.wap.connectivity-wbxml', 'application/pkcs7-mime', 'application/vnd.wap.hashed-certificate',
    'application/vnd.wap.signed-certificate', 'application/vnd.wap.cert-response', 'application/xhtml+xml', 'application/wml+xml',
    'text/css', 'application/vnd.wap.mms-message', 'application/vnd.wap.rollover-certificate', 'application/vnd.wap.locc+wbxml',
    'application/vnd.wap.loc+xml', 'application/vnd.syncml.dm+wbxml', 'application/vnd.syncml.dm+xml',
    'application/vnd.syncml.notification', 'application/vnd.wap.xhtml+xml', 'application/vnd.wv.csp.cir', 'application/vnd.oma.dd+xml',
    'application/vnd.oma.drm.message', 'application/vnd.oma.drm.content', 'application/vnd.oma.drm.rights+xml',
    'application/vnd.oma.drm.rights+wbxml']

# WAP-230, table 39
FIELDS = [
    'Accept', 'Accept-Charset', 'Accept-Encoding', 'Accept-Language', 'Accept-Ranges', 'Age', 'Allow', 'Authorization', 'Cache-Control',
    'Connection', 'Content-Base', 'Content-Encoding', 'Content-Language', 'Content-Length', 'Content-Location', 'Content-MD5',
    'Content-Range', 'Content-Type', 'Date', 'Etag', 'Expires', 'From', 'Host', 'If-Modified-Since', 'If-Match', 'If-None-Match',
    'If-Range', 'If-Unmodified-Since', 'Location', 'Last-Modified', 'Max-Forwards', 'Pragma', 'Proxy-Authenticate',
    'Proxy-Authorization', 'Public', 'Range', 'Referer', 'Retry-After', 'Server', 'Transfer-Encoding', 'Upgrade', 'User-Agent', 'Vary',
    'Via', 'Warning', 'WWW-Authenticate', 'Content-Disposition',
    'X-Wap-Application-Id', 'X-Wap-Content-URI', 'X-Wap-Initiator-URI', 'Accept-Application', 'Bearer-Indication', 'Push-Flag',
    'Profile', 'Profile-Diff', 'Profile-Warning',
    'Expect', 'TE', 'Trailer', 'Accept-Charset', 'Accept-Encoding', 'Cache-Control', 'Content-Range', 'X-Wap-Tod', 'Content-ID',
    'Set-Cookie', 'Cookie', 'Encoding-Version',
    'Profile-Warning', 'Content-Disposition', 'X-WAP-Security', 'Cache-Control']
FIELD_COUNT = {'1.1': 0x2f, '1.2': 0x38, '1.3': 0x44, '1.4': 0x48}

# WAP-230, table 38: number -> (name, version)
PARAMS = {0: ('Q', 1), 1: ('Charset', 1), 2: ('Level', 1), 3: ('Type', 1), 5: ('Name', 1), 6: ('Filename', 1), 7: ('Differences', 1),
          8: ('Padding', 1), 9: ('Type', 2), 0xa: ('Start', 2), 0xb: ('Start-info', 2), 0xc: ('Comment', 3), 0xd: ('Domain', 3),
          0xe: ('Max-Age', 3), 0xf: ('Path', 3), 0x10: ('Secure', 3), 0x11: ('SEC', 4), 0x12: ('MAC', 4), 0x13: ('Creation-date', 4),
          0x14: ('Modification-date', 4), 0x15: ('Read-date', 4), 0x16: ('Size', 4), 0x17: ('Name', 4), 0x18: ('Filename', 4),
          0x19: ('Start', 4), 0x1a: ('Start-info', 4), 0x1b: ('Comment', 4), 0x1c: ('Domain', 4), 0x1d: ('Path', 4)}
