From d213d63dc8ef37700b2b11f945843c1633e44eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 01/29] fix: mark 8-bit application port addresses as eight
 bits

---
 messaging/sms/udh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/sms/udh.py b/messaging/sms/udh.py
index eecfa23..fb9f71a 100644
--- a/messaging/sms/udh.py
+++ b/messaging/sms/udh.py
@@ -68,7 +68,7 @@ class UserDataHeader(object):
             elif iei == 0x04:
                 # process App port addressing 8bit
                 dest_port, orig_port = ie_data
-                udh.ports = PortAddress(dest_port, orig_port, False)
+                udh.ports = PortAddress(dest_port, orig_port, True)
 
             elif iei == 0x05:
                 # process App port addressing 16bit
-- 
2.43.0


From 88e44804befd7d41f6a881c075c2348fa5b9ea7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 02/29] fix: include the user data header in 8-bit user data

---
 messaging/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/utils.py b/messaging/utils.py
index 1456d79..9f9ea5d 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -150,7 +150,7 @@ def pack_8bits_to_8bit(message, udh=None):
         text = udh + text
 
     mlen = len(text)
-    message = chr(mlen) + message
+    message = chr(mlen) + text
     return encode_str(message)
 
 
-- 
2.43.0


From 816bc468d52c78b5ee29d117ce64b793934bc30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 03/29] fix: use an octet user data header for 8-bit multipart
 messages

---
 messaging/sms/submit.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index e426f13..aa05fc6 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -270,19 +270,16 @@ class SmsSubmit(SmsBase):
     def _split_sms_message(self, text):
         if self.fmt == 0x00:
             len_without_udh = consts.SEVENBIT_MP_SIZE
-            limit = consts.SEVENBIT_SIZE
             packing_func = pack_8bits_to_7bits
             total_len = len(self.text_gsm)
 
         elif self.fmt == 0x04:
             len_without_udh = consts.EIGHTBIT_MP_SIZE
-            limit = consts.EIGHTBIT_SIZE
             packing_func = pack_8bits_to_8bit
             total_len = len(self.text)
 
         elif self.fmt == 0x08:
             len_without_udh = consts.UCS2_MP_SIZE
-            limit = consts.UCS2_SIZE
             packing_func = pack_8bits_to_ucs2
             total_len = len(self.text)
 
@@ -309,10 +306,11 @@ class SmsSubmit(SmsBase):
         for i, msg in enumerate(msgs):
             i += 1
             total_parts = len(msgs)
-            if limit == consts.SEVENBIT_SIZE:
+            if self.fmt in (0x00, 0x04):
                 udh = (chr(udh_len) + chr(mid) + chr(data_len) +
                        chr(sms_ref) + chr(total_parts) + chr(i))
-                padding = " "
+                # septet that holds the fill bits
+                padding = " " if self.fmt == 0x00 else ""
             else:
                 udh = (unichr(int("%04x" % ((udh_len << 8) | mid), 16)) +
                        unichr(int("%04x" % ((data_len << 8) | sms_ref), 16)) +
-- 
2.43.0


From c01a766f3ec0cf450887dfcbd6d3d021546dc483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 04/29] fix: only GSM text has escape pairs to keep together

---
 messaging/sms/submit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index aa05fc6..f514b68 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -287,7 +287,7 @@ class SmsSubmit(SmsBase):
         pi, pe = 0, len_without_udh
 
         while pi < total_len:
-            if text[pi:pe][-1] == '\x1b':
+            if self.fmt == 0x00 and text[pi:pe][-1] == '\x1b':
                 pe -= 1
 
             msgs.append(text[pi:pe])
-- 
2.43.0


From aadc619730eee15a8da2a5aa42877cba7584c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 05/29] fix: read a negative timezone as that offset west of
 UTC

---
 messaging/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/messaging/utils.py b/messaging/utils.py
index 9f9ea5d..15066b9 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -30,7 +30,7 @@ class FixedOffset(tzinfo):
         if sign == 1:
             td = timedelta(minutes=minutes)
         elif sign == -1:
-            td = timedelta(days=-1, minutes=minutes)
+            td = timedelta(minutes=-minutes)
 
         return cls(td, name)
 
@@ -256,7 +256,8 @@ def datetime_to_absolute_validity(d, tzname='Unknown'):
     # compute offset
     offset = FixedOffset.from_timezone(n[-1], tzname).offset
     # one unit is 15 minutes
-    s = "%02d" % int(floor(offset.seconds / (60 * 15)))
+    seconds = abs(offset.days * 86400 + offset.seconds)
+    s = "%02d" % int(floor(seconds / (60 * 15)))
 
     if offset.days < 0:
         # set MSB to 1
-- 
2.43.0


From a811de09e61f8a55ec0e975eb86bba007076fc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 06/29] fix: do not decode the fill bits of an alphanumeric
 sender

---
 messaging/sms/deliver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 5a9ba6b..f5c4c52 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -99,6 +99,8 @@ class SmsDeliver(SmsBase):
             raise ValueError("Cannot decode a SmsSubmitReport message yet")
 
         sndlen = data.pop(0)
+        # septets that fit in the useful semi-octets of the address
+        septets = sndlen * 4 // 7
         if sndlen % 2:
             sndlen += 1
         sndlen = int(sndlen / 2.0)
@@ -106,7 +108,7 @@ class SmsDeliver(SmsBase):
         sndtype = (data.pop(0) >> 4) & 0x07
         if sndtype == consts.ALPHANUMERIC:
             # coded according to 3GPP TS 23.038 [9] GSM 7-bit default alphabet
-            sender = unpack_msg2(data[:sndlen]).decode("gsm0338")
+            sender = unpack_msg2(data[:sndlen])[:septets].decode("gsm0338")
         else:
             # Extract phone number of sender
             sender = swap_number(encode_bytes(data[:sndlen]))
-- 
2.43.0


From e21343dce0ad8832d7378448929dedb89b03e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 07/29] fix: honour TP-UDL in 8-bit and UCS2 messages

---
 messaging/sms/deliver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index f5c4c52..8ff78ac 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -159,6 +159,10 @@ class SmsDeliver(SmsBase):
         # Now get message body
         msgl = data.pop(0)
         msg = encode_bytes(data[:msgl])
+        if self.fmt != 0x00:
+            # TP-UDL counts octets
+            data = data[:msgl]
+
         # check for header
         headlen = ud_len = 0
 
-- 
2.43.0


From 8e61c406a233326262bd912b1a6a749211ae1de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 08/29] fix: do not modify the headers of a message when
 encoding it

---
 messaging/mms/mms_pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index ed44c46..504991a 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -627,7 +627,8 @@ class MMSEncoder(wsp_pdu.Encoder):
         # Create an array of 8-bit values
         message_header = array.array('B')
 
-        headers_to_encode = self._mms_message.headers
+        # work on a copy, encoding must not modify the message
+        headers_to_encode = self._mms_message.headers.copy()
 
         # If the user added any of these to the message manually
         # (X- prefix) use those instead
-- 
2.43.0


From c512c45ad11d80a44fe6e5b5e281b86edff706e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 09/29] fix: encode the data parts added with add_data_part

---
 messaging/mms/mms_pdu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 504991a..ce61ffb 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -778,6 +778,8 @@ class MMSEncoder(wsp_pdu.Encoder):
                 if part_tuple is not None:
                     parts.append(part_tuple[0])
 
+        parts.extend(self._mms_message._data_parts)
+
         for part in parts:
             name, val_type = part.headers['Content-Type']
             part_content_type = self.encode_content_type_value(name, val_type)
-- 
2.43.0


From d23e904644234dc030f0a1cec134c0ac43cedf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 10/29] fix: list the data parts of a message with pages

---
 messaging/mms/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 6cff8a0..6ebdd48 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -98,8 +98,8 @@ class MMSMessage:
         parts = []
         if len(self._pages):
             parts.append(self.smil())
-            for slide in self._mms_message._pages:
-                parts.extend(slide.data_parts())
+            for slide in self._pages:
+                parts.extend([item[0] for item in slide.data_parts])
 
         parts.extend(self._data_parts)
         return parts
-- 
2.43.0


From 5cb39c75403803b47e8023576d1ac78209e8aac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 11/29] fix: do not add a stale text node to pages with audio

---
 messaging/mms/message.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 6ebdd48..a5529ed 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -201,7 +201,6 @@ class MMSMessage:
                     audio_node.setAttribute('begin', str(begin))
                     audio_node.setAttribute('end', str(end))
 
-                par_node.appendChild(text_node)
                 par_node.appendChild(audio_node)
 
             body_node.appendChild(par_node)
-- 
2.43.0


From e139f085ecaafb9aae56b3c235b751d9b3679d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 12/29] fix: return a flat sequence of bytes from
 encode_media_type

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 7aa1eae..89fd186 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1613,7 +1613,7 @@ class Encoder:
         else:
             val = Encoder.encode_text_string(content_type)
 
-        return [val]
+        return val
 
     @staticmethod
     def encode_parameter(parameter_name, parameter_value, version='1.2'):
-- 
2.43.0


From ddeeea3428fdc6a7497f16e9ed8f2196ba5c12ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 13/29] fix: count the octets of content type parameters in the
 value length

---
 messaging/mms/wsp_pdu.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 89fd186..1e79cb3 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1952,8 +1952,10 @@ class Encoder:
         # Encode the actual content type
         encoded_media_type = Encoder.encode_media_type(media_type)
         # Encode all parameters
-        encoded_parameters = [Encoder.encode_parameter(name, parameters[name])
-                                    for name in parameters]
+        encoded_parameters = []
+        for name in parameters:
+            encoded_parameters.extend(
+                    Encoder.encode_parameter(name, parameters[name]))
 
         value_length = len(encoded_media_type) + len(encoded_parameters)
         encoded_value_length = Encoder.encode_value_length(value_length)
-- 
2.43.0


From 1c4b47270051a54db2b86eb1b862200d5784398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 14/29] fix: encode an unknown status as an octet

---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index ce61ffb..545d42f 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -996,4 +996,4 @@ class MMSEncoder(wsp_pdu.Encoder):
         }
 
         # Return an unrecognised state if it couldn't be decoded
-        return [status_values.get(status_value, 'Unrecognised')]
+        return [status_values.get(status_value, 0x84)]
-- 
2.43.0


From 0345b08ce85730f22ea3c911b3b0695020248c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 15/29] fix: decode unknown status octets to the default status
 name

---
 messaging/mms/mms_pdu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 545d42f..8772757 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -531,7 +531,7 @@ class MMSDecoder(wsp_pdu.Decoder):
         byte = byte_iter.preview()
         byte_iter.next()
         # Return error unspecified if it couldn't be decoded
-        return response_status_values.get(byte, 0x81)
+        return response_status_values.get(byte, 'Error-unspecified')
 
     @staticmethod
     def decode_status_value(byte_iter):
@@ -557,7 +557,7 @@ class MMSDecoder(wsp_pdu.Decoder):
 
         byte = byte_iter.next()
         # Return an unrecognised state if it couldn't be decoded
-        return status_values.get(byte, 0x84)
+        return status_values.get(byte, 'Unrecognised')
 
     @staticmethod
     def decode_expiry_value(byte_iter):
-- 
2.43.0


From fe4c66d304c62da9ae2e322b5b6c6dd8e62684c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 16/29] fix: refuse to encode negative unsigned integers

---
 messaging/mms/wsp_pdu.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 1e79cb3..199bca1 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1438,9 +1438,14 @@ class Encoder:
         used octet is set to '1' to indicate more is to follow; the last used
         octet's "continue bit" is set to 0.
 
+        :raise EncodeError: <uint> is negative
+
         :return: the binary-encoded uint_var, as a list of byte values
         :rtype: list
         """
+        if uint < 0:
+            raise EncodeError('Cannot encode a negative integer: %d' % uint)
+
         uint_var = [uint & 0x7f]
         # Since this is the lowest entry, we do not set the continue bit to 1
         uint = uint >> 7
@@ -1512,7 +1517,7 @@ class Encoder:
             Long-integer = Short-length Multi-octet-integer
             Short-length = <Any octet 0-30>
 
-        :raise EncodeError: <integer> is not of type "int"
+        :raise EncodeError: <integer> is not of type "int" or is negative
 
         :param integer: The integer value to encode
         :type integer: int
@@ -1523,6 +1528,9 @@ class Encoder:
         if not isinstance(integer, int):
             raise EncodeError('<integer> must be of type "int"')
 
+        if integer < 0:
+            raise EncodeError('Cannot encode a negative integer: %d' % integer)
+
         encoded_long_int = []
         longInt = integer
         # Encode the Multi-octect-integer
-- 
2.43.0


From c8b6d679ab9c44659249d614050611220b9eeb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 17/29] fix: encode long integers in network byte order

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 199bca1..9bc33d6 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1536,7 +1536,7 @@ class Encoder:
         # Encode the Multi-octect-integer
         while longInt > 0:
             byte = 0xff & longInt
-            encoded_long_int.append(byte)
+            encoded_long_int.insert(0, byte)
             longInt = longInt >> 8
 
         # Now add the SHort-length value, and make sure it's ok
-- 
2.43.0


From d48a7b5ece257d832843c01358f27cbc8e94d4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 18/29] fix: decode all the bits of an 8-bit unsigned integer

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 9bc33d6..9d47561 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -331,7 +331,7 @@ class Decoder:
         :rtype: int
         """
         # Make the byte unsigned
-        return byte_iter.next() & 0xf
+        return byte_iter.next() & 0xff
 
     @staticmethod
     def decode_uint_var(byte_iter):
-- 
2.43.0


From 45e69a780d4150fc35978c5c727d0a837ed3552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 19/29] fix: decode version values without minor version

---
 messaging/mms/wsp_pdu.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 9d47561..c74e803 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1138,6 +1138,10 @@ class Decoder:
             byteValue = Decoder.decode_short_integer(byte_iter)
             major = (byteValue & 0x70) >> 4
             minor = byteValue & 0x0f
+            if minor == 15:
+                # no minor version
+                return '%d' % major
+
             return '%d.%d' % (major, minor)
         except DecodeError:
             return Decoder.decode_text_string(byte_iter)
-- 
2.43.0


From f1b66d89191191eaebef81641b3049d75650bd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 20/29] fix: do not consume an unknown constrained media

---
 messaging/mms/wsp_pdu.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index c74e803..cc85c35 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -802,17 +802,19 @@ class Decoder:
         :return: The decoded media type
         :rtype: str
         """
+        byte = byte_iter.preview()
+        byte_iter.reset_preview()
+        if byte & 0x80 and byte & 0x7f >= len(well_known_content_types):
+            raise DecodeError('Invalid constrained media: could not '
+                              'find well-known content type')
+
         try:
             media_value = Decoder.decode_constrained_encoding(byte_iter)
         except DecodeError, msg:
             raise DecodeError('Invalid Constrained-media: %s' % msg)
 
         if isinstance(media_value, int):
-            try:
-                return well_known_content_types[media_value]
-            except IndexError:
-                raise DecodeError('Invalid constrained media: could not '
-                                  'find well-known content type')
+            return well_known_content_types[media_value]
 
         return media_value
 
-- 
2.43.0


From bab4893c415e63d5f3ba5b89495f6cc0f82d3f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 21/29] fix: decode the headers of body parts as WSP headers

---
 messaging/mms/mms_pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 8772757..b112162 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -194,7 +194,8 @@ class MMSDecoder(wsp_pdu.Decoder):
             # have been read
             while True:
                 try:
-                    hdr, value = self.decode_header(ct_iter)
+                    # part headers are WSP headers
+                    hdr, value = wsp_pdu.Decoder.decode_header(ct_iter)
                     headers[hdr] = value
                 except StopIteration:
                     break
-- 
2.43.0


From 9823d16172508501af25f71158d91692350d63f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 22/29] fix: look for recipients in the Bcc header

---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index b112162..83a7886 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -664,7 +664,7 @@ class MMSEncoder(wsp_pdu.Encoder):
         # what she is doing
         if headers_to_encode['Message-Type'] == 'm-send-req':
             found_dest_address = False
-            for address_type in ('To', 'Cc', 'Bc'):
+            for address_type in ('To', 'Cc', 'Bcc'):
                 if address_type in headers_to_encode:
                     found_dest_address = True
                     break
-- 
2.43.0


From 5809c8f61e257c0fcad259c9f48cd1c397878625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 23/29] fix: read a relative delivery time as delta seconds

---
 messaging/mms/mms_pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 83a7886..2a6cfab 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -358,11 +358,12 @@ class MMSDecoder(wsp_pdu.Decoder):
     def decode_delivery_time_value(byte_iter):
         value_length = wsp_pdu.Decoder.decode_value_length(byte_iter)
         token = byte_iter.next()
-        value = wsp_pdu.Decoder.decode_long_integer(byte_iter)
         if token == 128:
             token_type = 'absolute'
+            value = wsp_pdu.Decoder.decode_long_integer(byte_iter)
         elif token == 129:
             token_type = 'relative'
+            value = wsp_pdu.Decoder.decode_delta_seconds_value(byte_iter)
         else:
             raise wsp_pdu.DecodeError('Delivery-Time type token value is undefined'
                 ' (%s), should be either 128 or 129' % token)
-- 
2.43.0


From 75e97216bbefa89e2e6f7f1ba707b5f3726dfc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 24/29] fix: stop unpacking at 160 septets

---
 messaging/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/messaging/utils.py b/messaging/utils.py
index 15066b9..5fbe4b1 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -183,13 +183,13 @@ def unpack_msg(pdu):
         last = byte >> (7 - count)
         result.append(out)
 
-        if len(result) >= 0xa0:
-            break
-
         if count == 6:
             result.append(last)
             last = 0
 
+        if len(result) >= 0xa0:
+            break
+
         count = (count + 1) % 7
 
     return to_bytes(result)
@@ -207,13 +207,13 @@ def unpack_msg2(pdu):
         last = byte >> (7 - count)
         result.append(out)
 
-        if len(result) >= 0xa0:
-            break
-
         if count == 6:
             result.append(last)
             last = 0
 
+        if len(result) >= 0xa0:
+            break
+
         count = (count + 1) % 7
 
     return to_bytes(result)
-- 
2.43.0


From 86437f42bd635362069e40a92ee2fd41d29c89f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:27 +0000
Subject: [PATCH 25/29] fix: leave the preview in place when an MMS field name
 is refused

---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 2a6cfab..1c752f8 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -267,13 +267,13 @@ class MMSDecoder(wsp_pdu.Decoder):
         # Get the MMS-field-name
         mms_field_name = ''
         preview = byte_iter.preview()
+        byte_iter.reset_preview()
         byte = wsp_pdu.Decoder.decode_short_integer_from_byte(preview)
 
         if byte in mms_field_names:
             byte_iter.next()
             mms_field_name = mms_field_names[byte][0]
         else:
-            byte_iter.reset_preview()
             raise wsp_pdu.DecodeError('Invalid MMS Header: could '
                                       'not decode MMS field name')
 
-- 
2.43.0


From b59f5c1d0d03686f0b9bbc733c4dfe136671fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:48 +0000
Subject: [PATCH 26/29] fix: read the headers length of a push as a uintvar

---
 messaging/sms/wap.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/messaging/sms/wap.py b/messaging/sms/wap.py
index 46611ab..d6c052a 100644
--- a/messaging/sms/wap.py
+++ b/messaging/sms/wap.py
@@ -20,11 +20,13 @@ def is_a_wap_push_notification(s):
 def extract_push_notification(s):
     data = array("B", s)
 
-    wap_push, offset = data[1:3]
+    wap_push, headers_len = data[1:3]
     assert wap_push == 0x06
 
-    offset += 3
-    data = data[offset:]
+    # the length of the headers is a uintvar
+    data_iter = iter(data[2:])
+    headers_len = MMSDecoder.decode_uint_var(data_iter)
+    data = array("B", list(data_iter)[headers_len:])
 
     # XXX: Not all WAP pushes are MMS
     return MMSDecoder().decode_data(data)
-- 
2.43.0


From 33fc4ef9b0a9b64f304f4dd1f8dd469e93afdca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:58 +0000
Subject: [PATCH 27/29] fix: end media with no end time with their page

---
 messaging/mms/message.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index a5529ed..4174a76 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -160,7 +160,7 @@ class MMSMessage:
                 image_node.setAttribute('src', src)
                 image_node.setAttribute('region', 'Image')
                 if begin > 0 or end > 0:
-                    if end > page.duration:
+                    if end <= 0 or end > page.duration:
                         end = page.duration
 
                     image_node.setAttribute('begin', str(begin))
@@ -175,7 +175,7 @@ class MMSMessage:
                 text_node.setAttribute('src', src)
                 text_node.setAttribute('region', 'Text')
                 if begin > 0 or end > 0:
-                    if end > page.duration:
+                    if end <= 0 or end > page.duration:
                         end = page.duration
 
                     text_node.setAttribute('begin', str(begin))
@@ -195,7 +195,7 @@ class MMSMessage:
                 audio_node = smil_doc.createElement('audio')
                 audio_node.setAttribute('src', src)
                 if begin > 0 or end > 0:
-                    if end > page.duration:
+                    if end <= 0 or end > page.duration:
                         end = page.duration
 
                     audio_node.setAttribute('begin', str(begin))
-- 
2.43.0


From 2945f0d6de27a49fa9ab9a7f707ed5def8f99a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 28/29] fix: split UCS2 texts of 216 to 223 parts

The header words of part counts 0xD8..0xDF are surrogates, which unichr
refuses on Jython; the header is octets, as in the other formats.
---
 messaging/sms/submit.py | 14 ++++----------
 messaging/utils.py      |  4 ++--
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index f514b68..1615165 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -306,16 +306,10 @@ class SmsSubmit(SmsBase):
         for i, msg in enumerate(msgs):
             i += 1
             total_parts = len(msgs)
-            if self.fmt in (0x00, 0x04):
-                udh = (chr(udh_len) + chr(mid) + chr(data_len) +
-                       chr(sms_ref) + chr(total_parts) + chr(i))
-                # septet that holds the fill bits
-                padding = " " if self.fmt == 0x00 else ""
-            else:
-                udh = (unichr(int("%04x" % ((udh_len << 8) | mid), 16)) +
-                       unichr(int("%04x" % ((data_len << 8) | sms_ref), 16)) +
-                       unichr(int("%04x" % ((total_parts << 8) | i), 16)))
-                padding = ""
+            udh = (chr(udh_len) + chr(mid) + chr(data_len) +
+                   chr(sms_ref) + chr(total_parts) + chr(i))
+            # septet that holds the fill bits
+            padding = " " if self.fmt == 0x00 else ""
 
             pdu_msgs.append(packing_func(padding + msg, udh))
 
diff --git a/messaging/utils.py b/messaging/utils.py
index 5fbe4b1..a45201f 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -160,12 +160,12 @@ def pack_8bits_to_ucs2(message, udh=None):
     nmesg = ''
 
     if udh is not None:
-        text = udh + text
+        nmesg = udh
 
     for n in text:
         nmesg += chr(ord(n) >> 8) + chr(ord(n) & 0xFF)
 
-    mlen = len(text) * 2
+    mlen = len(nmesg)
     message = chr(mlen) + nmesg
     return encode_str(message)
 
-- 
2.43.0


From 0686d9804dde41af8d17433e461ddb6da08a16a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 29/29] fix: decode each PDU given to an SmsDeliver on its own

---
 messaging/sms/deliver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 8ff78ac..563c309 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -65,6 +65,10 @@ class SmsDeliver(SmsBase):
         # XXX: Should we keep the original PDU or the modified one?
         self._pdu = pdu
 
+        # nothing of a PDU decoded before applies to this one
+        self.udh = self.pid = self.dcs = self.date = None
+        self.type = self.sr = None
+
         data = to_array(self._pdu)
 
         # Service centre address
-- 
2.43.0

