#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
U = "messaging/utils.py"; SUB = "messaging/sms/submit.py"; DEL = "messaging/sms/deliver.py"
G = "messaging/sms/gsm0338.py"; UDH = "messaging/sms/udh.py"; W = "messaging/mms/wsp_pdu.py"
M = "messaging/mms/mms_pdu.py"; MSG = "messaging/mms/message.py"; IT = "messaging/mms/iterator.py"
WAP = "messaging/sms/wap.py"

prop("S01", "GSM 03.38 encoding is exact, reversible and refuses everything else",
 "For every text whose characters all belong to the GSM 03.38 default alphabet or its extension table, encoding yields in order exactly one septet per basic character and the escape septet plus one septet per extension character, and decoding that result gives the same text back. For every text containing any other character, strict encoding raises UnicodeError, and the is-this-GSM-text test answers True exactly for the encodable texts.",
 ["inputs"], "all unicode texts of any length",
 "Tests encode a fixed sample of strings and each table entry alone; they never establish the mapping for arbitrary sequences, positions or non-GSM characters.",
 [G], [("encode, is_gsm_text, tables", G)], ["str.encode('gsm0338')", "str.decode('gsm0338')", "is_gsm_text"])
prop("S02", "GSM 03.38 decoding is total on septets and honours the error modes",
 "For every octet string, decoding consumes each octet once, maps basic septets and escape sequences by the GSM 03.38 tables, gives a no-break space for an unknown or truncated escape, and for an octet above 0x7F raises UnicodeError (strict), gives '?' (replace) or drops it (ignore). Encoding in replace mode gives exactly one replacement septet (the look-alike letter or '?') for each non-GSM character and in ignore mode drops it, leaving every other character as in strict mode.",
 ["inputs"], "all octet strings / unicode texts of any length and the three error modes",
 "Tests exercise a handful of strings per mode.",
 [G], [("decode, encode", G)], ["str.decode('gsm0338', mode)", "str.encode('gsm0338', mode)"])
prop("S03", "Septet packing follows the GSM 03.40 bit layout at every length",
 "Packing n septets (0 <= n <= 160) gives the hexadecimal form of an octet count n followed by exactly ceil(7n/8) octets, where septet i occupies bits 7i..7i+6 of the octet stream (least significant bit first) and unused high bits are zero. With a 6-octet user data header the count includes 7 septets for the header, the header occupies the first octets unchanged and septet i of the text occupies bits 7(i+7)..7(i+7)+6 counted from the start of the user data.",
 ["inputs"], "all septet strings up to the protocol maximum, with and without a header",
 "Tests compare a few fixed messages; alignment errors depend on length modulo 8 and on bit patterns.",
 [U], [("pack_8bits_to_7bits", U)], ["SmsSubmit.to_pdu user data"])
prop("S04", "Septet unpacking is the exact inverse of packing",
 "Unpacking any octet string of k octets yields the septets found at bits 7i..7i+6 of the stream for i < floor(8k/7), at most 160 of them, with the hexadecimal-input and octet-input forms agreeing on every input. Unpacking what packing produced for any n <= 160 septets gives those n septets back as a prefix.",
 ["inputs"], "all octet strings up to 140 octets and beyond; all septet strings up to 160",
 "Tests unpack a few fixed PDUs.",
 [U], [("unpack_msg, unpack_msg2", U)], ["SmsDeliver.text"])
prop("S05", "A single-part SMS-SUBMIT PDU carries exactly the requested fields",
 "For every valid destination number, SMSC number or none, reference, protocol id, message class, validity, status-report request and single-part text in any of the three alphabets, encoding gives one PDU whose octets are in order the SMSC address, the message-type octet with exactly the matching flag bits, the reference modulo 256, the destination digits in swapped semi-octets with type 0x91 or 0x81 and digit count, protocol id, data coding scheme with class bits, validity octets if any, and the user data with its length. Its reported length is the number of octets after the SMSC field, and the data coding scheme is GSM when the text is encodable in GSM and UCS2 otherwise unless the caller chose one.",
 ["inputs", "configurations"], "all combinations of valid field values and texts that fit one part",
 "Tests cover about ten combinations of fields.",
 [SUB, U], [("SmsSubmit.to_pdu and _get_*_pdu", SUB), ("Pdu", "messaging/sms/pdu.py")], ["SmsSubmit.to_pdu()"])
prop("S06", "Long texts are segmented without loss and every part fits",
 "A text too long for one part is split into n parts whose user data never exceeds 140 octets, each carrying the same 8-bit concatenation reference, total n and sequence numbers 1..n in order, both in the user data header and in the returned objects, with the header flag set on every part. Concatenating the parts' texts in sequence order gives exactly the original text (GSM, 8-bit and UCS2 alike), no part ends in the middle of a GSM escape pair, and every part but the last is filled to 153 septets (152 when an escape pair would be cut), 134 octets or 67 characters.",
 ["inputs"], "all texts of any length from the single-part limit up to 255 parts in each alphabet",
 "Tests segment two or three fixed texts; escape pairs at part boundaries and exact-multiple lengths are not reached.",
 [SUB, U], [("SmsSubmit._split_sms_message", SUB), ("pack_8bits_to_*", U)], ["SmsSubmit.to_pdu()"])
prop("S07", "Relative validity is encoded as the GSM 03.40 period, rounded down",
 "For every duration from 5 minutes to 63 weeks, the relative validity octet v denotes by the GSM 03.40 table the largest period not longer than the duration: 5-minute steps up to 12 hours, half hours up to 24 hours, days up to 30 days, weeks up to 63 weeks, and it is between 0 and 255. Shorter or longer durations raise ValueError.",
 ["inputs"], "all durations at microsecond resolution",
 "Tests try the table boundaries only.",
 [U], [("timedelta_to_relative_validity", U)], ["SmsSubmit validity octet"])
prop("S08", "Absolute validity encodes the exact date, time and UTC offset",
 "For every date and time from 1900 on, with or without a UTC offset that is a multiple of a quarter of an hour within +-14 hours (plus or minus), the seven validity octets are the swapped decimal digits of year modulo 100, month, day, hour, minute, second, and of the offset in quarter hours with the sign in bit 3 of the last octet. A zone text '+HHMM' or '-HHMM' is read as exactly that offset east or west of UTC and an empty one as zero.",
 ["inputs"], "all datetimes and offsets",
 "Tests encode three or four datetimes.",
 [U], [("datetime_to_absolute_validity, FixedOffset.from_timezone", U)], ["SmsSubmit validity octets"])
prop("S09", "SMS-DELIVER addresses, protocol fields and timestamp decode exactly",
 "For every well-formed SMS-DELIVER PDU the decoded SMSC and sender are exactly the encoded digits, with '+' exactly when the address type is international, or, for an alphanumeric sender, exactly the GSM characters encoded; protocol id, data coding scheme and alphabet are those of the PDU. The date is the service centre timestamp converted to UTC by its signed quarter-hour offset, and an odd-length PDU is rejected in strict mode while in lenient mode only its last digit is dropped.",
 ["inputs"], "all addresses (1 to 20 digits, 1 to 11 characters), protocol octets, timestamps and offsets",
 "Tests decode about fifteen captured PDUs.",
 [DEL, U], [("SmsDeliver._set_pdu", DEL), ("swap, swap_number, unpack_msg2", U)], ["SmsDeliver(pdu).number/csca/pid/dcs/fmt/date"])
prop("S10", "SMS-DELIVER user data decodes to exactly the carried text",
 "For every user data length and content, with or without a user data header, the decoded text is exactly the carried characters: the GSM decoding of the septets that follow the header and its fill bits, the 8-bit octets, or the UCS2 characters, never including header octets or octets beyond the stated length. A header, when flagged, is exposed with its elements and is absent otherwise.",
 ["inputs"], "all user data of up to 140 octets in the three alphabets, header lengths 0 and up",
 "Tests use a few captured bodies and essentially one header length.",
 [DEL, U], [("SmsDeliver._process_message", DEL), ("unpack_msg", U)], ["SmsDeliver(pdu).text/.udh"])
prop("S11", "User data headers expose exactly their concatenation and port elements",
 "For every sequence of information elements, parsing records each element's data under its identifier, reads 8-bit and 16-bit concatenation references as (reference, count, sequence) and 8-bit and 16-bit port addresses as (destination, origin) with the matching width flag, in any order and mixed with unknown elements. When no such element is present the corresponding attribute is None, and a repeated element's last occurrence wins.",
 ["inputs"], "all well-formed element sequences",
 "The existing tests parse two fixed headers.",
 [UDH], [("UserDataHeader.from_bytes", UDH)], ["SmsDeliver.udh, SmsDeliver.data"])
prop("S12", "Status reports decode to the reported recipient, dates and status",
 "For every status report PDU, the message reference, recipient (with '+' exactly for international addresses), service-centre and discharge timestamps as printed local times, and status octet are those encoded; an unreadable timestamp gives None, and a missing status octet is reported as unknown rather than as an error. The sender shown is SR-OK exactly for status 0, SR-STORED exactly for 0x30 and SR-UNKNOWN otherwise, and the text joins recipient, submission time and, only for a delivered or status-less message, the discharge time.",
 ["inputs"], "all references, recipients, timestamps and status octets, including an absent one",
 "Tests decode three captured reports.",
 [DEL], [("SmsDeliver._decode_status_report_pdu", DEL)], ["SmsDeliver(pdu).sr/.text/.number"])
prop("S13", "What is submitted is what is delivered, for every text and alphabet",
 "For every text, carrying the user data of the PDUs produced for it in SMS-DELIVER PDUs and decoding them gives back, in sequence order, exactly that text: GSM texts including extension characters and UCS2 texts of characters up to U+FFFF, in one part or in several. The concatenation reference, count and sequence seen by the receiver agree with those reported by the sender.",
 ["inputs"], "all texts, single-part and multi-part",
 "Encoder and decoder are tested separately on unrelated fixed samples.",
 [SUB, DEL, U, G], [("SmsSubmit.to_pdu", SUB), ("SmsDeliver", DEL)], ["SmsSubmit.to_pdu() -> SmsDeliver().text"])
prop("S14", "Invalid SMS parameters are rejected and leave the message unchanged",
 "Destination and SMSC numbers are accepted exactly when they are an optional '+' followed by 3 to 20 digits (or empty; a trailing newline is ignored), message classes exactly for the integers 0 to 3, validities exactly for None, durations and datetimes, and any alphabet other than 7-bit, 8-bit and UCS2 is refused with ValueError when the message is encoded. A rejected assignment raises ValueError or TypeError and leaves the previous value in place.",
 ["inputs", "histories"], "all assigned values after any earlier assignments",
 "Tests try two or three bad values and never look at the state afterwards.",
 [SUB], [("SmsSubmit property setters, _get_msg_pdu", SUB)], ["SmsSubmit.number/csca/klass/validity/fmt"])
prop("S15", "Hexadecimal and semi-octet conversions are exact inverses",
 "For every octet sequence its hexadecimal text has two lower-case digits per octet, in order, and reading it back gives the same octets. Swapping semi-octets exchanges the members of each pair, keeps an odd last element, never modifies its argument and is its own inverse, and swapping an address's digits drops exactly the 'f' filler digits.",
 ["inputs"], "all octet sequences and digit strings",
 "Tests reach these helpers only through a few PDUs.",
 [U], [("encode_str, encode_bytes, to_array, swap, swap_number, clean_number", U)], ["messaging.utils functions"])
prop("W01", "WAP push notifications are recognised and their MMS content extracted",
 "An octet string is recognised as a WAP push exactly when it has at least two octets and the second is the Push type, any other input type being rejected with TypeError. For every push, the bytes handed to the MMS decoder are exactly those after the push's stated header length, so the extracted message equals decoding those bytes directly, and it counts as an MMS notification exactly when it has both a sender and a content location.",
 ["inputs"], "all octet strings and all header lengths",
 "Tests decode two captured notifications with one header length each.",
 [WAP], [("is_a_wap_push_notification, extract_push_notification, is_mms_notification", WAP)], ["messaging.sms.wap functions"])
prop("M01", "WSP variable-length integers round-trip at every size",
 "For every non-negative integer, the uintvar encoding is the big-endian base-128 digits without leading zero digits, with the continuation bit on all octets but the last, and decoding it gives the integer back while consuming exactly those octets. Negative integers are refused with an encoding error instead of being encoded as another number.",
 ["inputs"], "all integers (at least up to 70 bits) and any following octets",
 "Tests cover a handful of values.",
 [W], [("encode_uint_var, decode_uint_var", W)], ["wsp_pdu.Encoder / Decoder"])
prop("M02", "WSP short, long and single-octet integers round-trip or are refused",
 "For every integer, short-integer encoding succeeds exactly for 0..127 and long-integer encoding exactly for non-negative plain integers, as a length octet and that many big-endian octets with no leading zero, and the choice between them is the shorter form; decoding gives the same integer and consumes exactly the encoded octets. A single unsigned octet decodes to its full value, and every integer or octet outside these ranges is refused with an encoding or decoding error.",
 ["inputs"], "all integers, all octet prefixes",
 "Tests cover a handful of values.",
 [W], [("encode_/decode_short_integer, long_integer, integer_value, uint_8", W)], ["wsp_pdu.Encoder / Decoder"])
prop("M03", "WSP value lengths, text strings and tokens round-trip and consume exactly",
 "For every length from 0 up, value-length uses one octet exactly up to 30 and a length-quote plus uintvar above, and decodes to the same length; for every text of octets 1..255 (not starting with the quote octet) text-string decoding of its encoding returns the text and consumes exactly its octets and the terminator, removing one leading quote octet. Token text containing a separator is refused by the encoder, any other token round-trips and extension media and quoted strings behave likewise, with decoding stopping at the terminator whatever follows.",
 ["inputs"], "all lengths, all texts of any length, any following octets",
 "Tests cover a handful of short values.",
 [W], [("encode_/decode_value_length, text_string, token_text, extension_media, quoted_string", W)], ["wsp_pdu.Encoder / Decoder"])
prop("M04", "Peeking at a byte stream never loses, repeats or reorders items",
 "For every sequence of next, preview and reset operations on a preview iterator, next returns the underlying items once each in order, preview returns successive items after the last next or reset without consuming them, and StopIteration is raised exactly when the items are exhausted. No operation changes what later next calls return.",
 ["inputs", "histories"], "all underlying sequences and all operation histories",
 "Tests run one fixed history.",
 [IT], [("PreviewIterator.next, preview, reset_preview", IT)], ["messaging.mms.iterator.PreviewIterator"])
prop("M05", "Every MMS header value round-trips and has its assigned code",
 "For every supported header field and every value in its domain, encoding yields the field's assigned octet followed by the value's WAP-209 encoding, and decoding these octets, whatever follows, gives the same field name and value and consumes exactly them. Enumerated values (message type, status, response status, priority, sender visibility, report flags, message class) map one-to-one to their assigned octets and an unknown status or response-status octet decodes to the documented default name.",
 ["inputs"], "all header fields and all their values",
 "Tests cover single sample values of about half of the fields.",
 [M, W], [("MMSEncoder.encode_header, MMSDecoder.decode_header and the per-field functions", M)], ["MMSEncoder.encode_header / MMSDecoder.decode_header"])
prop("M06", "Content types and their parameters round-trip with the right length",
 "For every media type, well-known or not, with any set of supported parameters, encoding yields either the constrained form (exactly when there are no parameters) or a value-length equal to the number of octets that follow it, and is a flat list of octets. Decoding gives back the same media type and parameters and consumes exactly those octets; header-field version tables contain exactly the entries of the requested encoding version, and part header fields use the number assigned to them in encoding version 1.2. (The text of a media type that is not well known starts with a printable ASCII character.)",
 ["inputs", "configurations"], "all media types, parameter combinations and following octets",
 "Tests cover media types without parameters and single parameters in isolation.",
 [W], [("encode_/decode_content_type_value, content_general_form, parameter, version_value", W)], ["wsp_pdu.Encoder / Decoder"])
prop("M07", "Whole MMS messages survive encoding and decoding",
 "For every message built from supported headers, pages and data parts, decoding the encoded bytes gives the same headers (those marked X-Mms- under their plain names, a message type without recipients downgraded as documented) and the same sequence of body parts, first the presentation and then each page's image, audio and text and the additional data parts, each with its content type, headers and exact octets. Nothing is left over and the part count equals the number of parts present.",
 ["inputs", "configurations"], "all header sets, page layouts and part contents",
 "Tests round-trip three fixed messages.",
 [M, MSG, W], [("MMSEncoder.encode_message_header/body, MMSDecoder.decode_message_header/body", M)], ["MMSMessage.encode / from_data"])
prop("M08", "Encoding a message does not change it and is repeatable",
 "Encoding a message leaves its headers, pages, parts and their data exactly as they were, whether or not it fails. Encoding it twice gives the same bytes (apart from a generated transaction id when none was set).",
 ["inputs", "histories"], "all messages and repeated encodings",
 "No test encodes a message twice or looks at it afterwards.",
 [M, MSG], [("MMSEncoder.encode_message_header, encode_message_body", M)], ["MMSMessage.encode, .headers"])
prop("M09", "A refused decoding attempt leaves the stream where it was",
 "For every byte sequence and position, when decoding a short integer, short length, value length, quoted string, token, extension media, constrained encoding or media, boolean, priority, sender visibility or MMS field name is refused with a decoding error, no octet has been consumed and the next attempt sees the same octets from the same place. This makes trying the alternatives in order equivalent to trying each from the start.",
 ["inputs", "histories"], "all byte sequences and alternatives",
 "Tests check a few malformed inputs and never look at the stream afterwards.",
 [W, M, IT], [("the decode_* functions that preview", W)], ["wsp_pdu.Decoder / MMSDecoder static methods"])
prop("M10", "Decoding any bytes terminates and never reads outside them",
 "For every byte sequence, each primitive decoder and the message decoder return or raise in a number of steps bounded by the input length, consuming octets strictly in order, each at most once, and never beyond the end; a decoded length larger than the remaining data makes that decoder raise instead of yielding a truncated value, and a message whose part count or part lengths exceed its data is refused. Values returned are built only from the octets consumed (an absent value and an unknown message type are told by looking at an octet that is left in place).",
 ["inputs"], "all byte sequences",
 "Tests decode well-formed captures only.",
 [W, M], [("decode_message_header, decode_message_body, decode_*", M)], ["MMSMessage.from_data, wsp_pdu.Decoder"])
prop("M11", "The presentation lists every page with its media, regions and times",
 "For every message, the generated presentation has one time container per page in order with the page's duration, containing exactly the page's image, text and audio present, each referring to its own part, with region and begin/end times exactly when times were given (a positive begin or end), an end of 0 or less or after the page being the end of the page. Adding media or setting a duration rejects wrong types, missing files, an end before the begin and non-positive durations, leaving the page unchanged.",
 ["inputs", "histories"], "all pages and media combinations, times and durations",
 "Tests build one page with text.",
 [MSG], [("MMSMessage.smil, MMSMessagePage.add_*", MSG)], ["MMSMessage.smil()"])
prop("M12", "Data parts report their own type, length and exact octets",
 "For every data part, however it was filled (text, octets, octet array or file) and in whatever order, its length equals the number of octets of its data, repeated reads give the same octets, and its content type and headers are those of the last filling. A message's list of data parts holds the presentation (when there are pages), every page's parts in order (image, audio, text) and then the added parts.",
 ["inputs", "histories"], "all contents and filling orders",
 "Tests fill one part once.",
 [MSG], [("DataPart.set_data, set_text, from_file, data, __len__; MMSMessage.data_parts", MSG)], ["DataPart, MMSMessage.data_parts"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
