#!/usr/bin/env python3
"""Writes /verif/known_findings.json (repairs already made in /repo; no open findings)."""
import json, os
F = [
 ('S11', 'd213d63', '8-bit application port addresses were not marked as eight bits'),
 ('S06', '88e4480', 'the user data header was left out of 8-bit multipart user data'),
 ('S06', '816bc46', '8-bit multipart messages used a unicode header'),
 ('S06', 'c01a766', 'UCS2 and 8-bit parts were cut as if they held GSM escape pairs'),
 ('S08', 'aadc619', "FixedOffset.from_timezone('-0330') read the minutes as positive"),
 ('S09', 'a811de0', 'fill bits of an alphanumeric sender were decoded as a character'),
 ('S10', 'e21343d', 'TP-UDL was ignored in 8-bit and UCS2 messages: trailing octets became text'),
 ('S04', '75e9721', 'unpacking went on after 160 septets'),
 ('M08', '8e61c40', 'encoding a message removed headers from it'),
 ('M07', 'c512c45', 'parts added with add_data_part were not encoded'),
 ('M07', 'bab4893', 'headers of body parts were decoded as MMS headers'),
 ('M07', '9823d16', 'a message with only Bcc recipients was encoded as a received message'),
 ('M12', 'd23e904', 'data_parts raised for messages with pages'),
 ('M11', '5cb39c7', 'a page with audio was given the text of another page'),
 ('M11', None, 'a medium with a begin and no end was presented as ending at 0'),
 ('M06', 'e139f08', 'encode_media_type nested a list in its result'),
 ('M06', 'ddeeea3', 'the value length of a content type left its parameters out'),
 ('M06', '45e69a7', 'version values without minor version were decoded with one'),
 ('M05', '1c4b472', 'unknown status names could not be encoded'),
 ('M05', '0345b08', 'unknown status octets could not be decoded'),
 ('M05', '5809c8f', 'relative delivery times were decoded as dates'),
 ('M01', 'fe4c66d', 'encoding a negative integer did not end'),
 ('M02', 'c8b6d67', 'long integers were encoded least significant octet first'),
 ('M02', 'd48a7b5', 'decode_uint_8 dropped the top bit'),
 ('M09', 'f1b66d8', 'an unknown constrained media consumed its octet'),
 ('M09', '86437f4', 'a refused MMS field name lost an octet'),
 ('S06', '2945f0d', 'UCS2 texts of 216 to 223 parts were refused (surrogate header words)'),
 ('S10', '0686d98', 'a PDU assigned to an SmsDeliver kept the header of the one before'),
 ('W01', 'b59f5c1', 'the headers length of a push was read as one octet'),
]
import subprocess
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
subj = dict((l.split()[0][:7], l) for l in log)
out = []
for p, h, w in F:
    if h is None:
        h = [l.split()[0] for l in log if 'end media with no end time' in l][0]
    if h not in subj:
        raise SystemExit('no such commit ' + h)
    out.append({'status': 'fixed', 'property': p, 'commit': h, 'what': w, 'entry': 'fixed: property=%s %s %s' % (p, h, w)})
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json'), 'w').write(json.dumps(out, indent=1) + '\n')
