# property: (level, note)
LEVELS = {
 'S01': ('proof', 'Texts of any length, by loop contracts; short texts also by complete execution.'),
 'S02': ('proof', 'Octet strings and texts of any length in every mode, by loop contracts; short ones also by complete execution.'),
 'S03': ('proof', 'Exhaustive over the protocol domain: every length 0..160 (0..153 with header), all septets symbolic.'),
 'S04': ('proof', 'Exhaustive over the protocol domain: every packed text of 0..160 septets; octet strings up to 150 octets (the loop stops at 160 septets).'),
 'S05': ('proof', 'Every length of 7-bit, 8-bit and UCS2 texts, all fields symbolic; 7-bit texts with any extension characters with the codec by its contract (proved in S01); messages changed and encoded again; bounded: pairs of address lengths (quick).'),
 'S06': ('other', '7-bit texts with any extension characters with the codec by contract, at the stated lengths; bounded: selected lengths up to 255 parts.'),
 'S07': ('proof', 'All durations and all out-of-range durations.'),
 'S08': ('proof', 'All dates 1900..9999 and all quarter-hour offsets of +-14 h; datetime arithmetic by assumed contract.'),
 'S09': ('proof', 'All address lengths, digits, types, timestamps and protocol fields; bounded: alphanumeric senders with extension characters.'),
 'S10': ('proof', 'Every user data length of the three alphabets, with and without a user data header (codec and header parser by contract, proved in S02 and S11); objects given several PDUs one after the other; bounded: header shapes by complete execution.'),
 'S11': ('other', 'Bounded: headers of up to 3 (5) elements of every kind with symbolic contents.'),
 'S12': ('proof', 'All references, addresses, timestamps and statuses; every truncation.'),
 'S13': ('proof', '7-bit texts with any extension characters with the codec by contract; bounded: UCS2 up to 5 parts.'),
 'S14': ('proof', 'All assignments of the declared kinds; number texts with digits of any script included.'),
 'S15': ('proof', 'All address fields; bounded: hexadecimal helpers up to 200 octets and at selected sizes up to 6000.'),
 'M01': ('proof', 'Integers of any size, by loop contracts and ghost folds; integers below 2**280 also by complete execution.'),
 'M02': ('proof', 'All values of every fixed-size form; long integers of up to 30 octets (the longest the form has).'),
 'M03': ('proof', 'Texts of any length and value lengths of any size, by loop contracts; selected lengths also by complete execution.'),
 'M04': ('proof', 'Histories of any length over lists of any size, by a loop contract over the history; bounded: arrays as sources.'),
 'M05': ('proof', 'All values of the fixed-size fields, texts of any length by loop contracts (value lengths below 2**28); selected lengths also by complete execution.'),
 'M06': ('proof', 'All well-known media and parameter codes, texts of any length by loop contracts; bounded: several parameters at selected lengths.'),
 'M07': ('proof', 'Headers and parts of any length, by loop contracts over the octets left and callee contracts; bounded: selected message layouts with symbolic contents, messages changed and encoded again, messages decoded one after the other.'),
 'M08': ('other', 'Bounded: selected message layouts with symbolic contents; pairs of messages encoded by one encoder.'),
 'M09': ('proof', 'Octets of any number for refused attempts at each alternative; bounded: all octet strings of the stated lengths executed completely.'),
 'M10': ('proof', 'Octets of any number, by loop contracts and callee contracts (each decoder on its own, the message decoder over the contracts of those it calls); bounded: all octet strings of the stated lengths executed completely, symbolic lengths and counts.'),
 'M11': ('proof', 'All layouts of up to 4 pages with symbolic times, durations and sizes, fixed sequences of up to 12 pages with repeated pages, and presentations made again after a change; bounded: selected text lengths.'),
 'M12': ('proof', 'Data and content types of any length, for one and for two fillings in any order, by loop contracts; bounded: three fillings and listings at selected sizes.'),
 'W01': ('proof', 'Pushes with headers and contents of any length; bounded: selected header lengths with symbolic octets; structured contents with symbolic texts and all contents of up to 2 (3) octets.'),
}
