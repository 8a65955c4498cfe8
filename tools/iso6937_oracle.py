#!/usr/bin/env python3
"""Write lib/iso6937_oracle.h: the character set of EBU 3264 / ISO 6937, from the list of letters that each
diacritic can be put on and Unicode's own composition rules (NFC), not from the code under test."""
import os, unicodedata
MARKS = [  # code, combining mark, letters
    (0xc1, 0x300, 'AEIOUaeiou'),
    (0xc2, 0x301, 'ACEILNORSUYZacegilnorsuyz'),
    (0xc3, 0x302, 'ACEGHIJOSUWYaceghijosuwy'),
    (0xc4, 0x303, 'AINOUainou'),
    (0xc5, 0x304, 'AEIOUaeiou'),
    (0xc6, 0x306, 'AGUagu'),
    (0xc7, 0x307, 'CEGIZcegz'),
    (0xc8, 0x308, 'AEIOUYaeiouy'),
    (0xca, 0x30a, 'AUau'),
    (0xcb, 0x327, 'CGKLNRSTcgklnrst'),
    (0xcd, 0x30b, 'OUou'),
    (0xce, 0x328, 'AEIUaeiu'),
    (0xcf, 0x30c, 'CDELNRSTZcdelnrstz'),
]
HIGH = {
    0xa1: '¡¢£$¥', 0xa7: '§¤‘“«←↑→↓°±²³×µ¶·÷’”»¼½¾¿',
    0xd0: '―¹®©™♪¬¦', 0xdc: '⅛⅜⅝⅞\u2126ÆĐªĦ', 0xe6: 'ĲĿŁØŒºÞŦŊŉĸæđðħıĳŀłøœßþŧŋ\u00ad',
}
main = {c: c for c in range(0x20, 0x7f)}
main[10] = 10
for k, v in HIGH.items():
    for i, ch in enumerate(v):
        main[k + i] = ord(ch)
o = '/* Generated by tools/iso6937_oracle.py */\n#ifndef VERIF_ISO6937_ORACLE_H\n#define VERIF_ISO6937_ORACLE_H\n'
o += 'namespace oracle {\nstruct Pair { unsigned char mark; unsigned char letter; unsigned short unicode; };\n'
o += '/* 0: undefined */\nstatic unsigned short const main[256] = {\n'
for i in range(0, 256, 8):
    o += '\t' + ', '.join('0x%04x' % main.get(j, 0) for j in range(i, i + 8)) + ',\n'
o += '};\nstruct Mark { unsigned char code; unsigned short combining; };\nstatic Mark const marks[] = {\n'
for c, m, l in MARKS:
    o += '\t{0x%02x, 0x%04x},\n' % (c, m)
o += '};\nstatic Pair const pairs[] = {\n'
for c, m, l in MARKS:
    for x in l:
        n = unicodedata.normalize('NFC', x + chr(m))
        assert len(n) == 1, (x, hex(m))
        o += "\t{0x%02x, '%s', 0x%04x},\n" % (c, x, ord(n))
o += '};\n}\n#endif\n'
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'iso6937_oracle.h'), 'w').write(o)
