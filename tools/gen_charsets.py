#!/usr/bin/env python3
"""Generates harness/c23_tables.h: the published single-byte character sets, as Python's codecs know them."""
import os
CODECS = [('%d' % n, 'iso8859_%d' % n) for n in list(range(1, 12)) + [13, 14, 15, 16]] + [('1251', 'cp1251'), ('866', 'cp866')]
out = ['// Generated by tools/gen_charsets.py from the codecs of Python: byte -> code point, -1 where the set has no character.', '#pragma once', '', 'static const struct CharSet { unsigned Id; int Map[256]; } CharSets[] =', '{']
for ident, codec in CODECS:
    row = []
    for b in range(256):
        try:
            row.append('0x%x' % ord(bytes([b]).decode(codec)))
        except UnicodeDecodeError:
            row.append('-1')
    out.append('\t{ %s, {' % ident)
    out += ['\t\t' + ', '.join(row[i:i + 16]) + ',' for i in range(0, 256, 16)]
    out.append('\t} },')
out.append('};')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'c23_tables.h'), 'w').write('\n'.join(out) + '\n')
