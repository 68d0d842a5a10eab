#!/usr/bin/env python3
"""Writes ref/unicode.sets and contracts/unicode.spec: the Unicode 15.0 sets the width
properties refer to, taken from Python's unicodedata (UCD 15.0.0) and, for Extended_Pictographic,
from perl (Unicode 15.0.0). Independent of /repo."""
import unicodedata as u, subprocess, os
assert u.unidata_version == '15.0.0'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = 0x110000
def rng(p):
    out = []; s = None
    for c in range(N + 1):
        ok = c < N and p(c)
        if ok and s is None: s = c
        if not ok and s is not None: out.append((s, c - 1)); s = None
    return out
surr = lambda c: 0xD800 <= c <= 0xDFFF
extra = {0xd01,0x180b,0x180c,0x180d,0x11301,0x1133c,0x1cf42,0x1cf43,0x1cf44,0x1cf45,0x1cf46}
comb = lambda c: not surr(c) and ('COMBINING' in u.name(chr(c), '') or c in extra)
fmts = {0x70f,0x180e,0xfeff,0xfffe,0xffff} | set(range(0x200b,0x2010)) | set(range(0x2028,0x202f)) | set(range(0x206a,0x2070)) | set(range(0xfff9,0xfffc))
eaw = [u.east_asian_width(chr(c)) for c in range(N)]
pl = "use Unicode::UCD; die unless Unicode::UCD::UnicodeVersion() eq '15.0.0'; for my $i (0..0x10ffff){ next if $i>=0xd800&&$i<=0xdfff; print \"$i \" if chr($i)=~/\\p{ExtPict}/ }"
# pictographic symbols; those of Latin-1 (copyright, registered) are text
pict = {c for c in map(int, subprocess.check_output(['perl', '-e', pl]).split()) if c > 0xFF}
sets = {
 'u_combining': rng(comb), 'u_format': rng(lambda c: c in fmts),
 'u_wide': rng(lambda c: eaw[c] in 'WF'), 'u_ambiguous': rng(lambda c: eaw[c] == 'A'),
 'u_pictograph': rng(lambda c: c in pict),
}
hdr = "# generated by tools/mkunicode.py from the Unicode Character Database 15.0.0\n"
lines = ["set %s = %s" % (k, ' '.join('%x' % a if a == b else '%x-%x' % (a, b) for a, b in v)) for k, v in sets.items()]
open(os.path.join(V, 'contracts', 'unicode.spec'), 'w').write(hdr + '\n'.join(lines) + '\n')
for k, v in sets.items(): print(k, len(v))
go = "// generated by tools/mkunicode.py from the Unicode Character Database 15.0.0\npackage main\n\nvar unicodeSets = map[string][][2]rune{\n"
for k, v in sets.items():
    go += '\t"%s": {%s},\n' % (k, ', '.join('{0x%x, 0x%x}' % x for x in v))
open(os.path.join(V, 'harness', 'runes', 'sets.go'), 'w').write(go + "}\n")
