#!/usr/bin/env python3
"""Regenerates spec/sb.txt: the published mapping tables of the 8-bit encodings.
Source: the mapping files in /repo/tests/data (from the Unicode consortium, IBM and vendors), the only
hand-added facts being the two one-way encoder mappings of CP1163 documented in CP1163.IRREVERSIBLE.TXT.
Run by hand; the checks only read sb.txt.  Line: <encoding> <256 code points in hex, - for unassigned>"""
import re, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
D = '/repo/tests/data/'
names = sys.argv[1:]
norm = lambda s: re.sub(r'[^a-z0-9]', '', s.lower())
files = {norm(f[:-4]): f for f in os.listdir(D) if f.endswith('.TXT') and 'IRREV' not in f}
spc = {'mulelao': 'mulelao1', 'riscos1': 'riscoslatin1'}
for e in names:
    k = spc.get(e, norm(e))
    if e.startswith('ebcdic'):
        k = 'ibm' + e[6:] if 'ibm' + e[6:] in files else 'ibm' + e[6:].zfill(3)
    if k not in files:
        sys.stderr.write('no table for %s\n' % e)
        continue
    t = {}
    for l in open(D + files[k]):
        m = re.match(r'0x([0-9A-Fa-f]{2})\s+0x([0-9A-Fa-f]+)\s*$', l.strip().split('#')[0].strip())
        if m:
            t[int(m.group(1), 16)] = int(m.group(2), 16)
    print(e, ' '.join('%X' % t[c] if c in t else '-' for c in range(256)))
