"""names, aliases and code pages of the unchanged tree from the list of encodings (lib/encodings.h.snippet);
reviewed and committed as names.txt: the reference for C08 and C10"""
import re
t = open('/repo/lib/encodings.h.snippet').read()
t = re.sub(r'/\*.*?\*/|//[^\n]*', '', t, flags=re.S)
for m in re.finditer(r'DEFENCODING\(\(\s*(.*?)\)\s*,\s*(\w+)\s*,|DEFCODEPAGE\((\d+)\s*,\s*(\w+)\s*\)', t, re.S):
    if m.group(2):
        for n in re.findall(r'"([^"]*)"', m.group(1)):
            print('name', n, m.group(2))
    else:
        print('codepage', m.group(3), m.group(4))
