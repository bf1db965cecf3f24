"""one-way mappings of the unchanged tree, from the output of `mon rtv` (stdin); reviewed and committed as oneway.txt"""
import re
import sys
seen = set()
for l in sys.stdin:
    m = re.match(r'RT enc=(\S+) kind=differs .* wc=(\w+) .* sent=(\w+) got=(\w+)$', l)
    if m and m.group(1) not in ('cp1255', 'cp1258', 'tcvn'):
        seen.add((m.group(1), int(m.group(3), 16), int(m.group(4), 16)))
for e, a, b in sorted(seen):
    print('%s %04X %04X' % (e, a, b))
