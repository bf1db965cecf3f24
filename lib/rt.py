"""Round trip: the joint states of encoder and decoder, explored on the real converters."""
import re
import threading
import unicodedata

import conv
import vf

COMPOSING = ('cp1255', 'cp1258', 'tcvn')


def oneway():
    t = {}
    for l in open(vf.VERIF + '/spec/oneway.txt'):
        e, a, b = l.split()
        t[e, int(a, 16)] = int(b, 16)
    return t


def allowed(e, kind, sent, got, ow):
    if [ow.get((e, c), c) for c in sent] == got and kind == 'differs':
        return True
    if e in COMPOSING and kind in ('differs', 'flush'):
        try:
            # the tables write U+1E4C etc. as O ACUTE + TILDE although Unicode has the tilde first: order not significant
            a, b = (unicodedata.normalize('NFKD', ''.join(map(chr, x))).replace('\u0301\u0303', '\u0303\u0301')
                    .replace('\u0308\u0303', '\u0303\u0308') for x in (sent, got))
        except ValueError:
            return False
        return a == b if kind == 'flush' else a.startswith(b) or b.startswith(a)
    return False


SEVEN = re.compile(r'^(ascii|iso646.*|iso2022_.*|hz|utf7|java)$')


def states(out):
    """joint states (o, i, border, pending, p, q) and decoder states behind a closed text"""
    J, end = [], []
    for l in out.splitlines():
        w = l.split()
        if l.startswith('JS '):
            n = int(w[4])
            lag = [int(x, 16) for x in w[5:5 + n]]
            if int(w[5 + n]) == 0 and n <= 2:
                J.append((int(w[1], 16), int(w[2], 16), int(w[3], 16), n) + tuple((lag + [0, 0])[:2]))
        elif l.startswith('END7 '):
            end.append(int(w[1], 16))
    return J, end


def run_native(chk, budget, encs=None, seven=False):
    mon = conv.build_mon(chk, False)
    if not mon:
        return None
    ow = oneway()
    lock = threading.Lock()
    chk.joint, chk.end7 = {}, {}
    tot = dict(encodings=0, joint_states=0, calls=0)

    def job(e):
        rc, out, err, dt = vf.sh([mon, 'rtv', str(e.index), str(budget), str(chk.seed)], timeout=60 + 12 * budget)
        with lock:
            chk.joint[e.name], chk.end7[e.name] = states(out)
            for l in out.splitlines():
                m = re.match(r'RT enc=\S+ kind=(\S+) ostate=(\w+) istate=(\w+) border=\d+ wc=(\w+) bytes=(\S+) sent=(\S*) got=(\S*)', l)
                if m and not seven:
                    s, g = ([int(x, 16) for x in m.group(k).split(',') if x] for k in (6, 7))
                    if not allowed(e.name, m.group(1), s, g, ow):
                        chk.violate('%s:%s' % (e.name, m.group(1)),
                                    'encoding %s: U+%s in encoder state %s is written as %s, which decodes to %s, not %s' %
                                    (e.name, m.group(4), m.group(2), m.group(5),
                                     ' '.join('U+%04X' % x for x in g) or ('an error' if m.group(1) != 'flush' else 'nothing'),
                                     ' '.join('U+%04X' % x for x in s)),
                                    True, l + '\nreplay: build native/mon.c against /repo/lib and run `mon rtv %d %s`' % (e.index, budget))
                m = re.match(r'RT7 enc=\S+ kind=(\S+) (.*)', l)
                if m and seven:
                    chk.violate('%s:%s' % (e.name, m.group(1)), 'encoding %s: %s (%s)' % (
                        e.name, 'a byte above 0x7F is emitted' if m.group(1) == 'high' else
                        'after the closing sequence a decoder is not back in its initial state', m.group(2)), True,
                        l + '\nreplay: build native/mon.c against /repo/lib and run `mon rtv %d %s`' % (e.index, budget))
                m = re.match(r'STAT .* joint=(\d+) evals=(\d+)', l)
                if m:
                    tot['encodings'] += 1
                    tot['joint_states'] += int(m.group(1))
                    tot['calls'] += int(m.group(2))
                m = re.match(r'FAIL enc=(\S+) ob=(\S+) (.*)', l)
                if m and m.group(2) in ('memory', 'crash', 'timeout'):
                    chk.violate('%s:%s' % (e.name, m.group(2)), 'encoding %s: %s' % (e.name, m.group(3)), True, l)
            if 'STAT' not in out and 'RT ' not in out and 'FAIL' not in out:
                if rc is None:
                    chk.notes.append('round trip: no answer for %s' % e.name)
                else:
                    chk.violate('crash:' + e.name, 'round trip of %s dies (%s)' % (e.name, rc), True, (err or '')[-2000:])
    order = {'utf7': 0, 'iso2022_jp3': 1, 'iso2022_cn_ext': 1, 'euc_jisx0213': 1, 'shift_jisx0213': 1}
    vf.pmap(job, sorted(encs or chk.src.encodings, key=lambda e: order.get(e.name, 9)))
    chk.bounded.append('exhaustive execution: for %d encodings every joint encoder/decoder state found (%d) with every '
                       'character U+0000..U+10FFFF the time allows (complete for all but UTF-7), %d converter calls' %
                       (tot['encodings'], tot['joint_states'], tot['calls']))
    chk.coverage['roundtrip'] = tot
    return mon
