"""8-bit encodings against their published tables."""
import re

import vf

COMPOSING = ('cp1255', 'cp1258', 'tcvn')


def tables():
    out = {}
    for line in open(vf.VERIF + '/spec/sb.txt'):
        w = line.split()
        out[w[0]] = [-1 if x == '-' else int(x, 16) for x in w[1:]]
    return out


def run(chk):
    T = tables()
    encs = [e for e in chk.src.encodings if e.name in T]
    missing = set(T) - {e.name for e in encs}
    if missing:
        chk.notes.append('encodings no longer in the library: %s' % sorted(missing))
    exe = chk.path('sb')
    rc, o, err, dt = vf.sh(['gcc', '-std=gnu17', '-O2', '-w'] + chk.src.cflags + [vf.VERIF + '/native/sb.c', '-o', exe], timeout=300)
    if rc:
        chk.notes.append('native driver does not build: ' + err[-1500:])
        exe = None
    by = {e.index: e for e in encs}

    def tab(e, f):
        f.write('%d %s %d %s\n' % (e.index, e.name, e.name in COMPOSING, ' '.join(map(str, T[e.name]))))

    def job(part):
        p = chk.path('tab%d' % part)
        with open(p, 'w') as f:
            for e in encs[part::vf.NCPU]:
                tab(e, f)
        return vf.sh([exe, p], timeout=300)
    if exe:
        n = 0
        for rc, o, err, dt in vf.pmap(job, range(vf.NCPU)):
            for m in re.finditer(r'FAIL (\d+) clause=(\S+) (.*)', o):
                e = by[int(m.group(1))]
                chk.violate('%s:%s' % (e.name, m.group(2)), '%s %s: %s (published table: spec/sb.txt)' % (e.name, m.group(2), m.group(3)), True, m.group(0))
            m = re.search(r'DONE evals=(\d+)', o)
            if m:
                n += int(m.group(1))
            else:
                chk.violate('crash', 'an 8-bit converter dies or does not return (%s)' % rc, True, o[-500:] + err[-1000:])
        chk.coverage['executions'] = n
        chk.bounded.append('%d converter calls: every byte, every code point below 0x120000, and samples above, of %d encodings' % (n, len(encs)))
    if chk.violations:
        return
    chk.src.unit

    def prove(a):
        e, ob = a
        src = chk.src.unit.slice([e.mbtowc, e.wctomb, 'conv_struct', 'state_t', 'ucs4_t'])
        d = '#define DEC %s\n#define ENC %s\n#define UNIT 1\n#define K 1\n#define IN_DST(i,b) ((i)==0&&(b)==0)\n#define IN_EST(o) ((o)==0)\n' % (e.mbtowc, e.wctomb)
        d += 'static const int SPEC[256] = {%s};\n' % ','.join(map(str, T[e.name]))
        d += '#define ONEWAY(w,b) %s\n' % ('(((w)==0xd0&&(b)==0xd0)||((w)==0x203e&&(b)==0xaf))' if e.name == 'cp1163' else '0')
        f = chk.path('sb_%s_%s.c' % (e.name, ob))
        with open(f, 'w') as o:
            o.write(src + d + ''.join('#include "%s/contracts/%s"\n' % (vf.VERIF, x) for x in ('conv.h', 'sb.h')))
        ok, err = vf.goto_cc(f, f[:-2] + '.gb')
        if not ok:
            r = vf.Result('%s.%s' % (e.name, ob), e.mbtowc)
            r.out = err
            return e, r
        r = vf.cbmc(f[:-2] + '.gb', ob, name='%s.%s' % (e.name, ob), unwind=40, timeout=60 if chk.tier == 'quick' else 600)
        r.func = e.mbtowc if ob == 'ob_tdec' else e.wctomb
        return e, r
    for e, r in vf.pmap(prove, [(e, o) for e in encs if e.name not in COMPOSING for o in ('ob_tdec', 'ob_tenc')]):
        chk.add(r)
        if r.status == 'failed':
            t = r.trace
            p = chk.path('tabone')
            with open(p, 'w') as f:
                tab(e, f)
            rc, o, err, dt = vf.sh([exe, p, 'one', str(e.index), '%x' % (vf.num(t.get('g_b[0]')) & 255) if r.func == e.mbtowc else '-',
                                    '%x' % (vf.num(t.get('g_wc')) & 0xffffffff) if r.func != e.mbtowc else '-']) if exe else (1, '', '', 0)
            conc = 'FAIL' in o
            if not conc and 'DONE' in o and not any('outside' in f[1] or 'pointer' in f[1] or 'bound' in f[1] or 'unwind' in f[1] for f in r.failed):
                r.status = 'undecided'
                r.out = 'counterexample refuted by executing the real function: ' + r.out
                continue
            chk.violate('%s:%s' % (e.name, r.failed[0][1].split(':')[0]), '%s: %s %s' % (e.name, r.failed[0][1], o.strip()[:200]), conc,
                        'obligation group %s of %s\n%s\n%s\nverifier: %s' % (r.name, r.func, r.out, o, r.cmd))
