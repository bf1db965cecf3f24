"""The Unicode encodings against their definitions."""
import re
import sys

import vf

LE = sys.byteorder == 'little'
FORMS = {'utf8': (0, 0), 'ucs2': (1, 2), 'ucs2be': (1, 0), 'ucs2le': (1, 1), 'ucs2internal': (1, int(LE)), 'ucs2swapped': (1, int(not LE)),
         'utf16': (2, 2), 'utf16be': (2, 0), 'utf16le': (2, 1),
         'ucs4': (3, 2), 'ucs4be': (4, 0), 'ucs4le': (4, 1), 'ucs4internal': (4, int(LE)), 'ucs4swapped': (4, int(not LE)),
         'utf32': (5, 2), 'utf32be': (5, 0), 'utf32le': (5, 1), 'c99': (6, 0), 'java': (7, 0), 'utf7': (-1, 0)}


def run_native(chk, budget):
    out = chk.path('uni')
    rc, o, err, dt = vf.sh(['gcc', '-std=gnu17', '-O2', '-w', '-I' + vf.VERIF + '/contracts'] + chk.src.cflags +
                           [vf.VERIF + '/native/uni.c', '-o', out], timeout=300)
    if rc:
        chk.notes.append('native driver does not build: ' + err[-1500:])
        return
    encs = [e for e in chk.src.encodings if e.name in FORMS]

    def job(e):
        f, o = FORMS[e.name]
        return e, vf.sh([out, str(e.index), str(f), str(o), str(budget), str(chk.seed)], timeout=120 + 4 * budget)
    n = 0
    for e, (rc, o, err, dt) in vf.pmap(job, encs):
        for m in re.finditer(r'FAIL clause=(\S+) bytes=(\S+) msg=(.*)', o):
            chk.violate('%s:%s' % (e.name, m.group(1)), '%s, %s: bytes %s: %s' % (e.name, m.group(1), m.group(2), m.group(3)),
                        True, m.group(0))
        m = re.search(r'DONE evals=(\d+)', o)
        if m:
            n += int(m.group(1))
        elif 'FAIL' not in o:
            chk.violate('%s:crash' % e.name, '%s: the converter dies or does not return (%s)' % (e.name, rc), True, o[-500:] + err[-500:])
    chk.bounded.append('%d converter calls of the %d Unicode encodings compared with the definitions' % (n, len(encs)))
    chk.coverage['executions'] = n


def prove(chk, mon):
    import conv
    chk.src.unit
    encs = [e for e in chk.src.encodings if e.name in FORMS and e.name != 'utf7']
    limit = 60 if chk.tier == 'quick' else 600

    def job(a):
        e, ob = a
        form, order = FORMS[e.name]
        names = [x for x in (e.mbtowc, e.wctomb, 'conv_struct', 'state_t', 'ucs4_t') if x]
        src = chk.src.unit.slice(names)
        w = {0: 4, 1: 2, 2: 4, 3: 4, 4: 4, 5: 4, 6: 10, 7: 12}[form]
        nmax = None
        if order == 2:
            nmax = (12 if w == 4 and form != 2 else 10) if chk.tier == 'quick' else 28
            w = nmax
        d = '#define DEC %s\n#define ENC %s\n#define UNIT 1\n#define K %d\n' % (e.mbtowc, e.wctomb, w)
        if nmax:
            d += '#define NMAX %d\n#define SP_MARKS %d\n' % (nmax, nmax // 2 + 1)
        else:
            d += '#define SP_MARKS 1\n'
        d += '#define IN_DST(i,b) ((i)==0 && (b) <= %d)\n#define IN_EST(o) ((o) <= %d)\n' % (order == 2, order == 2 and form in (2, 5))
        d += '#define SP_FORM %d\n#define SP_ORDER %d\n' % (form, order)
        f = chk.path('uni_%s_%s.c' % (e.name, ob))
        with open(f, 'w') as o:
            o.write(src + d + ''.join('#include "%s/contracts/%s"\n' % (vf.VERIF, x) for x in ('conv.h', 'unicode_spec.h', 'uni_ob.h')))
        gb = f[:-2] + '.gb'
        ok, err = vf.goto_cc(f, gb)
        if not ok:
            r = vf.Result('%s.%s' % (e.name, ob), e.mbtowc)
            r.out = err
            return e, r
        r = vf.cbmc(gb, ob, name='%s.%s' % (e.name, ob), unwind=32, timeout=limit,
                    bounded='at most %d input bytes per call (byte order marks)' % nmax if nmax and ob == 'ob_sdec' else None)
        r.func = e.mbtowc if ob == 'ob_sdec' else e.wctomb
        return e, r
    for e, r in vf.pmap(job, [(e, o) for e in encs for o in ('ob_sdec', 'ob_senc')]):
        chk.add(r)
        if r.status == 'failed':
            # the input the verifier found, on the real function
            t = r.trace
            inp = ', '.join('%s=%s' % (k, v) for k, v in sorted(t.items()) if k.startswith('g_'))
            conf = confirm(chk, e, r)
            body = 'obligation group %s of %s\n%s\ncounterexample: %s\n%s\nverifier: %s' % (
                r.name, r.func, r.out, inp, conf or '', r.cmd)
            if conf:
                chk.violate('%s:%s' % (e.name, r.failed[0][1].split(':')[0]), '%s: %s (%s)' % (e.name, r.failed[0][1], conf), True, body)
            elif conf is None:
                chk.violate('%s:%s' % (e.name, r.failed[0][1].split(':')[0]), '%s: %s' % (e.name, r.failed[0][1]), False, body)
            else:
                r.status = 'undecided'
                r.out = 'counterexample refuted by executing the real function: ' + r.out


def confirm(chk, e, r):
    """run the counterexample: text if the real function deviates, '' if it does not, None if it cannot be run"""
    t = r.trace
    if not t:
        return None
    form, order = FORMS[e.name]
    b = [vf.num(t.get('g_b[%d]' % i)) & 255 for i in range(16)]
    n = max(1, min(vf.num(t.get('g_n'), 1), 16)) if vf.num(t.get('g_n'), 1) >= 0 else 16
    c = chk.path('confirm_%s.c' % r.name.replace('.', '_'))
    with open(c, 'w') as f:
        f.write('''#include "iconv.c"
#include <stdio.h>
#include "unicode_spec.h"
int main(void){ struct conv_struct cd; memset(&cd,0,sizeof cd); cd.istate=%uu; cd.ibyteorder=%uu; cd.ostate=%uu; cd.iindex=cd.oindex=%d;
struct uspec u={%d,%d}; unsigned char b[64]={%s}; unsigned w1=0,w2=0,bo=cd.ibyteorder,st=cd.ostate; unsigned char x[64]={0},y[64]={0};
if(%d){ int r=all_encodings[%d].ifuncs.xxx_mbtowc(&cd,&w1,b,%d), q=sp_dec(u,&bo,&w2,b,%d);
 if(r!=q||(r>=0&&w1!=w2)||bo!=cd.ibyteorder) printf("DIFF decoder returns %%d U+%%X, defined %%d U+%%X\\n",r,w1,q,w2); }
else { unsigned wc=%uu; for(unsigned n=1;n<40;n++){ memset(x,0,64); cd.ostate=%uu; st=cd.ostate; int r=all_encodings[%d].ofuncs.xxx_wctomb(&cd,x,wc,n), q=sp_enc(u,&st,wc,y);
 if(q<0 ? r>=0||(n>=16&&r!=-1) : n<q ? r!=-2 : r!=q||memcmp(x,y,q)||st!=cd.ostate) { printf("DIFF encoder returns %%d for U+%%X with room %%u, defined %%d\\n",r,wc,n,q); break; } } }
printf("RAN\\n"); return 0; }
''' % (vf.num(t.get('g_ist')) & 0xffffffff, vf.num(t.get('g_bo')) & 0xffffffff, vf.num(t.get('g_ost')) & 0xffffffff, e.index,
       form, order, ','.join(map(str, b)), int(r.func == e.mbtowc), e.index, n, n, vf.num(t.get('g_wc')) & 0xffffffff,
       vf.num(t.get('g_ost')) & 0xffffffff, e.index))
    rc, o, err, dt = vf.sh(['gcc', '-std=gnu17', '-O1', '-w', '-I' + vf.VERIF + '/contracts'] + chk.src.cflags + [c, '-o', c[:-2]], timeout=120)
    if rc:
        return None
    rc, o, err, dt = vf.sh([c[:-2]], timeout=20)
    m = re.search(r'DIFF (.*)', o or '')
    if m:
        return m.group(1)
    return '' if 'RAN' in (o or '') else 'the converter dies'
