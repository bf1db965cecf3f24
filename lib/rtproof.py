"""Round-trip and 7-bit obligations (contracts/rt.h) over the real encoder and decoder of each encoding."""
import re
import threading
import time
from concurrent.futures import FIRST_COMPLETED, ThreadPoolExecutor, wait

import conv
import leaf
import rt
import vf

EXCL = [(re.compile(r'^iso2022_'), ['0x1b', '0xe', '0xf']),
        (re.compile(r'^(ucs2|utf16|ucs4|utf32)$'), ['0xfeff', '0xfffe', '0xfffe0000u']),
        (re.compile(r'^(c99|java)$'), ['0x5c'])]


def in_j(J):
    return ' || '.join('((o)==%du&&(i)==%du&&(b)==%du&&(n)==%d&&(p)==%du&&(q)==%du)' % j for j in J)


def defs(e, J, J0, oneway, est, seven, steps, lemmas=''):
    d = '#define DEC %s\n#define ENC %s\n#define UNIT %d\n#define K 4\n' % (e.mbtowc, e.wctomb, conv.unit_size(e.name))
    if e.flushwc:
        d += '#define FLUSH %s\n' % e.flushwc
    if e.reset:
        d += '#define RST %s\n' % e.reset
    d += '#define IN_DST(i,b) 1\n#define IN_EST(o) (%s)\n' % ' || '.join('((o)==%du)' % a for a in est)
    d += '#define IN_J(o,i,b,n,p,q) (%s)\n' % in_j(J)
    d += '#define IN_J0(o,i,b,n,p,q) (%s)\n' % in_j(J0)
    x = ['((w)>=0xd800&&(w)<0xe000)'] + ['(w)==%s' % v for r, vs in EXCL if r.match(e.name) for v in vs]
    d += '#define EXCLUDED(w) (%s)\n' % ' || '.join(x)
    ow = [(c, g) for (n, c), g in oneway.items() if n == e.name]
    d += '#define SAME(w,v) ((w)==(v)%s)\n' % ''.join(' || ((w)==0x%xu&&(v)==0x%xu)' % p for p in ow)
    d += '#define STEPS %d\n' % steps
    if e.name == 'iso2022_jp2':
        d += '#define RT_NOTAGS\n'
    if seven:
        d += '#define SEVEN\n'
    d += '#define RT_LEMMAS %s\n' % lemmas
    return d


PAIR = r'''
#include "iconv.c"
#include <stdio.h>
#include <signal.h>
#include <unistd.h>
static void die(int s) { printf("DIED\n"); fflush(stdout); _exit(3); }
typedef int (*dec_t)(conv_t, ucs4_t *, const unsigned char *, size_t);
typedef int (*enc_t)(conv_t, unsigned char *, ucs4_t, size_t);
static struct conv_struct cd;
@FUNCS@
/* per first byte: the second bytes as two intervals around the widest gap */
static void hull(const char *tag, const unsigned char *two)
{
    for (int a = 0; a < 256; a++)
    {
        int lo = -1, hi = -1, ga = -1, gb = -1, prev = -1;
        for (int b = 0; b < 256; b++)
            if (two[a << 8 | b]) { if (lo < 0) lo = b; else if (b - prev > 1 && b - prev > gb - ga) { ga = prev; gb = b; } prev = hi = b; }
        if (lo >= 0) printf(" %s:%d:%d:%d:%d:%d", tag, a, lo, ga < 0 ? hi : ga, ga < 0 ? hi : gb, hi);
    }
}
static void pair(const char *name, enc_t e, dec_t d)
{
    unsigned n = 0, bits[8] = {0}; static unsigned char seen[5][4][256], two[5][65536];
    printf("PAIR %s", name);
    for (ucs4_t c = 0; c < 0x110000; c++)
    {
        unsigned char b[8]; ucs4_t w = 0; int k = e(&cd, b, c, 8);
        if (k >= 0)
        {
            int r = d(&cd, &w, b, k);
            n++;
            for (int i = 0; i < k && k < 5; i++) seen[k][i][b[i]] = 1;
            if (k > 1 && k < 5) two[k][b[k - 2] << 8 | b[k - 1]] = 1;
            if (r != k || w != c) printf(" x%x:%x", c, r == k ? w : 0xffffffff);
        }
        if (k == 2 && b[1] & 0x80) printf(" f%x", c);
        if (k >= 0) bits[(c >> 5) & 7] |= 1u << (c & 31);
        if ((c & 0xff) == 0xff && n) { printf(" a%x", c >> 8); for (int i = 0; i < 8; i++) { printf(":%x", bits[i]); bits[i] = 0; } }
        if ((c & 0xff) == 0xff && n) { printf(" n%x:%u", c >> 8, n); n = 0; }
    }
    for (int k = 1; k < 5; k++) for (int i = 0; i < k; i++) for (int v = 0; v < 256; v++)
        if (seen[k][i][v] && !(v && seen[k][i][v - 1])) { int u = v; while (u < 255 && seen[k][i][u + 1]) u++; printf(" r%d:%d:%d:%d", k, i, v, u); }
    for (int k = 2; k < 5; k++) { char t[8]; sprintf(t, "t%d", k); hull(t, two[k]); }
    printf("\n");
}
static void decs(const char *name, dec_t d)
{
    static unsigned char two[65536];
    for (unsigned v = 0; v < 65536; v++) { unsigned char b[2] = {v >> 8, v & 255}; ucs4_t w; two[v] = d(&cd, &w, b, 2) == 2; }
    printf("DECS %s", name);
    hull("h", two);
    printf("\n");
}
int main(int argc, char **argv)
{
    signal(SIGABRT, die); signal(SIGSEGV, die); signal(SIGALRM, die); alarm(60);
    if (argc > 2)
    {
        unsigned v[8] = {0}; unsigned char b[8] = {0}; int n = argc - 2;
        for (int i = 0; i < n && i < 8; i++) { v[i] = strtoul(argv[i + 2], 0, 16); b[i] = v[i]; }
        switch (atoi(argv[1])) {
@POINTS@
        }
        return 0;
    }
    switch (atoi(argv[1])) {
@CASES@
    }
    return 0;
}
'''

POINT_E = '''    case %d: { int k = %s(&cd, b, v[0], 8); printf("PT %%d", k); for (int i = 0; i < k; i++) printf(" %%u", b[i]); printf("\\n"); break; }
'''
POINT_D = '''    case %d: { ucs4_t w = 0; int k = %s(&cd, &w, b, n); printf("PT %%d %%u\\n", k, w); break; }
'''

LEMMA = r'''
unsigned nondet_uint(void);
unsigned g_wc, g_w;
int g_r, g_k;
void ob_leaf_rt(void)
{
    static unsigned char b[8];
    struct conv_struct cd;
    unsigned w;
    g_wc = nondet_uint();
    __CPROVER_assume(g_wc >= LO && g_wc <= HI);
    RT_LEMMAS
    g_k = ENC(&cd, b, g_wc, 8);
    if (g_k < 0)
        return;
    __CPROVER_assert(BYTES, "RT.bytes: the characters accepted and the bytes written lie in the ranges of the contract");
    g_r = DEC(&cd, &w, b, g_k);
    g_w = w;
    __CPROVER_assert(g_r == g_k && w == MAP(g_wc), "RT.leaf: a character accepted by the character set is what its bytes decode to");
    __CPROVER_assert(0, "reach.leaf");
}
'''

HULL = r'''
unsigned char nondet_uchar(void);
unsigned char g_b[2];
void ob_hull(void)
{
    struct conv_struct cd;
    unsigned w;
    g_b[0] = nondet_uchar();
    g_b[1] = nondet_uchar();
    if (DEC(&cd, &w, g_b, 2) != 2)
        return;
    __CPROVER_assert(HULL(g_b[0], g_b[1]), "RT.hull: the two-byte characters accepted lie in the ranges of the contract");
    __CPROVER_assert(0, "reach.hull");
}
'''


# a pair of pure functions: character -> code, (row, column) -> character, as in JIS X 0213
PURE = {'ucs4_to_jisx0213': ('jisx0213_to_ucs4', '((%s)>>15 ? 0x200 : 0x100) + (((%s)>>8)&0x7f)', '(%s)&0x7f')}
PURE_GLUE = r'''static int rt_enc_%(n)s(conv_t cd, unsigned char *b, ucs4_t w, size_t n)
{
    unsigned v = %(f)s(w);
    if (v == 0)
        return -1;
    b[0] = v >> 8;
    b[1] = v;
    return 2;
}
static int rt_dec_%(n)s(conv_t cd, ucs4_t *w, const unsigned char *b, size_t n)
{
    unsigned v = b[0] << 8 | b[1];
    *w = %(g)s(%(row)s, %(col)s);
    return *w ? 2 : -1;
}
'''


class Pair:
    """an encoder leaf and the decoder leaf of each set it encodes into (by leading plane byte, or just one)"""


def ENC(p):
    return 'rt_enc_' + p.name if p.pure else p.enc.name


def tables(tag, rows):
    """two intervals of second bytes per first byte: declarations, and the macro tag(a,b)"""
    t = [[255] * 256, [0] * 256, [255] * 256, [0] * 256]
    for a, lo, ga, gb, hi in rows:
        t[0][a], t[1][a], t[2][a], t[3][a] = lo, ga, gb, hi
    d = ''.join('static const unsigned char %s_%d[256] = {%s};\n' % (tag, i, ','.join(map(str, x))) for i, x in enumerate(t))
    return d + '#define %s(a,b) (((b)>=%s_0[a] && (b)<=%s_1[a]) || ((b)>=%s_2[a] && (b)<=%s_3[a]))\n' % ((tag,) * 5)


def accept(p):
    """the characters accepted, as a two-level table: declarations and the macro acc_<name>(w)"""
    n = max(p.acc or [0]) + 1
    pages = sorted(p.acc)
    idx = {b: i + 1 for i, b in enumerate(pages)}
    words = [0] * 8 + [x for b in pages for x in p.acc[b]]
    a = 'acc_' + p.name
    return ('static const unsigned short %s_i[%d] = {%s};\nstatic const unsigned %s_b[%d] = {%s};\n' % (
        a, n, ','.join(str(idx.get(b, 0)) for b in range(n)), a, len(words), ','.join('0x%xu' % x for x in words)) +
        '#define %s(w) ((w)<0x%xu && (%s_b[%s_i[(w)>>8]*8 + (((w)>>5)&7)] >> ((w)&31) & 1))\n' % (a, n << 8, a, a))


def profile_pairs(chk, out, decs):
    src = chk.path('pairprof.c')
    pts, chk.points = '', {}
    for i, p in enumerate(out):
        if p.pure:
            g = PURE[p.enc.name][0]
            pts += '    case %d: printf("PT %%u\\n", %s(v[0])); break;\n' % (i, p.enc.name)
            pts += '    case %d: printf("PT %%u\\n", %s(v[0], v[1])); break;\n' % (1000 + i, g)
            chk.points[p.enc.name], chk.points[g] = i, 1000 + i
            continue
        pts += POINT_E % (i, p.enc.name)
        chk.points.setdefault(p.enc.name, i)
    for i, d in enumerate(decs):
        pts += POINT_D % (len(out) + i, d.name)
        chk.points[d.name] = len(out) + i
    open(src, 'w').write(PAIR.replace('@FUNCS@', ''.join(glue(p) for p in out)).replace('@CASES@', ''.join(
        '    case %d: pair("%s", %s, rt_dec_%s); break;\n' % (i, p.name, ENC(p), p.name) for i, p in enumerate(out)) + ''.join(
        '    case %d: decs("%s", %s); break;\n' % (len(out) + i, d.name, d.name) for i, d in enumerate(decs))).replace('@POINTS@', pts))
    chk.pairexe = chk.path('pairprof')
    rc, o, e, dt = vf.sh(['gcc', '-std=gnu17', '-w', '-O2'] + chk.src.cflags + [src, '-o', chk.pairexe], timeout=300)
    if rc != 0:
        chk.notes.append('pair profile does not build: ' + (e or '')[-500:])
        return False

    def job(i):
        rc, o, e, dt = vf.sh([chk.pairexe, str(i)], timeout=100)
        w = (o or '').split()
        rows = {}
        for v in w[2:]:
            if v[0] in 'th':
                f = v.split(':')
                rows.setdefault(f[0], []).append(tuple(map(int, f[1:])))
        if i >= len(out):
            d = decs[i - len(out)]
            d.hull = rows.get('h') if w[:2] == ['DECS', d.name] and d.L == 2 else None
            return
        p = out[i]
        p.ok = False
        if w[:2] == ['PAIR', p.name]:
            p.exc = [tuple(int(x, 16) for x in v[1:].split(':')) for v in w[2:] if v[0] == 'x']
            p.bytes = {}
            for v in w[2:]:
                if v[0] == 'r':
                    k, j, a, b = map(int, v[1:].split(':'))
                    p.bytes.setdefault((k, j), []).append((a, b))
            p.hist = [(int(v[1:].split(':')[0], 16), int(v.split(':')[1])) for v in w[2:] if v[0] == 'n']
            p.n = sum(n for b, n in p.hist)
            p.flag = [int(v[1:], 16) for v in w[2:] if v[0] == 'f']
            p.acc = {int(v[1:].split(':')[0], 16): [int(x, 16) for x in v.split(':')[1:]] for v in w[2:] if v[0] == 'a'}
            p.two = {int(t[1:]): r for t, r in rows.items()}
            p.tab = ''.join(tables('two%d_%s' % (k, p.name), r) for k, r in sorted(p.two.items())) + accept(p)
            p.ok = len(p.exc) <= 40 and all(b != 0xffffffff for a, b in p.exc)
    vf.pmap(job, range(len(out) + len(decs)))
    return True


def point(chk, f, args):
    """result of a leaf for one input: list of numbers"""
    rc, o, e, dt = vf.sh([chk.pairexe, str(chk.points[f])] + ['%x' % a for a in args], timeout=20)
    w = (o or '').split()
    return list(map(int, w[1:])) if w[:1] == ['PT'] else None


def pairs(chk, leaves):
    """encoders and decoders of one character set, with the characters they accept"""
    L = leaves.proved
    out = []

    def add(name, enc, decs):
        p = Pair()
        p.name, p.enc, p.decs, p.pure = name, enc, decs, enc.kind == 'pure'
        p.funcs = [enc.name] + [d.name for k, d in decs]
        out.append(p)
    for l in L.values():
        if l.name in PURE and L.get(PURE[l.name][0]) and l.kind == 'pure':
            add(l.name, l, [(None, L[PURE[l.name][0]])])
        if l.kind != 'enc' or not l.name.endswith('_wctomb'):
            continue
        name = l.name[:-7]
        d = L.get(name + '_mbtowc')
        if d and d.kind == 'dec':
            add(name, l, [(None, d)])
        elif name.endswith('_inv') and l.L == 3:
            base = name[:-4]
            ds = [(int(m.group(1)), x) for x in L.values() for m in [re.fullmatch(re.escape(base) + r'_(\d+)_mbtowc', x.name)] if m and x.kind == 'dec']
            if ds:
                add(name, l, ds)
        else:
            m = re.match(r'([a-z]+\d+)', name)      # one encoder, decoders of several editions
            for x in L.values():
                if m and x.kind == 'dec' and x.name.startswith(m.group(1)) and not L.get(x.name[:-7] + '_wctomb') and re.sub(r'\d{4}_?|_', '', x.name[:-7]) == re.sub('_', '', name):
                    add(x.name[:-7], l, [(None, x)])
    decs = list({d.name: d for p in out if not p.pure for k, d in p.decs}.values())
    if not profile_pairs(chk, out, decs):
        return []
    return [p for p in out if p.ok]


def glue(p):
    """the decoder of what an encoder leaf writes"""
    if p.pure:
        g, row, col = PURE[p.enc.name]
        return PURE_GLUE % dict(n=p.name, f=p.enc.name, g=g, row=row.replace('%s', 'v'), col=col.replace('%s', 'v'))
    b = 'static int rt_dec_%s(conv_t cd, ucs4_t *w, const unsigned char *b, size_t k)\n{\n' % p.name
    for k, d in p.decs:
        b += '    return %s(cd, w, b, k);\n' % d.name if k is None else \
            '    if (b[0] == %d) { int r = %s(cd, w, b + 1, k - 1); return r < 0 ? r : r + 1; }\n' % (k, d.name)
    return b + ('' if p.decs[0][0] is None else '    return -1;\n') + '}\n'


def chunks(p, size):
    """ranges of code points that together cover 0..2^32-1, with about size accepted characters each"""
    out, lo, n = [], 0, 0
    for blk, k in p.hist:
        if n and n + k > size:
            out.append((lo, (blk << 8) - 1))
            lo, n = blk << 8, 0
        n += k
    return out + [(lo, 0xffffffff)]


def mapping(p, w):
    return '(%s%s)' % (''.join('%s==0x%xu?0x%xu:' % (w, a, b) for a, b in p.exc), w)


def facts(p, k, w, bs):
    """what is written with k bytes: which characters, which bytes (profile; proved with the lemma)"""
    out = []
    for i in range(k):
        iv = p.bytes.get((k, i), [])
        if not 1 <= len(iv) <= 10:
            iv = [(min([a for a, b in iv] or [0]), max([b for a, b in iv] or [255]))]
        out.append('(%s)' % ' || '.join('(%s>=%d && %s<=%d)' % (bs[i], a, bs[i], b) for a, b in iv))
    if k in p.two:
        out.append('two%d_%s(%s,%s)' % (k, p.name, bs[k - 2], bs[k - 1]))
    if p.pure and len(p.flag) <= 64:
        out.append('(!(%s & 0x80) || %s)' % (bs[1], ' || '.join('%s==0x%xu' % (w, c) for c in p.flag) or '0'))
    out.append('acc_%s(%s)' % (p.name, w))
    return ' && '.join(out)


def lemma(p, w, src):
    """the round-trip lemma of p, for the character w, over the functions that stand for p's results"""
    U = '__CPROVER_uninterpreted_'
    out = ''
    e = p.enc
    if p.pure:
        v = '%s%s(%s)' % (U, e.name, w)
        g, row, col = PURE[e.name]
        return '__CPROVER_assume(%s==0 || (%s && %s%s(%s, %s)==%s));' % (
            v, facts(p, 2, w, ['((%s)>>8)' % v, '((%s)&255)' % v]), U, g, row.replace('%s', v), col.replace('%s', v), mapping(p, w))
    bytes_ = ['%s%s_b%d(%s)' % (U, e.name, i, w) for i in range(e.L)]
    for k in range(1, e.L + 1):
        if k not in e.R[0]:
            continue
        out += '__CPROVER_assume(%s%s_k(%s)!=%d || (%s));' % (U, e.name, w, k, facts(p, k, w, bytes_))
        for plane, d in p.decs:
            bs = bytes_[:k] if plane is None else bytes_[1:k]
            cond = '%s%s_k(%s)==%d' % (U, e.name, w, k)
            if plane is not None:
                cond += ' && %s==%d' % (bytes_[0], plane)
            if not bs or len(bs) > d.L:
                out += '__CPROVER_assume(!(%s));' % cond
                continue
            if '%s%s_' % (U, d.name) not in src:
                continue
            con = []
            for m in range(1, len(bs) + 1):
                r = '%s_one[%s]' % (d.name, bs[0]) if m == 1 else '%s%s_r%d(%s)' % (U, d.name, m, ','.join(bs[:m]))
                con.append('%s==%d' % (r, len(bs) if m == len(bs) else -2))
            con.append('%s%s_w%d(%s)==%s' % (U, d.name, len(bs), ','.join(bs), mapping(p, w)))
            out += '__CPROVER_assume(!(%s) || (%s));' % (cond, ' && '.join(con))
        if p.decs[0][0] is not None:
            out += '__CPROVER_assume(!(%s%s_k(%s)==%d) || %s);' % (
                U, e.name, w, k, ' || '.join('%s==%d' % (bytes_[0], q) for q, d in p.decs))
    return out


def stands(p, src):
    """p's encoder and at least one of its decoders are represented by their contracts in src"""
    if p.pure:
        return all('__CPROVER_uninterpreted_%s(' % f in src for f in p.funcs)
    return all('__CPROVER_uninterpreted_%s_' % f in src for f in p.funcs[:1]) and any('__CPROVER_uninterpreted_%s_' % f in src for f in p.funcs[1:])


def lemmas(ps, src, w, pts=()):
    U = '__CPROVER_uninterpreted_'
    out = ''.join(lemma(p, w, src) for p in ps if stands(p, src))
    for f, args, res in sorted(list(pts)):
        if U + f + '(' in src:
            out += '__CPROVER_assume(%s%s(%s)==%d);' % (U, f, ','.join('0x%xu' % x for x in args), res[0])
            continue
        if U + f + '_' not in src:
            continue
        a = ','.join('0x%xu' % x for x in args)
        if '_b0' in src and U + f + '_k(' in src:
            out += '__CPROVER_assume(%s%s_k(%s)==%d);' % (U, f, a, res[0])
            out += ''.join('__CPROVER_assume(%s%s_b%d(%s)==%d);' % (U, f, i, a, x) for i, x in enumerate(res[1:]))
        elif len(args) > 1:
            out += '__CPROVER_assume(%s%s_r%d(%s)==%d);' % (U, f, len(args), a, res[0])
            if res[0] == len(args):
                out += '__CPROVER_assume(%s%s_w%d(%s)==%du);' % (U, f, len(args), a, res[1])
        elif res[0] == 1:
            out += '__CPROVER_assume(%s%s_w1(%s)==%du);' % (U, f, a, res[1])
    return out or '((void)0);'


def prove_pair(chk, p, lo, hi, limit, proved, leaves):
    """proved: pairs with a lemma; the callees among them stand by their contracts"""
    unit = chk.src.unit
    sub = [q for q in proved if q is not p and not set(q.funcs) & set(p.funcs)]
    stops = {f: leaves.proved[f] for q in sub for f in q.funcs}
    src, hv = conv.slice_src(unit, p.funcs + ['conv_struct', 'state_t', 'ucs4_t'], False, stops)
    f = chk.path('rtl_%s_%x.c' % (p.name, lo))
    open(f, 'w').write(src + ''.join(q.tab for q in [p] + sub) + glue(p) + '#define ENC %s\n#define DEC rt_dec_%s\n#define LO 0x%xu\n#define HI 0x%xu\n' % (
        ENC(p), p.name, lo, hi) + '#define BYTES (%s)\n' % ' && '.join(
            '(g_k!=%d || (%s))' % (k, facts(p, k, 'g_wc', ['b[%d]' % i for i in range(4)])) for k in range(1, 5) if (k == 2 if p.pure else k in p.enc.R[0])) +
        '#define MAP(w) %s\n#define RT_LEMMAS %s\n' % (mapping(p, '(w)'), lemmas(sub, src, 'g_wc')) + LEMMA)
    return goto(chk, f, 'ob_leaf_rt', '%s.rt[%x..%x]' % (p.name, lo, hi), p.enc.name, limit)


def goto(chk, f, ob, name, func, limit):
    gb = f[:-2] + '.gb'
    ok, err = vf.goto_cc(f, gb)
    if not ok:
        r = vf.Result(name, func)
        r.out = err
        return r
    r = vf.cbmc(gb, ob, name=name, unwind=24, timeout=limit, extra=['--sat-solver', 'cadical', '--slice-formula'], checks=['--no-standard-checks'])
    r.func = func
    if r.status == 'failed':
        r.status = 'undecided'          # not a lemma: its users are verified against the bodies
        r.out = 'not a lemma: %s' % {k: v for k, v in r.trace.items() if k[:2] == 'g_'}
    return r


def prove_hull(chk, d, limit):
    src, hv = conv.slice_src(chk.src.unit, [d.name, 'conv_struct', 'state_t', 'ucs4_t'], False)
    f = chk.path('rth_%s.c' % d.name)
    open(f, 'w').write(src + tables('hull_' + d.name, d.hull) + '#define DEC %s\n#define HULL hull_%s\n' % (d.name, d.name) + HULL)
    return goto(chk, f, 'ob_hull', '%s.hull' % d.name, d.name, limit)


def prove_points(chk, pts, limit):
    """the results of single inputs used in the proofs of the encodings"""
    fs = sorted({f for f, a, r in pts})
    src, hv = conv.slice_src(chk.src.unit, fs + ['conv_struct', 'state_t', 'ucs4_t'], False)
    b = 'void ob_points(void)\n{\n    struct conv_struct cd; unsigned w;\n'
    for n, (f, a, r) in enumerate(sorted(pts)):
        if chk.kind[f] == 'pure':
            b += '    __CPROVER_assert(%s(%s) == %d, "RT.point: %s");\n' % (f, ', '.join(map(str, a)), r[0], f)
        elif chk.kind[f] == 'enc':
            c = ' && '.join(['k == %d' % r[0]] + ['b[%d] == %d' % (i, x) for i, x in enumerate(r[1:])])
            b += '    { static unsigned char b[8]; int k = %s(&cd, b, 0x%xu, 8); __CPROVER_assert(%s, "RT.point: %s"); }\n' % (f, a[0], c, f)
        else:
            c = 'k == %d' % r[0] + (' && w == %du' % r[1] if r[0] > 0 else '')
            b += '    { static const unsigned char b[] = {%s}; int k = %s(&cd, &w, b, %d); __CPROVER_assert(%s, "RT.point: %s"); }\n' % (
                ','.join(map(str, a)), f, len(a), c, f)
    f = chk.path('rtpoints.c')
    open(f, 'w').write(src + b + '    __CPROVER_assert(0, "reach.points");\n}\n')
    return goto(chk, f, 'ob_points', 'points', 'character-set functions', limit)


BIG = 300               # characters; smaller sets stay as they are


def schedule(chk, leaves, limit, size, ps, lift, deadline):
    """lemma of every pair, callees first; -> pairs whose lemma is proved (or decided by execution: lift)"""
    calls = {p.name: set() for p in ps}
    for p in ps:
        w, seen = list(p.funcs), set()
        while w:
            for g in leaves.callees.get(w.pop(), ()):
                if g not in seen:
                    seen.add(g)
                    w.append(g)
        calls[p.name] = {q.name for q in ps if q is not p and set(q.funcs) & seen}
    proved = [p for p in ps if lift(p)]
    dead, late = set(), []

    def pair(p, lo, hi, sub):
        return None if time.time() > deadline else prove_pair(chk, p, lo, hi, limit, sub, leaves)
    with ThreadPoolExecutor(vf.NCPU) as ex:
        rest, run, left = sorted([p for p in ps if not lift(p)], key=lambda p: p.n), {}, {}
        hulls = {ex.submit(prove_hull, chk, d, limit): d for d in {d.name: d for p in ps for k, d in p.decs}.values() if d.hull}
        while rest or run:
            for p in [p for p in rest if not any(q.name in calls[p.name] for q in rest) and not any(q.name in calls[p.name] for q, x in run.values())]:
                rest.remove(p)
                sub = [q for q in proved if q.name in calls[p.name]]
                cs = chunks(p, size if not sub else 1 << 30)
                left[p.name] = len(cs)
                for lo, hi in cs:
                    run[ex.submit(pair, p, lo, hi, sub)] = (p, 0)
            if not run:
                break
            for f in wait(run, return_when=FIRST_COMPLETED)[0]:
                p, x = run.pop(f)
                r = f.result()
                if r is None:
                    late.append(p.name)
                else:
                    chk.add(r)
                    if r.status != 'proved':
                        dead.add(p.name)
                left[p.name] -= 1
                if not left[p.name] and p.name not in dead:
                    proved.append(p)
        for f, d in hulls.items():
            r = f.result()
            chk.add(r)
            if r.status == 'proved':
                d.hull_ok = True
    if late:
        chk.bounded.append('lemmas not attempted by the solver within the time of this tier, by execution for every U+0000..U+10FFFF: '
                           + ', '.join(sorted(set(late))))
    return proved


def closure(leaves, unit, e):
    fn = unit.functions()
    w, seen = [x for x in (e.mbtowc, e.wctomb, e.reset, e.flushwc) if x], set()
    while w:
        f = w.pop()
        for g in (fn[f].ids if f in fn else ()):
            if g in fn and g not in seen:
                seen.add(g)
                w.append(g)
    return seen


def prove_pairs(chk, leaves, limit, size, workers=None, only=None):
    """lemma of every pair, callees first; -> pairs whose lemma is proved"""
    ps = sorted(pairs(chk, leaves), key=lambda p: len(chk.src.unit.slice([p.enc.name])))
    if only is not None:
        ps = [p for p in ps if set(p.funcs) & only]
    calls = {p.name: set() for p in ps}
    for p in ps:
        w, seen = list(p.funcs), set()
        while w:
            for g in leaves.callees.get(w.pop(), ()):
                if g not in seen:
                    seen.add(g)
                    w.append(g)
        calls[p.name] = {q.name for q in ps if q is not p and set(q.funcs) & seen}
    proved, dead = [], set()
    with ThreadPoolExecutor(workers or vf.NCPU) as ex:
        rest, run, left = list(ps), {}, {}
        while rest or run:
            for p in [p for p in rest if not any(q.name in calls[p.name] for q in rest) and not any(q.name in calls[p.name] for q, x in run.values())]:
                rest.remove(p)
                sub = [q for q in proved if q.name in calls[p.name]]
                cs = chunks(p, size if not sub else 1 << 30)
                left[p.name] = len(cs)
                for lo, hi in cs:
                    run[ex.submit(pair, p, lo, hi, sub)] = (p, 0)
            if not run:
                break
            for f in wait(run, return_when=FIRST_COMPLETED)[0]:
                p, x = run.pop(f)
                r = f.result()
                if r.status == 'failed':
                    r.status = 'undecided'          # not a lemma: its users are verified against the bodies
                    r.out = 'not a lemma: %s' % {k: v for k, v in r.trace.items() if k[:2] == 'g_'}
                chk.add(r)
                if r.status != 'proved':
                    dead.add(p.name)
                left[p.name] -= 1
                if not left[p.name] and p.name not in dead:
                    proved.append(p)
    return proved


SKIP = ('cp1255', 'cp1258', 'tcvn', 'utf7')     # composing sets, and joint states that cannot be enumerated: see DESIGN.md

HARD = ('iso2022_jp3', 'iso2022_cn_ext', 'iso2022_jp2')        # minutes to hours of solver time


class Rt:
    def __init__(self, chk, mon, leaves, ps, seven, limit):
        self.chk, self.mon, self.leaves, self.ps, self.seven, self.limit = chk, mon, leaves, ps, seven, limit
        self.ow = rt.oneway()
        self.ps = [p for p in ps if p.n > BIG]
        self.stops = {}
        for p in self.ps:
            self.stops[p.enc.name] = p.enc
            for k, d in p.decs:
                self.stops[d.name] = d
        for l in self.stops.values():
            l.record = True
        self.cache, self.shared = {}, {}
        self.used, self.lock = set(), threading.Lock()
        chk.kind = {f: l.kind for f, l in self.stops.items()}

    def compile(self, e, J, J0, tag, abstract, pts):
        roots = [x for x in (e.mbtowc, e.flushwc, e.wctomb, e.reset) if x]
        stops = dict(self.stops) if abstract else {}
        src = conv.slice_src(self.chk.src.unit, roots + ['conv_struct', 'state_t', 'ucs4_t'], False, stops)[0]
        here = lambda f: re.search(r'__CPROVER_uninterpreted_%s[_(]' % f, src)
        ps = [p for p in self.ps if stands(p, src)]
        # what has no counterpart in this encoding keeps its body
        keep = {f for p in ps for f in p.funcs}
        if abstract and any(here(f) and f not in keep for f in stops):
            stops = {f: l for f, l in stops.items() if f in keep}
            src = conv.slice_src(self.chk.src.unit, roots + ['conv_struct', 'state_t', 'ucs4_t'], False, stops)[0]
            ps = [p for p in ps if stands(p, src)]
        f = self.chk.path('rt_%s_%s.c' % (e.name, tag))
        L = lemmas(ps, src, 'g_wc', pts)
        est = sorted({j[0] for j in J})
        tab = ''.join(p.tab for p in ps)
        tab += ''.join('static unsigned long g_q_%s;\n' % x for x in stops if here(x))
        open(f, 'w').write(inject(src, tab) + defs(e, J, J0, self.ow, est, self.seven, 6, L) +
                           '#include "%s/contracts/conv.h"\n#include "%s/contracts/rt.h"\n' % (vf.VERIF, vf.VERIF))
        ok, err = vf.goto_cc(f, f[:-2] + '.gb')
        return (f[:-2] + '.gb' if ok else None), err, [x for x in stops if here(x)]

    def replay(self, e, ob, r):
        t = r.trace
        g = lambda k: '%x' % (vf.num(t.get(k)) & 0xffffffff)
        if not t or not self.mon:
            return None
        rc, out, err, dt = vf.sh([self.mon, 'one-rt', str(e.index), '0.1', '1', g('g_ost'), g('g_ist'), g('g_bo'),
                                  str(vf.num(t.get('g_pn0', '0')) & 3), g('g_p0'), g('g_p1'), g('g_wc')], timeout=60, env=conv.ASAN_ENV)
        for l in out.splitlines():
            m = re.match(r'RT enc=\S+ kind=(\S+) .* sent=(\S*) got=(\S*)', l)
            if m and not self.seven:
                s, q = ([int(x, 16) for x in m.group(k).split(',') if x] for k in (2, 3))
                if not rt.allowed(e.name, m.group(1), s, q, self.ow):
                    return l
            if l.startswith('RT7 ') and self.seven or l.startswith('FAIL '):
                return l
        return None

    def real(self, f, a, pts):
        if (f, a) not in self.cache:
            self.cache[f, a] = point(self.chk, f, a)
        x = self.cache[f, a]
        if x:
            pts.add((f, a, tuple(x)))
        return x

    def refine(self, r, stops, pts, seen):
        """the real results for the inputs of the counterexample"""
        new = set()
        for f in stops:
            l = self.stops[f]
            for v in r.trace.get('*g_q_' + f, []):
                v = vf.num(v)
                if l.kind == 'enc':
                    args = [(v & 0xffffffff,)]
                elif l.kind == 'pure':
                    args = [(v & 0xffffffff,) if len(l.params) == 1 else (v & 0xffffffff, v >> 32)]
                else:
                    m = v >> 56
                    b = [(v >> 8 * i) & 255 for i in range(4)]
                    args = [tuple(b[:k]) for k in range(1, min(m, l.L) + 1)]
                for a in args:
                    self.real(f, a, new)
        pts.update(new)
        return not new <= seen

    def seeds(self, J0, stops):
        """results for the characters that are pending in some state"""
        pts = set()
        chars = {c for j in J0 for c in j[4:4 + j[3]]}
        for p in self.ps:
            if p.enc.name in stops and len(chars) <= 300:
                for c in sorted(chars | set(p.flag if p.pure and len(p.flag) <= 64 else ())):
                    x = self.real(p.enc.name, (c,), pts)
                    for k, d in p.decs:
                        if x and d.name in stops and p.pure and x[0]:
                            self.real(d.name, ((x[0] >> 15 and 0x200 or 0x100) + (x[0] >> 8 & 0x7f), x[0] & 0x7f), pts)
                        elif x and d.name in stops and not p.pure and x[0] > 1 and k is None:
                            for m in range(1, x[0] + 1):
                                self.real(d.name, tuple(x[1:1 + m]), pts)
        return pts

    def prove(self, e, ob, J, J0, tag):
        """-> result; J may grow"""
        pts, spent, rnd = self.shared.setdefault(e.name, set()), 0, 0
        while True:
            seen = set(pts)
            gb, err, stops = self.compile(e, J, J0, 'a%s%s_%d' % (ob, tag, rnd), True, seen)
            if rnd == 0 and gb:
                pts.update(self.seeds(J0, stops))
                seen = set(pts)
                if pts:
                    gb, err, stops = self.compile(e, J, J0, 'a%s%s_%d' % (ob, tag, rnd), True, seen)
            rnd += 1
            if not gb:
                r = vf.Result('%s.%s' % (e.name, ob), e.wctomb)
                r.out = err
                break
            r = self.run(gb, e, ob)
            spent += r.time
            if r.status != 'failed' or time.time() > self.deadline or rnd > 60 or self.replay(e, ob, r):
                break
            if not self.refine(r, stops, pts, seen):
                break
        t = r.trace
        v = tuple(vf.num(t.get(k)) & 0xffffffff for k in ('g_non', 'g_noi', 'g_nob', 'g_npn', 'g_np0', 'g_np1')) if t else None
        r.grow = v if r.status == 'failed' and all(d.startswith('RT.state') for _, d in r.failed) and v not in J and v[3] <= 2 and not self.replay(e, ob, r) else None
        if r.status == 'failed' and stops and not r.grow and time.time() < self.deadline and not self.replay(e, ob, r):       # by way of the bodies
            gb, err, x = self.compile(e, J, J0, 'b' + ob + tag, False, ())
            r2 = self.run(gb, e, ob) if gb else r
            r2.grow = None
            r2.time += r.time
            r = r2
        r.rounds, r.enc = rnd, e
        if tag:
            r.name += '[%s]' % tag
        with self.lock:
            self.used |= set(pts)
        return r

    def prove_all(self, encs, obs, part=12):
        """every obligation of every encoding, from every part of the joint states; grows the invariants"""
        J, todo, res = {}, [], {}
        for e in encs:
            J[e.name] = list(dict.fromkeys([(0, 0, 0, 0, 0, 0)] + self.chk.joint.get(e.name, [])))
            if self.seven:
                J[e.name] = list(dict.fromkeys(J[e.name] + [(0, i, 0, 0, 0, 0) for i in self.chk.end7.get(e.name, [])]))
        for rnd in range(6):
            jobs = []
            for e in encs:
                if rnd == 0 or any(getattr(r, 'grow', None) for r in res[e.name]):
                    if rnd:
                        new = {r.grow for r in res[e.name] if getattr(r, 'grow', None)}
                        J[e.name] += [v for v in new if v not in J[e.name]]
                    res[e.name] = []
                    for ob in obs:
                        if ob == 'ob_seven':
                            jobs.append((e, ob, J[e.name], J[e.name], ''))
                            continue
                        n = len(J[e.name])
                        for i in range(0, n, part):
                            jobs.append((e, ob, J[e.name], J[e.name][i:i + part], '%d' % (i // part) if n > part else ''))

            def job(a):
                if time.time() > self.deadline:
                    r = vf.Result('%s.%s%s' % (a[0].name, a[1], '[%s]' % a[4] if a[4] else ''), a[0].wctomb)
                    r.status, r.out, r.enc = 'undecided', 'time budget of the tier used up', a[0]
                    return r
                try:
                    return self.prove(*a)
                except Exception as ex:
                    r = vf.Result('%s.%s' % (a[0].name, a[1]), a[0].wctomb)
                    r.out, r.enc = repr(ex), a[0]
                    return r
            # the hard ones last
            jobs.sort(key=lambda a: (a[1] != 'ob_seven', len(a[2]) > 5, bool(re.match(r'iso2022|.*jisx0213|gb18030|big5hk|cp936', a[0].name)), len(a[2])))
            if not jobs:
                break
            for r in vf.pmap(job, jobs):
                res[r.enc.name].append(r)
        return [r for e in encs for r in res[e.name]]

    def run(self, gb, e, ob):
        r = vf.cbmc(gb, ob, name='%s.%s' % (e.name, ob), unwind=20, timeout=self.limit,
                    extra=['--sat-solver', 'cadical', '--slice-formula'], checks=['--no-standard-checks'])
        r.func = e.reset if ob == 'ob_rt_end' and e.reset else e.wctomb
        return r


def inject(src, decls):
    """declarations in front of the first contract stub"""
    i = src.find('/*STUBS*/')
    return src[:i] + decls + src[i:] if i >= 0 else src + decls


def prove(chk, mon, encs, seven, limit, budget, lemma_budget=0, size=2500):
    leaves = leaf.Leaves(chk, given=True)
    skip = SKIP + (HARD if chk.tier == 'quick' else ())
    todo = [e for e in encs if e.name not in skip]
    chk.bounded.append('obligations of %s: not attempted in this tier, exhaustive execution only' % ', '.join(
        e.name for e in encs if e.name in skip))
    need = set()
    for e in todo:
        need |= closure(leaves, chk.src.unit, e)
    ps = [p for p in pairs(chk, leaves) if set(p.funcs) & need]
    if seven:
        chk.assumptions.append('callee contracts: what a character set of more than %d characters writes, it reads back as the same '
                               'character; its bytes lie in the ranges of the profile; decided by C03' % BIG)
        for p in ps:
            for k, d in p.decs:
                d.hull_ok = True
    else:
        lift = lambda p: p.enc.L == 3 and chk.tier == 'quick'
        for p in ps:
            if lift(p):
                chk.bounded.append('the lemma of %s (out of the solver\'s reach within the time of this tier): by execution for '
                                   'every U+0000..U+10FFFF' % p.name)
        ps = schedule(chk, leaves, limit, size, ps, lift, time.time() + lemma_budget)
    R = Rt(chk, mon, leaves, ps, seven, limit)
    R.deadline = time.time() + budget

    for r in R.prove_all(todo, (['ob_seven'] if seven else []) + ['ob_rt', 'ob_rt_end']):
        chk.add(r)
        if r.status == 'failed':
            rep = R.replay(r.enc, r.name, r)
            inp = ', '.join('%s=%s' % (k, v) for k, v in sorted(r.trace.items()) if k.startswith('g_') and k[2] != 'q')
            if not rep:
                r.status = 'undecided'
                r.out = 'counterexample not confirmed by executing the real functions (%s; %s)' % (inp[:300], r.failed[:3])
                continue
            chk.violate('%s:%s' % (r.enc.name, r.failed[0][1].split(':')[0]),
                        'encoding %s: obligation fails: %s' % (r.enc.name, r.failed[0][1]), True,
                        'obligation group %s\n%s\ncounterexample: %s\nreplayed on the real functions:\n%s\nverifier: %s' % (
                            r.name, '\n'.join('  %s: %s' % f for f in r.failed[:20]), inp, rep, r.cmd))
    if R.used:
        r = prove_points(chk, R.used, 300)
        chk.add(r)
        if r.status != 'proved':        # what was proved with them is not
            for g in chk.groups:
                if g.status == 'proved' and re.search(r'\.ob_(rt|rt_end|seven)(\[|$)', g.name):
                    g.status, g.out = 'undecided', 'rests on results of single inputs that were not proved'
    return R
