"""Contracts of the character-set functions the converters are built from.

A candidate contract (possible results, byte ranges) is read off native runs over the whole finite domain where that is
small and a sample otherwise; it becomes a contract only when the verifier discharges it for all inputs.  Callers are
then verified against the stub generated from the contract instead of the body.
"""
import os
import re
import threading
from concurrent.futures import FIRST_COMPLETED, ThreadPoolExecutor, wait

import vf

DEC_SIG = re.compile(r'\bint\s+(\w+)\s*\(\s*conv_t\s+\w+\s*,\s*ucs4_t\s*\*\s*\w+\s*,\s*(?:const\s+unsigned\s+char|unsigned\s+char\s+const)\s*\*\s*\w+\s*,\s*size_t\s+\w+\s*\)\s*$')
PURE_SIG = re.compile(r'\b((?:unsigned\s+)?(?:int|short|char)|unsigned|ucs4_t)\s+(\w+)\s*\(([^()*]*)\)\s*$')
SCALAR = re.compile(r'^(?:const\s+)?((?:unsigned\s+)?(?:int|short|char)|unsigned|ucs4_t)\s+(\w+)$')
ENC_SIG = re.compile(r'\bint\s+(\w+)\s*\(\s*conv_t\s+\w+\s*,\s*unsigned\s+char\s*\*\s*\w+\s*,\s*ucs4_t\s+\w+\s*,\s*size_t\s+\w+\s*\)\s*$')

PROFILE = r'''
#include "iconv.c"
#include <stdio.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
static const char *cur = "";
static void die(int s) { printf("DIED %s\n", cur); fflush(stdout); _exit(3); }
typedef int (*dec_t)(conv_t, ucs4_t *, const unsigned char *, size_t);
typedef int (*enc_t)(conv_t, unsigned char *, ucs4_t, size_t);
static struct conv_struct cd;
static void dec(const char *name, dec_t f)
{
    unsigned res[5] = {0}; ucs4_t lo = 0xffffffff, hi = 0; cur = name;      /* bit r+2 */
    for (unsigned a = 0; a < 256; a++) for (unsigned b = 0; b < 256; b++) for (int k = 0; k < 3; k++)
    {
        unsigned char s[4] = {a, b, (unsigned char)(k == 0 ? 0x81 + (a * 7 + b) % 0x7e : k == 1 ? 0x30 + b % 0x50 : 0xa1 + a % 0x5e), (unsigned char)(k == 1 ? 0x30 + (a + b) % 10 : b)};
        for (int n = 1; n <= 4; n++)
        {
            ucs4_t w = 0; int r = f(&cd, &w, s, n);
            if (r < -2 || r > 4) { printf("ODD %s\n", name); return; }
            res[n] |= 1u << (r + 2);
            if (r > 0) { if (w < lo) lo = w; if (w > hi) hi = w; }
        }
    }
    if (res[4] & (1u << 6) || (res[3] & 1))
        for (unsigned a = 0x81; a < 0xff; a++) for (unsigned b = 0x30; b < 0x3a; b++) for (unsigned c = 0x81; c < 0xff; c++) for (unsigned d = 0x2f; d < 0x3b; d++)
        {
            unsigned char s[4] = {a, b, c, d}; ucs4_t w = 0; int r = f(&cd, &w, s, 4);
            res[4] |= 1u << (r + 2); if (r > 0) { if (w < lo) lo = w; if (w > hi) hi = w; }
        }
    printf("DEC %s %u %u %u %u %u %u", name, res[1], res[2], res[3], res[4], lo, hi);
    for (unsigned a = 0; a < 256; a++) { unsigned char s[1] = {a}; ucs4_t w; printf(" %d", f(&cd, &w, s, 1)); }
    printf("\n");
}
static void enc(const char *name, enc_t f)
{
    unsigned res = 0, sm = 0; unsigned char lo[4] = {255, 255, 255, 255}, hi[4] = {0}; int L = 1, exact = 1, shrt = 1; cur = name;
    for (int pass = 0; pass < 2; pass++)
        for (ucs4_t c = 0; c < 0x110000; c++)
        {
            ucs4_t wc = c;
            if (pass && c % 64) continue;
            unsigned char r[8]; int k = f(&cd, r, wc, 8);
            if (k < -1 || k > 4 || k == 0) { printf("ODD %s\n", name); return; }
            if (!pass) { res |= 1u << (k + 2); if (k > L) L = k; for (int i = 0; i < k; i++) { if (r[i] < lo[i]) lo[i] = r[i]; if (r[i] > hi[i]) hi[i] = r[i]; } }
            else for (int n = 1; n < L; n++) { int q = f(&cd, r, wc, n); if (q != -2) shrt = 0; if (q != (k < 0 ? -1 : n < k ? -2 : k)) exact = 0; }
        }
    printf("ENC %s %u %d %d %d", name, res, L, exact, shrt);
    for (int i = 0; i < 4; i++) printf(" %d %d", lo[i], hi[i]);
    printf("\n");
}
static unsigned char seen_[1 << 22];
static void rng_(const char *name, uint64_t lo, uint64_t hi)
{
    printf("PURE %s %llu %llu", name, (unsigned long long)lo, (unsigned long long)hi);
    if (hi < sizeof seen_)
    {   /* the largest gaps between values, and the values with bit 7 if they are few */
        unsigned prev = 0, k7 = 0; int any = 0;
        for (unsigned v = 0; v < sizeof seen_; v++)
            if (seen_[v]) { if (any && v - prev > 8 && v / (prev + 1) >= 3) printf(" g%u:%u", prev, v); prev = v; any = 1; if (v & 0x80) k7++; }
        if (k7 && k7 <= 64)
            for (unsigned v = 0; v < sizeof seen_; v++) if (seen_[v] && v & 0x80) printf(" b%u", v);
    }
    printf("\n");
}
#define NOTE_ do { if (v < lo) lo = v; if (v > hi) hi = v; if (v < sizeof seen_) seen_[v] = 1; } while (0)
#define PURE1(f) do { uint64_t lo = -1, hi = 0; cur = #f; for (ucs4_t c = 0; c < 0x110000; c++) { uint64_t v = f(c); NOTE_; } rng_(#f, lo, hi); } while (0)
#define PURE2(f) do { uint64_t lo = -1, hi = 0; cur = #f; for (unsigned c = 0; c < 0x400; c++) for (unsigned d = 0; d < 0x200; d++) { uint64_t v = f(c, d); NOTE_; } rng_(#f, lo, hi); } while (0)
int main(int argc, char **argv)
{
    signal(SIGABRT, die); signal(SIGSEGV, die); signal(SIGALRM, die); alarm(60);
    switch (atoi(argv[1])) {
@CASES@
    }
    printf("DONE\n");
    return 0;
}
'''


class Leaf:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.ok = False
        self.L = 2
        self.R = {}
        self.short = False
        self.full = False
        self.lo, self.hi = [0] * 4, [255] * 4
        self.range_ok = False
        self.wlo, self.whi = 0, 0xffffffff
        self.hull, self.hull_ok = None, False


def find(unit, encs):
    """character-set functions called by the converters, callees first"""
    fn = unit.functions()
    roots = {x for e in encs for x in (e.mbtowc, e.flushwc, e.wctomb, e.reset) if x}
    calls = {f: {g for g in d.ids if g in fn and g != f} for f, d in fn.items()}
    order, seen = [], set()

    def visit(f):
        if f in seen:
            return
        seen.add(f)
        for g in sorted(calls.get(f, ())):
            visit(g)
        order.append(f)
    called = set()
    for r in sorted(roots):
        visit(r)
    for f in seen:
        called |= calls[f]
    out = []
    for f in order:
        if f not in called:
            continue
        t = fn[f].text
        head = t[:t.index('{')].strip()
        m1, m2 = DEC_SIG.search(head), ENC_SIG.search(head)
        clos = {f}
        w = [f]
        while w:
            for g in calls[w.pop()]:
                if g not in clos:
                    clos.add(g)
                    w.append(g)
        if any(re.search(r'\bconv\s*->|\b[io]state\b|\bibyteorder\b', fn[g].text) for g in clos):
            continue
        if m1 or m2:
            out.append((Leaf(f, 'dec' if m1 else 'enc'), sorted(calls[f])))
            continue
        m3 = PURE_SIG.search(head)
        if m3:
            ps = [SCALAR.match(x.strip()) for x in m3.group(3).split(',')]
            if all(ps) and len(ps) in (1, 2) and not calls[f]:
                l = Leaf(f, 'pure')
                l.ret, l.params = m3.group(1), [(x.group(1), x.group(2)) for x in ps]
                out.append((l, []))
    return out


def profile(chk, leaves):
    src = chk.path('leafprof.c')
    cases = ''
    for i, l in enumerate(leaves):
        if l.kind == 'pure':
            cases += '    case %d: PURE%d(%s); break;\n' % (i, len(l.params), l.name)
        else:
            cases += '    case %d: %s("%s", %s); break;\n' % (i, l.kind, l.name, l.name)
    open(src, 'w').write(PROFILE.replace('@CASES@', cases))
    exe = chk.path('leafprof')
    rc, o, e, dt = vf.sh(['gcc', '-std=gnu17', '-w', '-O2'] + chk.src.cflags + [src, '-o', exe], timeout=300)
    if rc != 0:
        chk.notes.append('contract candidates: profile program does not build: ' + (e or '')[-500:])
        return
    by = {l.name: l for l in leaves}

    def job(i):
        rc, out, err, dt = vf.sh([exe, str(i)], timeout=100)
        for line in out.splitlines():
            w = line.split()
            if w[0] == 'DEC':
                l = by[w[1]]
                bits = [int(x) for x in w[2:6]]
                l.L = 4 if bits[2] & 1 else 3 if bits[1] & 1 else 2 if bits[0] & 1 else 1
                for n in range(1, 5):
                    l.R[n] = [r for r in range(-2, 5) if bits[min(n, 4) - 1] >> (r + 2) & 1]
                l.wlo, l.whi = int(w[6]), int(w[7])
                l.one = [int(x) for x in w[8:264]]
                l.ok = True
            elif w[0] == 'PURE':
                l = by[w[1]]
                l.wlo, l.whi = int(w[2]), int(w[3])
                l.ok = l.whi < 2 ** 31
                l.gaps = [tuple(map(int, x[1:].split(':'))) for x in w[4:] if x[0] == 'g'][:6]
                l.bit7 = [int(x[1:]) for x in w[4:] if x[0] == 'b']
            elif w[0] == 'ENC':
                l = by[w[1]]
                l.R[0] = [r for r in range(-2, 5) if int(w[2]) >> (r + 2) & 1]
                l.L = int(w[3])
                l.short = not int(w[4])
                v = [int(x) for x in w[6:]]
                l.lo, l.hi = v[0::2], v[1::2]
                l.full = not (int(w[4]) or int(w[5]))   # for callers that offer room for the longest result only
                l.ok = True
    vf.pmap(job, range(len(leaves)))


def in_set(xs):
    return ' || '.join('(r)==%d' % x for x in xs) or '0'


def pure_range(l, v):
    c = ['%s >= %d && %s <= %d' % (v, l.wlo, v, l.whi)]
    c += ['(%s <= %d || %s >= %d)' % (v, a, v, b) for a, b in l.gaps]
    if l.bit7:
        c.append('(!(%s & 0x80) || %s)' % (v, ' || '.join('%s == %d' % (v, x) for x in l.bit7)))
    return ' && '.join(c)


def defs(l):
    d = '#define LEAF %s\n#define L %d\n#define LEAF_%s\n' % (l.name, l.L, l.kind.upper())
    if l.kind == 'dec':
        d += 'static const signed char one_byte[256] = {%s};\n' % ','.join(map(str, l.one))
        for n in range(1, 5):
            d += '#define IN_R%d(r) (%s)\n' % (n, in_set(l.R[n]))
        d += '#define WC_MIN %du\n#define WC_MAX %du\n' % (l.wlo, l.whi)
    elif l.kind == 'pure':
        d += '#define WC_MIN %du\n#define WC_MAX %du\n' % (l.wlo, l.whi)
        d += '#define LEAF_DECLS %s\n' % ' '.join('%s g_a%d;' % (t, i) for i, (t, x) in enumerate(l.params))
        d += '#define LEAF_ARGS %s\n' % ', '.join('g_a%d' % i for i in range(len(l.params)))
        d += '#define LEAF_RET %s\n#define PURE_RANGE(v) (%s)\n' % (l.ret, pure_range(l, 'v'))
    else:
        d += '#define IN_RK(r) (%s)\n' % in_set(l.R[0])
        if l.full:
            d += '#define FULL\n'
        if l.short:
            d += '#define SHORT\n'
        d += '#define B_LO %s\n#define B_HI %s\n' % (', '.join(map(str, l.lo)), ', '.join(map(str, l.hi)))
    return d


def stub(l):
    """the contract as a function body for the callers' proofs"""
    n = l.name
    rec = getattr(l, 'record', False)       # ghost: the arguments, for counterexamples
    ok = lambda m: '__CPROVER_assume(%s);' % in_set(l.R[m])
    if l.kind == 'pure':
        b = '%s __CPROVER_uninterpreted_%s(%s);\n' % (l.ret, n, ', '.join(t for t, x in l.params))
        b += 'static %s %s(%s)\n{\n' % (l.ret, n, ', '.join('%s a%d' % (t, i) for i, (t, x) in enumerate(l.params)))
        b += '    %s v = __CPROVER_uninterpreted_%s(%s);\n' % (l.ret, n, ', '.join('a%d' % i for i in range(len(l.params))))
        if rec:
            b += '    g_q_%s = a0%s;\n' % (n, ' | (unsigned long)a1 << 32' if len(l.params) > 1 else '')
        return b + '    __CPROVER_assume(%s);\n    return v;\n}\n' % pure_range(l, 'v')
    if l.kind == 'dec':
        b = ''
        if getattr(l, 'hull_ok', False) and l.hull:
            import rtproof
            b += rtproof.tables('hull_' + n, l.hull)
        b += 'static const signed char %s_one[256] = {%s};\n' % (n, ','.join(map(str, l.one)))
        b += ''.join('int __CPROVER_uninterpreted_%s_r%d(%s);\n' % (n, m, ', '.join(['unsigned char'] * m)) for m in range(1, l.L + 1))
        b += ''.join('unsigned __CPROVER_uninterpreted_%s_w%d(%s);\n' % (n, m, ', '.join(['unsigned char'] * m)) for m in range(1, l.L + 1))
        b += 'static int %s(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n)\n{\n' % n
        b += '    __CPROVER_assert(n >= 1, "requires of %s: at least one byte");\n' % n
        b += '    int r = %s_one[s[0]];\n' % n
        if rec:
            b += '    g_q_%s = %s | (unsigned long)(n < %d ? n : %d) << 56;\n' % (n, ' | '.join(
                '(n > %d ? (unsigned long)s[%d] << %d : 0)' % (i, i, 8 * i) for i in range(l.L)), l.L, l.L)
        for m in range(2, l.L + 1):
            a = ', '.join('s[%d]' % i for i in range(m))
            b += '    if (r == -2 && n >= %d) {\n    r = __CPROVER_uninterpreted_%s_r%d(%s);\n    %s\n' % (m, n, m, a, ok(m))
            if m == 2 and getattr(l, 'hull_ok', False) and l.hull:
                b += '    __CPROVER_assume(r != 2 || hull_%s(s[0], s[1]));\n' % n
        b += '    ' + '}' * (l.L - 1) + '\n'
        b += '    ucs4_t w;\n'                       # any value when nothing was decoded
        for m in range(1, l.L + 1):
            b += '    if (r == %d) w = __CPROVER_uninterpreted_%s_w%d(%s);\n' % (m, n, m, ', '.join('s[%d]' % i for i in range(m)))
        if l.range_ok:
            b += '    if (r > 0) __CPROVER_assume(w >= %du && w <= %du);\n' % (l.wlo, l.whi)
        b += '    *pwc = w;\n    return r;\n}\n'
        return b
    b = 'int __CPROVER_uninterpreted_%s_k(unsigned);\n' % n
    b += ''.join('unsigned char __CPROVER_uninterpreted_%s_b%d(unsigned);\n' % (n, i) for i in range(l.L))
    b += 'static int %s(conv_t conv, unsigned char *d, ucs4_t wc, size_t n)\n{\n' % n
    b += '    __CPROVER_assert(n >= %d, "requires of %s: room");\n' % (l.L if l.full else 1, n)
    if rec:
        b += '    g_q_%s = wc;\n' % n
    b += '    int r = __CPROVER_uninterpreted_%s_k(wc);\n    %s\n' % (n, ok(0))
    if l.short:
        b += '    if (n < %d) return -2;\n    if (r < 0) return -1;\n' % l.L
    else:
        b += '    if (r < 0) return -1;\n    if (n < (size_t)r) return -2;\n'
    for i in range(l.L):
        rg = ''
        if l.range_ok:
            rg = ' __CPROVER_assume(d[%d] >= %d && d[%d] <= %d);' % (i, l.lo[i], i, l.hi[i])
        b += '    if (r > %d) { d[%d] = __CPROVER_uninterpreted_%s_b%d(wc);%s }\n' % (i, i, n, i, rg)
    b += '    return r;\n}\n'
    return b


class Leaves:
    """proved contracts: .proved {name: Leaf}"""

    def __init__(self, chk, ranges=False, budget=60, kinds=('pure', 'dec', 'enc'), given=False):
        import conv
        self.chk = chk
        self.proved = {}
        unit = chk.src.unit
        todo = [(l, c) for l, c in find(unit, chk.src.encodings) if l.kind in kinds]
        profile(chk, [l for l, c in todo])
        self.callees = {l.name: c for l, c in todo}
        if given:                              # decided by another check
            self.proved = {l.name: l for l, c in todo if l.ok}
            chk.assumptions.append('callee contracts: the character-set functions satisfy contracts/leaf.h (results, prefixes, '
                                   'function of the character), decided by C01 and C02')
            return
        lock = threading.Lock()
        done = {}

        def prove(l, callees):
            stops = {c: self.proved[c] for c in callees if c in self.proved}
            loop = re.search(r'\b(for|while|do)\b', unit.functions()[l.name].text)
            obs = ['ob_leaf']
            single = bool(loop) and l.kind == 'dec'
            if ranges or l.kind == 'pure' or single:
                obs.append('ob_leaf_safe')
            if l.kind == 'pure':
                obs = obs[1:]
            for ob in obs:
                havoc = ob == 'ob_leaf' and not loop
                st = stops if havoc else {c: x for c, x in stops.items() if x.range_ok}
                src, hv = conv.slice_src(unit, [l.name, 'conv_struct', 'state_t', 'ucs4_t'], havoc, st)
                f = chk.path('leaf_%s_%s.c' % (l.name, ob))
                open(f, 'w').write(src + defs(l) + ('#define ONLY_SHORTER\n' if single else '') + '#include "%s/contracts/leaf.h"\n' % vf.VERIF)
                gb = f[:-2] + '.gb'
                ok, err = vf.goto_cc(f, gb)
                if not ok:
                    r = vf.Result('%s.%s' % (l.name, ob), l.name)
                    r.out = err
                else:
                    for flags in ((['--arrays-uf-always'], []) if hv else (['--sat-solver', 'cadical', '--slice-formula'],)):
                        r = vf.cbmc(gb, ob, name='%s.%s' % (l.name, ob), unwind=24, timeout=budget, extra=flags,
                                    checks=[c for c in vf.SAFETY if not (hv and c == '--bounds-check')], trace=False)
                        if r.status != 'error':
                            break
                if r.status == 'failed' and st and ob == 'ob_leaf_safe':
                    stops = {}
                    obs.append(ob)                # once more over the bodies
                    continue
                if r.status == 'failed':
                    r.status = 'undecided'        # not a contract: callers are verified against the body instead
                with lock:
                    chk.add(r)
                    if r.status == 'proved':
                        if not single or ob == 'ob_leaf_safe':
                            self.proved[l.name] = l
                        l.range_ok |= ob == 'ob_leaf_safe'
                if r.status != 'proved' and ob == 'ob_leaf':
                    break
        # callees first
        rest = [(l, c) for l, c in todo if l.ok]
        rest.sort(key=lambda a: (a[0].kind != 'pure', '_uni_' not in a[0].name, a[0].kind != 'enc'))      # the slow ones first
        names = {l.name for l, c in rest}
        with ThreadPoolExecutor(vf.NCPU) as ex:
            run = {}
            while rest or run:
                for l, c in [x for x in rest if not any(y in names and y != x[0].name for y in x[1])]:
                    run[ex.submit(prove, l, c)] = l.name
                    rest = [x for x in rest if x[0] is not l]
                if not run:
                    break
                for f in wait(run, return_when=FIRST_COMPLETED)[0]:
                    names.discard(run.pop(f))
                    f.result()
