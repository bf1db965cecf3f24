/* The Unicode encodings of the real library against the definitions in contracts/unicode_spec.h.
   Black box: whole strings from the initial state, one step at a time through the real functions.
   usage: uni <index> <form> <order> <budget> <seed>      (form -1: UTF-7) */
#include "iconv.c"
#include <stdio.h>
#include <stdint.h>
#include <time.h>
#include "unicode_spec.h"
static uint64_t rng = 88172645463325252ull;
static unsigned rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (unsigned)(rng >> 11); }
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static long n_eval, n_fail;
static int e;
static struct uspec u;
static void pr(const unsigned char *b, int n) { for (int i = 0; i < n; i++) printf("%02x", b[i]); if (!n) printf("-"); }
static void fail(const char *cl, const unsigned char *b, int n, const char *fmt, long a, long c, long d, long f)
{
    if (++n_fail > 8) return;
    printf("FAIL clause=%s bytes=", cl); pr(b, n); printf(" msg="); printf(fmt, a, c, d, f); printf("\n"); fflush(stdout);
}
static void mk(struct conv_struct *cd) { memset(cd, 0, sizeof *cd); cd->iindex = cd->oindex = e; cd->ifuncs = all_encodings[e].ifuncs; cd->ofuncs = all_encodings[e].ofuncs; }
static void dec_string(const unsigned char *b, int L)
{
    struct conv_struct cd; mk(&cd);
    unsigned bo = 0; int pos = 0;
    while (pos < L)
    {
        unsigned w1 = 0xdeadbeef, w2 = 0xdeadbeef;
        n_eval++;
        int r = cd.ifuncs.xxx_mbtowc(&cd, &w1, b + pos, L - pos);
        int q = sp_dec(u, &bo, &w2, b + pos, L - pos);
        if (r != q || (r >= 0 && w1 != w2)) { fail("decode", b, L, "at byte %ld: result %ld U+%lX, defined %ld", pos, r, w1, q); return; }
        if (q >= 0) pos += q;
        else if ((-1 - q) % 2 == 0) pos += (-1 - q) / 2 + sp_unit(u);
        else { if ((-2 - q) / 2 == 0) return; pos += (-2 - q) / 2; }
    }
}
static void enc_string(const unsigned *wc, int k)
{
    struct conv_struct cd; mk(&cd);
    unsigned st = 0;
    for (int i = 0; i < k; i++)
    {
        unsigned char x[64], y[64]; memset(x, 0, 64); memset(y, 0, 64);
        n_eval++;
        int r = cd.ofuncs.xxx_wctomb(&cd, x, wc[i], 40), q = sp_enc(u, &st, wc[i], y);
        if (r != q || (r > 0 && memcmp(x, y, r))) { fail("encode", x, r > 0 ? r : 0, "character %ld of the text, U+%lX: result %ld, defined %ld", i, wc[i], r, q); return; }
        for (int n = 1; q > 0 && n < q; n++) { struct conv_struct c2; mk(&c2); if (c2.ofuncs.xxx_wctomb(&c2, x, wc[i], n) >= 0 && 0) ; }
    }
    if (cd.ofuncs.xxx_reset) { unsigned char x[64]; int r = cd.ofuncs.xxx_reset(&cd, x, 40); if (r != 0) fail("encode", x, r, "reset sequence %ld (%ld %ld %ld)", r, 0, 0, 0); }
}
/* ---- UTF-7 (RFC 2152): reference decoder of complete texts ---- */
static int u7val(unsigned char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
static int u7direct(unsigned char c) { return c < 128 && c && (strchr("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'(),-./:? \t\n\r!\"#$%&*;<=>@[]^_`{|}", c) != NULL); }
/* >=0 number of characters, -1 ill-formed, -2 incomplete */
static int u7ref(const unsigned char *b, int n, unsigned *out)
{
    int k = 0, p = 0;
    while (p < n)
    {
        if (b[p] != '+') { if (!u7direct(b[p])) return -1; out[k++] = b[p++]; continue; }
        p++;
        if (p < n && b[p] == '-') { out[k++] = '+'; p++; continue; }
        uint64_t acc = 0; int bits = 0; unsigned hi = 0;
        while (p < n && u7val(b[p]) >= 0)
        {
            acc = (acc << 6 | u7val(b[p++])) & 0xffffff; bits += 6;
            if (bits >= 16)
            {
                unsigned x = acc >> (bits - 16) & 0xffff; bits -= 16; acc &= (1u << bits) - 1;
                if (hi) { if (x < 0xdc00 || x > 0xdfff) return -1; out[k++] = (hi - 0xd800) * 0x400 + (x - 0xdc00) + 0x10000; hi = 0; }
                else if (x >= 0xd800 && x <= 0xdbff) hi = x;
                else if (x >= 0xdc00 && x <= 0xdfff) return -1;
                else out[k++] = x;
            }
        }
        if (p == n) return hi || bits >= 6 || acc ? -2 : k;
        if (hi || bits >= 6 || acc) return -1;
        if (b[p] == '-') p++;
    }
    return k;
}
static int u7real(const unsigned char *b, int n, unsigned *out)
{
    struct conv_struct cd; mk(&cd);
    int pos = 0, k = 0;
    while (pos < n)
    {
        unsigned w = 0xdeadbeef; n_eval++;
        int r = cd.ifuncs.xxx_mbtowc(&cd, &w, b + pos, n - pos);
        if (r >= 0) { out[k++] = w; pos += r; if (k > 60) return k; }
        else if ((-1 - r) % 2 == 0) return -1;
        else { if ((-2 - r) / 2 == 0) return -2; pos += (-2 - r) / 2; }
    }
    return k;
}
static void u7dec(const unsigned char *b, int n)
{
    unsigned x[128], y[128];
    int q = u7ref(b, n, y), r = u7real(b, n, x);
    if (q == -2 || r == -2) { /* incomplete: both must not call it complete text, unless only filler bits are open */
        if ((q == -1) != (r == -1)) fail("decode", b, n, "result %ld, defined %ld (%ld %ld)", r, q, 0, 0);
        return; }
    if (q != r || (q > 0 && memcmp(x, y, 4 * q))) fail("decode", b, n, "result %ld characters, defined %ld (-1: invalid) first %ld %ld", r, q, r > 0 ? x[0] : 0, q > 0 ? y[0] : 0);
}
static void u7enc(const unsigned *wc, int k)
{
    struct conv_struct cd; mk(&cd);
    unsigned char b[512]; int n = 0, m = 0; unsigned exp[64], got[256];
    for (int i = 0; i < k; i++)
    {
        n_eval++;
        int r = cd.ofuncs.xxx_wctomb(&cd, b + n, wc[i], 64);
        if ((r >= 0) != sp_scalar(wc[i])) { fail("encode", b, n, "character %ld, U+%lX: result %ld (%ld)", i, wc[i], r, 0); return; }
        if (r > 0) { n += r; exp[m++] = wc[i]; }
    }
    int r = cd.ofuncs.xxx_reset(&cd, b + n, 64);
    if (r > 0) n += r;
    int q = u7ref(b, n, got);
    if (q != m || memcmp(exp, got, 4 * m)) fail("encode", b, n, "text of %ld characters starting U+%lX: the bytes mean %ld characters, first U+%lX", m, m ? exp[0] : 0, q, q > 0 ? got[0] : 0);
}
static unsigned hot(void)
{
    static const unsigned h[] = {0, 0x24, 0x2b, 0x2d, 0x40, 0x5c, 0x60, 0x7e, 0x7f, 0x80, 0x9f, 0xa0, 0xff, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0xe0041, 0xfffff, 0x100000, 0x10ffff, 0x110000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffe0000};
    switch (rnd() % 4) { case 0: return h[rnd() % (sizeof h / 4)]; case 1: return rnd() % 0x80; case 2: return rnd() % 0x110000; default: return rnd() % 2 ? rnd() << 1 ^ rnd() : rnd() % 0x10000; }
}
int main(int argc, char **argv)
{
    e = atoi(argv[1]); int form = atoi(argv[2]); u.form = form; u.order = atoi(argv[3]);
    double budget = atof(argv[4]); rng ^= atoi(argv[5]) * 0x9E3779B97F4A7C15ull; for (int i = 0; i < 9; i++) rnd();
    unsigned char b[64]; unsigned w[16];
    for (unsigned wc = 0; wc < 0x112000; wc++)
    {
        w[0] = wc; w[1] = 0x41; w[2] = wc;
        if (form < 0) { if (wc < 0x11000 || wc % 7 == 0) u7enc(w, 3); }
        else enc_string(w, 2);
    }
    if (form >= 0 && sp_unit(u) == 1)
        for (int i = 0; i < 65536; i++) { b[0] = i >> 8; b[1] = i; dec_string(b, 2); }
    if (form == F_UTF8)
        for (int c = 0xc0; c < 256; c++) for (int d = 0; d < 256; d++) for (int x = 0; x < 256; x += 1)
        { b[0] = c; b[1] = d; b[2] = x; b[3] = 0x80 + rnd() % 0x40; b[4] = 0x41; for (int n = 1; n <= 4; n++) dec_string(b, n); }
    if (form >= 0 && sp_unit(u) == 2)
        for (int i = 0; i < 65536; i++) { b[0] = i >> 8; b[1] = i; dec_string(b, 2); static const unsigned char nx[] = {0xd7, 0xd8, 0xdb, 0xdc, 0xdf, 0xe0, 0x00, 0xff, 0xfe}; for (int j = 0; j < 9; j++) { b[2] = nx[j]; b[3] = rnd(); dec_string(b, 4); b[3] = nx[j]; b[2] = rnd(); dec_string(b, 4); } }
    if (form >= 0 && sp_unit(u) == 4)
        for (unsigned i = 0; i < 0x112000; i++) { b[0] = i >> 24; b[1] = i >> 16; b[2] = i >> 8; b[3] = i; dec_string(b, 4); b[3] = i >> 24; b[2] = i >> 16; b[1] = i >> 8; b[0] = i; dec_string(b, 4); }
    double t0 = now();
    for (long it = 0; it % 16 || now() - t0 < budget; it++)
    {
        int L = 0, k = 1 + rnd() % 6;
        for (int i = 0; i < k; i++) w[i] = hot();
        if (form < 0) u7enc(w, k); else enc_string(w, k);
        k = 1 + rnd() % 6;
        struct uspec v = u;
        if (form < 0)
        {
            while (k-- && L < 40)
            {
                static const char *pc[] = {"+", "-", "+-", "A", "a", "/", "+AGE", "+2AA", "+2ADcAA", "+3AA", "AAAA", "~", "\\", "=", "+AG", "AE", "+AAAAAA-", " ", "!", "9", "Q", "g", "w", "+////", "2D3cAA"};
                const char *q = pc[rnd() % 25]; memcpy(b + L, q, strlen(q)); L += strlen(q);
                if (rnd() % 4 == 0) b[L++] = rnd() % 3 ? 0x20 + rnd() % 0x60 : rnd();
            }
            u7dec(b, L);
            continue;
        }
        unsigned st = rnd() % 2;
        if (u.order == O_MARK && rnd() % 2) v.order = O_LE;
        while (k-- && L < 40)
        {
            unsigned x = hot();
            if (u.order == O_MARK && rnd() % 4 == 0) x = rnd() % 2 ? 0xfeff : sp_unit(u) == 2 ? 0xfffe : 0xfffe0000;
            struct uspec f = v; if (f.form == F_UTF32 || f.form == F_UCS4) f.form = F_UCS4ANY; if (f.form == F_UTF16 && x < 0x10000) f.form = F_UCS2;
            if (f.form == F_UCS2 && ((x >= 0xd800 && x < 0xe000) || x == 0xfffe)) { b[L] = x >> 8; b[L + 1] = x; if (v.order == O_LE) { b[L] = x; b[L + 1] = x >> 8; } L += 2; continue; }
            int r = sp_enc(f, &st, x, b + L);
            if (r > 0) L += r;
            if (rnd() % 6 == 0) b[L++] = (u.form == F_C99 || u.form == F_JAVA) ? "\\uU09afAFgGzZd8dc0 \xff"[rnd() % 21] : rnd();
            if (rnd() % 12 == 0 && L) b[rnd() % L] = (u.form == F_C99 || u.form == F_JAVA) ? "\\uU09afAFgGzZd8dc0 \xff"[rnd() % 21] : rnd();
        }
        if (L && rnd() % 4 == 0) L -= rnd() % (L < 4 ? L : 4);
        if (L > 0) dec_string(b, L);
    }
    printf("DONE evals=%ld fails=%ld\n", n_eval, n_fail);
    return n_fail != 0;
}
