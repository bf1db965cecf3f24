/* 8-bit encodings of the real library against their published tables.
   usage: sb <table file>     lines: <index> <composing 0/1> <256 values>;  sb <table> one <index> <hex byte or -> <hex wc or -> */
#include "iconv.c"
#include <stdio.h>
#include <stdint.h>
static uint64_t rng = 88172645463325252ull;
static unsigned rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (unsigned)(rng >> 11); }
static long n_eval; static int n_fail, e, comp, cp1163;
static int T[256];
static void fail(const char *cl, unsigned a, int r, unsigned b) { if (++n_fail <= 6) printf("FAIL %d clause=%s input=%X result=%d value=%X\n", e, cl, a, r, b); fflush(stdout); }
static void mk(struct conv_struct *cd) { memset(cd, 0, sizeof *cd); cd->iindex = cd->oindex = e; cd->ifuncs = all_encodings[e].ifuncs; cd->ofuncs = all_encodings[e].ofuncs; }
static void dec1(unsigned c)
{
    for (int n = 1; n <= 4; n++) for (int k = 0; k < 6; k++)
    {
        struct conv_struct cd; mk(&cd);
        unsigned char b[4] = {c, rnd(), rnd(), rnd()};
        ucs4_t w = 0xdeadbeef; n_eval++;
        int r = cd.ifuncs.xxx_mbtowc(&cd, &w, b, comp ? 1 : n);
        if (comp && r == -2 - 2) /* kept back: delivered by the flush */
            { if (cd.ifuncs.xxx_flushwc && cd.ifuncs.xxx_flushwc(&cd, &w)) r = 1; }
        if (T[c] >= 0 ? r != 1 || w != (unsigned)T[c] : r != -1) { fail("decode", c, r, w); return; }
        if (!comp && (cd.istate || cd.ibyteorder)) fail("decode-state", c, r, w);
    }
}
static unsigned char inv[0x110000 / 8 + 1];
static void enc1(unsigned wc)
{
    struct conv_struct cd; mk(&cd);
    unsigned char b[8] = {0}; n_eval++;
    int has = wc < 0x110000 && (inv[wc >> 3] >> (wc & 7) & 1);
    int r = cd.ofuncs.xxx_wctomb(&cd, b, wc, 8);
    if (comp)
    {
        if (has ? r != 1 || T[b[0]] != (int)wc : (r == 1 && wc != 0x340 && wc != 0x341) || (r >= 0 && wc >= 0x20000)) fail("encode", wc, r, b[0]);
        if (r == 2 && (T[b[0]] < 0 || T[b[1]] < 0)) fail("encode", wc, r, b[0] << 8 | b[1]);
        return;
    }
    if (r == 1 ? T[b[0]] != (int)wc && !(cp1163 && ((wc == 0xd0 && b[0] == 0xd0) || (wc == 0x203e && b[0] == 0xaf))) : r != -1 || has) fail("encode", wc, r, b[0]);
    if (cd.ostate) fail("encode-state", wc, r, b[0]);
    if (r == 1) { mk(&cd); unsigned char x = 0; int q = cd.ofuncs.xxx_wctomb(&cd, &x, wc, 1); if (q != 1 || x != b[0]) fail("encode-room", wc, q, x); }
}
int main(int argc, char **argv)
{
    FILE *f = fopen(argv[1], "r"); char name[100];
    int only = argc > 3 ? atoi(argv[3]) : -1;
    while (fscanf(f, "%d %99s %d", &e, name, &comp) == 3)
    {
        memset(inv, 0, sizeof inv); cp1163 = !strcmp(name, "cp1163");
        for (int c = 0; c < 256; c++) { if (fscanf(f, "%d", &T[c]) != 1) return 9; if (T[c] >= 0) inv[T[c] >> 3] |= 1 << (T[c] & 7); }
        if (only >= 0)
        {
            if (e != only) continue;
            if (argv[4][0] != '-') dec1(strtoul(argv[4], 0, 16));
            if (argv[5][0] != '-') enc1(strtoul(argv[5], 0, 16));
            continue;
        }
        n_fail = 0;
        for (int c = 0; c < 256; c++) dec1(c);
        for (unsigned wc = 0; wc < 0x120000; wc++) enc1(wc);
        for (int c = 0; c < 256; c++) if (T[c] >= 0)
            for (unsigned k = 0; k < 32; k++) { unsigned w = (unsigned)T[c] ^ (1u << k); enc1(w); enc1(w ^ 0x80000000u); enc1(w + 0xffff0000u); enc1(w | 0xff000000u); }
        for (int c = 0; c < 40000; c++) enc1(rnd() << 1 ^ rnd());
    }
    printf("DONE evals=%ld\n", n_eval);
    return 0;
}
