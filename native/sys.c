/* Whole-call checks on the real library: the published functions are compared with an independent
   specification of the conversion loop that calls the same converter functions one character at a
   time.  Used to find failing inputs for the loop and one-shot contracts (bounded, seeded).
   usage: sys <tests> <from index> <budget seconds> <seed>  */
#include "iconv.c"
#include <stdio.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#endif

#define NENC ((int)(sizeof(all_encodings) / sizeof(all_encodings[0])))
static const char *enc_name[] = {
#include "enc_names.inc"
};
typedef unsigned char u8;

/* ---------- the specification ---------- */
struct st { unsigned ist, bo, ost; };
struct run { size_t ret; int err; size_t used; size_t n; u8 *out; };

static int unit_of(int e)
{
    switch (e)
    {
    case ei_ucs4: case ei_ucs4be: case ei_ucs4le: case ei_utf32: case ei_utf32be: case ei_utf32le:
    case ei_ucs4internal: case ei_ucs4swapped:
        return 4;
    case ei_ucs2: case ei_ucs2be: case ei_ucs2le: case ei_utf16: case ei_utf16be: case ei_utf16le:
    case ei_ucs2internal: case ei_ucs2swapped:
        return 2;
    }
    return 1;
}
static void mk(struct conv_struct *cd, int f, int t, struct st s)
{
    memset(cd, 0, sizeof *cd);
    cd->iindex = f;
    cd->oindex = t;
    cd->ifuncs = all_encodings[f].ifuncs;
    cd->ofuncs = all_encodings[t].ofuncs;
    cd->istate = s.ist;
    cd->ibyteorder = s.bo;
    cd->ostate = s.ost;
}
/* one character to the target encoding; -1: stop with EILSEQ; -2: no room */
static int spec_put(struct conv_struct *cd, int discard, ucs4_t wc, u8 *out, size_t room, size_t *cnt)
{
    int c;
    if (room == 0)
        return -2;
    c = cd->ofuncs.xxx_wctomb(cd, out, wc, room);
    if (c != -1)
        return c;
    if (wc >= 0xe0000 && wc <= 0xe007f)
        return 0;
    ++*cnt;
    if (discard)
        return 0;
    return cd->ofuncs.xxx_wctomb(cd, out, 0xfffd, room);
}
static struct run spec_conv(int f, int t, int discard, struct st *s, const u8 *in, size_t n, u8 *out, size_t room)
{
    struct conv_struct cd;
    struct run r = {0, 0, 0, 0, out};
    size_t cnt = 0;
    mk(&cd, f, t, *s);
    while (r.used < n)
    {
        ucs4_t wc = 0;
        unsigned keep = cd.istate;
        int d = cd.ifuncs.xxx_mbtowc(&cd, &wc, in + r.used, n - r.used);
        if (d < 0)
        {
            unsigned k = (unsigned)(-1 - d) / 2;
            if ((-1 - d) % 2 == 0)
            {
                if (!discard)
                {
                    r.used += k;
                    r.err = EILSEQ;
                    break;
                }
                r.used += k + unit_of(f);
                continue;
            }
            if (k == 0)
            {
                r.err = EINVAL;
                break;
            }
            r.used += k;
            continue;
        }
        int c = spec_put(&cd, discard, wc, out + r.n, room - r.n, &cnt);
        if (c < 0)
        {
            cd.istate = keep;
            r.err = c == -1 ? EILSEQ : E2BIG;
            break;
        }
        r.used += d;
        r.n += c;
    }
    r.ret = r.err ? (size_t)-1 : cnt;
    s->ist = cd.istate;
    s->bo = cd.ibyteorder;
    s->ost = cd.ostate;
    return r;
}
static struct run spec_reset(int f, int t, int discard, struct st *s, u8 *out, size_t room)
{
    struct conv_struct cd;
    struct run r = {0, 0, 0, 0, out};
    size_t cnt = 0;
    mk(&cd, f, t, *s);
    if (out)
    {
        ucs4_t wc = 0;
        if (cd.ifuncs.xxx_flushwc)
        {
            unsigned keep = cd.istate;
            if (cd.ifuncs.xxx_flushwc(&cd, &wc))
            {
                int c = spec_put(&cd, discard, wc, out, room, &cnt);
                if (c < 0)
                {
                    r.err = c == -1 ? EILSEQ : E2BIG;
                    r.ret = -1;
                    s->ist = keep;
                    return r;
                }
                r.n += c;
                s->ist = cd.istate;
                s->ost = cd.ostate;
            }
        }
        if (cd.ofuncs.xxx_reset)
        {
            int c = cd.ofuncs.xxx_reset(&cd, out + r.n, room - r.n);
            if (c < 0)
            {
                r.err = E2BIG;
                r.ret = -1;
                return r;
            }
            r.n += c;
        }
    }
    s->ist = s->ost = 0;
    r.ret = cnt;
    return r;
}

/* ---------- reporting ---------- */
static long n_eval, n_fail;
static int cur_f, cur_t, cur_fl;
static const char *cur_test = "";
static u8 cur_in[600];
static size_t cur_n;
static void pr_bytes(const u8 *b, size_t n)
{
    if (n == 0) printf("-");
    for (size_t i = 0; i < n && i < 200; i++) printf("%02x", b[i]);
    if (n > 200) printf("...(%zu bytes)", n);
}
static void fail_(const char *cl, const char *msg, const char *detail)
{
    if (++n_fail > 8) return;
    printf("FAIL test=%s from=%s to=%s flags=%d input=", cur_test, enc_name[cur_f], enc_name[cur_t], cur_fl);
    pr_bytes(cur_in, cur_n);
    printf(" clause=%s detail=[%s] msg=%s\n", cl, detail ? detail : "", msg);
    fflush(stdout);
}
static void crash(int sig)
{
    fail_("crash", sig == SIGABRT ? "abort()" : sig == SIGALRM ? "does not return" : "signal", "");
    fflush(stdout);
    _exit(3);
}
void __asan_on_error(void) { fail_("memory", "access outside the buffers", ""); fflush(stdout); }
static uint64_t rng = 88172645463325252ull;
static unsigned rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (unsigned)(rng >> 11); }
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

/* ---------- texts ---------- */
static unsigned *pool; static int npool;     /* characters the source encoding can express */
static unsigned *hot; static int nhot;       /* those that do something special */
static void mk_pool(int f)
{
    pool = malloc(4 * 0x30100); hot = malloc(4 * 0x4000);
    struct st z = {0, 0, 0};
    struct conv_struct cd; u8 b[32];
    for (unsigned wc = 0; wc < 0x30000; wc += wc < 0x3400 || wc >= 0xf000 && wc < 0x10080 ? 1 : 1 + rnd() % 5)
    {
        mk(&cd, f, f, z);
        if (cd.ofuncs.xxx_wctomb(&cd, b, wc, 32) >= 0)
        {
            pool[npool++] = wc;
            if (nhot < 0x3f00 && (wc < 0x80 || wc >= 0xc0 && wc < 0x180 || wc >= 0x300 && wc < 0x370 || wc >= 0x5b0 && wc < 0x5ef || wc >= 0x2e0 && wc < 0x2ea
                || wc >= 0x3040 && wc < 0x3100 || wc >= 0x31f0 && wc < 0x3200 || wc >= 0x1ea0 && wc < 0x1f00 || wc == 0xfeff || wc >= 0x10000 && wc < 0x10010 || wc >= 0x20000 && wc < 0x20010))
                hot[nhot++] = wc;
        }
    }
    for (unsigned wc = 0xe0000; wc < 0xe0080; wc++)
    {
        mk(&cd, f, f, z);
        if (cd.ofuncs.xxx_wctomb(&cd, b, wc, 32) >= 0 && nhot < 0x3ff0) hot[nhot++] = pool[npool++] = wc;
    }
    if (!npool) pool[npool++] = 0x41;
    if (!nhot) hot[nhot++] = pool[0];
}
static const u8 special[] = {0x00, 0x0a, 0x0d, 0x0e, 0x0f, 0x1b, 0x20, 0x2b, 0x2d, 0x5c, 0x75, 0x7e, 0x7b, 0x7d, 0x80, 0x81, 0x8e, 0x8f, 0xa0, 0xa1, 0xb0, 0xc0, 0xd8, 0xdc, 0xe0, 0xed, 0xf0, 0xf4, 0xf8, 0xfe, 0xff};
static size_t mk_text(int f, u8 *b, size_t max, int chars, int noise)
{
    struct conv_struct cd; struct st z = {0, 0, 0};
    size_t n = 0;
    int style = rnd() % 4;
    mk(&cd, f, f, z);
    if (noise && (unit_of(f) > 1) && rnd() % 4 == 0)
    { /* a byte order mark of either sense */
        static const u8 bom[4][4] = {{0xfe, 0xff}, {0xff, 0xfe}, {0, 0, 0xfe, 0xff}, {0xff, 0xfe, 0, 0}};
        int u = unit_of(f); memcpy(b, bom[(u == 4 ? 2 : 0) + rnd() % 2], u); n += u;
        if (rnd() % 2) cd.ostate = 1;
    }
    for (int i = 0; i < chars && n + 40 < max; i++)
    {
        unsigned wc = style == 0 ? hot[rnd() % nhot] : style == 1 ? pool[rnd() % npool] : rnd() % 2 ? hot[rnd() % nhot] : pool[rnd() % npool];
        if (noise && rnd() % 12 == 0)
        {
            int k = 1 + rnd() % 3;
            while (k--) b[n++] = rnd() % 2 ? special[rnd() % sizeof special] : rnd();
        }
        int c = cd.ofuncs.xxx_wctomb(&cd, b + n, wc, max - n);
        if (c > 0) n += c;
    }
    if (rnd() % 2 && cd.ofuncs.xxx_reset) { int c = cd.ofuncs.xxx_reset(&cd, b + n, max - n); if (c > 0) n += c; }
    if (noise && n && rnd() % 3 == 0) n -= rnd() % (n < 4 ? n : 4);   /* truncate */
    return n;
}

/* ---------- guarded buffers ---------- */
#define BIGOUT 65536
static u8 obig[BIGOUT], obig2[BIGOUT];
static u8 *exact_in(const u8 *b, size_t n) { u8 *p = malloc(n ? n : 1); memcpy(p, b, n); return p; } /* ASan guards both ends */

static reiconv_t op(int f, int t, int fl)
{
    reiconv_t cd = reiconv_open_from_index(f, t, (enum ConvertFlag)fl);
    if (cd == (reiconv_t)-1) { fail_("open", "cannot open a descriptor", ""); _exit(4); }
    return cd;
}
struct call { size_t ret; int err; size_t used, n; };
/* one real call with exact-size heap buffers; output appended to dst */
static struct call do_call(reiconv_t cd, const u8 *in, size_t n, u8 *dst, size_t room)
{
    struct call c;
    u8 *ib = exact_in(in, n), *ob = malloc(room ? room : 1);
    memset(ob, 0xA5, room);
    char *ip = (char *)ib, *opn = (char *)ob;
    size_t il = n, ol = room;
    errno = 0x7777;
    n_eval++;
    c.ret = reiconv_iconv(cd, &ip, &il, &opn, &ol);
    c.err = c.ret == (size_t)-1 ? errno : 0;
    c.used = (u8 *)ip - ib;
    c.n = (u8 *)opn - ob;
    if (c.used > n || c.used + il != n) fail_("accounting", "input pointer and count disagree", "");
    if (c.n > room || c.n + ol != room) fail_("accounting", "output pointer and count disagree", "");
    else for (size_t i = c.n; i < room; i++) if (ob[i] != 0xA5 && i >= c.n + 16) { fail_("frame", "bytes far beyond the reported output written", ""); break; }
    if (memcmp(ib, in, n)) fail_("frame", "input bytes modified", "");
    if (c.n <= room) memcpy(dst, ob, c.n);
    free(ib); free(ob);
    return c;
}
static struct call do_reset(reiconv_t cd, u8 *dst, size_t room, int mode)
{
    struct call c = {0, 0, 0, 0};
    n_eval++;
    errno = 0x7777;
    if (mode == 0)
    {
        u8 *ob = malloc(room ? room : 1);
        memset(ob, 0xA5, room);
        char *opn = (char *)ob; size_t ol = room;
        c.ret = reiconv_iconv(cd, NULL, NULL, &opn, &ol);
        c.err = c.ret == (size_t)-1 ? errno : 0;
        c.n = (u8 *)opn - ob;
        if (c.n > room || c.n + ol != room) fail_("accounting", "output pointer and count disagree after reset", "");
        else memcpy(dst, ob, c.n);
        free(ob);
    }
    else
    {
        char *nul = NULL; size_t z = 0;
        c.ret = mode == 1 ? reiconv_iconv(cd, NULL, NULL, NULL, NULL) : mode == 2 ? reiconv_iconv(cd, &nul, &z, NULL, NULL) : reiconv_iconv(cd, NULL, NULL, &nul, &z);
        c.err = c.ret == (size_t)-1 ? errno : 0;
    }
    return c;
}
static char det[512];
static void set_in(const u8 *b, size_t n) { cur_n = n < sizeof cur_in ? n : sizeof cur_in; memcpy(cur_in, b, cur_n); }

/* T1: one call against the specification, with any output size, then go on for a few calls */
static void t_policy(int f, int t)
{
    u8 b[512];
    size_t n = mk_text(f, b, sizeof b, 1 + rnd() % 10, 1), pos = 0;
    cur_test = "policy"; cur_fl = rnd() % 2; set_in(b, n);
    if (n == 0) return;
    reiconv_t cd = op(f, t, cur_fl);
    struct st s = {0, 0, 0};
    for (int k = 0; k < 8 && pos < n; k++)
    {
        size_t room = rnd() % 4 ? 256 : rnd() % 12;
        struct call c = do_call(cd, b + pos, n - pos, obig, room);
        struct run r = spec_conv(f, t, cur_fl, &s, b + pos, n - pos, obig2, room);
        if (c.ret != r.ret || c.err != r.err || c.used != r.used || c.n != r.n || memcmp(obig, obig2, c.n))
        {
            snprintf(det, sizeof det, "call %d at %zu room %zu: ret %zd/%zd errno %d/%d consumed %zu/%zu written %zu/%zu (real/specified)", k, pos, room, c.ret, r.ret, c.err, r.err, c.used, r.used, c.n, r.n);
            fail_("policy", "result differs from the specified conversion", det);
            break;
        }
        pos += c.used;
        if (c.err == EILSEQ) pos++;
        if (c.err == EINVAL) break;
    }
    reiconv_handle_close(cd);
}
/* T2: any cutting of input and output gives what one call gives */
static void t_chunk(int f, int t)
{
    static u8 b[512], acc[8192];
    size_t n = mk_text(f, b, sizeof b, 1 + rnd() % 12, rnd() % 3 == 0), an = 0, pos = 0, avail;
    cur_test = "chunk"; cur_fl = rnd() % 3 == 0; set_in(b, n);
    reiconv_t one = op(f, t, cur_fl), many = op(f, t, cur_fl);
    struct call w = do_call(one, b, n, obig, 8192);
    if (w.err == E2BIG) goto out;
    size_t wn = w.n;
    int mode = rnd() % 3, room = 0, stuck = 0, err = 0;
    avail = mode == 0 ? 1 : 1 + rnd() % 6;
    if (avail > n) avail = n;
    for (int guard = 0; pos < n && guard < 20000; guard++)
    {
        room = mode == 1 ? stuck : stuck + rnd() % 7;
        if (an + room > sizeof acc) break;
        struct call c = do_call(many, b + pos, avail - pos, acc + an, room);
        pos += c.used; an += c.n;
        if (c.used || c.n) stuck = 0;
        if (c.err == 0 && pos != avail) { fail_("chunk", "success although input is left", ""); break; }
        if (c.err == E2BIG) { if (++stuck > 64) { fail_("chunk", "no progress however large the buffer", ""); break; } continue; }
        if (c.err == EILSEQ) { err = EILSEQ; break; }
        if (c.err == EINVAL || c.err == 0)
        {
            if (avail == n) { err = c.err; break; }
            avail += mode == 0 ? 1 : 1 + rnd() % 6;
            if (avail > n) avail = n;
            continue;
        }
    }
    if (err == EILSEQ && w.err == EILSEQ && pos > w.used)
    { /* both stop at the same character; shift sequences before it may already be consumed */
        struct st s = {0, 0, 0};
        struct conv_struct c2;
        size_t q;
        spec_conv(f, t, cur_fl, &s, b, n, obig2, 8192);
        mk(&c2, f, t, s);
        for (q = w.used; q < pos;)
        {
            ucs4_t wc;
            unsigned keep = c2.istate, kbo = c2.ibyteorder;
            size_t m, k = 0;
            for (m = pos - q; m <= n - q && !k; m++)
            {
                c2.istate = keep; c2.ibyteorder = kbo;
                int d = c2.ifuncs.xxx_mbtowc(&c2, &wc, b + q, m);
                if (d >= 0 || (-1 - d) % 2 == 0) break;
                k = (unsigned)(-1 - d) / 2;
            }
            if (!k || q + k > pos) break;
            q += k;
        }
        if (q == pos && an == wn && !memcmp(acc, obig, wn)) goto out;
    }
    if (err != w.err || pos != w.used || an != wn || memcmp(acc, obig, wn))
    {
        int l = snprintf(det, sizeof det, "whole: errno %d consumed %zu out ", w.err, w.used);
        for (size_t i = 0; i < wn && l < 200; i++) l += snprintf(det + l, sizeof det - l, "%02x", obig[i]);
        l += snprintf(det + l, sizeof det - l, "; in pieces: errno %d consumed %zu out ", err, pos);
        for (size_t i = 0; i < an && l < 440; i++) l += snprintf(det + l, sizeof det - l, "%02x", acc[i]);
        fail_("chunk", "conversion in pieces differs from conversion at once", det);
    }
    else
    {
        /* both descriptors must now behave the same: reset and compare */
        struct call x = do_reset(one, obig, 64, 0), y;
        size_t yn = 0; int g = 0;
        do { y = do_reset(many, acc + yn, g < 3 ? g : 64, 0); yn += y.n; } while (y.err == E2BIG && g++ < 8);
        if (x.err != y.err || x.n != yn || memcmp(obig, acc, yn))
            fail_("chunk", "the state after conversion in pieces differs", "");
    }
out:
    reiconv_handle_close(one); reiconv_handle_close(many);
}
/* T3: reset against the specification */
static void t_reset(int f, int t)
{
    u8 b[256], b2[256];
    size_t n = mk_text(f, b, sizeof b, rnd() % 6, rnd() % 3 == 0);
    cur_test = "reset"; cur_fl = rnd() % 2; set_in(b, n);
    reiconv_t cd = op(f, t, cur_fl);
    struct st s = {0, 0, 0};
    if (n)
    {
        do_call(cd, b, n, obig, 2048);
        spec_conv(f, t, cur_fl, &s, b, n, obig2, 2048);
    }
    int steps = 1 + rnd() % 4, ok = 1;
    for (int k = 0; k < steps && ok; k++)
    {
        size_t room = k == 0 && rnd() % 3 ? rnd() % 6 : rnd() % 3 == 0 ? rnd() % 10 : 64;
        int mode = rnd() % 5 == 0 ? 1 + rnd() % 3 : 0;
        struct call c = do_reset(cd, obig, room, mode);
        struct run r = spec_reset(f, t, cur_fl, &s, mode ? NULL : obig2, room);
        if (c.ret != r.ret || c.err != r.err || (c.ret != (size_t)-1 && (c.n != r.n || memcmp(obig, obig2, c.n))) || (c.ret == (size_t)-1 && c.n != r.n))
        {
            snprintf(det, sizeof det, "reset %d mode %d room %zu: ret %zd/%zd errno %d/%d written %zu/%zu (real/specified)", k, mode, room, c.ret, r.ret, c.err, r.err, c.n, r.n);
            fail_("reset", "reset differs from the specification", det);
            ok = 0;
        }
    }
    if (ok)
    {
        size_t n2 = mk_text(f, b2, sizeof b2, 1 + rnd() % 4, 0);
        if (n2)
        {
            struct call c = do_call(cd, b2, n2, obig, 2048);
            struct run r = spec_conv(f, t, cur_fl, &s, b2, n2, obig2, 2048);
            if (c.ret != r.ret || c.err != r.err || c.used != r.used || c.n != r.n || memcmp(obig, obig2, c.n))
                fail_("reset", "conversion after the reset differs from the specification", "");
        }
    }
    reiconv_handle_close(cd);
}
/* T4: one-shot functions */
static u8 lb[24000], eb[BIGOUT];
static void t_oneshot(int f, int t)
{
    cur_test = "oneshot"; cur_fl = rnd() % 3 == 0;
    reiconv_t cd = op(f, t, cur_fl);
    struct st s0 = {0, 0, 0};
    for (int rep = 0; rep < 3; rep++)
    {
        int big = rnd() % 12 == 0;
        size_t n;
        if (big)
        { /* a result close to or beyond the size of the internal buffer */
            u8 piece[256]; size_t k = mk_text(f, piece, sizeof piece, 1 + rnd() % 5, 0), head;
            n = head = mk_text(f, lb, 300, rnd() % 30, 0);
            size_t want = 700 + rnd() % 5000;
            while (k && n < want) { memcpy(lb + n, piece, k); n += k; }
        }
        else n = mk_text(f, lb, 400, rnd() % 8, rnd() % 3 == 0);
        set_in(lb, n);
        struct st s = s0;
        struct run r = spec_conv(f, t, cur_fl, &s, lb, n, eb, BIGOUT - 256);
        if (r.err == E2BIG) break;
        int experr = r.err ? EILSEQ : 0;
        size_t want = r.n;
        struct st afterconv = s;
        if (!experr)
        {
            struct run q = spec_reset(f, t, cur_fl, &s, eb + r.n, 256);
            if (q.err) experr = q.err;
            want += q.n;
        }
        else s.ist = s.ost = 0;
        (void)afterconv;
        u8 *ib = exact_in(lb, n);
        n_eval++;
        errno = 0x7777;
        size_t sz = reiconv_result_size(cd, (char *)ib, n);
        int e1 = sz == (size_t)-1 ? errno : 0;
        if (experr ? (sz != (size_t)-1 || e1 != experr) : sz != want)
        {
            snprintf(det, sizeof det, "result_size %zd errno %d, specified %zd errno %d", sz, e1, want, experr);
            fail_("oneshot", "result size differs", det);
            free(ib); break;
        }
        /* descriptor must be as before */
        struct conv_struct *c = cd;
        if (c->istate != 0 || c->ostate != 0 || c->ibyteorder != s0.bo)
            fail_("oneshot", "result_size leaves the descriptor changed", "");
        /* caller's buffer: too small / exact / larger */
        int kind = rnd() % 4;
        size_t room = experr ? rnd() % 64 : kind == 0 ? (want ? rnd() % want : 0) : kind == 1 ? want : kind == 2 ? (want ? want - 1 : 0) : want + rnd() % 40;
        if (!experr || 1)
        {
            u8 *ob = malloc(room + 64); memset(ob, 0xA5, room + 64);
            errno = 0x7777;
            int rc = reiconv_convert_static_size(cd, (char *)ib, n, (char *)ob, room);
            int e2 = rc ? errno : 0;
            if (!experr)
            {
                if (room >= want ? rc != 0 : (rc != -1 || e2 != E2BIG))
                {
                    snprintf(det, sizeof det, "static_size with room %zu for %zu: rc %d errno %d", room, want, rc, e2);
                    fail_("oneshot", "conversion into a caller's buffer: wrong verdict", det);
                }
                else if (rc == 0 && memcmp(ob, eb, want)) fail_("oneshot", "conversion into a caller's buffer: wrong bytes", "");
                else if (rc == 0)
                    for (size_t i = want; i < room; i++) if (ob[i] != 0xA5) { snprintf(det, sizeof det, "byte %zu of %zu, result %zu", i, room, want); fail_("oneshot", "rest of the caller's buffer changed", det); break; }
            }
            else if (rc != -1 || (e2 != experr && e2 != E2BIG) || (e2 == E2BIG && room > r.n + 40))
            {
                snprintf(det, sizeof det, "static_size rc %d errno %d, specified errno %d", rc, e2, experr);
                fail_("oneshot", "conversion into a caller's buffer: wrong error", det);
            }
            for (size_t i = room; i < room + 64; i++) if (ob[i] != 0xA5) { fail_("oneshot", "wrote past the caller's buffer", ""); break; }
            free(ob);
            if (c->istate != 0 || c->ostate != 0)
                fail_("oneshot", "static_size leaves the descriptor in the middle of something", "");
            c->ibyteorder = s0.bo;   /* detected byte order is allowed to stay; undo for the next part */
        }
        {
            char *p = rnd() % 2 ? NULL : malloc(1 + rnd() % 30); size_t len = 12345; int had = p != NULL;
            errno = 0x7777;
            int rc = reiconv_convert(cd, (char *)ib, n, &p, &len);
            int e3 = rc ? errno : 0;
            if (experr ? (rc != -1 || e3 != experr) : (rc != 0 || len != want || p == NULL || memcmp(p, eb, want)))
            {
                snprintf(det, sizeof det, "convert rc %d errno %d length %zd, specified errno %d length %zd", rc, e3, len, experr, want);
                fail_("oneshot", "allocating conversion differs", det);
            }
            (void)had;
            free(p);
            if (c->istate != 0 || c->ostate != 0)
                fail_("oneshot", "convert leaves the descriptor in the middle of something", "");
        }
        s0.bo = c->ibyteorder;
        s0.ist = s0.ost = 0;
        free(ib);
    }
    /* null arguments */
    char *p = NULL; size_t len;
    errno = 0; if (reiconv_convert(cd, "a", 1, NULL, &len) != -1 || errno != EINVAL) fail_("oneshot", "null result pointer accepted", "");
    errno = 0; if (reiconv_convert(cd, "a", 1, &p, NULL) != -1 || errno != EINVAL) fail_("oneshot", "null length pointer accepted", "");
    free(p);
    reiconv_handle_close(cd);
}
/* T5: interleaved descriptors */
static void t_indep(int f, int t)
{
    u8 b[2][256]; size_t n[2], pos[2] = {0, 0}, an[2] = {0, 0}, wn[2]; static u8 acc[2][4096], whole[2][4096];
    int ff[2] = {f, rnd() % 2 ? f : (int)(rnd() % NENC)}, tt[2] = {t, rnd() % 3 ? t : (int)(rnd() % NENC)}, dead[2] = {0, 0};
    cur_test = "interleave"; cur_fl = 1;
    reiconv_t cd[2];
    for (int k = 0; k < 2; k++)
    {
        n[k] = ff[k] == f ? mk_text(f, b[k], 256, 1 + rnd() % 8, rnd() % 3 == 0) : 0;
        while (ff[k] != f && n[k] < 20) b[k][n[k]++] = rnd() % 3 ? 0x20 + rnd() % 0x5f : rnd();
        cd[k] = op(ff[k], tt[k], 1);
        reiconv_t x = op(ff[k], tt[k], 1);
        if (k == 0) set_in(b[0], n[0]);
        struct call c = do_call(x, b[k], n[k], whole[k], 2048);
        struct call d = do_reset(x, whole[k] + c.n, 64, 0);
        wn[k] = c.n + d.n;
        reiconv_handle_close(x);
    }
    for (int g = 0; g < 400 && !(dead[0] && dead[1]); g++)
    {
        int k = rnd() % 2;
        if (dead[k]) k = !k;
        if (rnd() % 10 == 0) { reiconv_t x = op(rnd() % NENC, t, 0); do_call(x, (const u8 *)"ab\033$B0!", 7, obig, 64); reiconv_handle_close(x); }
        size_t m = pos[k] + 1 + rnd() % 5; if (m > n[k]) m = n[k];
        struct call c = do_call(cd[k], b[k] + pos[k], m - pos[k], acc[k] + an[k], 64);
        pos[k] += c.used; an[k] += c.n;
        if (c.err == EINVAL && m < n[k]) { c = do_call(cd[k], b[k] + pos[k], n[k] - pos[k], acc[k] + an[k], 2048); pos[k] += c.used; an[k] += c.n; m = n[k]; }
        if (pos[k] == n[k] || (m == n[k] && c.err)) { dead[k] = 1; c = do_reset(cd[k], acc[k] + an[k], 64, 0); an[k] += c.n; }
    }
    for (int k = 0; k < 2; k++)
    {
        if (an[k] != wn[k] || memcmp(acc[k], whole[k], wn[k]))
        {
            cur_f = ff[k]; cur_t = tt[k]; set_in(b[k], n[k]);
            fail_("interleave", "a conversion gives something else when another one runs in between", "");
            cur_f = f; cur_t = t;
        }
        reiconv_handle_close(cd[k]);
    }
}
int main(int argc, char **argv)
{
    const char *tests = argv[1];
    int f = atoi(argv[2]);
    double budget = atof(argv[3]);
    signal(SIGABRT, crash); signal(SIGSEGV, crash); signal(SIGBUS, crash); signal(SIGFPE, crash); signal(SIGALRM, crash);
    rng ^= ((uint64_t)(atoi(argv[4]) * 7919 + f)) * 0x9E3779B97F4A7C15ull;
    for (int i = 0; i < 10; i++) rnd();
    alarm(50 + (int)(budget * 4));
    cur_f = f;
    mk_pool(f);
    static const int tgt[] = {ei_utf8, ei_utf16, ei_utf32le, ei_ucs2, ei_utf7, ei_ascii, ei_iso8859_1, ei_iso2022_jp2, ei_iso2022_jp3, ei_iso2022_kr, ei_iso2022_cn_ext, ei_hz, ei_big5hkscs2008, ei_euc_jisx0213, ei_shift_jisx0213, ei_gb18030_2005, ei_euc_jp, ei_cp1258, ei_cp1255, ei_tcvn, ei_java, ei_c99, ei_johab, ei_iso2022_jpms, ei_utf16le, ei_koi8_r};
    double t0 = now();
    for (long it = 0; now() - t0 < budget; it++)
    {
        int r = rnd() % 8;
        cur_t = r == 0 ? (int)(rnd() % NENC) : r == 1 ? f : tgt[it % (sizeof tgt / sizeof tgt[0])];
        for (const char *p = tests; *p; p++)
            switch (*p)
            {
            case 'p': t_policy(f, cur_t); break;
            case 'c': t_chunk(f, cur_t); break;
            case 'r': t_reset(f, cur_t); break;
            case 'o': t_oneshot(f, cur_t); break;
            case 'i': t_indep(f, cur_t); break;
            }
    }
    printf("DONE from=%s evals=%ld fails=%ld\n", enc_name[f], n_eval, n_fail);
    return n_fail != 0;
}
