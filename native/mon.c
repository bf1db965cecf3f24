/* Runtime form of the converter contracts: the same clauses the verifier discharges
   symbolically are evaluated here on concrete inputs of the real converters.
   Used to turn a failed obligation into a failing input, and as the bounded stand-in where a
   converter is out of the verifier's reach.  Includes the library source itself. */
#include "iconv.c"
#include <stdio.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif

#define NENC ((int)(sizeof(all_encodings) / sizeof(all_encodings[0])))
static const char *enc_name[] = {
#include "enc_names.inc"
};

static unsigned char ibuf_[256] __attribute__((aligned(64)));
static unsigned char obuf_[256] __attribute__((aligned(64)));
static long n_eval, n_fail;
static int cur_enc;
static const char *cur_what = "";
static unsigned cur_ist, cur_bo, cur_ost, cur_wc, cur_n, cur_len;
static unsigned char cur_bytes[64];

/* input of n bytes that ends exactly where accessible memory ends */
static unsigned char *put_in(const unsigned char *b, size_t n)
{
    unsigned char *s = ibuf_ + 128 - n;
    UNPOISON(ibuf_, 128);
    memcpy(s, b, n);
    POISON(ibuf_ + 128, 128);
    return s;
}
static unsigned char *put_out(size_t n)
{
    unsigned char *s = obuf_ + 128 - n;
    UNPOISON(obuf_, 128);
    memset(obuf_, 0xA5, 128);
    POISON(obuf_ + 128, 128);
    return s;
}

static void pr_bytes(const unsigned char *b, size_t n)
{
    if (n == 0)
        printf("-");
    for (size_t i = 0; i < n; i++)
        printf("%02x", b[i]);
}
static void fail_(const char *ob, const char *msg)
{
    n_fail++;
    if (n_fail > 12)
        return;
    printf("FAIL enc=%s ob=%s what=%s istate=%08x border=%u ostate=%08x wc=%08x n=%u bytes=", enc_name[cur_enc], ob,
           cur_what, cur_ist, cur_bo, cur_ost, cur_wc, cur_n);
    pr_bytes(cur_bytes, cur_len);
    printf(" msg=%s\n", msg);
    fflush(stdout);
}
static void crash(int sig)
{
    n_fail++;
    fail_("crash", sig == SIGABRT ? "abort()" : "signal");
    fflush(stdout);
    _exit(3);
}
void __asan_on_error(void)
{
    fail_("memory", "out-of-bounds access");
    fflush(stdout);
}

struct dst { unsigned ist, bo; };
struct dres { int r; ucs4_t wc; unsigned ist, bo; };

static struct conv_struct cd0;
static void mk(struct conv_struct *cd, int e)
{
    memset(cd, 0, sizeof *cd);
    cd->lfuncs.loop_convert = unicode_loop_convert;
    cd->lfuncs.loop_reset = unicode_loop_reset;
    cd->iindex = cd->oindex = e;
    cd->ifuncs = all_encodings[e].ifuncs;
    cd->ofuncs = all_encodings[e].ofuncs;
}

static int unit_of(int e)
{
    switch (e)
    {
    case ei_ucs4: case ei_ucs4be: case ei_ucs4le: case ei_utf32: case ei_utf32be: case ei_utf32le:
    case ei_ucs4internal: case ei_ucs4swapped:
        return 4;
    case ei_ucs2: case ei_ucs2be: case ei_ucs2le: case ei_utf16: case ei_utf16be: case ei_utf16le:
    case ei_ucs2internal: case ei_ucs2swapped:
        return 2;
    }
    return 1;
}

static struct dres dcall(int e, struct dst st, const unsigned char *b, size_t n, ucs4_t poison)
{
    struct conv_struct cd;
    struct dres d;
    unsigned char *s = put_in(b, n);
    mk(&cd, e);
    cd.istate = st.ist;
    cd.ibyteorder = st.bo;
    cd.ostate = 0x5a5a5a5a;
    cd.discard_ilseq = 0;
    struct conv_struct cd2 = cd;
    d.wc = poison;
    cur_ist = st.ist; cur_bo = st.bo; cur_n = n; cur_len = n; memcpy(cur_bytes, b, n);
    d.r = cd.ifuncs.xxx_mbtowc(&cd, &d.wc, s, n);
    n_eval++;
    d.ist = cd.istate;
    d.bo = cd.ibyteorder;
    cd.istate = cd2.istate;
    cd.ibyteorder = cd2.ibyteorder;
    if (memcmp(&cd, &cd2, sizeof cd))
        fail_("D.frame", "decoder changed a descriptor field other than its own state");
    if (memcmp(s, b, n))
        fail_("D.frame", "decoder changed its input");
    return d;
}
static int is_ilseq(int r) { return r < 0 && ((unsigned)(-1 - r)) % 2 == 0; }
static int is_toofew(int r) { return r < 0 && ((unsigned)(-1 - r)) % 2 == 1; }
static unsigned shift_of(int r) { return is_ilseq(r) ? DECODE_SHIFT_ILSEQ(r) : DECODE_TOOFEW(r); }

static int same(struct dres a, struct dres b)
{
    return a.r == b.r && a.ist == b.ist && a.bo == b.bo && (a.r < 0 || a.wc == b.wc);
}

/* state sets */
#define MAXST 6000
static struct dst ds[MAXST];
static struct { int par, used, len; unsigned char b[12]; } dsp[MAXST]; /* how the state was reached */
static int nds;
static int cur_sidx = -1;
static unsigned hashtab[1 << 15];
static int add_ds(unsigned ist, unsigned bo, int use)
{
    unsigned h = (ist * 2654435761u ^ bo * 40503u) >> 17;
    while (hashtab[h])
    {
        if (ds[hashtab[h] - 1].ist == ist && ds[hashtab[h] - 1].bo == bo)
            return 0;
        h = (h + 1) & 0x7fff;
    }
    if (nds >= MAXST)
        return 0;
    ds[nds].ist = ist;
    ds[nds].bo = bo;
    dsp[nds].par = cur_sidx;
    dsp[nds].used = use;
    dsp[nds].len = cur_len < 12 ? cur_len : 12;
    memcpy(dsp[nds].b, cur_bytes, dsp[nds].len);
    hashtab[h] = ++nds;
    return 1;
}

static int max_look; /* most bytes needed to decide one step */
static int grow; /* whether check_dec may add states */
static void check_dec(int e, struct dst st, const unsigned char *b, int L)
{
    struct dres d[17];
    unsigned unit = unit_of(e);
    for (int n = 1; n <= L; n++)
    {
        d[n] = dcall(e, st, b, n, 0xdeadbeef);
        int r = d[n].r;
        if (r >= 0)
        {
            if (r > n)
                fail_("D.acc", "consumed more bytes than available");
            if (d[n].wc == 0xdeadbeef)
                fail_("D.out", "no character stored");
            if (grow)
                add_ds(d[n].ist, d[n].bo, r);
        }
        else if (is_ilseq(r))
        {
            if (shift_of(r) + unit > (unsigned)n)
                fail_("D.acc", "invalid unit extends past the available bytes");
            if (grow)
                add_ds(d[n].ist, d[n].bo, shift_of(r));
        }
        else
        {
            if (shift_of(r) > (unsigned)n)
                fail_("D.acc", "shift sequence longer than the available bytes");
            if (shift_of(r) == 0 && d[n].ist != st.ist)
                fail_("D.incomplete", "decoder state changed although nothing was consumed");
            if (grow)
                add_ds(d[n].ist, d[n].bo, shift_of(r));
        }
        if (n > 1 && !(is_toofew(r) && shift_of(r) == 0) && is_toofew(d[n - 1].r) && shift_of(d[n - 1].r) == 0 && n > max_look)
            max_look = n;
        /* redo after the caller restored istate only */
        {
            struct dst st2 = {st.ist, d[n].bo};
            struct dres q = dcall(e, st2, b, n, 0x12345678);
            if (!same(q, d[n]))
                fail_("D.redo", "decoding the same bytes again after a rollback gives something else");
        }
        if (r == 0)
        {
            struct dst st2 = {d[n].ist, d[n].bo};
            struct dres q = dcall(e, st2, b, n, 0x12345678);
            int hop = 0;
            while (q.r == 0 && hop++ < 6)
            {
                st2.ist = q.ist; st2.bo = q.bo;
                q = dcall(e, st2, b, n, 0x12345678);
            }
            if (hop > 6)
                fail_("D.progress", "decoder produces characters for ever without consuming");
        }
        cur_ist = st.ist; cur_bo = st.bo; cur_n = n; cur_len = n; memcpy(cur_bytes, b, n);
        for (int m = n - 1; m >= 1; m--)
        {
            /* what was decided on m bytes stands when n bytes are there */
            if (!is_toofew(d[m].r))
            {
                if (!same(d[m], d[n]))
                    fail_("D.prefix", "result on a prefix differs from the result on the longer input");
                break;
            }
            unsigned k = shift_of(d[m].r);
            if (k > 0 && k < (unsigned)n)
            {
                struct dst st2 = {d[m].ist, d[m].bo};
                struct dres q = dcall(e, st2, b + k, n - k, 0x12345678);
                struct dres x = q;
                if (q.r >= 0) x.r = q.r + k;
                else x.r = q.r - 2 * (int)k;
                cur_ist = st.ist; cur_bo = st.bo; cur_n = n; cur_len = n; memcpy(cur_bytes, b, n);
                /* either the same step again, or the step completed by the further bytes */
                if (!same(x, d[n]) && !same(d[m], d[n]))
                    fail_("D.shift", "shift sequence consumed alone, then the rest, differs from all at once");
            }
        }
    }
}

/* encoder */
struct eres { int r; unsigned ost; unsigned char b[64]; };
static struct eres ecall(int e, unsigned ost, ucs4_t wc, size_t n)
{
    struct conv_struct cd;
    struct eres x;
    unsigned char *s = put_out(n);
    mk(&cd, e);
    cd.ostate = ost;
    cd.istate = 0x5a5a5a5a;
    cd.ibyteorder = 0x5a5a5a5a;
    struct conv_struct cd2 = cd;
    cur_ost = ost; cur_wc = wc; cur_n = n; cur_len = 0;
    x.r = cd.ofuncs.xxx_wctomb(&cd, s, wc, n);
    n_eval++;
    x.ost = cd.ostate;
    cd.ostate = cd2.ostate;
    if (memcmp(&cd, &cd2, sizeof cd))
        fail_("E.frame", "encoder changed a descriptor field other than its own state");
    memcpy(x.b, s, n < 64 ? n : 64);
    return x;
}
static struct eres rcall(int e, unsigned ost, size_t n)
{
    struct conv_struct cd;
    struct eres x;
    unsigned char *s = put_out(n);
    mk(&cd, e);
    cd.ostate = ost;
    cd.istate = 0x5a5a5a5a;
    cd.ibyteorder = 0x5a5a5a5a;
    struct conv_struct cd2 = cd;
    cur_ost = ost; cur_wc = 0; cur_n = n; cur_len = 0;
    x.r = cd.ofuncs.xxx_reset(&cd, s, n);
    n_eval++;
    x.ost = cd.ostate;
    cd.ostate = cd2.ostate;
    if (memcmp(&cd, &cd2, sizeof cd))
        fail_("R.frame", "reset changed a descriptor field other than the encoder state");
    memcpy(x.b, s, n < 64 ? n : 64);
    return x;
}
#define BIG 32
static unsigned es[MAXST];
static struct { int par; unsigned wc; } esp[MAXST];
static int cur_eidx = -1;
static int nes;
static unsigned ehash[1 << 15];
static int add_es(unsigned o)
{
    unsigned h = (o * 2654435761u) >> 17;
    while (ehash[h])
    {
        if (es[ehash[h] - 1] == o)
            return 0;
        h = (h + 1) & 0x7fff;
    }
    if (nes >= MAXST)
        return 0;
    es[nes] = o;
    esp[nes].par = cur_eidx;
    esp[nes].wc = cur_wc;
    ehash[h] = ++nes;
    return 1;
}
static struct eres check_enc(int e, unsigned ost, ucs4_t wc)
{
    struct eres big = ecall(e, ost, wc, BIG);
    if (big.r < -2 || big.r > BIG)
        fail_("E.acc", "impossible return value");
    else if (big.r == -2)
        fail_("E.size", "no room in a large buffer");
    if (big.r < 0 && big.ost != ost)
        fail_("E.unchanged", "encoder state changed by a refused character");
    if (big.r >= 0 && grow)
        add_es(big.ost);
    int top = big.r > 0 ? big.r + 1 : 2;
    for (int n = 1; n <= top; n++)
    {
        struct eres x = ecall(e, ost, wc, n);
        if (x.r > n || x.r < -2)
            fail_("E.acc", "wrote more than the buffer holds");
        if (x.r < 0 && x.ost != ost)
            fail_("E.unchanged", "encoder state changed although nothing was written");
        if (big.r < 0)
        {
            if (x.r >= 0)
                fail_("E.size", "result depends on the room left");
            /* TOOSMALL before ILUNI is detected is tolerated only when room is really missing */
            if (x.r != big.r && n > 16)
                fail_("E.size", "result depends on the room left");
        }
        else if (x.r >= 0)
        {
            if (x.r != big.r || x.ost != big.ost || memcmp(x.b, big.b, x.r))
                fail_("E.size", "result depends on the room left");
        }
        else if (x.r == -1)
            fail_("E.size", "character refused as unencodable because the buffer is short");
        else if (n >= big.r)
            fail_("E.tight", "reports no room although the result fits");
    }
    return big;
}
static void check_reset(int e, unsigned ost)
{
    struct eres big = rcall(e, ost, BIG);
    if (big.r < 0 || big.r > BIG)
        fail_("R.acc", "reset fails with a large buffer");
    for (int n = 0; n <= big.r + 1; n++)
    {
        struct eres x = rcall(e, ost, n);
        if (x.r > n || x.r < -2)
            fail_("R.acc", "reset wrote more than the buffer holds");
        if (x.r == -2)
        {
            if (x.ost != ost)
                fail_("R.unchanged", "encoder state changed although reset had no room");
            if (n >= big.r)
                fail_("R.tight", "reset reports no room although the sequence fits");
        }
        else if (x.r != big.r || memcmp(x.b, big.b, x.r))
            fail_("R.size", "reset sequence depends on the room left");
    }
}
static void check_flush(int e, struct dst st)
{
    struct conv_struct cd;
    mk(&cd, e);
    cd.istate = st.ist; cd.ibyteorder = st.bo; cd.ostate = 0x5a5a5a5a;
    struct conv_struct cd2 = cd;
    ucs4_t wc = 0xdeadbeef;
    cur_ist = st.ist; cur_bo = st.bo; cur_n = 0; cur_len = 0;
    int r = cd.ifuncs.xxx_flushwc(&cd, &wc);
    n_eval++;
    if (r != 0 && r != 1)
        fail_("F.acc", "impossible return value");
    if (r == 1 && wc == 0xdeadbeef)
        fail_("F.out", "no character stored");
    if (r == 1)
    {
        ucs4_t wc3 = 0xdeadbeef;
        int r2 = cd.ifuncs.xxx_flushwc(&cd, &wc3);
        if (r2 != 0)
            fail_("F.once", "pending character delivered twice");
    }
    if (r == 0 && cd.istate != cd2.istate && cd.istate != 0)
        fail_("F.frame", "flush changed the state");
    cd.istate = cd2.istate;
    if (memcmp(&cd, &cd2, sizeof cd))
        fail_("F.frame", "flush changed a descriptor field other than the decoder state");
}

/* ---- input generation ---- */
static uint64_t rng = 88172645463325252ull;
static unsigned rnd(void)
{
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return (unsigned)(rng >> 11);
}
static const unsigned char cls[] = {0x00, 0x01, 0x0a, 0x0d, 0x0e, 0x0f, 0x1b, 0x20, 0x21, 0x24, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f,
    0x30, 0x31, 0x38, 0x39, 0x3a, 0x40, 0x41, 0x42, 0x47, 0x48, 0x49, 0x4a, 0x4e, 0x4f, 0x51, 0x53, 0x55, 0x5a, 0x5b, 0x5c, 0x5d, 0x5e, 0x5f, 0x60, 0x61, 0x66, 0x74, 0x75,
    0x77, 0x78, 0x7a, 0x7b, 0x7d, 0x7e, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0x8c, 0x8e, 0x8f, 0x90, 0x9f, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4,
    0xa8, 0xa9, 0xac, 0xad, 0xb0, 0xbd, 0xbf, 0xc0, 0xc1, 0xc2, 0xc6, 0xc8, 0xc9, 0xd7, 0xd8, 0xdb, 0xdc, 0xdf, 0xe0, 0xe3, 0xec, 0xed, 0xee, 0xef,
    0xf0, 0xf2, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff};
#define NCLS ((int)sizeof cls)
static const char *esc[] = {"\033(B", "\033(J", "\033(I", "\033$B", "\033$@", "\033$(D", "\033$(C", "\033$A", "\033.A", "\033.F", "\033NA", "\033Na",
    "\033$(O", "\033$(P", "\033$(Q", "\033$)A", "\033$)G", "\033$*H", "\033$)E", "\033$+I", "\033$+J", "\033$+K", "\033$+L", "\033$+M", "\033O!!", "\033N!!", "\033$)C",
    "\033$(B", "\033$(@", "\033&@", "\016", "\017", "\033$)", "\033$", "\033(", "~{", "~}", "~~", "~\n", "+", "-", "+AGE", "+AAA-", "+2AHfrQ", "\xfe\xff", "\xff\xfe", "\0\0\xfe\xff", "\xff\xfe\0\0", "\n", "\r",
    "\\u0041", "\\u12", "\\U0001F6", "\\ud83d\\ude00", "\\ud83d", "\\u"};
static const unsigned char esclen[] = {3, 3, 3, 3, 3, 4, 4, 3, 3, 3, 3, 3, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 3, 1, 1, 3, 2, 2, 2, 2, 2, 2, 1, 1, 4, 5, 7, 2, 2, 4, 4, 1, 1, 6, 4, 9, 12, 6, 2};
#define NESC ((int)sizeof esclen)

static int stateful_dec, stateful_enc;
static double budget;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static unsigned char rbyte(void)
{
    unsigned x = rnd();
    return (x & 0x300) ? cls[(x >> 10) % NCLS] : x & 0xff;
}
static int rstring(unsigned char *b, int max)
{
    int L = 0, want = 1 + rnd() % max;
    while (L < want)
    {
        if (stateful_dec && rnd() % 3 == 0)
        {
            int k = rnd() % NESC;
            for (int j = 0; j < esclen[k] && L < max; j++) b[L++] = esc[k][j];
        }
        else b[L++] = rbyte();
    }
    return L;
}
static void mode_dec(int e)
{
    unsigned char b[32];
    double t0 = now();
    cur_what = "decode";
    nds = 0; memset(hashtab, 0, sizeof hashtab);
    cur_len = 0; cur_sidx = -1;
    add_ds(0, 0, 0);
    grow = 1;
    /* find states: breadth first over short strings */
    for (int i = 0; i < nds && i < MAXST; i++)
    {
        if (i > 0) stateful_dec = 1;
        cur_sidx = i;
        for (int c = 0; c < 256; c++)
        {
            b[0] = c;
            check_dec(e, ds[i], b, 1);
        }
        if (i < 300)
        for (int k = 0; k < NESC; k++)
        {
            memcpy(b, esc[k], esclen[k]);
            for (int j = 0; j < 4; j++) b[esclen[k] + j] = rbyte();
            check_dec(e, ds[i], b, esclen[k] + (esclen[k] < 8 ? 3 : 0));
        }
        if (i < 60 && nds > 1)
            for (int q = 0; q < (i < 4 ? 20000 : 4000); q++)
            {
                int L = 0, want = 2 + rnd() % 7;
                if (q & 1) while (L < want) b[L++] = "ABCDwxyz0123+/AE"[rnd() % 16];
                else L = rstring(b, 8);
                check_dec(e, ds[i], b, L);
            }
        if (i < 40 || now() - t0 < budget * 0.3)
            for (int c = 0; c < 65536; c++)
            {
                if (i >= 8 && (c & 0xff) % 3 != (c >> 8) % 3) continue;
                b[0] = c >> 8; b[1] = c;
                check_dec(e, ds[i], b, 2);
            }
        if (now() - t0 > budget * 0.5 && i > 40) break;
    }
    grow = 0;
    int ns = nds;
    /* 3-byte strings over the byte classes, from the first states */
    for (int i = 0; i < ns && i < 6; i++)
        for (int x = 0; x < NCLS; x++)
            for (int y = 0; y < NCLS; y++)
            {
                if (now() - t0 > budget * 0.75) goto rest;
                for (int z = 0; z < NCLS; z += 1)
                {
                    if (i && (x + y + z) % 5 != i % 5) continue;
                    b[0] = cls[x]; b[1] = cls[y]; b[2] = cls[z]; b[3] = rbyte();
                    check_dec(e, ds[i], b, 4);
                }
            }
rest:
    t0 = now();
    for (long it = 0; ; it++)
    {
        if (it % 64 == 0 && now() - t0 > budget * 0.4) break;
        int L = rstring(b, 10);
        check_dec(e, ds[rnd() % ns], b, L);
    }
    if (all_encodings[e].ifuncs.xxx_flushwc)
        for (int i = 0; i < ns; i++)
            check_flush(e, ds[i]);
    for (int i = 0; i < ns; i++)
    {
        printf("DST %x %x %d %d ", ds[i].ist, ds[i].bo, dsp[i].par, dsp[i].used);
        pr_bytes(dsp[i].b, dsp[i].len);
        printf("\n");
    }
    printf("STAT enc=%s mode=dec states=%d look=%d evals=%ld\n", enc_name[e], ns, max_look ? max_look : 1, n_eval);
}
static void mode_enc(int e)
{
    cur_what = "encode";
    nes = 0; memset(ehash, 0, sizeof ehash);
    add_es(0);
    grow = 1;
    double t0 = now();
    for (int i = 0; i < nes; i++)
    {
        cur_eidx = i;
        unsigned lim = i == 0 ? 0x110400 : i < 12 ? 0x30000 : i < 200 ? 0x3200 : 0x400;
        if (now() - t0 > budget * 0.8) lim = 0x400;
        for (unsigned wc = 0; wc < lim; wc++)
        {
            check_enc(e, es[i], wc);
            if (i >= 12 && wc == 0x3100 && i % 8) break;
        }
        for (unsigned wc = 0xe0000; i && wc < 0xe0080; wc++) check_enc(e, es[i], wc);
        if (i && i < 400)
        {
            static const unsigned blk[] = {0x300, 0x370, 0x410, 0x2010, 0x2100, 0x2500, 0x3000, 0x3040, 0x30a0, 0x3220, 0x4e00, 0x4f00, 0x5100, 0x6000, 0x7000, 0x8000, 0x9000, 0xac00, 0xe000, 0xf900, 0xff00, 0x20000, 0x2a000, 0x1f600};
            for (unsigned k = 0; k < sizeof blk / sizeof blk[0]; k++)
                for (unsigned wc = blk[k]; wc < blk[k] + 0x30; wc++) check_enc(e, es[i], wc);
        }
        static const unsigned odd[] = {0x4e00, 0x9fa5, 0xac00, 0xff41, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1ffff, 0x20000, 0x2000b, 0x10ffff, 0x110000, 0x7fffffff, 0x80000000, 0xffffffff, 0xd800, 0xdc00};
        for (unsigned k = 0; k < sizeof odd / sizeof odd[0]; k++) check_enc(e, es[i], odd[k]);
        for (int k = 0; k < (i < 4 ? 20000 : 100); k++) check_enc(e, es[i], rnd() << 1 ^ rnd());
    }
    cur_what = "reset";
    if (all_encodings[e].ofuncs.xxx_reset)
        for (int i = 0; i < nes; i++)
            check_reset(e, es[i]);
    for (int i = 0; i < nes; i++) printf("EST %x %d %x\n", es[i], esp[i].par, esp[i].wc);
    printf("STAT enc=%s mode=enc states=%d evals=%ld\n", enc_name[e], nes, n_eval);
}
/* ---- round trip: joint exploration of encoder and decoder ---- */
struct joint { unsigned o, i, bo; int nlag; unsigned lag[6]; int nleft; unsigned char left[24]; };
static struct joint js[MAXST];
static int njs;
static int add_js(struct joint j)
{
    static int tab[1 << 16];
    unsigned h = 2166136261u;
    if (njs == 0) memset(tab, 0, sizeof tab);
    for (unsigned k = 0; k < sizeof j; k++) h = (h ^ ((unsigned char *)&j)[k]) * 16777619u;
    for (h ^= h >> 15, h &= 0xffff; tab[h]; h = (h + 1) & 0xffff)
        if (!memcmp(&js[tab[h] - 1], &j, sizeof j)) return 0;
    if (njs >= MAXST) return 0;
    js[njs++] = j;
    tab[h] = njs;
    return 1;
}
static int rt_verbose;
static long rt_pairs;
/* decode all of b; append to out */
static int feed(int e, struct joint *j, const unsigned char *b, int n, unsigned *out, int *nout)
{
    unsigned char w[64];
    int pos = 0, guard = 0;
    memcpy(w, j->left, j->nleft);
    memcpy(w + j->nleft, b, n);
    n += j->nleft;
    j->nleft = 0;
    memset(j->left, 0, sizeof j->left);
    while (pos < n)
    {
        struct dst st = {j->i, j->bo};
        struct dres d = dcall(e, st, w + pos, n - pos, 0xdeadbeef);
        if (++guard > 64) return -3;
        if (d.r >= 0)
        {
            if (*nout < 16) out[(*nout)++] = d.wc;
            pos += d.r;
        }
        else if (is_ilseq(d.r)) return -1;
        else
        {
            if (shift_of(d.r) == 0)
            {
                if (n - pos > 12) return -2;
                j->nleft = n - pos;
                memcpy(j->left, w + pos, n - pos);
                return 0;
            }
            pos += shift_of(d.r);
        }
        j->i = d.ist; j->bo = d.bo;
    }
    return 0;
}
static void rt_report(const char *kind, int e, struct joint *j, unsigned wc, const unsigned char *b, int nb, const unsigned *exp, int ne, const unsigned *got, int ng)
{
    rt_pairs++;
    if (rt_pairs > (rt_verbose ? 20000 : 40)) return;
    printf("RT enc=%s kind=%s ostate=%08x istate=%08x border=%u wc=%04X bytes=", enc_name[e], kind, j->o, j->i, j->bo, wc);
    pr_bytes(b, nb);
    printf(" sent=");
    for (int k = 0; k < ne; k++) printf("%s%04X", k ? "," : "", exp[k]);
    printf(" got=");
    for (int k = 0; k < ng; k++) printf("%s%04X", k ? "," : "", got[k]);
    printf("\n");
}
/* characters the encoding uses as its own signalling, outside the round-trip guarantee */
static int rt_excluded(int e, unsigned wc)
{
    if (wc >= 0xd800 && wc < 0xe000) return 1; /* not characters */
    switch (e)
    {
    case ei_iso2022_jp: case ei_iso2022_jp1: case ei_iso2022_jp2: case ei_iso2022_jp3: case ei_iso2022_jpms:
    case ei_iso2022_cn: case ei_iso2022_cn_ext: case ei_iso2022_kr:
        return wc == 0x1b || wc == 0x0e || wc == 0x0f;
    case ei_ucs2: case ei_utf16: case ei_ucs4: case ei_utf32:
        return wc == 0xfeff || wc == 0xfffe || wc == 0xfffe0000u;
    case ei_c99: case ei_java:
        return wc == 0x5c;
    }
    return 0;
}
static int seven(int e)
{
    static const char *n[] = {"ascii", "iso2022_jp", "iso2022_jp1", "iso2022_jp2", "iso2022_jp3", "iso2022_jpms", "iso2022_cn", "iso2022_cn_ext", "iso2022_kr", "hz", "utf7", "java"};
    for (unsigned k = 0; k < sizeof n / sizeof n[0]; k++) if (!strcmp(enc_name[e], n[k])) return 1;
    return !strncmp(enc_name[e], "iso646", 6);
}
static long n7;
static void check7(int e, struct joint *j, unsigned wc, const unsigned char *b, int n)
{
    for (int k = 0; k < n; k++)
        if (b[k] >= 0x80 && n7++ < 5)
        {
            printf("RT7 enc=%s kind=high ostate=%08x wc=%04X bytes=", enc_name[e], j->o, wc); pr_bytes(b, n); printf("\n");
        }
}
static unsigned end7[64]; static int nend7;
/* the decoder state after the closing sequence must not be distinguishable from the initial one for a new text */
static void check_end(int e, struct joint s, unsigned i, unsigned bo)
{
    for (int k = 0; k < nend7; k++) if (end7[k] == i) return;
    if (nend7 < 64) end7[nend7++] = i;
    for (unsigned wc = 0; wc < 0x30000; wc++)
    {
        struct joint a, b; unsigned ga[16], gb[16]; int na = 0, nb = 0;
        memset(&a, 0, sizeof a); b = a; b.i = i;
        if (rt_excluded(e, wc)) continue;
        struct eres x = ecall(e, 0, wc, BIG), y;
        if (x.r < 0) continue;
        y.r = 0;
        if (all_encodings[e].ofuncs.xxx_reset) y = rcall(e, x.ost, BIG);
        if (y.r > 0) { memcpy(x.b + x.r, y.b, y.r); x.r += y.r; }
        int fa = feed(e, &a, x.b, x.r, ga, &na), fb = feed(e, &b, x.b, x.r, gb, &nb);
        if (fa != fb || na != nb || memcmp(ga, gb, 4 * na) || a.nleft != b.nleft)
        {
            printf("RT7 enc=%s kind=end ostate=%08x istate=%08x wc=%04X bytes=", enc_name[e], s.o, i, wc); pr_bytes(x.b, x.r); printf("\n");
            return;
        }
    }
    if (1)
    { /* and a plain ASCII letter is itself */
        struct joint b; unsigned g[16]; int n = 0;
        memset(&b, 0, sizeof b); b.i = i;
        if (feed(e, &b, (const unsigned char *)"A", 1, g, &n) || n > 1 || (n == 1 && g[0] != 'A'))
            printf("RT7 enc=%s kind=end ostate=%08x istate=%08x wc=0041 bytes=41\n", enc_name[e], s.o, i);
    }
}
static void rt_flush(int e, struct joint j)
{
    unsigned got[16]; int ng = 0;
    struct joint s = j;
    struct eres x; x.r = 0;
    if (all_encodings[e].ofuncs.xxx_reset) x = rcall(e, j.o, BIG);
    if (seven(e)) check7(e, &j, 0, x.b, x.r);
    int f = x.r < 0 ? -9 : feed(e, &j, x.b, x.r, got, &ng);
    if (seven(e) && f == 0) check_end(e, s, j.i, j.bo);
    if (all_encodings[e].ifuncs.xxx_flushwc)
    {
        struct conv_struct cd;
        ucs4_t wc;
        mk(&cd, e); cd.istate = j.i; cd.ibyteorder = j.bo;
        if (cd.ifuncs.xxx_flushwc(&cd, &wc)) got[ng++] = wc;
    }
    if (f || j.nleft || ng != s.nlag || memcmp(got, s.lag, 4 * ng))
        rt_report("flush", e, &s, 0, x.b, x.r > 0 ? x.r : 0, s.lag, s.nlag, got, ng);
}
static void rt_step(int e, struct joint j, unsigned wc)
{
    if (rt_excluded(e, wc)) return;
    struct eres x = ecall(e, j.o, wc, BIG);
    if (x.r < 0) return;
    if (seven(e)) check7(e, &j, wc, x.b, x.r);
    struct joint s = j;
    unsigned got[16], exp[8];
    int ng = 0, ne = j.nlag;
    memcpy(exp, j.lag, sizeof j.lag);
    if (!(e == ei_iso2022_jp2 && wc >= 0xe0000 && wc < 0xe0080)) exp[ne++] = wc; /* language tags are not transmitted */
    int f = feed(e, &j, x.b, x.r, got, &ng);
    int bad = f || ng > ne || memcmp(got, exp, 4 * (ng < ne ? ng : ne)) || ne - ng > 5;
    if (bad)
    {
        rt_report(f == -1 ? "invalid" : f == -2 ? "truncated" : f == -3 ? "endless" : "differs", e, &s, wc, x.b, x.r, exp, ne, got, ng);
        return;
    }
    j.o = x.ost;
    j.nlag = ne - ng;
    memset(j.lag, 0, sizeof j.lag);
    memcpy(j.lag, exp + ng, 4 * (ne - ng));
    if (add_js(j)) rt_flush(e, j);
}
static void mode_rt(int e)
{
    cur_what = "roundtrip";
    struct joint z;
    memset(&z, 0, sizeof z);
    njs = 0; nend7 = 0; add_js(z); rt_flush(e, z);
    double t0 = now();
    for (int k = 0; k < njs; k++)
    {
        unsigned lim = k == 0 || now() - t0 < budget ? 0x110000 : now() - t0 < budget * 3 ? 0x30000 : now() - t0 < budget * 5 ? 0x3400 : 0x400;
        if (now() - t0 > budget * 6) break;
        for (unsigned wc = 0; wc < lim; wc++) rt_step(e, js[k], wc);
        for (int q = 0; k && q < 2000; q++) rt_step(e, js[k], rnd() % 0x30000);
    }
    for (int k = 0; k < nend7; k++) printf("END7 %x\n", end7[k]);
    for (int k = 0; k < njs && rt_verbose; k++)
    {
        printf("JS %x %x %x %d", js[k].o, js[k].i, js[k].bo, js[k].nlag);
        for (int q = 0; q < js[k].nlag; q++) printf(" %x", js[k].lag[q]);
        printf(" %d", js[k].nleft);
        for (int q = 0; q < js[k].nleft; q++) printf(" %x", js[k].left[q]);
        printf("\n");
    }
    printf("STAT enc=%s mode=rt joint=%d evals=%ld pairs=%ld\n", enc_name[e], njs, n_eval, rt_pairs);
}
int main(int argc, char **argv)
{
    signal(SIGABRT, crash); signal(SIGSEGV, crash); signal(SIGBUS, crash); signal(SIGFPE, crash);
    const char *mode = argv[1];
    int e = cur_enc = atoi(argv[2]);
    budget = argc > 3 ? atof(argv[3]) : 0.5;
    rng ^= (uint64_t)(argc > 4 ? atoi(argv[4]) : 1) * 2654435761u;
    if (!strcmp(mode, "dec")) mode_dec(e);
    else if (!strcmp(mode, "enc")) mode_enc(e);
    else if (!strcmp(mode, "rt")) mode_rt(e);
    else if (!strcmp(mode, "rtv")) { rt_verbose = 1; mode_rt(e); }
    else if (!strcmp(mode, "one-dec"))
    { /* ist bo hexbytes */
        unsigned char b[64]; int L = 0;
        struct dst st = {strtoul(argv[5], 0, 16), strtoul(argv[6], 0, 16)};
        for (const char *h = argv[7]; h[0] && h[1] && L < 16; h += 2) { char x[3] = {h[0], h[1], 0}; b[L++] = strtoul(x, 0, 16); }
        cur_what = "decode";
        check_dec(e, st, b, L);
        if (all_encodings[e].ifuncs.xxx_flushwc) check_flush(e, st);
    }
    else if (!strcmp(mode, "one-rt"))
    { /* ostate istate border pending p q wc */
        struct joint j;
        memset(&j, 0, sizeof j);
        rt_verbose = 1;
        cur_what = "roundtrip";
        j.o = strtoul(argv[5], 0, 16); j.i = strtoul(argv[6], 0, 16); j.bo = strtoul(argv[7], 0, 16);
        j.nlag = atoi(argv[8]) & 3; j.lag[0] = strtoul(argv[9], 0, 16); j.lag[1] = strtoul(argv[10], 0, 16);
        for (int k = j.nlag; k < 6; k++) j.lag[k] = 0;
        rt_flush(e, j);
        rt_step(e, j, strtoul(argv[11], 0, 16));
    }
    else if (!strcmp(mode, "one-enc"))
    { /* ost wc */
        cur_what = "encode";
        check_enc(e, strtoul(argv[5], 0, 16), strtoul(argv[6], 0, 16));
        cur_what = "reset";
        if (all_encodings[e].ofuncs.xxx_reset) check_reset(e, strtoul(argv[5], 0, 16));
    }
    printf("DONE enc=%s mode=%s evals=%ld fails=%ld\n", enc_name[e], mode, n_eval, n_fail);
    return n_fail != 0;
}
