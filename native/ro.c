/* C11: the library's own data is made read-only, and so is every input; then the public functions are run.
   Any write to anything but the descriptor, the in/out arguments and the output buffer traps.
   usage: ro <encoding index> <number of encodings> <seed> <deep> */
#define _GNU_SOURCE
#include <cppp/reiconv.h>
#include <errno.h>
#include <link.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
typedef unsigned char u8;
static uintptr_t w_lo[8], w_hi[8]; static int nw;
static const char *what = ""; static int cur_f, cur_t; static u8 *in; static size_t in_n; static const size_t CAP = 1 << 20;
static uint64_t rng = 88172645463325252ull;
static unsigned rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (unsigned)(rng >> 11); }
static long n_eval;
static int cb(struct dl_phdr_info *i, size_t sz, void *x)
{
    if (!i->dlpi_name || !strstr(i->dlpi_name, "libro.so")) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W))
        {
            w_lo[nw] = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr) & ~4095ul;
            w_hi[nw] = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz + 4095) & ~4095ul;
            nw++;
        }
    return 0;
}
static int is_write(void *u)
{
#ifdef __x86_64__
    return (((ucontext_t *)u)->uc_mcontext.gregs[REG_ERR] & 2) != 0;
#else
    return 1;
#endif
}
static void segv(int s, siginfo_t *si, void *u)
{
    uintptr_t a = (uintptr_t)si->si_addr;
    const char *k = "crash", *sym = "?";
    for (int i = 0; i < nw; i++) if (a >= w_lo[i] && a < w_hi[i]) k = "shared";
    if (in && a >= (uintptr_t)in && a < (uintptr_t)in + CAP) k = "input";
    Dl_info d;
    if (dladdr((void *)a, &d)) { if (d.dli_sname) sym = d.dli_sname; if (!strcmp(k, "crash") && d.dli_fname && strstr(d.dli_fname, "libro.so") && is_write(u)) k = "table"; }
    if (!strcmp(k, "crash") && !is_write(u)) k = "read";
    printf("FAIL key=%s call=%s from=%d to=%d object=%s input_bytes=%zu input=", k, what, cur_f, cur_t, sym, in_n);
    for (size_t i = 0; in && i < in_n && i < 48; i++) printf("%02x", in[i]);
    printf("\n"); fflush(stdout); _exit(3);
}
static void put(const u8 *s, size_t n)
{
    mprotect(in, CAP, PROT_READ | PROT_WRITE);
    if (n > CAP) n = CAP;
    memcpy(in, s, n); in_n = n;
    mprotect(in, CAP, PROT_READ);
}
static char out[1 << 18];
static void stream(int f, int t, enum ConvertFlag fl)
{
    cur_f = f; cur_t = t;
    what = "open_from_index";
    reiconv_t cd = reiconv_open_from_index(f, t, fl);
    if (cd == (reiconv_t)(-1)) return;
    char *p = (char *)in; size_t n = in_n;
    what = "iconv";
    for (int g = 0; g < 4000 && n; g++)
    {
        char *o = out; size_t m = g % 16 == 15 ? 3 : sizeof out, n0 = n;
        size_t r = reiconv_iconv(cd, &p, &n, &o, &m);
        n_eval++;
        if (r == (size_t)-1 && errno == EINVAL) break;
        if (r == (size_t)-1 && errno == EILSEQ) { p++; n--; }
        else if (n == n0 && g % 16 != 15 && o == out) break;
    }
    char *o = out; size_t m = sizeof out;
    what = "iconv(reset)"; reiconv_iconv(cd, NULL, NULL, &o, &m);
    what = "iconv(null)"; reiconv_iconv(cd, NULL, NULL, NULL, NULL);
    what = "handle_close"; reiconv_handle_close(cd);
}
static void oneshot(int f, int t)
{
    cur_f = f; cur_t = t;
    what = "open_from_index";
    reiconv_t cd = reiconv_open_from_index(f, t, REICONV_DISCARD_ILSEQ);
    if (cd == (reiconv_t)(-1)) return;
    what = "result_size"; reiconv_result_size(cd, (char *)in, in_n);
    what = "convert_static_size"; reiconv_convert_static_size(cd, (char *)in, in_n, out, sizeof out);
    char *p = NULL; size_t l = 0;
    what = "convert"; if (reiconv_convert(cd, (char *)in, in_n, &p, &l) == 0) free(p);
    what = "handle_close"; reiconv_handle_close(cd);
    n_eval += 3;
}
int main(int argc, char **argv)
{
    int e = atoi(argv[1]), ne = atoi(argv[2]), deep = atoi(argv[4]), u32 = -1, u8i = -1;
    rng += (uint64_t)(atoi(argv[3]) * 1000 + e) * 2654435761u; for (int i = 0; i < 10; i++) rnd();
    dl_iterate_phdr(cb, NULL);
    if (!nw) { printf("NOTE no writable segment found\n"); }
    in = mmap(NULL, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO;
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL);
    static char warm[64]; snprintf(warm, 64, "%d", ne); free(malloc(100));
    for (int i = 0; i < nw; i++) mprotect((void *)w_lo[i], w_hi[i] - w_lo[i], PROT_READ);
    what = "lookup_from_name";
    u32 = reiconv_lookup_from_name("UTF-32LE"); u8i = reiconv_lookup_from_name("UTF-8");
    reiconv_lookup_from_name("no-such-name"); reiconv_lookup_from_name("\xc3\xa9");
    what = "lookup_from_codepage"; reiconv_lookup_from_codepage(65001); reiconv_lookup_from_codepage(-5);
    { char b[200]; what = "name_canonicalize"; reiconv_name_canonicalize("utf-8", b); }
    what = "open"; { reiconv_t c = reiconv_open("UTF-8//IGNORE", "GBK"); if (c != (reiconv_t)(-1)) reiconv_handle_close(c); c = reiconv_open("UTF-8", "none"); if (c != (reiconv_t)(-1)) reiconv_handle_close(c); }
    what = "open_from_name"; { reiconv_t c = reiconv_open_from_name("ISO-2022-JP", "EUC-JP", 0); if (c != (reiconv_t)(-1)) reiconv_handle_close(c); }
    what = "open_from_codepage"; { reiconv_t c = reiconv_open_from_codepage(932, 65001, 0); if (c != (reiconv_t)(-1)) reiconv_handle_close(c); }
    if (u32 < 0 || u8i < 0) { printf("NOTE names not found\n"); u32 = u8i = 0; }
    u8 *b = malloc(CAP); size_t n = 0;
    /* every character through the encoder, one pass each; with discarding and without */
    for (int plane = 0; plane < 17; plane++)
    {
        if (plane > 3 && plane < 14 && !deep) continue;
        n = 0;
        for (unsigned c = plane * 0x10000u; c < plane * 0x10000u + 0x10000u; c++) { b[n++] = c; b[n++] = c >> 8; b[n++] = c >> 16; b[n++] = 0; }
        put(b, n); stream(u32, e, REICONV_DISCARD_ILSEQ);
    }
    /* all byte pairs through the decoder, in rows with the same lead byte, separated by newlines; with all escapes */
    static const char *esc[] = {"", "\033$B", "\033$@", "\033(J", "\033(I", "\033$(D", "\033$(C", "\033$A", "\033.A\033N", "\033.F\033N", "\033$(O", "\033$(P", "\033$(Q",
        "\033$)A\016", "\033$)G\016", "\033$)E\016", "\033$*H\033N", "\033$+I\033O", "\033$)C\016", "~{", "+", "\033(B", "\016", "\\u", "\xfe\xff"};
    for (unsigned k = 0; k < sizeof esc / sizeof *esc; k++)
    {
        n = 0;
        for (unsigned a = 0; a < 256; a++)
        {
            if (k && (a < 0x21 || (a >= 0x80 && a < 0xa1))) continue;
            for (unsigned c = 0; c < 256; c++)
            {
                if (k && (c & 127) < 0x20) continue;
                if (c % 32 == 0) { size_t l = strlen(esc[k]); memcpy(b + n, esc[k], l); n += l; }
                b[n++] = a; b[n++] = c;
            }
            b[n++] = '\n';
        }
        put(b, n); stream(e, u8i, REICONV_DISCARD_ILSEQ);
    }
    /* random mixtures and the one-shot functions */
    for (int g = 0; g < (deep ? 4000 : 150); g++)
    {
        n = 0; size_t len = 1 + rnd() % 200;
        while (n < len)
        {
            unsigned q = rnd() % 8;
            if (q == 0) { const char *s = esc[rnd() % (sizeof esc / sizeof *esc)]; memcpy(b + n, s, strlen(s)); n += strlen(s); }
            else if (q < 3) b[n++] = rnd();
            else if (q < 5) { b[n++] = 0x81 + rnd() % 0x7e; b[n++] = 0x40 + rnd() % 0xbf; }
            else if (q < 6) { b[n++] = 0x81 + rnd() % 0x7e; b[n++] = 0x30 + rnd() % 10; b[n++] = 0x81 + rnd() % 0x7e; b[n++] = 0x30 + rnd() % 10; }
            else b[n++] = 0x20 + rnd() % 0x60;
        }
        put(b, n);
        stream(e, g % 2 ? u8i : (int)(rnd() % ne), rnd() % 2 ? REICONV_DISCARD_ILSEQ : 0);
        oneshot(e, g % 2 ? u8i : (int)(rnd() % ne));
        if (e != u32)
        {
            n = 0;
            for (int k = 0; k < 30; k++) { unsigned c = rnd() % 4 == 0 ? rnd() % 0x30000 : rnd() % 4 ? 0x20 + rnd() % 0x3000 : 0x4e00 + rnd() % 0x5000; b[n++] = c; b[n++] = c >> 8; b[n++] = c >> 16; b[n++] = 0; }
            put(b, n); oneshot(u32, e);
        }
    }
    printf("DONE evals=%ld\n", n_eval); fflush(stdout); _exit(0);
    return 0;
}
