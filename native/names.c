/* Lookup and opening, on the real library (C08, C10).
   usage: names <test> <seed> [args] ; reference on stdin: lines "name NAME enc" / "codepage N enc" */
#include <stdlib.h>
#include <string.h>
static long n_live, fail_at = -1, n_alloc;
static void *x_malloc(size_t n) { if (fail_at >= 0 && n_alloc++ >= fail_at) return NULL; void *p = malloc(n); if (p) { n_live++; memset(p, 0xA5, n); } return p; }
static void x_free(void *p) { if (p) n_live--; free(p); }
#include <cppp/reiconv.h>
#include <errno.h>
#include <limits.h>
#define malloc x_malloc
#define free x_free
#include "iconv.c"
#undef malloc
#undef free
#include <stdio.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <strings.h>
#include <ctype.h>

#define NENC ((int)(sizeof(all_encodings) / sizeof(all_encodings[0])))
static const char *enc_name[] = {
#include "enc_names.inc"
};
static uint64_t rng = 88172645463325252ull;
static unsigned rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (unsigned)(rng >> 11); }
static long n_eval, n_fail;
static char cur[400];
static void pr(const char *s)
{
    int k = 0;
    for (; *s && k < 300; s++, k++)
        if (*s > 32 && *s < 127 && *s != '%' && *s != '[' && *s != ']') putchar(*s); else printf("%%%02X", (unsigned char)*s);
    if (*s) printf("...(%zu bytes)", k + strlen(s));
}
static void fail_(const char *key, const char *arg, const char *msg)
{
    if (++n_fail > 60) return;
    printf("FAIL key=%s arg=[", key); pr(arg); printf("] msg=%s\n", msg); fflush(stdout);
}
static const char *cur_arg = "";
static void crash(int s) { fail_("crash", cur_arg, s == SIGALRM ? "does not return" : "signal"); _exit(3); }
void __asan_on_error(void) { fail_("memory", cur_arg, "access outside the arguments"); fflush(stdout); }

static struct { char n[80]; int e; } ref[2000]; static int nref;
static struct { int cp, e; } cps[1000]; static int ncp;
static int enc_of(const char *e) { for (int i = 0; i < NENC; i++) if (!strcmp(enc_name[i], e)) return i; return -2; }
static void canon(const char *s, char *o) { for (; *s; s++) if (*s != '-' && *s != '_') *o++ = *s >= 'a' && *s <= 'z' ? *s - 32 : *s; *o = 0; }
static void rd(void)
{
    char l[300], k[20], n[200], e[100];
    while (fgets(l, sizeof l, stdin))
        if (sscanf(l, "%19s %199s %99s", k, n, e) == 3)
        {
            if (*k == 'n') { canon(n, ref[nref].n); ref[nref++].e = enc_of(e); }
            else { cps[ncp].cp = atoi(n); cps[ncp++].e = enc_of(e); }
        }
}
/* expected index of a name; -1 unknown; *dup set if several encodings list it */
static int expect(const char *name, int *dup)
{
    static char c[200000];
    int e = -1;
    *dup = 0;
    if (strlen(name) >= sizeof c) return -1;
    canon(name, c);
    for (int i = 0; i < nref; i++)
        if (!strcmp(ref[i].n, c)) { if (e >= 0 && e != ref[i].e) *dup = 1; else e = ref[i].e; }
    return e;
}
static int known_missing(int i) { return reiconv_lookup_from_name(ref[i].n) != ref[i].e; }
static char miss[2000];
static int look(const char *s)
{ /* exact-size copy, so that any access outside is seen */
    size_t n = strlen(s);
    char *p = malloc(n + 1);
    memcpy(p, s, n + 1);
    cur_arg = s;
    n_eval++;
    int r = reiconv_lookup_from_name(p);
    if (memcmp(p, s, n + 1)) fail_("frame", s, "name modified");
    free(p);
    return r;
}
static char cbuf[70000];
static void check_name(const char *s)
{
    static char c[200000];
    int dup, e = expect(s, &dup), r = look(s);
    canon(s, c);
    if (e >= 0)
    {
        for (int i = 0; i < nref; i++) if (!strcmp(ref[i].n, c) && miss[i]) return; /* reported under its plain name */
    }
    if (r != e && !dup)
    {
        char k[300];
        int isp = strlen(c) < 60;
        for (const char *q = c; *q; q++) if (!isalnum((unsigned char)*q) && !strchr(".:+", *q)) isp = 0;
        snprintf(k, sizeof k, "%s:%s", e < 0 ? "extra" : "name", isp ? c : "other");
        snprintf(cbuf, sizeof cbuf, "lookup gives %d (%s), the list says %d (%s)", r, r >= 0 && r < NENC ? enc_name[r] : "none", e, e >= 0 ? enc_name[e] : "none");
        fail_(k, s, cbuf);
    }
    if (r < -1 || r >= NENC) fail_("range", s, "index out of range");
    if (n_eval % 3 == 0 || strlen(s) < 80)
    {
        size_t n = strlen(s), m;
        char *p = malloc(n + 1), *o = malloc(strlen(c) + 1);
        memcpy(p, s, n + 1);
        m = reiconv_name_canonicalize(p, o);
        if (m != strlen(c) || memcmp(o, c, m + 1)) fail_("canonicalize", s, "canonical form differs");
        free(p); free(o);
    }
}
static void t_names(double scale)
{
    char b[70000];
    for (int i = 0; i < nref; i++) miss[i] = 0;
    for (int i = 0; i < nref; i++)
    {
        int dup, e = expect(ref[i].n, &dup);
        if (dup) { snprintf(cbuf, sizeof cbuf, "listed for %s but lookup gives %d", enc_name[ref[i].e], look(ref[i].n)); if (look(ref[i].n) != ref[i].e) { char k[120]; snprintf(k, sizeof k, "shared:%s", ref[i].n); fail_(k, ref[i].n, cbuf); miss[i] = 1; } continue; }
        if (look(ref[i].n) != e) { check_name(ref[i].n); miss[i] = 1; }
    }
    /* every name the generated table contains */
    for (int k = 0; k < (int)(sizeof aliases / sizeof aliases[0]); k++)
        if (aliases[k].name >= 0) { const char *s = stringpool + aliases[k].name; if (reiconv_lookup_from_name(s) >= 0) check_name(s); }
    static const char ins[] = "-_-_aZ09/.:+ (~\x80\xff*,ABE";
    for (int i = 0; i < nref; i++)
    {
        size_t n = strlen(ref[i].n);
        for (size_t p = 0; p <= n; p++)
            for (int k = 0; k < (int)(8 * scale); k++)
            {
                char ch = ins[rnd() % (sizeof ins - 1)];
                memcpy(b, ref[i].n, p); b[p] = ch; strcpy(b + p + 1, ref[i].n + p); check_name(b);      /* insert */
                if (p < n) { strcpy(b, ref[i].n); b[p] = ch; check_name(b); b[p] = tolower(ref[i].n[p]); check_name(b); }
                if (p < n && k == 0) { strcpy(b, ref[i].n); memmove(b + p, b + p + 1, n - p); check_name(b); }   /* delete */
                if (p + 1 < n && k == 1) { strcpy(b, ref[i].n); char t = b[p]; b[p] = b[p + 1]; b[p + 1] = t; check_name(b); }
                if (k == 2) { strcpy(b, ref[i].n); b[p] = 0; check_name(b); }
            }
        for (int k = 0; k < (int)(6 * scale); k++)
        { /* any mixture of case, hyphens and underscores */
            size_t q = 0;
            int dens = rnd() % 4, lng = rnd() % 40 == 0;
            for (size_t p = 0; p <= n; p++)
            {
                while (dens && rnd() % 4 < dens) b[q++] = rnd() % 2 ? '-' : '_';
                if (lng && p == n / 2) for (int z = rnd() % 60000; z > 0 && q < 65000; z--) b[q++] = '-';
                b[q++] = rnd() % 2 ? tolower(ref[i].n[p]) : ref[i].n[p];
            }
            check_name(b);
        }
        if (n + 3 < 60)
        { /* longer names with a listed one as prefix or suffix */
            for (int k = 0; k < 3; k++)
            {
                const char *o = ref[rnd() % nref].n;
                snprintf(b, 400, "%s%s", ref[i].n, o); check_name(b);
                snprintf(b, 400, "%s%.*s", ref[i].n, 1 + rnd() % 3, o); check_name(b);
                snprintf(b, 400, "%s//IGNORE", ref[i].n); check_name(b);
            }
        }
    }
    for (int len = 0; len < 300; len++)
        for (int k = 0; k < (int)(20 * scale); k++)
        {
            for (int p = 0; p < len; p++)
            {
                int t = (k + len) % 4;
                b[p] = t == 0 ? 'A' + rnd() % 26 : t == 1 ? 1 + rnd() % 255 : t == 2 ? (rnd() % 2 ? '-' : 'X') : ref[rnd() % nref].n[0];
            }
            b[len] = 0;
            check_name(b);
        }
    for (int len = 300; len < 69000; len = len * 3 / 2)
    {
        memset(b, 'A', len); b[len] = 0; check_name(b);
        memset(b, '-', len); b[len] = 0; check_name(b);
        memset(b, '_', len - 4); strcpy(b + len - 4, "utf8"); check_name(b);
    }
}
static void t_cp(long long lo, long long hi)
{
    static int want[65536 * 2];
    for (int i = 0; i < 65536 * 2; i++) want[i] = -1;
    for (int i = 0; i < ncp; i++) if (cps[i].cp >= 0 && cps[i].cp < 131072) want[cps[i].cp] = cps[i].e;
    char b[40];
    for (long long v = lo; v < hi; v++)
    {
        int w = v >= 0 && v < 131072 ? want[v] : -1;
        n_eval++;
        int r = reiconv_lookup_from_codepage((int)v);
        if (r != w) { snprintf(b, sizeof b, "%lld", v); snprintf(cbuf, sizeof cbuf, "code page lookup gives %d, the list says %d", r, w); char k[60]; snprintf(k, sizeof k, "codepage:%lld", v); fail_(k, b, cbuf); if (n_fail > 40) return; }
    }
}
static void chk_cd(reiconv_t cd, int f, int t, int flags, const char *what, const char *key)
{
    struct conv_struct *c = cd;
    if (cd == (reiconv_t)-1 || cd == NULL) { fail_(key, what, "a valid request fails"); return; }
    if (c->iindex != f || c->ifuncs.xxx_mbtowc != all_encodings[f].ifuncs.xxx_mbtowc || c->ifuncs.xxx_flushwc != all_encodings[f].ifuncs.xxx_flushwc)
        fail_(key, what, "converts from another encoding than requested");
    if (c->oindex != t || c->ofuncs.xxx_wctomb != all_encodings[t].ofuncs.xxx_wctomb || c->ofuncs.xxx_reset != all_encodings[t].ofuncs.xxx_reset)
        fail_(key, what, "converts to another encoding than requested");
    if (!c->discard_ilseq != !(flags & 1)) fail_(key, what, "flag differs from the request");
    if (c->istate || c->ostate || c->ibyteorder) fail_(key, what, "not in the initial state");
    /* behaviour, not only configuration: an invalid byte after a valid one under the flag (ASCII source and target) */
    reiconv_handle_close(cd);
}
static void chk_bad(reiconv_t cd, int err, const char *what, const char *key)
{
    if (cd != (reiconv_t)-1) { fail_(key, what, "opened although the request is invalid"); reiconv_handle_close(cd); return; }
    if (errno != err) { snprintf(cbuf, sizeof cbuf, "errno %d instead of %d", errno, err); fail_(key, what, cbuf); }
}
static void spell(char *o, const char *n)
{
    for (;; n++) { while (rnd() % 8 == 0) *o++ = rnd() % 2 ? '-' : '_'; *o++ = rnd() % 2 ? tolower(*n) : *n; if (!*n) break; }
}
static void t_open(double scale)
{
    char w[1500], a[700], b[700];
    for (int i = 0; i < nref; i++) miss[i] = known_missing(i);
    for (int f = 0; f < NENC; f++)
        for (int t = 0; t < NENC; t++)
            for (int fl = 0; fl < 2; fl++)
            {
                snprintf(w, sizeof w, "index %d %d flags %d", f, t, fl); cur_arg = w;
                n_eval++;
                errno = 0;
                chk_cd(reiconv_open_from_index(f, t, (enum ConvertFlag)fl), f, t, fl, w, "index");
            }
    if (n_live) fail_("leak", "index", "descriptors closed but memory still allocated");
    int other[] = {-1, -2, INT_MIN, INT_MAX, 65002, 65536, 100000, 1};
    for (int i = 0; i < ncp + 8; i++)
        for (int j = 0; j < ncp + 8; j++)
        {
            int f = i < ncp ? cps[i].cp : other[i - ncp], t = j < ncp ? cps[j].cp : other[j - ncp], fl = rnd() % 2;
            snprintf(w, sizeof w, "code pages %d %d flags %d", f, t, fl); cur_arg = w;
            n_eval++; errno = 0x777;
            reiconv_t cd = reiconv_open_from_codepage(f, t, (enum ConvertFlag)fl);
            if (i < ncp && j < ncp) chk_cd(cd, cps[i].e, cps[j].e, fl, w, "codepage"); else chk_bad(cd, EINVAL, w, "codepage");
        }
    static const char *bad[] = {"", "UTF", "UTF-9", "X", "latin", "//IGNORE", "/", "UTF-8-BOGUS-NAME", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"};
    static const struct { const char *s; int ign; } suf[] = {{"", 0}, {"//IGNORE", 1}, {"//ignore", 1}, {"//IgNoRe", 1}, {"//TRANSLIT", 0}, {"//translit", 0}, {"//TRANSLIT//IGNORE", 1}, {"//IGN", 0}, {"//", 0}, {"//NORMALIZE", 0}};
    for (long it = 0; it < 60000 * scale; it++)
    {
        int i = rnd() % nref, j = rnd() % nref, fl = rnd() % 2, kind = rnd() % 4;
        if (miss[i] || miss[j]) continue;
        const char *x = NULL, *y = NULL;
        spell(a, ref[i].n); spell(b, ref[j].n);
        if (rnd() % 8 == 0) { x = bad[rnd() % 9]; strcpy(a, x); }
        if (rnd() % 8 == 0) { y = bad[rnd() % 9]; strcpy(b, y); }
        n_eval++; errno = 0x777;
        if (kind == 0)
        {
            snprintf(w, sizeof w, "names from %s to %s flags %d", a, b, fl); cur_arg = w;
            reiconv_t cd = reiconv_open_from_name(a, b, (enum ConvertFlag)fl);
            if (x || y) chk_bad(cd, EINVAL, w, "byname"); else chk_cd(cd, ref[i].e, ref[j].e, fl, w, "byname");
        }
        else
        {
            int s1 = rnd() % 10, s2 = rnd() % 10;
            if (rnd() % 2) s1 = 0;
            if (rnd() % 2) s2 = 0;
            strcat(a, suf[s1].s); strcat(b, suf[s2].s);
            if (rnd() % 30 == 0) { for (int q = rnd() % 100; q > 0; q--) strcat(a, "-"); }
            snprintf(w, sizeof w, "open to %s from %s", b, a); cur_arg = w;
            char *pa = strdup(a), *pb = strdup(b);
            reiconv_t cd = reiconv_open(pb, pa);
            if (x || y) chk_bad(cd, EINVAL, w, "open"); else chk_cd(cd, ref[i].e, ref[j].e, suf[s1].ign | suf[s2].ign, w, "open");
            if (strcmp(pa, a) || strcmp(pb, b)) fail_("frame", w, "arguments modified");
            free(pa); free(pb);
        }
    }
    if (n_live) fail_("leak", "open", "descriptors closed but memory still allocated");
    for (int fa = 0; fa < 3; fa++)
        for (int kind = 0; kind < 4; kind++)
        {
            n_alloc = 0; fail_at = fa; errno = 0x777;
            reiconv_t cd = kind == 0 ? reiconv_open_from_index(1, 2, 0) : kind == 1 ? reiconv_open_from_codepage(cps[0].cp, cps[1].cp, 0) :
                kind == 2 ? reiconv_open_from_name("UTF-8", "ASCII", 1) : reiconv_open("ASCII//IGNORE", "UTF-8");
            fail_at = -1;
            if (cd == (reiconv_t)-1) { if (errno != ENOMEM) fail_("nomem", "out of memory", "errno is not ENOMEM"); }
            else if (cd == NULL || n_alloc > fa) fail_("nomem", "out of memory", "does not fail when memory is short");
            else reiconv_handle_close(cd);
            if (n_live) { fail_("leak", "out of memory", "memory still allocated after a failed open"); n_live = 0; }
        }
    errno = 5;
    if (reiconv_handle_close(reiconv_open_from_index(0, 0, 0)) != 0) fail_("close", "close", "does not return 0");
}
int main(int argc, char **argv)
{
    signal(SIGABRT, crash); signal(SIGSEGV, crash); signal(SIGBUS, crash); signal(SIGFPE, crash); signal(SIGALRM, crash);
    rng ^= (uint64_t)(atoi(argv[2]) + 1) * 0x9E3779B97F4A7C15ull;
    for (int i = 0; i < 10; i++) rnd();
    rd();
    double scale = argc > 3 ? atof(argv[3]) : 1;
    alarm(120 + (int)(scale * 60));
    if (!strcmp(argv[1], "names")) t_names(scale);
    else if (!strcmp(argv[1], "open")) t_open(scale);
    else t_cp(atoll(argv[3]), atoll(argv[4]));
    printf("DONE evals=%ld fails=%ld\n", n_eval, n_fail);
    return 0;
}
