/* Contract of opening a descriptor, over the contracts of lookup (C08).  The table of
   encodings is replaced by one with four distinct function pointers per entry, so that any mix-up shows. */
int m_blocks, m_failed;
void *m_new;
void *malloc(size_t n)
{
    if (nondet_int())
    {
        m_failed = 1;
        h_errno = ENOMEM;
        return 0;
    }
    m_new = __CPROVER_allocate(n, 0);
    m_blocks++;
    return m_new;
}
void *calloc(size_t a, size_t b)
{
    if (nondet_int())
    {
        m_failed = 1;
        h_errno = ENOMEM;
        return 0;
    }
    m_new = __CPROVER_allocate(a * b, 1);
    m_blocks++;
    return m_new;
}
void free(void *p)
{
    if (p)
    {
        ENSURES(p == m_new && m_blocks > 0, "P.alloc: frees only a live block");
        m_blocks--;
    }
}
/* what a call must have produced: `flag`: 1 discard, 0 not, -1 not specified */
static void opened(reiconv_t h, int from, int to, int flag)
{
    if (m_failed)
    {
        ENSURES(h == (reiconv_t)-1 && h_errno == ENOMEM, "P.nomem: lack of memory is reported with ENOMEM");
        ENSURES(m_blocks == 0, "P.nomem: nothing is leaked");
        REACHED("no memory");
        return;
    }
    ENSURES(h == m_new && m_blocks == 1, "P.alloc: returns the one block it allocated");
    if (h != m_new || m_blocks != 1)
        return;
    conv_t cd = (conv_t)h;
    ENSURES(cd->istate == 0 && cd->ostate == 0 && cd->ibyteorder == 0, "P.init: the descriptor is in the initial state");
    ENSURES(cd->iindex == from && cd->ifuncs.xxx_mbtowc == TABLE[from].ifuncs.xxx_mbtowc &&
            cd->ifuncs.xxx_flushwc == TABLE[from].ifuncs.xxx_flushwc, "P.from: converts from the requested encoding");
    ENSURES(cd->oindex == to && cd->ofuncs.xxx_wctomb == TABLE[to].ofuncs.xxx_wctomb &&
            cd->ofuncs.xxx_reset == TABLE[to].ofuncs.xxx_reset, "P.to: converts to the requested encoding");
    ENSURES(cd->lfuncs.loop_convert == LOOP_CONVERT && cd->lfuncs.loop_reset == LOOP_RESET, "P.loop: conversion and reset are available");
    if (flag >= 0)
        ENSURES((cd->discard_ilseq != 0) == flag, "P.flags: the requested flags");
    REACHED("opened");
}
static void refused(reiconv_t h)
{
    ENSURES(h == (reiconv_t)-1 && h_errno == EINVAL, "P.unknown: an unknown encoding is refused with EINVAL");
    ENSURES(m_blocks == 0, "P.unknown: nothing is leaked");
    REACHED("refused");
}
#ifdef OB_INDEX
void ob_open_index(void)
{
    int a = nondet_int(), b = nondet_int();
    unsigned f = nondet_uint();
    __CPROVER_assume(a >= 0 && a < NENC && b >= 0 && b < NENC && f <= 1);
    reiconv_t h = reiconv_open_from_index(a, b, f);
    opened(h, a, b, (f & REICONV_DISCARD_ILSEQ) != 0);
}
#endif
#ifdef OB_CP
int q_a, q_b, r_a, r_b, q_asked;
int reiconv_lookup_from_codepage(int c)
{
    ENSURES(c == q_a || c == q_b, "P.lookup: looks up what was asked for");
    q_asked++;
    return c == q_a ? r_a : r_b;
}
void ob_open_codepage(void)
{
    q_a = nondet_int();
    q_b = nondet_int();
    r_a = nondet_int();
    r_b = nondet_int();
    unsigned f = nondet_uint();
    __CPROVER_assume(r_a >= -1 && r_a < NENC && r_b >= -1 && r_b < NENC && f <= 1 && (q_a != q_b || r_a == r_b));
    reiconv_t h = reiconv_open_from_codepage(q_a, q_b, f);
    if (!q_asked)
        return;
    if (r_a < 0 || r_b < 0)
        refused(h);
    else
        opened(h, r_a, r_b, (f & REICONV_DISCARD_ILSEQ) != 0);
}
#endif
#ifdef OB_NAME
char q_a[2], q_b[2];
int r_a, r_b, q_asked;
int reiconv_lookup_from_name(const char *s)
{
    ENSURES(s == q_a || s == q_b, "P.lookup: looks up what was asked for");
    q_asked++;
    return s == q_a ? r_a : r_b;
}
void ob_open_name(void)
{
    r_a = nondet_int();
    r_b = nondet_int();
    q_a[0] = nondet_uchar();
    q_b[0] = nondet_uchar();
    unsigned f = nondet_uint();
    __CPROVER_assume(r_a >= -1 && r_a < NENC && r_b >= -1 && r_b < NENC && f <= 1);
    reiconv_t h = reiconv_open_from_name(q_a, q_b, f);
    if (!q_asked)
        return;
    if (r_a < 0 || r_b < 0)
        refused(h);
    else
        opened(h, r_a, r_b, (f & REICONV_DISCARD_ILSEQ) != 0);
}
#endif
#ifdef OB_OPEN
/* two names with their canonical forms c_t, c_f (any strings that fit), cut at the first slash */
char q_t[2], q_f[2];
char c_t[NAME_BUFFER], c_f[NAME_BUFFER];
unsigned long l_t, l_f, p_t, p_f, w_i;
int r_t, r_f, q_asked, q_fit;
#ifdef FITS
int FITS(const char *s)
{
    ENSURES(s == q_t || s == q_f, "P.name: tests the given names");
    return s == q_t ? (q_fit & 1) == 0 : (q_fit & 2) == 0;
}
#endif
size_t reiconv_name_canonicalize(const char *s, char *out)
{
    ENSURES(s == q_t || s == q_f, "P.name: canonicalizes the given names");
    ENSURES(!(s == q_t ? q_fit & 1 : q_fit & 2), "P.mem: only names that fit are canonicalized");
    unsigned long n = s == q_t ? l_t : l_f;
    ENSURES(__CPROVER_w_ok(out, n + 1), "P.mem: the buffer has room for the canonical form");
    for (unsigned i = 0; i < NAME_BUFFER; i++)
        if (i <= n)
            out[i] = s == q_t ? c_t[i] : c_f[i];
    q_asked++;
    return n;
}
static _Bool same(const char *s, const char *c, unsigned long p)
{
    for (unsigned i = 0; i < NAME_BUFFER; i++)
    {
        if (i == p)
            return s[i] == 0;
        if (s[i] != c[i] || !s[i])
            return 0;
    }
    return 0;
}
int reiconv_lookup_from_name(const char *s)
{
    _Bool t = same(s, c_t, p_t), f = same(s, c_f, p_f);
    ENSURES(t || f, "P.name: looks up the name up to its first slash");
    return t ? r_t : r_f;
}
static _Bool has_ignore(const char *c, unsigned long l, unsigned long p, _Bool at_end)
{
    static const char ig[] = "//IGNORE";
    for (unsigned i = 0; i + 8 < NAME_BUFFER; i++)
    {
        if (i < p || i + 8 > l || (at_end && i + 8 != l))
            continue;
        _Bool ok = 1;
        for (unsigned k = 0; k < 8; k++)
            ok = ok && c[i + k] == ig[k];
        if (ok)
            return 1;
    }
    return 0;
}
static unsigned long form(char *c, unsigned long *l)
{
    unsigned long n = nondet_ulong(), p;
    __CPROVER_assume(n < NAME_BUFFER);
    p = n;
    for (unsigned i = NAME_BUFFER; i-- > 0;)
    {
        c[i] = nondet_uchar();
        if (i == n)
            c[i] = 0;
        if (i < n)
        {
            __CPROVER_assume(c[i] != 0 && c[i] != '-' && c[i] != '_' && !(c[i] >= 'a' && c[i] <= 'z'));
            if (c[i] == '/')
                p = i;
        }
    }
    *l = n;
    return p;
}
void ob_open(void)
{
    p_t = form(c_t, &l_t);
    p_f = form(c_f, &l_f);
    r_t = nondet_int();
    r_f = nondet_int();
    q_fit = 0;
#ifdef FITS
    q_fit = nondet_int() & 3;
#endif
    __CPROVER_assume(r_t >= -1 && r_t < NENC && r_f >= -1 && r_f < NENC);
    _Bool eq = p_t == p_f;
    for (unsigned i = 0; i < NAME_BUFFER; i++)
        if (i < p_t && c_t[i] != c_f[i])
            eq = 0;
    __CPROVER_assume(!eq || r_t == r_f);
    reiconv_t h = reiconv_open(q_t, q_f);
    if (q_fit)
    {
        refused(h);
        return;
    }
    if (!q_asked)
        return;
    if (r_t < 0 || r_f < 0)
        refused(h);
    else
    {
        _Bool must = has_ignore(c_t, l_t, p_t, 1) || has_ignore(c_f, l_f, p_f, 1);
        _Bool may = has_ignore(c_t, l_t, p_t, 0) || has_ignore(c_f, l_f, p_f, 0);
        opened(h, r_f, r_t, must ? 1 : may ? -1 : 0);
        if (must)
            REACHED("ignore");
    }
}
#endif
