/* Contracts of the character-set functions the converters are built from (jisx0208_mbtowc, gbk_wctomb ...), as
   proof obligations; the callers are then proved against these contracts, not the bodies.
   Appended to the verbatim slice of one function.  Defined beforehand:
     LEAF          the function
     L             number of bytes at most (decoders: looked at; encoders: written)
     one_byte      result for each single byte; IN_R2(r)... results possible with 2, 3, 4 visible bytes (decoders),
                   IN_RK(r) (encoders)
     FULL          defined: an encoder that requires room for L bytes (the stub asserts it)
     SHORT         defined: an encoder with less than L bytes of room always says "too small"
   Decoder contract: n >= 1 bytes readable; conv is not touched, nor the input; the result is a function of the first
   min(n, L) bytes alone; decided results stand for longer input; results in the listed sets; a result r > 0 is <= n.
   Encoder contract: the result is a function of wc (and the room); k bytes are written iff k is returned, k <= n. */
#define ENSURES(c, id) __CPROVER_assert(c, id)
#define REACHED(id) __CPROVER_assert(0, "reach." id)
size_t nondet_size(void);
unsigned nondet_uint(void);
unsigned char nondet_uchar(void);

#ifdef LEAF_DEC
static unsigned char l_buf1[L], l_buf2[L];
unsigned char g_b[L];
size_t g_n, g_n2;
static int in_r(unsigned m, int r)
{
    return m == 1 ? r == one_byte[g_b[0]] : m == 2 ? IN_R2(r) : m == 3 ? IN_R3(r) : IN_R4(r);
}
void ob_leaf(void)
{
    struct conv_struct cd, old;
    old = cd;
    for (unsigned i = 0; i < L; i++)
        g_b[i] = nondet_uchar();
    g_n = nondet_size();
    g_n2 = nondet_size();
    __CPROVER_assume(g_n >= 1 && g_n <= g_n2);
#ifdef ONLY_SHORTER             /* the clauses about one call are those of ob_leaf_safe */
    __CPROVER_assume(g_n < L);
#endif
    unsigned m1 = g_n < L ? (unsigned)g_n : L, m2 = g_n2 < L ? (unsigned)g_n2 : L;
    for (unsigned i = 0; i < L; i++)
    {
        if (i < m1) l_buf1[L - m1 + i] = g_b[i];
        if (i < m2) l_buf2[L - m2 + i] = g_b[i];
    }
    ucs4_t w1 = nondet_uint(), w2 = nondet_uint();
    int a = LEAF(&cd, &w1, l_buf1 + L - m1, g_n);
    int b = LEAF(&cd, &w2, l_buf2 + L - m2, g_n2);
    ENSURES(in_r(m1, a), "L.result: result in the set");
    ENSURES(a != 0 && a >= -2 && (a < 0 || (size_t)a <= g_n), "L.acc: no more than is there");
    if (a != -2)
        ENSURES(a == b && (a < 0 || w1 == w2), "L.prefix: function of the bytes, stands for longer input");
    if (m1 == m2)
        ENSURES(a == b, "L.fun: function of the visible bytes");
    ENSURES(cd.istate == old.istate && cd.ostate == old.ostate && cd.ibyteorder == old.ibyteorder && cd.iindex == old.iindex &&
            cd.oindex == old.oindex && cd.discard_ilseq == old.discard_ilseq && cd.ifuncs.xxx_mbtowc == old.ifuncs.xxx_mbtowc &&
            cd.ofuncs.xxx_wctomb == old.ofuncs.xxx_wctomb, "L.frame: descriptor not touched");
    for (unsigned i = 0; i < L; i++)
        if (i < m1)
            ENSURES(l_buf1[L - m1 + i] == g_b[i], "L.frame: input not touched");
    REACHED("leaf");
}
/* with the real tables: indexes within the tables, range of the characters */
void ob_leaf_safe(void)
{
    struct conv_struct cd;
    for (unsigned i = 0; i < L; i++)
        g_b[i] = nondet_uchar();
    g_n = nondet_size();
    __CPROVER_assume(g_n >= 1);
    unsigned m1 = g_n < L ? (unsigned)g_n : L;
    for (unsigned i = 0; i < L; i++)
        if (i < m1) l_buf1[L - m1 + i] = g_b[i];
    ucs4_t w1 = nondet_uint();
    int a = LEAF(&cd, &w1, l_buf1 + L - m1, g_n);
    ENSURES(in_r(m1, a), "L.result: result in the set");
    ENSURES(a != 0 && a >= -2 && (a < 0 || (size_t)a <= g_n), "L.acc: no more than is there");
#ifdef WC_MAX
    if (a > 0)
        ENSURES(w1 >= WC_MIN && w1 <= WC_MAX, "L.range: character in the range");
#endif
    if (a > 0)
        REACHED("safe");
}
#endif

#ifdef LEAF_ENC
static unsigned char l_buf1[L], l_buf2[L];
unsigned g_wc;
size_t g_n;
void ob_leaf(void)
{
    struct conv_struct cd, old;
    unsigned char o1[L], o2[L];
    old = cd;
    g_wc = nondet_uint();
    g_n = nondet_size();
    __CPROVER_assume(g_n >= 1);
#ifdef FULL                     /* requires: room for the longest result */
    __CPROVER_assume(g_n >= L);
#endif
    unsigned m = g_n < L ? (unsigned)g_n : L;
    for (unsigned i = 0; i < L; i++)
    {
        l_buf1[i] = o1[i] = nondet_uchar();
        l_buf2[i] = o2[i] = nondet_uchar();
    }
    int a = LEAF(&cd, l_buf1 + L - m, g_wc, g_n);
    int b = LEAF(&cd, l_buf2, g_wc, L);
    ENSURES(IN_RK(b) && b <= L && (b == -1 || b > 0), "L.result: result in the set");
    if (g_n >= L)
        ENSURES(a == b, "L.fun: function of the character");
    else
#ifdef SHORT
        ENSURES(a == -2, "L.short: too little room is always reported");
#else
        ENSURES(a == (b < 0 ? -1 : g_n < (size_t)b ? -2 : b), "L.exact: shortage reported exactly when it does not fit");
#endif
    for (int i = 0; i < L; i++)
    {
        if (i < m && i < a)
            ENSURES(l_buf1[L - m + i] == l_buf2[i], "L.fun: bytes a function of the character");
        if (i < m && i >= a)
            ENSURES(l_buf1[L - m + i] == o1[L - m + i], "L.frame: other bytes untouched");
    }
    ENSURES(cd.istate == old.istate && cd.ostate == old.ostate && cd.ibyteorder == old.ibyteorder && cd.iindex == old.iindex &&
            cd.oindex == old.oindex && cd.discard_ilseq == old.discard_ilseq && cd.ifuncs.xxx_mbtowc == old.ifuncs.xxx_mbtowc &&
            cd.ofuncs.xxx_wctomb == old.ofuncs.xxx_wctomb, "L.frame: descriptor not touched");
    REACHED("leaf");
}
void ob_leaf_safe(void)
{
    struct conv_struct cd;
    g_wc = nondet_uint();
    int a = LEAF(&cd, l_buf2, g_wc, L);
    static const unsigned char lo[] = {B_LO}, hi[] = {B_HI};
    for (int i = 0; i < L; i++)
        if (i < a)
            ENSURES(l_buf2[i] >= lo[i] && l_buf2[i] <= hi[i], "L.range: bytes in the range");
    if (a > 0)
        REACHED("safe");
}
#endif

#ifdef LEAF_PURE
unsigned nondet_uint(void);
void ob_leaf_safe(void)
{
    LEAF_DECLS                          /* not initialised: any value */
    LEAF_RET a = LEAF(LEAF_ARGS);
    ENSURES(PURE_RANGE(a), "L.range: result in the range");
    if (a > 0)
        REACHED("safe");
}
#endif
