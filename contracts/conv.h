/* Contracts of the converter functions (decoder, flush, encoder, reset), as proof obligations.
   Appended to the verbatim slice of the library that defines the functions; the generator
   defines beforehand:
     DEC, FLUSH, ENC, RST   the real functions of one encoding (RST/FLUSH possibly undefined)
     UNIT                   size of the unit skipped for an invalid sequence
     K                      number of input bytes whose content the decoder may look at
     IN_DST(ist,bo)         representation invariant of the decoder state
     IN_EST(ost)            representation invariant of the encoder state
   Each ob_* function is one obligation group: all inputs nondeterministic, no bound other than K,
   and reading byte K or beyond (with n > K) is itself reported as a violation of the bound. */

#define FRAME(c, id) __CPROVER_assert(c, id)
#ifdef FRAME_ONLY
#define ENSURES(c, id) ((void)0)
#define REACHED(id) ((void)0)
#undef IN_DST
#undef IN_EST
#define IN_DST(i, b) 1               /* any state at all */
#define IN_EST(o) 1
#else
#define REACHED(id) __CPROVER_assert(0, "reach." id)
#define ENSURES(c, id) __CPROVER_assert(c, id)
#endif

size_t nondet_size(void);
unsigned nondet_uint(void);
unsigned char nondet_uchar(void);

/* ghost copies of the inputs, read back from a counterexample */
unsigned g_ist, g_bo, g_ost, g_wc;
size_t g_n, g_n2;
unsigned char g_b[K];
unsigned g_nist, g_nbo, g_nost; /* states after the step */

#define IS_ILSEQ(r) ((r) < 0 && ((unsigned)(-1 - (r))) % 2 == 0)
#define IS_TOOFEW(r) ((r) < 0 && ((unsigned)(-1 - (r))) % 2 == 1)
#define SHIFT(r) ((unsigned)(-1 - (r)) / 2)

struct dres { int r; ucs4_t wc; unsigned ist, bo; };

static unsigned char d_buf1[K], d_buf2[K];

static void frame_check(const struct conv_struct *a, const struct conv_struct *b)
{
    FRAME(a->lfuncs.loop_convert == b->lfuncs.loop_convert && a->lfuncs.loop_reset == b->lfuncs.loop_reset &&
            a->iindex == b->iindex && a->oindex == b->oindex && a->discard_ilseq == b->discard_ilseq &&
            a->ifuncs.xxx_mbtowc == b->ifuncs.xxx_mbtowc && a->ifuncs.xxx_flushwc == b->ifuncs.xxx_flushwc &&
            a->ofuncs.xxx_wctomb == b->ofuncs.xxx_wctomb && a->ofuncs.xxx_reset == b->ofuncs.xxx_reset,
            "frame: configuration of the descriptor unchanged");
}

/* one call of the real decoder on the first n bytes at (content c), buffer ends after min(n,K) bytes */
static struct dres dcall(unsigned char *area, unsigned off, unsigned ist, unsigned bo, size_t n)
{
    struct conv_struct cd, old;
    struct dres d;
    cd.istate = ist;
    cd.ibyteorder = bo;
    old = cd;
    d.wc = nondet_uint();
    d.r = DEC(&cd, &d.wc, area + off, n);
    d.ist = cd.istate;
    d.bo = cd.ibyteorder;
    FRAME(cd.ostate == old.ostate, "frame: decoder leaves the encoder state alone");
    frame_check(&cd, &old);
    return d;
}
static unsigned fill(unsigned char *area, size_t n)
{
    unsigned m = n < K ? (unsigned)n : K;
    for (unsigned i = 0; i < K; i++)
        if (i < m)
            area[K - m + i] = g_b[i];
    return K - m;
}
/* the same at a fixed address: what lies behind the n bytes is arbitrary (that nothing behind them is read is ob_dec) */
static void fill0(unsigned char *area, size_t n)
{
    for (unsigned i = 0; i < K; i++)
        area[i] = i < n ? g_b[i] : nondet_uchar();
}
static void d_inputs(void)
{
    g_ist = nondet_uint();
    g_bo = nondet_uint();
    __CPROVER_assume(IN_DST(g_ist, g_bo));
    for (unsigned i = 0; i < K; i++)
        g_b[i] = nondet_uchar();
    g_n = nondet_size();
    g_n2 = nondet_size();
    __CPROVER_assume(g_n >= 1 && g_n <= g_n2);
#ifdef NMAX
    __CPROVER_assume(g_n2 <= NMAX);
#endif
}

/* D.safe, D.acc, D.incomplete, D.state */
void ob_dec(void)
{
    d_inputs();
    unsigned o1 = fill(d_buf1, g_n);
    struct dres a = dcall(d_buf1, o1, g_ist, g_bo, g_n);
    if (a.r >= 0)
        ENSURES((size_t)a.r <= g_n, "D.acc: consumes no more than is available");
    else if (IS_ILSEQ(a.r))
        ENSURES((size_t)SHIFT(a.r) + UNIT <= g_n, "D.acc: the invalid unit lies within the available bytes");
    else
    {
        ENSURES((size_t)SHIFT(a.r) <= g_n, "D.acc: shift sequence within the available bytes");
        if (SHIFT(a.r) == 0)
        {
            ENSURES(a.ist == g_ist, "D.incomplete: nothing consumed, state unchanged");
            ENSURES(g_n < K, "D.need: asks for more bytes only at the end of the input");
        }
    }
    g_nist = a.ist;
    g_nbo = a.bo;
    ENSURES(IN_DST(a.ist, a.bo), "D.state: decoder state invariant preserved");
    for (unsigned i = 0; i < K; i++)
        if (o1 + i < K)
            FRAME(d_buf1[o1 + i] == g_b[i], "frame: input bytes unchanged");
    if (a.r >= 0)
        REACHED("dec");
}

/* D.out, D.redo: the result is a function of state and bytes alone (every byte of the two result
   places starts nondeterministic), also when only istate was rolled back */
void ob_redo(void)
{
    d_inputs();
    fill0(d_buf1, g_n);
    fill0(d_buf2, g_n);
    struct dres a = dcall(d_buf1, 0, g_ist, g_bo, g_n);
    struct dres c = dcall(d_buf2, 0, g_ist, a.bo, g_n);
    ENSURES(a.r == c.r && a.ist == c.ist && a.bo == c.bo && (a.r < 0 || a.wc == c.wc),
            "D.redo: same bytes after a rollback decode to the same");
    if (a.r >= 0)
        REACHED("redo");
}

/* D.prefix, D.shift */
void ob_prefix(void)
{
    d_inputs();
    fill0(d_buf1, g_n);
    fill0(d_buf2, g_n2);
    struct dres a = dcall(d_buf1, 0, g_ist, g_bo, g_n);
    struct dres b = dcall(d_buf2, 0, g_ist, g_bo, g_n2);
    if (!IS_TOOFEW(a.r))
        ENSURES(a.r == b.r && a.ist == b.ist && a.bo == b.bo && (a.r < 0 || a.wc == b.wc),
                "D.prefix: what was decided on a prefix stands on the longer input");
#ifndef NO_SHIFT_OB
    else if (SHIFT(a.r) > 0)
    {
        unsigned k = SHIFT(a.r);
        if (!(a.r == b.r && a.ist == b.ist && a.bo == b.bo) && k < g_n2 && k <= g_n)
        {
            struct dres c = dcall(d_buf2, k, a.ist, a.bo, g_n2 - k);
            int r = c.r >= 0 ? c.r + (int)k : c.r - 2 * (int)k;
            ENSURES(r == b.r && c.ist == b.ist && c.bo == b.bo && (r < 0 || c.wc == b.wc),
                    "D.shift: shift sequence alone then the rest = all at once");
        }
    }
#else
    else
        ENSURES(SHIFT(a.r) == 0, "D.shift: no shift sequences");
#endif
    if (g_n2 > g_n)
        REACHED("prefix");
}

/* D.progress: a character delivered without consuming input shortens the queue of pending ones */
void ob_progress(void)
{
    d_inputs();
    fill0(d_buf1, g_n);
    struct dres a = dcall(d_buf1, 0, g_ist, g_bo, g_n);
    if (a.r == 0)
    {
        a = dcall(d_buf1, 0, a.ist, a.bo, g_n);
        if (a.r == 0)
        {
            a = dcall(d_buf1, 0, a.ist, a.bo, g_n);
            ENSURES(a.r != 0, "D.progress: no more than two characters without consuming");
        }
    }
    REACHED("progress");
}

#ifdef FLUSH
void ob_flush(void)
{
    struct conv_struct cd, old;
    g_ist = nondet_uint();
    g_bo = nondet_uint();
    __CPROVER_assume(IN_DST(g_ist, g_bo));
    cd.istate = g_ist;
    cd.ibyteorder = g_bo;
    old = cd;
    ucs4_t w1 = nondet_uint(), w2 = nondet_uint();
    int r = FLUSH(&cd, &w1);
    ENSURES(r == 0 || r == 1, "F.acc: result is 0 or 1");
    FRAME(cd.ostate == old.ostate && cd.ibyteorder == old.ibyteorder, "F.frame");
    frame_check(&cd, &old);
    g_nist = cd.istate;
    g_nbo = cd.ibyteorder;
    ENSURES(IN_DST(cd.istate, cd.ibyteorder), "F.state: decoder state invariant preserved");
    if (r == 1)
    {
        struct conv_struct c2 = old;
        int q = FLUSH(&c2, &w2);
        ENSURES(q == 1 && w1 == w2 && c2.istate == cd.istate, "F.out: the pending character is a function of the state");
        q = FLUSH(&cd, &w2);
        ENSURES(q == 0, "F.once: delivered once");
        REACHED("flush");
    }
    else
        ENSURES(cd.istate == old.istate || cd.istate == 0, "F.frame: nothing pending, state kept or initial");
}
#endif

/* ---- encoder ---- */
#ifndef OK_
#define OK_ 16
#endif
struct eres { int r; unsigned ost; };
static unsigned char e_buf1[OK_], e_buf2[2 * OK_];

static struct eres ecall(unsigned char *r, unsigned ost, ucs4_t wc, size_t n)
{
    struct conv_struct cd, old;
    struct eres x;
    cd.ostate = ost;
    old = cd;
    x.r = ENC(&cd, r, wc, n);
    x.ost = cd.ostate;
    FRAME(cd.istate == old.istate && cd.ibyteorder == old.ibyteorder, "frame: encoder leaves the decoder state alone");
    frame_check(&cd, &old);
    return x;
}
static void e_inputs(void)
{
    g_ost = nondet_uint();
    __CPROVER_assume(IN_EST(g_ost));
    g_wc = nondet_uint();
    g_n = nondet_size();
}
/* E.safe, E.acc, E.unchanged, E.state: n bytes of room, buffer ends after min(n, OK_) bytes */
void ob_enc(void)
{
    e_inputs();
    __CPROVER_assume(g_n >= 1);
    unsigned m = g_n < OK_ ? (unsigned)g_n : OK_;
    struct eres a = ecall(e_buf1 + OK_ - m, g_ost, g_wc, g_n);
    ENSURES(a.r >= -2 && (a.r < 0 || (size_t)a.r <= g_n), "E.acc: writes no more than there is room");
    if (a.r < 0)
        ENSURES(a.ost == g_ost, "E.unchanged: nothing written, state unchanged");
    g_nost = a.ost;
    ENSURES(IN_EST(a.ost), "E.state: encoder state invariant preserved");
    if (g_n >= OK_)
        ENSURES(a.r != -2, "E.size: ample room is enough");
    if (a.r > 0)
        REACHED("enc");
}
/* E.size, E.tight: result independent of the room as long as it fits */
void ob_size(void)
{
    e_inputs();
    __CPROVER_assume(g_n >= 1 && g_n <= OK_);
    unsigned m = (unsigned)g_n;
    for (unsigned i = 0; i < OK_; i++) e_buf1[i] = nondet_uchar();
    for (unsigned i = 0; i < 2 * OK_; i++) e_buf2[i] = nondet_uchar();
    struct eres a = ecall(e_buf1, g_ost, g_wc, g_n);
    struct eres b = ecall(e_buf2, g_ost, g_wc, 2 * OK_);
    if (b.r < 0)
        ENSURES(a.r < 0, "E.size: a refused character is refused whatever the room");
    else if (a.r >= 0)
    {
        ENSURES(a.r == b.r && a.ost == b.ost, "E.size: same result whatever the room");
        for (int i = 0; i < OK_; i++)
            if (i < a.r && i < m)
                ENSURES(e_buf1[i] == e_buf2[i], "E.size: same bytes whatever the room");
    }
    else
    {
        ENSURES(a.r != -1, "E.size: shortage of room is not reported as unencodable");
        ENSURES(g_n < (size_t)b.r, "E.tight: shortage reported only when the result does not fit");
    }
    if (a.r > 0)
        REACHED("size");
}
#ifdef RST
static struct eres rcall(unsigned char *r, unsigned ost, size_t n)
{
    struct conv_struct cd, old;
    struct eres x;
    cd.ostate = ost;
    old = cd;
    x.r = RST(&cd, r, n);
    x.ost = cd.ostate;
    FRAME(cd.istate == old.istate && cd.ibyteorder == old.ibyteorder, "frame: reset leaves the decoder state alone");
    frame_check(&cd, &old);
    return x;
}
void ob_reset(void)
{
    e_inputs();
    unsigned m = g_n < OK_ ? (unsigned)g_n : OK_;
    for (unsigned i = 0; i < OK_; i++) e_buf1[i] = nondet_uchar();
    for (unsigned i = 0; i < 2 * OK_; i++) e_buf2[i] = nondet_uchar();
    struct eres a = rcall(e_buf1 + OK_ - m, g_ost, g_n);
    struct eres b = rcall(e_buf2, g_ost, 2 * OK_);
    ENSURES(b.r >= 0 && b.r <= OK_, "R.acc: succeeds with ample room");
    if (g_ost == 0)
        ENSURES(a.r == 0, "R.init: nothing to close in the initial state");
    if (a.r >= 0)
    {
        ENSURES((size_t)a.r <= g_n && a.r == b.r, "R.acc: same length whatever the room");
        for (int i = 0; i < OK_; i++)
            if (i < a.r && i < m)
                ENSURES(e_buf1[OK_ - m + i] == e_buf2[i], "R.size: same bytes whatever the room");
    }
    else
    {
        ENSURES(a.r == -2, "R.acc: only shortage of room is reported");
        ENSURES(a.ost == g_ost, "R.unchanged: no room, state unchanged");
        ENSURES(g_n < (size_t)b.r, "R.tight: shortage reported only when the sequence does not fit");
    }
    REACHED("reset");
}
#endif

/* frame clauses alone: a call changes nothing of the descriptor but its own state, and not its input */
void ob_frame(void)
{
    ob_dec();
    ob_enc();
#ifdef FLUSH
    ob_flush();
#endif
#ifdef RST
    ob_reset();
#endif
    __CPROVER_assert(0, "reach.frame");
}
/* all clauses about one call: memory, accounting, frame, state */
void ob_call(void)
{
    ob_dec();
    ob_enc();
#ifdef FLUSH
    ob_flush();
#endif
#ifdef RST
    ob_reset();
#endif
}
/* all clauses that relate two calls */
void ob_rel(void)
{
    ob_redo();
    ob_prefix();
    ob_progress();
    ob_size();
}
