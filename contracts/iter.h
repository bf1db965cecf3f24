/* Obligations about one iteration of a decoder F that loops over shift sequences (see lib/iterate.py).
   DEC is F__it: F up to the end of its first iteration (result IT_CONT if the loop goes round), DEC0 is F itself.
   For inputs of at most IT_LIMIT bytes per call the clauses of conv.h follow by induction on the number of iterations:
   - step: an iteration that goes round has consumed k <= n bytes (for k = 0 see I.zero: it is then as if F had been
     started in the initial state); for k >= 1, F on exactly these k bytes reports "incomplete" with
     shift k and a state st' within the invariant (or, if it needs to see more, st' is the initial state); F started afresh in st' behind them arrives at the head of its loop with
     the same variables (those with role sh less k).
   - sim: a loop resumed with variables of a fresh call, those of role sh raised by d, and d more bytes, does the same as the
     fresh call, results shifted by d.  Variables without a role take any value.
   Hence F(st, s, n) = F(st', s + k, n - k) shifted by k whenever n > k, and every clause about F reduces to the clauses
   below about its first iteration. */

static void it_inputs(void)
{
    d_inputs();
    __CPROVER_assume(g_n2 <= IT_LIMIT);
    it_resume = 0;
    it_reached = 0;
    it_d = 0;
}
static struct dres call0(unsigned char *area, unsigned off, unsigned ist, unsigned bo, size_t n)
{
    struct conv_struct cd;
    struct dres d;
    cd.istate = ist;
    cd.ibyteorder = bo;
    d.wc = nondet_uint();
    d.r = DEC0(&cd, &d.wc, area + off, n);
    d.ist = cd.istate;
    d.bo = cd.ibyteorder;
    return d;
}
void ob_it_step(void)
{
    it_inputs();
#ifdef IT_SAMPLE                 /* a sample, to discard candidates cheaply */
    __CPROVER_assume(g_n == 6 && (g_ist == IT_SAMPLE));
#endif
    const unsigned o1 = 0;
    fill0(d_buf1, g_n);
    struct dres a = dcall(d_buf1, o1, g_ist, g_bo, g_n);
    if (a.r != IT_CONT)
        return;
    size_t k = it_b_s - (d_buf1 + o1);
    ENSURES(k <= g_n && k < K, "I.consume: no more than is there");
    if (k == 0)
    {   /* nothing consumed: as if started in the initial state, which consumes or decides */
        const unsigned char *at = it_b_s;
        g_nist = 0;
        g_nbo = g_bo;
        ENSURES(g_ist != 0 && IN_DST(0, g_bo), "I.zero: not in the initial state");
        it_reached = 0;
        struct dres b = dcall(d_buf1, o1, 0, g_bo, g_n);
        ENSURES(it_reached && it_h_s == at, "I.zero: the fresh call enters the loop at the same byte");
        ENSURES(b.r == IT_CONT ? it_b_s > at : b.r != 0 && !(IS_TOOFEW(b.r) && SHIFT(b.r) == 0), "I.zero: then consumes or decides");
        IT_HEADS
        (void)dcall(d_buf1, o1, g_ist, g_bo, g_n);
        IT_HEADS_BACK
        it_roles(0);
        return;
    }
#ifdef IT_DIRECT                 /* on these k bytes alone F does not go round */
    const unsigned char *at_ = it_b_s;
    struct dres z = dcall(d_buf1, o1, g_ist, g_bo, k);
    it_b_s = at_;
    ENSURES(z.r != IT_CONT, "I.direct: ends within its first iteration");
#else
    struct dres z = call0(d_buf1, o1, g_ist, g_bo, k);
#endif
    if (!(IS_TOOFEW(z.r) && SHIFT(z.r) == k))
    {   /* the k bytes are recognised only with more behind them: the state behind them can only be the initial one */
        ENSURES(k < g_n, "I.alone: the shift sequence at the end of the input is consumed and more is asked for");
        z.ist = 0;
        z.bo = g_bo;
    }
    g_nist = z.ist;
    g_nbo = z.bo;
    ENSURES(IN_DST(z.ist, z.bo), "D.state: decoder state invariant preserved");
    if (k < g_n)
    {
        const unsigned char *at = it_b_s;
        it_reached = 0;
        (void)dcall(d_buf1, o1 + k, z.ist, z.bo, g_n - k);
        ENSURES(it_reached, "I.fresh: the fresh call enters the loop");
        ENSURES(it_h_s == at, "I.fresh: at the same byte");
        /* dcall may have gone round and overwritten the record of the first call: repeat it */
        IT_HEADS
        (void)dcall(d_buf1, o1, g_ist, g_bo, g_n);
        IT_HEADS_BACK
        it_roles((unsigned)k);
        REACHED("step");
    }
}
void ob_it_sim(void)
{
    it_inputs();
    const unsigned o1 = 0;
    fill0(d_buf1, g_n);
    struct dres b = dcall(d_buf1, o1, g_ist, g_bo, g_n);
    __CPROVER_assume(it_reached);
    IT_SAVE(b_)
    it_resume = 1;
    it_d = nondet_uint();
    __CPROVER_assume(it_d >= 1 && it_d <= IT_LIMIT && g_n + it_d <= IT_LIMIT);
    /* the prologue runs as in the fresh call, with d more bytes; its results are then overwritten at the head */
    it_reached = 0;
    struct dres a = dcall(d_buf1, o1, g_ist, g_bo, g_n + it_d);
    ENSURES(it_reached, "I.sim: the head is reached");
    if (b.r == IT_CONT)
    {
        ENSURES(a.r == IT_CONT && b_s_ == it_b_s, "I.sim: goes round as well");
        ENSURES(IT_SHIFTED(b_, it_d), "I.sim: with the same variables");
        REACHED("sim");
    }
    else
        ENSURES(a.r == (b.r >= 0 ? b.r + (int)it_d : b.r - 2 * (int)it_d) && a.ist == b.ist && a.bo == b.bo &&
                (b.r < 0 || a.wc == b.wc), "I.sim: the same result, shifted");
}
void ob_it_dec(void)
{
    it_inputs();
    unsigned o1 = fill(d_buf1, g_n);
    struct dres a = dcall(d_buf1, o1, g_ist, g_bo, g_n);
    for (unsigned i = 0; i < K; i++)
        if (o1 + i < K)
            FRAME(d_buf1[o1 + i] == g_b[i], "frame: input bytes unchanged");
    if (a.r == IT_CONT)
        return;
    if (a.r >= 0)
        ENSURES((size_t)a.r <= g_n, "D.acc: consumes no more than is available");
    else if (IS_ILSEQ(a.r))
        ENSURES((size_t)SHIFT(a.r) + UNIT <= g_n, "D.acc: the invalid unit lies within the available bytes");
    else
    {
        ENSURES((size_t)SHIFT(a.r) <= g_n, "D.acc: shift sequence within the available bytes");
        if (SHIFT(a.r) == 0)
        {
            ENSURES(a.ist == g_ist, "D.incomplete: nothing consumed, state unchanged");
            ENSURES(g_n < K, "D.need: asks for more bytes only at the end of the input");
        }
    }
    g_nist = a.ist;
    g_nbo = a.bo;
    ENSURES(IN_DST(a.ist, a.bo), "D.state: decoder state invariant preserved");
    if (a.r >= 0)
        REACHED("dec");
}
void ob_it_redo(void)
{
    it_inputs();
    const unsigned o1 = 0;
    fill0(d_buf1, g_n);
    struct dres a = dcall(d_buf1, o1, g_ist, g_bo, g_n);
    IT_SAVE(a_)
    if (a.r == IT_CONT)
    {
        unsigned bo2 = nondet_uint();
        __CPROVER_assume(IN_DST(g_ist, bo2));
        struct dres c = dcall(d_buf1, o1, g_ist, bo2, g_n);
        ENSURES(c.r == IT_CONT && IT_SAME(a_), "D.redo: the iteration does not depend on the byte order found earlier");
        REACHED("redo");
    }
    else
    {
        struct dres c = dcall(d_buf1, o1, g_ist, a.bo, g_n);
        ENSURES(a.r == c.r && a.ist == c.ist && a.bo == c.bo && (a.r < 0 || a.wc == c.wc),
                "D.redo: same bytes after a rollback decode to the same");
    }
}
void ob_it_prefix(void)
{
    it_inputs();
    const unsigned o2 = 0;
    fill0(d_buf1, g_n2);
    /* the shorter input is a prefix of the longer one, in place */
    struct dres b = dcall(d_buf1, o2, g_ist, g_bo, g_n2);
    IT_SAVE(b_)
    struct dres a = dcall(d_buf1, o2, g_ist, g_bo, g_n);
    if (a.r == IT_CONT)
    {
        ENSURES(b.r == IT_CONT && IT_SAME_N(b_), "D.prefix: goes round on the longer input as well");
        REACHED("prefix");
    }
    else if (!IS_TOOFEW(a.r))
        ENSURES(a.r == b.r && a.ist == b.ist && a.bo == b.bo && (a.r < 0 || a.wc == b.wc),
                "D.prefix: what was decided on a prefix stands on the longer input");
    else if (SHIFT(a.r) > 0)
    {
        unsigned k = SHIFT(a.r);
        if (k == g_n && (g_n == g_n2 ? a.r == b.r && a.ist == b.ist && a.bo == b.bo :
                         b.r == IT_CONT && (size_t)(b_s_ - (d_buf1 + o2)) == g_n))
            return;                    /* consumed alone, or goes round behind the same bytes: see step */
        ENSURES(k <= g_n, "D.shift: within the available bytes");
        if (k < g_n2)
        {
            struct dres c = dcall(d_buf1, o2 + k, a.ist, a.bo, g_n2 - k);
            IT_SAVE(c_)
            if (b.r == IT_CONT)
            {
                IT_BACKS(b_)
                ENSURES(c.r == IT_CONT && b_s_ == c_s_ && IT_SHIFTED(c_, k), "D.shift: goes round at the same byte");
            }
            else
                ENSURES(b.r == (c.r >= 0 ? c.r + (int)k : c.r - 2 * (int)k) && c.ist == b.ist && c.bo == b.bo &&
                        (b.r < 0 || c.wc == b.wc), "D.shift: shift sequence alone then the rest = all at once");
        }
    }
}
void ob_it_progress(void)
{
    ob_progress();
}
/* frame alone: neither the first nor any later iteration (any values of the variables) touches the rest of the descriptor */
void ob_it_frame(void)
{
    it_inputs();
    unsigned o1 = fill(d_buf1, g_n);
    (void)dcall(d_buf1, o1, g_ist, g_bo, g_n);
    it_resume = 1;                    /* no roles: any values */
    it_h_s = d_buf1 + o1;
    (void)dcall(d_buf1, o1, g_ist, g_bo, g_n);
    for (unsigned i = 0; i < K; i++)
        if (o1 + i < K)
            FRAME(d_buf1[o1 + i] == g_b[i], "frame: input bytes unchanged");
    ob_enc();
#ifdef FLUSH
    ob_flush();
#endif
#ifdef RST
    ob_reset();
#endif
    __CPROVER_assert(0, "reach.frame");
}
