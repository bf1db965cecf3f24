/* Round trip (C03) and 7-bit channels (C14), as proof obligations over the real encoder and decoder of one encoding.
   Defined beforehand, besides what conv.h needs:
     IN_J(o,i,b,n,p,q)   invariant relating the encoder state o, the decoder state (i,b) of a reader that has seen exactly
                         what was written, and the n <= 2 characters p, q written but not yet delivered
     IN_J0               the part of it that the run starts from (all parts are run)
     EXCLUDED(w)         the encoding's own signalling characters
     SAME(w,v)           v is delivered for w (w itself; documented one-way mappings)
     RT_LEMMAS           instances of the round-trip lemmas of the character-set functions, for the character g_wc
     SEVEN               defined for the encodings of 7-bit channels
     STEPS               decoder calls one encoder call may need */
unsigned g_pn, g_p[4];
unsigned g_pn0, g_p0, g_p1;          /* as on entry */
unsigned g_non, g_noi, g_nob;      /* joint state after the step, and what is still pending */
unsigned g_npn, g_np0, g_np1;
static unsigned char rt_buf[OK_];

static void rt_inputs(void)
{
    g_ost = nondet_uint();
    g_ist = nondet_uint();
    g_bo = nondet_uint();
    g_pn = nondet_uint();
    g_p[0] = nondet_uint();
    g_p[1] = nondet_uint();
    __CPROVER_assume(IN_J0(g_ost, g_ist, g_bo, g_pn, g_p[0], g_p[1]));
    __CPROVER_assume(g_pn <= 2);
    g_pn0 = g_pn;
    g_p0 = g_p[0];
    g_p1 = g_p[1];
    g_wc = nondet_uint();
}
/* decode all n bytes; the queue of expected characters is g_p[0..g_pn) */
static unsigned rt_ist, rt_bo, rt_got;
static void rt_feed(int n)
{
    int pos = 0;
    rt_ist = g_ist;
    rt_bo = g_bo;
    rt_got = 0;
    for (int k = 0; k < STEPS; k++)
    {
        if (pos >= n)
            break;
        struct conv_struct cd;
        ucs4_t w = nondet_uint();
        cd.istate = rt_ist;
        cd.ibyteorder = rt_bo;
        int r = DEC(&cd, &w, rt_buf + pos, n - pos);
        rt_ist = cd.istate;
        rt_bo = cd.ibyteorder;
        if (r >= 0)
        {
            ENSURES(rt_got < g_pn, "RT.once: nothing is delivered that was not written");
            if (rt_got < g_pn)
                ENSURES(SAME(g_p[rt_got], w), "RT.same: the character written is the character read");
            rt_got++;
            pos += r;
        }
        else
        {
            ENSURES(!IS_ILSEQ(r), "RT.valid: what is written is valid");
            ENSURES(IS_ILSEQ(r) || SHIFT(r) > 0, "RT.whole: what is written is complete");
            if (IS_ILSEQ(r) || SHIFT(r) == 0)
                return;
            pos += SHIFT(r);
        }
    }
    ENSURES(pos == n, "RT.whole: all bytes are read");
}
static void rt_pending(void)
{
    for (int i = 0; i < 4; i++)
        if (rt_got > 0 && g_pn > 0)
        {
            g_p[0] = g_p[1];
            g_p[1] = g_p[2];
            g_p[2] = g_p[3];
            g_p[3] = 0;
            rt_got--;
            g_pn--;
        }
    if (g_pn < 2)
        g_p[1] = 0;
    if (g_pn < 1)
        g_p[0] = 0;
}
void ob_rt(void)
{
    rt_inputs();
    __CPROVER_assume(!EXCLUDED(g_wc));
    RT_LEMMAS
    struct conv_struct cd;
    cd.ostate = g_ost;
    int r = ENC(&cd, rt_buf, g_wc, OK_);
    if (r < 0)
        return;
#ifndef RT_NOTAGS
    g_p[g_pn++] = g_wc;
#else
    if (!(g_wc >= 0xe0000 && g_wc < 0xe0080))
        g_p[g_pn++] = g_wc;
#endif
    rt_feed(r);
    rt_pending();
    g_non = cd.ostate;
    g_noi = rt_ist;
    g_nob = rt_bo;
    g_npn = g_pn;
    g_np0 = g_p[0];
    g_np1 = g_p[1];
    ENSURES(g_pn <= 2 && IN_J(g_non, g_noi, g_nob, g_npn, g_np0, g_np1), "RT.state: writer and reader stay in step");
    REACHED("rt");
}
void ob_rt_end(void)
{
    rt_inputs();
    RT_LEMMAS
    int r = 0;
#ifdef RST
    struct conv_struct cd;
    cd.ostate = g_ost;
    r = RST(&cd, rt_buf, OK_);
    ENSURES(r >= 0, "RT.end: can be closed");
#endif
    rt_feed(r);
    rt_pending();
#ifdef FLUSH
    struct conv_struct cf;
    ucs4_t w;
    cf.istate = rt_ist;
    cf.ibyteorder = rt_bo;
    if (FLUSH(&cf, &w))
    {
        ENSURES(g_pn > 0 && SAME(g_p[0], w), "RT.end: the pending character is delivered by the reset");
        rt_got = 1;
        rt_pending();
    }
#endif
    ENSURES(g_pn == 0, "RT.end: after the closing sequence everything written has been read");
#ifdef SEVEN
    ENSURES(IN_J(0, rt_ist, 0, 0, 0, 0), "RT7.end: after the closing sequence the reader is where a new text may start");
#endif
    REACHED("end");
}
/* bytes above 0x7f are never written */
void ob_seven(void)
{
    g_ost = nondet_uint();
    __CPROVER_assume(IN_EST(g_ost));
    g_wc = nondet_uint();
    RT_LEMMAS
    struct conv_struct cd;
    cd.ostate = g_ost;
    int r = ENC(&cd, rt_buf, g_wc, OK_);
    for (int i = 0; i < OK_; i++)
        if (i < r)
            ENSURES(rt_buf[i] < 0x80, "RT7.high: only bytes below 0x80 are written");
    g_nost = cd.ostate;
    if (r >= 0)
        ENSURES(IN_EST(g_nost), "E.state: encoder state invariant preserved");
#ifdef RST
    cd.ostate = g_ost;
    r = RST(&cd, rt_buf, OK_);
    for (int i = 0; i < OK_; i++)
        if (i < r)
            ENSURES(rt_buf[i] < 0x80, "RT7.high: only bytes below 0x80 are written by the closing sequence");
#endif
    REACHED("seven");
}
