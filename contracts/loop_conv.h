/* Contract of the conversion loop and of reset, over converters known only by their contracts (contracts/conv.h).
   The specification is the automaton of ghost phases below: which converter call must come next, with which
   arguments, and what the call as a whole must then have done.  */
#define ENSURES(c, id) __CPROVER_assert(c, id)
#define REACHED(id) __CPROVER_assert(0, "reach." id)
#define COUNT_MAX 0x3ffffffe /* RET_COUNT_MAX; IT_LIMIT of lib/iterate.py */
#define NEED 4096 /* more than any decoder looks at (K of contracts/conv.h) */
enum { P_NEXT, P_PUT, P_SUBST, P_FINAL, P_RST, P_DONE };
int g_phase, g_err, g_pend, g_mode; /* g_mode: 0 convert, 1 reset */
int g_d;                            /* bytes of the character being transferred */
unsigned g_keep;                    /* decoder state before it */
unsigned g_wc;
struct conv_struct h_cd, h_cd0;

static unsigned long unit_of(void)
{
    switch (h_cd0.iindex)
    {
    case ei_ucs4: case ei_ucs4be: case ei_ucs4le: case ei_utf32: case ei_utf32be: case ei_utf32le:
    case ei_ucs4internal: case ei_ucs4swapped:
        return 4;
    case ei_ucs2: case ei_ucs2be: case ei_ucs2le: case ei_utf16: case ei_utf16be: case ei_utf16le:
    case ei_ucs2internal: case ei_ucs2swapped:
        return 2;
    }
    return 1;
}
static void consume(unsigned long k)
{
    g_ip += k;
    g_left -= k;
}
static void produce(unsigned long k)
{
    g_op += k;
    g_room -= k;
}
static void frame(void)
{
    ENSURES(h_cd.lfuncs.loop_convert == h_cd0.lfuncs.loop_convert && h_cd.lfuncs.loop_reset == h_cd0.lfuncs.loop_reset &&
            h_cd.iindex == h_cd0.iindex && h_cd.oindex == h_cd0.oindex && h_cd.discard_ilseq == h_cd0.discard_ilseq &&
            h_cd.ifuncs.xxx_mbtowc == h_cd0.ifuncs.xxx_mbtowc && h_cd.ifuncs.xxx_flushwc == h_cd0.ifuncs.xxx_flushwc &&
            h_cd.ofuncs.xxx_wctomb == h_cd0.ofuncs.xxx_wctomb && h_cd.ofuncs.xxx_reset == h_cd0.ofuncs.xxx_reset,
            "L.frame: configuration of the descriptor unchanged");
    ENSURES(h_cd.istate == g_ist && h_cd.ostate == g_ost && h_cd.ibyteorder == g_bo, "L.state: descriptor state as specified");
}
/* decoder known by its contract: D.acc, D.incomplete, D.progress */
static int stub_dec(conv_t cd, ucs4_t *pwc, const unsigned char *s, size_t n)
{
    ENSURES(cd == &h_cd, "L.dec: called with the descriptor");
    ENSURES(g_mode == 0 && g_phase == P_NEXT, "L.dec: one decoder call per step, none after the end");
    ENSURES((char *)s == g_ip && n > 0 && (n == g_left || (n < g_left && n >= NEED)), "L.dec: called with exactly the remaining input, or a large part of it");
    ENSURES(n <= COUNT_MAX, "L.count: the number of bytes consumed fits the result of the decoder");
    frame();
    int r = nondet_int();
    g_wc = nondet_uint();
    g_keep = g_ist;
    *pwc = g_wc;
    g_bo = cd->ibyteorder = nondet_uint();
    if (r >= 0)
    {
        __CPROVER_assume((unsigned long)r <= n);
        if (r == 0)
        {
            __CPROVER_assume(g_pend > 0);
            g_pend--;
        }
        else
            g_pend = nondet_uint() % 3;
        g_ist = cd->istate = nondet_uint();
        g_d = r;
        if (g_room == 0)
        {
            g_ist = g_keep;
            g_err = E2BIG;
            g_phase = P_FINAL;
        }
        else
            g_phase = P_PUT;
        return r;
    }
    unsigned long k = (unsigned)(-1 - r) / 2;
    __CPROVER_assume(g_pend == 0);
    if ((unsigned)(-1 - r) % 2 == 0)
    {
        __CPROVER_assume(k + unit_of() <= n);
        g_ist = cd->istate = nondet_uint();
        consume(h_cd0.discard_ilseq ? k + unit_of() : k);
        if (!h_cd0.discard_ilseq)
        {
            g_err = EILSEQ;
            g_phase = P_FINAL;
        }
        return r;
    }
    __CPROVER_assume(k <= n);
    if (n >= NEED)
        __CPROVER_assume(k > 0); /* D.need */
    if (k == 0)
    {
        g_err = EINVAL;
        g_phase = P_FINAL;
        return r;
    }
    g_ist = cd->istate = nondet_uint();
    consume(k);
    return r;
}
/* encoder known by its contract: E.acc, E.unchanged */
static int stub_enc(conv_t cd, unsigned char *r, ucs4_t wc, size_t n)
{
    ENSURES(cd == &h_cd, "L.enc: called with the descriptor");
    ENSURES(g_phase == P_PUT || g_phase == P_SUBST, "L.enc: encoder called only for a decoded character");
    ENSURES(wc == (g_phase == P_PUT ? g_wc : 0xfffd), "L.enc: called with the decoded character or the replacement");
    ENSURES((char *)r == g_op && n == g_room && n > 0, "L.enc: called with exactly the remaining room");
    frame();
    int c = nondet_int();
    __CPROVER_assume(c >= -2 && (c < 0 || (unsigned long)c <= n));
    if (c >= 0)
    {
        g_ost = cd->ostate = nondet_uint();
        produce(c);
        consume(g_d);
        g_phase = g_mode ? P_RST : P_NEXT;
    }
    else if (c == -2)
    {
        g_ist = g_keep;
        g_err = E2BIG;
        g_phase = P_FINAL;
    }
    else if (g_phase == P_PUT)
    {
        if (wc >= 0xe0000 && wc <= 0xe007f)
        {
            consume(g_d);
            g_phase = g_mode ? P_RST : P_NEXT;
        }
        else
        {
            g_cnt++;
            if (h_cd0.discard_ilseq)
            {
                consume(g_d);
                g_phase = g_mode ? P_RST : P_NEXT;
            }
            else
                g_phase = P_SUBST;
        }
    }
    else
    {
        g_ist = g_keep;
        g_err = EILSEQ;
        g_phase = P_FINAL;
    }
    return c;
}
static int stub_flush(conv_t cd, ucs4_t *pwc)
{
    ENSURES(cd == &h_cd && g_mode == 1 && g_phase == P_NEXT, "R.flush: asked once, before anything else");
    frame();
    g_keep = g_ist;
    g_d = 0;
    if (nondet_int())
    {
        g_ist = cd->istate = nondet_uint();
        *pwc = g_wc = nondet_uint();
        if (g_room == 0)
        {
            g_ist = g_keep;
            g_err = E2BIG;
            g_phase = P_FINAL;
        }
        else
            g_phase = P_PUT;
        return 1;
    }
    if (nondet_int())
        g_ist = cd->istate = 0;
    g_phase = P_RST;
    return 0;
}
static int stub_rst(conv_t cd, unsigned char *r, size_t n)
{
    ENSURES(cd == &h_cd && g_mode == 1, "R.rst: called on reset only");
    ENSURES(g_phase == P_RST || (g_phase == P_NEXT && !h_cd0.ifuncs.xxx_flushwc), "R.rst: closing sequence after the pending character");
    ENSURES((char *)r == g_op && n == g_room, "R.rst: called with exactly the remaining room");
    frame();
    int c = nondet_int();
    __CPROVER_assume(c == -2 || (c >= 0 && (unsigned long)c <= n));
    if (c < 0)
    {
        g_err = E2BIG;
        g_phase = P_FINAL;
    }
    else
    {
        produce(c);
        g_ost = cd->ostate = nondet_uint();
        g_phase = P_DONE;
    }
    return c;
}
/* ---- loop invariant: at the head of every iteration the specified conversion is between two characters ---- */
static _Bool ghost_inv(void) { return g_phase == P_NEXT && g_left <= g_N && g_room <= g_R && g_pend >= 0 && g_pend <= 2; }
unsigned long v_left;
int v_pend;
void cut_establish(void)
{
    ENSURES(ghost_inv(), "L.inv: loop invariant holds initially");
    frame();
}
void cut_havoc(void)
{
    g_left = nondet_ulong();
    g_room = nondet_ulong();
    g_ip = (char *)nondet_ulong();
    g_op = (char *)nondet_ulong();
    g_cnt = nondet_ulong();
    g_pend = nondet_int();
    g_ist = h_cd.istate = nondet_uint();
    g_ost = h_cd.ostate = nondet_uint();
    g_bo = h_cd.ibyteorder = nondet_uint();
    h_errno = h_errno0;
}
void cut_assume(void)
{
    __CPROVER_assume(ghost_inv());
    v_left = g_left;
    v_pend = g_pend;
}
void cut_back(void)
{
    ENSURES(ghost_inv(), "L.inv: a step ends between two characters, or the call ends");
    frame();
    ENSURES(h_errno == h_errno0, "L.errno: errno is set by a failure only");
    ENSURES(g_left < v_left || (g_left == v_left && g_pend < v_pend), "L.variant: every step consumes input or a pending character");
}
static void setup(void)
{
    g_in0 = (char *)nondet_ulong();
    g_out0 = (char *)nondet_ulong();
    g_N = nondet_ulong();
    g_R = nondet_ulong();
    __CPROVER_assume(g_in0 != 0 && g_out0 != 0);
    __CPROVER_assume((unsigned long)g_in0 < 0x4000000000000ul && (unsigned long)g_out0 < 0x4000000000000ul);
    __CPROVER_assume(g_N < 0x4000000000000ul && g_R < 0x4000000000000ul);
    g_cnt = 0;
    g_ip = g_in0;
    g_op = g_out0;
    g_left = g_N;
    g_room = g_R;
    g_phase = P_NEXT;
    g_pend = nondet_uint() % 3;
    h_ip = g_in0;
    h_op = g_out0;
    h_il = g_N;
    h_ol = g_R;
    h_errno = h_errno0 = nondet_int();
    struct conv_struct any;
    h_cd = any;
    h_cd.lfuncs.loop_convert = LOOP_CONVERT;
    h_cd.lfuncs.loop_reset = LOOP_RESET;
    h_cd.ifuncs.xxx_mbtowc = stub_dec;
    h_cd.ifuncs.xxx_flushwc = nondet_int() ? stub_flush : 0;
    h_cd.ofuncs.xxx_wctomb = stub_enc;
    h_cd.ofuncs.xxx_reset = nondet_int() ? stub_rst : 0;
    h_cd0 = h_cd;
    g_ist = h_cd.istate;
    g_bo = h_cd.ibyteorder;
    g_ost = h_cd.ostate;
}
static void args_as_specified(void)
{
    ENSURES(h_ip == g_ip && h_il == g_left, "L.acc: input pointer and count moved by exactly what was consumed");
    ENSURES(h_op == g_op && h_ol == g_room, "L.acc: output pointer and count moved by exactly what was written");
}
void ob_loop_convert(void)
{
    setup();
    g_mode = 0;
    size_t ret = reiconv_iconv(&h_cd, &h_ip, &h_il, &h_op, &h_ol);
    if (g_phase == P_FINAL)
    {
        ENSURES(ret == (size_t)-1 && h_errno == g_err, "L.ret: stops with the specified error");
        if (g_err == E2BIG)
            REACHED("E2BIG");
        if (g_err == EILSEQ)
            REACHED("EILSEQ");
        if (g_err == EINVAL)
            REACHED("EINVAL");
    }
    else
    {
        ENSURES(g_phase == P_NEXT, "L.ret: stops between characters");
        ENSURES(g_left == 0, "L.ret: without an error all input is consumed");
        ENSURES(ret == g_cnt, "L.ret: returns the number of characters that could not be expressed");
        ENSURES(h_errno == h_errno0, "L.errno: errno is set by a failure only");
        REACHED("success");
    }
    args_as_specified();
    frame();
}
void ob_loop_reset(void)
{
    setup();
    g_mode = 1;
    int kind = nondet_int();
    char *nul = 0;
    size_t ret = kind == 0 ? reiconv_iconv(&h_cd, 0, 0, &h_op, &h_ol) : reiconv_iconv(&h_cd, &nul, &h_il, &h_op, &h_ol);
    if (g_phase == P_FINAL)
    {
        ENSURES(ret == (size_t)-1 && h_errno == g_err, "R.ret: fails with the specified error");
        REACHED("reset fails");
    }
    else
    {
        ENSURES(g_phase == P_DONE || (!h_cd0.ofuncs.xxx_reset && (g_phase == P_RST || (g_phase == P_NEXT && !h_cd0.ifuncs.xxx_flushwc))),
                "R.ret: pending character and closing sequence delivered");
        ENSURES(ret == g_cnt, "R.ret: returns the number of characters that could not be expressed");
        g_ist = 0;
        g_ost = 0;
        ENSURES(h_errno == h_errno0, "R.errno: errno is set by a failure only");
        REACHED("reset succeeds");
    }
    args_as_specified();
    frame();
}
void ob_loop_reset_null(void)
{
    setup();
    g_mode = 1;
    g_phase = P_DONE;
    char *nul = 0;
    int kind = nondet_int();
    size_t ret = kind == 0 ? reiconv_iconv(&h_cd, 0, 0, 0, 0) : kind == 1 ? reiconv_iconv(&h_cd, &nul, &h_il, &nul, &h_ol) : reiconv_iconv(&h_cd, 0, &h_il, 0, &h_ol);
    g_ist = 0;
    g_ost = 0;
    ENSURES(ret == 0, "R.null: returns 0");
    ENSURES(h_errno == h_errno0, "R.errno: errno is set by a failure only");
    ENSURES(nul == 0, "R.null: arguments unchanged");
    args_as_specified();
    frame();
    REACHED("null");
}
/* lemma: the specified cursors stay inside the caller's buffers: whatever a step consumes or produces keeps
   g_ip - g_in0 == g_N - g_left and g_op - g_out0 == g_R - g_room */
void ob_loop_cursors(void)
{
    setup();
    cut_havoc();
    __CPROVER_assume(g_left <= g_N && g_room <= g_R && g_ip == g_in0 + (g_N - g_left) && g_op == g_out0 + (g_R - g_room));
    unsigned long k = nondet_ulong(), c = nondet_ulong();
    __CPROVER_assume(k <= g_left && c <= g_room);
    consume(k);
    produce(c);
    ENSURES(g_left <= g_N && g_ip == g_in0 + (g_N - g_left), "L.cursor: input cursor stays inside the input");
    ENSURES(g_room <= g_R && g_op == g_out0 + (g_R - g_room), "L.cursor: output cursor stays inside the output");
    REACHED("cursors");
}
