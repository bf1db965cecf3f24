/* Contract of the one-shot functions over the contract of streaming conversion (C02, C06, C07): converting the whole
   input emits g_T bytes and ends with verdict g_verd (0, EILSEQ or EINVAL); a following reset emits g_F bytes more, or
   cannot (g_fverd).  The bytes are an unknown sequence of which one arbitrary position g_q holds g_spec.  */
#define ENSURES(c, id) __CPROVER_assert(c, id)
#define REACHED(id) __CPROVER_assert(0, "reach." id)
#define LIM 0x4000000000000ul
#define SLACK 64ul                   /* room with which no converter reports shortage */
unsigned long g_T, g_F, g_q;
int g_verd, g_fverd;
unsigned char g_spec, g_old;
char *g_wit;                         /* the byte of the caller's output buffer at position g_q, if it has one */
int g_ended;                         /* the result is complete (reset done) or refused */
int g_fresh;                         /* the descriptor is in its initial state */
struct conv_struct h_cd;
unsigned h_bo0;

static void emit(char *out, unsigned long room, unsigned long k)
{
    unsigned long j = g_q - g_o;
    if (j < room)
        out[j] = j < k ? g_spec : nondet_uchar();   /* room beyond what is emitted may be used, too */
    g_o += k;
    g_op += k;
    g_room -= k;
}
size_t reiconv_iconv(reiconv_t icd, char **inbuf, size_t *inbytesleft, char **outbuf, size_t *outbytesleft)
{
    conv_t cd = (conv_t)icd;
    ENSURES(cd == &h_cd, "O.cd: called with the descriptor");
    if (!inbuf || !*inbuf)
    {
        if (outbuf && *outbuf)
        {
            unsigned long room = *outbytesleft, k;
            ENSURES(__CPROVER_w_ok(*outbuf, room), "O.mem: the room given to a call exists");
            ENSURES(!g_ended, "O.seq: the result is completed once");
            ENSURES(g_left == 0 && !g_verd, "O.seq: the result is completed after all input has been converted");
            if (room < SLACK && nondet_int())
            {
                k = nondet_ulong();
                __CPROVER_assume(k <= room && k <= g_F);
                emit(*outbuf, room, k);
                g_F -= k;
                *outbuf += k;
                *outbytesleft -= k;
                h_errno = E2BIG;
                g_fresh = 0;
                return (size_t)-1;
            }
            __CPROVER_assume(g_F <= room);
            if (g_fverd)
            {
                h_errno = g_fverd;
                g_ended = 1;
                g_fresh = 0;
                return (size_t)-1;
            }
            k = g_F;
            emit(*outbuf, room, k);
            *outbuf += k;
            *outbytesleft -= k;
        }
        g_ended = 1;
        g_fresh = 1;
        cd->istate = 0;
        cd->ostate = 0;
        size_t ret = nondet_ulong();
        __CPROVER_assume(ret <= 1);
        return outbuf && *outbuf ? ret : 0;
    }
    ENSURES(!g_ended, "O.seq: nothing is converted after the end");
    ENSURES(*inbuf == g_ip && *inbytesleft == g_left, "O.seq: called with exactly the remaining input");
    unsigned long room = *outbytesleft, k = nondet_ulong(), c = nondet_ulong();
    ENSURES(__CPROVER_w_ok(*outbuf, room), "O.mem: the room given to a call exists");
    cd->istate = nondet_uint();
    cd->ostate = nondet_uint();
    cd->ibyteorder = nondet_uint();
    g_fresh = 0;
    __CPROVER_assume(k <= room && k <= g_T - g_o && c <= g_left);
    size_t ret;
    int full = nondet_int();
    if (full)
    {
        /* shortage: something is left, less than SLACK bytes of room are unused */
        __CPROVER_assume(c < g_left && room - k < SLACK);
        ret = (size_t)-1;
        h_errno = E2BIG;
    }
    else
    {
        __CPROVER_assume(k == g_T - g_o);
        if (g_verd)
        {
            __CPROVER_assume(c < g_left);
            ret = (size_t)-1;
            h_errno = g_verd;
            g_ended = 1;
        }
        else
        {
            __CPROVER_assume(c == g_left);
            ret = nondet_ulong();
            __CPROVER_assume(ret != (size_t)-1);
        }
    }
    emit(*outbuf, room, k);
    g_ip += c;
    __CPROVER_assume(g_ip != 0);       /* a buffer does not wrap around */
    g_left -= c;
    *inbuf = g_ip;
    *inbytesleft = g_left;
    *outbuf += k;
    *outbytesleft -= k;
    return ret;
}
void *memcpy(void *dst, const void *src, size_t n)
{
    ENSURES(__CPROVER_w_ok(dst, n), "O.mem: copy stays inside the output buffer");
    ENSURES(__CPROVER_r_ok(src, n), "O.mem: copy stays inside the source");
    if (g_wit && g_out0 && __CPROVER_same_object(g_wit, dst))
    {
        unsigned long j = (unsigned long)__CPROVER_POINTER_OFFSET(g_wit) - (unsigned long)__CPROVER_POINTER_OFFSET(dst);
        if (j < n)
            *g_wit = ((const char *)src)[j];
    }
    return dst;
}
/* ---- loop invariant: between two calls; what has been emitted so far is what the caller's buffer begins with ---- */
static _Bool ghost_inv(void)
{
    return !g_ended && g_ip && g_o <= g_T && g_left <= g_N && (g_left == 0 ? g_o == g_T && !g_verd : 1) &&
           (!g_out0 || (g_o <= g_R && g_op == g_out0 + g_o && g_room == g_R - g_o)) &&
           (!g_wit || *g_wit == (g_q < g_o ? (char)g_spec : (char)g_old));
}
unsigned long v_o;
void cut_establish(void) { ENSURES(ghost_inv(), "O.inv: loop invariant holds initially"); }
void cut_havoc(void)
{
    g_left = nondet_ulong();
    g_ip = (char *)nondet_ulong();
    g_o = nondet_ulong();
    __CPROVER_assume(g_o <= g_T && g_left <= g_N);
    if (g_out0)
    {
        __CPROVER_assume(g_o <= g_R);
        g_op = g_out0 + g_o;
        g_room = g_R - g_o;
    }
    if (g_wit)
        *g_wit = nondet_uchar();
    h_cd.istate = nondet_uint();
    h_cd.ostate = nondet_uint();
    h_cd.ibyteorder = nondet_uint();
    g_fresh = 0;
    h_errno = nondet_int();
}
void cut_assume(void)
{
    __CPROVER_assume(ghost_inv());
    v_o = g_o;
}
void cut_back(void)
{
    ENSURES(ghost_inv(), "O.inv: every step appends the next bytes of the result, or the call ends");
    ENSURES(g_left == 0 || g_o > v_o, "O.variant: every step makes progress");
}
static void setup(void)
{
    g_in0 = (char *)nondet_ulong();
    g_N = nondet_ulong();
    g_T = nondet_ulong();
    g_F = nondet_ulong();
    g_q = nondet_ulong();
    g_spec = nondet_uchar();
    __CPROVER_assume(g_in0 != 0 && (unsigned long)g_in0 < LIM && g_N < LIM && g_T < LIM && g_F < SLACK && g_q < LIM);
    g_verd = nondet_int();
    g_fverd = nondet_int();
    __CPROVER_assume(g_verd == 0 || g_verd == EILSEQ || g_verd == EINVAL);
    __CPROVER_assume(g_fverd == 0 || g_fverd == EILSEQ);
    if (g_N == 0)
        __CPROVER_assume(g_T == 0 && g_verd == 0);
    g_ip = g_in0;
    g_left = g_N;
    g_o = 0;
    g_ended = 0;
    struct conv_struct any;
    h_cd = any;
    h_cd.istate = 0;
    h_cd.ostate = 0;
    h_bo0 = h_cd.ibyteorder;
    g_fresh = 1;
    h_errno = nondet_int();
}
static void ready(void)
{
    ENSURES(g_fresh && h_cd.istate == 0 && h_cd.ostate == 0, "O.ready: the descriptor is left in its initial state");
}
#ifndef NO_RS
void ob_result_size(void)
{
    setup();
    g_out0 = 0;
    g_wit = 0;
    unsigned long T = g_T, F = g_F;
    size_t ret = reiconv_result_size(&h_cd, g_in0, g_N);
    if (g_verd || g_fverd)
    {
        ENSURES(ret == (size_t)-1, "O.size: invalid or truncated input is refused");
        ENSURES(h_errno == EILSEQ, "O.size: refusal sets errno to EILSEQ");
        REACHED("size refused");
    }
    else
    {
        ENSURES(ret == T + F, "O.size: exactly the number of bytes of the result");
        REACHED("size");
    }
    ready();
    ENSURES(h_cd.ibyteorder == h_bo0, "O.ready: the byte order is as before");
}
#endif
#ifndef NO_SS
void ob_static_size(void)
{
    setup();
    g_R = nondet_ulong();
    __CPROVER_assume(g_R < LIM);
    g_out0 = __CPROVER_allocate(g_R, 0);
    g_op = g_out0;
    g_room = g_R;
    g_wit = g_q < g_R ? g_out0 + g_q : 0;
    if (g_wit)
        g_old = *g_wit;
    unsigned long T = g_T, F = g_F;
    int ret = reiconv_convert_static_size(&h_cd, g_in0, g_N, g_out0, g_R);
    if (T > g_R)
    {
        ENSURES(ret == -1 && h_errno == E2BIG, "O.static: a result that does not fit is refused with E2BIG");
        REACHED("static too small");
    }
    else if (g_verd)
    {
        ENSURES(ret == -1 && h_errno == EILSEQ, "O.static: invalid or truncated input is refused with EILSEQ");
        REACHED("static refused");
    }
    else if (g_fverd)
        ENSURES(ret == -1 && h_errno == EILSEQ, "O.static: a pending character that cannot be expressed is refused");
    else if (T + F > g_R)
    {
        ENSURES(ret == -1 && h_errno == E2BIG, "O.static: a result that does not fit is refused with E2BIG");
        REACHED("static too small for the reset");
    }
    else
    {
        ENSURES(ret == 0, "O.static: succeeds when the buffer is large enough");
        if (g_wit && g_q < T + F)
        {
            ENSURES((unsigned char)*g_wit == g_spec, "O.static: the buffer holds the bytes of the result");
            REACHED("static byte");
        }
        REACHED("static");
    }
    if (g_wit && g_q >= T + F)
    {
        ENSURES((unsigned char)*g_wit == g_old, "O.static: nothing after the result is touched");
        REACHED("static rest");
    }
    if (ret == 0 || g_verd || g_fverd || T > g_R || T + F > g_R)
        ready();
}
#endif
