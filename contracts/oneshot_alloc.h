/* Contract of the allocating conversion over the contracts of result_size, convert_static_size and the C allocator.
   Blocks are tracked: g_live is the caller's block as it stands; every other block must be gone at the end.  */
int m_blocks;                   /* blocks allocated here and still alive */
char *m_user;                   /* the caller's block, 0 if dead or none */
char *m_new;                    /* the block allocated last */
unsigned long m_size;
int m_failed;
void *malloc(size_t n)
{
    if (n == 0 && nondet_int())
        return 0;                   /* allowed by the C standard, no failure */
    if (nondet_int())
    {
        m_failed = 1;
        h_errno = ENOMEM;
        return 0;
    }
    m_new = __CPROVER_allocate(n, 0);
    m_size = n;
    m_blocks++;
    return m_new;
}
void *calloc(size_t a, size_t b) { return malloc(a * b); }
void free(void *p)
{
    if (!p)
        return;
    if (p == m_user)
        m_user = 0;
    else
    {
        ENSURES(p == m_new && m_blocks > 0, "O.alloc: frees only a live block");
        m_blocks--;
    }
}
void *realloc(void *p, size_t n)
{
    if (!p)
        return malloc(n);
    ENSURES(p == m_user || (p == m_new && m_blocks > 0), "O.alloc: reallocates only a live block");
    if (n == 0 && nondet_int())
    {
        free(p);
        return 0;
    }
    void *q = malloc(n);
    if (q)
    {
        if (p == m_user)
            m_user = 0;
        else
            m_blocks--;
    }
    return q;
}
size_t reiconv_result_size(reiconv_t icd, const char *start, size_t inlength)
{
    ENSURES(icd == &h_cd && start == g_in0 && inlength == g_N, "O.alloc: measures the given input");
    ENSURES(g_fresh, "O.alloc: measures from the initial state");
    if (g_verd || g_fverd)
    {
        h_errno = EILSEQ;
        return (size_t)-1;
    }
    return g_T + g_F;
}
int reiconv_convert_static_size(reiconv_t icd, const char *in, size_t n, char *out, size_t room)
{
    ENSURES(icd == &h_cd && in == g_in0 && n == g_N, "O.alloc: converts the given input");
    ENSURES(g_fresh, "O.alloc: converts from the initial state");
    ENSURES(__CPROVER_w_ok(out, room), "O.mem: the room given to a call exists");
    h_cd.ibyteorder = nondet_uint();
    unsigned long T = g_T + g_F;
    if (T > room || g_verd || g_fverd)
    {
        if (g_q < room)
            out[g_q] = nondet_uchar();
        h_errno = g_verd || g_fverd ? EILSEQ : E2BIG;
        return -1;
    }
    if (g_q < T)
        out[g_q] = g_spec;
    return 0;
}
void ob_convert(void)
{
    setup();
    g_out0 = g_wit = 0;
    unsigned long T = g_T + g_F;
    m_user = nondet_int() ? 0 : __CPROVER_allocate(1, 0);
    char *data = m_user, *data0 = m_user;
    size_t len = nondet_ulong();
    int nul = nondet_int();
    int ret = reiconv_convert(&h_cd, g_in0, g_N, nul == 1 ? 0 : &data, nul == 2 ? 0 : &len);
    ENSURES(h_cd.istate == 0 && h_cd.ostate == 0 && g_fresh, "O.ready: the descriptor is left in its initial state");
    if (nul == 1 || nul == 2)
    {
        ENSURES(ret == -1 && h_errno == EINVAL, "O.null: null arguments are refused with EINVAL");
        ENSURES(data == data0 && m_user == data0 && m_blocks == 0, "O.null: nothing else happens");
        REACHED("null");
    }
    else if (g_verd || g_fverd)
    {
        ENSURES(ret == -1 && h_errno == EILSEQ, "O.alloc: invalid input is refused with EILSEQ");
        REACHED("invalid");
    }
    else if (m_failed)
    {
        ENSURES(ret == -1 && h_errno == ENOMEM, "O.alloc: lack of memory is reported with ENOMEM");
        REACHED("memory");
    }
    else
    {
        ENSURES(ret == 0, "O.alloc: succeeds");
        ENSURES(len == T, "O.alloc: reports the length of the result");
        ENSURES(data && data == m_new && m_blocks == 1 && m_user == 0, "O.alloc: returns the one block it allocated");
        if (g_q < T)
        {
            ENSURES((unsigned char)data[g_q] == g_spec, "O.alloc: returns the bytes of the result");
            REACHED("byte");
        }
        REACHED("success");
    }
    if (ret != 0)
    {
        ENSURES(m_blocks == 0, "O.alloc: a failure leaks nothing");
        ENSURES(data == 0 ? m_user == 0 : data == m_user, "O.alloc: after a failure the caller's pointer is null or still valid");
    }
}
