/* C04: the converters of the Unicode encodings meet their definitions (included after conv.h and unicode_spec.h) */
static const struct uspec U_ = {SP_FORM, SP_ORDER};

void ob_sdec(void)
{
    unsigned bo, wc = 0;
    d_inputs();
    unsigned o1 = fill(d_buf1, g_n);
    struct dres a = dcall(d_buf1, o1, g_ist, g_bo, g_n);
    bo = g_bo;
    int q = sp_dec(U_, &bo, &wc, d_buf1 + o1, g_n);
    ENSURES(a.r == q, "U.dec: accepts, rejects and measures exactly as defined");
    ENSURES(a.r < 0 || a.wc == wc, "U.dec: the character is the defined one");
    ENSURES(a.bo == bo && a.ist == g_ist, "U.dec: byte order as the marks say");
    if (a.r > 1)
        REACHED("sdec");
}
void ob_senc(void)
{
    unsigned char b[OK_];
    e_inputs();
    __CPROVER_assume(g_n >= 1);
    unsigned m = g_n < OK_ ? (unsigned)g_n : OK_, st = g_ost;
    struct eres a = ecall(e_buf1 + OK_ - m, g_ost, g_wc, g_n);
    int q = sp_enc(U_, &st, g_wc, b);
    if (q < 0)
        ENSURES(a.r < 0 && (a.r == -1 || g_n < 4), "U.enc: what has no encoding is refused");
    else if (g_n < (size_t)q)
        ENSURES(a.r == -2, "U.enc: no room");
    else
    {
        ENSURES(a.r == q, "U.enc: length as defined");
        ENSURES(a.ost == st, "U.enc: mark written once");
        for (int i = 0; i < OK_; i++)
            if (i < q && i < m)
                ENSURES(e_buf1[OK_ - m + i] == b[i], "U.enc: bytes as defined");
    }
    if (a.r > 1)
        REACHED("senc");
}
