/* C05: an 8-bit encoding maps exactly its published table (SPEC[256], -1 unassigned; ONEWAY(wc,b)) */
void ob_tdec(void)
{
    d_inputs();
    unsigned o1 = fill(d_buf1, g_n);
    struct dres a = dcall(d_buf1, o1, g_ist, g_bo, g_n);
    int v = SPEC[g_b[0]];
    if (v >= 0)
        ENSURES(a.r == 1 && a.wc == (ucs4_t)v, "T.dec: an assigned byte decodes to its character");
    else
        ENSURES(a.r == -1, "T.dec: an unassigned byte is invalid");
    ENSURES(a.ist == g_ist && a.bo == g_bo, "T.dec: no state");
    REACHED("tdec");
}
void ob_tenc(void)
{
    e_inputs();
    __CPROVER_assume(g_n >= 1);
    unsigned m = g_n < OK_ ? (unsigned)g_n : OK_;
    struct eres a = ecall(e_buf1 + OK_ - m, g_ost, g_wc, g_n);
    ENSURES(a.r == 1 || a.r == -1, "T.enc: one byte or refused");
    ENSURES(a.ost == g_ost, "T.enc: no state");
    unsigned char b = e_buf1[OK_ - m];
    if (a.r == 1)
    {
        ENSURES((SPEC[b] >= 0 && (ucs4_t)SPEC[b] == g_wc) || ONEWAY(g_wc, b), "T.enc: the byte is the one assigned to the character");
        REACHED("tenc");
    }
    else
    {
        unsigned char c = nondet_uchar();
        ENSURES(SPEC[c] < 0 || (ucs4_t)SPEC[c] != g_wc, "T.enc: every character of the table is accepted");
    }
}
