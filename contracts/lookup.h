/* Contract of name lookup over the contracts of the length test, canonicalization and the alias table.  The canonical
   form is an arbitrary string c_buf of length c_len.  */
char c_buf[CANON_MAX + 1];
unsigned long c_len;
int t_index;                     /* what the alias table holds for it, -1 if it is not there */
int m_looked;
struct alias t_entry;
#ifdef FITS
int FITS(const char *name)
{
    ENSURES(name == g_s, "N.lookup: tests the given name");
    if (c_len < NAME_BUFFER)
        return c_len <= LONGEST ? 1 : nondet_int();
    return 0;
}
#endif
#ifdef CANON
size_t CANON(const char *name, char *outbuf)
{
    ENSURES(name == g_s, "N.lookup: canonicalizes the given name");
    ENSURES(__CPROVER_w_ok(outbuf, c_len + 1), "N.mem: the buffer has room for the canonical form");
    for (unsigned long i = 0; i <= CANON_MAX && i <= c_len; i++)
        outbuf[i] = c_buf[i];
    return c_len;
}
#endif
const struct alias *ALIASES(const char *str, size_t len)
{
    ENSURES(len == c_len && __CPROVER_r_ok(str, len + 1), "N.lookup: searches the canonical form");
    unsigned long i = nondet_ulong();
    __CPROVER_assume(i <= len);
    ENSURES(str[i] == c_buf[i], "N.lookup: searches the canonical form");
    ENSURES(i == len || (unsigned char)str[i] < 0x80, "N.ascii: the table is searched for ASCII names only");
    m_looked = 1;
    return t_index < 0 ? 0 : &t_entry;
}
void ob_lookup(void)
{
    g_s = __CPROVER_allocate(1, 0);
    c_len = nondet_ulong();
    __CPROVER_assume(c_len <= CANON_MAX);
    _Bool ascii = 1;
    for (int i = 0; i <= CANON_MAX; i++)
    {
        c_buf[i] = nondet_uchar();
        if (i < c_len)
        {
            __CPROVER_assume(c_buf[i] != 0);
            if ((unsigned char)c_buf[i] >= 0x80)
                ascii = 0;
        }
    }
    c_buf[c_len] = 0;
    t_index = nondet_int();
    __CPROVER_assume(t_index >= -1 && t_index < 10000);
    if (c_len > LONGEST || !ascii)
        __CPROVER_assume(t_index == -1);     /* contract of the table: only listed names */
    t_entry.encoding_index = t_index;
    int r = reiconv_lookup_from_name(g_s);
    ENSURES(r == t_index, "N.lookup: returns what the table holds for the canonical form");
    if (r >= 0)
        REACHED("found");
    else
        REACHED("not found");
}
