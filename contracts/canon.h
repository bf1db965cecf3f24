/* Contract of canonicalization and of the length test, for strings of any length.  The canonical form is the string
   without - and _, lower case letters made upper case.  g_w is an arbitrary position of the string, g_wk the number of
   kept bytes before it.  Axioms about that counting function (g_L its value at the end): it grows by one at a kept
   byte, by zero at a dropped one, and is g_L at the terminating null.  */
unsigned long g_w, g_wk;
unsigned long g_p;
static _Bool kept(char c) { return c != '-' && c != '_'; }
static char up(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }
static void axioms(void)
{
    /* instances at the current position */
    __CPROVER_assume(g_p <= g_n && g_k <= g_p && g_k <= g_L && g_L <= g_n);
    __CPROVER_assume((g_s[g_p] == 0) == (g_p == g_n));
    if (g_p == g_n)
        __CPROVER_assume(g_k == g_L);
    else if (kept(g_s[g_p]))
        __CPROVER_assume(g_k + 1 <= g_L);
    if (g_w < g_p)
        __CPROVER_assume(kept(g_s[g_w]) ? g_wk < g_k : g_wk <= g_k);
    if (g_w >= g_p)
        __CPROVER_assume(g_wk >= g_k);
    if (g_w == g_p)
        __CPROVER_assume(g_wk == g_k);
}
static _Bool inv(void)
{
    return g_cp == g_s + g_p && g_bp == g_o + g_k &&
           (!g_o || !(g_w < g_p && kept(g_s[g_w])) || g_o[g_wk] == up(g_s[g_w]));
}
void cut_establish(void) { ENSURES(inv(), "N.inv: loop invariant holds initially"); }
void cut_havoc(void)
{
    g_p = nondet_ulong();
    g_k = nondet_ulong();
    __CPROVER_assume(g_p <= g_n && g_k <= g_L);
    g_cp = g_s + g_p;
    g_bp = g_o + g_k;
    if (g_o)
        g_o[g_wk] = nondet_uchar();
}
void cut_assume(void)
{
    axioms();
    __CPROVER_assume(inv());
}
void cut_back(void)
{
    /* the specified step */
    char c = g_s[g_p];
    ENSURES(c != 0, "N.step: stops at the end of the string");
    g_p++;
    g_cp++;
    if (kept(c))
    {
        g_k++;
        g_bp++;
    }
    axioms();
    ENSURES(inv(), "N.inv: every step appends the canonical form of one byte");
}
static void string(void)
{
    g_n = nondet_ulong();
    __CPROVER_assume(g_n < 0x40000000);
    g_s = __CPROVER_allocate(g_n + 1, 0);
    g_end = g_s + g_n;
    __CPROVER_assume(*g_end == 0);
#ifdef BOUNDED_RUN
    /* short string: the counting function computed */
    __CPROVER_assume(g_n <= RUN_MAX);
    g_w = nondet_ulong();
    __CPROVER_assume(g_w < g_n);
    g_L = g_wk = 0;
    for (unsigned long i = 0; i < RUN_MAX; i++)
        if (i < g_n)
        {
            __CPROVER_assume(g_s[i] != 0);
            if (kept(g_s[i]))
            {
                g_L++;
                if (i < g_w)
                    g_wk++;
            }
        }
    return;
#endif
    g_L = nondet_ulong();
    g_w = nondet_ulong();
    g_wk = nondet_ulong();
    __CPROVER_assume(g_L <= g_n && g_w < g_n && g_wk < g_n && g_wk <= g_L);
    __CPROVER_assume(kept(g_s[g_w]) ? g_wk < g_L : 1);
    g_p = g_k = 0;
    g_cp = g_s;
    axioms();
}
#ifdef CANON
void ob_canonicalize(void)
{
    string();
    g_o = __CPROVER_allocate(g_L + 1, 0);     /* exactly the room the canonical form takes */
    g_bp = g_o;
    char old = g_s[g_w];
    unsigned long r = CANON(g_s, g_o);
    ENSURES(r == g_L, "N.canon: returns the length of the canonical form");
    ENSURES(g_o[g_L] == 0, "N.canon: the canonical form is terminated");
    ENSURES(g_s[g_w] == old, "N.canon: the name is not modified");
    if (kept(g_s[g_w]))
    {
        ENSURES(g_o[g_wk] == up(g_s[g_w]), "N.canon: every byte other than - and _ is there in upper case, in order");
        REACHED("canon byte");
    }
    REACHED("canon");
}
#endif
#ifdef FITS
void ob_fits(void)
{
    string();
    g_o = g_bp = 0;
    int r = FITS(g_s);
    if (r)
    {
        ENSURES(g_L < NAME_BUFFER, "N.fits: a name is accepted only if its canonical form fits");
        REACHED("fits");
    }
    else
    {
        ENSURES(g_L > LONGEST, "N.fits: only names longer than any listed one are refused");
        REACHED("refused");
    }
}
#endif
