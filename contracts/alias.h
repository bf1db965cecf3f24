/* Contract of the alias table search: reads nothing outside the string and its tables, and an entry that is found holds
   exactly the string.  strcmp is known by its contract: 0 if and only if the strings are equal.  */
const char *m_a, *m_b;
int m_eq, m_called;
int strcmp(const char *a, const char *b)
{
    m_a = a;
    m_b = b;
    m_called = 1;
    ENSURES(__CPROVER_r_ok(a, 1) && __CPROVER_r_ok(b, 1), "N.mem: compares strings");
    m_eq = nondet_int() != 0;
    return m_eq ? 0 : 1;
}
void ob_alias(void)
{
    unsigned long n = nondet_ulong();
    __CPROVER_assume(n <= CANON_MAX);
    char *s = __CPROVER_allocate(n + 1, 0);
    __CPROVER_assume(s[n] == 0);
    for (int i = 0; i < CANON_MAX; i++)
        if (i < n)
            __CPROVER_assume(s[i] > 0);       /* ASCII, see N.ascii */
    const struct alias *r = ALIASES(s, n);
    if (r)
    {
        unsigned long k = r - ALIAS_TABLE;
        ENSURES(k < sizeof(ALIAS_TABLE) / sizeof(ALIAS_TABLE[0]) && r == &ALIAS_TABLE[k], "N.alias: returns an entry of the table");
        ENSURES(m_called && m_eq, "N.alias: an entry is returned only after its name compared equal");
        const char *name = (const char *)&STRINGPOOL + r->name;
        ENSURES((m_a - s) == (m_b - name) && (m_a == s || (m_a == s + 1 && *s == *name)),
                "N.alias: the whole string was compared with the name of the entry");
        ENSURES(r->encoding_index < NENC, "N.alias: the entry names an encoding");
        REACHED("found");
    }
    else
        REACHED("not found");
}
