/* Contract of code page lookup: spec_cp is the list of code pages (spec/names.txt). */
void ob_codepage(void)
{
    int c = nondet_int();
    int r = reiconv_lookup_from_codepage(c);
    ENSURES(r == spec_cp(c), "N.codepage: the encoding of the code page, or -1");
    if (r >= 0)
        REACHED("found");
    else
        REACHED("not found");
}
