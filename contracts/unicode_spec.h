/* The definitions of the Unicode encodings, written independently of the library (RFC 3629, RFC 2781, RFC 2152,
   ISO 10646, C99 6.4.3, JLS 3.3).  One decoding step: how the bytes s[0..n) begin, in byte order *bo
   (0 big endian, 1 little endian).  Used both as the postcondition of the proofs and at run time. */
enum { F_UTF8, F_UCS2, F_UTF16, F_UCS4, F_UCS4ANY, F_UTF32, F_C99, F_JAVA };
enum { O_BE, O_LE, O_MARK };
struct uspec { int form, order; };

#define SP_ILSEQ(k) (-1 - 2 * (k))
#define SP_TOOFEW(k) (-2 - 2 * (k))

static int sp_unit(struct uspec u)
{
    return u.form == F_UCS2 || u.form == F_UTF16 ? 2 : u.form == F_UCS4 || u.form == F_UCS4ANY || u.form == F_UTF32 ? 4 : 1;
}
static unsigned sp_word(const unsigned char *s, int len, int little)
{
    unsigned v = 0;
    for (int i = 0; i < 4; i++)
        if (i < len)
            v |= (unsigned)s[i] << 8 * (little ? i : len - 1 - i);
    return v;
}
static int sp_hex(unsigned char c)
{
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
static int sp_scalar(unsigned v) { return v <= 0x10ffff && !(v >= 0xd800 && v <= 0xdfff); }
/* d hex digits at s: value, -1 not hex (at an available byte), -2 more bytes needed first */
static long long sp_hexes(const unsigned char *s, size_t n, int from, int d)
{
    long long v = 0;
    for (int i = 0; i < 8; i++)
        if (i < d)
        {
            if (n <= (size_t)(from + i)) return -2;
            int h = sp_hex(s[from + i]);
            if (h < 0) return -1;
            v = v * 16 + h;
        }
    return v;
}
/* the step at s, byte order fixed, marks treated as ordinary characters */
static int sp_step(struct uspec u, unsigned *wc, const unsigned char *s, size_t n, int little)
{
    unsigned v;
    if (u.form == F_UTF8)
    {
        unsigned char c = s[0];
        int len = c < 0x80 ? 1 : c < 0xc2 ? 0 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf8 ? 4 : 0;
        static const unsigned min[5] = {0, 0, 0x80, 0x800, 0x10000};
        if (len == 0) return SP_ILSEQ(0);
        if (n < (size_t)len) return SP_TOOFEW(0);
        v = len == 1 ? c : c & (0x7f >> len);
        for (int i = 1; i < 4; i++)
            if (i < len)
            {
                if ((s[i] & 0xc0) != 0x80) return SP_ILSEQ(0);
                v = v << 6 | (s[i] & 0x3f);
            }
        if (v < min[len] || !sp_scalar(v)) return SP_ILSEQ(0);
        *wc = v;
        return len;
    }
    if (u.form == F_C99)
    {
        if (s[0] >= 0xa0) return SP_ILSEQ(0);
        if (s[0] != '\\') { *wc = s[0]; return 1; }
        if (n < 2) return SP_TOOFEW(0);
        if (s[1] == 'u' || s[1] == 'U')
        {
            int d = s[1] == 'u' ? 4 : 8;
            long long x = sp_hexes(s, n, 2, d);
            if (x == -2) return SP_TOOFEW(0);
            if (x >= 0)
            {
                if ((x < 0xa0 && x != 0x24 && x != 0x40 && x != 0x60) || (x >= 0xd800 && x <= 0xdfff)) return SP_ILSEQ(0);
                *wc = (unsigned)x;
                return d + 2;
            }
        }
        *wc = '\\';
        return 1;
    }
    if (u.form == F_JAVA)
    {
        if (s[0] != '\\') { *wc = s[0]; return 1; }
        if (n < 2) return SP_TOOFEW(0);
        if (s[1] == 'u')
        {
            long long x = sp_hexes(s, n, 2, 4);
            if (x == -2) return SP_TOOFEW(0);
            if (x >= 0 && !(x >= 0xd800 && x <= 0xdfff)) { *wc = (unsigned)x; return 6; }
            if (x >= 0xd800 && x <= 0xdbff)
            {
                if (n < 7) return SP_TOOFEW(0);
                if (s[6] == '\\')
                {
                    if (n < 8) return SP_TOOFEW(0);
                    if (s[7] == 'u')
                    {
                        long long y = sp_hexes(s, n, 8, 4);
                        if (y == -2) return SP_TOOFEW(0);
                        if (y >= 0xdc00 && y <= 0xdfff)
                        {
                            *wc = (unsigned)((x - 0xd800) * 0x400 + (y - 0xdc00) + 0x10000);
                            return 12;
                        }
                    }
                }
            }
        }
        *wc = '\\';
        return 1;
    }
    int w = sp_unit(u);
    if (n < (size_t)w) return SP_TOOFEW(0);
    v = sp_word(s, w, little);
    if (u.form == F_UCS2 && v >= 0xd800 && v <= 0xdfff) return SP_ILSEQ(0);
    if (u.form == F_UCS4 && v > 0x7fffffff) return SP_ILSEQ(0);
    if (u.form == F_UTF32 && !sp_scalar(v)) return SP_ILSEQ(0);
    if (u.form == F_UTF16)
    {
        if (v >= 0xdc00 && v <= 0xdfff) return SP_ILSEQ(0);
        if (v >= 0xd800 && v <= 0xdbff)
        {
            if (n < 4) return SP_TOOFEW(0);
            unsigned x = sp_word(s + 2, 2, little);
            if (x < 0xdc00 || x > 0xdfff) return SP_ILSEQ(0);
            *wc = (v - 0xd800) * 0x400 + (x - 0xdc00) + 0x10000;
            return 4;
        }
    }
    *wc = v;
    return w;
}
#ifndef SP_MARKS
#define SP_MARKS 64
#endif
/* with byte order marks consumed (at most SP_MARKS of them) */
static int sp_dec(struct uspec u, unsigned *bo, unsigned *wc, const unsigned char *s, size_t n)
{
    if (u.order != O_MARK)
        return sp_step(u, wc, s, n, u.order == O_LE);
    int w = sp_unit(u), k = 0;
    for (int i = 0; i < SP_MARKS; i++)
    {
        if (n - k < (size_t)w)
            return SP_TOOFEW(k);
        unsigned v = sp_word(s + k, w, *bo != 0);
        if (v == 0xfeff) k += w;
        else if (v == (w == 2 ? 0xfffeu : 0xfffe0000u)) { k += w; *bo = !*bo; }
        else break;
    }
    int r = n - k < (size_t)w ? SP_TOOFEW(0) : sp_step(u, wc, s + k, n - k, *bo != 0);
    return r >= 0 ? r + k : r - 2 * k;
}
/* encoding: number of bytes, -1 if not encodable; *started: whether the mark was written */
static int sp_enc(struct uspec u, unsigned *started, unsigned wc, unsigned char *r)
{
    int n = 0;
    if (u.form == F_UTF8)
    {
        if (!sp_scalar(wc)) return -1;
        if (wc < 0x80) { r[0] = wc; return 1; }
        int len = wc < 0x800 ? 2 : wc < 0x10000 ? 3 : 4;
        for (int i = 3; i > 0; i--)
            if (i < len) { r[i] = 0x80 | (wc & 0x3f); wc >>= 6; }
        r[0] = (unsigned char)(0xf00 >> len) | wc;
        return len;
    }
    if (u.form == F_C99 || u.form == F_JAVA)
    {
        if (wc < (u.form == F_C99 ? 0xa0u : 0x80u)) { r[0] = wc; return 1; }
        if (wc >= 0xd800 && wc <= 0xdfff) return -1;
        if (u.form == F_JAVA && wc > 0x10ffff) return -1;
        unsigned part[2] = {wc, 0};
        int parts = 1, d = 4;
        if (wc > 0xffff)
        {
            if (u.form == F_C99) d = 8;
            else { parts = 2; part[0] = 0xd800 + (wc - 0x10000) / 0x400; part[1] = 0xdc00 + (wc - 0x10000) % 0x400; }
        }
        for (int p = 0; p < 2; p++)
            if (p < parts)
            {
                r[n++] = '\\';
                r[n++] = d == 8 ? 'U' : 'u';
                for (int i = 7; i >= 0; i--)
                    if (i < d)
                    {
                        unsigned h = part[p] >> 4 * i & 15;
                        r[n++] = h < 10 ? '0' + h : 'a' + h - 10;
                    }
            }
        return n;
    }
    unsigned unit[2] = {wc, 0};
    int units = 1, w = sp_unit(u);
    switch (u.form)
    {
    case F_UCS2: if (wc > 0xffff || (wc >= 0xd800 && wc <= 0xdfff)) return -1; break;
    case F_UTF16:
        if (!sp_scalar(wc)) return -1;
        if (wc > 0xffff) { units = 2; unit[0] = 0xd800 + (wc - 0x10000) / 0x400; unit[1] = 0xdc00 + (wc - 0x10000) % 0x400; }
        break;
    case F_UTF32: if (!sp_scalar(wc)) return -1; break;
    case F_UCS4: if (wc > 0x7fffffff) return -1; break;
    }
    if (u.order == O_MARK && w == 2 && wc == 0xfffe) return -1; /* would read as a swapped mark */
    if (u.order == O_MARK && (u.form == F_UTF16 || u.form == F_UTF32) && !*started)
    {
        for (int i = 0; i < 4; i++)
            if (i < w) r[n++] = i == w - 2 ? 0xfe : i == w - 1 ? 0xff : 0;
        *started = 1;
    }
    for (int p = 0; p < 2; p++)
        if (p < units)
            for (int i = 0; i < 4; i++)
                if (i < w)
                    r[n++] = unit[p] >> 8 * (u.order == O_LE ? i : w - 1 - i);
    return n;
}
