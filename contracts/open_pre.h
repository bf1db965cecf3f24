/* Ghost state of the contracts of lookup and opening; precedes the extracted text. */
unsigned long nondet_ulong(void);
unsigned nondet_uint(void);
int nondet_int(void);
unsigned char nondet_uchar(void);
int h_errno;
int *__errno_location(void) { return &h_errno; }
void abort(void) { __CPROVER_assert(0, "N.abort: abort() is never reached"); __CPROVER_assume(0); }
#define ENSURES(c, id) __CPROVER_assert(c, id)
#define REACHED(id) __CPROVER_assert(0, "reach." id)
/* the string of the call: any length, any contents */
char *g_s;            /* its first byte */
unsigned long g_n;    /* its length */
unsigned long g_L;    /* the length of its canonical form: bytes other than - and _ */
char *g_cp;           /* specified: next byte to look at */
unsigned long g_k;    /* specified: length of the canonical form of what lies before */
char *g_bp, *g_o;     /* place of the next byte of the canonical form, output buffer */
char *g_end;          /* the terminating null */
void cut_establish(void);
void cut_havoc(void);
void cut_assume(void);
void cut_back(void);
