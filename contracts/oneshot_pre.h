/* Ghost state of the contracts of the one-shot functions; precedes the extracted text. */
unsigned long nondet_ulong(void);
unsigned nondet_uint(void);
int nondet_int(void);
unsigned char nondet_uchar(void);
char *g_in0, *g_out0;                 /* the caller's buffers */
unsigned long g_N, g_R;               /* their sizes */
char *g_ip, *g_op;                    /* specified: next byte to read, place of the next byte of the result */
unsigned long g_left, g_room, g_o;    /* specified: input left, room left, bytes of the result emitted so far */
int h_errno;
int *__errno_location(void) { return &h_errno; }
void abort(void) { __CPROVER_assert(0, "O.abort: abort() is never reached"); __CPROVER_assume(0); }
void cut_establish(void);
void cut_havoc(void);
void cut_assume(void);
void cut_back(void);
