/* Ghost state of the conversion-loop contract; precedes the extracted text so that loop invariants can mention it. */
unsigned long nondet_ulong(void);
unsigned nondet_uint(void);
int nondet_int(void);
char *g_in0, *g_out0;              /* the caller's buffers */
unsigned long g_N, g_R;            /* their sizes */
char *g_ip, *g_op;                 /* specified: next byte to read, to write */
unsigned long g_left, g_room, g_cnt; /* specified: input left, room left, characters counted */
unsigned g_ist, g_bo, g_ost;       /* specified descriptor state */
char *h_ip, *h_op;                 /* the in/out arguments of the call */
unsigned long h_il, h_ol;
int h_errno, h_errno0;
int *__errno_location(void) { return &h_errno; }
void abort(void) { __CPROVER_assert(0, "L.abort: abort() is never reached"); __CPROVER_assume(0); }
void cut_establish(void);
void cut_havoc(void);
void cut_assume(void);
void cut_back(void);
