/* Runtime-monitoring harness for OIFITSlib: shared declarations. */
#ifndef MON_H
#define MON_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <complex.h>
#undef I
#include <time.h>
#include <glib.h>
#include "exchange.h"
#include "oifile.h"
#include "oifilter.h"
#include "oiiter.h"
#include "oimerge.h"
#include "oicheck.h"
#include "datemjd.h"

/* ---------- random numbers ---------- */
typedef struct { uint64_t s[4]; } Rng;
void rng_seed(Rng *r, uint64_t a, uint64_t b, uint64_t c);
uint64_t rnd(Rng *r);
int ri(Rng *r, int lo, int hi);          /* inclusive */
double ru(Rng *r);                       /* [0,1) */
bool chance(Rng *r, double p);

/* ---------- case bookkeeping ---------- */
extern uint64_t g_seed;
extern long g_case;
extern const char *g_prop;
extern const char *g_scratch;            /* scratch directory of this worker */
extern const char *g_bindir;             /* directory of instrumented utilities */
extern int g_thorough;
void stage(const char *fmt, ...) G_GNUC_PRINTF(1, 2); /* what is being done now */
void fail(const char *key, const char *fmt, ...) G_GNUC_PRINTF(2, 3);
void cov(const char *fmt, ...) G_GNUC_PRINTF(1, 2);   /* feature seen */
void ev(const char *name, long n);                    /* event counter */
void sample(const char *fmt, ...) G_GNUC_PRINTF(1, 2);
void digest_out(const char *name, uint64_t v);        /* for cross-run comparison */
int case_fails(void);
char *oddpath(Rng *r, const char *name);
char *spath(const char *name);           /* scratch path; static ring buffer */
void scratch_clean(void);

/* ---------- output capture ---------- */
void cap_begin(void);                    /* divert fd 1 and 2 to files */
void cap_end(GString *out, GString *err);
void cap_off(void);
bool slurp(const char *path, GByteArray *b);
bool spew(const char *path, const void *p, size_t n);

/* ---------- table descriptions ---------- */
enum { K_TARGET, K_ARRAY, K_WAVE, K_CORR, K_INSPOL, K_VIS, K_VIS2, K_T3, K_FLUX, NK };
typedef enum { T_INT, T_FLT, T_DBL, T_STR, T_CHR, T_BOOL, T_CPX } FT;
enum { KW_MAND = 0, KW_OPT = 1, KW_V2 = 2, KW_UNIT = 4, KW_REVN = 8 };
typedef struct { const char *name; FT t; size_t off; int flags; } Kw;
enum { L_W = -1, L_WW = -2 };            /* pointer to nwave / nwave^2 items */
enum { CD_ALWAYS, CD_V2, CD_CORR, CD_MAP, CD_CPX, CD_CPXCORR, CD_CAT, CD_ARR };
typedef struct {
  const char *name; FT t; size_t off; int len; /* >0 inline, L_W, L_WW */
  int strmax;            /* T_STR: capacity excluding NUL */
  int cond; bool istime;
  const char *tform;     /* v2 format letter(s): e.g. "D", "I", "16A" */
  const char *unit;      /* "" none; "@amp","@cpx","@flux" from table */
} Col;
typedef struct {
  const char *ext; size_t size, recsize, off_rec, off_n, off_nw;
  bool n_long, columnar; int v1rev, v2rev;
  const Kw *kw; int nkw; const Col *col; int ncol;
} Desc;
extern const Desc DESC[NK];
GList **listp(oi_fits *o, int k);
int *nump(oi_fits *o, int k);
long tab_rows(int k, const void *t);
int tab_nwave(int k, const void *t);
void tab_set_rows(int k, void *t, long n);
bool col_used(int k, const void *t, const Col *c);
long col_n(int k, const void *t, const Col *c);          /* items per row */
void *cell(int k, const void *t, const Col *c, long row); /* address of items */
size_t ft_size(FT t);
const char *tab_str(int k, const void *t, const char *kwname); /* ARRNAME etc, or "" */
char *tab_strp(int k, void *t, const char *kwname);
int tab_revn(int k, const void *t);
void tab_set_revn(int k, void *t, int r);
void *tab_at(const oi_fits *o, int k, int i);
int tab_count(const oi_fits *o, int k);

/* ---------- generic dataset operations (independent of the library) ---------- */
enum { IGN_DATE = 1, IGN_REVN = 2, IGN_TIME = 4, NORM_FLAGS = 8, IGN_NAMES = 16,
       IGN_TID = 32, IGN_HEADER = 64, RSTRIP = 128, IGN_UNITS1 = 256 };
bool cmp_tab(int k, const void *a, const void *b, int flags, GString *why);
bool cmp_header(const oi_header *a, const oi_header *b, int flags, GString *why);
bool cmp_oi(const oi_fits *a, const oi_fits *b, int flags, GString *why);
uint64_t dig_tab(int k, const void *t, bool ptrs);
uint64_t dig_oi(const oi_fits *o, bool ptrs);  /* ptrs: include addresses */
void *sub_tab(int k, const void *t, const long *rows, long nrows, const int *ch, int nch);
void *copy_tab(int k, const void *t);
void copy_oi(const oi_fits *src, oi_fits *dst);
void free_tab(int k, void *t, bool self);
void free_oi(oi_fits *o);
void rehash(oi_fits *o);
void add_tab(oi_fits *o, int k, void *t);
void collect_ptrs(const oi_fits *o, GHashTable *set, const char *what);
void describe(const oi_fits *o, GString *s);
void cov_oi(const oi_fits *o);
int nvalues(const oi_fits *o);
uint64_t fnv(uint64_t h, const void *p, size_t n);
#define FNV0 1469598103934665603ULL

extern time_t g_clock;
/* ---------- generator ---------- */
typedef struct {
  int ver;               /* 1 or 2 */
  int maxtab;            /* max data tables per kind */
  int maxrec, maxwave;
  bool special;          /* NaN, Inf, extreme values */
  bool longstr;          /* strings at their limits */
  bool smallpool;        /* names from a small pool (merge clashes) */
  bool unused;           /* unreferenced ARRAY/WAVE/CORR tables */
  bool wildflags;        /* non 0/1 truth values */
  bool conform;          /* passes every check */
  bool nozero;           /* no table kind missing */
  bool physical;         /* moderate values, useful for filters */
  int ntarget;           /* 0: random */
  bool noinspol;
  bool norows;           /* data, polarisation and correlation tables may have no records */
  bool v2time;           /* TIME need not be zero in version 2 tables (in memory only) */
  bool undef;            /* undefined (NaN) coordinates and bands */
  bool tricky;           /* names that differ little, also across kinds */
  int nwv, narr, ncor, npol, maxelem, maxcorr; /* most tables, stations and correlations; 0: a few */
  bool asciiplain;       /* plain alnum strings */
  bool nomap;            /* no VISREFMAP */
} GenOpt;
GenOpt gen_opt(Rng *r);
void gen_oi(Rng *r, const GenOpt *g, oi_fits *o);
void gen_str(Rng *r, char *dst, int max, int minlen, const GenOpt *g, bool kw);
void gen_filter(Rng *r, const oi_fits *o, oi_filter_spec *f);
void gen_pattern(Rng *r, const char *name, char *dst);
extern const char *const TXT_CORR_FLUX;

/* ---------- independent FITS encoder / decoder ---------- */
typedef struct {
  bool shuffle_hdu, shuffle_col, shuffle_kw, casemix, extracol, extrakw, foreign,
      numvar, checksum, padwide, longtarget, blankname, tdimoff, hostile, oddver;
  int ver;
} EncOpt;
typedef struct {           /* what was laid out, in file order */
  int kind;                /* K_* or -1 for foreign */
  void *tab; size_t off, dataoff, end;
} HduInfo;
EncOpt enc_opt(Rng *r, int ver);
GByteArray *enc_fits(Rng *r, oi_fits *o, const EncOpt *e, GArray *layout); /* o is adjusted to what a reader must return */
GByteArray *enc_table(Rng *r, int k, void *t, int extver, const EncOpt *e);
GByteArray *enc_primary(Rng *r, const oi_fits *o, const EncOpt *e);
GByteArray *enc_foreign(Rng *r, int variant, int checksum);
void enc_checksums(uint8_t *hdu, size_t hdrlen, size_t total);
uint32_t fits_sum32(const uint8_t *p, size_t n, uint32_t sum);

typedef struct { char key[9]; char raw[81]; char sval[80]; int type; /* 'S','N','L','C',0 */ double dval; long long ival; } Card;
typedef struct {
  size_t off, dataoff, datalen, end; GArray *cards; bool primary;
  char xtension[20], extname[80]; int extver; bool has_extver;
  long naxis1, naxis2; int tfields;
  struct { char name[80], tform[40], unit[80], tdim[80]; bool has_unit; char letter; long rep; long off; long bytes; } *col;
} Hdu;
typedef struct { GByteArray *b; GPtrArray *hdu; } Fits;
Fits *dec_fits(GByteArray *b, GString *why);  /* NULL when malformed */
void dec_free(Fits *f);
const Card *hdu_card(const Hdu *h, const char *key);
int hdu_col(const Hdu *h, const char *name);
bool hdu_sums_ok(const Fits *f, const Hdu *h, bool *present, bool *dataok, bool *hduok);
bool conform_table(Fits *f, Hdu *h, int k, void *t, int extver, GString *why);
bool conform_oifits2(Fits *f, const oi_fits *o, GString *why);

/* ---------- reference models ---------- */
extern GPtrArray *g_warn;                /* GLib warnings are added to it unless NULL */
extern GPtrArray *g_model_warn;          /* warnings a filter must give, likewise */
void model_filter(const oi_fits *in, const oi_filter_spec *f, oi_fits *out);
typedef struct { int extver; long irec; int iwave; } Visit;
GArray *model_iter(const oi_fits *in, int k, const oi_filter_spec *f); /* Visit */
typedef struct { int level; int n; GPtrArray *loc; } ChkModel;
enum { NCHECK = 14 };
extern const char *const CHECK_NAME[NCHECK];
extern const check_func CHECK_FN[NCHECK];
ChkModel model_check(const oi_fits *o, int which);
oi_wavelength *wave_named(const oi_fits *o, const char *n);
oi_array *array_named(const oi_fits *o, const char *n);
oi_corr *corr_named(const oi_fits *o, const char *n);
char *flags_of(int k, const void *t, long i);
int *tid_of(int k, void *t, long i);
bool target_known(const oi_fits *o, int id);
bool kind_on(int k, const oi_filter_spec *f);
bool globm(const char *p, const char *s);
bool refs_ok(const oi_fits *o, bool strict, GString *why);

/* ---------- properties ---------- */
typedef void (*case_fn)(Rng *r);
typedef struct { const char *id; case_fn fn; } PropEntry;
extern const PropEntry PROPS[];
void c01(Rng *), c02(Rng *), c03(Rng *), c04(Rng *), c05(Rng *), c06(Rng *), c07(Rng *), c08(Rng *), c09(Rng *), c10(Rng *), c11(Rng *), c12(Rng *), c13(Rng *), c14(Rng *),
    c15(Rng *), c16(Rng *), c17(Rng *), c18(Rng *), c19(Rng *), c20(Rng *), c21(Rng *), c22(Rng *), c23(Rng *), c24(Rng *), c25(Rng *), c26(Rng *), c28(Rng *), c29(Rng *), c30(Rng *), c31(Rng *);
/* shared helpers (props_io.c) */
int do_read(Rng *r, const char *path, oi_fits *o);     /* read into a struct of random bytes; checks ret==status */
void judge_report(const char *name, int st, bool hush, bool eof_ok, GString *err); /* what a call reported to stderr */
int do_write(const char *path, const oi_fits *o);      /* write; checks ret==status and that o is unchanged */
void expect_v1_header(oi_fits *o);                     /* fill in the header a v1 reader must supply */
void pending_errors(const char *what);                 /* no CFITSIO message left pending */
void *read_next(int k, fitsfile *f, int *status);      /* read_next_oi_* into a fresh heap struct, or NULL */
void lib_free_tab(int k, void *t);                     /* free_oi_* and the struct */
void junk_bytes(Rng *r, void *p, size_t n);
void do_filter(Rng *r, const oi_fits *in, oi_filter_spec *f, oi_fits *out);
void missing_name(Rng *r, char *name, const char *word);
void filter_case(Rng *r, GenOpt *g, oi_fits *o, oi_filter_spec *f);
void roughen(Rng *r, oi_fits *o);
void expect_summary(const oi_fits *o, GString *s);
void filter_defaults(oi_filter_spec *w);
void exercise(Rng *r, oi_fits *o, const char *pfx);    /* every operation on a dataset; digests of the results */
void mutate_file(Rng *r, GByteArray *b, GString *log); /* hostile changes to a file */
void odd_dataset(Rng *r, oi_fits *o);
void table_level(Rng *r, const char *p);
void *dup_tab(int k, const void *t);
int parse_options(char **argv, int argc);
extern GHashTable *g_sink;               /* when set, digests are collected here */
extern uint64_t g_salt;                  /* varies what junk_bytes writes */
bool leak_check(void);                   /* true when new leaks were found */
#endif
