/* Case loop, bookkeeping, capture. */
#define _GNU_SOURCE
#include "mon.h"
#include <time.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <dirent.h>

uint64_t g_seed = 1; long g_case; const char *g_prop = ""; const char *g_scratch = "/tmp";
const char *g_bindir = ""; int g_thorough;
static FILE *g_out;                      /* JSON lines */
static GHashTable *g_cov, *g_ev;
static int g_fails, g_nsample;
typedef struct { volatile long cas; volatile int done; char stage[1024]; } Prog;
static Prog *g_prog;

static uint64_t splitmix(uint64_t *x) { uint64_t z = (*x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
void rng_seed(Rng *r, uint64_t a, uint64_t b, uint64_t c)
{ uint64_t x = a * 0x9e3779b97f4a7c15ULL ^ b * 0xc2b2ae3d27d4eb4fULL ^ (c + 0x165667b19e3779f9ULL) * 0xff51afd7ed558ccdULL; for (int i = 0; i < 4; i++) r->s[i] = splitmix(&x); }
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t rnd(Rng *r)
{ uint64_t *s = r->s, res = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return res; }
int ri(Rng *r, int lo, int hi) { if (hi <= lo) return lo; return lo + (int)(rnd(r) % ((uint64_t)hi - lo + 1)); }
double ru(Rng *r) { return (rnd(r) >> 11) * (1.0 / 9007199254740992.0); }
bool chance(Rng *r, double p) { return ru(r) < p; }

static void jstr(FILE *f, const char *s)
{ fputc('"', f); for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }
void stage(const char *fmt, ...) { if (!g_prog) return; va_list ap; va_start(ap, fmt); vsnprintf(g_prog->stage, sizeof g_prog->stage, fmt, ap); va_end(ap); }
void fail(const char *key, const char *fmt, ...)
{
  char buf[3000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (g_fails++ >= 8) return;
  fprintf(g_out, "{\"t\":\"fail\",\"case\":%ld,\"key\":", g_case); jstr(g_out, key); fprintf(g_out, ",\"msg\":"); jstr(g_out, buf); fprintf(g_out, "}\n"); fflush(g_out);
}
int case_fails(void) { return g_fails; }
void cov(const char *fmt, ...)
{ char buf[400]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); long n = GPOINTER_TO_SIZE(g_hash_table_lookup(g_cov, buf)); g_hash_table_insert(g_cov, g_strdup(buf), GSIZE_TO_POINTER(n + 1)); }
void ev(const char *name, long n) { long o = GPOINTER_TO_SIZE(g_hash_table_lookup(g_ev, name)); g_hash_table_insert(g_ev, g_strdup(name), GSIZE_TO_POINTER(o + n)); }
void sample(const char *fmt, ...)
{ if (g_nsample++ >= 2) return; char buf[1500]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); fprintf(g_out, "{\"t\":\"sample\",\"case\":%ld,\"msg\":", g_case); jstr(g_out, buf); fprintf(g_out, "}\n"); }
GHashTable *g_sink;
void digest_out(const char *name, uint64_t v) { if (g_sink) { uint64_t o = GPOINTER_TO_SIZE(g_hash_table_lookup(g_sink, name)); g_hash_table_insert(g_sink, g_strdup(name), GSIZE_TO_POINTER(o * 1099511628211ULL + v + 1)); return; } fprintf(g_out, "{\"t\":\"dig\",\"case\":%ld,\"name\":", g_case); jstr(g_out, name); fprintf(g_out, ",\"v\":\"%016llx\"}\n", (unsigned long long)v); }
char *spath(const char *name) { static char ring[16][600]; static int i; i = (i + 1) & 15; snprintf(ring[i], sizeof ring[i], "%s/%s", g_scratch, name); return ring[i]; }
/* a scratch path: mostly the given one, sometimes one with a long or unusual (but not special to CFITSIO) name */
char *oddpath(Rng *r, const char *name)
{
  if (!chance(r, 0.08)) return spath(name);
  char b[300]; int n = 0, want = chance(r, 0.5) ? ri(r, 1, 20) : chance(r, 0.5) ? ri(r, 60, 90) : ri(r, 180, 235);
  for (; n < want; n++) b[n] = "abcXYZ019-_ .,~=@"[ri(r, 0, n && n < want - 1 ? 16 : 8)];
  snprintf(b + n, sizeof b - n, "_%s", name); cov("file name of %s characters", want < 30 ? "odd" : want < 100 ? "many" : "very many"); return spath(b);
}
void scratch_clean(void)
{
  DIR *d = opendir(g_scratch); if (!d) return; struct dirent *e;
  while ((e = readdir(d)))
  { if (e->d_name[0] == '.' || !strncmp(e->d_name, "cap.", 4) || !strncmp(e->d_name, "prog", 4)) continue; char p[1200]; snprintf(p, sizeof p, "%s/%s", g_scratch, e->d_name); if (unlink(p) != 0) rmdir(p); }
  closedir(d);
}
/* ----- capture ----- */
static int sv1 = -1, sv2 = -1, cf1 = -1, cf2 = -1;
void cap_begin(void)
{
  if (sv1 >= 0) return;
  fflush(stdout); fflush(stderr);
  if (cf1 < 0) { cf1 = open(spath("cap.out"), O_RDWR | O_CREAT | O_APPEND, 0600); cf2 = open(spath("cap.err"), O_RDWR | O_CREAT | O_APPEND, 0600); }
  if (ftruncate(cf1, 0) || ftruncate(cf2, 0)) abort();
  sv1 = dup(1); sv2 = dup(2); dup2(cf1, 1); dup2(cf2, 2);
}
static void rd(int fd, GString *s)
{ if (!s) return; g_string_truncate(s, 0); char b[65536]; ssize_t n; off_t o = 0; while ((n = pread(fd, b, sizeof b, o)) > 0) { g_string_append_len(s, b, n); o += n; if (o > 8000000) break; } }
void cap_end(GString *out, GString *err)
{ fflush(stdout); fflush(stderr); if (sv1 >= 0) { dup2(sv1, 1); dup2(sv2, 2); close(sv1); close(sv2); sv1 = sv2 = -1; } rd(cf1, out); rd(cf2, err); }
void cap_off(void) { if (sv1 >= 0) cap_end(NULL, NULL); }
bool slurp(const char *path, GByteArray *b)
{ FILE *f = fopen(path, "rb"); if (!f) return false; g_byte_array_set_size(b, 0); uint8_t buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) g_byte_array_append(b, buf, n); fclose(f); return true; }
bool spew(const char *path, const void *p, size_t n)
{ FILE *f = fopen(path, "wb"); if (!f) return false; bool ok = !n || fwrite(p, 1, n, f) == n; ok &= fclose(f) == 0; return ok; }

GPtrArray *g_warn; /* GLib warnings of the library, when wanted */
static void on_log(const gchar *dom, GLogLevelFlags lv, const gchar *msg, gpointer u)
{ (void)u;
  if (lv & (G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_ERROR)) fail("glib-critical", "GLib critical message: %s: %s (stage %s)", dom ? dom : "", msg ? msg : "", g_prog ? g_prog->stage : "");
  else if (lv & G_LOG_LEVEL_WARNING) { ev("glib_warnings", 1); if (g_warn) g_ptr_array_add(g_warn, g_strdup(msg)); }
}
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
bool leak_check(void) { return __lsan_do_recoverable_leak_check() != 0; }
const char *__asan_default_options(void);
#else
bool leak_check(void) { return false; }
#endif
/* The clock as CFITSIO sees it; fixed where results of different runs are compared. */
int g_hush_default;
time_t g_clock;
time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); time_t n = g_clock ? g_clock : ts.tv_sec; if (t) *t = n; return n; }
static void on_alarm(int s) { (void)s; static const char m[] = "MON-HANG: case exceeded its time limit\n"; if (write(2, m, sizeof m - 1)) {} abort(); }

/* What was observed so far, so that a later crash does not lose it. */
static void flush_counts(void)
{
  GHashTableIter hi; gpointer k, v;
  g_hash_table_iter_init(&hi, g_ev); while (g_hash_table_iter_next(&hi, &k, &v)) { fprintf(g_out, "{\"t\":\"ev\",\"k\":"); jstr(g_out, k); fprintf(g_out, ",\"n\":%ld}\n", (long)GPOINTER_TO_SIZE(v)); }
  g_hash_table_iter_init(&hi, g_cov); while (g_hash_table_iter_next(&hi, &k, &v)) { fprintf(g_out, "{\"t\":\"cov\",\"k\":"); jstr(g_out, k); fprintf(g_out, ",\"n\":%ld}\n", (long)GPOINTER_TO_SIZE(v)); }
  g_hash_table_remove_all(g_ev); g_hash_table_remove_all(g_cov); fflush(g_out);
}

int main(int argc, char **argv)
{
  long from = 0, to = 1, step = 1; const char *out = NULL, *prog = NULL; int secs = 60, since = 0; long rot = 0;
  for (int i = 1; i < argc; i++)
  {
    if (!strcmp(argv[i], "--seed")) g_seed = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--from")) from = atol(argv[++i]);
    else if (!strcmp(argv[i], "--to")) to = atol(argv[++i]);
    else if (!strcmp(argv[i], "--step")) step = atol(argv[++i]);
    else if (!strcmp(argv[i], "--scratch")) g_scratch = argv[++i];
    else if (!strcmp(argv[i], "--bindir")) g_bindir = argv[++i];
    else if (!strcmp(argv[i], "--out")) out = argv[++i];
    else if (!strcmp(argv[i], "--prog")) prog = argv[++i];
    else if (!strcmp(argv[i], "--rot")) rot = atol(argv[++i]);
    else if (!strcmp(argv[i], "--secs")) secs = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--thorough")) g_thorough = 1;
    else g_prop = argv[i];
  }
  case_fn fn = NULL;
  for (const PropEntry *p = PROPS; p->id; p++) if (!strcmp(p->id, g_prop)) fn = p->fn;
  if (!fn) { fprintf(stderr, "unknown property %s\n", g_prop); return 3; }
  g_out = out ? fopen(out, "a") : stdout; if (!g_out) return 3;
  if (g_out == stdout) g_out = fdopen(dup(1), "w");
  if (prog) { int fd = open(prog, O_RDWR | O_CREAT, 0600); if (fd < 0 || ftruncate(fd, sizeof(Prog))) return 3; g_prog = mmap(0, sizeof(Prog), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); }
  g_cov = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, NULL); g_ev = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, NULL);
  signal(SIGALRM, on_alarm); signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  g_log_set_default_handler(on_log, NULL);
  g_hush_default = oi_hush_errors; oi_hush_errors = 1;
  uint64_t ph = 0; for (const char *c = g_prop; *c; c++) ph = ph * 131 + *c;
  /* with --rot the worker takes a different case of every block of STEP, so that each case has a different history */
  for (long s = from; s < to; s += step)
  {
    long c = rot ? s - s % step + (s % step + rot * (s / step + 1)) % step : s; if (c >= to) continue;
    g_case = c; g_fails = 0; g_clock = 0; if (g_prog) { g_prog->cas = c; g_prog->stage[0] = 0; }
    Rng r; rng_seed(&r, g_seed, ph, c); g_nsample = c < 2 * step ? 0 : 2;
    struct itimerval it = {{0, 0}, {secs, 0}}; setitimer(ITIMER_REAL, &it, NULL);
    fn(&r);
    cap_off(); fits_clear_errmsg(); scratch_clean(); ev("cases", 1); fflush(g_out); if (++since >= 200) { flush_counts(); since = 0; }
  }
  struct itimerval z = {{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &z, NULL);
  flush_counts();
  fprintf(g_out, "{\"t\":\"end\"}\n"); fclose(g_out); if (g_prog) g_prog->done = 1;
  g_hash_table_destroy(g_ev); g_hash_table_destroy(g_cov);
  _exit(0);
}
