/* C29: running out of memory. */
#define _GNU_SOURCE
#include "mon.h"
#include <fitsio.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>

/* ---------- every allocation made by the library goes through these (linker option --wrap); GLib and CFITSIO keep their own ---------- */
void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t);
static volatile int armed; static long seen, fail_at; static bool hit;
static bool deny(void) { if (!armed) return false; if (++seen != fail_at) return false; hit = true; errno = ENOMEM; return true; }
void *__wrap_malloc(size_t n) { return deny() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return deny() ? NULL : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return deny() ? NULL : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = deny() ? NULL : __real_malloc(n); if (p) memcpy(p, s, n); return p; }

typedef struct { int op; oi_fits a, b; oi_filter_spec f; char path[700], out[700]; int k, nrow, nw, order; uint64_t junk; } Job;
static const char *const OP[] = {"read", "filter", "merge", "write", "checks", "iterate and count", "copy tables", "allocate tables", "header and upgrades", "user filter", "read tables one by one"};
enum { NOP = G_N_ELEMENTS(OP) };
static uint64_t file_dig(const char *p) { GByteArray *b = g_byte_array_new(); slurp(p, b); uint64_t h = fnv(FNV0, b->data, b->len); g_byte_array_free(b, TRUE); return h; }
/* one operation of the library; 0: an error was reported; otherwise a digest of its result */
static uint64_t run(Job *j)
{
  uint64_t h = FNV0; Rng rr, *r = &rr; rng_seed(r, j->junk, 29, g_case); oi_fits q; junk_bytes(r, &q, sizeof q); int st = 0;
#define LIB(x) do { armed = 1; x; armed = 0; } while (0)
  switch (j->op)
  {
  case 0: LIB(read_oi_fits(j->path, &q, &st)); if (st) { fits_clear_errmsg(); return 0; } memset(q.header.date, 0, sizeof q.header.date); h = dig_oi(&q, false); free_oi_fits(&q); break;
  case 1: LIB(apply_oi_filter(&j->a, &j->f, &q)); h = dig_oi(&q, false); free_oi_fits(&q); break;
  case 2: LIB(if (j->order) merge_oi_fits(&q, &j->a, &j->b, NULL); else merge_oi_fits(&q, &j->a, &j->b, &j->a, NULL)); h = dig_oi(&q, false); free_oi_fits(&q); break;
  case 3: unlink(j->out); LIB(write_oi_fits(j->out, j->a, &st)); if (st) { fits_clear_errmsg(); return 0; } h = file_dig(j->out); break;
  case 4: for (int c = 0; c < NCHECK; c++) { oi_check_result res; junk_bytes(r, &res, sizeof res); int l; const char *s; LIB(l = CHECK_FN[c](&j->a, &res)); LIB(s = format_check_result(&res)); h = h * 31 + l; if (s) h = fnv(h, s, strlen(s)); LIB(free_check_result(&res)); } break;
  case 5: { long n[3]; const char *s; LIB(s = format_oi_fits_summary(&j->a)); if (s) h = fnv(h, s, strlen(s)); LIB(count_oi_fits_data(&j->a, &n[0], &n[1], &n[2])); h = fnv(h, n, sizeof n); oi_vis_iter it; oi_vis_record *rec; oi_vis *t; long i; int e, w; LIB(oi_vis_iter_init(&it, &j->a, &j->f)); bool more; for (int c = 0; c < 1000; c++) { LIB(more = oi_vis_iter_next(&it, &e, &t, &i, &rec, &w)); if (!more) break; h = h * 31 + e + i * 3 + w * 7; } break; }
  case 6: for (int k = 0; k < NK; k++) for (int i = 0, n = tab_count(&j->a, k); i < n; i++) { void *t; LIB(t = dup_tab(k, tab_at(&j->a, k, i))); h = h * 31 + dig_tab(k, t, false); lib_free_tab(k, t); } break;
  case 7:
  {
    int k = j->k; char *t = __real_calloc(1, DESC[k].size);
    switch (k) { case K_TARGET: LIB(alloc_oi_target((void *)t, j->nrow)); break; case K_ARRAY: LIB(alloc_oi_array((void *)t, j->nrow)); break; case K_WAVE: LIB(alloc_oi_wavelength((void *)t, j->nrow)); break; case K_CORR: LIB(alloc_oi_corr((void *)t, j->nrow)); break; case K_INSPOL: LIB(alloc_oi_inspol((void *)t, j->nrow, j->nw)); break; case K_VIS: LIB(alloc_oi_vis((void *)t, j->nrow, j->nw)); break; case K_VIS2: LIB(alloc_oi_vis2((void *)t, j->nrow, j->nw)); break; case K_T3: LIB(alloc_oi_t3((void *)t, j->nrow, j->nw)); break; default: LIB(alloc_oi_flux((void *)t, j->nrow, j->nw)); }
    const Desc *d = &DESC[k]; h = h * 31 + tab_rows(k, t); /* all its cells can be used */
    for (int c = 0; c < d->ncol; c++) { const Col *q = &d->col[c]; if (!col_used(k, t, q)) continue; for (long i = 0, n = tab_rows(k, t); i < n; i++) memset(cell(k, t, q, i), 0x11, q->t == T_STR ? q->strmax : ft_size(q->t) * (d->columnar ? 1 : col_n(k, t, q))); }
    lib_free_tab(k, t); break;
  }
  case 8: copy_oi(&j->a, &q); rehash(&q); LIB(set_oi_header(&q)); for (int k = 0; k < NK; k++) for (int i = 0, m = tab_count(&q, k); i < m; i++) { void *t = tab_at(&q, k, i); armed = 1; switch (k) { case K_TARGET: upgrade_oi_target(t); break; case K_ARRAY: upgrade_oi_array(t); break; case K_WAVE: upgrade_oi_wavelength(t); break; case K_VIS: upgrade_oi_vis(t); break; case K_VIS2: upgrade_oi_vis2(t); break; case K_T3: upgrade_oi_t3(t); break; } armed = 0; } h = dig_oi(&q, false); free_oi(&q); break;
  case 9: { char *av[] = {"prog", "--arrname=*", "--wave-max=2000", "--snr-min=0"}; parse_options(av, 4); LIB(apply_user_oi_filter(&j->a, &q)); h = dig_oi(&q, false); free_oi_fits(&q); break; }
  case 10:
  {
    fitsfile *f = NULL; int s = 0; fits_open_file(&f, j->path, READONLY, &s); if (s) { fits_clear_errmsg(); return 0; } char t[sizeof(oi_vis) + sizeof(oi_t3) + sizeof(oi_target) + sizeof(oi_array) + sizeof(oi_inspol)]; LIB(read_oi_target(f, (oi_target *)t, &st)); if (!st) { h = h * 31 + dig_tab(K_TARGET, t, false); free_oi_target((oi_target *)t); } bool err = st != 0;
    for (int k = K_ARRAY; k < NK; k++) { s = 0; fits_movabs_hdu(f, 1, NULL, &s); for (int n = 0; n < 3; n++) { st = 0; int *p = &st; armed = 1; switch (k) { case K_ARRAY: read_next_oi_array(f, (void *)t, p); break; case K_WAVE: read_next_oi_wavelength(f, (void *)t, p); break; case K_CORR: read_next_oi_corr(f, (void *)t, p); break; case K_INSPOL: read_next_oi_inspol(f, (void *)t, p); break; case K_VIS: read_next_oi_vis(f, (void *)t, p); break; case K_VIS2: read_next_oi_vis2(f, (void *)t, p); break; case K_T3: read_next_oi_t3(f, (void *)t, p); break; default: read_next_oi_flux(f, (void *)t, p); } armed = 0;
        if (st) { if (st != END_OF_FILE) err = true; fits_clear_errmsg(); break; } h = h * 31 + dig_tab(k, t, false); switch (k) { case K_ARRAY: free_oi_array((void *)t); break; case K_WAVE: free_oi_wavelength((void *)t); break; case K_CORR: free_oi_corr((void *)t); break; case K_INSPOL: free_oi_inspol((void *)t); break; case K_VIS: free_oi_vis((void *)t); break; case K_VIS2: free_oi_vis2((void *)t); break; case K_T3: free_oi_t3((void *)t); break; default: free_oi_flux((void *)t); } } }
    s = 0; fits_close_file(f, &s); fits_clear_errmsg(); if (err) return 0; break;
  }
  }
  return h ? h : 1;
}
static void on_abort(int s) { (void)s; _exit(90); }
void c29(Rng *r)
{
  Job *j = g_new0(Job, 1); GenOpt g = gen_opt(r); g.maxtab = MIN(g.maxtab, 2); if (g.maxwave > 12) g.maxwave = 12; if (g.maxrec > 12) g.maxrec = 12; g.norows = chance(r, 0.2); g.smallpool = chance(r, 0.5); if (chance(r, 0.2)) g.ver = 1; gen_oi(r, &g, &j->a); gen_oi(r, &g, &j->b); j->op = ri(r, 0, NOP - 1); j->junk = rnd(r);
  gen_filter(r, &j->a, &j->f); if (chance(r, 0.6)) { init_oi_filter(&j->f); if (chance(r, 0.7)) j->f.mjd_range[1] = 55000 + 3000 * ru(r); if (chance(r, 0.7)) j->f.wave_range[0] = 1e-6 * (0.5 + ru(r)); } j->k = ri(r, 0, NK - 1); j->nrow = ri(r, 1, 5); j->nw = ri(r, 1, 5); j->order = chance(r, 0.5);
  g_strlcpy(j->path, spath("i.fits"), sizeof j->path); g_strlcpy(j->out, spath("o.fits"), sizeof j->out);
  if (j->op == 0 || j->op == 10) { oi_fits c; copy_oi(&j->a, &c); EncOpt e = enc_opt(r, g.ver == 1 ? 1 : 2); GByteArray *b = enc_fits(r, &c, &e, NULL); spew(j->path, b->data, b->len); g_byte_array_free(b, TRUE); free_oi(&c); }
  stage("%s with enough memory", OP[j->op]); seen = fail_at = 0; cap_begin(); uint64_t want = run(j); cap_end(NULL, NULL); long total = seen; cov("%s, %s allocations", OP[j->op], total == 0 ? "no" : total < 10 ? "few" : total < 100 ? "tens of" : "hundreds of"); ev("allocations_seen", total); sample("%s: %ld allocations", OP[j->op], total);
  uint64_t d0 = dig_oi(&j->a, true);
  for (int x = 0; x < 5 && x < total; x++)
  {
    long at = total <= 5 ? x + 1 : ri(r, 1, total); stage("%s, allocation %ld of %ld fails", OP[j->op], at, total); char ep[700]; g_strlcpy(ep, spath("err"), sizeof ep); fflush(NULL);
    pid_t pid = fork(); if (pid < 0) { fprintf(stderr, "fork failed\n"); _exit(3); }
    if (!pid)
    {
      signal(SIGABRT, on_abort); alarm(60); int fd = open(ep, O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 1); dup2(fd, 2); fail_at = at; seen = 0; hit = false;
      uint64_t got = run(j); fflush(stdout); int rc = !hit ? 93 : got == 0 ? 94 : got == want ? 95 : 92; if (dig_oi(&j->a, true) != d0 && j->op != 8) rc = 96; _exit(rc);
    }
    int ws = 0; while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) ;
    GByteArray *eb = g_byte_array_new(); slurp(ep, eb); g_byte_array_append(eb, (guint8 *)"", 1); char *txt = (char *)eb->data; int rc = WIFEXITED(ws) ? WEXITSTATUS(ws) : 1000 + WTERMSIG(ws); ev("failures_injected", 1); cov("%s ends %d", OP[j->op], rc);
    char sl[900]; snprintf(sl, sizeof sl, "%s.%d", getenv("OIMON_SANLOG") ? getenv("OIMON_SANLOG") : "/nonexistent/x", (int)pid); GByteArray *sb = g_byte_array_new(); if (access(sl, R_OK) == 0) { slurp(sl, sb); unlink(sl); } g_byte_array_append(sb, (guint8 *)"", 1); char key[80];
    if (rc == 90) { char *low = g_ascii_strdown(txt, -1); if (!strstr(low, "alloc") && !strstr(low, "memory")) fail("silent-abort", "%s: when allocation %ld of %ld fails the program ends without naming the cause: '%.200s'", OP[j->op], at, total, txt); else ev("ended_with_message", 1); g_free(low); }
    else if (rc == 94) ev("reported_as_error", 1); else if (rc == 95) ev("same_result_anyway", 1); else if (rc == 93) ev("allocation_not_reached", 1);
    else if (rc == 92) fail("damaged-result", "%s: when allocation %ld of %ld fails the result differs and no error is reported", OP[j->op], at, total);
    else if (rc == 96) fail("input-damaged", "%s: when allocation %ld of %ld fails the input is changed", OP[j->op], at, total);
    else { char *w = strstr((char *)sb->data, "ERROR: AddressSanitizer"); char *fn = NULL; for (char *q = w ? w : (char *)sb->data; (q = strstr(q, " in ")); q += 4) { char *nl = strchr(q, '\n'); char *lib = strstr(q, "/src/oifitslib/"); if (lib && (!nl || lib < nl)) { fn = g_strndup(q + 4, strcspn(q + 4, " ")); break; } } snprintf(key, sizeof key, "crash@%.50s", fn ? fn : OP[j->op]); fail(key, "%s: when allocation %ld of %ld fails the program crashes (%d): %.300s", OP[j->op], at, total, rc, w ? w : txt); g_free(fn); }
    g_byte_array_free(eb, TRUE); g_byte_array_free(sb, TRUE); unlink(ep);
  }
  unlink(j->path); unlink(j->out); free_oi(&j->a); free_oi(&j->b); g_free(j);
}
