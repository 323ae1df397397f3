/* C23, C31: the command-line tools, run as separate (instrumented) processes. */
#define _GNU_SOURCE
#include "mon.h"
#include <fitsio.h>
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static GString *t_out, *t_err; static int t_rc; static const char *t_in; /* standard input of the tool, or NULL */
extern char **environ;
static int run_tool(const char *tool, GPtrArray *args)
{
  GPtrArray *av = g_ptr_array_new_with_free_func(g_free); g_ptr_array_add(av, g_strdup_printf("%s/%s", g_bindir, tool)); GString *cmd = g_string_new(tool); for (guint i = 0; i < args->len; i++) { g_ptr_array_add(av, g_strdup(args->pdata[i])); const char *b = strrchr(args->pdata[i], '/'); g_string_append_printf(cmd, " %s", b && b[1] ? b + 1 : (char *)args->pdata[i]); } g_ptr_array_add(av, NULL);
  GPtrArray *ep = g_ptr_array_new_with_free_func(g_free); for (char **e = environ; *e; e++) g_ptr_array_add(ep, !strncmp(*e, "ASAN_OPTIONS=", 13) || !strncmp(*e, "UBSAN_OPTIONS=", 14) ? g_strdup_printf("%s:log_path=stderr:handle_abort=1:exitcode=77", *e) : g_strdup(*e)); g_ptr_array_add(ep, NULL);
  char *o = spath("tool.out"), *e = spath("tool.err"); posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 1, o, O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addopen(&fa, 2, e, O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addopen(&fa, 0, t_in ? t_in : "/dev/null", O_RDONLY, 0);
  stage("%.900s", cmd->str); pid_t pid; int st = 0; if (posix_spawn(&pid, av->pdata[0], &fa, NULL, (char **)av->pdata, (char **)ep->pdata)) { fprintf(stderr, "cannot run %s\n", (char *)av->pdata[0]); abort(); } posix_spawn_file_actions_destroy(&fa);
  while (waitpid(pid, &st, 0) < 0) ; t_rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  GByteArray *b = g_byte_array_new(); if (!t_out) { t_out = g_string_new(NULL); t_err = g_string_new(NULL); } slurp(o, b); g_string_truncate(t_out, 0); g_string_append_len(t_out, (char *)b->data, b->len); g_byte_array_set_size(b, 0); slurp(e, b); g_string_truncate(t_err, 0); g_string_append_len(t_err, (char *)b->data, b->len); g_byte_array_free(b, TRUE); unlink(o); unlink(e);
  if (t_rc == 77 || t_rc >= 1000) { char key[60]; snprintf(key, sizeof key, "tool-crash:%s", tool); fail(key, "'%s' crashed (%d): %.900s", cmd->str, t_rc, t_err->str); }
  ev("tool_runs", 1); g_ptr_array_free(av, TRUE); g_ptr_array_free(ep, TRUE); sample("%s -> exit %d", cmd->str, t_rc); g_string_free(cmd, TRUE); return t_rc;
}
#define ARGS(...) mkargs((const char *[]){__VA_ARGS__, NULL})
static GPtrArray *mkargs(const char **a) { GPtrArray *p = g_ptr_array_new_with_free_func(g_free); for (; *a; a++) g_ptr_array_add(p, g_strdup(*a)); return p; }
static bool exists(const char *p) { struct stat s; return !stat(p, &s); }
static bool quiet_read(Rng *r, const char *p, oi_fits *o) { cap_begin(); int st = do_read(r, p, o); cap_end(NULL, NULL); fits_clear_errmsg(); return !st; }
static bool quiet_write(const char *p, const oi_fits *o) { int st = 0; unlink(p); stage("write"); cap_begin(); write_oi_fits(p, *o, &st); cap_end(NULL, NULL); fits_clear_errmsg(); return !st; }
/* an input file, written by the independent encoder or by the library */
static void make_input(Rng *r, const char *p, int ver, bool pool, bool conform)
{
  GenOpt g = gen_opt(r); g.ver = ver; g.smallpool = pool; g.conform = conform; g.maxtab = MIN(g.maxtab, 2); if (chance(r, 0.6)) g.physical = true; oi_fits o; gen_oi(r, &g, &o); if (!conform && chance(r, 0.4)) roughen(r, &o);
  if (ver == 1 || chance(r, 0.5) || !quiet_write(p, &o)) { EncOpt e = enc_opt(r, ver); GByteArray *f = enc_fits(r, &o, &e, NULL); unlink(p); spew(p, f->data, f->len); g_byte_array_free(f, TRUE); } free_oi(&o);
}
static void make_bad(Rng *r, const char *p) /* absent, empty, not FITS, truncated in a mandatory part */
{
  unlink(p); char b[4000]; switch (ri(r, 0, 3)) { case 0: cov("input absent"); break; case 1: spew(p, "", 0); cov("input empty"); break; case 2: memset(b, 'q', sizeof b); spew(p, b, sizeof b); cov("input not FITS"); break; default: { make_input(r, p, 2, false, false); GByteArray *f = g_byte_array_new(); slurp(p, f); spew(p, f->data, ri(r, 1, 2879)); g_byte_array_free(f, TRUE); cov("input truncated"); } }
}
static void same_dataset(Rng *r, const char *p, const oi_fits *want, const char *what) /* file p holds what 'want' would after being written */
{
  char *q = spath("want.fits"); oi_fits a, b; bool okw = quiet_write(q, want); if (!okw) return; bool oka = quiet_read(r, q, &a), okb = quiet_read(r, p, &b); GString *why = g_string_new(NULL);
  if (!oka) { if (okb) free_oi_fits(&b); } else if (!okb) { fail("output-unreadable", "%s: the output cannot be read", what); free_oi_fits(&a); } else { if (!cmp_oi(&a, &b, IGN_DATE, why)) { char key[60]; snprintf(key, sizeof key, "output-differs:%s", what); fail(key, "%s: output differs from what was asked for: %s", what, why->str); } ev("outputs_compared", 1); if (is_oi_fits_two(&b) != 1) fail("output-version", "%s: output is not OIFITS2", what); free_oi_fits(&a); free_oi_fits(&b); }
  g_string_free(why, TRUE); unlink(q);
}
static uint64_t bytes_of(const char *p) { GByteArray *b = g_byte_array_new(); uint64_t h = slurp(p, b) ? fnv(FNV0, b->data, b->len) : 1; g_byte_array_free(b, TRUE); return h; }
static void must_fail(const char *tool, const char *why, const char *out, bool had, uint64_t h)
{
  if (t_rc == 0) { char key[80]; snprintf(key, sizeof key, "success-reported:%s", tool); fail(key, "%s exits 0 although %s", tool, why); }
  if (out && !had && exists(out)) fail("output-created", "%s left an output file although %s", tool, why);
  if (out && had && (!exists(out) || bytes_of(out) != h)) { char key[80]; snprintf(key, sizeof key, "existing-changed:%s", tool); fail(key, "%s changed or removed an existing file although %s", tool, why); }
  ev("failures_reported", 1); cov("%s refuses: %s", tool, why);
}
static void old_file(Rng *r, const char *p) { if (chance(r, 0.5)) spew(p, "precious", 8); else make_input(r, p, 2, false, false); }
static void want_text(const char *tool, const char *what, const char *txt) { if (*txt && !strstr(t_out->str, txt)) { char key[80]; snprintf(key, sizeof key, "missing-text:%s", what); fail(key, "%s does not print %s: %.300s", tool, what, txt); } }

static void cli_check(Rng *r)
{
  char in[700]; g_strlcpy(in, oddpath(r, "i.fits"), sizeof in); GPtrArray *a;
  if (chance(r, 0.1)) { make_input(r, in, 2, false, true); a = chance(r, 0.5) ? mkargs((const char *[]){NULL}) : ARGS(in, in); run_tool("oifits-check", a); must_fail("oifits-check", "it was called with a wrong number of arguments", NULL, false, 0); if (strstr(t_out->str, "All checks passed")) fail("announced", "wrong usage announced as passed"); g_ptr_array_free(a, TRUE); return; }
  if (chance(r, 0.12)) { make_bad(r, in); a = ARGS(in); run_tool("oifits-check", a); must_fail("oifits-check", "its input cannot be read", NULL, false, 0); if (strstr(t_out->str, "All checks passed")) fail("announced", "unreadable file announced as passed"); g_ptr_array_free(a, TRUE); return; }
  int ver = chance(r, 0.15) ? 1 : 2; make_input(r, in, ver, chance(r, 0.3), chance(r, 0.4)); oi_fits o; if (!quiet_read(r, in, &o)) return;
  int nb = 0; bool bad[NCHECK]; for (int c = 0; c < NCHECK; c++) { ChkModel m = model_check(&o, c); bad[c] = m.level != OI_BREACH_NONE; nb += bad[c]; g_ptr_array_free(m.loc, TRUE); }
  a = ARGS(in); run_tool("oifits-check", a); g_ptr_array_free(a, TRUE); bool said = strstr(t_out->str, "All checks passed") != NULL;
  if (t_rc) fail("check-exit", "oifits-check exits %d for a readable file: %.200s", t_rc, t_err->str);
  if (said != (nb == 0)) fail("announced", "%d checks find a breach but oifits-check %s that all checks passed", nb, said ? "says" : "does not say");
  GString *s = g_string_new(NULL); for (int c = 0; c < NCHECK; c++) if (bad[c]) { oi_check_result res; CHECK_FN[c](&o, &res); cap_begin(); print_check_result(&res); cap_end(s, NULL); g_strstrip(s->str); char w[60]; snprintf(w, sizeof w, "report of %s", CHECK_NAME[c]); want_text("oifits-check", w, s->str); free_check_result(&res); cov("breach %s", CHECK_NAME[c]); }
  expect_summary(&o, s); want_text("oifits-check", "summary", s->str); ev(nb ? "breached_files_checked" : "clean_files_checked", 1); g_string_free(s, TRUE); free_oi_fits(&o);
}
static void cli_filter(Rng *r)
{
  char in[700], out[700], v[200]; g_strlcpy(in, oddpath(r, "i.fits"), sizeof in); g_strlcpy(out, oddpath(r, "o.fits"), sizeof out); GPtrArray *fa = mkargs((const char *[]){NULL}), *a = mkargs((const char *[]){NULL}); int ver = chance(r, 0.2) ? 1 : 2; make_input(r, in, ver, chance(r, 0.3), false); oi_fits o, w; if (!quiet_read(r, in, &o)) return; oi_filter_spec f; gen_filter(r, &o, &f); oi_filter_spec d; filter_defaults(&d);
#define OPT(c, fmt, ...) if ((c) && chance(r, 0.9)) { snprintf(v, sizeof v, fmt, __VA_ARGS__); g_ptr_array_add(fa, g_strdup(v)); }
  OPT(strcmp(f.arrname, d.arrname) && f.arrname[0], "--arrname=%s", f.arrname) OPT(strcmp(f.insname, d.insname) && f.insname[0], "--insname=%s", f.insname) OPT(strcmp(f.corrname, d.corrname) && f.corrname[0], "--corrname=%s", f.corrname) OPT(f.target_id >= 0, "--target-id=%d", f.target_id)
  OPT(f.mjd_range[0] != d.mjd_range[0], "--mjd-min=%.17g", f.mjd_range[0]) OPT(f.mjd_range[1] != d.mjd_range[1], "--mjd-max=%.17g", f.mjd_range[1]) OPT(f.wave_range[0] != d.wave_range[0], "--wave-min=%.9g", f.wave_range[0] * 1e9) OPT(f.wave_range[1] != d.wave_range[1], "--wave-max=%.9g", f.wave_range[1] * 1e9) OPT(f.bas_range[0] != d.bas_range[0], "--bas-min=%.17g", f.bas_range[0]) OPT(f.bas_range[1] != d.bas_range[1], "--bas-max=%.17g", f.bas_range[1])
  OPT(f.uvrad_range[0] != d.uvrad_range[0], "--uvrad-min=%.17g", f.uvrad_range[0]) OPT(f.uvrad_range[1] != d.uvrad_range[1], "--uvrad-max=%.17g", f.uvrad_range[1]) OPT(f.snr_range[0] != d.snr_range[0], "--snr-min=%.9g", f.snr_range[0]) OPT(f.snr_range[1] != d.snr_range[1], "--snr-max=%.9g", f.snr_range[1]) OPT(!f.accept_vis, "--accept-vis=%d", 0) OPT(!f.accept_vis2, "--accept-vis2=%d", 0) OPT(!f.accept_t3amp, "--accept-t3amp=%d", 0) OPT(!f.accept_t3phi, "--accept-t3phi=%d", 0) OPT(!f.accept_flux, "--accept-flux=%d", 0) OPT(!f.accept_flagged, "--accept-flagged=%d", 0)
  char *pv[40] = {"prog"}; int pc = 1; for (guint i = 0; i < fa->len; i++) pv[pc++] = fa->pdata[i]; if (!parse_options(pv, pc)) { free_oi_fits(&o); return; } f = *get_user_oi_filter();
  bool clob = false, old = false; uint64_t h = 0; const char *why = NULL; int mode = ri(r, 0, 11);
  if (chance(r, 0.35)) { old_file(r, out); old = true; h = bytes_of(out); if (chance(r, 0.5)) { clob = true; g_ptr_array_add(fa, g_strdup(chance(r, 0.5) ? "--clobber" : "-o")); } else why = "the output exists and overwriting was not requested"; }
  else if (chance(r, 0.2)) g_ptr_array_add(fa, g_strdup("--clobber"));
  if (mode == 0) { make_bad(r, in); why = "its input cannot be read"; } else if (mode == 1) { if (old) unlink(out); old = clob = false; g_strlcpy(out, spath("none/o.fits"), sizeof out); why = "its output cannot be created"; } else if (mode == 2) { static const char *const INV[] = {"--no-such", "--mjd-min=abc", "--target-id=x", "--accept-vis=yes"}; const char *iv = INV[ri(r, 0, 3)]; g_ptr_array_add(fa, g_strdup(iv)); why = "an option is invalid"; }
  /* options before, between or after the file names */
  int pos = ri(r, 0, 2); if (pos == 0) { g_ptr_array_add(a, g_strdup(in)); g_ptr_array_add(a, g_strdup(out)); } for (guint i = 0; i < fa->len; i++) { if (pos == 1 && i == fa->len / 2) g_ptr_array_add(a, g_strdup(in)); g_ptr_array_add(a, g_strdup(fa->pdata[i])); } if (pos == 1 && !fa->len) g_ptr_array_add(a, g_strdup(in)); if (pos == 1) g_ptr_array_add(a, g_strdup(out)); if (pos == 2) { g_ptr_array_add(a, g_strdup(in)); g_ptr_array_add(a, g_strdup(out)); }
  if (mode == 3) { if (chance(r, 0.5)) { g_ptr_array_add(a, g_strdup("extra")); } else g_ptr_array_remove_index(a, pos == 0 ? 1 : a->len - 1); why = "it was called with a wrong number of arguments"; }
  run_tool("oifits-filter", a);
  if (why) must_fail("oifits-filter", why, out, old, h);
  else
  {
    model_filter(&o, &f, &w); bool can = quiet_write(spath("probe.fits"), &w); unlink(spath("probe.fits"));
    if (!can) { if (!t_rc) fail("success-reported:oifits-filter", "oifits-filter exits 0 although the result cannot be written"); }
    else if (t_rc) fail("filter-exit", "oifits-filter exits %d: %.300s %.300s", t_rc, t_out->str, t_err->str);
    else { same_dataset(r, out, &w, "oifits-filter"); GString *s = g_string_new(NULL); expect_summary(&o, s); want_text("oifits-filter", "summary of its input", s->str); expect_summary(&w, s); want_text("oifits-filter", "summary of its output", s->str); want_text("oifits-filter", "description of the filter", format_oi_filter(&f)); g_string_free(s, TRUE); if (clob) ev("overwritten_on_request", 1); ev("filter_outputs", 1); }
    free_oi(&w);
  }
  free_oi_fits(&o); g_ptr_array_free(a, TRUE); g_ptr_array_free(fa, TRUE);
}
static void cli_merge(Rng *r)
{
  enum { MAXF = 40 }; static char in[MAXF][700]; char out[700]; int n = chance(r, 0.05) ? ri(r, 6, MAXF) : ri(r, 2, 5); static oi_fits o[MAXF]; oi_fits w; bool pool = chance(r, 0.7); g_strlcpy(out, oddpath(r, "o.fits"), sizeof out); GPtrArray *a = ARGS(out); const char *why = NULL; bool old = false; uint64_t h = 0; int mode = ri(r, 0, 9), nr = 0;
  for (int i = 0; i < n; i++) { char nm[20]; sprintf(nm, "m%d.fits", i); g_strlcpy(in[i], oddpath(r, nm), sizeof in[i]); if (i && chance(r, 0.1)) strcpy(in[i], in[i - 1]); else make_input(r, in[i], chance(r, 0.25) ? 1 : 2, pool, false); g_ptr_array_add(a, g_strdup(in[i])); }
  for (; nr < n; nr++) if (!quiet_read(r, in[nr], &o[nr])) break;
  if (nr == n)
  {
    GList *l = NULL; for (int i = 0; i < n; i++) l = g_list_append(l, &o[i]); cap_begin(); merge_oi_fits_list(l, &w); cap_end(NULL, NULL); g_list_free(l);
    if (mode == 0) { make_bad(r, in[ri(r, 0, n - 1)]); why = "one of its inputs cannot be read"; } else if (mode == 1) { g_free(a->pdata[0]); a->pdata[0] = g_strdup(spath("none/o.fits")); g_strlcpy(out, a->pdata[0], sizeof out); why = "its output cannot be created"; } else if (mode == 2) { g_ptr_array_set_size(a, ri(r, 0, 2)); why = "it was called with too few arguments"; }
    if (mode != 1 && chance(r, 0.2)) { old_file(r, out); old = true; h = bytes_of(out); if (!why) why = "the output exists"; }
    run_tool("oifits-merge", a);
    if (why) must_fail("oifits-merge", why, out, old, h);
    else
    {
      bool can = quiet_write(spath("probe.fits"), &w); unlink(spath("probe.fits"));
      if (!can) { if (!t_rc) fail("success-reported:oifits-merge", "oifits-merge exits 0 although the result cannot be written"); } else if (t_rc) fail("merge-exit", "oifits-merge exits %d: %.300s", t_rc, t_err->str);
      else { same_dataset(r, out, &w, "oifits-merge"); GString *s = g_string_new(NULL); expect_summary(&w, s); want_text("oifits-merge", "summary of its output", s->str); g_string_free(s, TRUE); ev("merge_outputs", 1); cov("merged %d files", n); }
    }
    free_oi_fits(&w);
  }
  for (int i = 0; i < nr; i++) free_oi_fits(&o[i]); g_ptr_array_free(a, TRUE);
}
static void cli_upgrade(Rng *r)
{
  char in[700], out[700]; g_strlcpy(in, oddpath(r, "i.fits"), sizeof in); g_strlcpy(out, oddpath(r, "o.fits"), sizeof out); bool two = chance(r, 0.15), old = false; make_input(r, in, two ? 2 : 1, false, false); oi_fits o; if (!quiet_read(r, in, &o)) return; char k[3][90]; GenOpt g = {.asciiplain = chance(r, 0.6)}; for (int i = 0; i < 3; i++) { gen_str(r, k[i], chance(r, 0.1) ? 66 : 30, 1, &g, true); if (chance(r, 0.1)) strcat(k[i], " b"); } const char *why = NULL; uint64_t h = 0; int mode = ri(r, 0, 9);
  GPtrArray *a = ARGS(in, out, k[0], k[1], k[2]); if (is_oi_fits_two(&o)) why = "the file is already version 2"; else if (!o.numArray) why = "the file has no array table";
  if (mode == 0) { make_bad(r, in); why = "its input cannot be read"; } else if (mode == 1) { g_free(a->pdata[1]); a->pdata[1] = g_strdup(spath("none/o.fits")); g_strlcpy(out, a->pdata[1], sizeof out); why = "its output cannot be created"; } else if (mode == 2) { g_ptr_array_set_size(a, ri(r, 0, 4)); why = "it was called with too few arguments"; }
  if (mode != 1 && chance(r, 0.2)) { old_file(r, out); old = true; h = bytes_of(out); if (!why) why = "the output exists"; }
  run_tool("oifits-upgrade", a);
  if (why) must_fail("oifits-upgrade", why, out, old, h);
  else
  {
    g_strlcpy(o.header.origin, k[0], FLEN_VALUE); g_strlcpy(o.header.observer, k[1], FLEN_VALUE); g_strlcpy(o.header.insmode, k[2], FLEN_VALUE);
    bool can = quiet_write(spath("probe.fits"), &o); unlink(spath("probe.fits")); if (!can) { if (!t_rc) fail("success-reported:oifits-upgrade", "oifits-upgrade exits 0 although the result cannot be written"); } else if (t_rc) fail("upgrade-exit", "oifits-upgrade exits %d: %.300s", t_rc, t_err->str);
    else { same_dataset(r, out, &o, "oifits-upgrade"); oi_fits b; GString *y = g_string_new(NULL); if (quiet_read(r, out, &b)) { for (int kk = 0; kk < NK; kk++) { if (tab_count(&o, kk) != tab_count(&b, kk)) { fail("upgrade-lost", "%d %s tables instead of %d after the upgrade", tab_count(&b, kk), DESC[kk].ext, tab_count(&o, kk)); continue; } for (int i = 0; i < tab_count(&o, kk); i++) { g_string_truncate(y, 0); if (!cmp_tab(kk, tab_at(&o, kk, i), tab_at(&b, kk, i), IGN_REVN | IGN_TIME | NORM_FLAGS | RSTRIP, y)) fail("upgrade-changed", "%s changed by the upgrade: %s", DESC[kk].ext, y->str); } } free_oi_fits(&b); } g_string_free(y, TRUE); ev("upgrade_outputs", 1); }
  }
  free_oi_fits(&o); g_ptr_array_free(a, TRUE);
}
void c23(Rng *r) { switch (ri(r, 0, 7)) { case 0: case 1: cli_check(r); break; case 2: case 3: case 4: cli_filter(r); break; case 5: case 6: cli_merge(r); break; default: cli_upgrade(r); } }

/* ---------- C31: the demonstration program of the table-level interface ---------- */
static GString *d_txt; static Rng *d_r;
static void W(const char *fmt, ...) G_GNUC_PRINTF(1, 2);
static void W(const char *fmt, ...) /* some words, with any white space between and after them */
{
  char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  for (char *s = strtok(b, " "); s; s = strtok(NULL, " ")) { g_string_append(d_txt, s); int n = chance(d_r, 0.1) ? ri(d_r, 2, 5) : 1; for (int i = 0; i < n; i++) g_string_append_c(d_txt, " \n\t"[chance(d_r, 0.7) ? 1 : ri(d_r, 0, 2)]); }
}
static void word(char *d, int max) { static const char C[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-+.,:;/()[]'\"%&=*#"; int n = chance(d_r, 0.25) ? max : ri(d_r, 1, MIN(max, 12)); for (int i = 0; i < n; i++) d[i] = C[ri(d_r, 0, i && i < n - 1 ? (int)sizeof C - 2 : 61)]; d[n] = 0; }
static double dnum(bool kw) { if (!kw && chance(d_r, 0.03)) return (double[]){NAN, INFINITY, -INFINITY, 1e300, -1e-300, 5e-324}[ri(d_r, 0, 5)]; switch (ri(d_r, 0, 5)) { case 0: return 0; case 1: return ri(d_r, -1000, 1000); case 2: return ri(d_r, -100000, 100000) / 1024.0; case 3: return (ru(d_r) - 0.5) * 1e7; case 4: return ru(d_r) * 1e-8; default: return ru(d_r); } }
static float fnum(void) { return chance(d_r, 0.5) ? (float)dnum(true) : ri(d_r, -64, 64) / 16.0f; }
static double put(const char *key, double v) { W("%s %.17g", key, v); return v; }
static float putf(const char *key, float v) { W("%s %.9g", key, v); return v; }
static int puti(const char *key, int v) { W("%s %d", key, v); return v; }
static void puts_(const char *key, char *d, int max) { word(d, max); W("%s %s", key, d); }
static void putv(const char *key, double *v, int n) { W("%s", key); for (int j = 0; j < n; j++) W("%.17g", v[j] = dnum(false)); }
static void putc_(const char *key, float complex *v, int n) { W("%s", key); for (int j = 0; j < n; j++) { float a = fnum(), b = fnum(); W("%.9g %.9gi", a, b); v[j] = a + b * _Complex_I; } }
static int sta(void) { return chance(d_r, 0.05) ? (int[]){32767, -32768, 0, 255, 256}[ri(d_r, 0, 4)] : ri(d_r, 1, 9); }
static int cix(void) { return chance(d_r, 0.05) ? (int[]){2147483647, 65536, 70000, 0}[ri(d_r, 0, 3)] : ri(d_r, 1, 500); }
static void odate(char *d) { snprintf(d, FLEN_VALUE, "%04d-%02d-%02d%s", ri(d_r, 1990, 2090), ri(d_r, 1, 12), ri(d_r, 1, 28), chance(d_r, 0.2) ? "T01:02:03" : ""); W("date-obs %s", d); }
/* a description with one table of each kind, and the dataset it describes */
static void demo_text(Rng *r, oi_fits *o, bool spoil)
{
  d_r = r; int nw = chance(r, 0.05) ? ri(r, 20, 70) : ri(r, 1, 6), n; init_oi_fits(o); oi_header *h = &o->header; bool over = false;
#define TAB(T, v) T *v = g_new0(T, 1)
#define ROWS(lo) (chance(r, 0.05) ? ri(r, 10, 40) : ri(r, lo, 5))
  TAB(oi_array, A); W("OI_ARRAY"); puts_("arrname", A->arrname, 60); if (chance(r, 0.8)) { strcpy(A->frame, "GEOCENTRIC"); W("frame GEOCENTRIC"); } else puts_("frame", A->frame, 60);
  A->arrayx = put("arrayx", dnum(true)); A->arrayy = put("arrayy", dnum(true)); A->arrayz = put("arrayz", dnum(true)); n = puti("nelement", ROWS(1)); alloc_oi_array(A, n); A->revision = 2;
  for (int i = 0; i < n; i++) { element *e = &A->elem[i]; memset(e, 0, sizeof *e); puts_("tel_name", e->tel_name, 16); puts_("sta_name", e->sta_name, 16); W("staxyz"); for (int j = 0; j < 3; j++) W("%.17g", e->staxyz[j] = dnum(false)); e->diameter = putf("diameter", fnum()); e->fov = put("fov", dnum(false)); strcpy(e->fovtype, chance(r, 0.5) ? "FWHM" : "RADIUS"); W("fovtype %s", e->fovtype); e->sta_index = i + 1; }
  add_tab(o, K_ARRAY, A);
  W("OI_TARGET"); n = puti("ntarget", ROWS(1)); alloc_oi_target(&o->targets, n); o->targets.revision = 2; o->targets.usecategory = false; int cats = ri(r, 0, 2);
  for (int i = 0; i < n; i++)
  {
    target *t = &o->targets.targ[i]; memset(t, 0, sizeof *t); t->target_id = puti("target_id", chance(r, 0.8) ? i + 1 : ri(r, 1, 30000)); puts_("target", t->target, 32); t->raep0 = put("raep0", dnum(false)); t->decep0 = put("decep0", dnum(false)); t->equinox = putf("equinox", fnum()); t->ra_err = put("ra_err", dnum(false)); t->dec_err = put("dec_err", dnum(false)); t->sysvel = put("sysvel", dnum(false)); puts_("veltyp", t->veltyp, 8); puts_("veldef", t->veldef, 8);
    t->pmra = put("pmra", dnum(false)); t->pmdec = put("pmdec", dnum(false)); t->pmra_err = put("pmra_err", dnum(false)); t->pmdec_err = put("pmdec_err", dnum(false)); t->parallax = putf("parallax", fnum()); t->para_err = putf("para_err", fnum()); puts_("spectyp", t->spectyp, 32); if (cats == 2 || (cats == 1 && chance(r, 0.5))) { strcpy(t->category, chance(r, 0.5) ? "SCI" : "CAL"); W("category %s", t->category); o->targets.usecategory = true; }
  }
  cov("category %s", o->targets.usecategory ? "given" : "absent");
  TAB(oi_wavelength, L); W("OI_WAVELENGTH"); puts_("insname", L->insname, 60); puti("nwave", nw); alloc_oi_wavelength(L, nw); L->revision = 2; W("eff_wave"); for (int j = 0; j < nw; j++) W("%.9g", L->eff_wave[j] = fnum()); W("eff_band"); for (int j = 0; j < nw; j++) W("%.9g", L->eff_band[j] = fnum()); add_tab(o, K_WAVE, L);
  TAB(oi_corr, C); W("OI_CORR"); puts_("corrname", C->corrname, 60); C->ndata = puti("ndata", ri(r, 1, 100000)); n = puti("ncorr", ROWS(1)); alloc_oi_corr(C, n); C->revision = 1; W("iindx"); for (int i = 0; i < n; i++) W("%d", C->iindx[i] = cix()); W("jindx"); for (int i = 0; i < n; i++) W("%d", C->jindx[i] = cix()); W("corr"); for (int i = 0; i < n; i++) W("%.17g", C->corr[i] = dnum(false)); add_tab(o, K_CORR, C);
#define TID() puti("target_id", spoil && !over && chance(r, 0.3) ? (over = true, 70000) : ri(r, 1, 9))
  TAB(oi_inspol, P); W("OI_INSPOL"); odate(P->date_obs); P->npol = puti("npol", ri(r, 1, 4)); puts_("arrname", P->arrname, 60); puts_("orient", P->orient, 60); puts_("model", P->model, 60); n = ROWS(1); W("numrec %d", n); alloc_oi_inspol(P, n, nw); P->revision = 1;
  for (int i = 0; i < n; i++) { oi_inspol_record *q = &P->record[i]; q->target_id = TID(); memset(q->insname, 0, sizeof q->insname); puts_("insname", q->insname, 60); q->mjd_obs = put("mjd_obs", dnum(false)); q->mjd_end = put("mjd_end", dnum(false)); putc_("jxx", q->jxx, nw); putc_("jyy", q->jyy, nw); putc_("jxy", q->jxy, nw); putc_("jyx", q->jyx, nw); q->sta_index = puti("sta_index", sta()); }
  add_tab(o, K_INSPOL, P);
#define REFS(v) puts_("arrname", v->arrname, 60); puts_("insname", v->insname, 60); puts_("corrname", v->corrname, 60)
#define FLAGS(q) for (int j = 0; j < nw; j++) (q)->flag[j] = 0
  TAB(oi_vis, V); W("OI_VIS"); odate(V->date_obs); REFS(V); bool ot[4]; do for (int i = 0; i < 4; i++) ot[i] = chance(r, 0.5); while ((ot[2] && !ot[0] && !ot[1]) || (ot[3] && !ot[1] && !ot[2])); /* the scanner cannot tell these apart */
  V->amporder = V->phiorder = -1; if (ot[0]) puts_("amptyp", V->amptyp, 60); if (ot[1]) puts_("phityp", V->phityp, 60); if (ot[2]) V->amporder = puti("amporder", ri(r, 0, 9)); if (ot[3]) V->phiorder = puti("phiorder", ri(r, 0, 9)); cov("vis options %d%d%d%d", ot[0], ot[1], ot[2], ot[3]);
  n = puti("numrec", ROWS(1)); alloc_oi_vis(V, n, nw); V->revision = 2;
  for (int i = 0; i < n; i++) { oi_vis_record *q = &V->record[i]; q->target_id = TID(); q->time = put("time", dnum(false)); q->mjd = put("mjd", dnum(false)); q->int_time = put("int_time", dnum(false)); putv("visamp", q->visamp, nw); putv("visamperr", q->visamperr, nw); q->corrindx_visamp = puti("corrindx_visamp", cix()); putv("visphi", q->visphi, nw); putv("visphierr", q->visphierr, nw); q->corrindx_visphi = puti("corrindx_visphi", cix()); q->ucoord = put("ucoord", dnum(false)); q->vcoord = put("vcoord", dnum(false)); q->sta_index[0] = puti("sta_index", sta()); W("%d", q->sta_index[1] = sta()); FLAGS(q); }
  add_tab(o, K_VIS, V);
  TAB(oi_vis2, S); W("OI_VIS2"); odate(S->date_obs); REFS(S); n = puti("numrec", ROWS(1)); alloc_oi_vis2(S, n, nw); S->revision = 2;
  for (int i = 0; i < n; i++) { oi_vis2_record *q = &S->record[i]; q->target_id = TID(); q->time = put("time", dnum(false)); q->mjd = put("mjd", dnum(false)); q->int_time = put("int_time", dnum(false)); putv("vis2data", q->vis2data, nw); putv("vis2err", q->vis2err, nw); q->corrindx_vis2data = puti("corrindx_vis2data", cix()); q->ucoord = put("ucoord", dnum(false)); q->vcoord = put("vcoord", dnum(false)); q->sta_index[0] = puti("sta_index", sta()); W("%d", q->sta_index[1] = sta()); FLAGS(q); }
  add_tab(o, K_VIS2, S);
  TAB(oi_t3, T); W("OI_T3"); odate(T->date_obs); REFS(T); n = puti("numrec", ROWS(1)); alloc_oi_t3(T, n, nw); T->revision = 2;
  for (int i = 0; i < n; i++) { oi_t3_record *q = &T->record[i]; q->target_id = TID(); q->time = put("time", dnum(false)); q->mjd = put("mjd", dnum(false)); q->int_time = put("int_time", dnum(false)); putv("t3amp", q->t3amp, nw); putv("t3amperr", q->t3amperr, nw); q->corrindx_t3amp = puti("corrindx_t3amp", cix()); putv("t3phi", q->t3phi, nw); putv("t3phierr", q->t3phierr, nw); q->corrindx_t3phi = puti("corrindx_t3phi", cix()); q->u1coord = put("u1coord", dnum(false)); q->v1coord = put("v1coord", dnum(false)); q->u2coord = put("u2coord", dnum(false)); q->v2coord = put("v2coord", dnum(false)); q->sta_index[0] = puti("sta_index", sta()); W("%d %d", q->sta_index[1] = sta(), q->sta_index[2] = sta()); FLAGS(q); }
  add_tab(o, K_T3, T);
  TAB(oi_flux, F); W("OI_FLUX"); odate(F->date_obs); bool arr = chance(r, 0.6), fov = chance(r, 0.5); if (arr) puts_("arrname", F->arrname, 60); puts_("insname", F->insname, 60); puts_("corrname", F->corrname, 60); if (fov) { F->fov = put("fov", dnum(true)); strcpy(F->fovtype, chance(r, 0.5) ? "FWHM" : "RADIUS"); W("fovtype %s", F->fovtype); } F->calstat = chance(r, 0.5) ? 'C' : 'U'; W("calstat %c", F->calstat); cov("flux options %d%d", arr, fov);
  n = puti("numrec", ROWS(1)); alloc_oi_flux(F, n, nw); F->revision = 1; strcpy(F->fluxunit, "Jy"); int ss = arr ? ri(r, 1, 2) : ri(r, 0, 1);
  for (int i = 0; i < n; i++) { oi_flux_record *q = &F->record[i]; q->target_id = puti("target_id", spoil && !over ? (over = true, 70000) : ri(r, 1, 9)); q->mjd = put("mjd", dnum(false)); q->int_time = put("int_time", dnum(false)); putv("fluxdata", q->fluxdata, nw); putv("fluxerr", q->fluxerr, nw); q->corrindx_fluxdata = puti("corrindx_fluxdata", cix()); q->sta_index = -1; if (ss == 2 || (ss == 1 && chance(r, 0.5))) q->sta_index = puti("sta_index", sta()); FLAGS(q); }
  add_tab(o, K_FLUX, F);
  memset(h, 0, sizeof *h); strcpy(h->origin, "ESO"); strcpy(h->date_obs, V->date_obs); strcpy(h->telescop, A->arrname); strcpy(h->instrume, L->insname); strcpy(h->observer, "Astronomer"); strcpy(h->insmode, "Low_JHK"); strcpy(h->object, o->targets.targ[0].target); strcpy(h->content, "OIFITS2");
}
/* the lines that reading a file must print; false if a table refers to a missing one */
static bool demo_lines(const oi_fits *o, GString *s)
{
  static const struct { int k; const char *n; } K[] = {{K_VIS, "OI_VIS     "}, {K_VIS2, "OI_VIS2    "}, {K_T3, "OI_T3      "}, {K_FLUX, "OI_FLUX    "}, {K_INSPOL, "OI_INSPOL  "}};
  for (int x = 0; x < 5; x++) for (GList *l = *listp((oi_fits *)o, K[x].k); l; l = l->next)
  {
    const char *a = tab_str(K[x].k, l->data, "ARRNAME"), *i = "", *c = ""; g_string_append_printf(s, "Read %s with  ARRNAME=%s", K[x].n, a);
    if (K[x].k != K_INSPOL) { i = tab_str(K[x].k, l->data, "INSNAME"); c = tab_str(K[x].k, l->data, "CORRNAME"); g_string_append_printf(s, " INSNAME=%s CORRNAME=%s", i, c); } g_string_append_c(s, '\n');
    if ((a[0] || K[x].k == K_INSPOL) && !array_named(o, a)) return false; if (K[x].k != K_INSPOL && !wave_named(o, i)) return false; if (c[0] && !corr_named(o, c)) return false;
  }
  return true;
}
void c31(Rng *r)
{
  char txt[700], out[700], in[700]; g_strlcpy(txt, oddpath(r, "d.txt"), sizeof txt); g_strlcpy(out, spath("o.fits"), sizeof out); g_strlcpy(in, spath("i.fits"), sizeof in); unlink(out); unlink(in); unlink(txt);
  if (!d_txt) d_txt = g_string_new(NULL); g_string_truncate(d_txt, 0); oi_fits o, b; const char *why = NULL; bool old = false, written = true, readable = true; uint64_t h = 0; int mode = ri(r, 0, 24);
  stage("demo_text"); demo_text(r, &o, mode == 0); spew(txt, d_txt->str, d_txt->len);
  if (mode == 0) why = "a value does not fit its column"; else if (mode == 1) { unlink(txt); why = "its input cannot be opened"; } else if (mode == 2) { old_file(r, out); old = true; h = bytes_of(out); why = "the output exists"; } else if (mode == 3) { g_strlcpy(out, spath("none/o.fits"), sizeof out); why = "its output cannot be created"; }
  if (why) written = false;
  /* what is read afterwards: the file just written, or any other */
  bool own = chance(r, 0.4); if (own) g_strlcpy(in, out, sizeof in); else if (chance(r, 0.1)) { make_bad(r, in); readable = false; } else make_input(r, in, chance(r, 0.3) ? 1 : 2, chance(r, 0.3), chance(r, 0.3));
  char *ip = spath("demo.in"); GString *s = g_string_new(NULL); g_string_printf(s, "%s\n%s\n%s\n", txt, out, in); spew(ip, s->str, s->len); GPtrArray *a = mkargs((const char *[]){NULL}); t_in = ip; run_tool("oitable-demo", a); t_in = NULL; unlink(ip); g_ptr_array_free(a, TRUE); g_string_truncate(s, 0);
  if (t_rc != 77 && t_rc < 1000)
  {
    if (!written) { must_fail("oitable-demo", why, out, old, h); if (strstr(t_out->str, "Read OI_")) fail("read-lines", "oitable-demo lists tables although %s", why); }
    else
    {
      GString *y = g_string_new(NULL); GByteArray *f = g_byte_array_new(); slurp(out, f); Fits *d = dec_fits(f, y);
      if (!d) fail("output-malformed", "oitable-demo: %s", y->str); else { if (d->hdu->len == 10 && !conform_oifits2(d, &o, y)) fail("output-differs", "oitable-demo did not write what the text describes: %s", y->str); else if (d->hdu->len != 10) fail("output-tables", "oitable-demo wrote %u HDUs", d->hdu->len); ev("texts_converted", 1); ev("cells_compared", nvalues(&o)); dec_free(d); }
      g_byte_array_free(f, TRUE); g_string_free(y, TRUE);
      if (readable && quiet_read(r, in, &b))
      {
        bool all = demo_lines(&b, s); GString *g = g_string_new(NULL); char **ln = g_strsplit(t_out->str, "\n", -1); for (char **q = ln; *q; q++) if (!strncmp(*q, "Read OI_", 8)) g_string_append_printf(g, "%s\n", *q); g_strfreev(ln);
        if (strcmp(g->str, s->str)) fail("read-lines", "oitable-demo lists\n%.900s\ninstead of\n%.900s", g->str, s->str); g_string_free(g, TRUE); ev("files_listed", 1); if (own) ev("own_outputs_listed", 1);
        if (all && t_rc) fail("demo-exit", "oitable-demo exits %d: %.300s", t_rc, t_err->str); if (!all) { ev("missing_references", 1); must_fail("oitable-demo", "a table refers to a missing one", NULL, false, 0); } cov("listed, references %d", all); free_oi_fits(&b);
      }
      else { if (t_rc == 0) fail("success-reported:oitable-demo", "oitable-demo exits 0 although the file to read cannot be read"); ev("failures_reported", 1); }
    }
  }
  g_string_free(s, TRUE); unlink(out); free_oi_fits(&o);
}
