/* C30: what the I/O functions print. */
#define _GNU_SOURCE
#include "mon.h"
#include <fitsio.h>
#include <unistd.h>
#include <sys/stat.h>

extern int g_hush_default;
static int count(const char *hay, const char *needle) { int n = 0; for (const char *q = hay; (q = strstr(q, needle)); q += strlen(needle)) n++; return n; }
/* The report of a failed call: made of the status returned, and only when asked for. */
void judge_report(const char *name, int st, bool hush, bool eof_ok, GString *err)
{
  int nrep = count(err->str, "FITSIO status = ");
  if (hush) { if (nrep || strstr(err->str, "FITSIO error")) fail("not-hushed", "%s with oi_hush_errors set reported to stderr (status %d): %.300s", name, st, err->str); if (st) ev("failures_hushed", 1); }
  else if (st)
  {
    if (eof_ok && st == END_OF_FILE) { if (nrep) fail("eof-reported", "%s reported the end of the file as an error: %.300s", name, err->str); ev("ends_of_file_silent", 1); return; }
    char w[60]; snprintf(w, sizeof w, "FITSIO status = %d:", st);
    if (!strstr(err->str, w)) fail(nrep ? "wrong-report" : "not-reported", "%s failed with status %d but stderr has '%.300s'", name, st, err->str);
    ev("failures_reported", 1); cov("reported %s %d", name, st);
  }
  else if (strstr(err->str, "FITSIO error") && !strstr(err->str, "Skipping bad")) fail("false-report", "%s succeeded but stderr has '%.300s'", name, err->str);
}
static const char *const WNAME[NK] = {"targets", "array", "wave", "corr", "inspol", "vis", "vis2", "t3", "flux"};
/* Warnings of a successful write: revisions that are replaced, missing array names. Nothing else. */
static void judge_write(const oi_fits *o, int only, const void *tab, GString *out, const char *what)
{
  int total = 0;
  for (int k = 0; k < NK; k++) { int rev = 0, arr = 0; for (int i = 0, n = k == K_TARGET ? 1 : tab_count(o, k); i < n; i++) { void *t = tab_at(o, k, i); if (only >= 0 && (k != only || t != tab)) continue; rev += tab_revn(k, t) != DESC[k].v2rev; if (k >= K_VIS && k <= K_T3) arr += !*tab_str(k, t, "ARRNAME"); }
    char w[80]; snprintf(w, sizeof w, "WARNING! %s.revision != ", WNAME[k]); int got = count(out->str, w); if (got != rev) fail("revision-warning", "%s: %d warnings about the revision of %s tables, expected %d: %.300s", what, got, DESC[k].ext, rev, out->str);
    snprintf(w, sizeof w, "WARNING! %s.arrname not set", WNAME[k]); got = count(out->str, w); if (got != arr) fail("arrname-warning", "%s: %d warnings about a missing array name of %s, expected %d", what, got, DESC[k].ext, arr);
    total += rev + arr; }
  if (count(out->str, "\n") != total) fail("other-output", "%s: printed besides the warnings expected: %.300s", what, out->str);
  if (total) ev("write_warnings", total);
}
static int put(fitsfile *f, int k, void *t, int ver, int *st)
{
  switch (k)
  { case K_TARGET: return write_oi_target(f, *(oi_target *)t, st); case K_ARRAY: return write_oi_array(f, *(oi_array *)t, ver, st); case K_WAVE: return write_oi_wavelength(f, *(oi_wavelength *)t, ver, st); case K_CORR: return write_oi_corr(f, *(oi_corr *)t, ver, st);
    case K_INSPOL: return write_oi_inspol(f, *(oi_inspol *)t, ver, st); case K_VIS: return write_oi_vis(f, *(oi_vis *)t, ver, st); case K_VIS2: return write_oi_vis2(f, *(oi_vis2 *)t, ver, st); case K_T3: return write_oi_t3(f, *(oi_t3 *)t, ver, st); default: return write_oi_flux(f, *(oi_flux *)t, ver, st); }
}
/* Warnings of a successful read of the intact file f. */
static void judge_read(Fits *d, const EncOpt *e, GString *out, GString *err, const char *what)
{
  if (err->len) fail("false-report", "%s: stderr has '%.300s' for an intact file", what, err->str);
  int total = 0, lines = count(out->str, "\n"); static const char *const WC[] = {"TARGET", "SPECTYP"}; int wide[2] = {0};
  for (int k = 0; k < NK; k++)
  {
    int hist[200] = {0};
    for (guint i = 1; i < d->hdu->len; i++) { Hdu *h = d->hdu->pdata[i]; if (strcmp(h->extname, DESC[k].ext) || strcmp(h->xtension, "BINTABLE")) continue; const Card *c = hdu_card(h, "OI_REVN"); int rv = c ? (int)c->ival : 0; if (rv > DESC[k].v2rev && rv < 200) hist[rv]++;
      for (int j = 0; j < h->tfields; j++) for (int m = 0; m < 2; m++) if (k == K_TARGET && rv >= 2 && !strcasecmp(h->col[j].name, WC[m]) && h->col[j].rep != 32) wide[m] += h->naxis2; }
    for (int rv = 0; rv < 200; rv++) { char w[120]; snprintf(w, sizeof w, "WARNING! Expecting OI_REVN <= %d in %s table. Got %d\n", DESC[k].v2rev, DESC[k].ext, rv); int got = count(out->str, w); if (got != hist[rv]) fail("revision-warning", "%s: %d warnings that an %s has revision %d, expected %d: %.300s", what, got, DESC[k].ext, rv, hist[rv], out->str); total += got; ev("read_warnings", got); }
  }
  for (const char *q = out->str; (q = strstr(q, "WARNING! Expecting format ")); q++)
  {
    long want, found; char col[40]; if (sscanf(q, "WARNING! Expecting format %ldA but found %ldA for column '%39[^']'", &want, &found, col) != 3) { fail("other-output", "%s: %.100s", what, q); break; }
    bool real = false; for (guint i = 1; i < d->hdu->len; i++) { Hdu *h = d->hdu->pdata[i]; for (int j = 0; j < h->tfields; j++) if (!strcasecmp(h->col[j].name, col) && h->col[j].rep == found) real = true; }
    if (!real || want == found) { fail("width-warning", "%s: warning that column %s has format %ldA rather than %ldA is false", what, col, found, want); break; }
    total++; ev("width_warnings", 1);
  }
  for (int m = 0; m < 2; m++) { char w[60]; snprintf(w, sizeof w, "for column '%s'", WC[m]); int got = count(out->str, w); if (got != wide[m]) fail("width-warning", "%s: %d warnings about the width of column %s, expected %d", what, got, WC[m], wide[m]); }
  int noname = count(out->str, "WARNING! Skipping binary table HDU with no EXTNAME\n"); if (noname && !e->foreign && !e->blankname) fail("other-output", "%s: warning about a table without EXTNAME, there is none", what);
  if (lines != total + noname) fail("other-output", "%s: printed besides the warnings expected: %.400s", what, out->str);
}
static void judge_names(const oi_fits *o);
static void reading(Rng *r, GString *out, GString *err)
{
  GenOpt g = gen_opt(r); g.nozero = chance(r, 0.5); if (chance(r, 0.15)) g.ver = 1; oi_fits o, b; gen_oi(r, &g, &o); if (chance(r, 0.3)) roughen(r, &o); EncOpt e = enc_opt(r, g.ver); bool intact = chance(r, 0.5); GString *log = g_string_new(NULL);
  if (g.ver == 2 && chance(r, 0.5)) for (int k = 0; k < NK; k++) for (int i = 0, n = k == K_TARGET ? 1 : tab_count(&o, k); i < n; i++) if (chance(r, 0.4)) { tab_set_revn(k, tab_at(&o, k, i), ri(r, 1, 9)); e.checksum = false; }
  GByteArray *f = enc_fits(r, &o, &e, NULL); if (!intact) mutate_file(r, f, log); char p[700]; g_strlcpy(p, spath("r.fits"), sizeof p); spew(p, f->data, f->len);
  bool hush = chance(r, 0.3); oi_hush_errors = hush; cap_begin(); g_warn = g_ptr_array_new_with_free_func(g_free); int st = do_read(r, p, &b); cap_end(out, err); oi_hush_errors = 1; fits_clear_errmsg();
  judge_report("read_oi_fits", st, hush, false, err); if (!st) judge_names(&b); g_ptr_array_free(g_warn, TRUE); g_warn = NULL; stage("reading: %.300s", log->str);
  if (!st) free_oi_fits(&b);
  if (intact)
  {
    if (st) fail("read-failed", "reading an intact file failed: %d", st);
    else { GString *why = g_string_new(NULL); Fits *d = dec_fits(f, why); if (d) { judge_read(d, &e, out, err, "read_oi_fits"); ev("intact_files_read", 1); dec_free(d); } else fail("internal", "own file not decoded: %s", why->str); g_string_free(why, TRUE); }
  }
  /* one table at a time */
  fitsfile *ff = NULL; int s = 0; if (!fits_open_diskfile(&ff, p, READONLY, &s))
  {
    for (int i = 0, n = ri(r, 2, 12); i < n; i++)
    {
      int k = ri(r, -1, NK - 1), x; st = 0; char nm[FLEN_VALUE], fn[60]; bool next = false; hush = chance(r, 0.3);
      void *t = calloc(1, 4000); oi_hush_errors = hush; cap_begin();
      if (k == -1) { strcpy(fn, "read_oi_header"); stage("%s", fn); read_oi_header(ff, (oi_header *)t, &st); free(t); }
      else if (k == K_TARGET) { strcpy(fn, "read_oi_target"); stage("%s", fn); read_oi_target(ff, (oi_target *)t, &st); if (!st) free_oi_target((oi_target *)t); free(t); }
      else if (k <= K_CORR && chance(r, 0.5))
      { void *q = tab_count(&o, k) && chance(r, 0.6) ? tab_at(&o, k, ri(r, 0, tab_count(&o, k) - 1)) : NULL; g_strlcpy(nm, q ? tab_str(k, q, k == K_ARRAY ? "ARRNAME" : k == K_WAVE ? "INSNAME" : "CORRNAME") : "NOSUCH", sizeof nm); snprintf(fn, sizeof fn, "read %s by name", DESC[k].ext); stage("%s", fn);
        if (k == K_ARRAY) read_oi_array(ff, nm, t, &st); else if (k == K_WAVE) read_oi_wavelength(ff, nm, t, &st); else read_oi_corr(ff, nm, t, &st); if (!st) lib_free_tab(k, t); else free(t); }
      else { next = true; free(t); snprintf(fn, sizeof fn, "read next %s", DESC[k].ext); stage("%s", fn); t = read_next(k, ff, &st); if (t) lib_free_tab(k, t); }
      cap_end(out, err); oi_hush_errors = 1; fits_clear_errmsg(); judge_report(fn, st, hush, next, err); ev("single_reads", 1);
      if (intact && !st && err->len) fail("false-report", "%s succeeded but stderr has '%.300s'", fn, err->str);
      if (chance(r, 0.4)) { s = 0; fits_movabs_hdu(ff, ri(r, 1, 8), &x, &s); fits_clear_errmsg(); }
    }
    s = 0; fits_close_file(ff, &s);
  }
  fits_clear_errmsg(); sample("read, %s: %.100s", intact ? "intact" : "damaged", log->str); g_byte_array_free(f, TRUE); free_oi(&o); g_string_free(log, TRUE); unlink(p);
}
/* Warnings of a filter: one for each table left out because nothing in it was selected or nothing refers to it. */
static int by_text(gconstpointer a, gconstpointer b) { return strcmp(*(char *const *)a, *(char *const *)b); }
static void filtering(Rng *r)
{
  GenOpt g; oi_fits o, lib, mod; oi_filter_spec f; filter_case(r, &g, &o, &f);
  g_warn = g_ptr_array_new_with_free_func(g_free); g_model_warn = g_ptr_array_new_with_free_func(g_free); do_filter(r, &o, &f, &lib); model_filter(&o, &f, &mod);
  g_ptr_array_sort(g_warn, by_text); g_ptr_array_sort(g_model_warn, by_text);
  guint i = 0, j = 0; while (i < g_warn->len || j < g_model_warn->len)
  {
    const char *a = i < g_warn->len ? g_warn->pdata[i] : NULL, *b = j < g_model_warn->len ? g_model_warn->pdata[j] : NULL; int c = !a ? 1 : !b ? -1 : strcmp(a, b);
    if (c < 0) { fail("false-filter-warning", "filtering warned '%s' without reason", a); break; }
    if (c > 0) { fail("filter-silent", "filtering did not warn '%s'", b); break; }
    char w[40]; g_strlcpy(w, a, sizeof w); char *q = strstr(w, " table"); if (q) *q = 0; cov("filter warning %s", w); i++; j++; ev("filter_warnings", 1);
  }
  g_ptr_array_free(g_warn, TRUE); g_ptr_array_free(g_model_warn, TRUE); g_warn = g_model_warn = NULL; free_oi_fits(&lib); free_oi(&mod); free_oi(&o);
}
/* Warnings about names that no table has, when reading. */
static void judge_names(const oi_fits *o)
{
  static const char *const KW[3] = {"ARRNAME", "INSNAME", "CORRNAME"}; static const int TK[3] = {K_ARRAY, K_WAVE, K_CORR};
  for (int m = 0; m < 3; m++)
  {
    char pre[80]; snprintf(pre, sizeof pre, "Missing %s with %s=", DESC[TK[m]].ext, KW[m]); size_t n = strlen(pre);
    for (guint i = 0; i < g_warn->len; i++)
    {
      const char *w = g_warn->pdata[i]; if (strncmp(w, pre, n)) continue; bool used = false, have = false; for (int k = K_INSPOL; k <= K_FLUX; k++) for (GList *l = *listp((oi_fits *)o, k); l; l = l->next) if (k != K_INSPOL || m == 0) used |= !strcmp(tab_str(k, l->data, KW[m]), w + n) && (w[n] || m == 1); for (GList *l = *listp((oi_fits *)o, TK[m]); l; l = l->next) have |= !strcmp(tab_str(TK[m], l->data, KW[m]), w + n);
      if (!used || have) fail("false-name-warning", "reading warned '%s' although %s", w, have ? "there is such a table" : "no data table has this name"); ev("name_warnings", 1);
    }
    for (int k = K_VIS; k <= (m < 2 ? K_FLUX : K_T3); k++) for (GList *l = *listp((oi_fits *)o, k); l; l = l->next)
    {
      const char *nm = tab_str(k, l->data, KW[m]); bool have = false, said = false; if (!*nm) continue; for (GList *q = *listp((oi_fits *)o, TK[m]); q; q = q->next) have |= !strcmp(tab_str(TK[m], q->data, KW[m]), nm); if (have) continue;
      for (guint i = 0; i < g_warn->len; i++) said |= !strncmp(g_warn->pdata[i], pre, n) && !strcmp((char *)g_warn->pdata[i] + n, nm); if (!said) fail("name-silent", "reading did not warn that %s '%s' of an %s is missing", KW[m], nm, DESC[k].ext);
    }
  }
}
static void absent(Rng *r, GString *out, GString *err)
{
  char q[900]; oi_fits b; int i = ri(r, 0, 3); snprintf(q, sizeof q, "%s/%s", g_scratch, (const char *[]){"nothing.fits", "nodir/x.fits", "sub", "junk"}[i]); if (i == 2) mkdir(q, 0700); if (i == 3) spew(q, "not a FITS file", 15);
  bool hush = chance(r, 0.3); oi_hush_errors = hush; cap_begin(); int st = do_read(r, q, &b); cap_end(out, err); oi_hush_errors = 1; fits_clear_errmsg(); if (!st) fail("unreadable-success", "reading %s succeeded", q); judge_report("read_oi_fits", st, hush, false, err); if (i == 2) rmdir(q); if (i == 3) unlink(q);
}
/* Make one number of the table one that its 16-bit column cannot hold. */
static char g_unfit[200];
static bool unfit(Rng *r, int k, void *t)
{
  long n = tab_rows(k, t); const Col *c[60]; int nc = 0; for (int i = 0; i < DESC[k].ncol; i++) { const Col *q = &DESC[k].col[i]; if (q->t == T_INT && strchr(q->tform, 'I') && col_used(k, t, q) && col_n(k, t, q) > 0) c[nc++] = q; }
  if (!nc || n < 1) return false;
  const Col *q = c[ri(r, 0, nc - 1)]; long row = chance(r, 0.5) ? n - 1 : ri(r, 0, n - 1); int item = ri(r, 0, col_n(k, t, q) - 1), v = (int[]){32768, -32769, 65536, 65535, 65537, 2147483647, -2147483647 - 1, 40000}[ri(r, 0, 7)];
  ((int *)cell(k, t, q, row))[item] = v; snprintf(g_unfit, sizeof g_unfit, "%s of row %ld of %ld is %d", q->name, row + 1, n, v); cov("unfit %s %s", DESC[k].ext, q->name); return true;
}
static void writing(Rng *r, GString *out, GString *err)
{
  GenOpt g = gen_opt(r); g.nozero = chance(r, 0.5); oi_fits o; gen_oi(r, &g, &o); char p[700]; g_strlcpy(p, spath("w.fits"), sizeof p); unlink(p); int st;
  for (int k = 0; k < NK; k++) for (int i = 0, n = k == K_TARGET ? 1 : tab_count(&o, k); i < n; i++) { void *t = tab_at(&o, k, i); tab_set_revn(k, t, chance(r, 0.5) ? DESC[k].v2rev : ri(r, 0, 3)); if (k >= K_VIS && k <= K_T3 && chance(r, 0.3)) tab_strp(k, t, "ARRNAME")[0] = 0; }
  rehash(&o); bool hush = chance(r, 0.3);
  oi_hush_errors = hush; cap_begin(); st = do_write(p, &o); cap_end(out, err); oi_hush_errors = 1; fits_clear_errmsg();
  if (st) fail("write-failed", "write failed: %d", st); else { if (err->len) fail("false-report", "write_oi_fits succeeded but stderr has '%.300s'", err->str); judge_write(&o, -1, NULL, out, "write_oi_fits"); }
  /* failing writes: existing file, impossible path */
  hush = chance(r, 0.3); oi_hush_errors = hush; cap_begin(); st = do_write(p, &o); cap_end(out, err); fits_clear_errmsg(); if (!st) fail("overwrite-success", "overwriting succeeded"); judge_report("write_oi_fits", st, hush, false, err);
  char q[900]; snprintf(q, sizeof q, "%s/nodir/x.fits", g_scratch); hush = chance(r, 0.3); oi_hush_errors = hush; cap_begin(); st = do_write(q, &o); cap_end(out, err); fits_clear_errmsg(); if (!st) fail("unwritable-success", "writing into a missing directory succeeded"); judge_report("write_oi_fits", st, hush, false, err);
  /* one table at a time; in the end one that cannot be represented */
  oi_hush_errors = 1; for (int pass = 0; pass < 2; pass++)
  {
    fitsfile *f = NULL; int s = 0; bool bad = pass == 1; unlink(p); fits_create_file(&f, p, &s);
    if (s) { fail("internal", "cannot open %s: %d", p, s); fits_clear_errmsg(); break; }
    for (int i = 0, n = bad ? 1 : ri(r, 1, 8); i < n; i++)
    {
      int k = i == 0 && !bad ? -1 : ri(r, bad ? 0 : -1, NK - 1); void *t = NULL; char fn[60]; if (k == -1 && i) continue; if (k >= 0) { if (k != K_TARGET && !tab_count(&o, k)) continue; t = tab_at(&o, k, k == K_TARGET ? 0 : ri(r, 0, tab_count(&o, k) - 1)); }
      if (bad && !unfit(r, k, t)) continue;
      hush = chance(r, 0.3); st = 0; snprintf(fn, sizeof fn, "write %s", k < 0 ? "header" : DESC[k].ext); stage("%s%s", fn, bad ? " holding a number that does not fit its column" : "");
      oi_hush_errors = hush; cap_begin(); if (k < 0) write_oi_header(f, o.header, &st); else put(f, k, t, ri(r, 1, 9), &st); cap_end(out, err); oi_hush_errors = 1; fits_clear_errmsg();
      if (bad) { if (!st) fail("unfit-success", "%s succeeded although %s", fn, g_unfit); ev("unfit_writes", 1); } else if (st) fail("write-failed", "%s failed: %d", fn, st);
      judge_report(fn, st, hush, false, err); ev("single_writes", 1); if (!st) { if (err->len) fail("false-report", "%s succeeded but stderr has '%.300s'", fn, err->str); if (k >= 0) judge_write(&o, k, t, out, fn); else if (out->len) fail("other-output", "%s printed %.200s", fn, out->str); }
    }
    s = 0; fits_close_file(f, &s); fits_clear_errmsg();
  }
  unlink(p); free_oi(&o); sample("write");
}
void c30(Rng *r)
{
  GString *out = g_string_new(NULL), *err = g_string_new(NULL);
  if (g_hush_default) fail("hushed-by-default", "oi_hush_errors is %d at the start", g_hush_default);
  double x = ru(r); if (x < 0.55) reading(r, out, err); else if (x < 0.58) absent(r, out, err); else if (x < 0.75) filtering(r); else writing(r, out, err);
  g_string_free(out, TRUE); g_string_free(err, TRUE);
}
