/* Properties about files: C01-C04, C06, C19, C21, C25, C26. */
#define _GNU_SOURCE
#include "mon.h"
#include <zlib.h>
#include <errno.h>
#include <time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <fitsio.h>

/* ---------- helpers ---------- */
#define junk junk_bytes
int do_read(Rng *r, const char *path, oi_fits *o)
{
  junk(r, o, sizeof *o); int st = 0; stage("read_oi_fits %s", path); int ret = read_oi_fits(path, o, &st);
  if (ret != st) fail("status-mismatch", "read_oi_fits returned %d but stored status %d", ret, st);
  ev("reads", 1); return st;
}
int do_write(const char *path, const oi_fits *o)
{
  uint64_t d = dig_oi(o, true); int st = 0; stage("write_oi_fits"); int ret = write_oi_fits(path, *o, &st);
  if (ret != st) fail("status-mismatch", "write_oi_fits returned %d but stored status %d", ret, st);
  if (dig_oi(o, true) != d) fail("write-modifies-input", "writing changed the in-memory dataset");
  ev("writes", 1); return st;
}
void pending_errors(const char *what) { char m[FLEN_ERRMSG]; if (fits_read_errmsg(m)) { fail("pending-message", "error message left pending after successful %s: %s", what, m); fits_clear_errmsg(); } }
void *read_next(int k, fitsfile *f, int *st)
{
  void *t = malloc(DESC[k].size); memset(t, 0xA5, DESC[k].size); int ret = 0;
  switch (k)
  { case K_ARRAY: ret = read_next_oi_array(f, t, st); break; case K_WAVE: ret = read_next_oi_wavelength(f, t, st); break; case K_CORR: ret = read_next_oi_corr(f, t, st); break; case K_INSPOL: ret = read_next_oi_inspol(f, t, st); break;
    case K_VIS: ret = read_next_oi_vis(f, t, st); break; case K_VIS2: ret = read_next_oi_vis2(f, t, st); break; case K_T3: ret = read_next_oi_t3(f, t, st); break; case K_FLUX: ret = read_next_oi_flux(f, t, st); break; }
  if (ret != *st) fail("status-mismatch", "read_next %s returned %d but stored status %d", DESC[k].ext, ret, *st);
  if (*st) { free(t); return NULL; }
  return t;
}
void lib_free_tab(int k, void *t)
{
  switch (k)
  { case K_TARGET: free_oi_target(t); break; case K_ARRAY: free_oi_array(t); break; case K_WAVE: free_oi_wavelength(t); break; case K_CORR: free_oi_corr(t); break; case K_INSPOL: free_oi_inspol(t); break;
    case K_VIS: free_oi_vis(t); break; case K_VIS2: free_oi_vis2(t); break; case K_T3: free_oi_t3(t); break; case K_FLUX: free_oi_flux(t); break; }
  free(t);
}
static GenOpt big_opt(Rng *r)
{
  GenOpt g = gen_opt(r);
  if (g_case % 160 == 17) { g.maxwave = 130; g.maxrec = 2; g.maxtab = 1; }
  if (g_case % 400 == 33) { g.maxwave = 14000; g.maxrec = 2; g.maxtab = 1; g.nomap = true; g.noinspol = true; }
  if (g_case % 300 == 71) { g.maxrec = 1500; g.maxtab = 1; g.maxwave = 3; }
  return g;
}
/* Some written datasets hold v1 tables (as obtained by reading a v1 file) or a mixture of both. */
static void mix_revisions(Rng *r, oi_fits *o)
{
  for (int k = K_VIS; k <= K_T3; k++)
    for (GList *l = *listp(o, k); l; l = l->next)
    {
      if (tab_str(k, l->data, "CORRNAME")[0] || !chance(r, 0.5)) continue;
      if (k == K_VIS) { oi_vis *v = l->data; if (v->usevisrefmap || v->usecomplex || v->amptyp[0] || v->phityp[0] || v->amporder >= 0 || v->phiorder >= 0) continue; }
      tab_set_revn(k, l->data, 1);
      for (long i = 0; i < tab_rows(k, l->data); i++) { double t = 86400 * ru(r); if (k == K_VIS) ((oi_vis *)l->data)->record[i].time = t; else if (k == K_VIS2) ((oi_vis2 *)l->data)->record[i].time = t; else ((oi_t3 *)l->data)->record[i].time = t; }
    }
}

/* ---------- C01 ---------- */
void c01(Rng *r)
{
  GenOpt g = big_opt(r); if (chance(r, 0.12)) g.ver = 1;
  oi_fits o, b; GString *why = g_string_new(NULL); gen_oi(r, &g, &o); bool mixed = g.ver == 2 && chance(r, 0.1); if (mixed) mix_revisions(r, &o);
  char *p = oddpath(r, "rt.fits"); describe(&o, why); stage("write %s", why->str); sample("%s", why->str); g_string_truncate(why, 0);
  cap_begin(); int st = do_write(p, &o);
  if (st) fail("write-failed", "writing a representable dataset failed with status %d", st);
  else
  {
    pending_errors("write");
    st = do_read(r, p, &b);
    if (st) fail("read-failed", "reading back a written file failed with status %d", st);
    else
    {
      pending_errors("read");
      if (!cmp_oi(&o, &b, IGN_DATE | IGN_REVN | IGN_TIME | NORM_FLAGS | RSTRIP, why)) fail("roundtrip-differs", "dataset read back differs: %s", why->str);
      if (strcmp(b.header.content, "OIFITS2")) fail("content", "CONTENT read back is '%s'", b.header.content);
      for (int k = 0; k < NK; k++) for (int i = 0, n = tab_count(&b, k); i < n; i++) if (tab_revn(k, tab_at(&b, k, i)) != DESC[k].v2rev) fail("revision", "%s #%d read back with revision %d", DESC[k].ext, i + 1, tab_revn(k, tab_at(&b, k, i)));
      for (int k = K_VIS; k <= K_T3; k++) for (GList *l = *listp(&b, k); l; l = l->next) for (long i = 0; i < tab_rows(k, l->data); i++) { double t = k == K_VIS ? ((oi_vis *)l->data)->record[i].time : k == K_VIS2 ? ((oi_vis2 *)l->data)->record[i].time : ((oi_t3 *)l->data)->record[i].time; if (t != 0) { fail("time", "%s TIME %g read back, should be zero", DESC[k].ext, t); break; } }
      ev("files_roundtripped", 1); ev("values_compared", nvalues(&o)); cov_oi(&o);
      free_oi_fits(&b);
    }
  }
  cap_end(NULL, NULL); free_oi(&o); g_string_free(why, TRUE);
}

/* ---------- C02 ---------- */
void c02(Rng *r)
{
  GenOpt g = big_opt(r); if (chance(r, 0.15)) g.ver = 1;
  oi_fits o; GString *why = g_string_new(NULL); gen_oi(r, &g, &o); if (g.ver == 2 && chance(r, 0.15)) mix_revisions(r, &o);
  char *p = spath("w.fits"); describe(&o, why); stage("write %s", why->str); sample("%s", why->str); g_string_truncate(why, 0);
  cap_begin(); int st = do_write(p, &o); cap_end(NULL, NULL);
  if (st) fail("write-failed", "writing a representable dataset failed with status %d", st);
  else
  {
    GByteArray *b = g_byte_array_new(); slurp(p, b); Fits *f = dec_fits(b, why);
    if (!f) fail("malformed-fits", "written file is not well-formed FITS: %s", why->str);
    else { if (!conform_oifits2(f, &o, why)) fail("nonconforming", "written file does not conform: %s", why->str); ev("files_decoded", 1); ev("hdus_decoded", f->hdu->len); ev("cells_compared", nvalues(&o)); cov_oi(&o); dec_free(f); }
    g_byte_array_free(b, TRUE);
  }
  free_oi(&o); g_string_free(why, TRUE);
}

/* ---------- C03 ---------- */
/* CFITSIO unpacks such files as it opens them */
static void spew_gz(const char *p, GByteArray *f) { gzFile z = gzopen(p, "wb1"); if (!z || gzwrite(z, f->data, f->len) != (int)f->len || gzclose(z) != Z_OK) { fprintf(stderr, "cannot compress\n"); abort(); } ev("compressed_files", 1); cov("compressed file"); }
void c03(Rng *r)
{
  GenOpt g = gen_opt(r); EncOpt e = enc_opt(r, 2); oi_fits o, b; GString *why = g_string_new(NULL), *out = g_string_new(NULL), *err = g_string_new(NULL); gen_oi(r, &g, &o);
  if (e.longtarget && o.targets.ntarget) { target *t = &o.targets.targ[ri(r, 0, o.targets.ntarget - 1)]; memset(t->target, 'L', 32); for (int i = 0; i < 4; i++) t->target[ri(r, 0, 31)] = 'a' + ri(r, 0, 25); t->target[32] = 0; if (chance(r, 0.5)) { memset(t->spectyp, 'S', 32); t->spectyp[32] = 0; } }
  GArray *lay = g_array_new(FALSE, FALSE, sizeof(HduInfo)); GByteArray *f = enc_fits(r, &o, &e, lay); char *p = oddpath(r, "enc.fits"); if (chance(r, 0.03)) { p = spath("enc.fits.gz"); spew_gz(p, f); } else spew(p, f->data, f->len);
  describe(&o, why); stage("read %s", why->str); sample("%s; %u HDUs, %u bytes, shuffle %d%d%d case %d extra %d%d foreign %d types %d long %d", why->str, lay->len, f->len, e.shuffle_hdu, e.shuffle_col, e.shuffle_kw, e.casemix, e.extracol, e.extrakw, e.foreign, e.numvar, e.longtarget); g_string_truncate(why, 0);
  cap_begin(); int st = do_read(r, p, &b); cap_end(out, err);
  if (st) { char d[FLEN_STATUS]; fits_get_errstatus(st, d); fail("read-failed", "reading a conforming OIFITS2 file failed: %d %s", st, d); }
  else
  {
    pending_errors("read");
    if (!cmp_oi(&o, &b, RSTRIP, why)) fail("content-differs", "dataset read differs from the file's content: %s", why->str);
    if (strstr(err->str, "Skipping bad")) fail("skipped-good", "a conforming table was skipped: %s", err->str);
    ev("files_read", 1); ev("values_compared", nvalues(&o)); cov_oi(&o);
    cov("layout hdu%d col%d kw%d", e.shuffle_hdu, e.shuffle_col, e.shuffle_kw); cov("case%d extracol%d extrakw%d", e.casemix, e.extracol, e.extrakw); cov("foreign%d types%d sums%d", e.foreign, e.numvar, e.checksum); cov("pad%d long%d blank%d tdim%d", e.padwide, e.longtarget, e.blankname, e.tdimoff);
    for (guint i = 0; i < lay->len; i++) { HduInfo *h = &g_array_index(lay, HduInfo, i); if (h->kind == -1) ev("foreign_hdus", 1); }
    free_oi_fits(&b);
  }
  g_byte_array_free(f, TRUE); g_array_free(lay, TRUE); free_oi(&o); g_string_free(why, TRUE); g_string_free(out, TRUE); g_string_free(err, TRUE);
}

/* ---------- C04 ---------- */
static double min_mjd(const oi_fits *o)
{
  double m = 100000; bool any = false;
  for (int k = K_VIS; k <= K_FLUX; k++) for (GList *l = *listp((oi_fits *)o, k); l; l = l->next) for (long i = 0; i < tab_rows(k, l->data); i++)
  { double t = k == K_VIS ? ((oi_vis *)l->data)->record[i].mjd : k == K_VIS2 ? ((oi_vis2 *)l->data)->record[i].mjd : k == K_T3 ? ((oi_t3 *)l->data)->record[i].mjd : ((oi_flux *)l->data)->record[i].mjd; if (!any || t < m) m = t; any = true; }
  return m;
}
void expect_v1_header(oi_fits *o)
{
  oi_header *h = &o->header; int na = tab_count(o, K_ARRAY), nw = tab_count(o, K_WAVE);
  strcpy(h->telescop, na == 0 ? "UNKNOWN" : na == 1 ? ((oi_array *)tab_at(o, K_ARRAY, 0))->arrname : "MULTIPLE");
  strcpy(h->instrume, nw == 1 ? ((oi_wavelength *)tab_at(o, K_WAVE, 0))->insname : "MULTIPLE");
  strcpy(h->object, o->targets.ntarget == 1 ? o->targets.targ[0].target : "MULTIPLE");
  strcpy(h->origin, "UNKNOWN"); strcpy(h->observer, "UNKNOWN"); strcpy(h->insmode, "UNKNOWN");
  time_t t = (time_t)((floor(min_mjd(o)) - 40587.0) * 86400.0); struct tm tm; gmtime_r(&t, &tm); strftime(h->date_obs, FLEN_VALUE, "%Y-%m-%d", &tm);
}
static void call_upgrade(int k, void *t)
{ switch (k) { case K_TARGET: upgrade_oi_target(t); break; case K_ARRAY: upgrade_oi_array(t); break; case K_WAVE: upgrade_oi_wavelength(t); break; case K_VIS: upgrade_oi_vis(t); break; case K_VIS2: upgrade_oi_vis2(t); break; case K_T3: upgrade_oi_t3(t); break; } }
void c04(Rng *r)
{
  GenOpt g = gen_opt(r); g.ver = 1; if (chance(r, 0.5)) g.physical = true; if (chance(r, 0.3)) g.ntarget = 1; oi_fits o, b, c; GString *why = g_string_new(NULL), *out = g_string_new(NULL), *err = g_string_new(NULL); gen_oi(r, &g, &o);
  for (int k = K_VIS; k <= K_T3; k++) for (GList *l = *listp(&o, k); l; l = l->next) for (long i = 0; i < tab_rows(k, l->data); i++) { double *m = k == K_VIS ? &((oi_vis *)l->data)->record[i].mjd : k == K_VIS2 ? &((oi_vis2 *)l->data)->record[i].mjd : &((oi_t3 *)l->data)->record[i].mjd; if (!(*m > 20000 && *m < 80000)) *m = 51544; }
  /* names that are repeated, or that no table has */
  if (chance(r, 0.12)) { int n = tab_count(&o, K_ARRAY); if (n > 1 && chance(r, 0.5)) { for (int i = 1; i < n; i++) strcpy(tab_strp(K_ARRAY, tab_at(&o, K_ARRAY, i), "ARRNAME"), tab_str(K_ARRAY, tab_at(&o, K_ARRAY, 0), "ARRNAME")); cov("arrays of the same name"); } else for (int k = K_VIS; k <= K_T3; k++) for (GList *l = *listp(&o, k); l; l = l->next) if (chance(r, 0.4)) { strcpy(tab_strp(k, l->data, "ARRNAME"), "NOSUCHARRAY"); cov("reference to a missing array"); } rehash(&o); }
  EncOpt e = enc_opt(r, 1); e.longtarget = false; if (chance(r, 0.3)) { strcpy(o.header.content, "OIFITS1"); }
  GByteArray *f = enc_fits(r, &o, &e, NULL); char *p = spath("v1.fits"), *q = spath("v2.fits"); spew(p, f->data, f->len); g_byte_array_free(f, TRUE);
  o.header.content[0] = 0; expect_v1_header(&o);
  describe(&o, why); stage("read v1 %s", why->str); sample("%s", why->str); g_string_truncate(why, 0);
  cap_begin(); int st = do_read(r, p, &b); cap_end(out, err);
  if (st) { fail("read-failed", "reading a conforming v1 file failed with status %d", st); goto end; }
  pending_errors("read"); b.header.content[0] = 0;
  if (!cmp_oi(&o, &b, RSTRIP, why)) fail("v1-read-differs", "v1 dataset read differs from the file: %s", why->str);
  if (strstr(err->str, "Skipping bad")) fail("skipped-good", "a conforming v1 table was skipped: %s", err->str);
  if (!is_oi_fits_one(&b) || is_oi_fits_two(&b)) fail("version", "v1 dataset not classified as v1");
  cov_oi(&o); ev("v1_files_read", 1); cov("hdr arrays%d waves%d targets%d", MIN(tab_count(&o, K_ARRAY), 2), MIN(tab_count(&o, K_WAVE), 2), MIN(o.targets.ntarget, 2));
  /* upgrade by writing */
  cap_begin(); st = do_write(q, &b); cap_end(NULL, NULL);
  if (st) fail("write-failed", "writing v1 data failed with status %d", st);
  else
  {
    cap_begin(); st = do_read(r, q, &c); cap_end(NULL, NULL);
    if (st) fail("read-failed", "reading the upgraded file failed with status %d", st);
    else
    {
      g_string_truncate(why, 0);
      if (!cmp_oi(&b, &c, IGN_DATE | IGN_REVN | IGN_TIME | RSTRIP, why)) fail("upgrade-differs", "data changed by writing as v2: %s", why->str);
      if (!is_oi_fits_two(&c) || is_oi_fits_one(&c)) fail("version", "upgraded file not classified as v2");
      oi_check_result cr; init_check_result(&cr); if (check_tables(&c, &cr) != OI_BREACH_NONE && tab_count(&c, K_ARRAY)) fail("upgrade-nonconforming", "upgraded dataset has wrong table revisions"); free_check_result(&cr);
      init_check_result(&cr); if (check_time(&c, &cr) != OI_BREACH_NONE) fail("upgrade-time", "upgraded dataset has non-zero TIME"); free_check_result(&cr);
      ev("upgraded_by_write", 1); free_oi_fits(&c);
    }
  }
  /* upgrade table by table */
  for (int k = 0; k <= K_T3; k++)
  {
    if (k == K_CORR || k == K_INSPOL) continue;
    for (int i = 0, n = tab_count(&b, k); i < n; i++)
    {
      void *t = copy_tab(k, tab_at(&b, k, i)); stage("upgrade %s", DESC[k].ext); call_upgrade(k, t); g_string_truncate(why, 0);
      if (tab_revn(k, t) != 2) fail("upgrade-revision", "%s upgraded to revision %d", DESC[k].ext, tab_revn(k, t));
      if (!cmp_tab(k, tab_at(&b, k, i), t, IGN_REVN | IGN_TIME, why)) fail("upgrade-table-differs", "upgrading changed more than revision and TIME: %s", why->str);
      if (k >= K_VIS) for (long j = 0; j < tab_rows(k, t); j++) { double tm = k == K_VIS ? ((oi_vis *)t)->record[j].time : k == K_VIS2 ? ((oi_vis2 *)t)->record[j].time : ((oi_t3 *)t)->record[j].time; if (tm != 0) fail("upgrade-time", "%s TIME not zeroed", DESC[k].ext); }
      if (k == K_VIS) { oi_vis *v = t; if (v->amptyp[0] || v->phityp[0] || v->corrname[0] || v->amporder != -1 || v->phiorder != -1 || v->usevisrefmap || v->usecomplex) fail("upgrade-optional", "upgraded OI_VIS has optional items specified"); }
      uint64_t d = dig_tab(k, t, true); call_upgrade(k, t); if (dig_tab(k, t, true) != d) fail("upgrade-v2-changes", "upgrading a v2 %s changed it", DESC[k].ext);
      free_tab(k, t, true); ev("tables_upgraded", 1);
    }
  }
  /* a v2 table with non-zero TIME and every option is left alone */
  { GenOpt h = gen_opt(r); oi_fits v; gen_oi(r, &h, &v);
    for (int k = 0; k <= K_T3; k++) { if (k == K_CORR || k == K_INSPOL) continue; for (int i = 0, n = tab_count(&v, k); i < n; i++) { void *t = tab_at(&v, k, i); if (k >= K_VIS && tab_rows(k, t)) { if (k == K_VIS) ((oi_vis *)t)->record[0].time = 5; else if (k == K_VIS2) ((oi_vis2 *)t)->record[0].time = 5; else ((oi_t3 *)t)->record[0].time = 5; } uint64_t d = dig_tab(k, t, true); call_upgrade(k, t); if (dig_tab(k, t, true) != d) fail("upgrade-v2-changes", "upgrading a v2 %s changed it", DESC[k].ext); } }
    free_oi(&v); }
  /* upgrade by merging */
  { GList *l = g_list_append(NULL, &b); oi_fits m; stage("merge v1"); cap_begin(); merge_oi_fits_list(l, &m); cap_end(NULL, NULL); g_string_truncate(why, 0);
    for (int k = K_VIS; k <= K_T3; k++)
    {
      int n = tab_count(&b, k); if (tab_count(&m, k) != n) { fail("merge-v1-lost", "merging lost %s tables", DESC[k].ext); continue; }
      for (int i = 0; i < n; i++) { if (!cmp_tab(k, tab_at(&b, k, i), tab_at(&m, k, i), IGN_REVN | IGN_TIME | IGN_NAMES | IGN_TID, why)) fail("merge-v1-differs", "data changed by merging: %s", why->str); if (tab_revn(k, tab_at(&m, k, i)) != 2) fail("merge-v1-revision", "merged %s has revision %d", DESC[k].ext, tab_revn(k, tab_at(&m, k, i)));
        for (long j = 0; j < tab_rows(k, tab_at(&m, k, i)); j++) { void *t = tab_at(&m, k, i); double tm = k == K_VIS ? ((oi_vis *)t)->record[j].time : k == K_VIS2 ? ((oi_vis2 *)t)->record[j].time : ((oi_t3 *)t)->record[j].time; if (tm != 0) fail("merge-v1-time", "merged %s TIME not zeroed", DESC[k].ext); } }
    }
    for (int k = 0; k <= K_WAVE; k++) for (int i = 0, n = tab_count(&m, k); i < n; i++) if (tab_revn(k, tab_at(&m, k, i)) != 2) fail("merge-v1-revision", "merged %s has revision %d", DESC[k].ext, tab_revn(k, tab_at(&m, k, i)));
    ev("merged_v1", 1); free_oi_fits(&m); g_list_free(l); }
  free_oi_fits(&b);
end:
  free_oi(&o); g_string_free(why, TRUE); g_string_free(out, TRUE); g_string_free(err, TRUE);
}

/* ---------- C06 ---------- */
static bool dir_empty_except(const char *keep)
{ DIR *d = opendir(g_scratch); struct dirent *e; bool ok = true; while ((e = readdir(d))) if (e->d_name[0] != '.' && strncmp(e->d_name, "cap.", 4) && strcmp(e->d_name, keep)) ok = false; closedir(d); return ok; }
static int limited_write(const char *p, const oi_fits *o, long lim)
{
  struct rlimit old, nw; getrlimit(RLIMIT_FSIZE, &old); nw = old; nw.rlim_cur = lim; fflush(NULL);
  setrlimit(RLIMIT_FSIZE, &nw); int st = do_write(p, o); setrlimit(RLIMIT_FSIZE, &old); return st;
}
/* The tables of b must be a subsequence of those of a, each whole. */
static bool subseq(const oi_fits *a, const oi_fits *b, GString *why)
{
  for (int k = 0; k < NK; k++)
  {
    int i = 0, n = tab_count(a, k), m = tab_count(b, k);
    for (int j = 0; j < m; j++)
    {
      bool hit = false; GString *w = g_string_new(NULL);
      while (i < n && !hit) { g_string_truncate(w, 0); hit = cmp_tab(k, tab_at(a, k, i), tab_at(b, k, j), RSTRIP, w); i++; }
      if (!hit) { g_string_append_printf(why, "%s #%d of the result is no table of the file (%s)", DESC[k].ext, j + 1, w->str); g_string_free(w, TRUE); return false; }
      g_string_free(w, TRUE);
    }
  }
  return true;
}
static size_t data_start(GByteArray *f, size_t off) { for (size_t i = off; i + 80 <= f->len; i += 80) if (!memcmp(f->data + i, "END     ", 8)) return (i - off) / 2880 * 2880 + off + 2880; return off; }
static size_t data_bytes(GByteArray *f, size_t off)
{ long n1 = 0, n2 = 0, pc = 0; for (size_t i = off; i + 80 <= f->len && memcmp(f->data + i, "END     ", 8); i += 80) { char *c = (char *)f->data + i; if (!strncmp(c, "NAXIS1  =", 9)) n1 = strtol(c + 10, NULL, 10); if (!strncmp(c, "NAXIS2  =", 9)) n2 = strtol(c + 10, NULL, 10); if (!strncmp(c, "PCOUNT  =", 9)) pc = strtol(c + 10, NULL, 10); } return n1 * n2 + pc; }
void c06(Rng *r)
{
  GenOpt g = gen_opt(r); if (chance(r, 0.25)) { g.maxwave = 60; g.maxrec = 12; } oi_fits o, b; GString *why = g_string_new(NULL), *err = g_string_new(NULL); gen_oi(r, &g, &o); char *p = spath("out.fits"); GByteArray *f = g_byte_array_new();
  int what = ri(r, 0, 9);
  if (what <= 2)
  {
    /* disk full at a point between 0 and the size of the complete file */
    cap_begin(); int st = do_write(p, &o); cap_end(NULL, NULL); if (st) { fail("write-failed", "unlimited write failed: %d", st); goto end; }
    slurp(p, f); long size = f->len; unlink(p);
    for (int rep = 0; rep < 6; rep++)
    {
      long lim; switch (ri(r, 0, 4)) { case 0: lim = ri(r, 0, size - 1); break; case 1: lim = size - 1 - ri(r, 0, MIN(2880, size - 1)); break; case 2: lim = ri(r, 0, size / 2880 - 1) * 2880L; break; case 3: lim = size - 1; break; default: lim = ri(r, 0, size / 2880 - 1) * 2880L + ri(r, 0, 2879); }
      stage("write_oi_fits with space for %ld of %ld bytes", lim, size);
      bool hush = chance(r, 0.5); oi_hush_errors = hush; cap_begin(); st = limited_write(p, &o, lim); cap_end(NULL, err); oi_hush_errors = 1; if (st && lim >= 20000) judge_report("write_oi_fits", st, hush, false, err); /* the limit also holds for the file stderr goes to */ struct stat sb; long got = stat(p, &sb) ? -1 : sb.st_size;
      if (!st) fail(size - lim < 4096 ? "lost-final-flush" : "lost-write", "writing reported success although only %ld of %ld bytes fit (file has %ld)", lim, size, got);
      ev("full_disk_points", 1); cov("full at block %ld of %ld", MIN(lim / 2880, 40), MIN(size / 2880, 41)); unlink(p); fits_clear_errmsg();
    }
    cap_begin(); st = limited_write(p, &o, size); if (st) fail("write-failed", "writing failed (%d) although the file just fits", st);
    cap_end(NULL, NULL); unlink(p);
    cap_begin(); st = do_write(p, &o); cap_end(NULL, NULL); if (st) fail("write-after-failure", "a write after a failed one failed: %d", st);
  }
  else if (what == 3)
  {
    static const char *bad[] = {"nodir/x.fits", "file/x.fits", "", "sub"}; int i = ri(r, 0, 3); char q[900]; snprintf(q, sizeof q, "%s/%s", g_scratch, bad[i]);
    if (i == 1) spew(spath("file"), "x", 1); if (i == 3) mkdir(spath("sub"), 0700);
    cap_begin(); int st = do_write(q, &o); cap_end(NULL, NULL); if (!st) fail("unwritable-success", "writing to '%s' reported success", bad[i]); ev("unwritable_paths", 1); cov("unwritable %d", i);
  }
  else if (what == 4 || what == 5)
  {
    /* existing file of any kind */
    int kind = ri(r, 0, 3); if (kind == 0) { cap_begin(); do_write(p, &o); cap_end(NULL, NULL); } else { GByteArray *x = g_byte_array_new(); int n = kind == 1 ? 0 : ri(r, 1, 6000); for (int i = 0; i < n; i++) { uint8_t c = rnd(r); g_byte_array_append(x, &c, 1); } spew(p, x->data ? x->data : (uint8_t *)"", n); g_byte_array_free(x, TRUE); if (kind == 3) chmod(p, 0444); }
    slurp(p, f); struct stat s1, s2; stat(p, &s1); GenOpt h = gen_opt(r); oi_fits o2; gen_oi(r, &h, &o2); stage("write_oi_fits over existing");
    cap_begin(); int st = do_write(p, &o2); cap_end(NULL, NULL); stat(p, &s2); if (!st) fail("overwrite-success", "writing onto an existing file reported success");
    GByteArray *x = g_byte_array_new(); if (!slurp(p, x) || x->len != f->len || (f->len && memcmp(x->data, f->data, f->len))) fail("overwritten", "an existing file was changed by a refused write"); if (s1.st_ino != s2.st_ino) fail("overwritten", "an existing file was replaced");
    g_byte_array_free(x, TRUE); free_oi(&o2); ev("existing_files_tried", 1); cov("existing kind %d", kind);
  }
  else if (what == 6)
  {
    /* unreadable things */
    int i = ri(r, 0, 4); if (i == 0) unlink(p); if (i == 1) mkdir(p, 0700); if (i == 2) spew(p, "", 0); if (i == 3) { uint8_t x[9000]; junk(r, x, sizeof x); x[0] = 'X'; spew(p, x, ri(r, 1, 9000)); } if (i == 4) { char t[3000]; memset(t, ' ', sizeof t); memcpy(t, "SIMPLE  =                    T", 30); spew(p, t, ri(r, 30, 2880)); }
    cap_begin(); int st = do_read(r, p, &b); cap_end(NULL, NULL); if (!st) { fail("unreadable-success", "reading %s reported success", (const char *[]){"a missing file", "a directory", "an empty file", "random bytes", "a header fragment"}[i]); }
    ev("unreadable_inputs", 1); cov("unreadable %d", i); if (i == 1) rmdir(p);
  }
  else
  {
    /* truncated file */
    EncOpt e = enc_opt(r, 2); e.longtarget = false; if (chance(r, 0.5)) e.shuffle_hdu = false; GArray *lay = g_array_new(FALSE, FALSE, sizeof(HduInfo)); GByteArray *x = enc_fits(r, &o, &e, lay);
    for (int rep = 0; rep < 4; rep++)
    {
      HduInfo *h = &g_array_index(lay, HduInfo, ri(r, 1, lay->len - 1)); size_t ds = data_start(x, h->off), db = data_bytes(x, h->off), cut;
      if (chance(r, 0.8) && db) cut = ds + rnd(r) % db; else cut = rnd(r) % x->len;
      spew(p, x->data, cut); bool mand = false; int opt = 0;
      for (guint i = 1; i < lay->len; i++)
      { HduInfo *q = &g_array_index(lay, HduInfo, i); size_t qs = data_start(x, q->off), qb = data_bytes(x, q->off); if (q->kind == K_TARGET && cut < qs + qb) mand = true; if ((q->kind == K_ARRAY || q->kind == K_WAVE) && cut >= qs && cut < qs + qb) mand = true; if (q->kind >= K_CORR && cut >= qs && cut < qs + qb) opt = q->kind; }
      stage("read_oi_fits truncated at %zu of %u", cut, x->len); cap_begin(); int st = do_read(r, p, &b); cap_end(NULL, err); g_string_truncate(why, 0);
      if (st == 0)
      {
        if (mand) fail("truncation-unreported", "file cut at byte %zu of %u inside a target, array or wavelength table, yet reading reported success", cut, x->len);
        if (!subseq(&o, &b, why)) fail("invented-data", "file cut at byte %zu of %u: %s", cut, x->len, why->str);
        if (opt && !strstr(err->str, "Skipping bad")) fail("truncation-silent", "file cut at byte %zu of %u inside an %s table: neither an error nor a skipped-table report", cut, x->len, DESC[opt].ext);
        free_oi_fits(&b); ev("truncated_read_ok", 1);
      }
      else ev("truncated_read_error", 1);
      cov("cut in %s%s %s", h->kind >= 0 ? DESC[h->kind].ext : "other", mand ? " mandatory" : "", st ? "error" : "ok"); fits_clear_errmsg();
    }
    g_byte_array_free(x, TRUE); g_array_free(lay, TRUE);
  }
end:
  g_byte_array_free(f, TRUE); free_oi(&o); g_string_free(why, TRUE); g_string_free(err, TRUE);
}

/* ---------- C19 ---------- */
typedef struct { uint8_t *a, *b; size_t n; } Snap;
static void snap(Rng *r, Snap *s, size_t n) { s->n = n; s->a = malloc(n); s->b = malloc(n); junk(r, s->a, n); memcpy(s->b, s->a, n); }
static bool same(Snap *s) { bool ok = !memcmp(s->a, s->b, s->n); free(s->a); free(s->b); return ok; }
static int call_read(int fn, fitsfile *f, const oi_fits *o, void *buf, const char *path, int *st, const char **name)
{
  static const char *nm[] = {"read_oi_header", "read_oi_target", "read_oi_array", "read_next_oi_array", "read_oi_wavelength", "read_next_oi_wavelength", "read_oi_corr", "read_next_oi_corr", "read_next_oi_inspol", "read_next_oi_vis", "read_next_oi_vis2", "read_next_oi_t3", "read_next_oi_flux", "read_oi_fits"}; *name = nm[fn];
  char an[FLEN_VALUE] = "x", wn[FLEN_VALUE] = "x", cn[FLEN_VALUE] = "x"; if (o->arrayList) strcpy(an, ((oi_array *)o->arrayList->data)->arrname); if (o->wavelengthList) strcpy(wn, ((oi_wavelength *)o->wavelengthList->data)->insname); if (o->corrList) strcpy(cn, ((oi_corr *)o->corrList->data)->corrname);
  switch (fn)
  { case 0: return read_oi_header(f, buf, st); case 1: return read_oi_target(f, buf, st); case 2: return read_oi_array(f, an, buf, st); case 3: return read_next_oi_array(f, buf, st); case 4: return read_oi_wavelength(f, wn, buf, st); case 5: return read_next_oi_wavelength(f, buf, st); case 6: return read_oi_corr(f, cn, buf, st); case 7: return read_next_oi_corr(f, buf, st); case 8: return read_next_oi_inspol(f, buf, st);
    case 9: return read_next_oi_vis(f, buf, st); case 10: return read_next_oi_vis2(f, buf, st); case 11: return read_next_oi_t3(f, buf, st); case 12: return read_next_oi_flux(f, buf, st); case 13: return read_oi_fits(path, buf, st); }
  return 0;
}
static const int RD_KIND[] = {-1, K_TARGET, K_ARRAY, K_ARRAY, K_WAVE, K_WAVE, K_CORR, K_CORR, K_INSPOL, K_VIS, K_VIS2, K_T3, K_FLUX, -2};
static int call_write(int fn, fitsfile *f, const oi_fits *o, const char *path, int *st, const char **name)
{
  static const char *nm[] = {"write_oi_header", "write_oi_target", "write_oi_array", "write_oi_wavelength", "write_oi_corr", "write_oi_inspol", "write_oi_vis", "write_oi_vis2", "write_oi_t3", "write_oi_flux", "write_oi_fits"}; *name = nm[fn];
#define TB(k, T) (*(T *)o->k##List->data)
  switch (fn)
  { case 0: return write_oi_header(f, o->header, st); case 1: return write_oi_target(f, o->targets, st); case 2: return write_oi_array(f, TB(array, oi_array), 1, st); case 3: return write_oi_wavelength(f, TB(wavelength, oi_wavelength), 1, st); case 4: return write_oi_corr(f, TB(corr, oi_corr), 1, st); case 5: return write_oi_inspol(f, TB(inspol, oi_inspol), 1, st);
    case 6: return write_oi_vis(f, TB(vis, oi_vis), 1, st); case 7: return write_oi_vis2(f, TB(vis2, oi_vis2), 1, st); case 8: return write_oi_t3(f, TB(t3, oi_t3), 1, st); case 9: return write_oi_flux(f, TB(flux, oi_flux), 1, st); case 10: return write_oi_fits(path, *o, st); }
  return 0;
}
size_t __sanitizer_get_current_allocated_bytes(void);
void c19(Rng *r)
{
  GenOpt g = gen_opt(r); g.nozero = true; oi_fits o; gen_oi(r, &g, &o); GString *out = g_string_new(NULL), *err = g_string_new(NULL); const char *name; int pend = ri(r, 0, 3) ? ri(r, 1, 500) : (int[]){-1, 107, 202, 219, 2147483647, -2147483647 - 1}[ri(r, 0, 5)]; oi_hush_errors = chance(r, 0.5);
  char *p = spath("a.fits"), *q = spath("b.fits"), *n = spath("c.fits"); int st = 0; cap_begin(); st = do_write(p, &o); cap_end(NULL, NULL); if (st) fail("write-failed", "write failed %d", st);
  if (chance(r, 0.5))
  { /* a file that a reader would have something to say about: unknown revisions, wrong checksums */
    fitsfile *g = NULL; int s = 0, nh = 0, rev = ri(r, 3, 99), ty; fits_open_file(&g, p, READWRITE, &s); fits_get_num_hdus(g, &nh, &s); for (int h = 2; h <= nh; h++) { fits_movabs_hdu(g, h, &ty, &s); fits_update_key(g, TINT, "OI_REVN", &rev, NULL, &s); } fits_close_file(g, &s); if (s) fail("patch-file", "cannot patch the file: %d", s); cov("talkative file"); }
  GByteArray *before = g_byte_array_new(), *after = g_byte_array_new(); slurp(p, before);
  fitsfile *f = NULL; int s = 0; fits_open_file(&f, p, READONLY, &s); int nh = 0; fits_get_num_hdus(f, &nh, &s);
  for (int rep = 0; rep < 14 && !s; rep++)
  {
    int pos = ri(r, 1, nh), now = 0, ty; fits_movabs_hdu(f, pos, &ty, &s); Snap sn; snap(r, &sn, sizeof(oi_fits) > 2000 ? sizeof(oi_fits) : 2000); st = pend; cap_begin(); size_t m0 = __sanitizer_get_current_allocated_bytes(); int ret = call_read(rep, f, &o, sn.a, p, &st, &name); size_t m1 = __sanitizer_get_current_allocated_bytes(); cap_end(out, err);
    if (ret != pend || st != pend) fail("status-changed", "%s with status %d returned %d and left status %d", name, pend, ret, st);
    if (!same(&sn)) fail("data-touched", "%s with pending status modified the caller's struct", name);
    fits_get_hdu_num(f, &now); if (now != pos) fail("position-moved", "%s with pending status moved from HDU %d to %d", name, pos, now);
    if (out->len || err->len) fail("message-printed", "%s with pending status printed: %s%s", name, out->str, err->str);
    if (m0 != m1) fail("memory-changed", "%s with pending status allocated or freed memory", name);
    char msg[FLEN_ERRMSG]; if (fits_read_errmsg(msg)) { fail("error-queued", "%s with pending status queued a message: %s", name, msg); fits_clear_errmsg(); }
    ev("pending_calls", 1); cov("pending %s status %s", name, pend < 0 ? "neg" : pend == 107 ? "eof" : "pos");
  }
  s = 0; if (f) fits_close_file(f, &s);
  slurp(p, after); if (after->len != before->len || memcmp(after->data, before->data, after->len)) fail("file-changed", "input file changed by pending reads");
  /* writers; half of the time of tables that a writer would warn about */
  bool talk = chance(r, 0.5); if (talk) { for (int k = 0; k < NK; k++) for (int i = 0, m = tab_count(&o, k); i < m; i++) *(int *)tab_at(&o, k, i) = chance(r, 0.8) ? ri(r, -1, 1) : 3; for (int k = K_INSPOL; k <= K_FLUX; k++) for (GList *l = *listp(&o, k); l; l = l->next) if (chance(r, 0.5)) memset(tab_str(k, l->data, "ARRNAME"), 0, FLEN_VALUE); cov("talkative dataset"); }
  f = NULL; s = 0; fits_create_file(&f, q, &s); st = 0; cap_begin(); write_oi_header(f, o.header, &st); write_oi_target(f, o.targets, &st); cap_end(NULL, NULL); fits_flush_file(f, &s); slurp(q, before); int n0 = 0, n1 = 0; fits_get_num_hdus(f, &n0, &s);
  for (int fn = 0; fn <= 10; fn++)
  {
    if (fn == 4 && !o.corrList) continue; if (fn == 5 && !o.inspolList) continue;
    int hp0 = 0, hp1 = 0; fits_get_hdu_num(f, &hp0); uint64_t d = dig_oi(&o, true); st = pend; cap_begin(); int ret = call_write(fn, f, &o, n, &st, &name); cap_end(out, err);
    if (ret != pend || st != pend) fail("status-changed", "%s with status %d returned %d and left status %d", name, pend, ret, st); if (dig_oi(&o, true) != d) fail("data-touched", "%s with pending status modified the dataset", name);
    if (out->len || err->len) fail("message-printed", "%s with pending status printed: %s%s", name, out->str, err->str); fits_get_num_hdus(f, &n1, &s); if (n1 != n0) fail("hdu-added", "%s with pending status added an HDU", name); fits_get_hdu_num(f, &hp1); if (hp0 != hp1) fail("position-moved", "%s with pending status moved", name);
    char msg[FLEN_ERRMSG]; if (fits_read_errmsg(msg)) { fail("error-queued", "%s with pending status queued a message: %s", name, msg); fits_clear_errmsg(); }
    ev("pending_calls", 1); cov("pending %s", name);
  }
  if (access(n, F_OK) == 0) fail("file-created", "write_oi_fits with pending status created a file");
  fits_flush_file(f, &s); slurp(q, after); if (after->len != before->len || memcmp(after->data, before->data, after->len)) fail("file-changed", "output file changed by pending writes"); s = 0; if (f) fits_close_file(f, &s);
  /* success leaves zero and no pending message; every call's return equals its status */
  s = 0; f = NULL; fits_open_file(&f, p, READONLY, &s);
  for (int i = 0; i < 6; i++)
  {
    int fn = ri(r, 0, 12), ty; s = 0; fits_movabs_hdu(f, ri(r, 1, nh), &ty, &s); void *buf = malloc(4000); st = 0; cap_begin(); int ret = call_read(fn, f, &o, buf, p, &st, &name); cap_end(out, err);
    if (ret != st) fail("status-mismatch", "%s returned %d but stored %d", name, ret, st); if (!st) { pending_errors(name); if (RD_KIND[fn] >= 0) { switch (RD_KIND[fn]) { case K_TARGET: free_oi_target(buf); break; case K_ARRAY: free_oi_array(buf); break; case K_WAVE: free_oi_wavelength(buf); break; case K_CORR: free_oi_corr(buf); break; case K_INSPOL: free_oi_inspol(buf); break; case K_VIS: free_oi_vis(buf); break; case K_VIS2: free_oi_vis2(buf); break; case K_T3: free_oi_t3(buf); break; case K_FLUX: free_oi_flux(buf); break; } } ev("clean_successes", 1); }
    free(buf); fits_clear_errmsg();
  }
  s = 0; if (f) fits_close_file(f, &s);
  /* failures: ret == status != 0 */
  { oi_fits b; cap_begin(); st = do_read(r, spath("absent.fits"), &b); if (!st) fail("absent-success", "reading an absent file succeeded"); st = do_write(p, &o); if (!st) fail("overwrite-success", "overwriting succeeded"); cap_end(NULL, NULL); ev("failures_seen", 1); }
  oi_hush_errors = 1; g_byte_array_free(before, TRUE); g_byte_array_free(after, TRUE); free_oi(&o); g_string_free(out, TRUE); g_string_free(err, TRUE);
}

/* ---------- C21 ---------- */
void c21(Rng *r)
{
  GenOpt g = gen_opt(r); g.nozero = true; if (chance(r, 0.1)) g.ver = 1; oi_fits o; GString *why = g_string_new(NULL); gen_oi(r, &g, &o);
  if (g.ver == 2 && chance(r, 0.25))
  { /* a second table under a name already used: lookup by name must give the first */
    int k = K_ARRAY + ri(r, 0, 2); if (tab_count(&o, k)) { void *a = tab_at(&o, k, 0), *b = copy_tab(k, a); if (k == K_ARRAY) ((oi_array *)b)->arrayx += 17; if (k == K_WAVE) ((oi_wavelength *)b)->eff_wave[0] *= 1.5f; if (k == K_CORR) ((oi_corr *)b)->ndata += 3; add_tab(&o, k, b); } }
  EncOpt e = enc_opt(r, g.ver); e.longtarget = false; e.foreign = chance(r, 0.8); e.shuffle_hdu = chance(r, 0.85); GArray *lay = g_array_new(FALSE, FALSE, sizeof(HduInfo)); GByteArray *x = enc_fits(r, &o, &e, lay); char *p = spath("t.fits"); spew(p, x->data, x->len); g_byte_array_free(x, TRUE);
  int s = 0, ty; fitsfile *f = NULL; fits_open_file(&f, p, READONLY, &s); if (s) { fail("open", "CFITSIO cannot open the generated file: %d", s); goto end; }
  int nh = lay->len, pos = 1; 
  for (int step = 0; step < 30; step++)
  {
    int op = ri(r, 0, 13); s = 0; cap_begin();
    if (op < 7)
    {
      int k = K_ARRAY + ri(r, 0, NK - 2), at = 0; for (int i = pos; i < nh && !at; i++) if (g_array_index(lay, HduInfo, i).kind == k) at = i + 1;
      stage("read_next %s from HDU %d", DESC[k].ext, pos); void *t = read_next(k, f, &s); cap_end(NULL, NULL);
      if (!at) { if (s == 0) { fail("next-beyond-end", "reading the next %s after HDU %d succeeded although there is none", DESC[k].ext, pos); lib_free_tab(k, t); } else if (s != END_OF_FILE) fail("next-not-eof", "reading the next %s after the last one gave status %d, not end of file", DESC[k].ext, s); pos = ri(r, 1, nh); s = 0; fits_clear_errmsg(); fits_movabs_hdu(f, pos, &ty, &s); ev("end_of_file_seen", 1); }
      else if (s) { fail("next-failed", "reading the next %s after HDU %d failed with status %d (it is HDU %d)", DESC[k].ext, pos, s, at); pos = 1; s = 0; fits_clear_errmsg(); fits_movabs_hdu(f, 1, &ty, &s); }
      else { g_string_truncate(why, 0); if (!cmp_tab(k, g_array_index(lay, HduInfo, at - 1).tab, t, RSTRIP, why)) fail("next-wrong", "next %s after HDU %d is not HDU %d: %s", DESC[k].ext, pos, at, why->str); lib_free_tab(k, t); pos = at; int now; fits_get_hdu_num(f, &now); if (now != at) fail("next-position", "after reading HDU %d the position is HDU %d", at, now); ev("next_tables_read", 1); cov("next %s gap %d", DESC[k].ext, MIN(at - pos, 5)); }
    }
    else if (op < 11)
    {
      int k = K_ARRAY + ri(r, 0, 2); const char *kw = k == K_ARRAY ? "ARRNAME" : k == K_WAVE ? "INSNAME" : "CORRNAME"; char nm[FLEN_VALUE] = "no such name"; int n = tab_count(&o, k); void *want = NULL; if (n && chance(r, 0.8)) strcpy(nm, tab_str(k, tab_at(&o, k, ri(r, 0, n - 1)), kw)); else if (n && chance(r, 0.5)) { strcpy(nm, tab_str(k, tab_at(&o, k, 0), kw)); int l = strlen(nm); if (chance(r, 0.5) && l > 1) nm[l - 1] = 0; else nm[0] ^= 1; } if (chance(r, 0.1)) strcpy(nm, "foreign");
      char *tr = nm + strlen(nm); while (tr > nm && tr[-1] == ' ') *--tr = 0;
      for (int i = 0; i < nh && !want; i++) { HduInfo *h = &g_array_index(lay, HduInfo, i); if (h->kind != k) continue; char b[FLEN_VALUE]; strcpy(b, tab_str(k, h->tab, kw)); char *q = b + strlen(b); while (q > b && q[-1] == ' ') *--q = 0; if (!strcmp(b, nm)) want = h->tab; }
      void *t = malloc(DESC[k].size); memset(t, 0x5A, DESC[k].size); stage("read %s by name '%s' from HDU %d", DESC[k].ext, nm, pos); int ret = k == K_ARRAY ? read_oi_array(f, nm, t, &s) : k == K_WAVE ? read_oi_wavelength(f, nm, t, &s) : read_oi_corr(f, nm, t, &s); cap_end(NULL, NULL);
      if (ret != s) fail("status-mismatch", "reading by name returned %d, stored %d", ret, s);
      if (s == 0) { g_string_truncate(why, 0); if (!want) fail("named-invented", "reading %s '%s' succeeded although no such table exists", DESC[k].ext, nm); else if (!cmp_tab(k, want, t, RSTRIP, why)) fail("named-wrong", "reading %s '%s' returned another table: %s", DESC[k].ext, nm, why->str); lib_free_tab(k, t); fits_get_hdu_num(f, &pos); ev("named_tables_read", 1); cov("named %s", DESC[k].ext); }
      else { free(t); if (want) fail("named-failed", "reading existing %s '%s' failed with status %d", DESC[k].ext, nm, s); fits_clear_errmsg(); s = 0; pos = ri(r, 1, nh); fits_movabs_hdu(f, pos, &ty, &s); ev("named_missing", 1); }
    }
    else if (op == 11) { oi_header h; junk(r, &h, sizeof h); read_oi_header(f, &h, &s); cap_end(NULL, NULL); g_string_truncate(why, 0); if (s) fail("header-failed", "reading the header from HDU %d failed: %d", pos, s); else { oi_header want = o.header; if (g.ver == 1) want.content[0] = h.content[0] = 0; if (!cmp_header(&want, &h, RSTRIP, why)) fail("header-wrong", "header read from HDU %d: %s", pos, why->str); } pos = 1; ev("headers_read", 1); }
    else if (op == 12) { oi_target t; junk(r, &t, sizeof t); read_oi_target(f, &t, &s); cap_end(NULL, NULL); g_string_truncate(why, 0); if (s) fail("target-failed", "reading targets from HDU %d failed: %d", pos, s); else { if (!cmp_tab(K_TARGET, &o.targets, &t, RSTRIP, why)) fail("target-wrong", "targets read from HDU %d: %s", pos, why->str); free_oi_target(&t); } fits_get_hdu_num(f, &pos); ev("targets_read", 1); }
    else { pos = ri(r, 1, nh); fits_movabs_hdu(f, pos, &ty, &s); cap_end(NULL, NULL); }
  }
  s = 0; fits_close_file(f, &s); sample("%d HDUs", nh);
end:
  g_array_free(lay, TRUE); free_oi(&o); g_string_free(why, TRUE);
}

/* ---------- C25 ---------- */
/* Damage one encoded table so that it is certainly malformed. Returns what was done, or NULL when not possible. */
static const char *card_at(GByteArray *h, const char *key) { char k[10]; snprintf(k, sizeof k, "%-8s=", key); for (size_t i = 0; i + 80 <= h->len; i += 80) { if (!memcmp(h->data + i, "END     ", 8)) return NULL; if (!memcmp(h->data + i, k, 9)) return (char *)h->data + i; } return NULL; }
static bool damage(Rng *r, int k, void *t, GByteArray *h, GString *what)
{
  const Desc *d = &DESC[k];
  switch (ri(r, 0, 3))
  {
  case 0: { /* drop a mandatory keyword */
    const char *mand[16]; int n = 0; for (int i = 0; i < d->nkw; i++) if (!(d->kw[i].flags & (KW_OPT | KW_UNIT)) && strcmp(d->kw[i].name, "complexunit")) mand[n++] = d->kw[i].name;
    const char *m = mand[ri(r, 0, n - 1)]; char *c = (char *)card_at(h, m); if (!c) return false; memcpy(c, "XDROPPED", 8); g_string_append_printf(what, "keyword %s dropped", m); return true; }
  case 1: { /* rename a needed column */
    int c = ri(r, 0, d->ncol - 1); if (!col_used(k, t, &d->col[c]) || tab_rows(k, t) == 0) return false; if (d->col[c].cond == CD_ARR || d->col[c].cond == CD_CAT || d->col[c].cond == CD_MAP || !strcmp(d->col[c].name, "RVIS")) return false; if (d->col[c].cond == CD_V2 && tab_revn(k, t) < 2) return false;
    for (int i = 1; i < 64; i++) { char key[12]; snprintf(key, sizeof key, "TTYPE%d", i); char *q = (char *)card_at(h, key); if (!q) return false; size_t l = strlen(d->col[c].name); if (!strncasecmp(q + 11, d->col[c].name, l) && (q[11 + l] == '\'' || q[11 + l] == ' ')) { q[11] = 'Q'; q[12] = '_'; g_string_append_printf(what, "column %s missing", d->col[c].name); return true; } }
    return false; }
  case 2: { /* change the type of a column to one that cannot hold it */
    int c = ri(r, 0, d->ncol - 1); const Col *q2 = &d->col[c]; if (!col_used(k, t, q2) || q2->cond == CD_ARR || q2->cond == CD_CAT || q2->cond == CD_MAP || !strcmp(q2->name, "RVIS") || tab_rows(k, t) == 0) return false;
    for (int i = 1; i < 64; i++)
    {
      char key[12]; snprintf(key, sizeof key, "TTYPE%d", i); char *q = (char *)card_at(h, key); if (!q) return false; size_t l = strlen(q2->name); if (strncasecmp(q + 11, q2->name, l) || (q[11 + l] != '\'' && q[11 + l] != ' ')) continue;
      snprintf(key, sizeof key, "TFORM%d", i); char *f = (char *)card_at(h, key); if (!f) return false; char *p = f + 11; while (*p >= '0' && *p <= '9') p++;
      if (q2->t == T_STR) { *p = 'B'; g_string_append_printf(what, "string column %s made numeric", q2->name); return true; }
      if (q2->t == T_BOOL) { *p = 'B'; g_string_append_printf(what, "logical column %s made numeric", q2->name); return true; }
      return false;
    }
    return false; }
  default: { /* cell that cannot be converted: a number column turned into text of equal width holding letters */
    int c = ri(r, 0, d->ncol - 1); const Col *q2 = &d->col[c]; if ((q2->t != T_DBL && q2->t != T_INT && q2->t != T_FLT) || !col_used(k, t, q2) || q2->cond == CD_ARR || !strcmp(q2->name, "RVIS") || d->columnar || q2->len != 1 || tab_rows(k, t) == 0) return false; size_t hl = 0; for (size_t i = 0; i + 80 <= h->len; i += 80) if (!memcmp(h->data + i, "END     ", 8)) { hl = (i / 2880 + 1) * 2880; break; }
    long off = 0, n1 = atol(card_at(h, "NAXIS1") + 10), n2 = atol(card_at(h, "NAXIS2") + 10);
    for (int i = 1; i < 64; i++)
    {
      char key[12]; snprintf(key, sizeof key, "TTYPE%d", i); char *q = (char *)card_at(h, key); if (!q) return false; snprintf(key, sizeof key, "TFORM%d", i); char *f = (char *)card_at(h, key); char *p = f + 11; long rep = strtol(p, &p, 10); if (p == f + 11) rep = 1; int sz = *p == 'L' || *p == 'B' || *p == 'A' ? 1 : *p == 'I' ? 2 : *p == 'J' || *p == 'E' ? 4 : 8;
      size_t l = strlen(q2->name); if (!strncasecmp(q + 11, q2->name, l) && (q[11 + l] == '\'' || q[11 + l] == ' ')) { char v[20]; snprintf(v, sizeof v, "'%ldA'     ", rep * sz); memcpy(f + 10, v, strlen(v)); for (long row = 0; row < n2; row++) memset(h->data + hl + row * n1 + off, 'z', rep * sz); g_string_append_printf(what, "column %s holds text", q2->name); return true; }
      off += rep * sz;
    }
    return false; }
  }
}
static void mand_named(oi_fits *o, int k, void *t) { *listp(o, k) = g_list_remove(*listp(o, k), t); --*nump(o, k); }
void c25(Rng *r)
{
  GenOpt g = gen_opt(r); g.nozero = chance(r, 0.8); if (chance(r, 0.1)) g.ver = 1; oi_fits o, b; GString *why = g_string_new(NULL), *what = g_string_new(NULL), *out = g_string_new(NULL), *err = g_string_new(NULL); gen_oi(r, &g, &o);
  for (int k = K_VIS; k <= K_T3; k++) for (GList *l = *listp(&o, k); l; l = l->next) for (long i = 0; i < tab_rows(k, l->data); i++) { double *m = k == K_VIS ? &((oi_vis *)l->data)->record[i].mjd : k == K_VIS2 ? &((oi_vis2 *)l->data)->record[i].mjd : &((oi_t3 *)l->data)->record[i].mjd; if (!(*m > 20000 && *m < 80000)) *m = 51544; }
  EncOpt e = enc_opt(r, g.ver); e.longtarget = false; e.checksum = false; bool mandatory = chance(r, 0.25); int nbad = 0, want[NK] = {0};
  GByteArray *f = enc_primary(r, &o, &e); GPtrArray *seq = g_ptr_array_new(); GArray *ks = g_array_new(FALSE, FALSE, sizeof(int));
  for (int k = 0; k < NK; k++) for (int i = 0, n = tab_count(&o, k); i < n; i++) { g_ptr_array_add(seq, tab_at(&o, k, i)); g_array_append_val(ks, k); }
  if (e.shuffle_hdu) for (int i = seq->len - 1; i > 0; i--) { int j = ri(r, 0, i); void *t = seq->pdata[i]; seq->pdata[i] = seq->pdata[j]; seq->pdata[j] = t; int x = g_array_index(ks, int, i); g_array_index(ks, int, i) = g_array_index(ks, int, j); g_array_index(ks, int, j) = x; }
  { int at[NK] = {0}; for (guint i = 0; i < seq->len; i++) { int k = g_array_index(ks, int, i); seq->pdata[i] = tab_at(&o, k, at[k]++); } } /* keep the order within each kind */
  double pb = chance(r, 0.3) ? 0.8 : 0.3; bool notarget = mandatory && chance(r, 0.15), mdone = notarget; int trunc = -1; if (!mandatory && chance(r, 0.15)) { int k = g_array_index(ks, int, seq->len - 1); if (k >= K_CORR && tab_rows(k, seq->pdata[seq->len - 1]) > 0) trunc = seq->len - 1; }
  GPtrArray *gone = g_ptr_array_new(); GArray *gk = g_array_new(FALSE, FALSE, sizeof(int)); int cnt[NK] = {0};
  for (guint i = 0; i < seq->len; i++)
  {
    int k = g_array_index(ks, int, i); void *t = seq->pdata[i]; if (notarget && k == K_TARGET) { g_string_append(what, "no OI_TARGET; "); continue; }
    GByteArray *h = enc_table(r, k, t, k == K_TARGET ? 0 : ++cnt[k], &e); bool isbad = false;
    if ((int)i == trunc) { size_t ds = data_start(h, 0), db = data_bytes(h, 0); g_byte_array_set_size(h, ds + rnd(r) % db); isbad = true; g_string_append_printf(what, "%s data cut off", DESC[k].ext); }
    else if (k >= K_CORR ? chance(r, pb) : mandatory && !mdone && chance(r, 0.5)) { g_string_append_printf(what, "%s: ", DESC[k].ext); isbad = damage(r, k, t, h, what); if (isbad && k < K_CORR) mdone = true; if (isbad) cov("bad %s", strrchr(what->str, 'O') ? g_strrstr(what->str, DESC[k].ext) : ""); g_string_append(what, "; "); }
    if (isbad) { nbad++; want[k]++; g_ptr_array_add(gone, t); g_array_append_val(gk, k); }
    g_byte_array_append(f, h->data, h->len); g_byte_array_free(h, TRUE);
  }
  /* a table that is bad may also be one that others refer to: only the file's content matters */
  for (guint i = 0; i < gone->len; i++) { int k = g_array_index(gk, int, i); if (k >= K_CORR) mand_named(&o, k, gone->pdata[i]); }
  if (g.ver == 1) { strcpy(o.header.content, ""); }
  char *p = spath("bad.fits"); spew(p, f->data, f->len); g_byte_array_free(f, TRUE); stage("read with bad tables: %s", what->str); sample("%s", what->str);
  oi_hush_errors = chance(r, 0.7); cap_begin(); int st = do_read(r, p, &b); cap_end(out, err); oi_hush_errors = 1;
  if (mdone)
  { if (!st) { fail("mandatory-accepted", "reading succeeded although a mandatory table is malformed: %s", what->str); free_oi_fits(&b); } else ev("mandatory_rejected", 1); }
  else if (st) fail("read-failed", "reading failed (%d) because of bad optional tables: %s", st, what->str);
  else
  {
    if (g.ver == 1) { expect_v1_header(&o); b.header.content[0] = 0; bool any = false; for (int k = K_VIS; k <= K_T3; k++) if (tab_count(&o, k)) any = true; if (!any) strcpy(o.header.date_obs, b.header.date_obs); }
    if (!cmp_oi(&o, &b, RSTRIP, why)) fail("others-affected", "with bad tables (%s) the rest was not read as stored: %s", what->str, why->str);
    for (int k = K_CORR; k < NK; k++) { char s[60]; snprintf(s, sizeof s, "Skipping bad %s ", DESC[k].ext); int n = 0; for (char *q = err->str; (q = strstr(q, s)); q++) n++; if (n != want[k]) fail("skip-report", "%d %s tables are bad but %d were reported skipped: %s", want[k], DESC[k].ext, n, what->str); }
    pending_errors("read with skipped tables"); ev("bad_tables", nbad); ev("files_with_bad_tables", nbad > 0); free_oi_fits(&b);
  }
  for (guint i = 0; i < gone->len; i++) { int k = g_array_index(gk, int, i); if (k >= K_CORR) free_tab(k, gone->pdata[i], true); }
  g_ptr_array_free(seq, TRUE); g_array_free(ks, TRUE); g_ptr_array_free(gone, TRUE); g_array_free(gk, TRUE); free_oi(&o); g_string_free(why, TRUE); g_string_free(what, TRUE); g_string_free(out, TRUE); g_string_free(err, TRUE);
}

/* ---------- C26 ---------- */
static int warned(const char *out, int hdu) { char a[80]; snprintf(a, sizeof a, "failed for HDU #%d ", hdu); return strstr(out, a) != NULL; }
void c26(Rng *r)
{
  GenOpt g = gen_opt(r); oi_fits o, b; GString *out = g_string_new(NULL), *err = g_string_new(NULL), *why = g_string_new(NULL); gen_oi(r, &g, &o); char *p = spath("s.fits"); GByteArray *f; bool own = chance(r, 0.5); EncOpt e = enc_opt(r, 2); e.longtarget = false; if (!own) e.checksum = chance(r, 0.8);
  cap_begin();
  if (own) { int st = do_write(p, &o); if (st) { cap_end(NULL, NULL); fail("write-failed", "write failed: %d", st); goto end; } f = g_byte_array_new(); slurp(p, f); }
  else { f = enc_fits(r, &o, &e, NULL); spew(p, f->data, f->len); }
  int st = do_read(r, p, &b); cap_end(out, err);
  if (st) { fail("read-failed", "reading an intact file failed: %d", st); goto end2; }
  if (strstr(out->str, "checksum") || strstr(err->str, "checksum")) fail("false-warning", "checksum warning for an intact file: %s", out->str);
  free_oi_fits(&b); ev("intact_files", 1);
  Fits *d = dec_fits(f, why); if (!d) { if (own) fail("malformed", "written file malformed: %s", why->str); goto end2; }
  if (!own && !e.checksum) { dec_free(d); goto end2; }
  for (int rep = 0; rep < 5; rep++)
  {
    int hi = ri(r, 0, d->hdu->len - 1); Hdu *h = d->hdu->pdata[hi]; int kind = -1; for (int k = 0; k < NK; k++) if (!strcmp(h->extname, DESC[k].ext) && !strcmp(h->xtension, "BINTABLE")) kind = k; if (hi > 0 && kind < 0) continue;
    GByteArray *x = g_byte_array_new(); g_byte_array_append(x, f->data, f->len); int nflip = chance(r, 0.8) ? 1 : ri(r, 2, 5); char where[60] = ""; bool touched = false;
    /* one of the two sums may be absent: the other must still be verified */
    const char *gone = chance(r, 0.25) ? chance(r, 0.5) ? "CHECKSUM" : "DATASUM" : NULL; if (gone) for (guint c = 0; c < h->cards->len; c++) if (!strcmp(g_array_index(h->cards, Card, c).key, gone)) { memset(x->data + h->off + 80 * c, ' ', 80); memcpy(x->data + h->off + 80 * c, "COMMENT", 7); cov("only one sum, not %s", gone); ev("one_sum_absent", 1); }
    if (chance(r, 0.1)) for (guint c = 0; c < h->cards->len; c++) if (!strcmp(g_array_index(h->cards, Card, c).key, "EXTVER")) memcpy(x->data + h->off + 80 * c, "COMMENT  ", 9);
    for (int i = 0; i < nflip; i++)
    {
      if (h->datalen && chance(r, 0.6)) { size_t off = h->dataoff + rnd(r) % (chance(r, 0.9) ? h->datalen : h->end - h->dataoff); x->data[off] ^= 1 << ri(r, 0, 7); snprintf(where, sizeof where, "data byte %zu", off - h->dataoff); }
      else
      { /* a value or comment character of a card that does not change the structure of the file */
        Card *c; int ci, guard = 0; do { ci = ri(r, 0, h->cards->len - 1); c = &g_array_index(h->cards, Card, ci); } while (++guard < 200 && (!strcmp(c->key, "EXTNAME") || !strcmp(c->key, "XTENSION") || !strcmp(c->key, "SIMPLE") || !strcmp(c->key, "CHECKSUM") || (gone && !strcmp(c->key, "DATASUM")) || !strncmp(c->key, "NAXIS", 5) || !strcmp(c->key, "BITPIX") || !strcmp(c->key, "PCOUNT") || !strcmp(c->key, "GCOUNT") || !strcmp(c->key, "TFIELDS") || !strncmp(c->key, "TFORM", 5) || !c->key[0]));
        size_t off = h->off + ci * 80 + 10 + ri(r, 0, 69); uint8_t o8 = x->data[off]; x->data[off] = (uint8_t)ri(r, 32, 126); if (x->data[off] == o8) x->data[off] = o8 == 'a' ? 'b' : 'a'; snprintf(where, sizeof where, "%s card", c->key); touched |= !strcmp(c->key, "EXTVER"); }
    }
    bool pr = true, dk = strtoul(hdu_card(h, "DATASUM") ? hdu_card(h, "DATASUM")->sval : "0", NULL, 10) == fits_sum32(x->data + h->dataoff, h->end - h->dataoff, 0); uint32_t s = fits_sum32(x->data + h->off, h->end - h->off, 0); bool hk = s == 0 || s == 0xffffffffu; (void)pr; if (gone && gone[0] == 'C') hk = true; if (gone && gone[0] == 'D') dk = true;
    spew(p, x->data, x->len); bool single = chance(r, 0.4); char how[120] = "read_oi_fits";
    if (single)
    { /* the one table, by itself */
      fitsfile *ff = NULL; int s1 = 0, ht; st = 0; fits_open_diskfile(&ff, p, READONLY, &s1); if (s1) { fits_clear_errmsg(); g_byte_array_free(x, TRUE); continue; }
      void *t = calloc(1, 4000); const Card *nc = kind == K_ARRAY || kind == K_WAVE || kind == K_CORR ? hdu_card(h, kind == K_ARRAY ? "ARRNAME" : kind == K_WAVE ? "INSNAME" : "CORRNAME") : NULL; bool byname = nc && chance(r, 0.5); int found = hi + 1; cap_begin();
      if (hi == 0) { strcpy(how, "read_oi_header"); stage("%s, corrupted %s", how, where); fits_movabs_hdu(ff, ri(r, 1, d->hdu->len), &ht, &s1); read_oi_header(ff, (oi_header *)t, &st); free(t); }
      else if (kind == K_TARGET) { strcpy(how, "read_oi_target"); stage("%s, corrupted %s", how, where); fits_movabs_hdu(ff, ri(r, 1, d->hdu->len), &ht, &s1); read_oi_target(ff, (oi_target *)t, &st); fits_get_hdu_num(ff, &found); if (!st) free_oi_target((oi_target *)t); free(t); }
      else if (byname) { char nm[FLEN_VALUE]; g_strlcpy(nm, nc->sval, sizeof nm); snprintf(how, sizeof how, "reading %s by name", h->extname); stage("%s, corrupted %s", how, where); fits_movabs_hdu(ff, ri(r, 1, d->hdu->len), &ht, &s1); if (kind == K_ARRAY) read_oi_array(ff, nm, t, &st); else if (kind == K_WAVE) read_oi_wavelength(ff, nm, t, &st); else read_oi_corr(ff, nm, t, &st); fits_get_hdu_num(ff, &found); if (!st) lib_free_tab(kind, t); else free(t); }
      else { free(t); snprintf(how, sizeof how, "read_next of %s", h->extname); stage("%s, corrupted %s", how, where); fits_movabs_hdu(ff, hi, &ht, &s1); t = read_next(kind, ff, &st); fits_get_hdu_num(ff, &found); if (t) lib_free_tab(kind, t); }
      cap_end(out, err); s1 = 0; fits_close_file(ff, &s1); fits_clear_errmsg();
      if (found != hi + 1) st = -1; /* an earlier table of the same name, or passed over */
      if (!st) { ev("single_table_reads", 1); cov("single %s", how); }
    }
    else { stage("read corrupted %s of HDU %d (%s)", where, hi + 1, h->extname); cap_begin(); st = do_read(r, p, &b); cap_end(out, err); }
    if (st) { ev("corrupt_read_failed", 1); fits_clear_errmsg(); }
    else
    {
      char sk[60]; snprintf(sk, sizeof sk, "Skipping bad %s ", h->extname);
      if ((!dk || !hk) && !warned(out->str, hi + 1) && !strstr(err->str, sk)) fail("corruption-unreported", "%s: %s of HDU %d (%s) changed, sums no longer match (data %d, HDU %d), but no warning names that HDU: '%.200s'", how, where, hi + 1, h->extname, dk, hk, out->str);
      if (dk && hk && warned(out->str, hi + 1)) fail("false-warning", "sums match but HDU %d was reported", hi + 1);
      if (!dk && !strstr(where, "DATASUM") && !strstr(err->str, sk)) { char w[100]; snprintf(w, sizeof w, "Data checksum verification failed for HDU #%d ", hi + 1); if (!strstr(out->str, w)) fail("data-corruption-unreported", "data of HDU %d (%s) changed but no data checksum warning: '%.200s'", hi + 1, h->extname, out->str); }
      if (warned(out->str, hi + 1))
      { /* whatever the warning says of the HDU is true */
        Fits *dx = dec_fits(x, why); if (dx && (int)dx->hdu->len > hi)
        { const Card *v = hdu_card(dx->hdu->pdata[hi], "EXTVER"); char w[140]; if (!touched && (!v || v->type == 'N')) { snprintf(w, sizeof w, "HDU #%d (EXTNAME='%s' EXTVER=%lld)\n", hi + 1, h->extname, v ? (long long)v->ival : 0LL); if (!strstr(out->str, w)) fail("wrong-identification", "the HDU changed is %.100s but the warning is '%.200s'", w, out->str); ev("warnings_identified", 1); } }
        if (dx) dec_free(dx);
      }
      for (guint j = 0; j < d->hdu->len; j++) if ((int)j != hi && warned(out->str, j + 1)) fail("wrong-hdu-warned", "HDU %d changed but HDU %u reported", hi + 1, j + 1);
      ev(dk && hk ? "sums_still_match" : "corruptions_warned", 1); cov("corrupt %s %s", h->extname[0] ? h->extname : "PRIMARY", where[0] == 'd' ? "data" : where); if (!single) free_oi_fits(&b);
    }
    g_byte_array_free(x, TRUE);
  }
  dec_free(d);
end2: g_byte_array_free(f, TRUE);
end: free_oi(&o); g_string_free(out, TRUE); g_string_free(err, TRUE); g_string_free(why, TRUE);
}
