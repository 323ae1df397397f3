/* C28: writing single tables. */
#define _GNU_SOURCE
#include "mon.h"
#include <fitsio.h>
#include <unistd.h>

typedef struct { int k; void *t; int ver; uint64_t dig; } Put;

static int put(fitsfile *f, int k, void *t, int ver, int *st)
{
  switch (k)
  { case K_TARGET: return write_oi_target(f, *(oi_target *)t, st); case K_ARRAY: return write_oi_array(f, *(oi_array *)t, ver, st); case K_WAVE: return write_oi_wavelength(f, *(oi_wavelength *)t, ver, st); case K_CORR: return write_oi_corr(f, *(oi_corr *)t, ver, st);
    case K_INSPOL: return write_oi_inspol(f, *(oi_inspol *)t, ver, st); case K_VIS: return write_oi_vis(f, *(oi_vis *)t, ver, st); case K_VIS2: return write_oi_vis2(f, *(oi_vis2 *)t, ver, st); case K_T3: return write_oi_t3(f, *(oi_t3 *)t, ver, st); default: return write_oi_flux(f, *(oi_flux *)t, ver, st); }
}
static bool header_in(Hdu *h, const oi_header *q, GString *why)
{
  struct { const char *k, *v; bool opt; } kv[] = {{"ORIGIN", q->origin, 0}, {"DATE-OBS", q->date_obs, 0}, {"CONTENT", "OIFITS2", 0}, {"TELESCOP", q->telescop, 0}, {"INSTRUME", q->instrume, 0}, {"OBSERVER", q->observer, 0}, {"INSMODE", q->insmode, 0}, {"OBJECT", q->object, 0}, {"REFERENC", q->referenc, 1}, {"AUTHOR", q->author, 1}, {"PROG_ID", q->prog_id, 1}, {"PROCSOFT", q->procsoft, 1}, {"OBSTECH", q->obstech, 1}};
  for (unsigned i = 0; i < G_N_ELEMENTS(kv); i++)
  {
    char w[200]; strcpy(w, kv[i].v); int n = strlen(w); while (n && w[n - 1] == ' ') w[--n] = 0; int c = 0; const Card *a = NULL; for (guint j = 0; j < h->cards->len; j++) if (!strcmp(g_array_index(h->cards, Card, j).key, kv[i].k)) { a = &g_array_index(h->cards, Card, j); c++; }
    if (kv[i].opt && !n) { if (c) { g_string_append_printf(why, "%s present although not specified", kv[i].k); return false; } continue; }
    if (c != 1 || a->type != 'S' || strcmp(a->sval, w)) { g_string_append_printf(why, "%s is %s, %d times, in memory '%s'", kv[i].k, a ? a->sval : "missing", c, w); return false; }
  }
  return true;
}
/* Same keywords and data. When it closes a table CFITSIO itself brings the maximum length in the TFORMn of a
 * variable-length column up to date and drops blank cards before END: not counted as changes. */
static bool same_hdu(Fits *fa, Hdu *a, Fits *fb, Hdu *b, GString *why)
{
  guint i = 0, j = 0; static const char *const BLANK = "        ";
  for (;; i++, j++)
  {
    const Card *x = NULL, *y = NULL; while (i < a->cards->len && (x = &g_array_index(a->cards, Card, i)) && !memcmp(x->raw, BLANK, 8)) i++; while (j < b->cards->len && (y = &g_array_index(b->cards, Card, j)) && !memcmp(y->raw, BLANK, 8)) j++;
    if (i >= a->cards->len || j >= b->cards->len) { if (i >= a->cards->len && j >= b->cards->len) break; g_string_append(why, "different number of header cards"); return false; }
    x = &g_array_index(a->cards, Card, i); y = &g_array_index(b->cards, Card, j);
    if (memcmp(x->raw, y->raw, 80) && !(!memcmp(x->raw, "TFORM", 5) && !memcmp(x->raw, y->raw, 8) && strstr(x->raw, "1PE("))) { g_string_append_printf(why, "'%.80s' became '%.80s'", x->raw, y->raw); return false; }
  }
  if (a->end - a->dataoff != b->end - b->dataoff || memcmp(fa->b->data + a->dataoff, fb->b->data + b->dataoff, a->end - a->dataoff)) { g_string_append(why, "the data differ"); return false; }
  return true;
}
void c28(Rng *r)
{
  GenOpt g = gen_opt(r); g.nozero = true; g.norows = chance(r, 0.3); g.v2time = chance(r, 0.3); if (chance(r, 0.15)) g.ver = 1; oi_fits o, old; gen_oi(r, &g, &o); GString *why = g_string_new(NULL);
  char p[700]; g_strlcpy(p, spath("t.fits"), sizeof p); unlink(p); int mode = ri(r, 0, 3), s = 0; fitsfile *f = NULL; GByteArray *pre = NULL, *now = g_byte_array_new(); int nold = 0; bool header = false;
  if (mode == 3)
  { /* a file that exists already, with other extensions */
    GenOpt h = gen_opt(r); gen_oi(r, &h, &old); EncOpt e = enc_opt(r, 2); e.foreign = true; pre = enc_fits(r, &old, &e, NULL); free_oi(&old); Fits *d = dec_fits(pre, why); if (!d) mode = 0; else { nold = d->hdu->len; dec_free(d); spew(p, pre->data, pre->len); fits_open_file(&f, p, READWRITE, &s); if (chance(r, 0.5)) fits_movabs_hdu(f, ri(r, 1, nold), NULL, &s); } g_string_truncate(why, 0);
  }
  if (mode != 3) fits_create_file(&f, p, &s);
  if (s) { fail("open", "cannot create or open the file: %d", s); fits_clear_errmsg(); goto end; }
  uint64_t dh = dig_oi(&o, true);
  if (mode == 1) { int st = 0; stage("write header first"); cap_begin(); int ret = write_oi_header(f, o.header, &st); cap_end(NULL, NULL); if (ret || st) fail("header-failed", "writing the header failed: %d", st); header = true; nold = 1; }
  GArray *puts = g_array_new(FALSE, FALSE, sizeof(Put));
  for (int i = 0, n = ri(r, 1, 10); i < n; i++)
  {
    if (mode == 2 && !header && i && chance(r, 0.4)) { int st = 0; stage("write header after %u tables", puts->len); cap_begin(); int ret = write_oi_header(f, o.header, &st); cap_end(NULL, NULL); if (ret || st) fail("header-failed", "writing the header after %u tables failed: %d", puts->len, st); header = true; ev("headers_after_tables", 1); }
    Put q; do { q.k = ri(r, 0, NK - 1); } while (!tab_count(&o, q.k) && q.k != K_TARGET);
    q.t = tab_at(&o, q.k, ri(r, 0, MAX(1, tab_count(&o, q.k)) - 1)); q.ver = chance(r, 0.5) ? ri(r, 1, 5) : ri(r, 1, 99999); if (q.k == K_TARGET) q.ver = 0; int st = 0;
    stage("write %s as EXTVER %d, table %d of the file", DESC[q.k].ext, q.ver, i + 1); cap_begin(); int ret = put(f, q.k, q.t, q.ver, &st); cap_end(NULL, NULL);
    if (ret != st) fail("status-mismatch", "writing %s returned %d but stored status %d", DESC[q.k].ext, ret, st);
    if (st) { fail("write-failed", "writing a representable %s as EXTVER %d failed with status %d", DESC[q.k].ext, q.ver, st); fits_clear_errmsg(); break; }
    pending_errors("table write"); g_array_append_val(puts, q); cov("put %s rows %d mode %d", DESC[q.k].ext, tab_rows(q.k, q.t) > 0, mode); if (nold == 0) nold = 1;
    int nh = 0; s = 0; fits_get_num_hdus(f, &nh, &s); if (nh != nold + (int)puts->len) { fail("hdu-count", "after writing %s the file has %d HDUs, expected %d", DESC[q.k].ext, nh, nold + puts->len); break; }
    switch (ri(r, 0, 5))
    {
    case 0: fits_movabs_hdu(f, ri(r, 1, nh), NULL, &s); cov("moved away"); break;
    case 1: fits_close_file(f, &s); f = NULL; fits_open_file(&f, p, READWRITE, &s); cov("closed and opened again"); break;
    case 2: if (q.k != K_TARGET && strcmp(DESC[q.k].ext, "") && tab_rows(q.k, q.t) > 0) { /* what was written can be read back at once */
        fits_movabs_hdu(f, nh - 1, NULL, &s); st = 0; stage("read back %s", DESC[q.k].ext); cap_begin(); void *t = read_next(q.k, f, &st); cap_end(NULL, NULL); if (!t) { fail("readback-failed", "%s just written cannot be read: %d", DESC[q.k].ext, st); fits_clear_errmsg(); } else { lib_free_tab(q.k, t); ev("tables_read_back", 1); } } break;
    }
    if (s) { fail("file-state", "CFITSIO operation failed after writing %s: %d", DESC[q.k].ext, s); fits_clear_errmsg(); break; }
  }
  if (dig_oi(&o, true) != dh) fail("argument-changed", "writing changed a table in memory");
  s = 0; if (f) fits_close_file(f, &s); f = NULL; if (s) { fail("close", "closing the file failed: %d", s); fits_clear_errmsg(); goto end; }
  slurp(p, now); Fits *d = dec_fits(now, why);
  if (!d) fail("malformed", "the file written table by table is malformed: %s", why->str);
  else
  {
    if (d->hdu->len != nold + puts->len) fail("hdu-count", "%u HDUs in the file, expected %d", d->hdu->len, nold + puts->len);
    else
    {
      bool pr, dk, hk;
      if (mode == 3) { g_string_truncate(why, 0); Fits *od = dec_fits(pre, why); for (int i = 0; od && i < nold; i++) if (!same_hdu(od, od->hdu->pdata[i], d, d->hdu->pdata[i], why)) fail("others-changed", "writing tables changed HDU %d of the file: %s", i + 1, why->str); if (od) { dec_free(od); ev("appended_to_existing", 1); } }
      for (guint i = 0; i < puts->len; i++)
      {
        Put *q = &g_array_index(puts, Put, i); Hdu *h = d->hdu->pdata[nold + i]; g_string_truncate(why, 0);
        if (strcmp(h->extname, DESC[q->k].ext)) { fail("wrong-table", "HDU %d is '%s', written was %s", nold + i + 1, h->extname, DESC[q->k].ext); continue; }
        if (!conform_table(d, h, q->k, q->t, q->ver, why)) fail("table-differs", "table %u, %s: %s", i + 1, DESC[q->k].ext, why->str);
        hdu_sums_ok(d, h, &pr, &dk, &hk); if (!pr || !dk || !hk) fail("checksum", "table %u, %s: checksum %s", i + 1, DESC[q->k].ext, pr ? "wrong" : "missing"); ev("tables_written", 1);
      }
      if (header) { g_string_truncate(why, 0); if (!header_in(d->hdu->pdata[0], &o.header, why)) fail("header-differs", "primary header: %s", why->str); hdu_sums_ok(d, d->hdu->pdata[0], &pr, &dk, &hk); if (!pr || !dk || !hk) fail("checksum", "primary HDU: checksum %s", pr ? "wrong" : "missing"); ev("headers_written", 1); }
    }
    dec_free(d);
  }
  sample("mode %d, %u tables after %d HDUs, header %d", mode, puts->len, nold, header);
  g_array_free(puts, TRUE);
end:
  if (f) { s = 0; fits_close_file(f, &s); fits_clear_errmsg(); }
  free_oi(&o); if (pre) g_byte_array_free(pre, TRUE); g_byte_array_free(now, TRUE); g_string_free(why, TRUE);
}
