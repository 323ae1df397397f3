/* C05: hostile files, and everything that can be done with what they yield. */
#define _GNU_SOURCE
#include "mon.h"
#include <fitsio.h>
#include <unistd.h>

static uint64_t hs(const char *s) { return s ? fnv(FNV0, s, strlen(s)) : 7; }
static void run_checks(Rng *r, const oi_fits *o, uint64_t *h)
{
  for (int c = 0; c < NCHECK; c++)
  {
    oi_check_result res; junk_bytes(r, &res, sizeof res); stage("check_%s", CHECK_NAME[c]); int l = CHECK_FN[c](o, &res); *h = *h * 31 + l; *h = *h * 31 + res.numBreach;
    stage("format_check_result %s", CHECK_NAME[c]); const char *s = format_check_result(&res); *h ^= hs(s); ev(l ? "breaches_reported" : "checks_clean", 1); free_check_result(&res);
  }
}
static void iterate(Rng *r, const oi_fits *o, const oi_filter_spec *f, uint64_t *h)
{
  for (int k = K_VIS; k <= K_T3; k++)
  {
    _oi_iter it; junk_bytes(r, &it, sizeof it); stage("iterate %s", DESC[k].ext); long n = 0; double a[6] = {0}; int e = 0, w = 0; long i = 0; void *t = NULL, *rec = NULL; bool got;
    if (k == K_VIS) oi_vis_iter_init(&it, o, f); else if (k == K_VIS2) oi_vis2_iter_init(&it, o, f); else oi_t3_iter_init(&it, o, f);
    while (n < 300000)
    {
      got = k == K_VIS ? oi_vis_iter_next(&it, &e, (oi_vis **)&t, &i, (oi_vis_record **)&rec, &w) : k == K_VIS2 ? oi_vis2_iter_next(&it, &e, (oi_vis2 **)&t, &i, (oi_vis2_record **)&rec, &w) : oi_t3_iter_next(&it, &e, (oi_t3 **)&t, &i, (oi_t3_record **)&rec, &w);
      if (!got) break; n++; volatile char fl = flags_of(k, t, i)[w]; *h = *h * 31 + e * 7 + i * 3 + w + (fl != 0);
      if (n < 50) { if (k == K_VIS) oi_vis_iter_get_uv(&it, &a[0], &a[1], &a[2]); else if (k == K_VIS2) oi_vis2_iter_get_uv(&it, &a[0], &a[1], &a[2]); else oi_t3_iter_get_uv(&it, &a[0], &a[1], &a[2], &a[3], &a[4]); for (int q = 0; q < (k == K_T3 ? 5 : 3); q++) { if (isnan(a[q])) a[q] = 1.5; *h = fnv(*h, &a[q], 8); } }
    }
    ev("points_iterated", n);
  }
}
void *dup_tab(int k, const void *t)
{
  switch (k) { case K_TARGET: return dup_oi_target(t); case K_ARRAY: return dup_oi_array(t); case K_WAVE: return dup_oi_wavelength(t); case K_CORR: return dup_oi_corr(t); case K_INSPOL: return dup_oi_inspol(t); case K_VIS: return dup_oi_vis(t); case K_VIS2: return dup_oi_vis2(t); case K_T3: return dup_oi_t3(t); default: return dup_oi_flux(t); }
}
/* every public operation on a dataset; results are folded into digests that must not depend on the build */
void exercise(Rng *r, oi_fits *o, const char *pfx)
{
  char nm[60]; uint64_t h = FNV0; GString *out = g_string_new(NULL); long a = 0, b = 0, c = 0; uint64_t d0 = dig_oi(o, true);
#define DG(what, v) do { snprintf(nm, sizeof nm, "%s%s", pfx, what); digest_out(nm, v); } while (0)
  stage("summary"); h = hs(format_oi_fits_summary(o)); cap_begin(); print_oi_fits_summary(o); cap_end(out, NULL); DG("summary", h);
  stage("classify"); h = is_oi_fits_one(o) * 4 + is_oi_fits_two(o) * 2; stage("is_atomic"); h = h * 2 + is_atomic(o, 0.5); stage("count_oi_fits_data"); count_oi_fits_data(o, &a, &b, &c); h = h * 31 + a; h = h * 31 + b; h = h * 31 + c; DG("class", h);
  h = FNV0; run_checks(r, o, &h); DG("checks", h);
  h = FNV0;
  for (int k = K_INSPOL; k <= K_FLUX; k++) for (GList *l = *listp(o, k); l; l = l->next)
  {
    stage("lookups %s", DESC[k].ext); const char *an = tab_str(k, l->data, "ARRNAME"); oi_array *A = oi_fits_lookup_array(o, an); if (A && A->nelement > 0) { volatile int q = A->elem[0].sta_index; (void)q; } h = h * 31 + 1 + g_list_index(o->arrayList, A);
    if (k != K_INSPOL) { oi_wavelength *W = oi_fits_lookup_wavelength(o, tab_str(k, l->data, "INSNAME")); if (W && W->nwave > 0) { volatile float q = W->eff_wave[W->nwave - 1]; (void)q; } h = h * 31 + 1 + g_list_index(o->wavelengthList, W); h = h * 31 + 1 + g_list_index(o->corrList, oi_fits_lookup_corr(o, tab_str(k, l->data, "CORRNAME"))); }
    for (long i = 0, n = tab_rows(k, l->data); i < n && i < 3; i++) { target *t = oi_fits_lookup_target(o, *tid_of(k, l->data, i)); h = h * 31 + (t ? t - o->targets.targ + 1 : 0); if (t) { target *t2 = oi_fits_lookup_target_by_name(o, t->target); h = h * 31 + (t2 ? t2 - o->targets.targ + 1 : 0); } element *e = oi_fits_lookup_element(o, an, A && A->nelement > i ? A->elem[i].sta_index : 1); h = h * 31 + (e && A ? e - A->elem + 1 : 0); }
  }
  DG("lookups", h);
  h = FNV0; iterate(r, o, NULL, &h); DG("iter0", h);
  oi_filter_spec f; gen_filter(r, o, &f); h = FNV0; iterate(r, o, &f, &h); DG("iter1", h);
  for (int x = 0; x < 2; x++)
  {
    if (x == 0) { init_oi_filter(&f); if (chance(r, 0.5)) f.accept_flagged = 0; } else gen_filter(r, o, &f);
    oi_fits q; do_filter(r, o, &f, &q); DG(x ? "filter1" : "filter0", dig_oi(&q, false)); stage("summary of filtered"); format_oi_fits_summary(&q); h = FNV0; run_checks(r, &q, &h); DG(x ? "fchecks1" : "fchecks0", h); ev("filtered", 1); free_oi_fits(&q);
  }
  {
    oi_fits q, o2; GenOpt g = gen_opt(r); g.maxtab = 1; g.maxrec = 2; g.maxwave = 3; g.smallpool = chance(r, 0.5); gen_oi(r, &g, &o2); junk_bytes(r, &q, sizeof q); stage("merge"); cap_begin(); switch (ri(r, 0, 2)) { case 0: merge_oi_fits(&q, o, &o2, NULL); break; case 1: merge_oi_fits(&q, &o2, o, o, NULL); break; default: merge_oi_fits(&q, o, o, NULL); } cap_end(NULL, NULL);
    DG("merge", dig_oi(&q, false)); stage("summary of merged"); format_oi_fits_summary(&q); h = FNV0; run_checks(r, &q, &h); DG("mchecks", h); ev("merged", 1);
    if (chance(r, 0.3)) { char *p = spath("m.fits"); unlink(p); int st = 0; stage("write merged"); cap_begin(); write_oi_fits(p, q, &st); cap_end(NULL, NULL); fits_clear_errmsg(); ev(st ? "write_errors" : "written", 1); unlink(p); }
    stage("free merged"); free_oi_fits(&q); free_oi(&o2);
  }
  for (int k = 0; k < NK; k++) for (int i = 0, n = tab_count(o, k); i < n && i < 4; i++) { stage("dup %s", DESC[k].ext); void *t = dup_tab(k, tab_at(o, k, i)); snprintf(nm, sizeof nm, "%sdup%d_%d", pfx, k, i); digest_out(nm, dig_tab(k, t, false)); lib_free_tab(k, t); }
  if (dig_oi(o, true) != d0) fail("dataset-changed", "operations that do not modify the dataset changed it");
  { char *p = spath("w.fits"); unlink(p); int st = 0; stage("write"); cap_begin(); write_oi_fits(p, *o, &st); cap_end(NULL, NULL); fits_clear_errmsg(); ev(st ? "write_errors" : "written", 1); DG("wstatus", st != 0);
    if (!st && chance(r, 0.5)) { oi_fits q; cap_begin(); int s2 = do_read(r, p, &q); cap_end(NULL, NULL); fits_clear_errmsg(); DG("rereadstatus", s2 != 0); if (!s2) { memset(q.header.date, 0, sizeof q.header.date); DG("reread", dig_oi(&q, false)); free_oi_fits(&q); ev("reread", 1); } } unlink(p); }
  stage("set_oi_header"); set_oi_header(o);
  for (int k = 0; k < NK; k++) for (int i = 0, n = tab_count(o, k); i < n; i++) { void *t = tab_at(o, k, i); stage("upgrade %s", DESC[k].ext); switch (k) { case K_TARGET: upgrade_oi_target(t); break; case K_ARRAY: upgrade_oi_array(t); break; case K_WAVE: upgrade_oi_wavelength(t); break; case K_VIS: upgrade_oi_vis(t); break; case K_VIS2: upgrade_oi_vis2(t); break; case K_T3: upgrade_oi_t3(t); break; } }
  DG("upgraded", dig_oi(o, false)); g_string_free(out, TRUE);
}

/* ---------- hostile bytes ---------- */
typedef struct { size_t off, data, end; } Span;
static long card_int(const uint8_t *h, size_t n, const char *key) { for (size_t i = 0; i + 80 <= n; i += 80) if (!memcmp(h + i, key, 8)) return atol((char *)h + i + 10); return 0; }
static GArray *spans(const GByteArray *b) /* HDU structure of an intact file */
{
  GArray *a = g_array_new(FALSE, FALSE, sizeof(Span)); size_t p = 0;
  while (p + 2880 <= b->len)
  {
    Span s = {p, 0, 0}; size_t q = p; while (q + 80 <= b->len && memcmp(b->data + q, "END     ", 8)) q += 80; q = p + (q + 80 - p + 2879) / 2880 * 2880; if (q > b->len) q = b->len; s.data = q;
    const uint8_t *h = b->data + p; size_t hn = q - p; long na = card_int(h, hn, "NAXIS   "), sz = na ? 1 : 0; for (int i = 1; i <= na && i < 10; i++) { char k[20]; snprintf(k, 20, "NAXIS%-3d", i); sz = MIN(sz, 1L << 31) * CLAMP(card_int(h, hn, k), 0, 1L << 31); sz = MIN(sz, 1L << 40); } sz = sz * CLAMP(labs(card_int(h, hn, "BITPIX  ")), 0, 64) / 8;
    s.end = q + (sz + 2879) / 2880 * 2880; if (s.end > b->len) s.end = b->len; g_array_append_val(a, s); if (s.end <= p) break; p = s.end;
  }
  return a;
}
static void set_card(uint8_t *c, const char *key, const char *val) { char s[120]; snprintf(s, sizeof s, "%-8.8s= %-70.70s", key, val); memcpy(c, s, 80); }
static void key_of(const uint8_t *c, char *k) { memcpy(k, c, 8); k[8] = 0; for (int i = 7; i >= 0 && k[i] == ' '; i--) k[i] = 0; }
static const char *const NUMS[] = {"0", "1", "-1", "2", "3", "5", "7", "100", "255", "256", "32767", "32768", "65535", "65536", "999999", "2147483647", "-2147483648", "2147483648", "4294967296", "9223372036854775807", "1E300", "NaN", "T", "'abc'", "''", "1.5", "-7", "40000", "'                '", "12345678901234567890123"};
static const char *const FORMS[] = {"'1D'", "'1E'", "'1J'", "'1I'", "'1K'", "'1B'", "'1L'", "'1A'", "'1C'", "'1M'", "'1X'", "'0D'", "'0A'", "'0E'", "'2D'", "'3E'", "'16A'", "'17A'", "'33A'", "'100A'", "'20A4'", "'4A16'", "'16A8'", "'1A32'", "'70A10'", "'PD(5)'", "'1PE(3)'", "'1QJ(2)'", "'0PD(0)'", "'D'", "'Z'", "''", "'99999999D'", "'2147483647A'", "'-3D'", "'1U'", "'9X'", "'1PA(90)'", "'5L'", "'40L'"};
static const char *const EXTS[] = {"'OI_TARGET'", "'OI_ARRAY'", "'OI_WAVELENGTH'", "'OI_CORR'", "'OI_INSPOL'", "'OI_VIS'", "'OI_VIS2'", "'OI_T3'", "'OI_FLUX'", "'OI_VIS3'", "''", "'oi_vis2'", "'OI_*'"};
static const char *const NAMES[] = {"TARGET_ID", "TIME", "MJD", "INT_TIME", "FLAG", "STA_INDEX", "EFF_WAVE", "EFF_BAND", "VISAMP", "VIS2DATA", "T3AMP", "FLUXDATA", "FLUX", "CORRINDX_VISAMP", "CORRINDX_T3PHI", "VISREFMAP", "RVIS", "IVISERR", "CATEGORY", "FOV", "FOVTYPE", "STAXYZ", "DIAMETER", "SPECTYP", "JXX", "INSNAME", "IINDX", "CORR", "UCOORD", "TARGET", "RAEP0", "*", "T*", "#1", "COL#3", "", "  "};
static const char *const STRS[] = {"''", "'A'", "'X                                                                 '", "'absolute'", "'differential'", "'correlated flux'", "'C'", "'U'", "'OIFITS2'", "'OIFITS1'", "'2001-01-01'", "'0000-00-00'", "'99999-99-99'", "'it''s'", "'%s%n%d'", "'unterminated", "42", "T", "'LLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLL'"};
#define PICK(a) a[ri(r, 0, (int)G_N_ELEMENTS(a) - 1)]
void mutate_file(Rng *r, GByteArray *b, GString *log)
{
  GArray *sp = spans(b); int n = chance(r, 0.6) ? ri(r, 1, 2) : ri(r, 3, 12);
  for (int m = 0; m < n; m++)
  {
    if (!sp->len || b->len < 2880) break; Span s = g_array_index(sp, Span, ri(r, 0, sp->len - 1)); if (s.data > b->len) continue; int nc = (s.data - s.off) / 80; uint8_t *h = b->data + s.off, *c = h + 80 * ri(r, 0, nc - 1); char k[9];
    switch (ri(r, 0, 15))
    {
    case 0: /* number in a structural or table keyword */
    { int tries = 60; do { c = h + 80 * ri(r, 0, nc - 1); key_of(c, k); } while (--tries && !(c[10] != '\'' && c[8] == '=' && k[0])); if (!tries) break; const char *v = PICK(NUMS); if (!strcmp(k, "NAXIS") && strtod(v, NULL) > 1000) break; /* CFITSIO itself counts up to NAXIS */ g_string_append_printf(log, "%s=%s; ", k, v); set_card(c, k, v); cov("number %s", k); break; }
    case 1: { int tries = 200; do { c = h + 80 * ri(r, 0, nc - 1); } while (--tries && memcmp(c, "TFORM", 5)); if (!tries) break; key_of(c, k); const char *v = PICK(FORMS); g_string_append_printf(log, "%s=%s; ", k, v); set_card(c, k, v); cov("form %s", v); break; }
    case 2: { int tries = 200; do { c = h + 80 * ri(r, 0, nc - 1); } while (--tries && memcmp(c, "EXTNAME", 7)); if (!tries) break; const char *v = PICK(EXTS); g_string_append_printf(log, "EXTNAME=%s; ", v); set_card(c, "EXTNAME", v); cov("ext %s", v); break; }
    case 3: { int tries = 200; do { c = h + 80 * ri(r, 0, nc - 1); } while (--tries && memcmp(c, "TTYPE", 5)); if (!tries) break; key_of(c, k); char v[80]; snprintf(v, sizeof v, "'%s'", PICK(NAMES)); g_string_append_printf(log, "%s=%s; ", k, v); set_card(c, k, v); cov("column %s", v); break; }
    case 4: { int tries = 200; do { c = h + 80 * ri(r, 0, nc - 1); } while (--tries && c[10] != '\''); if (!tries) break; key_of(c, k); const char *v = PICK(STRS); g_string_append_printf(log, "%s=%s; ", k, v); set_card(c, k, v); cov("string %s", v); break; }
    case 5: { key_of(c, k); g_string_append_printf(log, "no %s; ", k); if (!strcmp(k, "END") && chance(r, 0.9)) break; memset(c, ' ', 80); memcpy(c, "COMMENT gone", 12); cov("removed %s", k); break; }
    case 6: { uint8_t *d = h + 80 * ri(r, 0, nc - 1); if (!memcmp(d, "END", 3)) break; memcpy(d, c, 80); g_string_append(log, "card copied; "); cov("card copied"); break; }
    case 7: { static const char *const K[] = {"TNULL1", "TSCAL1", "TZERO1", "TDIM3", "TNULL2", "TSCAL3", "TZERO2", "THEAP", "ZIMAGE", "ZTABLE", "TDISP1", "OI_REVN", "NDATA", "EXTVER", "INHERIT", "LONGSTRN", "CONTINUE", "CHECKSUM", "DATASUM", "PCOUNT", "GCOUNT", "NAXIS3", "BLANK", "BSCALE", "TFIELDS"}; const char *q = PICK(K), *v = chance(r, 0.5) ? PICK(NUMS) : PICK(STRS); if (nc > 12) c = h + 80 * ri(r, 8, nc - 1); if (!memcmp(c, "END", 3)) break; g_string_append_printf(log, "%s=%s; ", q, v); set_card(c, q, v); cov("added %s", q); break; }
    case 8: { int nb = ri(r, 1, 20); for (int i = 0; i < nb && s.end > s.data; i++) b->data[s.data + rnd(r) % (s.end - s.data)] = chance(r, 0.3) ? 0 : chance(r, 0.3) ? 0xff : (uint8_t)rnd(r); g_string_append(log, "data bytes; "); cov("data bytes"); break; }
    case 9: { int nb = ri(r, 1, 6); for (int i = 0; i < nb; i++) { uint8_t *q = h + rnd(r) % (s.data - s.off); *q = chance(r, 0.7) ? (uint8_t)ri(r, 32, 126) : (uint8_t)rnd(r); } g_string_append(log, "header bytes; "); cov("header bytes"); break; }
    case 10: { size_t at = chance(r, 0.3) ? s.off : chance(r, 0.5) ? s.data + rnd(r) % (s.end - s.data + 1) : rnd(r) % b->len; g_string_append_printf(log, "cut at %zu; ", at); g_byte_array_set_size(b, at); cov("cut"); m = n; break; }
    case 11: { g_string_append(log, "junk appended; "); int nb = ri(r, 1, 6000); for (int i = 0; i < nb; i++) { uint8_t x = (uint8_t)rnd(r); g_byte_array_append(b, &x, 1); } cov("appended"); break; }
    case 12: { if (chance(r, 0.5) && sp->len > 1) { memset(b->data + s.data, chance(r, 0.5) ? 0 : 0x7f, s.end - s.data); g_string_append(log, "data blanked; "); cov("data blanked"); } break; }
    case 13: { /* whole HDU removed or repeated */ if (sp->len < 2 || !s.off) break; if (chance(r, 0.5)) { g_byte_array_remove_range(b, s.off, s.end - s.off); g_string_append(log, "HDU removed; "); cov("HDU removed"); } else { GByteArray *t = g_byte_array_new(); g_byte_array_append(t, b->data + s.off, s.end - s.off); g_byte_array_append(b, t->data, t->len); g_byte_array_free(t, TRUE); g_string_append(log, "HDU repeated; "); cov("HDU repeated"); } g_array_free(sp, TRUE); sp = spans(b); break; }
    case 14: { /* fewer rows than stored, structure kept: other tables see a different number of channels */ int tries = 200; do { c = h + 80 * ri(r, 0, nc - 1); } while (--tries && memcmp(c, "NAXIS2  ", 8)); if (!tries) break; long v = CLAMP(atol((char *)c + 10), 0, 1 << 20); long w = chance(r, 0.5) ? 0 : v > 1 ? ri(r, 0, v - 1) : 0; char t[40]; snprintf(t, sizeof t, "%20ld", w); set_card(c, "NAXIS2", t); long r1 = CLAMP(card_int(h, s.data - s.off, "NAXIS1  "), 0, 1 << 20); size_t ne = s.data + (w * r1 + 2879) / 2880 * 2880; if (ne < s.end) g_byte_array_remove_range(b, ne, s.end - ne); g_string_append_printf(log, "%ld rows of %ld; ", w, v); cov(w ? "fewer rows" : "no rows"); g_array_free(sp, TRUE); sp = spans(b); break; }
    case 15: { /* names made equal or dangling */ static const char *const K[] = {"ARRNAME ", "INSNAME ", "CORRNAME"}; const char *q = PICK(K); int tries = 200; do { c = h + 80 * ri(r, 0, nc - 1); } while (--tries && memcmp(c, q, 8)); if (!tries) break; key_of(c, k); set_card(c, k, chance(r, 0.3) ? "'Q'" : chance(r, 0.5) ? "''" : "'DANGLING'"); g_string_append_printf(log, "%s changed; ", k); cov("reference changed"); break; }
    }
  }
  g_array_free(sp, TRUE);
}
/* oddly shaped but intact files: string widths, empty tables, channel mismatch */
void odd_dataset(Rng *r, oi_fits *o)
{
  if (chance(r, 0.5)) roughen(r, o);
  for (int k = K_ARRAY; k <= K_FLUX; k++) for (GList *l = *listp(o, k); l; l = l->next)
  {
    if (k >= K_INSPOL && chance(r, 0.1) && tab_rows(k, l->data)) { void *e = sub_tab(k, l->data, NULL, 0, NULL, 0); if (e) { free_tab(k, l->data, true); l->data = e; cov("empty %s", DESC[k].ext); } }
    else if (k >= K_INSPOL && chance(r, 0.15)) { /* one channel fewer than its wavelength table */ int nw = tab_nwave(k, l->data); long nr = tab_rows(k, l->data); if (nw > 1 && nr) { long *rows = malloc(nr * sizeof *rows); int *ch = malloc(nw * sizeof *ch); for (long i = 0; i < nr; i++) rows[i] = i; for (int i = 0; i < nw; i++) ch[i] = i; void *e = sub_tab(k, l->data, rows, nr, ch, chance(r, 0.5) ? 1 : nw - 1); free(rows); free(ch); if (e) { free_tab(k, l->data, true); l->data = e; cov("channel mismatch %s", DESC[k].ext); } } }
    if (k == K_FLUX && chance(r, 0.1)) ((oi_flux *)l->data)->calstat = ri(r, 33, 126);
  }
  if (chance(r, 0.1)) o->targets.ntarget = 0;
  if (chance(r, 0.1)) for (GList *l = o->arrayList; l; l = l->next) ((oi_array *)l->data)->nelement = ri(r, 0, ((oi_array *)l->data)->nelement);
  rehash(o);
}
void table_level(Rng *r, const char *p)
{
  fitsfile *f = NULL; int st = 0; stage("open %s", p); cap_begin(); if (fits_open_diskfile(&f, p, READONLY, &st)) { cap_end(NULL, NULL); fits_clear_errmsg(); return; }
  uint64_t h = FNV0;
  for (int i = 0, n = ri(r, 2, 14); i < n; i++)
  {
    st = 0; int k = ri(r, 0, NK), x; char nm[FLEN_VALUE]; strcpy(nm, (const char *[]){"ARR", "INS", "COR", "X", "", "*"}[ri(r, 0, 5)]);
    if (k == NK) { oi_header H; junk_bytes(r, &H, sizeof H); stage("read_oi_header"); read_oi_header(f, &H, &st); if (!st) h = fnv(h, H.object, strlen(H.object)); }
    else if (k == K_TARGET) { oi_target T; junk_bytes(r, &T, sizeof T); stage("read_oi_target"); read_oi_target(f, &T, &st); if (!st) { h ^= dig_tab(K_TARGET, &T, false); free_oi_target(&T); } }
    else if (k <= K_CORR && chance(r, 0.4))
    { void *t = malloc(DESC[k].size); junk_bytes(r, t, DESC[k].size); stage("read %s by name", DESC[k].ext); if (k == K_ARRAY) read_oi_array(f, nm, t, &st); else if (k == K_WAVE) read_oi_wavelength(f, nm, t, &st); else read_oi_corr(f, nm, t, &st); if (!st) { h ^= dig_tab(k, t, false); lib_free_tab(k, t); } else free(t); }
    else { stage("read_next %s", DESC[k].ext); void *t = read_next(k, f, &st); if (t) { h ^= dig_tab(k, t, false); lib_free_tab(k, t); ev("single_tables_read", 1); } }
    h = h * 31 + (st != 0); fits_clear_errmsg(); if (chance(r, 0.2)) { st = 0; fits_movabs_hdu(f, ri(r, 1, 6), &x, &st); fits_clear_errmsg(); }
  }
  st = 0; fits_close_file(f, &st); cap_end(NULL, NULL); fits_clear_errmsg(); digest_out("tables", h);
}
void c05(Rng *r)
{
  g_clock = 1600000000;
  GenOpt g = gen_opt(r); g.ver = chance(r, 0.25) ? 1 : 2; g.smallpool = chance(r, 0.4); g.maxtab = MIN(g.maxtab, 2); oi_fits o, b; gen_oi(r, &g, &o); GString *log = g_string_new(NULL); char *p = spath("h.fits"); GByteArray *f;
  bool odd = chance(r, 0.4); if (odd) { odd_dataset(r, &o); g_string_append(log, "odd dataset; "); }
  int kind = ri(r, 0, 19);
  bool reshaped = chance(r, 0.5); if (kind < 15) { EncOpt e = enc_opt(r, g.ver); e.hostile = reshaped; if (reshaped) g_string_append(log, "columns reshaped; "); f = enc_fits(r, &o, &e, NULL); }
  else if (kind < 19) { f = g_byte_array_new(); int st = 0; unlink(p); stage("write own file"); cap_begin(); write_oi_fits(p, o, &st); cap_end(NULL, NULL); fits_clear_errmsg(); slurp(p, f); unlink(p); }
  else { f = g_byte_array_new(); int n = ri(r, 0, 9000); for (int i = 0; i < n; i++) { uint8_t x = chance(r, 0.5) ? ' ' : (uint8_t)rnd(r); g_byte_array_append(f, &x, 1); } if (n > 80 && chance(r, 0.7)) memcpy(f->data, "SIMPLE  =                    T                                                  ", 80); g_string_append(log, "random bytes; "); }
  if (kind < 19 && (!(odd || (kind < 15 && reshaped)) || chance(r, 0.5))) mutate_file(r, f, log);
  spew(p, f->data, f->len); g_byte_array_free(f, TRUE); free_oi(&o); sample("%s", log->str);
  { char *c = g_strndup(log->str, 600); stage("hostile: %s", c); g_free(c); }
  oi_hush_errors = chance(r, 0.8); cap_begin(); int st = do_read(r, p, &b); cap_end(NULL, NULL); fits_clear_errmsg(); oi_hush_errors = 1; digest_out("status", st != 0);
  if (st) { ev("read_errors", 1); cov("status %d", st); }
  else { if (kind >= 15 && kind < 19 && b.header.date[0]) strcpy(b.header.date, "today"); ev("read_ok", 1); digest_out("read", dig_oi(&b, false)); exercise(r, &b, ""); stage("free_oi_fits"); free_oi_fits(&b); }
  if (chance(r, 0.3)) table_level(r, p);
  g_string_free(log, TRUE);
}
