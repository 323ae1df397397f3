/* Independent FITS decoder and OIFITS2 conformance monitor for files the library wrote. */
#define _GNU_SOURCE
#include "mon.h"
#include <ctype.h>
#include <time.h>
#define P(t, off) ((char *)(t) + (off))
#define BAD(...) do { g_string_append_printf(why, __VA_ARGS__); return false; } while (0)

static bool parse_card(const uint8_t *p, Card *c, GString *why)
{
  memset(c, 0, sizeof *c); memcpy(c->raw, p, 80); for (int i = 0; i < 80; i++) if (p[i] < 32 || p[i] > 126) BAD("non-ASCII byte 0x%02x in header card '%.8s'", p[i], (char *)p);
  memcpy(c->key, p, 8); for (int i = 7; i >= 0 && c->key[i] == ' '; i--) c->key[i] = 0;
  for (char *k = c->key; *k; k++) if (!isupper((unsigned char)*k) && !isdigit((unsigned char)*k) && *k != '-' && *k != '_') BAD("illegal keyword name '%s'", c->key);
  if (memcmp(p + 8, "= ", 2)) { c->type = 0; return true; }
  const char *s = c->raw + 10; if (!strcmp(c->key, "COMMENT") || !strcmp(c->key, "HISTORY") || !strcmp(c->key, "CONTINUE")) { c->type = 0; return true; }
  while (*s == ' ') s++;
  if (*s == '\'')
  { c->type = 'S'; int n = 0; s++; bool closed = false;
    while (*s) { if (*s == '\'') { if (s[1] == '\'') { c->sval[n++] = '\''; s += 2; continue; } closed = true; s++; break; } c->sval[n++] = *s++; }
    if (!closed) BAD("unterminated string in card '%s'", c->raw);
    while (n > 0 && c->sval[n - 1] == ' ') n--; c->sval[n] = 0; }
  else if ((*s == 'T' || *s == 'F') && (s[1] == ' ' || s[1] == '/' || !s[1])) { c->type = 'L'; c->ival = *s == 'T'; s++; }
  else if (*s == '/' || !*s) { c->type = 'U'; return true; }
  else
  { char b[80]; int n = 0; while (*s && *s != ' ' && *s != '/') { b[n++] = *s == 'D' ? 'E' : *s; s++; } b[n] = 0; char *e; c->dval = strtod(b, &e); if (*e || strpbrk(b, "xXnNiI")) BAD("malformed number in card '%s'", c->raw);
    c->type = strpbrk(b, ".E") ? 'R' : 'N'; c->ival = strtoll(b, NULL, 10); }
  while (*s == ' ') s++; if (*s && *s != '/') BAD("junk after value in card '%s'", c->raw);
  return true;
}
const Card *hdu_card(const Hdu *h, const char *key) { for (guint i = 0; i < h->cards->len; i++) { const Card *c = &g_array_index(h->cards, Card, i); if (!strcmp(c->key, key)) return c; } return NULL; }
int hdu_col(const Hdu *h, const char *name) { for (int i = 0; i < h->tfields; i++) if (!strcasecmp(h->col[i].name, name)) return i; return -1; }
void dec_free(Fits *f) { if (!f) return; for (guint i = 0; i < f->hdu->len; i++) { Hdu *h = f->hdu->pdata[i]; g_array_free(h->cards, TRUE); free(h->col); free(h); } g_ptr_array_free(f->hdu, TRUE); free(f); }
static bool need_int(const Hdu *h, int idx, const char *key, long long *v, GString *why)
{ if (idx >= (int)h->cards->len) BAD("header too short for %s", key); const Card *c = &g_array_index(h->cards, Card, idx); if (strcmp(c->key, key) || c->type != 'N') BAD("card %d should be %s, is '%.30s'", idx + 1, key, c->raw); *v = c->ival; return true; }
static bool dec_hdu(GByteArray *b, size_t *pos, Hdu *h, GString *why)
{
  size_t p = *pos; h->off = p; bool end = false; GHashTable *seen = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, NULL);
  while (!end)
  {
    if (p + 2880 > b->len) { g_hash_table_destroy(seen); BAD("header at byte %zu not terminated", h->off); }
    for (int i = 0; i < 36; i++)
    {
      const uint8_t *q = b->data + p + 80 * i;
      if (end) { for (int j = 0; j < 80; j++) if (q[j] != ' ') { g_hash_table_destroy(seen); BAD("non-blank after END"); } continue; }
      Card c; if (!parse_card(q, &c, why)) { g_hash_table_destroy(seen); return false; }
      if (!strcmp(c.key, "END") && c.type == 0) { end = true; continue; }
      if (c.type) { if (g_hash_table_contains(seen, c.key)) { g_hash_table_destroy(seen); BAD("duplicate keyword %s", c.key); } g_hash_table_add(seen, g_strdup(c.key)); }
      g_array_append_val(h->cards, c);
    }
    p += 2880;
  }
  g_hash_table_destroy(seen); h->dataoff = p; long long v, bitpix, naxis, pcount = 0, gcount = 1; long long size = 1; const Card *c0 = &g_array_index(h->cards, Card, 0);
  if (h->primary) { if (strcmp(c0->key, "SIMPLE") || c0->type != 'L' || !c0->ival) BAD("primary header does not start with SIMPLE=T"); }
  else { if (strcmp(c0->key, "XTENSION") || c0->type != 'S') BAD("extension does not start with XTENSION"); g_strlcpy(h->xtension, c0->sval, sizeof h->xtension); }
  if (!need_int(h, 1, "BITPIX", &bitpix, why) || !need_int(h, 2, "NAXIS", &naxis, why)) return false; if (naxis < 0 || naxis > 9) BAD("NAXIS=%lld", naxis);
  for (int i = 0; i < naxis; i++) { char k[12]; snprintf(k, sizeof k, "NAXIS%d", i + 1); if (!need_int(h, 3 + i, k, &v, why)) return false; if (v < 0) BAD("%s negative", k); size *= v; if (i == 0) h->naxis1 = v; if (i == 1) h->naxis2 = v; }
  if (naxis == 0) size = 0;
  if (!h->primary) { if (!need_int(h, 3 + naxis, "PCOUNT", &pcount, why) || !need_int(h, 4 + naxis, "GCOUNT", &gcount, why)) return false; }
  size = (llabs(bitpix) / 8) * gcount * (pcount + size); h->datalen = size; size_t pad = (size + 2879) / 2880 * 2880;
  if (h->dataoff + pad > b->len) BAD("data unit of HDU at byte %zu extends past end of file", h->off);
  h->end = h->dataoff + pad; *pos = h->end;
  const Card *c = hdu_card(h, "EXTNAME"); if (c) g_strlcpy(h->extname, c->sval, sizeof h->extname); c = hdu_card(h, "EXTVER"); if (c) { h->has_extver = true; h->extver = c->ival; }
  if (!strcmp(h->xtension, "BINTABLE"))
  {
    if (bitpix != 8 || naxis != 2 || gcount != 1) BAD("BINTABLE with BITPIX=%lld NAXIS=%lld GCOUNT=%lld", bitpix, naxis, gcount);
    if (!need_int(h, 7, "TFIELDS", &v, why)) return false; h->tfields = v; if (v < 0 || v > 999) BAD("TFIELDS=%lld", v); h->col = calloc(v + 1, sizeof *h->col); long off = 0;
    for (int i = 0; i < h->tfields; i++)
    {
      char k[12]; snprintf(k, sizeof k, "TTYPE%d", i + 1); c = hdu_card(h, k); if (!c || c->type != 'S' || !c->sval[0]) BAD("%s missing", k); g_strlcpy(h->col[i].name, c->sval, 80);
      for (int j = 0; j < i; j++) if (!strcasecmp(h->col[j].name, h->col[i].name)) BAD("duplicate column name %s", h->col[i].name);
      snprintf(k, sizeof k, "TFORM%d", i + 1); c = hdu_card(h, k); if (!c || c->type != 'S') BAD("%s missing", k); g_strlcpy(h->col[i].tform, c->sval, 40);
      char *e; long rep = strtol(c->sval, &e, 10); if (e == c->sval) rep = 1; h->col[i].letter = *e; h->col[i].rep = rep; int sz;
      switch (*e) { case 'L': case 'B': case 'A': sz = 1; break; case 'I': sz = 2; break; case 'J': case 'E': sz = 4; break; case 'K': case 'D': case 'C': case 'P': sz = 8; break; case 'M': case 'Q': sz = 16; break; default: BAD("%s='%s'", k, c->sval); }
      h->col[i].off = off; h->col[i].bytes = rep * sz; off += rep * sz;
      snprintf(k, sizeof k, "TUNIT%d", i + 1); c = hdu_card(h, k); if (c) { h->col[i].has_unit = true; g_strlcpy(h->col[i].unit, c->sval, 80); }
      snprintf(k, sizeof k, "TDIM%d", i + 1); c = hdu_card(h, k); if (c) g_strlcpy(h->col[i].tdim, c->sval, 80);
    }
    if (off != h->naxis1) BAD("%s: column widths sum to %ld but NAXIS1=%ld", h->extname, off, h->naxis1);
    for (guint i = 0; i < h->cards->len; i++) { const char *k = g_array_index(h->cards, Card, i).key; static const char *pf[] = {"TTYPE", "TFORM", "TUNIT", "TDIM", "TNULL", "TSCAL", "TZERO"}; for (int j = 0; j < 7; j++) { size_t l = strlen(pf[j]); if (!strncmp(k, pf[j], l) && isdigit((unsigned char)k[l]) && atoi(k + l) > h->tfields) BAD("%s: %s refers to a column beyond TFIELDS=%d", h->extname, k, h->tfields); } }
    for (size_t i = h->dataoff + h->datalen; i < h->end; i++) if (b->data[i]) BAD("%s: data unit padding not zero", h->extname);
  }
  return true;
}
Fits *dec_fits(GByteArray *b, GString *why)
{
  Fits *f = calloc(1, sizeof *f); f->b = b; f->hdu = g_ptr_array_new(); size_t pos = 0;
  if (b->len == 0 || b->len % 2880) { g_string_append_printf(why, "file length %u is not a positive multiple of 2880", b->len); dec_free(f); return NULL; }
  while (pos < b->len)
  { Hdu *h = calloc(1, sizeof *h); h->cards = g_array_new(FALSE, FALSE, sizeof(Card)); h->primary = pos == 0; g_ptr_array_add(f->hdu, h); if (!dec_hdu(b, &pos, h, why)) { g_string_append_printf(why, " [HDU %u]", f->hdu->len); dec_free(f); return NULL; } }
  return f;
}
bool hdu_sums_ok(const Fits *f, const Hdu *h, bool *present, bool *dataok, bool *hduok)
{
  const Card *c = hdu_card(h, "CHECKSUM"), *d = hdu_card(h, "DATASUM"); *present = c && d; *dataok = *hduok = true;
  if (d) *dataok = strtoul(d->sval, NULL, 10) == fits_sum32(f->b->data + h->dataoff, h->end - h->dataoff, 0) && d->sval[0];
  if (c) { uint32_t s = fits_sum32(f->b->data + h->off, h->end - h->off, 0); *hduok = s == 0 || s == 0xffffffffu; }
  return *present && *dataok && *hduok;
}
static uint64_t rb(const uint8_t *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | p[i]; return v; }
static bool same_d(double a, const uint8_t *p) { uint64_t u = rb(p, 8); double x; memcpy(&x, &u, 8); return (isnan(a) && isnan(x)) || !memcmp(&a, &x, 8); }
static bool same_f(float a, const uint8_t *p) { uint32_t u = rb(p, 4); float x; memcpy(&x, &u, 4); return (isnan(a) && isnan(x)) || !memcmp(&a, &x, 4); }
static bool str_is(const char *want, const uint8_t *p, long w)
{ long n = 0; while (n < w && p[n]) n++; long m = strlen(want); while (n && p[n - 1] == ' ') n--; while (m && want[m - 1] == ' ') m--; return n == m && !memcmp(p, want, n); }
static void rstrip(char *d, const char *s) { strcpy(d, s); int n = strlen(d); while (n && d[n - 1] == ' ') d[--n] = 0; }
static bool kw_str(const Hdu *h, const char *key, const char *want, bool opt, GString *why)
{
  const Card *c = hdu_card(h, key); char w[200]; rstrip(w, want);
  if (opt && !w[0]) { if (c) BAD("%s: keyword %s present although not specified", h->extname, key); return true; }
  if (!c) BAD("%s: mandatory keyword %s missing", h->extname, key); if (c->type != 'S') BAD("%s: keyword %s is not a string: '%s'", h->extname, key, c->raw);
  if (strcmp(c->sval, w)) BAD("%s: keyword %s is '%s', in memory '%s'", h->extname, key, c->sval, w);
  return true;
}
/* one table: keywords, columns, formats, units and every value; TIME is always written as zero */
bool conform_table(Fits *f, Hdu *h, int k, void *t, int ver, GString *why)
{
    const Desc *d = &DESC[k];
    if (k != K_TARGET && (!h->has_extver || h->extver != ver)) BAD("%s: EXTVER is %d, expected %d", h->extname, h->extver, ver);
    const Card *c = hdu_card(h, "OI_REVN"); if (!c || c->type != 'N' || c->ival != d->v2rev) BAD("%s: OI_REVN is not %d", h->extname, d->v2rev);
    for (int j = 1; j < d->nkw; j++)
    {
      const Kw *w = &d->kw[j]; char *x = P(t, w->off); if (w->flags & KW_UNIT) continue;
      if (w->t == T_STR) { if (!kw_str(h, w->name, x, w->flags & KW_OPT, why)) return false; continue; }
      c = hdu_card(h, w->name);
      if (w->t == T_CHR) { char b[2] = {*x, 0}; if (!kw_str(h, w->name, b, false, why)) return false; }
      else if (w->t == T_INT) { if ((w->flags & KW_OPT) && *(int *)x < 0) { if (c) BAD("%s: %s present although not specified", h->extname, w->name); } else if (!c || c->type != 'N' || c->ival != *(int *)x) BAD("%s: keyword %s is not %d", h->extname, w->name, *(int *)x); }
      else { double v = *(double *)x; bool opt = w->flags & KW_OPT; if (opt && (isnan(v) || !((oi_flux *)t)->fovtype[0])) { if (c) BAD("%s: %s present although not specified", h->extname, w->name); } else if (!c || (c->type != 'R' && c->type != 'N') || fabs(c->dval - v) > 2e-14 * fabs(v)) BAD("%s: keyword %s is %s, in memory %.17g", h->extname, w->name, c ? c->raw + 10 : "missing", v); }
    }
    long rows = tab_rows(k, t); int nw = tab_nwave(k, t), nc = 0; if (h->naxis2 != rows) BAD("%s: NAXIS2=%ld, in memory %ld", h->extname, h->naxis2, rows);
    for (int j = 0; j < d->ncol; j++)
    {
      const Col *q2 = &d->col[j]; int ci = hdu_col(h, q2->name); bool use = col_used(k, t, q2); if (q2->cond == CD_V2) use = true; if (q2->cond == CD_CORR) use = tab_str(k, t, "CORRNAME")[0] != 0;
      if (use != (ci >= 0)) BAD("%s: column %s %s", h->extname, q2->name, use ? "missing" : "present although not used"); if (!use) continue; nc++;
      const char *lf = q2->tform; long rep = 1; if (isdigit((unsigned char)*lf)) rep = strtol(lf, (char **)&lf, 10); if (!d->columnar && q2->len < 0) rep = col_n(k, t, q2);
      if (h->col[ci].letter != *lf || h->col[ci].rep != rep) { if (!(q2->t == T_STR && k == K_INSPOL && h->col[ci].letter == 'A')) BAD("%s: column %s has format '%s', standard %ld%c", h->extname, q2->name, h->col[ci].tform, rep, *lf); }
      char key[12]; static const char *pf[] = {"TSCAL", "TZERO"}; for (int m = 0; m < 2; m++) { snprintf(key, sizeof key, "%s%d", pf[m], ci + 1); if (hdu_card(h, key)) BAD("%s: column %s is scaled", h->extname, q2->name); }
      const char *u = q2->unit; bool wr = u[0] != 0; if (u[0] == '@') { u = u[1] == 'a' ? ((oi_vis *)t)->ampunit : u[1] == 'c' ? ((oi_vis *)t)->complexunit : ((oi_flux *)t)->fluxunit; wr = q2->unit[1] != 'a' || (!strcmp(((oi_vis *)t)->amptyp, TXT_CORR_FLUX)); }
      char uu[100]; rstrip(uu, u); if (!wr) uu[0] = 0;
      if (strcmp(h->col[ci].unit, uu)) BAD("%s: column %s has unit '%s', expected '%s'", h->extname, q2->name, h->col[ci].unit, uu); if (q2->unit[0] == '@' && q2->unit[1] != 'a' && !h->col[ci].has_unit) BAD("%s: column %s lacks TUNIT", h->extname, q2->name);
      if (q2->len == L_WW) { char td[60]; snprintf(td, sizeof td, "(%d,%d)", nw, nw); if (strcmp(h->col[ci].tdim, td)) BAD("%s: VISREFMAP TDIM '%s', expected '%s'", h->extname, h->col[ci].tdim, td); }
      for (long r = 0; r < rows; r++)
      {
        const uint8_t *s = f->b->data + h->dataoff + r * h->naxis1 + h->col[ci].off; char *x = cell(k, t, q2, r);
        for (long m = 0; m < (q2->t == T_STR ? 1 : rep); m++)
        {
          bool ok = true;
          switch (q2->t)
          { case T_INT: { int v = ((int *)x)[m]; ok = *lf == 'I' ? (int16_t)rb(s + 2 * m, 2) == v : (int32_t)rb(s + 4 * m, 4) == v; } break; case T_FLT: ok = same_f(((float *)x)[m], s + 4 * m); break;
            case T_DBL: ok = same_d(q2->istime ? 0.0 : ((double *)x)[m], s + 8 * m); break; case T_CPX: ok = same_f(((float *)x)[2 * m], s + 8 * m) && same_f(((float *)x)[2 * m + 1], s + 8 * m + 4); break;
            case T_BOOL: ok = s[m] == (x[m] ? 'T' : 'F'); break; case T_STR: ok = str_is(x, s, h->col[ci].rep); break; case T_CHR: ok = *x == (char)*s; break; }
          if (!ok) BAD("%s #%d: column %s row %ld item %ld in the file differs from memory", h->extname, ver, q2->name, r + 1, m + 1);
        }
      }
    }
    if (nc != h->tfields) BAD("%s: %d columns, expected %d", h->extname, h->tfields, nc);
    return true;
}
bool conform_oifits2(Fits *f, const oi_fits *o, GString *why)
{
  Hdu *p = f->hdu->pdata[0]; const oi_header *q = &o->header; bool pr, dk, hk;
  for (guint i = 0; i < f->hdu->len; i++) { hdu_sums_ok(f, f->hdu->pdata[i], &pr, &dk, &hk); if (!pr) BAD("HDU %u has no CHECKSUM/DATASUM", i + 1); if (!dk || !hk) BAD("HDU %u: checksum wrong (data %d hdu %d)", i + 1, dk, hk); }
  if (p->datalen) BAD("primary HDU has data");
  struct { const char *k; const char *v; bool opt; } kv[] = {{"ORIGIN", q->origin, 0}, {"DATE-OBS", q->date_obs, 0}, {"CONTENT", "OIFITS2", 0}, {"TELESCOP", q->telescop, 0}, {"INSTRUME", q->instrume, 0}, {"OBSERVER", q->observer, 0}, {"INSMODE", q->insmode, 0}, {"OBJECT", q->object, 0}, {"REFERENC", q->referenc, 1}, {"AUTHOR", q->author, 1}, {"PROG_ID", q->prog_id, 1}, {"PROCSOFT", q->procsoft, 1}, {"OBSTECH", q->obstech, 1}};
  for (unsigned i = 0; i < G_N_ELEMENTS(kv); i++) if (!kw_str(p, kv[i].k, kv[i].v, kv[i].opt, why)) return false;
  const Card *dt = hdu_card(p, "DATE"); if (!dt || dt->type != 'S') BAD("DATE missing");
  time_t now = time(NULL); bool today = false; for (int d = -1; d <= 1; d++) { time_t t = now + d * 3600; struct tm tm; gmtime_r(&t, &tm); char b[20]; strftime(b, sizeof b, "%Y-%m-%d", &tm); if (!strncmp(b, dt->sval, 10)) today = true; }
  if (!today) BAD("DATE='%s' is not the current date", dt->sval);
  int want[NK], tot = 1, cnt[NK] = {0}; for (int k = 0; k < NK; k++) { want[k] = tab_count(o, k); tot += want[k]; } if ((int)f->hdu->len != tot) BAD("%u HDUs, expected %d", f->hdu->len, tot);
  for (guint i = 1; i < f->hdu->len; i++)
  {
    Hdu *h = f->hdu->pdata[i]; int k; if (strcmp(h->xtension, "BINTABLE")) BAD("HDU %u is '%s'", i + 1, h->xtension); for (k = 0; k < NK; k++) if (!strcmp(h->extname, DESC[k].ext)) break; if (k == NK) BAD("HDU %u has EXTNAME '%s'", i + 1, h->extname);
    if (i == 1 && k != K_TARGET) BAD("first extension is %s, not OI_TARGET", h->extname);
    if (++cnt[k] > want[k]) BAD("too many %s tables", h->extname); if (!conform_table(f, h, k, tab_at(o, k, cnt[k] - 1), cnt[k], why)) return false;
  }
  for (int k = 0; k < NK; k++) if (cnt[k] != want[k]) BAD("%d %s tables, expected %d", cnt[k], DESC[k].ext, want[k]);
  return true;
}
