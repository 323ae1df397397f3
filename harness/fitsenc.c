/* Independent FITS encoder: lays a dataset out as an OIFITS file without the library or CFITSIO. */
#include "mon.h"
#include <ctype.h>
#define P(t, off) ((char *)(t) + (off))

EncOpt enc_opt(Rng *r, int ver)
{
  EncOpt e = {0}; e.ver = ver;
  e.shuffle_hdu = chance(r, 0.5); e.shuffle_col = chance(r, 0.5); e.shuffle_kw = chance(r, 0.5); e.casemix = chance(r, 0.3); e.extracol = chance(r, 0.4);
  e.extrakw = chance(r, 0.4); e.foreign = chance(r, 0.5); e.numvar = chance(r, 0.4); e.checksum = chance(r, 0.4); e.padwide = chance(r, 0.4); e.longtarget = chance(r, 0.2); e.blankname = chance(r, 0.2); e.tdimoff = chance(r, 0.4); e.oddver = chance(r, 0.3);
  return e;
}
uint32_t fits_sum32(const uint8_t *p, size_t n, uint32_t sum)
{
  uint64_t s = sum;
  for (size_t i = 0; i + 3 < n; i += 4) { s += (uint32_t)p[i] << 24 | (uint32_t)p[i + 1] << 16 | (uint32_t)p[i + 2] << 8 | p[i + 3]; s = (s & 0xffffffffu) + (s >> 32); }
  return (uint32_t)s;
}
static void char_encode(uint32_t value, char *out /*16*/)
{
  /* algorithm from the FITS standard, appendix J */
  uint32_t excl[13] = {0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x3f, 0x40, 0x5b, 0x5c, 0x5d, 0x5e, 0x5f, 0x60}; char asc[16];
  for (int i = 0; i < 4; i++)
  {
    int byte = (value >> (24 - 8 * i)) & 0xff, q = byte / 4 + 0x30, rem = byte % 4, ch[4] = {q + rem, q, q, q}; bool again;
    do { again = false; for (int k = 0; k < 13; k++) for (int j = 0; j < 4; j += 2) if (ch[j] == (int)excl[k] || ch[j + 1] == (int)excl[k]) { ch[j]++; ch[j + 1]--; again = true; } } while (again);
    for (int j = 0; j < 4; j++) asc[4 * j + i] = ch[j];
  }
  for (int i = 0; i < 16; i++) out[i] = asc[(i + 15) % 16];
}
static uint8_t *find_card(uint8_t *hdu, size_t hdrlen, const char *key)
{ char k[9]; snprintf(k, 9, "%-8s", key); for (size_t i = 0; i + 80 <= hdrlen; i += 80) if (!memcmp(hdu + i, k, 8)) return hdu + i; return NULL; }
/* Fill in existing CHECKSUM and DATASUM cards. */
void enc_checksums(uint8_t *hdu, size_t hdrlen, size_t total)
{
  uint8_t *c = find_card(hdu, hdrlen, "CHECKSUM"), *d = find_card(hdu, hdrlen, "DATASUM"); if (!c || !d) return;
  uint32_t ds = fits_sum32(hdu + hdrlen, total - hdrlen, 0); char b[81]; char v[20]; snprintf(v, sizeof v, "'%u'", ds);
  snprintf(b, sizeof b, "DATASUM = %-20s / data unit checksum", v); memset(d, ' ', 80); memcpy(d, b, strlen(b));
  memset(c, ' ', 80); memcpy(c, "CHECKSUM= '0000000000000000' / HDU checksum", 43);
  uint32_t s = fits_sum32(hdu, total, 0); char e[16]; char_encode(~s, e); memcpy(c + 11, e, 16);
}
static void card(GByteArray *h, const char *fmt, ...) G_GNUC_PRINTF(2, 3);
static void card(GByteArray *h, const char *fmt, ...)
{ char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); char c[80]; memset(c, ' ', 80); size_t n = strlen(b); memcpy(c, b, n > 80 ? 80 : n); g_byte_array_append(h, (uint8_t *)c, 80); }
static void kstr(Rng *r, GPtrArray *a, const char *key, const char *val, bool com)
{
  char q[200]; int n = 0; for (const char *p = val; *p && n < 150; p++) { q[n++] = *p; if (*p == '\'') q[n++] = '\''; } q[n] = 0;
  char b[300]; snprintf(b, sizeof b, "%-8s= '%-*s'", key, chance(r, 0.7) ? 8 : 0, q);
  if (com && strlen(b) < 60) { strcat(b, " / 'a' comment"); }
  g_ptr_array_add(a, g_strdup(b));
}
static void kint(Rng *r, GPtrArray *a, const char *key, int v) { g_ptr_array_add(a, chance(r, 0.8) ? g_strdup_printf("%-8s= %20d / integer", key, v) : g_strdup_printf("%-8s= %d", key, v)); }
static void kdbl(Rng *r, GPtrArray *a, const char *key, double v)
{ char b[60]; snprintf(b, sizeof b, chance(r, 0.5) ? "%.17G" : "%.16E", v); if (!strpbrk(b, ".E")) strcat(b, "."); if (chance(r, 0.15)) for (char *p = b; *p; p++) if (*p == 'E') *p = 'D'; g_ptr_array_add(a, g_strdup_printf("%-8s= %20s / real", key, b)); }
static void shuffle(Rng *r, void **v, int n) { for (int i = n - 1; i > 0; i--) { int j = ri(r, 0, i); void *t = v[i]; v[i] = v[j]; v[j] = t; } }
static void extra_kw(Rng *r, GPtrArray *a)
{
  int n = ri(r, 1, 5);
  for (int i = 0; i < n; i++) switch (ri(r, 0, 6))
  { case 0: g_ptr_array_add(a, g_strdup("COMMENT  ARRNAME = 'not a keyword'")); break; case 1: g_ptr_array_add(a, g_strdup("HISTORY  INSNAME= 'nor this'")); break; case 2: g_ptr_array_add(a, g_strdup("")); break;
    case 3: g_ptr_array_add(a, g_strdup("HIERARCH ESO INS ARRNAME = 'deep  '")); break; case 4: g_ptr_array_add(a, g_strdup_printf("XKEY%-4d= 'extra   '           / extra", i)); break; case 5: g_ptr_array_add(a, g_strdup_printf("YKEY%-4d= %20.5E", i, 1.5)); break; default: g_ptr_array_add(a, g_strdup_printf("ZKEY%-4d=                    T", i)); }
}
static GByteArray *finish(GByteArray *h, GByteArray *data, bool checksum)
{
  if (checksum) { card(h, "CHECKSUM= '0000000000000000'"); card(h, "DATASUM = '0       '"); }
  card(h, "END"); while (h->len % 2880) g_byte_array_append(h, (uint8_t *)" ", 1); size_t hl = h->len;
  if (data) { g_byte_array_append(h, data->data, data->len); uint8_t z = 0; while (h->len % 2880) g_byte_array_append(h, &z, 1); g_byte_array_free(data, TRUE); }
  if (checksum) enc_checksums(h->data, hl, h->len);
  return h;
}
static void emit(Rng *r, GByteArray *h, GPtrArray *a, bool shuf) { if (shuf) shuffle(r, a->pdata, a->len); for (guint i = 0; i < a->len; i++) card(h, "%s", (char *)a->pdata[i]); g_ptr_array_free(a, TRUE); }
GByteArray *enc_primary(Rng *r, const oi_fits *o, const EncOpt *e)
{
  GByteArray *h = g_byte_array_new(), *d = NULL; GPtrArray *a = g_ptr_array_new_with_free_func(g_free);
  card(h, "SIMPLE  =                    T / FITS");
  if (e->foreign && chance(r, 0.3)) { int x = ri(r, 1, 40), y = ri(r, 1, 40); card(h, "BITPIX  =                   16"); card(h, "NAXIS   =                    2"); card(h, "NAXIS1  = %20d", x); card(h, "NAXIS2  = %20d", y); d = g_byte_array_new(); for (int i = 0; i < 2 * x * y; i++) { uint8_t b = rnd(r); g_byte_array_append(d, &b, 1); } }
  else { card(h, "BITPIX  =                    8"); card(h, "NAXIS   =                    0"); }
  card(h, "EXTEND  =                    T");
  const oi_header *q = &o->header;
  struct { const char *k; const char *v; } kv[] = {{"ORIGIN", q->origin}, {"DATE", q->date}, {"DATE-OBS", q->date_obs}, {"CONTENT", q->content}, {"TELESCOP", q->telescop}, {"INSTRUME", q->instrume}, {"OBSERVER", q->observer}, {"INSMODE", q->insmode}, {"OBJECT", q->object}, {"REFERENC", q->referenc}, {"AUTHOR", q->author}, {"PROG_ID", q->prog_id}, {"PROCSOFT", q->procsoft}, {"OBSTECH", q->obstech}};
  for (unsigned i = 0; i < G_N_ELEMENTS(kv); i++) if (kv[i].v[0] && (e->ver == 2 || strcmp(kv[i].k, "CONTENT"))) kstr(r, a, kv[i].k, kv[i].v, chance(r, 0.5));
  if (e->extrakw) extra_kw(r, a);
  emit(r, h, a, e->shuffle_kw); return finish(h, d, e->checksum);
}
GByteArray *enc_foreign(Rng *r, int variant, int checksum)
{
  GByteArray *h = g_byte_array_new(), *d = g_byte_array_new(); int x = ri(r, 1, 30), y = ri(r, 1, 20);
  if (variant == 0 || variant == 1)
  { card(h, "XTENSION= 'IMAGE   '"); card(h, "BITPIX  =                  -32"); card(h, "NAXIS   =                    2"); card(h, "NAXIS1  = %20d", x); card(h, "NAXIS2  = %20d", y); card(h, "PCOUNT  =                    0"); card(h, "GCOUNT  =                    1");
    card(h, "EXTNAME = '%s'", variant ? "OI_VIS2" : "IMAGE1"); card(h, "OI_REVN =                    2"); card(h, "INSNAME = 'foreign '"); card(h, "ARRNAME = 'foreign '"); for (int i = 0; i < 4 * x * y; i++) { uint8_t b = rnd(r); g_byte_array_append(d, &b, 1); } }
  else if (variant == 2 || variant == 3 || variant == 4)
  { /* binary tables: other name, no name (4), with heap (3) */
    card(h, "XTENSION= 'BINTABLE'"); card(h, "BITPIX  =                    8"); card(h, "NAXIS   =                    2"); card(h, "NAXIS1  =                   12"); card(h, "NAXIS2  = %20d", y); card(h, "PCOUNT  = %20d", variant == 3 ? 64 : 0); card(h, "GCOUNT  =                    1"); card(h, "TFIELDS =                    2");
    card(h, "TTYPE1  = 'TARGET_ID'"); card(h, "TFORM1  = 'J       '"); card(h, "TTYPE2  = 'HEAPCOL '"); card(h, "TFORM2  = '%s'", variant == 3 ? "1PE(4)  " : "D       ");
    if (variant != 4) card(h, "EXTNAME = '%s'", (const char *[]){"MY_TABLE", "OI_VISIBILITY", "OI_TARGETS", "OI_V", "X_OI_T3"}[ri(r, 0, 4)]);
    card(h, "INSNAME = 'foreign '"); card(h, "ARRNAME = 'foreign '"); card(h, "OI_REVN =                    2");
    for (int i = 0; i < 12 * y; i++) { uint8_t b = variant == 3 && (i % 12) >= 4 ? 0 : rnd(r); g_byte_array_append(d, &b, 1); }
    if (variant == 3) for (int i = 0; i < 64; i++) { uint8_t b = rnd(r); g_byte_array_append(d, &b, 1); } }
  else
  { card(h, "XTENSION= 'TABLE   '"); card(h, "BITPIX  =                    8"); card(h, "NAXIS   =                    2"); card(h, "NAXIS1  =                   10"); card(h, "NAXIS2  = %20d", y); card(h, "PCOUNT  =                    0"); card(h, "GCOUNT  =                    1"); card(h, "TFIELDS =                    1");
    card(h, "TBCOL1  =                    1"); card(h, "TFORM1  = 'I10     '"); card(h, "TTYPE1  = 'TARGET_ID'"); card(h, "EXTNAME = '%s'", chance(r, 0.5) ? "OI_T3" : "ASCII"); card(h, "ARRNAME = 'foreign '"); for (int i = 0; i < y; i++) { char b[12]; snprintf(b, sizeof b, "%10d", i); g_byte_array_append(d, (uint8_t *)b, 10); }
    if (d->len % 2880) { int pad = 2880 - d->len % 2880; for (int i = 0; i < pad; i++) g_byte_array_append(d, (uint8_t *)" ", 1); } }
  return finish(h, d, checksum);
}
static void be(uint8_t *p, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) { p[i] = v & 0xff; v >>= 8; } }
static void put(uint8_t *p, char L, double d, long i)
{ switch (L) { case 'B': *p = (uint8_t)i; break; case 'I': be(p, (uint16_t)i, 2); break; case 'J': be(p, (uint32_t)i, 4); break; case 'K': be(p, (uint64_t)i, 8); break; case 'E': { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); be(p, u, 4); } break; case 'D': { uint64_t u; memcpy(&u, &d, 8); be(p, u, 8); } break; } }
static int lsize(char L) { switch (L) { case 'B': case 'A': case 'L': return 1; case 'I': return 2; case 'J': case 'E': return 4; default: return 8; case 'M': return 16; } }
static void mixcase(Rng *r, char *s) { int m = ri(r, 0, 2); for (; *s; s++) *s = m == 0 ? tolower(*s) : m == 1 && chance(r, 0.5) ? tolower(*s) : *s; }
typedef struct { const Col *c; char L; long rep; int width; long off; bool bad; } Lay;
GByteArray *enc_table(Rng *r, int k, void *t, int extver, const EncOpt *e)
{
  const Desc *d = &DESC[k]; GByteArray *h = g_byte_array_new(), *data = g_byte_array_new(); long rows = tab_rows(k, t); int nw = tab_nwave(k, t);
  Lay lay[64] = {0}; int nl = 0;
  for (int c = 0; c < d->ncol; c++)
  {
    const Col *q = &d->col[c]; if (!col_used(k, t, q)) continue; if (e->ver == 1 && q->cond) continue;
    Lay *l = &lay[nl++]; l->c = q; l->rep = d->columnar ? 1 : q->t == T_STR ? 0 : col_n(k, t, q); const char *f = q->tform; while (isdigit((unsigned char)*f)) f++; l->L = *f; l->width = q->strmax;
    if (q->t == T_STR)
    {
      long mx = 1; for (long i = 0; i < rows; i++) { long n = strlen(cell(k, t, q, i)); if (n > mx) mx = n; }
      l->width = q->strmax; if (e->ver == 1 && k == K_TARGET && q->strmax == 32 && mx <= 16) l->width = 16; if (e->padwide && chance(r, 0.5)) l->width = ri(r, mx, q->strmax);
      if (e->longtarget && k == K_TARGET && q->strmax == 32) l->width = ri(r, 33, 60);
      l->rep = l->width;
    }
    else if (e->numvar && chance(r, 0.5))
    {
      if (q->t == T_INT) l->L = l->L == 'I' ? (chance(r, 0.7) ? 'J' : 'K') : 'K';
      if (q->t == T_FLT) { l->L = 'D'; for (long i = 0; i < rows; i++) if (isinf(*(float *)cell(k, t, q, i))) l->L = 'E'; }
      if (q->t == T_DBL)
      {
        l->L = 'E'; for (long i = 0; i < rows; i++) { double *v = cell(k, t, q, i); for (long j = 0; j < l->rep; j++) if (fabs(v[j]) > 3e38) l->L = 'D'; }
        if (l->L == 'E') for (long i = 0; i < rows; i++) { double *v = cell(k, t, q, i); for (long j = 0; j < l->rep; j++) v[j] = (float)v[j]; }
      }
    }
    if (q->t == T_INT && l->L == 'I') for (long i = 0; i < rows; i++) { int *v = cell(k, t, q, i); for (long j = 0; j < l->rep; j++) if (v[j] < -32768 || v[j] > 32767) l->L = 'J'; }
    if (q->t == T_BOOL) for (long i = 0; i < rows; i++) { char *v = cell(k, t, q, i); for (long j = 0; j < l->rep; j++) v[j] = v[j] != 0; }
  }
  if (e->hostile && nl && chance(r, 0.35))
    for (int m = ri(r, 1, 2); m > 0; m--)
    { /* a column of the wrong size or type in an otherwise intact table */
      int i = ri(r, 0, nl - 1); Lay *l = &lay[i]; const Col *q = l->c; l->bad = true;
      if (q->t == T_STR) l->rep = l->width = chance(r, 0.1) ? 0 : q->strmax + (int[]){1, 2, 7, 60, 200, 900}[ri(r, 0, 5)];
      else { long v[] = {0, 1, l->rep - 1, l->rep + 1, 2 * l->rep, l->rep + 300}; l->rep = v[ri(r, 0, 5)]; if (l->rep < 0) l->rep = 0; }
      if (chance(r, 0.2)) { l->L = "AIJEDLBKCM"[ri(r, 0, 9)]; }
      if (chance(r, 0.1)) { memmove(l, l + 1, (nl - i - 1) * sizeof *l); nl--; cov("column dropped %s", q->name); } else cov("column reshaped %s", q->name);
    }
  if (e->extracol) for (int i = 0, n = ri(r, 1, 3); i < n; i++) { Lay *l = &lay[nl++]; l->c = NULL; l->L = "IJEDALB"[ri(r, 0, 6)]; l->rep = ri(r, 0, 5); l->width = i; }
  if (e->shuffle_col) for (int i = nl - 1; i > 0; i--) { int j = ri(r, 0, i); Lay x = lay[i]; lay[i] = lay[j]; lay[j] = x; }
  long naxis1 = 0; for (int i = 0; i < nl; i++) { lay[i].off = naxis1; naxis1 += lay[i].rep * lsize(lay[i].L); }
  card(h, "XTENSION= 'BINTABLE'           / binary table"); card(h, "BITPIX  =                    8"); card(h, "NAXIS   =                    2"); card(h, "NAXIS1  = %20ld", naxis1); card(h, "NAXIS2  = %20ld", rows); card(h, "PCOUNT  =                    0"); card(h, "GCOUNT  =                    1"); card(h, "TFIELDS = %20d", nl);
  GPtrArray *a = g_ptr_array_new_with_free_func(g_free); char key[20], v[90];
  kstr(r, a, "EXTNAME", d->ext, true); if (e->oddver && chance(r, 0.7)) { kint(r, a, "EXTVER", chance(r, 0.6) ? ri(r, 1, 4) : ri(r, -2, 99999)); cov("unusual EXTVER %s", d->ext); } else if (extver > 0) kint(r, a, "EXTVER", extver);
  for (int i = 0; i < d->nkw; i++)
  {
    const Kw *w = &d->kw[i]; char *x = P(t, w->off); if (w->flags & KW_UNIT) continue; if (e->ver == 1 && (w->flags & KW_V2)) continue;
    if (w->t == T_STR) { if ((w->flags & KW_OPT) && !x[0]) continue; kstr(r, a, w->name, x, chance(r, 0.5)); }
    else if (w->t == T_INT) { if ((w->flags & KW_OPT) && *(int *)x < 0) continue; kint(r, a, w->name, *(int *)x); }
    else if (w->t == T_DBL) { if (isnan(*(double *)x)) continue; kdbl(r, a, w->name, *(double *)x); }
    else if (w->t == T_CHR) { char b[2] = {*x, 0}; kstr(r, a, w->name, b, true); }
  }
  for (int i = 0; i < nl; i++)
  {
    Lay *l = &lay[i]; const Col *q = l->c; if (q) snprintf(v, sizeof v, "%s", q->name); else snprintf(v, sizeof v, "XTRA%d%c", l->width, l->L); if (e->casemix) mixcase(r, v);
    snprintf(key, sizeof key, "TTYPE%d", i + 1); kstr(r, a, key, v, true);
    if (l->rep == 1 && chance(r, 0.5)) snprintf(v, sizeof v, "%c", l->L); else snprintf(v, sizeof v, "%ld%c", l->rep, l->L); snprintf(key, sizeof key, "TFORM%d", i + 1); kstr(r, a, key, v, true);
    const char *u = !q ? "furlong" : q->unit; bool wr = u[0] != 0;
    if (u[0] == '@') { u = u[1] == 'a' ? ((oi_vis *)t)->ampunit : u[1] == 'c' ? ((oi_vis *)t)->complexunit : ((oi_flux *)t)->fluxunit; wr = q->unit[1] != 'a' || u[0]; }
    if (wr) { snprintf(key, sizeof key, "TUNIT%d", i + 1); kstr(r, a, key, u, false); }
    if (q && q->len == L_WW && !e->tdimoff) { snprintf(key, sizeof key, "TDIM%d", i + 1); snprintf(v, sizeof v, "(%d,%d)", nw, nw); kstr(r, a, key, v, false); }
  }
  if (e->extrakw) extra_kw(r, a);
  emit(r, h, a, e->shuffle_kw);
  g_byte_array_set_size(data, rows * naxis1);
  for (long row = 0; row < rows; row++)
    for (int i = 0; i < nl; i++)
    {
      Lay *l = &lay[i]; const Col *q = l->c; uint8_t *p = data->data + row * naxis1 + l->off; int ls = lsize(l->L);
      if (!q) { for (long j = 0; j < l->rep * ls; j++) p[j] = l->L == 'L' ? "TF"[ri(r, 0, 1)] : l->L == 'A' ? 'x' : (uint8_t)rnd(r); continue; }
      if (l->bad) { for (long j = 0; j < l->rep * ls; j++) p[j] = l->L == 'L' ? "TF"[ri(r, 0, 1)] : l->L == 'A' ? 'x' : chance(r, 0.5) ? 0 : (uint8_t)ri(r, 0, 66); continue; }
      char *x = cell(k, t, q, row);
      for (long j = 0; j < l->rep; j++) switch (q->t)
      {
      case T_INT: put(p + j * ls, l->L, 0, ((int *)x)[j]); break;
      case T_FLT: put(p + j * ls, l->L, ((float *)x)[j], 0); break;
      case T_DBL: put(p + j * ls, l->L, ((double *)x)[j], 0); break;
      case T_CPX: put(p + j * 8, 'E', ((float *)x)[2 * j], 0); put(p + j * 8 + 4, 'E', ((float *)x)[2 * j + 1], 0); break;
      case T_BOOL: p[j] = x[j] ? 'T' : 'F'; break;
      case T_STR: { size_t n = strlen(x); bool nul = (e->padwide && row % 2 == 0); memset(p, nul ? 0 : ' ', l->rep); memcpy(p, x, n); if (l->rep > 32 && n == 32) for (long m = 32; m < l->rep; m++) p[m] = "tail"[m % 4]; j = l->rep; } break;
      case T_CHR: p[j] = x[j]; break;
      }
    }
  return finish(h, data, e->checksum);
}
GByteArray *enc_fits(Rng *r, oi_fits *o, const EncOpt *e, GArray *layout)
{
  GByteArray *b = enc_primary(r, o, e); if (layout) { HduInfo hi = {-2, NULL, 0, 0, b->len}; g_array_append_val(layout, hi); }
  int seq[600], n = 0; for (int k = 0; k < NK; k++) for (int i = 0, m = tab_count(o, k); i < m && n < 560; i++) seq[n++] = k;
  if (e->foreign) for (int i = 0, m = ri(r, 1, 4); i < m; i++) seq[n++] = -1 - ri(r, 0, 5);
  if (e->shuffle_hdu) for (int i = n - 1; i > 0; i--) { int j = ri(r, 0, i); int x = seq[i]; seq[i] = seq[j]; seq[j] = x; }
  int cnt[NK] = {0};
  for (int i = 0; i < n; i++)
  {
    int k = seq[i]; HduInfo hi = {k < 0 ? -1 : k, NULL, b->len, 0, 0}; GByteArray *h;
    if (k < 0) { int v = -1 - k; if (v == 4 && !e->blankname) v = 2; h = enc_foreign(r, v, e->checksum); }
    else { hi.tab = tab_at(o, k, cnt[k]++); h = enc_table(r, k, hi.tab, k == K_TARGET ? 0 : e->shuffle_hdu && e->extrakw ? 0 : cnt[k], e); }
    g_byte_array_append(b, h->data, h->len); g_byte_array_free(h, TRUE); hi.end = b->len; if (layout) g_array_append_val(layout, hi);
  }
  return b;
}
