/* Random datasets and filters. */
#include "mon.h"
#define P(t, off) ((char *)(t) + (off))
const char *const TXT_CORR_FLUX = "correlated flux";

GenOpt gen_opt(Rng *r)
{
  GenOpt g = {0};
  g.ver = 2; g.maxtab = ri(r, 1, 3); g.maxrec = ri(r, 1, 6); g.maxwave = ri(r, 1, 7);
  if (chance(r, 0.04)) g.maxrec = 40;
  if (chance(r, 0.04)) g.maxwave = 90;
  g.special = chance(r, 0.35); g.longstr = chance(r, 0.35); g.unused = chance(r, 0.4); g.wildflags = chance(r, 0.15);
  g.nozero = chance(r, 0.3); g.norows = chance(r, 0.15); g.tricky = chance(r, 0.25);
  if (chance(r, 0.04))
    switch (ri(r, -1, 8)) /* one large dimension, beyond the usual sizes of fixed tables and counters */
    {
    case -1: case 0: g.maxwave = (int[]){33, 66, 130, 260, 300}[ri(r, 0, 4)]; g.maxrec = MIN(g.maxrec, 3); break;
    case 1: g.maxrec = (int[]){33, 66, 130, 260, 300, 520}[ri(r, 0, 5)]; g.maxwave = MIN(g.maxwave, 3); break;
    case 2: g.maxtab = (int[]){8, 11, 17, 34}[ri(r, 0, 3)]; g.maxrec = MIN(g.maxrec, 2); break;
    case 3: g.ntarget = (int[]){11, 33, 65, 101, 130, 260}[ri(r, 0, 5)]; break;
    case 4: g.maxelem = (int[]){33, 65, 101, 130, 260}[ri(r, 0, 4)]; break;
    case 5: g.nwv = (int[]){9, 17, 34}[ri(r, 0, 2)]; g.maxtab = MAX(g.maxtab, 6); break;
    case 6: g.narr = (int[]){9, 17, 34}[ri(r, 0, 2)]; g.maxtab = MAX(g.maxtab, 6); break;
    case 7: g.ncor = (int[]){4, 11, 20}[ri(r, 0, 2)]; g.maxcorr = chance(r, 0.5) ? 8 : (int[]){70, 300, 1100}[ri(r, 0, 2)]; g.maxtab = MAX(g.maxtab, 4); break;
    default: g.npol = (int[]){5, 11, 20}[ri(r, 0, 2)]; break;
    }
  return g;
}
/* a name that differs little from, or equals, one that is there already */
static bool alike(Rng *r, const char *src, char *dst, int max)
{
  char b[100]; snprintf(b, 80, "%s", src); int n = strlen(b); if (!n) return false; int i = ri(r, 0, n - 1);
  switch (ri(r, 0, 8))
  {
  case 0: case 1: break;
  case 2: if (g_ascii_isalpha(b[i])) b[i] ^= 32; else return false; break;
  case 3: for (int j = 0; j < n; j++) b[j] = g_ascii_toupper(b[j]); break;
  case 4: for (int j = 0; j < n; j++) b[j] = g_ascii_tolower(b[j]); break;
  case 5: b[n - 1] = 0; break;
  case 6: b[n] = '1'; b[n + 1] = 0; break;
  case 7: b[n - 1] = 'Z'; break;
  default: b[i] = "*?_."[ri(r, 0, 3)]; break;
  }
  n = strlen(b); int q = 0; for (int j = 0; j < n; j++) q += b[j] == '\''; if (!n || n + q > max || b[n - 1] == ' ' || b[n - 1] == '&') return false;
  strcpy(dst, b); return true;
}
void gen_str(Rng *r, char *dst, int max, int minlen, const GenOpt *g, bool kw)
{
  int len = g->longstr && chance(r, 0.4) ? max - (chance(r, 0.3) ? 1 : 0) : ri(r, minlen, max < 10 ? max : 10);
  if (len < minlen) len = minlen;
  int budget = max, i = 0;
  for (; i < len && budget > 0; i++)
  {
    char c;
    if (g->asciiplain || chance(r, 0.75)) c = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_"[ri(r, 0, 62)];
    else c = (char)ri(r, 32, 126);
    if (kw && c == '\'') { if (budget < 2) c = 'q'; else budget--; }
    budget--; dst[i] = c;
  }
  dst[i] = 0;
  if (i) { if (dst[i - 1] == ' ' || dst[i - 1] == '&') dst[i - 1] = 'z'; if (dst[0] == ' ' && chance(r, 0.8)) dst[0] = 'a'; }
}
static const double SPEC[] = {0.0, -0.0, 1e308, -1e308, 5e-324, 2.2250738585072014e-308, 1.0, -1.0, 1e-300};
static double sp(Rng *r) { int i = ri(r, 0, 13); if (i < 9) return SPEC[i]; if (i < 11) return NAN; if (i == 11) return INFINITY; if (i == 12) return -INFINITY; uint64_t b = rnd(r); double d; memcpy(&d, &b, 8); return d; }
static double dv(Rng *r, const GenOpt *g, double lo, double hi) { if (g->special && chance(r, 0.12)) return sp(r); return lo + (hi - lo) * ru(r); }
static float fv(Rng *r, const GenOpt *g, double lo, double hi)
{ if (g->special && chance(r, 0.12)) { switch (ri(r, 0, 6)) { case 0: return NAN; case 1: return INFINITY; case 2: return -INFINITY; case 3: return 0.0f; case 4: return -0.0f; case 5: return 1e-45f; default: return 3.4028235e38f; } } return (float)(lo + (hi - lo) * ru(r)); }
static double kd(Rng *r) { switch (ri(r, 0, 6)) { case 0: return 0; case 1: return ri(r, -1000, 1000); case 2: return 1e-12 * ri(r, 1, 9999); case 3: return 1e18 * ri(r, -99, 99); default: return (ru(r) - 0.5) * 1.3e7; } }
static char fl(Rng *r, const GenOpt *g, double p) { if (!chance(r, p)) return 0; return g->wildflags && chance(r, 0.5) ? (char)ri(r, 2, 120) : 1; }
static void date(Rng *r, char *d)
{
  int n = snprintf(d, FLEN_VALUE, "%04d-%02d-%02d", ri(r, 1990, 2035), ri(r, 1, 12), ri(r, 1, 28));
  if (chance(r, 0.15)) { n += snprintf(d + n, FLEN_VALUE - n, "T%02d:%02d:%02d", ri(r, 0, 23), ri(r, 0, 59), ri(r, 0, 60)); if (chance(r, 0.5)) snprintf(d + n, FLEN_VALUE - n, ".%0*d", ri(r, 1, 3) * 2, ri(r, 0, 99)); cov("date with time of day"); }
}
/* Records of which only some channels are unflagged, at places where a short cut or a limit would not look. */
static void flag_pattern(Rng *r, char *flag, int nw)
{
  if (!nw || !chance(r, 0.12)) return;
  int lo = 0, hi = 0;
  switch (ri(r, 0, 3)) { case 0: break; case 1: lo = nw - 1; hi = nw; break; case 2: hi = 1; break; default: lo = ri(r, 0, nw - 1); hi = ri(r, lo, nw); }
  for (int j = 0; j < nw; j++) flag[j] = !(j >= lo && j < hi); cov("flag pattern: %s", hi == lo ? "all" : lo ? "all but last ones" : "all but first ones");
}

static void *newtab(int k, long rows, int nw)
{
  const Desc *d = &DESC[k]; void *t = calloc(1, d->size); tab_set_rows(k, t, rows); if (d->off_nw != (size_t)-1) *(int *)P(t, d->off_nw) = nw;
  if (!d->columnar) *(char **)P(t, d->off_rec) = calloc(rows ? rows : 1, d->recsize);
  else for (int c = 0; c < d->ncol; c++) *(char **)P(t, d->col[c].off) = calloc(rows ? rows : 1, ft_size(d->col[c].t));
  return t;
}
static void alloc_vectors(int k, void *t)
{
  const Desc *d = &DESC[k];
  for (int c = 0; c < d->ncol; c++)
  { const Col *q = &d->col[c]; if (q->len >= 0 || !col_used(k, t, q)) continue; for (long r = 0; r < tab_rows(k, t); r++) *(void **)(*(char **)P(t, d->off_rec) + r * d->recsize + q->off) = calloc(col_n(k, t, q) ? col_n(k, t, q) : 1, ft_size(q->t)); }
}
static bool name_taken(const oi_fits *o, int k, const char *kw, const char *n) { for (GList *l = *listp((oi_fits *)o, k); l; l = l->next) if (!strcmp(tab_str(k, l->data, kw), n)) return true; return false; }
static void gen_name(Rng *r, const GenOpt *g, const oi_fits *o, int k, const char *kw, char *dst, const char *stem)
{
  for (int i = 0; i < 50; i++)
  {
    if (g->smallpool) snprintf(dst, FLEN_VALUE, "%s%s", g->tricky ? "N" : stem, (const char *[]){"", "2", "_001", "_002", "_003", "_004", "B"}[ri(r, 0, 6)]);
    else
    {
      gen_str(r, dst, 68, 1, g, true);
      if (g->tricky && chance(r, 0.5)) { int q = (int[]){K_ARRAY, K_WAVE, K_CORR}[ri(r, 0, 2)], m = tab_count(o, q); if (m && alike(r, tab_str(q, tab_at(o, q, ri(r, 0, m - 1)), (const char *[]){"", "ARRNAME", "INSNAME", "CORRNAME"}[q]), dst, 68)) cov("names that are alike"); }
    }
    if (dst[0] && !name_taken(o, k, kw, dst)) return;
  }
  snprintf(dst, FLEN_VALUE, "%s%d_%d", stem, tab_count(o, k), ri(r, 0, 1 << 20));
}
static const double MJDS[] = {51544.0, 51544.5, 53005.25, 55197.125, 58849.999, 59000.0, 60000.75};
static void row_common(Rng *r, const GenOpt *g, const oi_fits *o, int *tid, double *time, double *mjd, double *it)
{
  *tid = o->targets.targ[ri(r, 0, o->targets.ntarget - 1)].target_id;
  if (time) *time = g->ver == 1 || g->v2time ? dv(r, g, 0, 86400) : 0.0;
  *mjd = chance(r, 0.6) ? MJDS[ri(r, 0, 6)] : 51000 + 9000 * ru(r); if (!g->physical && g->special && chance(r, 0.03)) *mjd = chance(r, 0.5) ? NAN : 0.0;
  *it = dv(r, g, 0, 300);
}
static double uv(Rng *r, const GenOpt *g) { if (g->special && !g->physical && chance(r, 0.05)) return sp(r); switch (ri(r, 0, 5)) { case 0: return 0; case 1: return ri(r, -9, 9) * 10; case 2: return (double[]){30, 40, -30, -40, 50, 120}[ri(r, 0, 5)]; default: return (ru(r) - 0.5) * 300; } }
static double samp(Rng *r, const GenOpt *g, double lo, double hi) { if (chance(r, 0.15)) return ri(r, -1, 2); return dv(r, g, lo, hi); }
static double errv(Rng *r, const GenOpt *g) { if (g->conform) return 0.5 * ru(r); if (chance(r, 0.1)) return (double[]){0.0, 0.1, 0.5, -0.1, 1.0}[ri(r, 0, 4)]; return dv(r, g, 0.001, 0.6); }
static long nrows(Rng *r, const GenOpt *g, int lo, int hi) { if (g->norows && chance(r, 0.3)) { cov("table without records"); return 0; } return ri(r, lo, hi); }
static int staidx(Rng *r, const oi_array *a) { return a ? a->elem[ri(r, 0, a->nelement - 1)].sta_index : chance(r, 0.15) ? (int[]){-1, -7, 255, 256, 32767, -32768}[ri(r, 0, 5)] : ri(r, 0, 9); }

static int cidx(Rng *r) { return chance(r, 0.04) ? (int[]){0, 65536, 2147483647, -1, 32768}[ri(r, 0, 4)] : ri(r, 1, 1 << 20); }

void gen_oi(Rng *r, const GenOpt *g, oi_fits *o)
{
  init_oi_fits(o); oi_header *h = &o->header; bool v2 = g->ver == 2;
  gen_str(r, h->origin, 68, 1, g, true); gen_str(r, h->date, 20, 1, g, true); date(r, h->date_obs);
  strcpy(h->content, v2 ? "OIFITS2" : ""); gen_str(r, h->telescop, 68, 1, g, true); gen_str(r, h->instrume, 68, 1, g, true);
  gen_str(r, h->observer, 68, 1, g, true); gen_str(r, h->insmode, 68, 1, g, true); gen_str(r, h->object, 68, 1, g, true);
  char *opt[5] = {h->referenc, h->author, h->prog_id, h->procsoft, h->obstech};
  for (int i = 0; i < 5; i++) if (chance(r, 0.5)) gen_str(r, opt[i], 68, 0, g, true);
  if (g->smallpool) { char *m[] = {h->origin, h->telescop, h->instrume, h->observer, h->insmode, h->object, h->referenc, h->author, h->prog_id, h->procsoft, h->obstech}; for (int i = 0; i < 11; i++) if (chance(r, 0.7)) strcpy(m[i], (const char *[]){"", "X", "Y", "MULTIPLE", "UNKNOWN"}[ri(r, 0, 4)]); }
  /* targets */
  int nt = g->ntarget ? g->ntarget : chance(r, 0.3) ? 1 : ri(r, 1, 4);
  oi_target *T = newtab(K_TARGET, nt, 0); o->targets = *T; free(T);
  o->targets.revision = g->ver; o->targets.usecategory = v2 && chance(r, 0.4);
  bool seqid = chance(r, 0.5);
  for (int i = 0; i < nt; i++)
  {
    target *t = &o->targets.targ[i];
  again:
    t->target_id = seqid ? i + 1 : chance(r, 0.1) ? (int[]){0, 32767, 1000, -3, -32768}[ri(r, 0, 4)] : ri(r, 1, 400);
    for (int j = 0; j < i; j++) if (o->targets.targ[j].target_id == t->target_id) goto again;
    do
    {
      if (g->smallpool) snprintf(t->target, 33, "star%d", ri(r, 0, g->ntarget ? g->ntarget * 2 : 9)); else gen_str(r, t->target, 32, 1, g, false);
      if (g->tricky && i && chance(r, 0.3)) alike(r, o->targets.targ[ri(r, 0, i - 1)].target, t->target, 32);
      int j; for (j = 0; j < i; j++) if (!strcmp(o->targets.targ[j].target, t->target)) break;
      if (j == i) break;
    } while (1);
    t->raep0 = dv(r, g, 0, 360); t->decep0 = dv(r, g, -90, 90); t->equinox = chance(r, 0.5) ? 2000.0f : fv(r, g, 1950, 2050);
    t->ra_err = dv(r, g, 0, 1e-3); t->dec_err = dv(r, g, 0, 1e-3); t->sysvel = dv(r, g, -1e5, 1e5);
    gen_str(r, t->veltyp, 8, 0, g, false); gen_str(r, t->veldef, 8, 0, g, false);
    t->pmra = dv(r, g, -1e-4, 1e-4); t->pmdec = dv(r, g, -1e-4, 1e-4); t->pmra_err = dv(r, g, 0, 1e-6); t->pmdec_err = dv(r, g, 0, 1e-6);
    t->parallax = fv(r, g, 0, 1e-4); t->para_err = fv(r, g, 0, 1e-6); gen_str(r, t->spectyp, 32, 0, g, false);
    if (o->targets.usecategory) strcpy(t->category, (const char *[]){"SCI", "CAL", "SCI", "", "S"}[ri(r, 0, 4)]);
  }
  /* arrays */
  int na = g->narr ? ri(r, 4, g->narr) : v2 ? ri(r, 1, 3) : ri(r, 0, 2);
  for (int a = 0; a < na; a++)
  {
    oi_array *A = newtab(K_ARRAY, ri(r, 1, g->maxelem ? g->maxelem : chance(r, 0.1) ? 30 : 6), 0); A->revision = g->ver;
    gen_name(r, g, o, K_ARRAY, "ARRNAME", A->arrname, "ARR");
    strcpy(A->frame, chance(r, 0.8) ? "GEOCENTRIC" : "SKY"); if (!g->conform && chance(r, 0.1)) gen_str(r, A->frame, 68, 1, g, true);
    bool grid = g->smallpool; int gi = ri(r, 0, 2);
    A->arrayx = grid ? gi * 100 : kd(r); A->arrayy = grid ? 5 : kd(r); A->arrayz = grid ? -7 : kd(r);
    if (g->undef && chance(r, 0.1)) { *(double *[]){&A->arrayx, &A->arrayy, &A->arrayz}[ri(r, 0, 2)] = NAN; cov("undefined array centre"); }
    int base = chance(r, 0.12) ? (int[]){-5, -300, 100, 125, 250, 32000}[ri(r, 0, 5)] : ri(r, 0, 3); int perm = ri(r, 0, 1);
    for (int i = 0; i < A->nelement; i++)
    {
      element *e = &A->elem[i]; gen_str(r, e->tel_name, 16, 0, g, false); gen_str(r, e->sta_name, 16, 0, g, false);
      e->sta_index = perm ? base + A->nelement - i : base + i; if (grid) e->sta_index = i + 1;
      e->diameter = grid ? 1.8f : fv(r, g, 0.5, 10);
      for (int j = 0; j < 3; j++) e->staxyz[j] = grid ? gi * 10 + i + j : dv(r, g, -500, 500);
      e->fov = v2 ? (grid ? 0.5 : dv(r, g, 0, 3)) : NAN; strcpy(e->fovtype, v2 ? (grid || chance(r, 0.5) ? "FWHM" : "RADIUS") : "FWHM");
      if (g->undef && chance(r, 0.1)) { if (chance(r, 0.5)) e->staxyz[ri(r, 0, 2)] = NAN; else e->diameter = chance(r, 0.8) ? NAN : INFINITY; cov("undefined station value"); }
      if (grid && chance(r, 0.1)) { switch (ri(r, 0, 4)) { case 0: e->staxyz[ri(r, 0, 2)] += 1; break; case 1: e->diameter += 0.5f; break; case 2: e->sta_index += 20; break; case 3: if (v2) e->fov += 0.25; break; case 4: if (v2) strcpy(e->fovtype, "RADIUS"); break; } }
    }
    add_tab(o, K_ARRAY, A);
  }
  /* wavelengths */
  int nwv = g->nwv ? ri(r, 4, g->nwv) : ri(r, 1, 3);
  for (int w = 0; w < nwv; w++)
  {
    int n = g->maxwave > 30 && chance(r, 0.5) ? g->maxwave : ri(r, 1, g->maxwave); if (g->smallpool) n = ri(r, 1, 3);
    oi_wavelength *W = newtab(K_WAVE, n, 0); W->revision = g->ver; gen_name(r, g, o, K_WAVE, "INSNAME", W->insname, "INS");
    float lam = g->smallpool ? (float[]){1.5e-6f, 1.6e-6f, 2.0e-6f}[ri(r, 0, 2)] : (float)(0.5e-6 + 2e-6 * ru(r)); int dir = chance(r, 0.7) || g->conform ? 1 : -1;
    for (int i = 0; i < n; i++)
    {
      W->eff_wave[i] = lam + dir * i * (g->smallpool ? 2e-8f : 1e-8f); W->eff_band[i] = g->smallpool ? 1e-8f : (float)(1e-9 + 2e-8 * ru(r));
      if (!g->conform && !g->smallpool && chance(r, 0.15)) W->eff_wave[i] = (float)(0.4e-6 + 4e-6 * ru(r));
      if (g->undef && chance(r, 0.1)) { if (chance(r, 0.6)) W->eff_band[i] = NAN; else W->eff_wave[i] = chance(r, 0.8) ? NAN : INFINITY; cov("undefined channel"); }
      if (g->special && !g->physical && chance(r, 0.03)) W->eff_band[i] = fv(r, g, 0, 1);
    }
    add_tab(o, K_WAVE, W);
  }
  /* correlations */
  int nc = !v2 ? 0 : g->ncor ? ri(r, 3, g->ncor) : ri(r, 0, 2); if (v2 && g->nozero && !nc) nc = 1;
  for (int c = 0; c < nc; c++)
  {
    oi_corr *C = newtab(K_CORR, nrows(r, g, 1, g->maxcorr ? g->maxcorr : chance(r, 0.05) ? 300 : 8), 0); C->revision = 1; gen_name(r, g, o, K_CORR, "CORRNAME", C->corrname, "COR");
    C->ndata = ri(r, 1, 100000);
    for (int i = 0; i < C->ncorr; i++) { C->iindx[i] = ri(r, 1, 50000); C->jindx[i] = chance(r, 0.1) ? 2147483647 : ri(r, 1, 50000); C->corr[i] = dv(r, g, -1, 1); }
    add_tab(o, K_CORR, C);
  }
  /* polarisation */
  int np = v2 && !g->noinspol && na > 0 ? g->npol ? ri(r, 3, g->npol) : ri(r, 0, 2) : 0; if (v2 && !g->noinspol && g->nozero && !np) np = 1;
  for (int p = 0; p < np; p++)
  {
    oi_wavelength *W = tab_at(o, K_WAVE, ri(r, 0, nwv - 1)); int nw = W->nwave;
    oi_inspol *I = newtab(K_INSPOL, nrows(r, g, 1, g->maxrec), nw); I->revision = 1; date(r, I->date_obs); I->npol = ri(r, 1, 4);
    oi_array *A = tab_at(o, K_ARRAY, ri(r, 0, na - 1)); strcpy(I->arrname, A->arrname);
    strcpy(I->orient, chance(r, 0.5) ? "NORTH" : "LABORATORY"); gen_str(r, I->model, 68, 0, g, true); alloc_vectors(K_INSPOL, I);
    for (int i = 0; i < I->numrec; i++)
    {
      oi_inspol_record *q = &I->record[i]; double it;
      row_common(r, g, o, &q->target_id, NULL, &q->mjd_obs, &it); q->mjd_end = q->mjd_obs + ri(r, 0, 3) * 0.25;
      strcpy(q->insname, W->insname); oi_wavelength *X = tab_at(o, K_WAVE, ri(r, 0, nwv - 1)); if (X->nwave == nw && chance(r, 0.5)) strcpy(q->insname, X->insname);
      for (int j = 0; j < nw; j++) { float *f[4] = {(float *)&q->jxx[j], (float *)&q->jyy[j], (float *)&q->jxy[j], (float *)&q->jyx[j]}; for (int m = 0; m < 4; m++) { f[m][0] = fv(r, g, -1, 1); f[m][1] = fv(r, g, -1, 1); } }
      q->sta_index = staidx(r, A);
    }
    add_tab(o, K_INSPOL, I);
  }
  int maxk = g->maxtab; bool any = false;
  for (int k = K_VIS; k <= (v2 ? K_FLUX : K_T3); k++)
  {
    int n = ri(r, g->nozero ? 1 : 0, maxk); if (!any && k == K_T3 && n == 0) n = 1;
    for (int x = 0; x < n; x++)
    {
      any = true; int lastw = g->unused && nwv > 1 ? nwv - 2 : nwv - 1, lasta = g->unused && na > 1 ? na - 2 : na - 1;
      oi_wavelength *W = tab_at(o, K_WAVE, ri(r, 0, lastw)); int nw = W->nwave;
      oi_array *A = na && (k == K_FLUX ? chance(r, 0.5) : g->conform ? v2 || chance(r, 0.8) : chance(r, 0.8)) ? tab_at(o, K_ARRAY, ri(r, 0, lasta)) : NULL;
      oi_corr *Co = nc && chance(r, 0.5) ? tab_at(o, K_CORR, ri(r, 0, g->unused && nc > 1 ? nc - 2 : nc - 1)) : NULL;
      void *t = newtab(k, nrows(r, g, 1, g->maxrec), nw); tab_set_revn(k, t, v2 ? DESC[k].v2rev : 1); date(r, tab_strp(k, t, "DATE-OBS"));
      if (A) strcpy(tab_strp(k, t, "ARRNAME"), A->arrname);
      strcpy(tab_strp(k, t, "INSNAME"), W->insname); if (Co) strcpy(tab_strp(k, t, "CORRNAME"), Co->corrname);
      if (k == K_VIS)
      {
        oi_vis *V = t; V->amporder = V->phiorder = -1;
        if (v2)
        {
          if (chance(r, 0.7)) strcpy(V->amptyp, (const char *[]){"absolute", "differential", "correlated flux", "absolute"}[ri(r, 0, 3)]);
          if (chance(r, 0.7)) strcpy(V->phityp, (const char *[]){"absolute", "differential"}[ri(r, 0, 1)]);
          if (!g->conform && chance(r, 0.1)) gen_str(r, chance(r, 0.5) ? V->amptyp : V->phityp, 68, 1, g, true);
          if (chance(r, 0.5)) V->amporder = ri(r, 0, 3); if (chance(r, 0.5)) V->phiorder = ri(r, 0, 3);
          if (!strcmp(V->amptyp, TXT_CORR_FLUX) && chance(r, 0.8)) strcpy(V->ampunit, chance(r, 0.5) ? "Jy" : "W/m**2");
          bool diff = !strcmp(V->amptyp, "differential") || !strcmp(V->phityp, "differential");
          V->usevisrefmap = g->nomap ? false : g->conform ? diff : chance(r, 0.4); V->usecomplex = chance(r, 0.4); if (V->usecomplex) strcpy(V->complexunit, chance(r, 0.5) ? "Jy" : "");
        }
        alloc_vectors(k, t);
        for (int i = 0; i < V->numrec; i++)
        {
          oi_vis_record *q = &V->record[i]; row_common(r, g, o, &q->target_id, &q->time, &q->mjd, &q->int_time);
          for (int j = 0; j < nw; j++)
          {
            q->visamp[j] = samp(r, g, 0, 1.1); q->visamperr[j] = errv(r, g); q->visphi[j] = samp(r, g, -180, 180); q->visphierr[j] = 60 * errv(r, g); q->flag[j] = fl(r, g, 0.25);
            if (V->usecomplex) { q->rvis[j] = samp(r, g, -1, 1); q->rviserr[j] = errv(r, g); q->ivis[j] = samp(r, g, -1, 1); q->iviserr[j] = errv(r, g); }
          }
          if (V->usevisrefmap) for (int j = 0; j < nw * nw; j++) q->visrefmap[j] = fl(r, g, 0.5);
          q->ucoord = uv(r, g); q->vcoord = uv(r, g); for (int j = 0; j < 2; j++) q->sta_index[j] = staidx(r, A);
          q->corrindx_visamp = cidx(r); q->corrindx_visphi = cidx(r); q->corrindx_rvis = cidx(r); q->corrindx_ivis = cidx(r); flag_pattern(r, q->flag, nw);
        }
      }
      else if (k == K_VIS2)
      {
        oi_vis2 *V = t; alloc_vectors(k, t);
        for (int i = 0; i < V->numrec; i++)
        {
          oi_vis2_record *q = &V->record[i]; row_common(r, g, o, &q->target_id, &q->time, &q->mjd, &q->int_time);
          for (int j = 0; j < nw; j++) { q->vis2data[j] = samp(r, g, -0.1, 1.1); q->vis2err[j] = errv(r, g); q->flag[j] = fl(r, g, 0.25); }
          q->ucoord = uv(r, g); q->vcoord = uv(r, g); for (int j = 0; j < 2; j++) q->sta_index[j] = staidx(r, A); q->corrindx_vis2data = cidx(r); flag_pattern(r, q->flag, nw);
        }
      }
      else if (k == K_T3)
      {
        oi_t3 *V = t; alloc_vectors(k, t);
        for (int i = 0; i < V->numrec; i++)
        {
          oi_t3_record *q = &V->record[i]; row_common(r, g, o, &q->target_id, &q->time, &q->mjd, &q->int_time);
          for (int j = 0; j < nw; j++) { q->t3amp[j] = g->conform ? ru(r) : samp(r, g, -0.1, 1.6); q->t3amperr[j] = errv(r, g); q->t3phi[j] = samp(r, g, -180, 180); q->t3phierr[j] = 60 * errv(r, g); q->flag[j] = fl(r, g, 0.25); }
          q->u1coord = uv(r, g); q->v1coord = uv(r, g); q->u2coord = uv(r, g); q->v2coord = uv(r, g); for (int j = 0; j < 3; j++) q->sta_index[j] = staidx(r, A); q->corrindx_t3amp = cidx(r); q->corrindx_t3phi = cidx(r); flag_pattern(r, q->flag, nw);
        }
      }
      else
      {
        oi_flux *V = t; alloc_vectors(k, t); V->calstat = A ? 'U' : 'C'; if (!g->conform && chance(r, 0.2)) V->calstat = "CUX"[ri(r, 0, 2)];
        V->fov = NAN; bool fov = g->conform ? !A && chance(r, 0.5) : chance(r, 0.5); if (fov) { strcpy(V->fovtype, chance(r, 0.5) ? "FWHM" : "RADIUS"); V->fov = kd(r); }
        gen_str(r, V->fluxunit, 20, 1, g, true);
        for (int i = 0; i < V->numrec; i++)
        {
          oi_flux_record *q = &V->record[i]; row_common(r, g, o, &q->target_id, NULL, &q->mjd, &q->int_time);
          for (int j = 0; j < nw; j++) { q->fluxdata[j] = samp(r, g, 0, 100); q->fluxerr[j] = errv(r, g); q->flag[j] = fl(r, g, 0.25); }
          q->sta_index = A ? staidx(r, A) : -1; q->corrindx_fluxdata = cidx(r); flag_pattern(r, q->flag, nw);
        }
      }
      add_tab(o, k, t);
    }
  }
  if (chance(r, 0.02)) { free(o->targets.targ); o->targets.targ = NULL; o->targets.ntarget = 0; cov("no targets"); }
  rehash(o);
}

/* ---------- filters ---------- */
void gen_pattern(Rng *r, const char *name, char *dst)
{
  char b[200]; snprintf(b, sizeof b, "%s", name); int n = strlen(b);
  switch (ri(r, 0, 5))
  {
  case 0: strcpy(b, "*"); break;
  case 1: break;
  case 2: if (n) b[ri(r, 0, n - 1)] = '?'; break;
  case 3: if (n) { int i = ri(r, 0, n); b[i] = '*'; b[i + 1] = 0; } break;
  case 4: if (n) { int i = ri(r, 0, n - 1); char t[220]; snprintf(t, sizeof t, "*%s", b + i); strcpy(b, t); } break;
  case 5: if (n) { int i = ri(r, 0, n - 1), j = ri(r, i, n - 1); char t[220]; snprintf(t, sizeof t, "%.*s*%s", i, b, b + j); strcpy(b, t); } break;
  }
  g_strlcpy(dst, b, FLEN_VALUE);
}
/* A limit near v. Exactly at v or one step away only when v is exactly representable however it is computed;
 * otherwise well away from it, so that the verdict does not hang on the last bit of a computed quantity. */
static double pick(Rng *r, double v, bool exact)
{
  if (!exact && chance(r, 0.3) && fabs((float)v - v) > 1e-10 * fabs(v) && isfinite((float)v)) { cov("limit at a value rounded to single precision"); return (float)v; }
  if (!exact) return v * (1 + (chance(r, 0.5) ? 1 : -1) * (0.001 + 0.1 * ru(r)));
  switch (ri(r, 0, 4)) { case 0: case 1: return v; case 2: return nextafter(v, INFINITY); case 3: return nextafter(v, -INFINITY); default: return v * (1 + 0.2 * (ru(r) - 0.5)); }
}
static float pickf(Rng *r, float v, bool exact)
{
  if (!exact) return (float)(v * (1 + (chance(r, 0.5) ? 1 : -1) * (0.001 + 0.1 * ru(r))));
  switch (ri(r, 0, 4)) { case 0: case 1: return v; case 2: return nextafterf(v, INFINITY); case 3: return nextafterf(v, -INFINITY); default: return (float)(v * (1 + 0.2 * (ru(r) - 0.5))); }
}
static bool rand_datum(Rng *r, const oi_fits *o, double *mjd, double *bas, double *uvr, double *snr, bool *bx, bool *sx)
{
  *bx = *sx = false; /* until a datum is found */ bool phi = chance(r, 0.5); double num = 0, den = 1;
  int ks[3] = {K_VIS, K_VIS2, K_T3}; int k = ks[ri(r, 0, 2)]; int n = tab_count(o, k); if (!n) return false;
  void *t = tab_at(o, k, ri(r, 0, n - 1)); long nr = tab_rows(k, t); int nw = tab_nwave(k, t); if (!nr || !nw) return false;
  *sx = true; long i = ri(r, 0, nr - 1); int j = ri(r, 0, nw - 1); double u = 0, v = 0;
  if (k == K_VIS) { oi_vis_record *q = &((oi_vis *)t)->record[i]; *mjd = q->mjd; u = q->ucoord; v = q->vcoord; num = phi ? 180.0 / 3.14159 : q->visamp[j]; den = phi ? q->visphierr[j] : q->visamperr[j]; if (phi) *sx = false; }
  else if (k == K_VIS2) { oi_vis2_record *q = &((oi_vis2 *)t)->record[i]; *mjd = q->mjd; u = q->ucoord; v = q->vcoord; num = q->vis2data[j]; den = q->vis2err[j]; }
  else { oi_t3_record *q = &((oi_t3 *)t)->record[i]; *mjd = q->mjd; switch (ri(r, 0, 2)) { case 0: u = q->u1coord; v = q->v1coord; break; case 1: u = q->u2coord; v = q->v2coord; break; default: u = q->u1coord + q->u2coord; v = q->v1coord + q->v2coord; } num = phi ? 180.0 / 3.14159 : q->t3amp[j]; den = phi ? q->t3phierr[j] : q->t3amperr[j]; if (phi) *sx = false; }
  *snr = num / den; double s2 = u * u + v * v; *bas = sqrt(s2); *bx = u == floor(u) && v == floor(v) && *bas == floor(*bas) && s2 < 1e12; *uvr = *bas; const char *ins = tab_str(k, t, "INSNAME");
  for (GList *l = o->wavelengthList; l; l = l->next) { oi_wavelength *W = l->data; if (!strcmp(W->insname, ins) && j < W->nwave) { *uvr = *bas / W->eff_wave[j]; break; } }
  return true;
}
void gen_filter(Rng *r, const oi_fits *o, oi_filter_spec *f)
{
  init_oi_filter(f); double pr = chance(r, 0.3) ? 0.1 : 0.3;
  double mjd = 53000, bas = 50, uvr = 3e7, snr = 5;
  bool bx = false, sx = false;
#define RD rand_datum(r, o, &mjd, &bas, &uvr, &snr, &bx, &sx)
  struct { int k; const char *kw; char *dst; } pt[3] = {{K_ARRAY, "ARRNAME", f->arrname}, {K_WAVE, "INSNAME", f->insname}, {K_CORR, "CORRNAME", f->corrname}};
  for (int i = 0; i < 3; i++) if (chance(r, i == 2 ? pr * 0.4 : pr * 0.6)) { int n = tab_count(o, pt[i].k); gen_pattern(r, n ? tab_str(pt[i].k, tab_at(o, pt[i].k, ri(r, 0, n - 1)), pt[i].kw) : "X", pt[i].dst); }
  if (chance(r, pr)) f->target_id = chance(r, 0.92) && o->targets.ntarget ? o->targets.targ[ri(r, 0, o->targets.ntarget - 1)].target_id : ri(r, 0, 500);
  if (chance(r, pr)) { RD; f->mjd_range[0] = pick(r, mjd, true); } if (chance(r, pr)) { RD; f->mjd_range[1] = pick(r, mjd, true); }
  if (chance(r, pr)) { RD; f->bas_range[0] = pick(r, bas, bx) * (chance(r, 0.5) ? 1 : 0.3); } if (chance(r, pr)) { RD; f->bas_range[1] = pick(r, bas, bx); }
  if (chance(r, pr)) { RD; f->uvrad_range[0] = pick(r, uvr, bx) * (chance(r, 0.5) ? 1 : 0.3); } if (chance(r, pr)) { RD; f->uvrad_range[1] = pick(r, uvr, bx); }
  if (chance(r, pr)) { RD; f->snr_range[0] = pickf(r, (float)snr, sx); } if (chance(r, pr)) { RD; f->snr_range[1] = pickf(r, (float)snr, sx); }
  for (int e = 0; e < 2; e++)
    if (chance(r, pr) && o->wavelengthList) { oi_wavelength *W = tab_at(o, K_WAVE, ri(r, 0, tab_count(o, K_WAVE) - 1)); if (W->nwave) f->wave_range[e] = pickf(r, W->eff_wave[ri(r, 0, W->nwave - 1)], true); }
  if (chance(r, 0.1)) f->accept_vis = 0; if (chance(r, 0.1)) f->accept_vis2 = 0; if (chance(r, 0.15)) f->accept_t3amp = 0; if (chance(r, 0.15)) f->accept_t3phi = 0; if (chance(r, 0.1)) f->accept_flux = 0;
  f->accept_flagged = chance(r, 0.5) ? 1 : 0; if (chance(r, 0.05)) f->accept_flagged = 7;
}
