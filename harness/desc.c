/* Descriptions of the OIFITS tables (from the OIFITS v1/v2 standard and the public
 * struct definitions) and generic, library-independent operations driven by them. */
#include "mon.h"

#define KW(S, n, t, f, fl) {n, t, offsetof(S, f), fl}
#define C(S, n, t, f, len, sm, cd, form, unit) {n, t, offsetof(S, f), len, sm, cd, false, form, unit}
#define CT(S, n, t, f, len, sm, cd, form, unit) {n, t, offsetof(S, f), len, sm, cd, true, form, unit}

static const Kw kw_target[] = {KW(oi_target, "OI_REVN", T_INT, revision, KW_REVN)};
static const Col col_target[] = {
  C(target, "TARGET_ID", T_INT, target_id, 1, 0, 0, "I", ""), C(target, "TARGET", T_STR, target, 1, 32, 0, "32A", ""),
  C(target, "RAEP0", T_DBL, raep0, 1, 0, 0, "D", "deg"), C(target, "DECEP0", T_DBL, decep0, 1, 0, 0, "D", "deg"),
  C(target, "EQUINOX", T_FLT, equinox, 1, 0, 0, "E", "yr"), C(target, "RA_ERR", T_DBL, ra_err, 1, 0, 0, "D", "deg"),
  C(target, "DEC_ERR", T_DBL, dec_err, 1, 0, 0, "D", "deg"), C(target, "SYSVEL", T_DBL, sysvel, 1, 0, 0, "D", "m/s"),
  C(target, "VELTYP", T_STR, veltyp, 1, 8, 0, "8A", ""), C(target, "VELDEF", T_STR, veldef, 1, 8, 0, "8A", ""),
  C(target, "PMRA", T_DBL, pmra, 1, 0, 0, "D", "deg/yr"), C(target, "PMDEC", T_DBL, pmdec, 1, 0, 0, "D", "deg/yr"),
  C(target, "PMRA_ERR", T_DBL, pmra_err, 1, 0, 0, "D", "deg/yr"), C(target, "PMDEC_ERR", T_DBL, pmdec_err, 1, 0, 0, "D", "deg/yr"),
  C(target, "PARALLAX", T_FLT, parallax, 1, 0, 0, "E", "deg"), C(target, "PARA_ERR", T_FLT, para_err, 1, 0, 0, "E", "deg"),
  C(target, "SPECTYP", T_STR, spectyp, 1, 32, 0, "32A", ""), C(target, "CATEGORY", T_STR, category, 1, 3, CD_CAT, "3A", "")};

static const Kw kw_array[] = {KW(oi_array, "OI_REVN", T_INT, revision, KW_REVN), KW(oi_array, "ARRNAME", T_STR, arrname, 0), KW(oi_array, "FRAME", T_STR, frame, 0),
  KW(oi_array, "ARRAYX", T_DBL, arrayx, 0), KW(oi_array, "ARRAYY", T_DBL, arrayy, 0), KW(oi_array, "ARRAYZ", T_DBL, arrayz, 0)};
static const Col col_array[] = {
  C(element, "TEL_NAME", T_STR, tel_name, 1, 16, 0, "16A", ""), C(element, "STA_NAME", T_STR, sta_name, 1, 16, 0, "16A", ""),
  C(element, "STA_INDEX", T_INT, sta_index, 1, 0, 0, "I", ""), C(element, "DIAMETER", T_FLT, diameter, 1, 0, 0, "E", "m"),
  C(element, "STAXYZ", T_DBL, staxyz, 3, 0, 0, "3D", "m"), C(element, "FOV", T_DBL, fov, 1, 0, CD_V2, "D", "arcsec"),
  C(element, "FOVTYPE", T_STR, fovtype, 1, 6, CD_V2, "6A", "")};

static const Kw kw_wave[] = {KW(oi_wavelength, "OI_REVN", T_INT, revision, KW_REVN), KW(oi_wavelength, "INSNAME", T_STR, insname, 0)};
static const Col col_wave[] = {C(oi_wavelength, "EFF_WAVE", T_FLT, eff_wave, 1, 0, 0, "E", "m"), C(oi_wavelength, "EFF_BAND", T_FLT, eff_band, 1, 0, 0, "E", "m")};

static const Kw kw_corr[] = {KW(oi_corr, "OI_REVN", T_INT, revision, KW_REVN), KW(oi_corr, "CORRNAME", T_STR, corrname, 0), KW(oi_corr, "NDATA", T_INT, ndata, 0)};
static const Col col_corr[] = {C(oi_corr, "IINDX", T_INT, iindx, 1, 0, 0, "J", ""), C(oi_corr, "JINDX", T_INT, jindx, 1, 0, 0, "J", ""), C(oi_corr, "CORR", T_DBL, corr, 1, 0, 0, "D", "")};

static const Kw kw_inspol[] = {KW(oi_inspol, "OI_REVN", T_INT, revision, KW_REVN), KW(oi_inspol, "DATE-OBS", T_STR, date_obs, 0), KW(oi_inspol, "NPOL", T_INT, npol, 0),
  KW(oi_inspol, "ARRNAME", T_STR, arrname, 0), KW(oi_inspol, "ORIENT", T_STR, orient, 0), KW(oi_inspol, "MODEL", T_STR, model, 0)};
#define R oi_inspol_record
static const Col col_inspol[] = {C(R, "TARGET_ID", T_INT, target_id, 1, 0, 0, "I", ""), C(R, "INSNAME", T_STR, insname, 1, FLEN_VALUE - 1, 0, "70A", ""),
  C(R, "MJD_OBS", T_DBL, mjd_obs, 1, 0, 0, "D", "day"), C(R, "MJD_END", T_DBL, mjd_end, 1, 0, 0, "D", "day"),
  C(R, "JXX", T_CPX, jxx, L_W, 0, 0, "C", ""), C(R, "JYY", T_CPX, jyy, L_W, 0, 0, "C", ""), C(R, "JXY", T_CPX, jxy, L_W, 0, 0, "C", ""), C(R, "JYX", T_CPX, jyx, L_W, 0, 0, "C", ""),
  C(R, "STA_INDEX", T_INT, sta_index, 1, 0, 0, "I", "")};
#undef R
#define COMMON(S) KW(S, "OI_REVN", T_INT, revision, KW_REVN), KW(S, "DATE-OBS", T_STR, date_obs, 0), KW(S, "ARRNAME", T_STR, arrname, KW_OPT), KW(S, "INSNAME", T_STR, insname, 0), KW(S, "CORRNAME", T_STR, corrname, KW_OPT | KW_V2)
static const Kw kw_vis[] = {COMMON(oi_vis), KW(oi_vis, "AMPTYP", T_STR, amptyp, KW_OPT | KW_V2), KW(oi_vis, "PHITYP", T_STR, phityp, KW_OPT | KW_V2),
  KW(oi_vis, "AMPORDER", T_INT, amporder, KW_OPT | KW_V2), KW(oi_vis, "PHIORDER", T_INT, phiorder, KW_OPT | KW_V2),
  KW(oi_vis, "complexunit", T_STR, complexunit, KW_UNIT), KW(oi_vis, "ampunit", T_STR, ampunit, KW_UNIT)};
#define R oi_vis_record
static const Col col_vis[] = {C(R, "TARGET_ID", T_INT, target_id, 1, 0, 0, "I", ""), CT(R, "TIME", T_DBL, time, 1, 0, 0, "D", "s"), C(R, "MJD", T_DBL, mjd, 1, 0, 0, "D", "day"), C(R, "INT_TIME", T_DBL, int_time, 1, 0, 0, "D", "s"),
  C(R, "VISAMP", T_DBL, visamp, L_W, 0, 0, "D", "@amp"), C(R, "VISAMPERR", T_DBL, visamperr, L_W, 0, 0, "D", "@amp"),
  C(R, "VISPHI", T_DBL, visphi, L_W, 0, 0, "D", "deg"), C(R, "VISPHIERR", T_DBL, visphierr, L_W, 0, 0, "D", "deg"),
  C(R, "UCOORD", T_DBL, ucoord, 1, 0, 0, "D", "m"), C(R, "VCOORD", T_DBL, vcoord, 1, 0, 0, "D", "m"), C(R, "STA_INDEX", T_INT, sta_index, 2, 0, 0, "2I", ""), C(R, "FLAG", T_BOOL, flag, L_W, 0, 0, "L", ""),
  C(R, "CORRINDX_VISAMP", T_INT, corrindx_visamp, 1, 0, CD_CORR, "J", ""), C(R, "CORRINDX_VISPHI", T_INT, corrindx_visphi, 1, 0, CD_CORR, "J", ""),
  C(R, "VISREFMAP", T_BOOL, visrefmap, L_WW, 0, CD_MAP, "L", ""),
  C(R, "RVIS", T_DBL, rvis, L_W, 0, CD_CPX, "D", "@cpx"), C(R, "RVISERR", T_DBL, rviserr, L_W, 0, CD_CPX, "D", "@cpx"), C(R, "CORRINDX_RVIS", T_INT, corrindx_rvis, 1, 0, CD_CPXCORR, "J", ""),
  C(R, "IVIS", T_DBL, ivis, L_W, 0, CD_CPX, "D", "@cpx"), C(R, "IVISERR", T_DBL, iviserr, L_W, 0, CD_CPX, "D", "@cpx"), C(R, "CORRINDX_IVIS", T_INT, corrindx_ivis, 1, 0, CD_CPXCORR, "J", "")};
#undef R
static const Kw kw_vis2[] = {COMMON(oi_vis2)};
#define R oi_vis2_record
static const Col col_vis2[] = {C(R, "TARGET_ID", T_INT, target_id, 1, 0, 0, "I", ""), CT(R, "TIME", T_DBL, time, 1, 0, 0, "D", "s"), C(R, "MJD", T_DBL, mjd, 1, 0, 0, "D", "day"), C(R, "INT_TIME", T_DBL, int_time, 1, 0, 0, "D", "s"),
  C(R, "VIS2DATA", T_DBL, vis2data, L_W, 0, 0, "D", ""), C(R, "VIS2ERR", T_DBL, vis2err, L_W, 0, 0, "D", ""),
  C(R, "UCOORD", T_DBL, ucoord, 1, 0, 0, "D", "m"), C(R, "VCOORD", T_DBL, vcoord, 1, 0, 0, "D", "m"), C(R, "STA_INDEX", T_INT, sta_index, 2, 0, 0, "2I", ""), C(R, "FLAG", T_BOOL, flag, L_W, 0, 0, "L", ""),
  C(R, "CORRINDX_VIS2DATA", T_INT, corrindx_vis2data, 1, 0, CD_CORR, "J", "")};
#undef R
static const Kw kw_t3[] = {COMMON(oi_t3)};
#define R oi_t3_record
static const Col col_t3[] = {C(R, "TARGET_ID", T_INT, target_id, 1, 0, 0, "I", ""), CT(R, "TIME", T_DBL, time, 1, 0, 0, "D", "s"), C(R, "MJD", T_DBL, mjd, 1, 0, 0, "D", "day"), C(R, "INT_TIME", T_DBL, int_time, 1, 0, 0, "D", "s"),
  C(R, "T3AMP", T_DBL, t3amp, L_W, 0, 0, "D", ""), C(R, "T3AMPERR", T_DBL, t3amperr, L_W, 0, 0, "D", ""), C(R, "T3PHI", T_DBL, t3phi, L_W, 0, 0, "D", "deg"), C(R, "T3PHIERR", T_DBL, t3phierr, L_W, 0, 0, "D", "deg"),
  C(R, "U1COORD", T_DBL, u1coord, 1, 0, 0, "D", "m"), C(R, "V1COORD", T_DBL, v1coord, 1, 0, 0, "D", "m"), C(R, "U2COORD", T_DBL, u2coord, 1, 0, 0, "D", "m"), C(R, "V2COORD", T_DBL, v2coord, 1, 0, 0, "D", "m"),
  C(R, "STA_INDEX", T_INT, sta_index, 3, 0, 0, "3I", ""), C(R, "FLAG", T_BOOL, flag, L_W, 0, 0, "L", ""),
  C(R, "CORRINDX_T3AMP", T_INT, corrindx_t3amp, 1, 0, CD_CORR, "J", ""), C(R, "CORRINDX_T3PHI", T_INT, corrindx_t3phi, 1, 0, CD_CORR, "J", "")};
#undef R
static const Kw kw_flux[] = {KW(oi_flux, "OI_REVN", T_INT, revision, KW_REVN), KW(oi_flux, "DATE-OBS", T_STR, date_obs, 0), KW(oi_flux, "ARRNAME", T_STR, arrname, KW_OPT), KW(oi_flux, "INSNAME", T_STR, insname, 0),
  KW(oi_flux, "CORRNAME", T_STR, corrname, KW_OPT), KW(oi_flux, "FOV", T_DBL, fov, KW_OPT), KW(oi_flux, "FOVTYPE", T_STR, fovtype, KW_OPT), KW(oi_flux, "CALSTAT", T_CHR, calstat, 0), KW(oi_flux, "fluxunit", T_STR, fluxunit, KW_UNIT)};
#define R oi_flux_record
static const Col col_flux[] = {C(R, "TARGET_ID", T_INT, target_id, 1, 0, 0, "I", ""), C(R, "MJD", T_DBL, mjd, 1, 0, 0, "D", "day"), C(R, "INT_TIME", T_DBL, int_time, 1, 0, 0, "D", "s"),
  C(R, "FLUXDATA", T_DBL, fluxdata, L_W, 0, 0, "D", "@flux"), C(R, "FLUXERR", T_DBL, fluxerr, L_W, 0, 0, "D", "@flux"), C(R, "FLAG", T_BOOL, flag, L_W, 0, 0, "L", ""),
  C(R, "CORRINDX_FLUXDATA", T_INT, corrindx_fluxdata, 1, 0, CD_CORR, "J", ""), C(R, "STA_INDEX", T_INT, sta_index, 1, 0, CD_ARR, "I", "")};
#undef R
#define NN(a) a, (int)(sizeof(a) / sizeof(a[0]))
#define OFF(S, f) offsetof(S, f)
#define NONE ((size_t)-1)
const Desc DESC[NK] = {
  {"OI_TARGET", sizeof(oi_target), sizeof(target), OFF(oi_target, targ), OFF(oi_target, ntarget), NONE, false, false, 1, 2, NN(kw_target), NN(col_target)},
  {"OI_ARRAY", sizeof(oi_array), sizeof(element), OFF(oi_array, elem), OFF(oi_array, nelement), NONE, false, false, 1, 2, NN(kw_array), NN(col_array)},
  {"OI_WAVELENGTH", sizeof(oi_wavelength), 0, NONE, OFF(oi_wavelength, nwave), NONE, false, true, 1, 2, NN(kw_wave), NN(col_wave)},
  {"OI_CORR", sizeof(oi_corr), 0, NONE, OFF(oi_corr, ncorr), NONE, false, true, 1, 1, NN(kw_corr), NN(col_corr)},
  {"OI_INSPOL", sizeof(oi_inspol), sizeof(oi_inspol_record), OFF(oi_inspol, record), OFF(oi_inspol, numrec), OFF(oi_inspol, nwave), true, false, 1, 1, NN(kw_inspol), NN(col_inspol)},
  {"OI_VIS", sizeof(oi_vis), sizeof(oi_vis_record), OFF(oi_vis, record), OFF(oi_vis, numrec), OFF(oi_vis, nwave), true, false, 1, 2, NN(kw_vis), NN(col_vis)},
  {"OI_VIS2", sizeof(oi_vis2), sizeof(oi_vis2_record), OFF(oi_vis2, record), OFF(oi_vis2, numrec), OFF(oi_vis2, nwave), true, false, 1, 2, NN(kw_vis2), NN(col_vis2)},
  {"OI_T3", sizeof(oi_t3), sizeof(oi_t3_record), OFF(oi_t3, record), OFF(oi_t3, numrec), OFF(oi_t3, nwave), true, false, 1, 2, NN(kw_t3), NN(col_t3)},
  {"OI_FLUX", sizeof(oi_flux), sizeof(oi_flux_record), OFF(oi_flux, record), OFF(oi_flux, numrec), OFF(oi_flux, nwave), true, false, 1, 1, NN(kw_flux), NN(col_flux)}};

#define P(t, off) ((char *)(t) + (off))
GList **listp(oi_fits *o, int k)
{ switch (k) { case K_ARRAY: return &o->arrayList; case K_WAVE: return &o->wavelengthList; case K_CORR: return &o->corrList; case K_INSPOL: return &o->inspolList; case K_VIS: return &o->visList; case K_VIS2: return &o->vis2List; case K_T3: return &o->t3List; case K_FLUX: return &o->fluxList; } return NULL; }
int *nump(oi_fits *o, int k)
{ switch (k) { case K_ARRAY: return &o->numArray; case K_WAVE: return &o->numWavelength; case K_CORR: return &o->numCorr; case K_INSPOL: return &o->numInspol; case K_VIS: return &o->numVis; case K_VIS2: return &o->numVis2; case K_T3: return &o->numT3; case K_FLUX: return &o->numFlux; } return NULL; }
long tab_rows(int k, const void *t) { return DESC[k].n_long ? *(long *)P(t, DESC[k].off_n) : *(int *)P(t, DESC[k].off_n); }
void tab_set_rows(int k, void *t, long n) { if (DESC[k].n_long) *(long *)P(t, DESC[k].off_n) = n; else *(int *)P(t, DESC[k].off_n) = n; }
int tab_nwave(int k, const void *t) { return DESC[k].off_nw == NONE ? 0 : *(int *)P(t, DESC[k].off_nw); }
char *tab_strp(int k, void *t, const char *kw)
{ for (int i = 0; i < DESC[k].nkw; i++) if (DESC[k].kw[i].t == T_STR && !strcmp(DESC[k].kw[i].name, kw)) return P(t, DESC[k].kw[i].off); return NULL; }
const char *tab_str(int k, const void *t, const char *kw) { char *s = tab_strp(k, (void *)t, kw); return s ? s : ""; }
int tab_revn(int k, const void *t) { return *(int *)P(t, DESC[k].kw[0].off); }
void tab_set_revn(int k, void *t, int r) { *(int *)P(t, DESC[k].kw[0].off) = r; }
void *tab_at(const oi_fits *o, int k, int i) { return k == K_TARGET ? (void *)&o->targets : g_list_nth_data(*listp((oi_fits *)o, k), i); }
int tab_count(const oi_fits *o, int k) { return k == K_TARGET ? 1 : (int)g_list_length(*listp((oi_fits *)o, k)); }
size_t ft_size(FT t) { switch (t) { case T_INT: return sizeof(int); case T_FLT: return sizeof(float); case T_DBL: return sizeof(double); case T_CPX: return 8; case T_BOOL: case T_CHR: case T_STR: return 1; } return 0; }
static bool v2ish(int k, const void *t) { return tab_revn(k, t) != DESC[k].v1rev || DESC[k].v1rev == DESC[k].v2rev; }
bool col_used(int k, const void *t, const Col *c)
{
  switch (c->cond)
  {
  case CD_ALWAYS: return true;
  case CD_V2: return v2ish(k, t);
  case CD_CORR: return tab_str(k, t, "CORRNAME")[0] != 0 && v2ish(k, t);
  case CD_MAP: return ((oi_vis *)t)->usevisrefmap;
  case CD_CPX: return ((oi_vis *)t)->usecomplex;
  case CD_CPXCORR: return ((oi_vis *)t)->usecomplex && tab_str(k, t, "CORRNAME")[0] != 0;
  case CD_CAT: return ((oi_target *)t)->usecategory;
  case CD_ARR: return tab_str(k, t, "ARRNAME")[0] != 0;
  }
  return true;
}
long col_n(int k, const void *t, const Col *c) { long w = tab_nwave(k, t); return c->len == L_W ? w : c->len == L_WW ? w * w : c->len; }
void *cell(int k, const void *t, const Col *c, long row)
{
  if (DESC[k].columnar) { char *b = *(char **)P(t, c->off); return b + row * ft_size(c->t); }
  char *rec = *(char **)P(t, DESC[k].off_rec); rec += row * DESC[k].recsize;
  return c->len < 0 ? *(void **)(rec + c->off) : (void *)(rec + c->off);
}
uint64_t fnv(uint64_t h, const void *p, size_t n) { const uint8_t *b = p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; } return h; }

static bool eq1(FT t, const void *a, const void *b, int flags)
{
  switch (t)
  {
  case T_INT: return *(int *)a == *(int *)b;
  case T_FLT: { float x = *(float *)a, y = *(float *)b; return (isnan(x) && isnan(y)) || !memcmp(a, b, 4); }
  case T_DBL: { double x = *(double *)a, y = *(double *)b; return (isnan(x) && isnan(y)) || !memcmp(a, b, 8); }
  case T_CPX: return eq1(T_FLT, a, b, flags) && eq1(T_FLT, (char *)a + 4, (char *)b + 4, flags);
  case T_BOOL: return flags & NORM_FLAGS ? !*(char *)a == !*(char *)b : *(char *)a == *(char *)b;
  case T_CHR: return *(char *)a == *(char *)b;
  case T_STR: {
    const char *x = a, *y = b; if (!(flags & RSTRIP)) return !strcmp(x, y);
    size_t n = strlen(x), m = strlen(y); while (n && x[n - 1] == ' ') n--; while (m && y[m - 1] == ' ') m--; return n == m && !memcmp(x, y, n); }
  }
  return false;
}
static void val(GString *s, FT t, const void *a)
{
  switch (t)
  { case T_INT: g_string_append_printf(s, "%d", *(int *)a); break; case T_FLT: g_string_append_printf(s, "%.9g", *(float *)a); break; case T_DBL: g_string_append_printf(s, "%.17g", *(double *)a); break;
    case T_CPX: g_string_append_printf(s, "(%.9g,%.9g)", *(float *)a, *((float *)a + 1)); break; case T_BOOL: case T_CHR: g_string_append_printf(s, "%d", *(char *)a); break; case T_STR: g_string_append_printf(s, "'%.80s'", (char *)a); break; }
}
static bool kwdbl_eq(double a, double b) { if (isnan(a) && isnan(b)) return true; if (a == b) return true; return fabs(a - b) <= 2e-14 * fmax(fabs(a), fabs(b)); }
bool cmp_tab(int k, const void *a, const void *b, int flags, GString *why)
{
  const Desc *d = &DESC[k];
  for (int i = 0; i < d->nkw; i++)
  {
    const Kw *w = &d->kw[i]; const void *x = P(a, w->off), *y = P(b, w->off);
    if ((flags & IGN_REVN) && (w->flags & KW_REVN)) continue;
    if ((flags & IGN_UNITS1) && (w->flags & KW_UNIT)) continue;
    if ((flags & IGN_NAMES) && (!strcmp(w->name, "ARRNAME") || !strcmp(w->name, "INSNAME") || !strcmp(w->name, "CORRNAME"))) continue;
    bool ok = w->t == T_DBL ? kwdbl_eq(*(double *)x, *(double *)y) : eq1(w->t, x, y, flags);
    if (!ok) { g_string_append_printf(why, "%s keyword %s: ", d->ext, w->name); val(why, w->t, x); g_string_append(why, " vs "); val(why, w->t, y); return false; }
  }
  if (k == K_VIS && (!((oi_vis *)a)->usevisrefmap != !((oi_vis *)b)->usevisrefmap || !((oi_vis *)a)->usecomplex != !((oi_vis *)b)->usecomplex))
  { g_string_append_printf(why, "OI_VIS optional parts differ: map %d/%d complex %d/%d", ((oi_vis *)a)->usevisrefmap, ((oi_vis *)b)->usevisrefmap, ((oi_vis *)a)->usecomplex, ((oi_vis *)b)->usecomplex); return false; }
  if (k == K_TARGET && !((oi_target *)a)->usecategory != !((oi_target *)b)->usecategory) { g_string_append_printf(why, "OI_TARGET category use differs: %d vs %d", ((oi_target *)a)->usecategory, ((oi_target *)b)->usecategory); return false; }
  if (tab_rows(k, a) != tab_rows(k, b)) { g_string_append_printf(why, "%s rows: %ld vs %ld", d->ext, tab_rows(k, a), tab_rows(k, b)); return false; }
  if (tab_nwave(k, a) != tab_nwave(k, b)) { g_string_append_printf(why, "%s channels: %d vs %d", d->ext, tab_nwave(k, a), tab_nwave(k, b)); return false; }
  for (int c = 0; c < d->ncol; c++)
  {
    const Col *q = &d->col[c];
    if ((flags & IGN_TIME) && q->istime) continue;
    if ((flags & IGN_TID) && !strcmp(q->name, "TARGET_ID")) continue;
    if ((flags & IGN_NAMES) && k == K_INSPOL && !strcmp(q->name, "INSNAME")) continue;
    bool ua = col_used(k, a, q), ub = col_used(k, b, q);
    if ((flags & IGN_REVN) && q->cond == CD_V2) ua = ub = true; /* v1 readers fill these in */
    if ((flags & IGN_REVN) && q->cond == CD_CORR) { ua = tab_str(k, a, "CORRNAME")[0] != 0; ub = tab_str(k, b, "CORRNAME")[0] != 0; }
    if (q->cond == CD_CORR && (flags & IGN_NAMES)) ua = ub = ua && ub;
    if (ua != ub) { g_string_append_printf(why, "%s column %s used %d vs %d", d->ext, q->name, ua, ub); return false; }
    if (!ua) continue;
    long n = col_n(k, a, q), rows = tab_rows(k, a); size_t sz = ft_size(q->t);
    for (long r = 0; r < rows; r++)
    {
      char *x = cell(k, a, q, r), *y = cell(k, b, q, r);
      if (n > 0 && (!x || !y)) { g_string_append_printf(why, "%s column %s row %ld: missing storage", d->ext, q->name, r + 1); return false; }
      for (long i = 0; i < (q->t == T_STR ? 1 : n); i++)
        if (!eq1(q->t, x + i * sz, y + i * sz, flags)) { g_string_append_printf(why, "%s column %s row %ld item %ld: ", d->ext, q->name, r + 1, i + 1); val(why, q->t, x + i * sz); g_string_append(why, " vs "); val(why, q->t, y + i * sz); return false; }
    }
  }
  if (k == K_FLUX && !(flags & IGN_NAMES))
    for (long r = 0; r < tab_rows(k, a); r++) if (((oi_flux *)a)->record[r].sta_index != ((oi_flux *)b)->record[r].sta_index) { g_string_append_printf(why, "OI_FLUX row %ld STA_INDEX %d vs %d", r + 1, ((oi_flux *)a)->record[r].sta_index, ((oi_flux *)b)->record[r].sta_index); return false; }
  return true;
}
static const struct { const char *name; size_t off; } HK[] = {
#define H(n, f) {n, offsetof(oi_header, f)}
  H("ORIGIN", origin), H("DATE", date), H("DATE-OBS", date_obs), H("CONTENT", content), H("TELESCOP", telescop), H("INSTRUME", instrume), H("OBSERVER", observer), H("INSMODE", insmode), H("OBJECT", object), H("REFERENC", referenc), H("AUTHOR", author), H("PROG_ID", prog_id), H("PROCSOFT", procsoft), H("OBSTECH", obstech)};
bool cmp_header(const oi_header *a, const oi_header *b, int flags, GString *why)
{
  for (unsigned i = 0; i < G_N_ELEMENTS(HK); i++)
  {
    if ((flags & IGN_DATE) && (!strcmp(HK[i].name, "DATE") || !strcmp(HK[i].name, "CONTENT"))) continue;
    const char *x = P(a, HK[i].off), *y = P(b, HK[i].off);
    if (!eq1(T_STR, x, y, flags)) { g_string_append_printf(why, "header %s: '%s' vs '%s'", HK[i].name, x, y); return false; }
  }
  return true;
}
bool cmp_oi(const oi_fits *a, const oi_fits *b, int flags, GString *why)
{
  if (!(flags & IGN_HEADER) && !cmp_header(&a->header, &b->header, flags, why)) return false;
  for (int k = 0; k < NK; k++)
  {
    int n = tab_count(a, k), m = tab_count(b, k);
    if (n != m) { g_string_append_printf(why, "%d vs %d %s tables", n, m, DESC[k].ext); return false; }
    if (k != K_TARGET && (*nump((oi_fits *)a, k) != n || *nump((oi_fits *)b, k) != m)) { g_string_append_printf(why, "%s table count %d/%d disagrees with list length %d/%d", DESC[k].ext, *nump((oi_fits *)a, k), *nump((oi_fits *)b, k), n, m); return false; }
    GList *la = k ? *listp((oi_fits *)a, k) : NULL, *lb = k ? *listp((oi_fits *)b, k) : NULL;
    for (int i = 0; i < n; i++)
    {
      const void *x = k ? la->data : (void *)&a->targets, *y = k ? lb->data : (void *)&b->targets; if (k) { la = la->next; lb = lb->next; }
      if (!cmp_tab(k, x, y, flags, why)) { g_string_append_printf(why, " [%s #%d]", DESC[k].ext, i + 1); return false; }
    }
  }
  return true;
}
uint64_t dig_tab(int k, const void *t, bool ptrs)
{
  const Desc *d = &DESC[k]; uint64_t h = FNV0; long rows = tab_rows(k, t); int w = tab_nwave(k, t);
  h = fnv(h, &rows, sizeof rows); h = fnv(h, &w, sizeof w);
  for (int i = 0; i < d->nkw; i++)
  { const Kw *q = &d->kw[i]; const char *x = P(t, q->off);
    if ((q->t == T_DBL && isnan(*(double *)x))) h = fnv(h, "nan", 3); else h = fnv(h, x, q->t == T_STR ? strlen(x) + 1 : ft_size(q->t)); }
  if (k == K_VIS) { h = fnv(h, &((oi_vis *)t)->usecomplex, 1); h = fnv(h, &((oi_vis *)t)->usevisrefmap, 1); }
  if (k == K_TARGET) h = fnv(h, &((oi_target *)t)->usecategory, 1);
  if (ptrs && !d->columnar) h = fnv(h, P(t, d->off_rec), sizeof(void *));
  for (int c = 0; c < d->ncol; c++)
  {
    const Col *q = &d->col[c];
    bool used = col_used(k, t, q); if (q->cond == CD_V2) used = true;
    if (q->cond == CD_ARR) used = true;
    if (!used) continue;
    if (ptrs && d->columnar) h = fnv(h, P(t, q->off), sizeof(void *));
    long n = col_n(k, t, q);
    for (long r = 0; r < rows; r++)
    { char *x = cell(k, t, q, r); if (ptrs && q->len < 0) h = fnv(h, &x, sizeof x);
      if (q->t == T_STR) { h = fnv(h, x, strlen(x) + 1); continue; }
      if (q->t == T_DBL) { for (long i = 0; i < n; i++) { double v = ((double *)x)[i]; if (isnan(v)) h = fnv(h, "nan", 3); else h = fnv(h, &v, 8); } continue; }
      if (q->t == T_FLT || q->t == T_CPX) { long m = q->t == T_CPX ? 2 * n : n; for (long i = 0; i < m; i++) { float v = ((float *)x)[i]; if (isnan(v)) h = fnv(h, "nan", 3); else h = fnv(h, &v, 4); } continue; }
      h = fnv(h, x, n * ft_size(q->t)); }
  }
  return h;
}
uint64_t dig_oi(const oi_fits *o, bool ptrs)
{
  uint64_t h = FNV0;
  for (unsigned i = 0; i < G_N_ELEMENTS(HK); i++) { const char *x = P(&o->header, HK[i].off); h = fnv(h, x, strlen(x) + 1); }
  for (int k = 0; k < NK; k++)
  {
    if (k == K_TARGET) { uint64_t d = dig_tab(k, &o->targets, ptrs); h = fnv(h, &d, 8); continue; }
    h = fnv(h, nump((oi_fits *)o, k), sizeof(int));
    for (GList *l = *listp((oi_fits *)o, k); l; l = l->next) { uint64_t d = dig_tab(k, l->data, ptrs); h = fnv(h, &d, 8); if (ptrs) { h = fnv(h, &l, sizeof l); h = fnv(h, &l->data, sizeof l->data); } }
  }
  if (ptrs) { GHashTable *t[3] = {o->arrayHash, o->wavelengthHash, o->corrHash}; for (int i = 0; i < 3; i++) { guint n = g_hash_table_size(t[i]); h = fnv(h, &t[i], sizeof t[i]); h = fnv(h, &n, sizeof n); } }
  return h;
}
void *sub_tab(int k, const void *t, const long *rows, long nrows, const int *ch, int nch)
{
  const Desc *d = &DESC[k]; void *o = malloc(d->size); memcpy(o, t, d->size); tab_set_rows(k, o, nrows);
  if (d->off_nw != NONE && ch) *(int *)P(o, d->off_nw) = nch;
  int nw = tab_nwave(k, t), mw = tab_nwave(k, o);
  if (!d->columnar)
  {
    char *rec = malloc(nrows * d->recsize + 1); *(char **)P(o, d->off_rec) = rec;
    char *src = *(char **)P(t, d->off_rec);
    for (long r = 0; r < nrows; r++) memcpy(rec + r * d->recsize, src + (rows ? rows[r] : r) * d->recsize, d->recsize);
  }
  for (int c = 0; c < d->ncol; c++)
  {
    const Col *q = &d->col[c]; size_t sz = ft_size(q->t);
    if (d->columnar)
    { char *n = malloc(nrows * sz + 1), *s = *(char **)P(t, q->off); for (long r = 0; r < nrows; r++) memcpy(n + r * sz, s + (rows ? rows[r] : r) * sz, sz); *(char **)P(o, q->off) = n; continue; }
    if (q->len >= 0) continue;
    for (long r = 0; r < nrows; r++)
    {
      char **slot = (char **)(*(char **)P(o, d->off_rec) + r * d->recsize + q->off);
      if (!col_used(k, t, q)) { *slot = NULL; continue; }
      char *s = cell(k, t, q, rows ? rows[r] : r); long n = col_n(k, o, q); char *b = malloc(n * sz + 1);
      if (!ch) memcpy(b, s, n * sz);
      else if (q->len == L_W) for (int i = 0; i < mw; i++) memcpy(b + i * sz, s + ch[i] * sz, sz);
      else for (int i = 0; i < mw; i++) for (int j = 0; j < mw; j++) memcpy(b + ((long)i * mw + j) * sz, s + ((long)ch[i] * nw + ch[j]) * sz, sz);
      *slot = b;
    }
  }
  return o;
}
void *copy_tab(int k, const void *t) { return sub_tab(k, t, NULL, tab_rows(k, t), NULL, 0); }
void free_tab(int k, void *t, bool self)
{
  const Desc *d = &DESC[k];
  for (int c = 0; c < d->ncol; c++)
  { const Col *q = &d->col[c]; if (d->columnar) { free(*(void **)P(t, q->off)); continue; } if (q->len >= 0) continue; if (!col_used(k, t, q)) continue; for (long r = 0; r < tab_rows(k, t); r++) free(cell(k, t, q, r)); }
  if (!d->columnar) free(*(void **)P(t, d->off_rec));
  if (self) free(t);
}
void rehash(oi_fits *o)
{
  g_hash_table_remove_all(o->arrayHash); g_hash_table_remove_all(o->wavelengthHash); g_hash_table_remove_all(o->corrHash);
  for (GList *l = o->arrayList; l; l = l->next) if (!g_hash_table_contains(o->arrayHash, ((oi_array *)l->data)->arrname)) g_hash_table_insert(o->arrayHash, ((oi_array *)l->data)->arrname, l->data);
  for (GList *l = o->wavelengthList; l; l = l->next) if (!g_hash_table_contains(o->wavelengthHash, ((oi_wavelength *)l->data)->insname)) g_hash_table_insert(o->wavelengthHash, ((oi_wavelength *)l->data)->insname, l->data);
  for (GList *l = o->corrList; l; l = l->next) if (!g_hash_table_contains(o->corrHash, ((oi_corr *)l->data)->corrname)) g_hash_table_insert(o->corrHash, ((oi_corr *)l->data)->corrname, l->data);
}
void add_tab(oi_fits *o, int k, void *t) { *listp(o, k) = g_list_append(*listp(o, k), t); ++*nump(o, k); }
void copy_oi(const oi_fits *s, oi_fits *d)
{
  memset(d, 0, sizeof *d); d->header = s->header;
  oi_target *t = copy_tab(K_TARGET, &s->targets); d->targets = *t; free(t);
  for (int k = 1; k < NK; k++) for (GList *l = *listp((oi_fits *)s, k); l; l = l->next) add_tab(d, k, copy_tab(k, l->data));
  d->arrayHash = g_hash_table_new(g_str_hash, g_str_equal); d->wavelengthHash = g_hash_table_new(g_str_hash, g_str_equal); d->corrHash = g_hash_table_new(g_str_hash, g_str_equal);
  rehash(d);
}
void free_oi(oi_fits *o)
{
  free_tab(K_TARGET, &o->targets, false);
  for (int k = 1; k < NK; k++) { for (GList *l = *listp(o, k); l; l = l->next) free_tab(k, l->data, true); g_list_free(*listp(o, k)); }
  g_hash_table_destroy(o->arrayHash); g_hash_table_destroy(o->wavelengthHash); g_hash_table_destroy(o->corrHash);
}
static void addp(GHashTable *set, void *p, const char *what, const char *ext, const char *col)
{
  if (!p) return;
  char *old = g_hash_table_lookup(set, p); char *me = g_strdup_printf("%s %s.%s", what, ext, col);
  if (old) fail("shared-storage", "two live objects share storage at %p: %s and %s", p, old, me);
  g_hash_table_insert(set, p, me);
}
void collect_ptrs(const oi_fits *o, GHashTable *set, const char *what)
{
  for (int k = 0; k < NK; k++)
    for (int i = 0, n = tab_count(o, k); i < n; i++)
    {
      void *t = tab_at(o, k, i); const Desc *d = &DESC[k]; long rows = tab_rows(k, t);
      if (k) addp(set, t, what, d->ext, "(table)");
      if (!d->columnar && rows > 0) addp(set, *(void **)P(t, d->off_rec), what, d->ext, "(records)");
      for (int c = 0; c < d->ncol; c++)
      { const Col *q = &d->col[c]; if (!col_used(k, t, q)) continue;
        if (d->columnar) { if (rows > 0) addp(set, *(void **)P(t, q->off), what, d->ext, q->name); }
        else if (q->len < 0 && tab_nwave(k, t) > 0) for (long r = 0; r < rows; r++) addp(set, cell(k, t, q, r), what, d->ext, q->name); }
    }
  addp(set, o->arrayHash, what, "hash", "array"); addp(set, o->wavelengthHash, what, "hash", "wave"); addp(set, o->corrHash, what, "hash", "corr");
}
int nvalues(const oi_fits *o)
{
  long n = 0;
  for (int k = 0; k < NK; k++) for (int i = 0, m = tab_count(o, k); i < m; i++) { void *t = tab_at(o, k, i); for (int c = 0; c < DESC[k].ncol; c++) if (col_used(k, t, &DESC[k].col[c])) n += tab_rows(k, t) * (DESC[k].columnar ? 1 : col_n(k, t, &DESC[k].col[c])); n += DESC[k].nkw; }
  return (int)n;
}
void describe(const oi_fits *o, GString *s)
{
  g_string_append_printf(s, "CONTENT='%s' targets=%d(rev %d)", o->header.content, o->targets.ntarget, o->targets.revision);
  for (int k = 1; k < NK; k++)
    for (GList *l = *listp((oi_fits *)o, k); l; l = l->next)
    { g_string_append_printf(s, " %s[rev%d %ldx%d", DESC[k].ext + 3, tab_revn(k, l->data), tab_rows(k, l->data), tab_nwave(k, l->data));
      const char *nm[3] = {"ARRNAME", "INSNAME", "CORRNAME"}; for (int i = 0; i < 3; i++) { const char *v = tab_str(k, l->data, nm[i]); if (v[0]) g_string_append_printf(s, " %c=%.20s", nm[i][0], v); }
      g_string_append(s, "]"); }
}
static int bucket(long n) { return n <= 3 ? (int)n : n <= 7 ? 4 : n <= 20 ? 8 : n <= 100 ? 21 : 101; }
void cov_oi(const oi_fits *o)
{
  cov("targets=%d", bucket(o->targets.ntarget)); if (o->targets.usecategory) cov("category");
  for (int k = 1; k < NK; k++)
  {
    cov("n%s=%d", DESC[k].ext, bucket(tab_count(o, k)));
    for (GList *l = *listp((oi_fits *)o, k); l; l = l->next)
    {
      cov("%s rev%d rows=%d nw=%d", DESC[k].ext, tab_revn(k, l->data), bucket(tab_rows(k, l->data)), bucket(tab_nwave(k, l->data)));
      for (int c = 0; c < DESC[k].ncol; c++) if (DESC[k].col[c].cond && col_used(k, l->data, &DESC[k].col[c])) cov("%s.%s", DESC[k].ext, DESC[k].col[c].name);
      for (int i = 0; i < DESC[k].nkw; i++) if (DESC[k].kw[i].t == T_STR) { int len = strlen(P(l->data, DESC[k].kw[i].off)); cov("%s %s len=%d", DESC[k].ext, DESC[k].kw[i].name, len == 0 ? 0 : len < 20 ? 1 : len < 67 ? 20 : len); }
    }
  }
}
