/* C16, C17: conformance checks. */
#include "mon.h"
/* break rules at random places; every rule can be broken, sparsely or everywhere */
static void spoil(Rng *r, oi_fits *o)
{
  double dens = chance(r, 0.5) ? 0.03 : chance(r, 0.5) ? 0.3 : 0.9; unsigned what = rnd(r) & rnd(r); if (chance(r, 0.25)) what = 1u << ri(r, 0, 17); if (chance(r, 0.1)) what = 0;
#define ON(b) ((what >> (b)) & 1)
#define HIT chance(r, dens)
  if (ON(0)) for (int k = 0; k < NK; k++) for (int i = 0, n = tab_count(o, k); i < n; i++) if (HIT) tab_set_revn(k, tab_at(o, k, i), ri(r, 0, 3));
  if (ON(1)) for (int k = 1; k < NK; k++) if (HIT && (k < K_ARRAY + 2 || k >= K_VIS)) { for (GList *l = *listp(o, k); l; l = l->next) free_tab(k, l->data, true); g_list_free(*listp(o, k)); *listp(o, k) = NULL; *nump(o, k) = 0; }
  if (ON(2)) { oi_header *h = &o->header; char *m[] = {h->origin, h->date, h->date_obs, h->telescop, h->instrume, h->observer, h->insmode, h->object}; for (int i = 0; i < 8; i++) if (HIT) { if (chance(r, 0.75)) m[i][0] = 0; else strcpy(m[i], (const char *[]){"X", " ", "?", "-", "UNKNOWN"}[ri(r, 0, 4)]); } if (HIT) strcpy(h->content, (const char *[]){"", "O", "OIFITS1", "OIFITS22", "oifits2", "OIFITS2 "}[ri(r, 0, 5)]); }
  if (ON(3)) for (GList *l = o->arrayList; l; l = l->next) if (HIT) strcpy(((oi_array *)l->data)->frame, (const char *[]){"", "geocentric", "GEOCENTRICS", "S", "ABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOP"}[ri(r, 0, 4)]);
  if (ON(4)) for (GList *l = o->visList; l; l = l->next) { oi_vis *v = l->data; if (HIT) strcpy(v->amptyp, (const char *[]){"Absolute", "relative", "correlated", "correlated flux", "", "differential", "absolute"}[ri(r, 0, 6)]); if (HIT) strcpy(v->phityp, (const char *[]){"Absolute", "relative", "correlated flux", "", "differential", "absolute"}[ri(r, 0, 5)]); }
  if (ON(5)) for (GList *l = o->fluxList; l; l = l->next) { oi_flux *f = l->data; if (HIT) f->calstat = "CUXc u"[ri(r, 0, 5)]; if (chance(r, 0.02)) f->calstat = 0; if (HIT) strcpy(f->fovtype, (const char *[]){"", "FWHM", "RADIUS", "fwhm", "DIAM", "F", "R"}[ri(r, 0, 6)]); if (HIT) { if (chance(r, 0.5)) f->arrname[0] = 0; else strcpy(f->arrname, "ARRX"); } if (HIT && f->numrec) { int v = chance(r, 0.5) ? -1 : ri(r, 0, 3); for (long i = 0; i < f->numrec; i++) f->record[i].sta_index = v; } }
  if (ON(6) && o->targets.ntarget > 1) for (int i = 0; i < o->targets.ntarget; i++) if (HIT) strcpy(o->targets.targ[i].target, o->targets.targ[ri(r, 0, o->targets.ntarget - 1)].target);
  for (int k = K_INSPOL; k <= K_FLUX; k++) for (GList *l = *listp(o, k); l; l = l->next)
  {
    void *t = l->data; long nr = tab_rows(k, t); int nw = tab_nwave(k, t);
    if (ON(8) && HIT) tab_strp(k, t, "ARRNAME")[0] = 0; if (ON(9) && HIT) missing_name(r, tab_strp(k, t, "ARRNAME"), "NOWHERE"); if (ON(10) && k != K_INSPOL && HIT) { if (chance(r, 0.9)) missing_name(r, tab_strp(k, t, "CORRNAME"), "NOCORR"); else tab_strp(k, t, "CORRNAME")[0] = 0; };
    for (long i = 0; i < nr; i++)
    {
      if (ON(7) && HIT) { int *q = tid_of(k, t, i); if (chance(r, 0.7)) *q = ri(r, -5, 900); else if (*q < 1000000) *q += (int[]){65536, -65536, 256, -256, 32768, 1 << 24}[ri(r, 0, 5)]; }
      if (ON(11)) { int *s, n; switch (k) { case K_VIS: s = ((oi_vis *)t)->record[i].sta_index; n = 2; break; case K_VIS2: s = ((oi_vis2 *)t)->record[i].sta_index; n = 2; break; case K_T3: s = ((oi_t3 *)t)->record[i].sta_index; n = 3; break; case K_FLUX: s = &((oi_flux *)t)->record[i].sta_index; n = 1; break; default: s = &((oi_inspol *)t)->record[i].sta_index; n = 1; } for (int j = 0; j < n; j++) if (HIT && s[j] != -1) { if (chance(r, 0.7)) s[j] = ri(r, 0, 60); else if (s[j] < 1000000) s[j] += (int[]){65536, -65536, 256, -256, 32768, 1 << 24}[ri(r, 0, 5)]; } }
      if (ON(12) && k >= K_VIS && k <= K_T3 && HIT) { double v = (double[]){1e-9, -1e-9, 5e-11, -5e-11, 1, -86400, NAN, 0.0, -0.0}[ri(r, 0, 8)]; if (k == K_VIS) ((oi_vis *)t)->record[i].time = v; else if (k == K_VIS2) ((oi_vis2 *)t)->record[i].time = v; else ((oi_t3 *)t)->record[i].time = v; }
      for (int j = 0; j < nw; j++)
      {
        if (ON(13) && HIT) { double v = (double[]){-1, -1e-300, -0.0, 0.0, NAN, -INFINITY, 1}[ri(r, 0, 6)]; int b = ri(r, 0, 1); if (k == K_VIS) { oi_vis_record *q = &((oi_vis *)t)->record[i]; *(b ? &q->visamperr[j] : &q->visphierr[j]) = v; } else if (k == K_VIS2) ((oi_vis2 *)t)->record[i].vis2err[j] = v; else if (k == K_T3) { oi_t3_record *q = &((oi_t3 *)t)->record[i]; *(b ? &q->t3amperr[j] : &q->t3phierr[j]) = v; } else if (k == K_FLUX) ((oi_flux *)t)->record[i].fluxerr[j] = v; }
        if (ON(14) && k == K_T3 && HIT) { oi_t3_record *q = &((oi_t3 *)t)->record[i]; switch (ri(r, 0, 6)) { case 0: q->t3amp[j] = 1.5; q->t3amperr[j] = 0.5; break; case 1: q->t3amp[j] = 1.5; q->t3amperr[j] = 0.25; break; case 2: q->t3amp[j] = 1; q->t3amperr[j] = 0; break; case 3: q->t3amp[j] = 2; q->t3amperr[j] = 1.5; break; case 4: q->t3amp[j] = NAN; break; case 5: q->t3amp[j] = INFINITY; break; default: q->t3amp[j] = -3; } }
        if (ON(15) && k >= K_VIS && HIT) flags_of(k, t, i)[j] = chance(r, 0.5);
      }
    }
  }
  if (ON(16)) for (GList *l = o->wavelengthList; l; l = l->next) { oi_wavelength *w = l->data; for (int i = 0; i < w->nwave; i++) if (HIT) switch (ri(r, 0, 3)) { case 0: w->eff_wave[i] = w->eff_wave[ri(r, 0, w->nwave - 1)]; break; case 1: w->eff_wave[i] *= 2; break; case 2: w->eff_wave[i] *= 0.5f; break; case 3: if (i) w->eff_wave[i] = nextafterf(w->eff_wave[i - 1], chance(r, 0.5) ? 0 : 1); } }
  if (chance(r, 0.3)) strcpy(o->header.content, (const char *[]){"", "OIFITS1", "oifits2", "OIFITS2", "OIFITS2 "}[ri(r, 0, 4)]);
  if (chance(r, 0.1)) roughen(r, o);
  rehash(o);
}
static void gen_checked(Rng *r, oi_fits *o)
{
  if (chance(r, 0.01)) { init_oi_fits(o); if (chance(r, 0.5)) strcpy(o->header.content, "OIFITS2"); cov("empty dataset"); return; }
  GenOpt g = gen_opt(r); g.ver = chance(r, 0.3) ? 1 : 2; g.conform = chance(r, 0.6); g.special = chance(r, 0.3); if (g.conform) g.special = false; if (chance(r, 0.15)) { g.maxtab = 12; g.maxrec = 3; } if (chance(r, 0.1)) g.ntarget = ri(r, 5, 30); gen_oi(r, &g, o);
  bool sp = !g.conform || chance(r, 0.6); if (sp) spoil(r, o); cov("%s %s", g.conform ? "conforming" : "rough", sp ? "spoilt" : "as is"); cov_oi(o);
  /* empty tables */
  if (chance(r, 0.05)) for (int k = K_INSPOL; k <= K_FLUX; k++) for (GList *l = *listp(o, k); l; l = l->next) if (chance(r, 0.3) && tab_rows(k, l->data)) { void *e = sub_tab(k, l->data, NULL, 0, NULL, 0); if (e) { free_tab(k, l->data, true); l->data = e; cov("empty %s", DESC[k].ext); } }
}
void c16(Rng *r)
{
  oi_fits o; gen_checked(r, &o); GString *s = g_string_new(NULL); describe(&o, s); sample("%s", s->str); g_string_free(s, TRUE);
  int order[NCHECK]; for (int i = 0; i < NCHECK; i++) order[i] = i; for (int i = NCHECK - 1; i > 0; i--) { int j = ri(r, 0, i), t = order[i]; order[i] = order[j]; order[j] = t; }
  for (int q = 0; q < NCHECK; q++)
  {
    int c = order[q]; ChkModel m = model_check(&o, c); oi_check_result res; junk_bytes(r, &res, sizeof res); stage("check_%s", CHECK_NAME[c]); int lev = CHECK_FN[c](&o, &res);
    if (lev != m.level) fail("level", "check_%s returned severity %d, expected %d (%d breaches, first: %s)", CHECK_NAME[c], lev, m.level, m.n, m.n ? (char *)m.loc->pdata[0] : "none");
    if ((int)res.level != lev) fail("level-stored", "check_%s returned severity %d but stored %d", CHECK_NAME[c], lev, res.level);
    if (res.numBreach != m.n) fail("count", "check_%s counted %d breaches, expected %d (first: %s)", CHECK_NAME[c], res.numBreach, m.n, m.n ? (char *)m.loc->pdata[0] : "none");
    stage("free_check_result %s", CHECK_NAME[c]); free_check_result(&res); ev("checks_run", 1); ev("breaches_expected", m.n); if (m.n) { char b[60]; snprintf(b, sizeof b, "breached_%s", CHECK_NAME[c]); ev(b, 1); } else { char b[60]; snprintf(b, sizeof b, "clean_%s", CHECK_NAME[c]); ev(b, 1); }
    cov("check_%s %s level %d", CHECK_NAME[c], m.n == 0 ? "clean" : m.n == 1 ? "one" : m.n < 10 ? "some" : "many", m.level); g_ptr_array_free(m.loc, TRUE);
  }
  free_oi(&o);
}
static const char *desc_for(int c, const char *loc)
{
  static const char *const D[NCHECK] = {NULL, "Invalid/missing primary header keyword value", "Invalid keyword value", "VISREFMAP present (missing) for absolute (differential) vis", "Duplicate value in TARGET column of OI_TARGET", "Reference to missing target record", "ARRNAME missing", NULL, "Reference to missing OI_CORR table", "Data table contains negative error bar", "OI_T3 table may contain unnormalised triple product amplitude", "OI_WAVELENGTH has wavelengths not in ascending order", "Non-zero TIME values in OIFITS v2 data table", "ARRNAME/STA_INDEX/FOVTYPE present (missing) in (un)calibrated fluxes"};
  if (c == 0) return g_str_has_prefix(loc, "No ") ? "Mandatory table missing" : "Invalid OI_REVN";
  if (c == 7) return strstr(loc, "record") ? "Reference to missing array element" : "ARRNAME missing";
  return D[c];
}
static bool take(GPtrArray *a, const char *s, int max) { for (guint i = 0; i < a->len; i++) { char *e = a->pdata[i]; if (!strncmp(e, s, max) && strlen(s) == MIN(strlen(e), (size_t)max)) { g_ptr_array_remove_index(a, i); return true; } } return false; }
void c17(Rng *r)
{
  oi_fits o; gen_checked(r, &o); uint64_t dig = dig_oi(&o, true); GString *s = g_string_new(NULL), *out = g_string_new(NULL); describe(&o, s); sample("%s", s->str);
  oi_check_result res; junk_bytes(r, &res, sizeof res); int nq = ri(r, NCHECK, 2 * NCHECK); static const char *const SEV[] = {"No error", "Valid OIFITS, but may cause problems for some reading software", "Does not conform to the OIFITS standard", "Does not conform to the FITS standard"};
  for (int q = 0; q < nq; q++)
  {
    int c = q < NCHECK ? q : ri(r, 0, NCHECK - 1); ChkModel m = model_check(&o, c); stage("check_%s", CHECK_NAME[c]); CHECK_FN[c](&o, &res);
    GPtrArray *want = g_ptr_array_new_with_free_func(g_free), *descs = g_ptr_array_new(); for (guint i = 0; i < m.loc->len; i++) { g_ptr_array_add(want, g_strdup(m.loc->pdata[i])); const char *d = desc_for(c, m.loc->pdata[i]); if (!g_ptr_array_find(descs, d, NULL)) g_ptr_array_add(descs, (char *)d); }
    stage("format_check_result %s", CHECK_NAME[c]); const char *f = format_check_result(&res); ev("reports", 1);
    if (!m.n) { if (f) fail("report-nothing", "check_%s: report '%.80s' although there is no breach", CHECK_NAME[c], f); else ev("empty_reports", 1); }
    else if (!f) fail("report-missing", "check_%s: no report although there are %d breaches", CHECK_NAME[c], m.n);
    else
    {
      char *copy = g_strdup(f); char **ln = g_strsplit(copy, "\n", -1); int nl = g_strv_length(ln); if (nl && !ln[nl - 1][0]) nl--; char b[200]; snprintf(b, sizeof b, "*** %s:", SEV[m.level]);
      if (nl < 2 || strcmp(ln[0], b)) fail("severity-text", "check_%s: report starts '%s' instead of '%s'", CHECK_NAME[c], nl ? ln[0] : "", b);
      snprintf(b, sizeof b, ", %d occurrences:-", m.n); if (nl < 2 || !g_str_has_suffix(ln[1], b)) fail("count-text", "check_%s: report says '%s', expected '...%s'", CHECK_NAME[c], nl > 1 ? ln[1] : "", b);
      for (guint i = 0; i < descs->len; i++) if (nl < 2 || !strstr(ln[1], descs->pdata[i])) fail("description", "check_%s: report does not say '%s': '%s'", CHECK_NAME[c], (char *)descs->pdata[i], nl > 1 ? ln[1] : "");
      int nloc = nl - 2, expl = MIN(m.n, 9);
      if (nloc != (m.n > 9 ? 10 : m.n)) fail("locations", "check_%s: %d breaches but %d location lines", CHECK_NAME[c], m.n, nloc);
      for (int i = 0; i < nloc; i++)
      {
        if (strncmp(ln[i + 2], "    ", 4)) { fail("location-text", "check_%s: location line '%s'", CHECK_NAME[c], ln[i + 2]); break; }
        if (i == 9) { if (strcmp(ln[i + 2] + 4, "[List truncated]")) fail("truncation", "check_%s: %d breaches, last line is '%s'", CHECK_NAME[c], m.n, ln[i + 2]); else ev("truncated_reports", 1); break; }
        if (!take(want, ln[i + 2] + 4, 70)) { fail("location", "check_%s: reported location '%s' is not one of the %d breaches (e.g. '%s')", CHECK_NAME[c], ln[i + 2] + 4, m.n, (char *)m.loc->pdata[MIN(i, m.n - 1)]); break; }
        ev("locations_matched", 1);
      }
      (void)expl; if (descs->len > 1) ev("mixed_descriptions", 1);
      for (int i = 0; i < 10; i++) if ((i < m.n) != (res.location[i] != NULL)) { fail("location-list", "check_%s: %d breaches but location[%d] is %s", CHECK_NAME[c], m.n, i, res.location[i] ? "set" : "not set"); break; }
      if (chance(r, 0.1) || q == 0) { stage("print_check_result"); cap_begin(); print_check_result(&res); fflush(stdout); cap_end(out, NULL); if (strcmp(out->str, copy)) fail("printed", "check_%s: printed report differs from the formatted one", CHECK_NAME[c]); ev("printed_reports", 1); }
      g_strfreev(ln); g_free(copy);
    }
    if (!m.n && chance(r, 0.1)) { stage("print_check_result none"); cap_begin(); print_check_result(&res); fflush(stdout); cap_end(out, NULL); if (out->len) fail("printed", "check_%s: printed '%s' although there is no breach", CHECK_NAME[c], out->str); }
    if (dig_oi(&o, true) != dig) { fail("dataset-changed", "check_%s changed the dataset", CHECK_NAME[c]); dig = dig_oi(&o, true); }
    cov("report_%s %d", CHECK_NAME[c], MIN(m.n, 11)); stage("free_check_result"); free_check_result(&res); g_ptr_array_free(want, TRUE); g_ptr_array_free(descs, TRUE); g_ptr_array_free(m.loc, TRUE);
  }
  g_string_free(s, TRUE); g_string_free(out, TRUE); free_oi(&o);
}
