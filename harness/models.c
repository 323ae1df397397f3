/* Reference models: filter, iterators, conformance checks, reference integrity.
 * Written from the documentation of the library and the OIFITS standard; they share no code with it. */
#include "mon.h"
#define RAD2DEG (180.0 / 3.14159)

oi_wavelength *wave_named(const oi_fits *o, const char *n) { for (GList *l = o->wavelengthList; l; l = l->next) if (!strcmp(((oi_wavelength *)l->data)->insname, n)) return l->data; return NULL; }
oi_array *array_named(const oi_fits *o, const char *n) { for (GList *l = o->arrayList; l; l = l->next) if (!strcmp(((oi_array *)l->data)->arrname, n)) return l->data; return NULL; }
oi_corr *corr_named(const oi_fits *o, const char *n) { for (GList *l = o->corrList; l; l = l->next) if (!strcmp(((oi_corr *)l->data)->corrname, n)) return l->data; return NULL; }
/* glob matching: '*' any string, '?' one character */
bool globm(const char *p, const char *s)
{
  if (!*p) return !*s;
  if (*p == '*') { for (;; s++) { if (globm(p + 1, s)) return true; if (!*s) return false; } }
  if (!*s) return false;
  return (*p == '?' || *p == *s) && globm(p + 1, s + 1);
}
static bool out_d(double v, const double r[2]) { return v < r[0] || v > r[1]; }
static bool out_f(float v, const float r[2]) { return v < r[0] || v > r[1]; }
static double len2(double u, double v) { return sqrt(u * u + v * v); }
static int baselines(int k, const void *t, long i, double b[3])
{
  if (k == K_VIS) { const oi_vis_record *q = &((oi_vis *)t)->record[i]; b[0] = len2(q->ucoord, q->vcoord); return 1; }
  if (k == K_VIS2) { const oi_vis2_record *q = &((oi_vis2 *)t)->record[i]; b[0] = len2(q->ucoord, q->vcoord); return 1; }
  const oi_t3_record *q = &((oi_t3 *)t)->record[i]; b[0] = len2(q->u1coord, q->v1coord); b[1] = len2(q->u2coord, q->v2coord); b[2] = len2(q->u1coord + q->u2coord, q->v1coord + q->v2coord); return 3;
}
static bool snr_bad(int k, const void *t, long i, int j, const oi_filter_spec *f)
{
  if (k == K_VIS) { const oi_vis_record *q = &((oi_vis *)t)->record[i]; return out_f((float)(q->visamp[j] / q->visamperr[j]), f->snr_range) || out_f((float)(RAD2DEG / q->visphierr[j]), f->snr_range); }
  if (k == K_VIS2) { const oi_vis2_record *q = &((oi_vis2 *)t)->record[i]; return out_f((float)(q->vis2data[j] / q->vis2err[j]), f->snr_range); }
  const oi_t3_record *q = &((oi_t3 *)t)->record[i];
  return (f->accept_t3amp && out_f((float)(q->t3amp[j] / q->t3amperr[j]), f->snr_range)) || (f->accept_t3phi && out_f((float)(RAD2DEG / q->t3phierr[j]), f->snr_range));
}
static bool uv_bad(int k, const void *t, long i, float wave, const oi_filter_spec *f)
{ double b[3]; int n = baselines(k, t, i, b); for (int m = 0; m < n; m++) if (out_d(b[m] / wave, f->uvrad_range)) return true; return false; }
static void rec_id(int k, const void *t, long i, int *tid, double *mjd)
{
  switch (k)
  { case K_VIS: *tid = ((oi_vis *)t)->record[i].target_id; *mjd = ((oi_vis *)t)->record[i].mjd; break; case K_VIS2: *tid = ((oi_vis2 *)t)->record[i].target_id; *mjd = ((oi_vis2 *)t)->record[i].mjd; break;
    case K_T3: *tid = ((oi_t3 *)t)->record[i].target_id; *mjd = ((oi_t3 *)t)->record[i].mjd; break; case K_FLUX: *tid = ((oi_flux *)t)->record[i].target_id; *mjd = ((oi_flux *)t)->record[i].mjd; break; }
}
char *flags_of(int k, const void *t, long i)
{ switch (k) { case K_VIS: return ((oi_vis *)t)->record[i].flag; case K_VIS2: return ((oi_vis2 *)t)->record[i].flag; case K_T3: return ((oi_t3 *)t)->record[i].flag; default: return ((oi_flux *)t)->record[i].flag; } }
int *tid_of(int k, void *t, long i)
{ switch (k) { case K_VIS: return &((oi_vis *)t)->record[i].target_id; case K_VIS2: return &((oi_vis2 *)t)->record[i].target_id; case K_T3: return &((oi_t3 *)t)->record[i].target_id; case K_INSPOL: return &((oi_inspol *)t)->record[i].target_id; default: return &((oi_flux *)t)->record[i].target_id; } }
static bool tab_globs(int k, const void *t, const oi_filter_spec *f)
{ return globm(f->arrname, tab_str(k, t, "ARRNAME")) && globm(f->insname, tab_str(k, t, "INSNAME")) && globm(f->corrname, tab_str(k, t, "CORRNAME")); }
static bool rec_ok(int k, const void *t, long i, const oi_filter_spec *f)
{
  int tid; double mjd; rec_id(k, t, i, &tid, &mjd);
  if (f->target_id >= 0 && tid != f->target_id) return false;
  if (out_d(mjd, f->mjd_range)) return false;
  if (k == K_FLUX) return true;
  double b[3]; int n = baselines(k, t, i, b); for (int m = 0; m < n; m++) if (out_d(b[m], f->bas_range)) return false;
  return true;
}
bool kind_on(int k, const oi_filter_spec *f)
{ switch (k) { case K_VIS: return f->accept_vis; case K_VIS2: return f->accept_vis2; case K_T3: return f->accept_t3amp || f->accept_t3phi; default: return f->accept_flux; } }
static int channels(const oi_wavelength *W, const oi_filter_spec *f, int *ch) { int n = 0; for (int j = 0; j < W->nwave; j++) if (!out_f(W->eff_wave[j], f->wave_range)) ch[n++] = j; return n; }

GPtrArray *g_model_warn;
#define WARN(...) do { if (g_model_warn) g_ptr_array_add(g_model_warn, g_strdup_printf(__VA_ARGS__)); } while (0)
void model_filter(const oi_fits *in, const oi_filter_spec *f, oi_fits *out)
{
  memset(out, 0, sizeof *out); out->header = in->header;
  out->arrayHash = g_hash_table_new(g_str_hash, g_str_equal); out->wavelengthHash = g_hash_table_new(g_str_hash, g_str_equal); out->corrHash = g_hash_table_new(g_str_hash, g_str_equal);
  if (f->target_id >= 0)
  {
    long row = -1; for (int i = 0; i < in->targets.ntarget && row < 0; i++) if (in->targets.targ[i].target_id == f->target_id) row = i;
    oi_target *t = sub_tab(K_TARGET, &in->targets, &row, row < 0 ? 0 : 1, NULL, 0); if (row >= 0) t->targ[0].target_id = 1; out->targets = *t; free(t);
  }
  else { oi_target *t = copy_tab(K_TARGET, &in->targets); out->targets = *t; free(t); }
  int maxw = 1; for (GList *l = in->wavelengthList; l; l = l->next) maxw = MAX(maxw, ((oi_wavelength *)l->data)->nwave);
  int *ch = malloc(maxw * sizeof *ch);
  /* polarisation records grouped by number of accepted channels */
  for (GList *l = in->inspolList; l; l = l->next)
  {
    oi_inspol *p = l->data; if (!globm(f->arrname, p->arrname)) continue;
    int *cnt = malloc((p->numrec + 1) * sizeof(int));
    for (long i = 0; i < p->numrec; i++)
    {
      oi_inspol_record *q = &p->record[i]; cnt[i] = 0; oi_wavelength *W = wave_named(in, q->insname);
      if (f->target_id >= 0 && q->target_id != f->target_id) continue;
      if (!globm(f->insname, q->insname) || !W) continue;
      if (q->mjd_end < f->mjd_range[0] || q->mjd_obs > f->mjd_range[1]) continue;
      cnt[i] = channels(W, f, ch);
    }
    bool any = false; for (long i = 0; i < p->numrec; i++) any |= cnt[i] > 0; if (!any) WARN("Empty OI_INSPOL table removed from filter output");
    for (long i = 0; i < p->numrec; i++)
    {
      if (!cnt[i]) continue; bool seen = false; for (long j = 0; j < i; j++) if (cnt[j] == cnt[i]) seen = true; if (seen) continue;
      long *rows = malloc(p->numrec * sizeof *rows), n = 0; for (long j = i; j < p->numrec; j++) if (cnt[j] == cnt[i]) rows[n++] = j;
      /* channel lists may differ from record to record */
      int *zero = calloc(cnt[i], sizeof(int)); oi_inspol *t = sub_tab(K_INSPOL, p, rows, n, zero, cnt[i]);
      for (long j = 0; j < n; j++)
      { oi_inspol_record *q = &p->record[rows[j]]; channels(wave_named(in, q->insname), f, ch);
        for (int m = 0; m < cnt[i]; m++) { t->record[j].jxx[m] = q->jxx[ch[m]]; t->record[j].jyy[m] = q->jyy[ch[m]]; t->record[j].jxy[m] = q->jxy[ch[m]]; t->record[j].jyx[m] = q->jyx[ch[m]]; }
        if (f->target_id >= 0) t->record[j].target_id = 1; }
      add_tab(out, K_INSPOL, t); free(rows); free(zero);
    }
    free(cnt);
  }
  for (int k = K_VIS; k <= K_FLUX; k++)
  {
    if (!kind_on(k, f)) continue;
    for (GList *l = *listp((oi_fits *)in, k); l; l = l->next)
    {
      void *t = l->data; if (!tab_globs(k, t, f)) continue;
      oi_wavelength *W = wave_named(in, tab_str(k, t, "INSNAME")); if (!W) continue; int nch = channels(W, f, ch); if (!nch) continue;
      long nr = tab_rows(k, t), n = 0, *rows = malloc((nr + 1) * sizeof *rows);
      for (long i = 0; i < nr; i++)
      {
        if (!rec_ok(k, t, i, f)) continue;
        if (k != K_FLUX && !f->accept_flagged) { bool ok = false; char *fl = flags_of(k, t, i); for (int m = 0; m < nch && !ok; m++) ok = !fl[ch[m]] && !uv_bad(k, t, i, W->eff_wave[ch[m]], f) && !snr_bad(k, t, i, ch[m], f); if (!ok) continue; }
        rows[n++] = i;
      }
      if (n)
      {
        void *o = sub_tab(k, t, rows, n, ch, nch);
        for (long i = 0; i < n; i++)
        {
          if (f->target_id >= 0) *tid_of(k, o, i) = 1; char *fl = flags_of(k, o, i);
          for (int m = 0; m < nch; m++)
          {
            if (k == K_FLUX) { oi_flux_record *q = &((oi_flux *)o)->record[i]; if (out_f((float)(q->fluxdata[m] / q->fluxerr[m]), f->snr_range)) q->fluxdata[m] = NAN; continue; }
            if (!fl[m] && (uv_bad(k, t, rows[i], W->eff_wave[ch[m]], f) || snr_bad(k, t, rows[i], ch[m], f))) fl[m] = 1;
            if (k == K_T3) { oi_t3_record *q = &((oi_t3 *)o)->record[i]; if (!f->accept_t3amp) q->t3amp[m] = NAN; if (!f->accept_t3phi) q->t3phi[m] = NAN; }
          }
        }
        add_tab(out, k, o);
      }
      else WARN("Empty %s table removed from filter output", DESC[k].ext);
      free(rows);
    }
  }
  /* tables that are referred to */
  GHashTable *ref[3]; const char *kw[3] = {"ARRNAME", "INSNAME", "CORRNAME"};
  for (int i = 0; i < 3; i++) { ref[i] = g_hash_table_new(g_str_hash, g_str_equal); for (int k = K_VIS; k <= K_FLUX; k++) for (GList *l = *listp(out, k); l; l = l->next) { const char *s = tab_str(k, l->data, kw[i]); if (s[0] || i == 1) g_hash_table_add(ref[i], (char *)s); } }
  for (GList *l = out->inspolList, *nx; l; l = nx) { nx = l->next; if (!g_hash_table_contains(ref[0], ((oi_inspol *)l->data)->arrname)) { WARN("Unreferenced OI_INSPOL table with ARRNAME=%s removed from filter output", ((oi_inspol *)l->data)->arrname); free_tab(K_INSPOL, l->data, true); out->inspolList = g_list_delete_link(out->inspolList, l); out->numInspol--; } }
  for (GList *l = in->arrayList; l; l = l->next) { const char *nm = ((oi_array *)l->data)->arrname; if (!globm(f->arrname, nm)) continue; if (g_hash_table_contains(ref[0], nm)) add_tab(out, K_ARRAY, copy_tab(K_ARRAY, l->data)); else WARN("Unreferenced OI_ARRAY table with ARRNAME=%s removed from filter output", nm); }
  for (GList *l = in->corrList; l; l = l->next) { const char *nm = ((oi_corr *)l->data)->corrname; if (!globm(f->corrname, nm)) continue; if (g_hash_table_contains(ref[2], nm)) add_tab(out, K_CORR, copy_tab(K_CORR, l->data)); else WARN("Unreferenced OI_CORR table with CORRNAME=%s removed from filter output", nm); }
  for (GList *l = in->wavelengthList; l; l = l->next)
  { oi_wavelength *W = l->data; if (!globm(f->insname, W->insname)) continue; int n = channels(W, f, ch); if (!n) { WARN("Empty tables with INSNAME=%s removed from filter output", W->insname); continue; } if (!g_hash_table_contains(ref[1], W->insname)) { WARN("Unreferenced OI_WAVELENGTH table with INSNAME=%s removed from filter output", W->insname); continue; } long *rows = malloc(n * sizeof *rows); for (int i = 0; i < n; i++) rows[i] = ch[i]; add_tab(out, K_WAVE, sub_tab(K_WAVE, W, rows, n, NULL, 0)); free(rows); }
  for (int i = 0; i < 3; i++) g_hash_table_destroy(ref[i]);
  free(ch); rehash(out);
}

GArray *model_iter(const oi_fits *in, int k, const oi_filter_spec *f)
{
  GArray *a = g_array_new(FALSE, FALSE, sizeof(Visit)); if (!kind_on(k, f)) return a; int ext = 0;
  for (GList *l = *listp((oi_fits *)in, k); l; l = l->next)
  {
    void *t = l->data; ext++; if (!tab_globs(k, t, f)) continue; oi_wavelength *W = wave_named(in, tab_str(k, t, "INSNAME")); if (!W) continue;
    for (long i = 0; i < tab_rows(k, t); i++)
    {
      if (!rec_ok(k, t, i, f)) continue; char *fl = flags_of(k, t, i);
      for (int j = 0; j < tab_nwave(k, t); j++)
      { if (out_f(W->eff_wave[j], f->wave_range) || snr_bad(k, t, i, j, f) || uv_bad(k, t, i, W->eff_wave[j], f) || (fl[j] && !f->accept_flagged)) continue; Visit v = {ext, i, j}; g_array_append_val(a, v); }
    }
  }
  return a;
}

/* ---------- conformance checks ---------- */
const char *const CHECK_NAME[NCHECK] = {"tables", "header", "keywords", "visrefmap", "unique_targets", "targets_present", "arrname", "elements_present", "corr_present", "flagging", "t3amp", "waveorder", "time", "flux"};
const check_func CHECK_FN[NCHECK] = {check_tables, check_header, check_keywords, check_visrefmap, check_unique_targets, check_targets_present, check_arrname, check_elements_present, check_corr_present, check_flagging, check_t3amp, check_waveorder, check_time, check_flux};
static void br(ChkModel *m, int level, const char *fmt, ...) G_GNUC_PRINTF(3, 4);
static void br(ChkModel *m, int level, const char *fmt, ...)
{ va_list ap; va_start(ap, fmt); char *s = g_strdup_vprintf(fmt, ap); va_end(ap); if (level > m->level) m->level = level; m->n++; g_ptr_array_add(m->loc, s); }
static bool v2set(const oi_fits *o) { return !strcmp(o->header.content, "OIFITS2"); }
bool target_known(const oi_fits *o, int id) { for (int i = 0; i < o->targets.ntarget; i++) if (o->targets.targ[i].target_id == id) return true; return false; }
static bool station_known(const oi_fits *o, const char *arr, int idx) { oi_array *a = array_named(o, arr); if (!a) return false; for (int i = 0; i < a->nelement; i++) if (a->elem[i].sta_index == idx) return true; return false; }
static bool in(const char *s, ...) { va_list ap; va_start(ap, s); const char *x; bool r = false; while ((x = va_arg(ap, const char *))) if (!strcmp(s, x)) r = true; va_end(ap); return r; }
static int stations(int k, const void *t, long i, const int **p)
{ switch (k) { case K_VIS: *p = ((oi_vis *)t)->record[i].sta_index; return 2; case K_VIS2: *p = ((oi_vis2 *)t)->record[i].sta_index; return 2; case K_T3: *p = ((oi_t3 *)t)->record[i].sta_index; return 3; case K_INSPOL: *p = &((oi_inspol *)t)->record[i].sta_index; return 1; default: *p = &((oi_flux *)t)->record[i].sta_index; return **p == -1 ? 0 : 1; } }
static double time_of(int k, const void *t, long i) { switch (k) { case K_VIS: return ((oi_vis *)t)->record[i].time; case K_VIS2: return ((oi_vis2 *)t)->record[i].time; default: return ((oi_t3 *)t)->record[i].time; } }

ChkModel model_check(const oi_fits *o, int which)
{
  ChkModel m = {0, 0, g_ptr_array_new_with_free_func(g_free)}; const int NF = OI_BREACH_NOT_OIFITS, WN = OI_BREACH_WARNING; bool v2 = v2set(o);
#define EACH(k) int n = 1; for (GList *l = *listp((oi_fits *)o, k); l; l = l->next, n++)
  switch (which)
  {
  case 0: {
    if (v2 && !o->arrayList) br(&m, NF, "No OI_ARRAY table - at least one required");
    if (!o->wavelengthList) br(&m, NF, "No OI_WAVELENGTH table - at least one required");
    if (!o->visList && !o->vis2List && !o->t3List && (!v2 || !o->fluxList)) br(&m, NF, v2 ? "No data table - at least one OI_VIS/VIS2/T3/FLUX required" : "No data table - at least one OI_VIS/VIS2/T3 required");
    if (o->targets.revision != (v2 ? 2 : 1)) br(&m, NF, "OI_TARGET");
    static const int order[] = {K_ARRAY, K_WAVE, K_VIS, K_VIS2, K_T3, K_FLUX, K_CORR, K_INSPOL};
    for (int x = 0; x < (v2 ? 8 : 5); x++) { int k = order[x]; EACH(k) if (tab_revn(k, l->data) != (v2 ? DESC[k].v2rev : DESC[k].v1rev)) br(&m, NF, "%s #%d", DESC[k].ext, n); }
  } break;
  case 1: if (v2) {
    const oi_header *h = &o->header; struct { const char *k, *v; } kv[] = {{"ORIGIN", h->origin}, {"DATE", h->date}, {"DATE-OBS", h->date_obs}, {"CONTENT", h->content}, {"TELESCOP", h->telescop}, {"INSTRUME", h->instrume}, {"OBSERVER", h->observer}, {"INSMODE", h->insmode}, {"OBJECT", h->object}};
    for (int i = 0; i < 9; i++) if (!kv[i].v[0]) br(&m, NF, "%s value missing from primary header", kv[i].k);
  } break;
  case 2: {
    { EACH(K_ARRAY) if (!in(((oi_array *)l->data)->frame, "GEOCENTRIC", "SKY", NULL)) br(&m, NF, "OI_ARRAY #%d FRAME='%s' ('GEOCENTRIC'/'SKY')", n, ((oi_array *)l->data)->frame); }
    if (v2)
    {
      { EACH(K_VIS) { oi_vis *v = l->data; if (v->amptyp[0] && !in(v->amptyp, "absolute", "differential", "correlated flux", NULL)) br(&m, NF, "OI_VIS #%d AMPTYP='%s' ('absolute'/'differential'/'correlated flux')", n, v->amptyp); if (v->phityp[0] && !in(v->phityp, "absolute", "differential", NULL)) br(&m, NF, "OI_VIS #%d PHITYP='%s' ('absolute'/'differential')", n, v->phityp); } }
    }
    { EACH(K_FLUX) { oi_flux *v = l->data; if (v->calstat != 'C' && v->calstat != 'U') br(&m, NF, "OI_FLUX #%d CALSTAT='%c' ('C'/'U')", n, v->calstat); if (v->fovtype[0] && !in(v->fovtype, "FWHM", "RADIUS", NULL)) br(&m, NF, "OI_FLUX #%d FOVTYPE='%s' ('FWHM', 'RADIUS')", n, v->fovtype); } }
  } break;
  case 3: { EACH(K_VIS) { oi_vis *v = l->data; bool diff = !strcmp(v->amptyp, "differential") || !strcmp(v->phityp, "differential"); if (diff && !v->usevisrefmap) br(&m, NF, "OI_VIS #%d AMPTYP='%s' PHITYP='%s' has no VISREFMAP", n, v->amptyp, v->phityp); else if (!diff && v->usevisrefmap) br(&m, WN, "OI_VIS #%d AMPTYP='%s' PHITYP='%s' has VISREFMAP", n, v->amptyp, v->phityp); } } break;
  case 4: for (int i = 0; i < o->targets.ntarget; i++) for (int j = 0; j < i; j++) if (!strcmp(o->targets.targ[i].target, o->targets.targ[j].target)) { br(&m, WN, "TARGET_ID=%d  TARGET='%s'", o->targets.targ[i].target_id, o->targets.targ[i].target); break; } break;
  case 5: for (int k = K_INSPOL; k <= K_FLUX; k++) { EACH(k) for (long i = 0; i < tab_rows(k, l->data); i++) if (!target_known(o, *tid_of(k, l->data, i))) br(&m, NF, "%s #%d record %ld", DESC[k].ext, n, i + 1); } break;
  case 6: if (v2) for (int k = K_INSPOL; k <= K_FLUX; k++) { EACH(k) if (!tab_str(k, l->data, "ARRNAME")[0] && (k != K_FLUX || ((oi_flux *)l->data)->calstat == 'U')) br(&m, NF, "%s #%d", DESC[k].ext, n); } break;
  case 7: for (int k = K_INSPOL; k <= K_FLUX; k++) {
    EACH(k) { const char *an = tab_str(k, l->data, "ARRNAME"); if (!an[0]) { if (k == K_INSPOL) br(&m, NF, "OI_INSPOL #%d", n); continue; }
      for (long i = 0; i < tab_rows(k, l->data); i++) { const int *s; int c = stations(k, l->data, i, &s); for (int j = 0; j < c; j++) if (!station_known(o, an, s[j])) br(&m, NF, "%s #%d record %ld", DESC[k].ext, n, i + 1); } } } break;
  case 8: for (int k = K_VIS; k <= K_FLUX; k++) { EACH(k) { const char *c = tab_str(k, l->data, "CORRNAME"); if (c[0] && !corr_named(o, c)) br(&m, NF, "%s #%d", DESC[k].ext, n); } } break;
  case 9: for (int k = K_VIS; k <= K_T3; k++) {
    EACH(k) for (long i = 0; i < tab_rows(k, l->data); i++) for (int j = 0; j < tab_nwave(k, l->data); j++)
    { if (flags_of(k, l->data, i)[j]) continue; bool neg = k == K_VIS ? ((oi_vis *)l->data)->record[i].visamperr[j] < 0 || ((oi_vis *)l->data)->record[i].visphierr[j] < 0 : k == K_VIS2 ? ((oi_vis2 *)l->data)->record[i].vis2err[j] < 0 : ((oi_t3 *)l->data)->record[i].t3amperr[j] < 0 || ((oi_t3 *)l->data)->record[i].t3phierr[j] < 0;
      if (neg) br(&m, NF, "%s #%d record %ld channel %d", DESC[k].ext, n, i + 1, j + 1); } } break;
  case 10: { EACH(K_T3) { oi_t3 *t = l->data; for (long i = 0; i < t->numrec; i++) for (int j = 0; j < t->nwave; j++) if (!t->record[i].flag[j] && t->record[i].t3amp[j] - 1.0 > t->record[i].t3amperr[j]) br(&m, NF, "OI_T3 #%d record %ld channel %d", n, i + 1, j + 1); } } break;
  case 11: { EACH(K_WAVE) { oi_wavelength *w = l->data; for (int i = 1; i < w->nwave; i++) if (w->eff_wave[i] < w->eff_wave[i - 1] || (i + 1 < w->nwave && w->eff_wave[i] > w->eff_wave[i + 1])) br(&m, WN, "OI_WAVELENGTH INSNAME=%s channel %d", w->insname, i + 1); } } break;
  case 12: if (v2) for (int k = K_VIS; k <= K_T3; k++) { EACH(k) for (long i = 0; i < tab_rows(k, l->data); i++) if (fabs(time_of(k, l->data, i)) > 1e-10) br(&m, WN, "%s #%d record %ld", DESC[k].ext, n, i + 1); } break;
  case 13: { EACH(K_FLUX) { oi_flux *t = l->data; bool sta = t->numrec > 0 && t->record[0].sta_index != -1;
      if (t->calstat == 'C') { if (t->arrname[0]) br(&m, NF, "OI_FLUX #%d Calibrated but ARRNAME='%s'", n, t->arrname); if (sta) br(&m, NF, "OI_FLUX #%d Calibrated but STA_INDEX present", n); }
      else if (t->calstat == 'U') { if (!t->arrname[0]) br(&m, NF, "OI_FLUX #%d Uncalibrated but ARRNAME missing", n); if (!sta && t->numrec > 0) br(&m, NF, "OI_FLUX #%d Uncalibrated but STA_INDEX missing", n); if (t->fovtype[0]) br(&m, NF, "OI_FLUX #%d Uncalibrated but FOVTYPE present", n); } } } break;
  }
  (void)NF; (void)WN;
  return m;
}

/* Every reference of every data table resolves inside the dataset, through list and lookup, with matching sizes.
 * strict: also stations, and every name is unique within its kind. */
bool refs_ok(const oi_fits *o, bool strict, GString *why)
{
#define RBAD(...) do { g_string_append_printf(why, __VA_ARGS__); return false; } while (0)
  for (int k = 1; k < NK; k++) if (*nump((oi_fits *)o, k) != tab_count(o, k)) RBAD("%s count %d but %d tables listed", DESC[k].ext, *nump((oi_fits *)o, k), tab_count(o, k));
  for (int k = K_INSPOL; k <= K_FLUX; k++)
  {
    int n = 1;
    for (GList *l = *listp((oi_fits *)o, k); l; l = l->next, n++)
    {
      void *t = l->data; const char *a = tab_str(k, t, "ARRNAME"), *c = tab_str(k, t, "CORRNAME");
      if (a[0]) { oi_array *A = array_named(o, a); if (!A) RBAD("%s #%d refers to OI_ARRAY '%s' which is not in the dataset", DESC[k].ext, n, a); if (oi_fits_lookup_array(o, a) != A) RBAD("lookup of OI_ARRAY '%s' does not return the table of that name", a); }
      if (c[0]) { oi_corr *C = corr_named(o, c); if (!C) RBAD("%s #%d refers to OI_CORR '%s' which is not in the dataset", DESC[k].ext, n, c); if (oi_fits_lookup_corr(o, c) != C) RBAD("lookup of OI_CORR '%s' does not return the table of that name", c); }
      for (long i = 0; i < (k == K_INSPOL ? tab_rows(k, t) : 1); i++)
      {
        const char *w = k == K_INSPOL ? ((oi_inspol *)t)->record[i].insname : tab_str(k, t, "INSNAME"); oi_wavelength *W = wave_named(o, w);
        if (!W) { if (k == K_INSPOL && !strict) continue; RBAD("%s #%d refers to OI_WAVELENGTH '%s' which is not in the dataset", DESC[k].ext, n, w); }
        if (oi_fits_lookup_wavelength(o, w) != W) RBAD("lookup of OI_WAVELENGTH '%s' does not return the table of that name", w);
        if (W->nwave != tab_nwave(k, t)) RBAD("%s #%d has %d channels but its OI_WAVELENGTH '%s' has %d", DESC[k].ext, n, tab_nwave(k, t), w, W->nwave);
      }
      for (long i = 0; i < tab_rows(k, t); i++)
      {
        if (!target_known(o, *tid_of(k, t, i))) RBAD("%s #%d record %ld refers to TARGET_ID %d which is not in the dataset", DESC[k].ext, n, i + 1, *tid_of(k, t, i));
        if (strict && a[0]) { const int *s; int m = stations(k, t, i, &s); for (int j = 0; j < m; j++) if (!station_known(o, a, s[j])) RBAD("%s #%d record %ld refers to station %d which is not in OI_ARRAY '%s'", DESC[k].ext, n, i + 1, s[j], a); }
      }
    }
  }
  return true;
}
