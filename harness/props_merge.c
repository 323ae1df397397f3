/* C13-C15: merging. */
#include "mon.h"
#define MAXIN 16
typedef struct { oi_fits d[MAXIN]; oi_fits *p[MAXIN]; int n, nown; bool bylib[MAXIN]; } Group;
static const struct { int k; const char *kw; } NM[3] = {{K_ARRAY, "ARRNAME"}, {K_WAVE, "INSNAME"}, {K_CORR, "CORRNAME"}};

static double finite_or(double v, double d) { return isfinite(v) && fabs(v) < 1e15 ? v : d; }
/* rename table i of kind NM[x] and every reference to it */
static void rename_tab(oi_fits *o, int x, int i, const char *nn)
{
  char old[FLEN_VALUE]; strcpy(old, tab_str(NM[x].k, tab_at(o, NM[x].k, i), NM[x].kw));
  for (GList *l = *listp(o, NM[x].k); l; l = l->next) if (!strcmp(tab_str(NM[x].k, l->data, NM[x].kw), nn)) return;
  strcpy(tab_strp(NM[x].k, tab_at(o, NM[x].k, i), NM[x].kw), nn);
  for (int k = K_INSPOL; k <= K_FLUX; k++) for (GList *l = *listp(o, k); l; l = l->next)
  {
    if (k == K_INSPOL && x == 1) { oi_inspol *p = l->data; for (long j = 0; j < p->numrec; j++) if (!strcmp(p->record[j].insname, old)) strcpy(p->record[j].insname, nn); }
    else if (k == K_INSPOL && x == 2) continue;
    else if (!strcmp(tab_str(k, l->data, NM[x].kw), old)) strcpy(tab_strp(k, l->data, NM[x].kw), nn);
  }
}
static void mutate(Rng *r, oi_fits *o, bool hard)
{
  static const double EPS[] = {3e-11, -3e-11, 3e-10, -3e-10, 1e-6, 1, -1};
  for (GList *l = o->arrayList; l; l = l->next) if (chance(r, 0.5))
  {
    oi_array *a = l->data; element *e = a->nelement ? &a->elem[ri(r, 0, a->nelement - 1)] : NULL;
    switch (ri(r, 0, 8))
    {
    case 0: { double *c[3] = {&a->arrayx, &a->arrayy, &a->arrayz}; double *q = c[ri(r, 0, 2)]; if (fabs(*q) < 1000) *q += EPS[ri(r, 0, 6)]; else *q += 1 + fabs(*q); break; }
    case 1: if (e) { double *q = &e->staxyz[ri(r, 0, 2)]; if (fabs(*q) < 1000) *q += EPS[ri(r, 0, 6)]; break; } break;
    case 2: if (e) e->diameter += (float[]){3e-4f, -3e-4f, 3e-3f, 1}[ri(r, 0, 3)]; break;
    case 3: if (e && a->revision >= 2) e->fov += EPS[ri(r, 0, 6)]; break;
    case 4: if (e) strcpy(e->fovtype, strcmp(e->fovtype, "FWHM") ? "FWHM" : "RADIUS"); break;
    case 5: if (a->nelement > 1) a->nelement--; break;
    case 6: if (a->nelement > 1) { element t = a->elem[0]; a->elem[0] = a->elem[a->nelement - 1]; a->elem[a->nelement - 1] = t; } break;
    case 7: if (e) { strcpy(e->tel_name, "T9"); strcpy(e->sta_name, "S9"); } strcpy(a->frame, "SKY"); break;
    case 8: if (e && hard) e->sta_index = ri(r, 0, 40); break;
    }
  }
  for (GList *l = o->wavelengthList; l; l = l->next) if (chance(r, 0.4))
  { oi_wavelength *w = l->data; if (!w->nwave) continue; float *q = chance(r, 0.5) ? w->eff_wave : w->eff_band; q += chance(r, 0.5) ? w->nwave - 1 : ri(r, 0, w->nwave - 1); *q += (float[]){3e-11f, -3e-11f, 3e-10f, -3e-10f, 1e-8f, 1e-7f}[ri(r, 0, 5)]; }
  for (GList *l = o->corrList; l; l = l->next) if (chance(r, 0.4)) { oi_corr *c = l->data; if (c->ncorr) c->corr[ri(r, 0, c->ncorr - 1)] = 0.25; }
  /* names */
  for (int x = 0; x < 3; x++) for (int i = 0, n = tab_count(o, NM[x].k); i < n; i++)
  {
    char b[FLEN_VALUE]; const char *stem[] = {"ARR", "INS", "COR"}; int len;
    if (!chance(r, 0.25)) continue;
    switch (ri(r, 0, 4))
    {
    case 0: snprintf(b, sizeof b, "%s_%03d", stem[x], ri(r, 1, 6)); break;
    case 1: case 2: len = (int[]){63, 64, 65, 67, 68}[ri(r, 0, 4)]; memset(b, 'L', len); b[len] = 0; break;
    case 3: snprintf(b, sizeof b, "%s%03d", (const char *[]){"array", "ins", "ins"}[x], ri(r, 1, 6)); break;
    default: snprintf(b, sizeof b, "%s%d", stem[x], ri(r, 0, 3)); break;
    }
    rename_tab(o, x, i, b);
  }
  if (chance(r, 0.3) && tab_count(o, K_WAVE) > 1) { oi_wavelength *a = tab_at(o, K_WAVE, 0), *q = tab_at(o, K_WAVE, 1); if (hard) strcpy(q->insname, a->insname); } /* repeated name */
  if (chance(r, 0.3) && tab_count(o, K_ARRAY) > 1 && hard) strcpy(((oi_array *)tab_at(o, K_ARRAY, 1))->arrname, ((oi_array *)tab_at(o, K_ARRAY, 0))->arrname);
  /* targets */
  oi_target *T = &o->targets; int nt = T->ntarget;
  if (chance(r, 0.4) && nt > 1) { target t = T->targ[0]; T->targ[0] = T->targ[nt - 1]; T->targ[nt - 1] = t; }
  if (nt > 0 && chance(r, 0.3)) { target *t = &T->targ[ri(r, 0, nt - 1)]; char b[33]; snprintf(b, 33, "new%d", ri(r, 0, 5)); if (!oi_fits_lookup_target_by_name(o, b)) strcpy(t->target, b); }
  if (chance(r, 0.3)) { int add = ri(r, 1, 300); bool ok = true; for (int i = 0; i < nt; i++) if (T->targ[i].target_id > 30000 || T->targ[i].target_id < -30000) ok = false; if (ok) { for (int i = 0; i < nt; i++) T->targ[i].target_id += add; for (int k = K_INSPOL; k <= K_FLUX; k++) for (GList *l = *listp(o, k); l; l = l->next) for (long i = 0; i < tab_rows(k, l->data); i++) *tid_of(k, l->data, i) += add; } }
  if (nt > 0 && chance(r, 0.3)) { target *t = &T->targ[ri(r, 0, nt - 1)]; t->raep0 = 12.5; strcpy(t->spectyp, "M1"); }
  if (chance(r, 0.3) && T->revision >= 2) { T->usecategory = !T->usecategory; for (int i = 0; i < nt; i++) strcpy(T->targ[i].category, T->usecategory ? (i % 2 ? "CAL" : "SCI") : ""); }
  /* header */
  oi_header *h = &o->header; char *m[] = {h->origin, h->telescop, h->instrume, h->observer, h->insmode, h->object, h->referenc, h->author, h->prog_id, h->procsoft, h->obstech};
  for (int i = 0; i < 11; i++) if (chance(r, 0.2)) strcpy(m[i], (const char *[]){"", "X", "Y", "MULTIPLE", "UNKNOWN", "x"}[ri(r, 0, 5)]);
  if (chance(r, 0.5)) { switch (ri(r, 0, 9)) { case 0: strcpy(h->date_obs, ""); break; case 1: strcpy(h->date_obs, "yesterday"); break; case 2: snprintf(h->date_obs, FLEN_VALUE, "%04d-%02d-%02dT%02d:30:00", ri(r, 1990, 2030), ri(r, 1, 12), ri(r, 1, 28), ri(r, 0, 23)); break; case 3: strcpy(h->date_obs, "1999-12-31"); break; case 4: strcpy(h->date_obs, "2000-02-29"); break; case 5: strcpy(h->date_obs, "2000-01-01"); break; case 6: snprintf(h->date_obs, FLEN_VALUE, "%04d-%02d-%02d", ri(r, 1, 9999), ri(r, 1, 12), ri(r, 1, 28)); break; default: snprintf(h->date_obs, FLEN_VALUE, "%04d-%02d-%02d", ri(r, 1901, 2099), ri(r, 1, 12), ri(r, 1, 28)); } }
}
static void sanitise(oi_fits *o) /* matching of stations and channels is only defined for numbers */
{
  for (GList *l = o->arrayList; l; l = l->next)
  { oi_array *a = l->data; a->arrayx = finite_or(a->arrayx, 1); a->arrayy = finite_or(a->arrayy, 1); a->arrayz = finite_or(a->arrayz, 1);
    for (int i = 0; i < a->nelement; i++) { element *e = &a->elem[i]; for (int j = 0; j < 3; j++) e->staxyz[j] = finite_or(e->staxyz[j], 2); if (!isfinite(e->diameter)) e->diameter = 1; if (a->revision >= 2) e->fov = finite_or(e->fov, 1); } }
  for (GList *l = o->wavelengthList; l; l = l->next) { oi_wavelength *w = l->data; for (int i = 0; i < w->nwave; i++) if (!isfinite(w->eff_band[i]) || fabsf(w->eff_band[i]) > 1) w->eff_band[i] = 1e-8f; }
}
static void gen_group(Rng *r, Group *G)
{
  memset(G, 0, sizeof *G); int n = chance(r, 0.1) ? 1 : chance(r, 0.06) ? ri(r, 6, 14) : ri(r, 2, 4); bool pool = chance(r, 0.75), rough = chance(r, 0.2); int manyt = chance(r, 0.06) ? ri(r, 20, 130) : 0;
  GString *s = g_string_new(NULL);
  for (int i = 0; i < n; i++)
  {
    oi_fits *o = &G->d[G->nown];
    if (i && chance(r, 0.05)) { G->p[G->n++] = G->p[ri(r, 0, G->n - 1)]; cov("same dataset twice"); continue; }
    if (i && chance(r, 0.4)) { copy_oi(G->p[ri(r, 0, G->n - 1)], o); rehash(o); if (chance(r, 0.85)) mutate(r, o, rough); cov("variant of an input"); }
    else
    {
      GenOpt g = gen_opt(r); g.ver = chance(r, 0.3) ? 1 : 2; g.smallpool = pool; g.ntarget = manyt; g.v2time = chance(r, 0.5); g.undef = chance(r, 0.2); if (n > 5) { g.maxtab = 1; g.maxrec = 2; g.ncor = g.npol = 0; }
      gen_oi(r, &g, o); sanitise(o); if (chance(r, 0.4)) mutate(r, o, rough);
    }
    sanitise(o); if (rough && chance(r, 0.5)) roughen(r, o);
    if (chance(r, 0.1)) { int k = K_VIS + ri(r, 0, 3); for (GList *l = *listp(o, k); l; l = l->next) free_tab(k, l->data, true); g_list_free(*listp(o, k)); *listp(o, k) = NULL; *nump(o, k) = 0; }
    rehash(o); G->p[G->n++] = o; G->nown++;
    if (G->nown == 1 || chance(r, 0.3)) { g_string_truncate(s, 0); describe(o, s); }
  }
  sample("%d inputs, one of them: %s", G->n, s->str); g_string_free(s, TRUE); cov("%d inputs", G->n); for (int i = 0; i < G->nown; i++) cov_oi(&G->d[i]);
}
static void do_merge(Rng *r, Group *G, oi_fits *out)
{
  uint64_t before[MAXIN]; for (int i = 0; i < G->n; i++) before[i] = dig_oi(G->p[i], true);
  junk_bytes(r, out, sizeof *out); stage("merge %d datasets", G->n); cap_begin();
  oi_fits **p = G->p;
  if (G->n == 2 && chance(r, 0.5)) merge_oi_fits(out, p[0], p[1], NULL);
  else if (G->n == 3 && chance(r, 0.5)) merge_oi_fits(out, p[0], p[1], p[2], NULL);
  else if (G->n == 4 && chance(r, 0.5)) merge_oi_fits(out, p[0], p[1], p[2], p[3], NULL);
  else { GList *l = NULL; for (int i = 0; i < G->n; i++) l = g_list_append(l, p[i]); merge_oi_fits_list(l, out); if ((int)g_list_length(l) != G->n) fail("list-changed", "the list of inputs was changed"); GList *q = l; for (int i = 0; i < G->n && q; i++, q = q->next) if (q->data != p[i]) fail("list-changed", "the list of inputs was changed"); g_list_free(l); }
  cap_end(NULL, NULL); stage("after merge"); ev("merges", 1); ev("inputs_merged", G->n);
  for (int i = 0; i < G->n; i++) if (dig_oi(p[i], true) != before[i]) fail("input-changed", "merging changed input %d", i + 1);
  for (int k = 1; k < NK; k++) if ((int)g_list_length(*listp(out, k)) != *nump(out, k)) fail("count-field", "merged dataset says it has %d %s tables but holds %d", *nump(out, k), DESC[k].ext, (int)g_list_length(*listp(out, k)));
}
static void free_group(Rng *r, Group *G, oi_fits *out)
{
  /* either side can go first */
  if (chance(r, 0.5)) { for (int i = 0; i < G->nown; i++) free_oi(&G->d[i]); stage("use merged after freeing inputs"); volatile uint64_t d = dig_oi(out, false); (void)d; free_oi_fits(out); }
  else { free_oi_fits(out); stage("use inputs after freeing merged"); for (int i = 0; i < G->nown; i++) { volatile uint64_t d = dig_oi(&G->d[i], false); (void)d; free_oi(&G->d[i]); } }
}

void c13(Rng *r)
{
  Group G; gen_group(r, &G); oi_fits m; do_merge(r, &G, &m); GString *why = g_string_new(NULL); bool renamed = false;
  for (int k = K_CORR; k <= K_FLUX; k++)
  {
    int want = 0; for (int i = 0; i < G.n; i++) want += tab_count(G.p[i], k);
    if (tab_count(&m, k) != want) { fail("table-count", "%d %s tables in the inputs, %d in the merged dataset", want, DESC[k].ext, tab_count(&m, k)); continue; }
    int at = 0;
    for (int i = 0; i < G.n; i++) for (GList *l = *listp(G.p[i], k); l; l = l->next, at++)
    {
      void *out = tab_at(&m, k, at), *e = copy_tab(k, l->data); bool v1 = k >= K_VIS && k <= K_T3 && tab_revn(k, e) == 1;
      static const char *const KWN[3] = {"ARRNAME", "INSNAME", "CORRNAME"};
      for (int x = 0; x < 3; x++)
      {
        if ((k == K_INSPOL && x > 0) || (k == K_CORR && x < 2)) continue;
        const char *a = tab_str(k, e, KWN[x]), *b = tab_str(k, out, KWN[x]); if (!a[0] != !b[0]) fail("name-lost", "%s table %d of input %d: %s is '%s', merged '%s'", DESC[k].ext, at + 1, i + 1, KWN[x], a, b);
        if (strcmp(a, b)) renamed = true; strcpy(tab_strp(k, e, KWN[x]), b);
      }
      if (v1) for (long j = 0; j < tab_rows(k, e); j++) { double *t = k == K_VIS ? &((oi_vis *)e)->record[j].time : k == K_VIS2 ? &((oi_vis2 *)e)->record[j].time : &((oi_t3 *)e)->record[j].time; *t = 0; }
      if (k == K_INSPOL && tab_rows(k, out) == tab_rows(k, e)) for (long j = 0; j < tab_rows(k, e); j++) strcpy(((oi_inspol *)e)->record[j].insname, ((oi_inspol *)out)->record[j].insname);
      g_string_truncate(why, 0);
      if (!cmp_tab(k, e, out, IGN_REVN | IGN_TID, why)) fail("table-differs", "%s table %d (from input %d of %d): %s (expected against merged)", DESC[k].ext, at + 1, i + 1, G.n, why->str);
      free_tab(k, e, true); ev("tables_compared", 1); ev("records_compared", tab_rows(k, out)); if (v1) ev("v1_tables_merged", 1);
    }
  }
  if (renamed) ev("renamed_references", 1);
  GHashTable *set = g_hash_table_new_full(NULL, NULL, NULL, g_free); for (int i = 0; i < G.nown; i++) collect_ptrs(&G.d[i], set, "input"); collect_ptrs(&m, set, "merged"); ev("storage_blocks_compared", g_hash_table_size(set)); g_hash_table_destroy(set);
  free_group(r, &G, &m); g_string_free(why, TRUE);
}

/* ---------- C14 ---------- */
static element *elem(const oi_array *a, int idx) { for (int i = 0; i < a->nelement; i++) if (a->elem[i].sta_index == idx) return &a->elem[i]; return NULL; }
static bool near(double a, double b, double tol) { if (isnan(a) || isnan(b)) return isnan(a) && isnan(b); return a == b || fabs(a - b) <= tol; } /* undefined values equal each other only */
static bool same_elem(const element *e, const element *f, bool fov)
{
  for (int j = 0; j < 3; j++) if (!near(e->staxyz[j], f->staxyz[j], 1e-10)) return false;
  if (!near(e->diameter, f->diameter, 1e-3f)) return false;
  return !fov || (!(fabs(e->fov - f->fov) > 1e-10) && !strcmp(e->fovtype, f->fovtype));
}
static bool array_contained(const oi_array *a, const oi_array *b)
{
  if (!near(a->arrayx, b->arrayx, 1e-10) || !near(a->arrayy, b->arrayy, 1e-10) || !near(a->arrayz, b->arrayz, 1e-10)) return false;
  for (int i = 0; i < a->nelement; i++) { element *f = elem(b, a->elem[i].sta_index); if (!f || !same_elem(&a->elem[i], f, a->revision >= 2)) return false; }
  return true;
}
static bool stations_found(const oi_array *a, const oi_array *b) /* the station an index refers to is the first one with it */
{
  if (!near(a->arrayx, b->arrayx, 1e-10) || !near(a->arrayy, b->arrayy, 1e-10) || !near(a->arrayz, b->arrayz, 1e-10)) return false;
  for (int i = 0; i < a->nelement; i++) { element *e = elem(a, a->elem[i].sta_index), *f = elem(b, a->elem[i].sta_index); if (!f || !same_elem(e, f, a->revision >= 2)) return false; }
  return true;
}
static bool same_wave(const oi_wavelength *a, const oi_wavelength *b)
{
  if (a->nwave != b->nwave) return false;
  for (int i = 0; i < a->nwave; i++) if (!near(a->eff_wave[i], b->eff_wave[i], 1e-10) || !near(a->eff_band[i], b->eff_band[i], 1e-10)) return false;
  return true;
}
static int *sta_of(int k, void *t, long i, int *n)
{
  switch (k) { case K_VIS: *n = 2; return ((oi_vis *)t)->record[i].sta_index; case K_VIS2: *n = 2; return ((oi_vis2 *)t)->record[i].sta_index; case K_T3: *n = 3; return ((oi_t3 *)t)->record[i].sta_index;
    case K_FLUX: *n = 1; return &((oi_flux *)t)->record[i].sta_index; default: *n = 1; return &((oi_inspol *)t)->record[i].sta_index; }
}
void c14(Rng *r)
{
  Group G; gen_group(r, &G); oi_fits m; do_merge(r, &G, &m); GString *why = g_string_new(NULL); static const char *const KWN[3] = {"ARRNAME", "INSNAME", "CORRNAME"};
  void *(*look[3])(const oi_fits *, const char *) = {(void *)oi_fits_lookup_array, (void *)oi_fits_lookup_wavelength, (void *)oi_fits_lookup_corr};
  /* tables: greedy model of what is stored, under which constraints on names */
  GPtrArray *src[3] = {0}; GHashTable *map[3][MAXIN] = {{0}}; /* input table -> index in output */
  for (int x = 0; x < 3; x++)
  {
    int k = NM[x].k; src[x] = g_ptr_array_new(); for (int i = 0; i < G.n; i++) map[x][i] = g_hash_table_new(NULL, NULL); int ndup = 0;
    for (int i = 0; i < G.n; i++) for (GList *l = *listp(G.p[i], k); l; l = l->next)
    {
      int at = -1;
      if (x < 2) for (guint j = 0; j < src[x]->len && at < 0; j++) if (x == 0 ? array_contained(l->data, src[x]->pdata[j]) : same_wave(l->data, src[x]->pdata[j])) at = j;
      if (at < 0) { at = src[x]->len; g_ptr_array_add(src[x], l->data); } else ndup++;
      g_hash_table_insert(map[x][i], l->data, GINT_TO_POINTER(at));
    }
    ev("tables_shared", ndup);
    if (tab_count(&m, k) != (int)src[x]->len) { fail("tables-stored", "%d different %s tables in the inputs, %d stored", src[x]->len, DESC[k].ext, tab_count(&m, k)); goto done; }
    for (guint j = 0; j < src[x]->len; j++)
    {
      void *t = tab_at(&m, k, j); const char *n = tab_str(k, t, NM[x].kw), *o = tab_str(k, src[x]->pdata[j], NM[x].kw); bool clash = false;
      for (guint q = 0; q < src[x]->len; q++) if (q != j && !strcmp(n, tab_str(k, tab_at(&m, k, q), NM[x].kw))) { fail("name-repeated", "two %s tables are both called '%s'", DESC[k].ext, n); break; }
      for (guint q = 0; q < j; q++) if (!strcmp(o, tab_str(k, tab_at(&m, k, q), NM[x].kw))) clash = true;
      if (!clash && strcmp(n, o)) fail("name-changed", "%s '%s' was renamed to '%s' although no stored table has that name", DESC[k].ext, o, n);
      if (clash) { ev("tables_renamed", 1); cov("renamed %s len %d", DESC[k].ext, (int)strlen(n)); }
      if (!n[0] || strlen(n) > 68) fail("name-invalid", "%s got the name '%s'", DESC[k].ext, n); for (const char *c = n; *c; c++) if (*c < 32 || *c > 126) { fail("name-invalid", "%s got the name '%s'", DESC[k].ext, n); break; }
      char nb[FLEN_VALUE + 4]; strcpy(nb, n); if (look[x](&m, nb) != t) fail("lookup", "%s '%s' of the merged dataset is not found by its name", DESC[k].ext, n);
      void *e = copy_tab(k, src[x]->pdata[j]); strcpy(tab_strp(k, e, NM[x].kw), n); g_string_truncate(why, 0);
      if (!cmp_tab(k, e, t, IGN_REVN, why)) fail("table-differs", "stored %s '%s': %s (expected against merged)", DESC[k].ext, n, why->str); free_tab(k, e, true);
    }
  }
  if (g_hash_table_size(m.arrayHash) != src[0]->len || g_hash_table_size(m.wavelengthHash) != src[1]->len || g_hash_table_size(m.corrHash) != src[2]->len) fail("lookup-extra", "name lookup of the merged dataset has names of no table");
  /* follow every reference */
  for (int k = K_INSPOL; k <= K_FLUX; k++)
  {
    int at = 0, want = 0; for (int i = 0; i < G.n; i++) want += tab_count(G.p[i], k); if (tab_count(&m, k) != want) { fail("table-count", "%d %s tables in the inputs, %d in the merged dataset", want, DESC[k].ext, tab_count(&m, k)); continue; }
    int nc0 = 0;
    for (int i = 0; i < G.n; nc0 += tab_count(G.p[i], K_CORR), i++) for (GList *l = *listp(G.p[i], k); l; l = l->next, at++)
    {
      void *a = l->data, *b = tab_at(&m, k, at); if (tab_rows(k, a) != tab_rows(k, b)) { fail("rows", "%s table %d has %ld records instead of %ld", DESC[k].ext, at + 1, tab_rows(k, b), tab_rows(k, a)); continue; }
      oi_array *Aa = NULL, *Ab = NULL;
      for (int x = 0; x < 3; x++)
      {
        if (k == K_INSPOL && x > 0) continue;
        const char *n = tab_str(k, a, KWN[x]), *nn = tab_str(k, b, KWN[x]); if (!n[0]) { if (nn[0]) fail("name-invented", "%s table %d has no %s but the merged one has '%s'", DESC[k].ext, at + 1, KWN[x], nn); continue; }
        void *t = x == 0 ? (void *)array_named(G.p[i], n) : x == 1 ? (void *)wave_named(G.p[i], n) : (void *)corr_named(G.p[i], n); char nb[FLEN_VALUE + 4]; strcpy(nb, nn); void *u = look[x](&m, nb);
        if (!t) { ev("dangling_names", 1); continue; } if (!u) { fail("reference-lost", "%s table %d (input %d): %s '%s' became '%s', which is not in the merged dataset", DESC[k].ext, at + 1, i + 1, KWN[x], n, nn); continue; }
        ev("references_followed", 1);
        if (x == 0) { Aa = t; Ab = u; if (!stations_found(t, u)) fail("wrong-array", "%s table %d (input %d): array '%s' became '%s', which describes other stations", DESC[k].ext, at + 1, i + 1, n, nn); }
        if (x == 1) { if (!same_wave(t, u)) fail("wrong-wavelengths", "%s table %d (input %d): instrument '%s' became '%s', which has other channels", DESC[k].ext, at + 1, i + 1, n, nn); }
        if (x == 2) { int pos = nc0 + g_list_index(G.p[i]->corrList, t); if (u != tab_at(&m, K_CORR, pos)) fail("wrong-correlation", "%s table %d (input %d): correlation '%s' became '%s', which is another table", DESC[k].ext, at + 1, i + 1, n, nn); }
        if (g_list_index(*listp(&m, NM[x].k), u) != GPOINTER_TO_INT(g_hash_table_lookup(map[x][i], t))) fail("reference-moved", "%s table %d (input %d): %s '%s' became '%s', not the stored copy", DESC[k].ext, at + 1, i + 1, KWN[x], n, nn);
      }
      for (long j = 0; j < tab_rows(k, a); j++)
      {
        if (k == K_INSPOL)
        {
          oi_wavelength *t = wave_named(G.p[i], ((oi_inspol *)a)->record[j].insname), *u = oi_fits_lookup_wavelength(&m, ((oi_inspol *)b)->record[j].insname);
          if (t && !u) fail("reference-lost", "OI_INSPOL table %d record %ld: INSNAME '%s' is not in the merged dataset", at + 1, j + 1, ((oi_inspol *)b)->record[j].insname);
          if (t && u && !same_wave(t, u)) fail("wrong-wavelengths", "OI_INSPOL table %d record %ld (input %d): instrument '%s' became '%s', which has other channels", at + 1, j + 1, i + 1, t->insname, u->insname);
          if (t && u) ev("inspol_references_followed", 1);
        }
        int ns, ns2, *sa = sta_of(k, a, j, &ns), *sb = sta_of(k, b, j, &ns2);
        for (int q = 0; q < ns; q++)
        {
          if (sa[q] != sb[q]) { fail("station-index", "%s table %d record %ld: station index %d became %d", DESC[k].ext, at + 1, j + 1, sa[q], sb[q]); break; }
          element *e, *f; if (Aa && Ab && (e = elem(Aa, sa[q]))) { f = oi_fits_lookup_element(&m, Ab->arrname, sb[q]); if (!f || !same_elem(e, f, Aa->revision >= 2)) { fail("wrong-station", "%s table %d record %ld (input %d): station %d of array '%s' is %s in the merged dataset", DESC[k].ext, at + 1, j + 1, i + 1, sa[q], Aa->arrname, f ? "another one" : "missing"); break; } ev("stations_followed", 1); }
        }
        int ta = *tid_of(k, a, j), tb = *tid_of(k, b, j); target *p = NULL, *q = oi_fits_lookup_target(&m, tb); for (int z = 0; z < G.p[i]->targets.ntarget && !p; z++) if (G.p[i]->targets.targ[z].target_id == ta) p = &G.p[i]->targets.targ[z];
        if (p && !q) fail("target-lost", "%s table %d record %ld (input %d): target %d ('%s') became %d, which is not in the merged dataset", DESC[k].ext, at + 1, j + 1, i + 1, ta, p->target, tb);
        else if (p && strcmp(p->target, q->target)) fail("wrong-target", "%s table %d record %ld (input %d): target '%s' became '%s'", DESC[k].ext, at + 1, j + 1, i + 1, p->target, q->target);
        else if (!p && q) fail("target-invented", "%s table %d record %ld (input %d): unknown target %d became '%s'", DESC[k].ext, at + 1, j + 1, i + 1, ta, q->target);
        if (p) ev("targets_followed", 1);
      }
    }
  }
done:
  for (int x = 0; x < 3; x++) { if (src[x]) g_ptr_array_free(src[x], TRUE); for (int i = 0; i < G.n; i++) if (map[x][i]) g_hash_table_destroy(map[x][i]); }
  free_group(r, &G, &m); g_string_free(why, TRUE);
}

/* ---------- C15 ---------- */
void c15(Rng *r)
{
  Group G; gen_group(r, &G); oi_fits m; do_merge(r, &G, &m); GString *why = g_string_new(NULL);
  oi_target e = {0}; int max = 0; for (int i = 0; i < G.n; i++) max += G.p[i]->targets.ntarget; e.targ = calloc(max + 1, sizeof *e.targ); e.revision = 2;
  for (int i = 0; i < G.n; i++)
  {
    const oi_target *t = &G.p[i]->targets; if (t->usecategory) e.usecategory = 1;
    for (int j = 0; j < t->ntarget; j++)
    {
      int q; for (q = 0; q < e.ntarget; q++) if (!strcmp(e.targ[q].target, t->targ[j].target)) break;
      if (q < e.ntarget) { ev("repeated_targets", 1); continue; }
      e.targ[e.ntarget] = t->targ[j]; if (!t->usecategory) e.targ[e.ntarget].category[0] = 0; e.targ[e.ntarget].target_id = e.ntarget + 1; e.ntarget++;
    }
  }
  if (e.ntarget > 99) ev("over_99_targets", 1); ev("targets_compared", e.ntarget); if (e.usecategory) ev("category_lists", 1);
  if (m.targets.revision != 2) fail("target-revision", "merged target table has revision %d", m.targets.revision);
  if (!cmp_tab(K_TARGET, &e, &m.targets, IGN_REVN, why)) fail("targets-differ", "merged target list: %s (expected against merged)", why->str); free(e.targ);
  /* header */
#define HF(f) offsetof(oi_header, f), #f
  static const struct { size_t off; const char *n; bool req; } F[11] = {{HF(origin), 1}, {HF(telescop), 1}, {HF(instrume), 1}, {HF(observer), 1}, {HF(insmode), 1}, {HF(object), 1}, {HF(referenc), 0}, {HF(author), 0}, {HF(prog_id), 0}, {HF(procsoft), 0}, {HF(obstech), 0}};
  for (int q = 0; q < 11; q++)
  {
    const char *v = NULL; bool many = false; for (int i = 0; i < G.n; i++) { const char *s = (char *)&G.p[i]->header + F[q].off; if (!s[0]) continue; if (!v) v = s; else if (strcmp(v, s)) many = true; }
    const char *w = many ? "MULTIPLE" : v ? v : F[q].req ? "UNKNOWN" : "", *got = (char *)&m.header + F[q].off; cov("header %s %s", F[q].n, many ? "multiple" : v ? "common" : "none"); ev(many ? "keywords_multiple" : v ? "keywords_common" : "keywords_unspecified", 1);
    if (strcmp(w, got)) fail("header", "merged header %s is '%s' instead of '%s'", F[q].n, got, w);
  }
  const char *min = NULL; static char mb[11]; for (int i = 0; i < G.n; i++) { const char *s = G.p[i]->header.date_obs; int y, mo, d; if (sscanf(s, "%4d-%2d-%2d", &y, &mo, &d) != 3) continue; char b[11]; snprintf(b, 11, "%04d-%02d-%02d", y, mo, d); if (!min || strcmp(b, min) < 0) { strcpy(mb, b); min = mb; } }
  if (min) { ev("dates_compared", 1); if (strcmp(min, m.header.date_obs)) fail("date", "merged DATE-OBS is '%s', earliest of the inputs is '%s'", m.header.date_obs, min); }
  if (!is_oi_fits_two(&m) || is_oi_fits_one(&m)) fail("version", "merged dataset is not recognised as version 2");
  if (strcmp(m.header.content, "OIFITS2")) fail("version", "merged CONTENT is '%s'", m.header.content);
  for (int k = 1; k < NK; k++) for (GList *l = *listp(&m, k); l; l = l->next) if (tab_revn(k, l->data) != DESC[k].v2rev) fail("revision", "merged %s has revision %d", DESC[k].ext, tab_revn(k, l->data));
  free_group(r, &G, &m); g_string_free(why, TRUE);
}
