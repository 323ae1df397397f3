/* Properties about datasets in memory: C07-C12, C22, C24. */
#include "mon.h"
#include <fitsio.h>

uint64_t g_salt;
void junk_bytes(Rng *r, void *p, size_t n) { uint8_t *b = p; uint64_t s = g_salt; for (size_t i = 0; i < n; i++) { b[i] = (uint8_t)(rnd(r) ^ s); s = s * 6364136223846793005ULL + (g_salt ? 1442695040888963407ULL : 0); } }
/* run the library's filter into a struct of random bytes; check that it leaves filter and input alone */
void do_filter(Rng *r, const oi_fits *in, oi_filter_spec *f, oi_fits *out)
{
  uint64_t d = dig_oi(in, true); oi_filter_spec keep = *f; junk_bytes(r, out, sizeof *out); stage("apply_oi_filter"); cap_begin(); apply_oi_filter(in, f, out); cap_end(NULL, NULL);
  if (dig_oi(in, true) != d) fail("filter-modifies-input", "filtering changed the input dataset");
  if (memcmp(&keep, f, sizeof keep)) fail("filter-modifies-spec", "filtering changed the filter specification");
  ev("filters_applied", 1);
}
/* a dataset with references to things that do not exist and repeated names or ids */
/* Replace a name by one that most likely belongs to no table: another word, a single letter, or almost the same name. */
void missing_name(Rng *r, char *name, const char *word)
{
  size_t n = strlen(name); cov("missing name");
  switch (n ? ri(r, 0, 6) : ri(r, 0, 1))
  {
  case 1: name[0] = "QxZ?_-"[ri(r, 0, 5)]; name[1] = 0; break;
  case 2: if (n > 1) { name[n - 1] = 0; while (n > 1 && name[n - 2] == ' ') name[--n - 1] = 0; } break;
  case 3: name[n - 1] = name[n - 1] == '#' ? '+' : '#'; break;
  case 4: if (n < 60) { name[n] = "x1_"[ri(r, 0, 2)]; name[n + 1] = 0; } break;
  case 5: { size_t i = rnd(r) % n; name[i] = g_ascii_isupper(name[i]) ? g_ascii_tolower(name[i]) : g_ascii_toupper(name[i]); break; }
  default: strcpy(name, word);
  }
}
/* ... not one of another instrument, which may have another number of channels */
static void noins(Rng *r, oi_fits *o, char *name) { missing_name(r, name, "NOSUCHINS"); for (GList *w = o->wavelengthList; w; w = w->next) if (!strcmp(((oi_wavelength *)w->data)->insname, name)) { strcpy(name, "NOSUCHINS"); break; } }
void roughen(Rng *r, oi_fits *o)
{
  for (int k = K_INSPOL; k <= K_FLUX; k++) for (GList *l = *listp(o, k); l; l = l->next)
  {
    if (chance(r, 0.1)) missing_name(r, tab_strp(k, l->data, "ARRNAME"), "NOSUCHARRAY");
    if (k != K_INSPOL && chance(r, 0.1)) missing_name(r, tab_strp(k, l->data, "CORRNAME"), "NOSUCHCORR");
    if (chance(r, 0.05)) { if (k == K_INSPOL) { if (tab_rows(k, l->data)) noins(r, o, ((oi_inspol *)l->data)->record[0].insname); } else noins(r, o, tab_strp(k, l->data, "INSNAME")); }
    for (long i = 0; i < tab_rows(k, l->data); i++) if (chance(r, 0.05)) *tid_of(k, l->data, i) = 7777;
  }
  if (chance(r, 0.3)) for (GList *l = o->arrayList; l; l = l->next) { oi_array *a = l->data; if (a->nelement > 1) a->elem[a->nelement - 1].sta_index = a->elem[0].sta_index; }
  if (chance(r, 0.3) && o->targets.ntarget > 1) { if (chance(r, 0.4)) { int j = ri(r, 1, o->targets.ntarget - 1), i = ri(r, 0, j - 1); o->targets.targ[i].target_id = o->targets.targ[j].target_id = chance(r, 0.7) ? j + 1 : j; } else if (chance(r, 0.5)) o->targets.targ[o->targets.ntarget - 1].target_id = o->targets.targ[0].target_id; else strcpy(o->targets.targ[o->targets.ntarget - 1].target, o->targets.targ[0].target); }
  rehash(o);
}

/* ---------- C07 ---------- */
static void mangled(Rng *r, const char *n, char *out)
{
  char b[300]; snprintf(b, sizeof b, "%s", n); int len = strlen(b);
  switch (ri(r, 0, 4))
  { case 0: strcat(b, "x"); break; case 1: if (len) b[len - 1] = 0; break; case 2: for (int i = 0; i < len; i++) b[i] = g_ascii_isupper(b[i]) ? g_ascii_tolower(b[i]) : g_ascii_toupper(b[i]); break; case 3: strcpy(b, ""); break; default: if (len) b[0] ^= 1; }
  g_strlcpy(out, b, FLEN_VALUE + 10);
}
static void check_lookups(Rng *r, const oi_fits *o, const char *how)
{
  static const struct { int k; const char *kw; } N[3] = {{K_ARRAY, "ARRNAME"}, {K_WAVE, "INSNAME"}, {K_CORR, "CORRNAME"}};
  for (int x = 0; x < 3; x++)
  {
    GPtrArray *names = g_ptr_array_new_with_free_func(g_free); char b[FLEN_VALUE + 20];
    for (GList *l = *listp((oi_fits *)o, N[x].k); l; l = l->next) { g_ptr_array_add(names, g_strdup(tab_str(N[x].k, l->data, N[x].kw))); mangled(r, tab_str(N[x].k, l->data, N[x].kw), b); g_ptr_array_add(names, g_strdup(b)); }
    for (int k = K_INSPOL; k <= K_FLUX; k++) for (GList *l = *listp((oi_fits *)o, k); l; l = l->next)
    { if (k == K_INSPOL && x == 1) { oi_inspol *p = l->data; for (long i = 0; i < p->numrec; i++) g_ptr_array_add(names, g_strdup(p->record[i].insname)); } else if (!(k == K_INSPOL && x == 2)) g_ptr_array_add(names, g_strdup(tab_str(k, l->data, N[x].kw))); }
    g_ptr_array_add(names, g_strdup("")); g_ptr_array_add(names, g_strdup("*"));
    for (guint i = 0; i < names->len; i++)
    {
      const char *n = names->pdata[i]; void *want = NULL, *got; for (GList *l = *listp((oi_fits *)o, N[x].k); l && !want; l = l->next) if (!strcmp(tab_str(N[x].k, l->data, N[x].kw), n)) want = l->data;
      stage("lookup %s '%s' (%s)", DESC[N[x].k].ext, n, how); char nb[FLEN_VALUE + 20]; g_strlcpy(nb, n, sizeof nb);
      got = x == 0 ? (void *)oi_fits_lookup_array(o, nb) : x == 1 ? (void *)oi_fits_lookup_wavelength(o, nb) : (void *)oi_fits_lookup_corr(o, nb);
      if (got != want) fail("lookup-table", "%s dataset: lookup of %s '%s' gave %s instead of %s", how, DESC[N[x].k].ext, n, got ? (want ? "another table" : "a table") : "nothing", want ? "the table of that name" : "nothing");
      ev(want ? "lookups_found" : "lookups_missing", 1); cov("%s %s %s", how, DESC[N[x].k].ext, want ? "found" : "missing");
      if (x == 0)
      {
        oi_array *a = want; for (int j = -1; j < (a ? a->nelement : 0) + 2; j++)
        {
          int idx = a && j >= 0 && j < a->nelement ? a->elem[j].sta_index : j < 0 ? -1 : ri(r, -2, 40); if (j >= 0 && chance(r, 0.1)) idx += (int[]){65536, -65536, 256, -256, 32768}[ri(r, 0, 4)]; element *we = NULL; if (a) for (int m = 0; m < a->nelement && !we; m++) if (a->elem[m].sta_index == idx) we = &a->elem[m];
          stage("lookup station %d of '%s'", idx, n); element *ge = oi_fits_lookup_element(o, nb, idx);
          if (ge != we) fail("lookup-element", "%s dataset: lookup of station %d of array '%s' gave row %ld, expected row %ld (-1: none)", how, idx, n, ge && a ? (long)(ge - a->elem) : -1, we ? (long)(we - a->elem) : -1);
          ev("elements_looked_up", 1);
        }
      }
    }
    g_ptr_array_free(names, TRUE);
  }
  const oi_target *T = &o->targets;
  for (int j = -2; j < T->ntarget + 3; j++)
  {
    int id = j >= 0 && j < T->ntarget ? T->targ[j].target_id : ri(r, -3, 12); if (chance(r, 0.1)) id += (int[]){65536, -65536, 256, -256, 32768}[ri(r, 0, 4)]; target *w = NULL; for (int m = 0; m < T->ntarget && !w; m++) if (T->targ[m].target_id == id) w = &T->targ[m];
    stage("lookup target %d", id); target *g = oi_fits_lookup_target(o, id);
    if (g != w) fail("lookup-target", "%s dataset: lookup of target %d gave row %ld, expected %ld", how, id, g ? (long)(g - T->targ) : -1, w ? (long)(w - T->targ) : -1);
    char n[FLEN_VALUE + 20] = ""; if (j >= 0 && j < T->ntarget) { if (chance(r, 0.8)) strcpy(n, T->targ[j].target); else mangled(r, T->targ[j].target, n); } else strcpy(n, j == -1 ? "" : "nobody");
    w = NULL; for (int m = 0; m < T->ntarget && !w; m++) if (!strcmp(T->targ[m].target, n)) w = &T->targ[m];
    stage("lookup target '%s'", n); g = oi_fits_lookup_target_by_name(o, n);
    if (g != w) fail("lookup-target-name", "%s dataset: lookup of target '%s' gave row %ld, expected %ld", how, n, g ? (long)(g - T->targ) : -1, w ? (long)(w - T->targ) : -1);
    ev("targets_looked_up", 1);
  }
}
void c07(Rng *r)
{
  GenOpt g = gen_opt(r); g.ver = chance(r, 0.2) ? 1 : 2; g.smallpool = chance(r, 0.4); oi_fits o, b, c; gen_oi(r, &g, &o); bool rough = chance(r, 0.4); if (rough) roughen(r, &o);
  if (chance(r, 0.1) && tab_count(&o, K_WAVE) > 1) { oi_wavelength *a = tab_at(&o, K_WAVE, 0), *q = tab_at(&o, K_WAVE, 1); if (a->nwave != q->nwave || 1) strcpy(q->insname, a->insname); } /* repeated name: first one counts */
  GString *why = g_string_new(NULL); describe(&o, why); sample("%s", why->str); char *p = spath("l.fits");
  EncOpt e = enc_opt(r, g.ver); e.longtarget = false; GByteArray *f = enc_fits(r, &o, &e, NULL); spew(p, f->data, f->len); g_byte_array_free(f, TRUE);
  cap_begin(); int st = do_read(r, p, &b); cap_end(NULL, NULL);
  if (st) fail("read-failed", "reading failed with status %d", st);
  else
  {
    check_lookups(r, &b, "read"); cov_oi(&b);
    oi_filter_spec fs; if (chance(r, 0.3)) init_oi_filter(&fs); else gen_filter(r, &b, &fs); do_filter(r, &b, &fs, &c); check_lookups(r, &c, "filtered"); free_oi_fits(&c);
    oi_fits o2; GenOpt g2 = gen_opt(r); g2.smallpool = g.smallpool; g2.ver = chance(r, 0.3) ? 1 : 2; gen_oi(r, &g2, &o2);
    junk_bytes(r, &c, sizeof c); stage("merge_oi_fits"); cap_begin(); merge_oi_fits(&c, &b, &o2, NULL); cap_end(NULL, NULL); check_lookups(r, &c, "merged"); free_oi_fits(&c); free_oi(&o2);
    free_oi_fits(&b);
  }
  free_oi(&o); g_string_free(why, TRUE);
}

/* ---------- C08 ---------- */
void expect_summary(const oi_fits *o, GString *s)
{
  const oi_header *h = &o->header; g_string_printf(s, "OIFITS version %d data:\n  ORIGIN  = '%s'\n  DATE    = '%s'\n  DATE-OBS= '%s'\n  TELESCOP= '%s'\n  INSTRUME= '%s'\n  OBSERVER= '%s'\n  OBJECT  = '%s'\n  INSMODE = '%s'\n  OBSTECH = '%s'\n\n", strcmp(h->content, "OIFITS2") ? 1 : 2, h->origin, h->date, h->date_obs, h->telescop, h->instrume, h->observer, h->object, h->insmode, h->obstech);
  for (int k = K_ARRAY; k < NK; k++)
  {
    g_string_append_printf(s, "  %d %s tables:\n", tab_count(o, k), DESC[k].ext); int n = 1;
    for (GList *l = *listp((oi_fits *)o, k); l; l = l->next, n++)
    {
      if (k == K_ARRAY) g_string_append_printf(s, "    #%-2d ARRNAME='%s'  %d elements\n", n, ((oi_array *)l->data)->arrname, ((oi_array *)l->data)->nelement);
      else if (k == K_WAVE) { oi_wavelength *w = l->data; float lo = 0, hi = 0; if (w->nwave > 0) { lo = hi = w->eff_wave[0]; for (int i = 1; i < w->nwave; i++) { if (w->eff_wave[i] < lo) lo = w->eff_wave[i]; if (w->eff_wave[i] > hi) hi = w->eff_wave[i]; } } g_string_append_printf(s, "    #%-2d INSNAME='%s'  %d channels  %7.1f-%7.1fnm\n", n, w->insname, w->nwave, 1e9 * lo, 1e9 * hi); }
      else if (k == K_CORR) g_string_append_printf(s, "    #%-2d CORRNAME='%s'  %d/%d non-zero correlations\n", n, ((oi_corr *)l->data)->corrname, ((oi_corr *)l->data)->ncorr, ((oi_corr *)l->data)->ndata);
      else if (k == K_INSPOL) g_string_append_printf(s, "    #%-2d ARRNAME='%s'\n", n, ((oi_inspol *)l->data)->arrname);
      else g_string_append_printf(s, "    #%-2d DATE-OBS=%s\n    INSNAME='%s'  ARRNAME='%s'  CORRNAME='%s'\n     %5ld records x %3d wavebands\n", n, tab_str(k, l->data, "DATE-OBS"), tab_str(k, l->data, "INSNAME"), tab_str(k, l->data, "ARRNAME"), tab_str(k, l->data, "CORRNAME"), tab_rows(k, l->data), tab_nwave(k, l->data));
    }
  }
}
static double mjd_of(int k, const void *t, long i) { return k == K_VIS ? ((oi_vis *)t)->record[i].mjd : k == K_VIS2 ? ((oi_vis2 *)t)->record[i].mjd : k == K_T3 ? ((oi_t3 *)t)->record[i].mjd : ((oi_flux *)t)->record[i].mjd; }
static void set_mjd(int k, void *t, long i, double m) { if (k == K_VIS) ((oi_vis *)t)->record[i].mjd = m; else if (k == K_VIS2) ((oi_vis2 *)t)->record[i].mjd = m; else if (k == K_T3) ((oi_t3 *)t)->record[i].mjd = m; else ((oi_flux *)t)->record[i].mjd = m; }
static void drop_tab(oi_fits *o, int k, int i) { void *t = tab_at(o, k, i); GList **l = listp(o, k); *l = g_list_remove(*l, t); --*nump(o, k); free_tab(k, t, true); }
#define NM_KW(k) ((k) == K_ARRAY ? "ARRNAME" : "INSNAME")
void c08(Rng *r)
{
  GenOpt g = gen_opt(r); g.ver = chance(r, 0.4) ? 1 : 2; if (chance(r, 0.5)) g.ntarget = 1; oi_fits o; gen_oi(r, &g, &o); GString *w = g_string_new(NULL), *out = g_string_new(NULL); describe(&o, w); sample("%s", w->str);
  /* spoil revisions and CONTENT in some cases */
  if (chance(r, 0.4)) strcpy(o.header.content, (const char *[]){"OIFITS2", "", "OIFITS1", "oifits2", "OIFITS2 ", "OIFITS", "OIFITS22"}[ri(r, 0, 6)]);
  if (chance(r, 0.4)) for (int i = ri(r, 1, 2); i > 0; i--) { int k = ri(r, 0, NK - 1), n = tab_count(&o, k); if (n) tab_set_revn(k, tab_at(&o, k, ri(r, 0, n - 1)), ri(r, 0, 3)); }
  if (chance(r, 0.6)) while (tab_count(&o, K_WAVE) > 1) { /* keep one instrument: point everything at it */
    drop_tab(&o, K_WAVE, 1); }
  if (chance(r, 0.6)) while (tab_count(&o, K_ARRAY) > (chance(r, 0.8) ? 1 : 0)) drop_tab(&o, K_ARRAY, tab_count(&o, K_ARRAY) - 1);
  if (chance(r, 0.08)) { free(o.targets.targ); o.targets.targ = NULL; o.targets.ntarget = 0; cov("no targets"); }
  if (chance(r, 0.04)) { while (tab_count(&o, K_WAVE)) drop_tab(&o, K_WAVE, 0); cov("no wavelength table"); }
  if (chance(r, 0.1)) roughen(r, &o);
  if (chance(r, 0.1)) { int k = chance(r, 0.5) ? K_ARRAY : K_WAVE, n = tab_count(&o, k); for (int i = 1; i < n; i++) strcpy(tab_strp(k, tab_at(&o, k, i), NM_KW(k)), tab_str(k, tab_at(&o, k, 0), NM_KW(k))); cov("tables of the same name"); }
  rehash(&o);
  double lo = 0, hi = 0, max = 1; bool any = false; bool near = chance(r, 0.6); double base = !near ? 0 : chance(r, 0.8) ? ri(r, 50000, 60000) : ri(r, -678575, 2973400);
  for (int k = K_VIS; k <= K_FLUX; k++) for (GList *l = *listp(&o, k); l; l = l->next) for (long i = 0; i < tab_rows(k, l->data); i++)
  { if (near) set_mjd(k, l->data, i, base + 0.25 * ri(r, 0, 8)); double m = mjd_of(k, l->data, i); if (isnan(m)) { m = 55000; set_mjd(k, l->data, i, m); } if (!any || m < lo) lo = m; if (!any || m > hi) hi = m; any = true; }
  max = near ? 0.25 * ri(r, 0, 9) : (double[]){0, 0.5, 1, 30, 1e6}[ri(r, 0, 4)]; if (any && chance(r, 0.3)) max = hi - lo; else if (any && hi > lo && chance(r, 0.1)) max = nextafter(hi - lo, 0);
  uint64_t d = dig_oi(&o, true);
  bool two = !strcmp(o.header.content, "OIFITS2"), one = !two; static const int v1k[] = {K_TARGET, K_ARRAY, K_WAVE, K_VIS, K_VIS2, K_T3};
  for (int x = 0; x < 6; x++) for (int i = 0, n = tab_count(&o, v1k[x]); i < n; i++) if (tab_revn(v1k[x], tab_at(&o, v1k[x], i)) != 1) one = false;
  stage("is_oi_fits_two"); if (!!is_oi_fits_two(&o) != two) fail("is-two", "CONTENT '%s' classified version 2: %d", o.header.content, !two);
  stage("is_oi_fits_one"); if (!!is_oi_fits_one(&o) != one) fail("is-one", "dataset with CONTENT '%s' classified version 1: %d", o.header.content, !one);
  ev(two ? "class_two" : one ? "class_one" : "class_neither", 1); cov("class %d%d", one, two);
  if (any)
  {
    bool at = tab_count(&o, K_WAVE) == 1 && tab_count(&o, K_ARRAY) <= 1 && o.targets.ntarget == 1 && hi - lo <= max;
    stage("is_atomic"); int got = is_atomic(&o, max); if (!!got != at) fail("is-atomic", "%d wavelength, %d array tables, %d targets, span %.17g days, limit %.17g: atomic %d", tab_count(&o, K_WAVE), tab_count(&o, K_ARRAY), o.targets.ntarget, hi - lo, max, !at);
    ev(at ? "atomic_yes" : "atomic_no", 1); cov("atomic%d w%d a%d t%d span%d", at, MIN(2, tab_count(&o, K_WAVE)), MIN(2, tab_count(&o, K_ARRAY)), MIN(2, o.targets.ntarget), hi - lo <= max);
  }
  if (chance(r, 0.02)) { oi_fits e; init_oi_fits(&e); stage("is_atomic"); if (is_atomic(&e, max)) fail("is-atomic-empty", "a dataset without any content is atomic"); free_oi_fits(&e); ev("empty_dataset_classified", 1); }
  long want[3] = {0, 0, 0}, got[3] = {-7, -7, -7}; for (int k = K_VIS; k <= K_T3; k++) for (GList *l = *listp(&o, k); l; l = l->next) for (long i = 0; i < tab_rows(k, l->data); i++) for (int j = 0; j < tab_nwave(k, l->data); j++) if (!flags_of(k, l->data, i)[j]) want[k - K_VIS]++;
  bool nul[3] = {chance(r, 0.15), chance(r, 0.15), chance(r, 0.15)}; stage("count_oi_fits_data"); count_oi_fits_data(&o, nul[0] ? NULL : &got[0], nul[1] ? NULL : &got[1], nul[2] ? NULL : &got[2]);
  for (int i = 0; i < 3; i++) if (!nul[i] && got[i] != want[i]) fail("data-count", "%s: %ld unflagged data counted, there are %ld", DESC[K_VIS + i].ext, got[i], want[i]);
  ev("data_counted", want[0] + want[1] + want[2]); cov_oi(&o);
  expect_summary(&o, w); stage("format_oi_fits_summary"); const char *s = format_oi_fits_summary(&o);
  if (strcmp(s, w->str)) { int i = 0; while (s[i] && s[i] == w->str[i]) i++; while (i > 0 && w->str[i - 1] != '\n') i--; fail("summary", "summary text reads '%.100s' where '%.100s' is true", s + i, w->str + i); }
  cap_begin(); stage("print_oi_fits_summary"); print_oi_fits_summary(&o); cap_end(out, NULL); if (strcmp(out->str, w->str)) fail("summary-printed", "printed summary differs from the true one");
  ev("summaries", 1);
  if (dig_oi(&o, true) != d) fail("inspection-modifies", "classifying, counting or summarising changed the dataset");
  free_oi(&o); g_string_free(w, TRUE); g_string_free(out, TRUE);
}

/* ---------- C09 ---------- */
void filter_case(Rng *r, GenOpt *g, oi_fits *o, oi_filter_spec *f)
{
  *g = gen_opt(r); g->physical = chance(r, 0.75); if (chance(r, 0.1)) g->ver = 1; g->asciiplain = true; gen_oi(r, g, o); gen_filter(r, o, f);
}
static void cov_filter(const oi_filter_spec *f, const oi_fits *out)
{
  oi_filter_spec d; init_oi_filter(&d); int n = 0; for (int k = K_VIS; k <= K_FLUX; k++) n += tab_count(out, k);
  cov("filter names%d%d%d target%d", !!strcmp(f->arrname, "*"), !!strcmp(f->insname, "*"), !!strcmp(f->corrname, "*"), f->target_id >= 0);
  cov("filter mjd%d wave%d bas%d uv%d snr%d", f->mjd_range[0] != d.mjd_range[0] || f->mjd_range[1] != d.mjd_range[1], f->wave_range[0] != d.wave_range[0] || f->wave_range[1] != d.wave_range[1], f->bas_range[0] != d.bas_range[0] || f->bas_range[1] != d.bas_range[1], f->uvrad_range[0] != d.uvrad_range[0] || f->uvrad_range[1] != d.uvrad_range[1], f->snr_range[0] != d.snr_range[0] || f->snr_range[1] != d.snr_range[1]);
  cov("filter accept %d%d%d%d%d%d", !!f->accept_vis, !!f->accept_vis2, !!f->accept_t3amp, !!f->accept_t3phi, !!f->accept_flux, !!f->accept_flagged); cov("filter leaves %s", n == 0 ? "nothing" : n < 3 ? "few tables" : "many tables");
  ev(n ? "nonempty_outputs" : "empty_outputs", 1);
}
void c09(Rng *r)
{
  GenOpt g; oi_fits o, lib, mod; oi_filter_spec f; GString *why = g_string_new(NULL); filter_case(r, &g, &o, &f); describe(&o, why); sample("%s", why->str); g_string_truncate(why, 0);
  do_filter(r, &o, &f, &lib); model_filter(&o, &f, &mod);
  if (!cmp_oi(&mod, &lib, 0, why)) fail("filter-differs", "filter output differs from what the criteria select: %s", why->str);
  /* no flag is ever cleared and nothing else is lost: recount */
  for (int k = K_VIS; k <= K_FLUX; k++) for (GList *l = *listp(&lib, k); l; l = l->next) { ev("records_out", tab_rows(k, l->data)); ev("channels_out", tab_rows(k, l->data) * tab_nwave(k, l->data)); }
  ev("inspol_tables_out", tab_count(&lib, K_INSPOL)); cov_filter(&f, &lib); cov_oi(&lib);
  free_oi_fits(&lib); free_oi(&mod); free_oi(&o); g_string_free(why, TRUE);
}

/* ---------- C10 ---------- */
static void scribble(Rng *r, oi_fits *o)
{
  for (int k = 0; k < NK; k++) for (int i = 0, n = tab_count(o, k); i < n; i++)
  {
    void *t = tab_at(o, k, i); for (int c = 0; c < DESC[k].ncol; c++) { const Col *q = &DESC[k].col[c]; if (!col_used(k, t, q)) continue; for (long j = 0; j < tab_rows(k, t); j++) { size_t m = q->t == T_STR ? (size_t)q->strmax : col_n(k, t, q) * ft_size(q->t); memset(cell(k, t, q, j), 0x41 + ri(r, 0, 9), m); } }
    for (int w = 0; w < DESC[k].nkw; w++) if (DESC[k].kw[w].t == T_STR) strcpy((char *)t + DESC[k].kw[w].off, "scribbled");
  }
}
void c10(Rng *r)
{
  GenOpt g; oi_fits o, lib; oi_filter_spec f; GString *why = g_string_new(NULL); filter_case(r, &g, &o, &f); describe(&o, why); sample("%s", why->str); g_string_truncate(why, 0);
  bool rough = chance(r, 0.25); if (rough) { roughen(r, &o); }
  do_filter(r, &o, &f, &lib); cov_filter(&f, &lib); cov_oi(&lib);
  GHashTable *set = g_hash_table_new_full(NULL, NULL, NULL, g_free); collect_ptrs(&o, set, "input"); collect_ptrs(&lib, set, "output"); ev("storage_blocks_compared", g_hash_table_size(set)); g_hash_table_destroy(set);
  /* references */
  for (int k = 1; k < NK; k++) if (*nump(&lib, k) != tab_count(&lib, k)) fail("count", "output claims %d %s tables but lists %d", *nump(&lib, k), DESC[k].ext, tab_count(&lib, k));
  GHashTable *ref[3]; for (int i = 0; i < 3; i++) ref[i] = g_hash_table_new(g_str_hash, g_str_equal);
  bool tsel = f.target_id >= 0 && target_known(&o, f.target_id);
  for (int k = K_INSPOL; k <= K_FLUX; k++)
  {
    int n = 1;
    for (GList *l = *listp(&lib, k); l; l = l->next, n++)
    {
      void *t = l->data; const char *a = tab_str(k, t, "ARRNAME"), *c = tab_str(k, t, "CORRNAME"), *w = k == K_INSPOL ? "" : tab_str(k, t, "INSNAME");
      if (k != K_INSPOL) { g_hash_table_add(ref[0], (char *)a); g_hash_table_add(ref[1], (char *)w); g_hash_table_add(ref[2], (char *)c); }
      if (tab_rows(k, t) <= 0 || tab_nwave(k, t) <= 0) fail("empty-table", "output %s #%d has %ld records, %d channels", DESC[k].ext, n, tab_rows(k, t), tab_nwave(k, t));
      oi_array *ia = a[0] ? array_named(&o, a) : NULL, *oa = a[0] ? array_named(&lib, a) : NULL;
      if (ia && !oa) fail("dangling-array", "output %s #%d refers to array '%s', which is in the input but not in the output", DESC[k].ext, n, a);
      if (ia && oa && !cmp_tab(K_ARRAY, ia, oa, 0, why)) fail("array-changed", "array '%s' of the output differs: %s", a, why->str);
      if (ia && oa && oi_fits_lookup_array(&lib, a) != oa) fail("lookup", "array '%s' of the output cannot be looked up", a);
      oi_corr *ic = c[0] ? corr_named(&o, c) : NULL, *oc = c[0] ? corr_named(&lib, c) : NULL;
      if (ic && !oc) fail("dangling-corr", "output %s #%d refers to correlation table '%s', which is in the input but not in the output", DESC[k].ext, n, c);
      if (ic && oc && !cmp_tab(K_CORR, ic, oc, 0, why)) fail("corr-changed", "correlation table '%s' of the output differs: %s", c, why->str);
      if (ic && oc && oi_fits_lookup_corr(&lib, c) != oc) fail("lookup", "correlation table '%s' of the output cannot be looked up", c);
      for (long i = 0; i < (k == K_INSPOL ? tab_rows(k, t) : 1); i++)
      {
        const char *wn = k == K_INSPOL ? ((oi_inspol *)t)->record[i].insname : w; oi_wavelength *iw = wave_named(&o, wn), *ow = wave_named(&lib, wn);
        if (k != K_INSPOL && iw && !ow) fail("dangling-wave", "output %s #%d refers to wavelength table '%s', which is in the input but not in the output", DESC[k].ext, n, wn);
        if (ow && ow->nwave != tab_nwave(k, t)) fail("channels", "output %s #%d has %d channels, its wavelength table '%s' has %d", DESC[k].ext, n, tab_nwave(k, t), wn, ow->nwave);
        if (ow && oi_fits_lookup_wavelength(&lib, wn) != ow) fail("lookup", "wavelength table '%s' of the output cannot be looked up", wn);
      }
      for (long i = 0; i < tab_rows(k, t); i++)
      {
        int id = *tid_of(k, t, i); if (f.target_id >= 0 && id != 1) { fail("target-number", "single-target output %s #%d record %ld has TARGET_ID %d instead of 1", DESC[k].ext, n, i + 1, id); break; }
        if (f.target_id < 0 && target_known(&o, id) && !target_known(&lib, id)) { fail("dangling-target", "output %s #%d refers to target %d, which is in the input but not in the output", DESC[k].ext, n, id); break; }
      }
      ev("references_followed", 3 + tab_rows(k, t));
    }
  }
  if (f.target_id >= 0)
  {
    if (lib.targets.ntarget != (tsel ? 1 : 0)) fail("target-table", "single-target output has %d targets", lib.targets.ntarget);
    else if (tsel) { target *w = NULL; for (int i = 0; i < o.targets.ntarget && !w; i++) if (o.targets.targ[i].target_id == f.target_id) w = &o.targets.targ[i]; target x = *w; x.target_id = 1; oi_target a = o.targets; a.ntarget = 1; a.targ = &x; if (!cmp_tab(K_TARGET, &a, &lib.targets, 0, why)) fail("target-table", "target of single-target output: %s", why->str); ev("targets_selected", 1); }
  }
  else if (!cmp_tab(K_TARGET, &o.targets, &lib.targets, 0, why)) fail("target-table", "targets of output: %s", why->str);
  for (GList *l = lib.arrayList; l; l = l->next) if (!g_hash_table_contains(ref[0], ((oi_array *)l->data)->arrname)) fail("unreferenced-array", "output holds array '%s' that no data table refers to", ((oi_array *)l->data)->arrname);
  for (GList *l = lib.wavelengthList; l; l = l->next) if (!g_hash_table_contains(ref[1], ((oi_wavelength *)l->data)->insname)) fail("unreferenced-wave", "output holds wavelength table '%s' that no data table refers to", ((oi_wavelength *)l->data)->insname);
  for (GList *l = lib.corrList; l; l = l->next) if (!g_hash_table_contains(ref[2], ((oi_corr *)l->data)->corrname)) fail("unreferenced-corr", "output holds correlation table '%s' that no data table refers to", ((oi_corr *)l->data)->corrname);
  for (int i = 0; i < 3; i++) g_hash_table_destroy(ref[i]);
  /* lookups must not reach removed or foreign tables either */
  for (GList *l = o.arrayList; l; l = l->next) { const char *n = ((oi_array *)l->data)->arrname; if (oi_fits_lookup_array(&lib, n) != array_named(&lib, n)) fail("lookup", "array '%s': lookup in the output does not agree with its list", n); }
  for (GList *l = o.wavelengthList; l; l = l->next) { const char *n = ((oi_wavelength *)l->data)->insname; if (oi_fits_lookup_wavelength(&lib, n) != wave_named(&lib, n)) fail("lookup", "wavelength table '%s': lookup in the output does not agree with its list", n); }
  for (GList *l = o.corrList; l; l = l->next) { const char *n = ((oi_corr *)l->data)->corrname; if (oi_fits_lookup_corr(&lib, n) != corr_named(&lib, n)) fail("lookup", "correlation table '%s': lookup in the output does not agree with its list", n); }
  /* independence: destroy one, the other stays as it was */
  if (chance(r, 0.5))
  { uint64_t d = dig_oi(&lib, false); scribble(r, &o); stage("free input"); free_oi(&o); if (dig_oi(&lib, false) != d) fail("not-independent", "output changed when the input was modified and freed"); free_oi_fits(&lib); ev("input_freed_first", 1); }
  else
  { uint64_t d = dig_oi(&o, false); scribble(r, &lib); if (dig_oi(&o, false) != d) fail("not-independent", "input changed when the output was modified"); stage("free output"); free_oi_fits(&lib); if (dig_oi(&o, false) != d) fail("not-independent", "input changed when the output was freed"); free_oi(&o); ev("output_freed_first", 1); }
  g_string_free(why, TRUE);
}

/* ---------- C11 ---------- */
static void uvdata(int k, const void *t, long i, double c[4])
{
  if (k == K_VIS) { c[0] = ((oi_vis *)t)->record[i].ucoord; c[1] = ((oi_vis *)t)->record[i].vcoord; }
  else if (k == K_VIS2) { c[0] = ((oi_vis2 *)t)->record[i].ucoord; c[1] = ((oi_vis2 *)t)->record[i].vcoord; }
  else { oi_t3_record *q = &((oi_t3 *)t)->record[i]; c[0] = q->u1coord; c[1] = q->v1coord; c[2] = q->u2coord; c[3] = q->v2coord; }
}
static bool same(double a, double b) { return a == b || (isnan(a) && isnan(b)) || fabs(a - b) <= 1e-13 * fabs(b); }
typedef struct { int k; _oi_iter it; GArray *want; guint pos; int ended; } It;
static bool it_next(It *x, int *e, void **t, long *i, void **rec, int *w)
{ return x->k == K_VIS ? oi_vis_iter_next(&x->it, e, (oi_vis **)t, i, (oi_vis_record **)rec, w) : x->k == K_VIS2 ? oi_vis2_iter_next(&x->it, e, (oi_vis2 **)t, i, (oi_vis2_record **)rec, w) : oi_t3_iter_next(&x->it, e, (oi_t3 **)t, i, (oi_t3_record **)rec, w); }
void c11(Rng *r)
{
  GenOpt g; oi_fits o; oi_filter_spec f; GString *why = g_string_new(NULL); filter_case(r, &g, &o, &f); if (chance(r, 0.1)) init_oi_filter(&f); describe(&o, why); sample("%s", why->str);
  if (chance(r, 0.2)) { roughen(r, &o); }
  uint64_t d = dig_oi(&o, true); int n = ri(r, 1, 4); It its[4]; bool nul[4]; oi_filter_spec def; init_oi_filter(&def); oi_filter_spec f2; gen_filter(r, &o, &f2); const oi_filter_spec keep = f, keep2 = f2;
  for (int x = 0; x < n; x++)
  {
    its[x].k = K_VIS + (x < 3 ? (x + (int)(g_case % 3)) % 3 : ri(r, 0, 2)); its[x].pos = 0; its[x].ended = 0; nul[x] = chance(r, 0.25); oi_filter_spec *u = chance(r, 0.7) ? &f : &f2; its[x].want = model_iter(&o, its[x].k, nul[x] ? &def : u); junk_bytes(r, &its[x].it, sizeof its[x].it);
    stage("iter_init %s", DESC[its[x].k].ext); const oi_filter_spec *p = nul[x] ? NULL : u; if (its[x].k == K_VIS) oi_vis_iter_init(&its[x].it, &o, p); else if (its[x].k == K_VIS2) oi_vis2_iter_init(&its[x].it, &o, p); else oi_t3_iter_init(&its[x].it, &o, p);
    cov("%s %s %s", DESC[its[x].k].ext, nul[x] ? "default" : "filtered", its[x].want->len ? "data" : "none"); cov_filter(u, &o);
  }
  int alive = n; long guard = 0;
  while (alive && !case_fails() && guard++ < 2000000)
  {
    int x = ri(r, 0, n - 1); It *q = &its[x]; if (q->ended >= 3) continue;
    int e = -9, w = -9; void *t = NULL, *rec = NULL; long i = -9; bool ne = chance(r, 0.1), nt = chance(r, 0.1), ni = chance(r, 0.1), nr = chance(r, 0.1), nw = chance(r, 0.1);
    stage("iter_next %s", DESC[q->k].ext); bool got = it_next(q, ne ? NULL : &e, nt ? NULL : &t, ni ? NULL : &i, nr ? NULL : &rec, nw ? NULL : &w);
    if (q->pos >= q->want->len) { if (got) fail("iter-extra", "%s iterator yielded a point after the last accepted one (table %d record %ld channel %d)", DESC[q->k].ext, e, i, w); if (++q->ended == 3) alive--; ev("ends_seen", 1); continue; }
    Visit *v = &g_array_index(q->want, Visit, q->pos); q->pos++;
    if (!got) { fail("iter-short", "%s iterator ended after %u of %u points", DESC[q->k].ext, q->pos - 1, q->want->len); break; }
    void *T = tab_at(&o, q->k, v->extver - 1); void *R = *(char **)((char *)T + DESC[q->k].off_rec) + v->irec * DESC[q->k].recsize;
    if ((!ne && e != v->extver) || (!ni && i != v->irec) || (!nw && w != v->iwave)) fail("iter-point", "%s iterator point %u is table %d record %ld channel %d, expected %d %ld %d", DESC[q->k].ext, q->pos, e, i, w, v->extver, v->irec, v->iwave);
    if ((!nt && t != T) || (!nr && rec != R)) fail("iter-pointer", "%s iterator point %u: wrong %s returned", DESC[q->k].ext, q->pos, !nt && t != T ? "table" : "record");
    double c[4] = {0}, gu[4] = {-9, -9, -9, -9}, gw = -9, ww = wave_named(&o, tab_str(q->k, T, "INSNAME"))->eff_wave[v->iwave]; uvdata(q->k, T, v->irec, c); stage("iter_get_uv");
    bool n0 = chance(r, 0.1), n1 = chance(r, 0.1), n2 = chance(r, 0.1);
    if (q->k == K_VIS) oi_vis_iter_get_uv(&q->it, n0 ? NULL : &gw, n1 ? NULL : &gu[0], n2 ? NULL : &gu[1]); else if (q->k == K_VIS2) oi_vis2_iter_get_uv(&q->it, n0 ? NULL : &gw, n1 ? NULL : &gu[0], n2 ? NULL : &gu[1]); else oi_t3_iter_get_uv(&q->it, n0 ? NULL : &gw, n1 ? NULL : &gu[0], n2 ? NULL : &gu[1], &gu[2], &gu[3]);
    if (!n0 && !same(gw, ww)) fail("iter-wave", "%s wavelength %.17g, expected %.17g", DESC[q->k].ext, gw, ww);
    for (int m = 0; m < (q->k == K_T3 ? 4 : 2); m++) if (!(m == 0 && n1) && !(m == 1 && n2) && !same(gu[m], c[m] / ww)) fail("iter-uv", "%s coordinate %d is %.17g, expected %.17g", DESC[q->k].ext, m, gu[m], c[m] / ww);
    ev("points_visited", 1);
  }
  if (dig_oi(&o, true) != d) fail("iter-modifies", "iterating changed the dataset");
  if (memcmp(&keep, &f, sizeof f) || memcmp(&keep2, &f2, sizeof f2)) fail("iter-modifies-filter", "iterating changed the filter");
  cov_oi(&o); for (int x = 0; x < n; x++) g_array_free(its[x].want, TRUE); free_oi(&o); g_string_free(why, TRUE);
}

/* ---------- C12 ---------- */
static void datum(int k, const void *t, long i, int j, float wave, const oi_filter_spec *f, double v[16])
{
  int n = 0; for (int m = 0; m < 16; m++) v[m] = 0; v[n++] = wave; v[n++] = mjd_of(k, t, i); uvdata(k, t, i, v + n); n += 4;
  if (k == K_VIS) { oi_vis_record *q = &((oi_vis *)t)->record[i]; v[n++] = q->visamp[j]; v[n++] = q->visamperr[j]; v[n++] = q->visphi[j]; v[n++] = q->visphierr[j]; v[n++] = q->sta_index[0]; v[n++] = q->sta_index[1]; }
  else if (k == K_VIS2) { oi_vis2_record *q = &((oi_vis2 *)t)->record[i]; v[n++] = q->vis2data[j]; v[n++] = q->vis2err[j]; v[n++] = q->sta_index[0]; v[n++] = q->sta_index[1]; }
  else { oi_t3_record *q = &((oi_t3 *)t)->record[i]; if (f->accept_t3amp) v[n++] = q->t3amp[j]; if (f->accept_t3phi) v[n++] = q->t3phi[j]; v[n++] = q->t3amperr[j]; v[n++] = q->t3phierr[j]; for (int m = 0; m < 3; m++) v[n++] = q->sta_index[m]; }
}
void c12(Rng *r)
{
  GenOpt g; oi_fits o, a, b; oi_filter_spec f; GString *why = g_string_new(NULL); filter_case(r, &g, &o, &f); describe(&o, why); sample("%s", why->str); g_string_truncate(why, 0);
  do_filter(r, &o, &f, &a); cov_filter(&f, &a); cov_oi(&a);
  long cnt[3] = {0, 0, 0}; stage("count"); count_oi_fits_data(&a, &cnt[0], &cnt[1], &cnt[2]);
  oi_filter_spec fi = f; fi.accept_flagged = 0;
  for (int k = K_VIS; k <= K_T3; k++)
  {
    It it = {.k = k}; stage("iterate %s", DESC[k].ext); if (k == K_VIS) oi_vis_iter_init(&it.it, &o, &fi); else if (k == K_VIS2) oi_vis2_iter_init(&it.it, &o, &fi); else oi_t3_iter_init(&it.it, &o, &fi);
    long seen = 0; bool bad = false;
    for (GList *l = *listp(&a, k); l && !bad; l = l->next) for (long i = 0; i < tab_rows(k, l->data) && !bad; i++) for (int j = 0; j < tab_nwave(k, l->data) && !bad; j++)
    {
      if (flags_of(k, l->data, i)[j]) continue;
      void *t; long ir; int iw; double va[16], vb[16], w; if (!it_next(&it, NULL, &t, &ir, NULL, &iw)) { fail("filter-more", "%s: filter output has more unflagged data than the iterator visits (%ld)", DESC[k].ext, seen); bad = true; break; }
      seen++; if (k == K_VIS) oi_vis_iter_get_uv(&it.it, &w, NULL, NULL); else if (k == K_VIS2) oi_vis2_iter_get_uv(&it.it, &w, NULL, NULL); else oi_t3_iter_get_uv(&it.it, &w, NULL, NULL, NULL, NULL);
      oi_wavelength *W = wave_named(&a, tab_str(k, l->data, "INSNAME")); if (!W || W->nwave != tab_nwave(k, l->data)) { fail("filter-wave", "%s: no matching wavelength table in filter output", DESC[k].ext); bad = true; break; }
      datum(k, l->data, i, j, W->eff_wave[j], &f, va); datum(k, t, ir, iw, (float)w, &f, vb);
      for (int m = 0; m < 16; m++) if (!(va[m] == vb[m] || (isnan(va[m]) && isnan(vb[m])))) { fail("datum-differs", "%s: unflagged datum %ld of the filter output differs from the iterator's (item %d: %.17g against %.17g)", DESC[k].ext, seen, m, va[m], vb[m]); bad = true; break; }
    }
    long more = 0; while (!bad && it_next(&it, NULL, NULL, NULL, NULL, NULL)) more++;
    if (more) fail("iter-more", "%s: iterator visits %ld data more than the %ld unflagged ones of the filter output", DESC[k].ext, more, seen);
    if (!bad && cnt[k - K_VIS] != seen) fail("count-differs", "%s: %ld data counted in the filter output, %ld found", DESC[k].ext, cnt[k - K_VIS], seen);
    ev("data_matched", seen);
  }
  /* idempotence */
  oi_filter_spec f2 = f; if (f.target_id >= 0) f2.target_id = 1; do_filter(r, &a, &f2, &b);
  oi_fits e; copy_oi(&a, &e); /* polarisation records of instruments that are no longer present may go */
  for (GList *l = e.inspolList, *nx; l; l = nx)
  {
    nx = l->next; oi_inspol *p = l->data; long n = 0, *rows = malloc((p->numrec + 1) * sizeof *rows); int *ch = malloc(p->nwave * sizeof *ch); for (int j = 0; j < p->nwave; j++) ch[j] = j; for (long i = 0; i < p->numrec; i++) if (wave_named(&e, p->record[i].insname)) rows[n++] = i;
    void *q = n ? sub_tab(K_INSPOL, p, rows, n, ch, p->nwave) : NULL; if (q) l->data = q; else { e.inspolList = g_list_delete_link(e.inspolList, l); e.numInspol--; } free_tab(K_INSPOL, p, true); free(rows); free(ch);
  }
  if (!cmp_oi(&e, &b, 0, why)) fail("not-idempotent", "filtering again with the same criteria changed the data: %s", why->str);
  ev("idempotence_checked", 1); free_oi(&e); free_oi_fits(&b); free_oi_fits(&a);
  /* default limits keep everything */
  init_oi_filter(&f); do_filter(r, &o, &f, &a);
  for (int k = K_VIS; k <= K_FLUX; k++)
  {
    long ni = 0, no = 0; for (GList *l = *listp(&o, k); l; l = l->next) for (long i = 0; i < tab_rows(k, l->data); i++) { double m = mjd_of(k, l->data, i), c[4] = {0}; if (m < 0 || m > 1e7) continue; if (k != K_FLUX) { uvdata(k, l->data, i, c); double bl[3] = {sqrt(c[0] * c[0] + c[1] * c[1]), sqrt(c[2] * c[2] + c[3] * c[3]), sqrt((c[0] + c[2]) * (c[0] + c[2]) + (c[1] + c[3]) * (c[1] + c[3]))}; bool big = false; for (int x = 0; x < 3; x++) if (bl[x] > 1e4) big = true; if (big) continue; } ni++; }
    for (GList *l = *listp(&a, k); l; l = l->next) no += tab_rows(k, l->data);
    if (ni != no) fail("default-drops", "%s: default filter keeps %ld of %ld records", DESC[k].ext, no, ni); ev("default_records_kept", no);
  }
  free_oi_fits(&a); free_oi(&o); g_string_free(why, TRUE);
}

/* ---------- C22 ---------- */
static int leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static const int ML[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static void civil(long mjd, char *out) /* count days from 1858-11-17 one year and month at a time */
{
  long d = mjd; int y = 1858, m = 11; d += 16; while (d < 0) { if (--m < 1) { m = 12; y--; } d += ML[m - 1] + (m == 2 && leap(y)); }
  for (;;) { int n = ML[m - 1] + (m == 2 && leap(y)); if (d < n) break; d -= n; if (++m > 12) { m = 1; y++; } }
  sprintf(out, "%04d-%02d-%02ld", y, m, d + 1);
}
void c22(Rng *r)
{
  int y = 1601 + g_case % 800; long mjd = -94187, bad = 0;
  for (int pass = 0; pass < 2; pass++)
  {
  /* the years of any observation in turn, then all those that a FITS date can express */
  y = pass ? 1601 + g_case % 800 : 1 + g_case % 9999; mjd = -94187; for (int q = 1601; q < y; q++) mjd += 365 + leap(q); for (int q = 1600; q >= y; q--) mjd -= 365 + leap(q);
  stage("dates of %d", y);
  for (int m = 1; m <= 12; m++) for (int d = 1; d <= ML[m - 1] + (m == 2 && leap(y)); d++, mjd++)
  {
    long got = date2mjd(y, m, d), Y = -1, M = -1, D = -1; if (got != mjd && !bad++) fail("date2mjd", "%d-%02d-%02d converted to day %ld, true %ld", y, m, d, got, mjd);
    mjd2date(mjd, &Y, &M, &D); if ((Y != y || M != m || D != d) && !bad++) fail("mjd2date", "day %ld converted to %ld-%02ld-%02ld, true %d-%02d-%02d", mjd, Y, M, D, y, m, d);
    ev("days_converted", 1);
  }
  if (pass) cov("year %d", y); else ev("years_of_1_to_9999", 1);
  }
  /* date derived for a dataset */
  GenOpt g = gen_opt(r); g.ver = 1; g.physical = true; g.maxwave = 2; oi_fits o, b; gen_oi(r, &g, &o); double lo = 1e9; double base = chance(r, 0.4) ? 15385 + ru(r) * 72680 : chance(r, 0.5) ? -94180 + ru(r) * 194000 : -678575 + ru(r) * (2973483 + 678574); bool any = false;
  for (int k = K_VIS; k <= K_T3; k++) for (GList *l = *listp(&o, k); l; l = l->next) for (long i = 0; i < tab_rows(k, l->data); i++)
  { double m = chance(r, 0.3) ? floor(base) + ri(r, 0, 3) : chance(r, 0.2) ? nextafter(floor(base) + 1, 0) : base + ru(r) * 40; if (m > 2973483.5) m = 2973483.5; set_mjd(k, l->data, i, m); any = true; if (m < lo) lo = m; }
  char want[40]; if (any) civil((long)floor(lo), want);
  if (any)
  {
    oi_fits c; copy_oi(&o, &c); stage("set_oi_header"); set_oi_header(&c); if (strcmp(c.header.date_obs, want)) fail("derived-date", "DATE-OBS derived for earliest MJD %.6f is '%s', true '%s'", lo, c.header.date_obs, want); ev("dates_derived", 1); if (lo < -94187 || lo > 99999) ev("dates_outside_1601_2132", 1); free_oi(&c);
    EncOpt e = enc_opt(r, 1); e.longtarget = false; e.numvar = false; GByteArray *f = enc_fits(r, &o, &e, NULL); char *p = spath("d.fits"); spew(p, f->data, f->len); g_byte_array_free(f, TRUE);
    cap_begin(); int st = do_read(r, p, &b); cap_end(NULL, NULL); if (st) fail("read-failed", "reading failed: %d", st); else
    {
      if (strcmp(b.header.date_obs, want)) fail("derived-date", "DATE-OBS after reading a v1 file with earliest MJD %.6f is '%s', true '%s'", lo, b.header.date_obs, want); ev("dates_derived", 1);
      /* merging takes the earliest date of the inputs */
      oi_fits o2, mg; GenOpt g2 = g; g2.ver = 2; gen_oi(r, &g2, &o2); char w2[40]; civil((long)floor(lo) + ri(r, -40, 40), w2); if (w2[0] == '-' || !strncmp(w2, "0000", 4)) strcpy(w2, "0001-01-01"); if (strlen(w2) > 10) strcpy(w2, "9999-12-31"); strcpy(o2.header.date_obs, w2);
      stage("merge"); cap_begin(); if (chance(r, 0.5)) merge_oi_fits(&mg, &b, &o2, NULL); else merge_oi_fits(&mg, &o2, &b, NULL); cap_end(NULL, NULL);
      const char *min = strcmp(want, w2) < 0 ? want : w2; if (strcmp(mg.header.date_obs, min)) fail("merged-date", "merged DATE-OBS of '%s' and '%s' is '%s'", want, w2, mg.header.date_obs); ev("dates_merged", 1); free_oi_fits(&mg); free_oi(&o2); free_oi_fits(&b);
    }
  }
  if (g_case < 2) sample("all days of %d converted both ways; dataset with earliest MJD %.5f dated %s", y, lo, any ? want : "-"); free_oi(&o);
}

/* ---------- C24 ---------- */
static void expect_filter_text(const oi_filter_spec *f, GString *s)
{
  g_string_printf(s, "Filter accepts:\n  ARRNAME='%s'\n  INSNAME='%s'\n  CORRNAME='%s'\n", f->arrname, f->insname, f->corrname);
  if (f->target_id >= 0) g_string_append_printf(s, "  TARGET_ID=%d\n", f->target_id); else g_string_append(s, "  [Any TARGET_ID]\n");
  g_string_append_printf(s, "  MJD: %.2f - %.2f\n  Wavelength: %.1f - %.1fnm\n  Baseline: %.1f - %.1fm\n  UV Radius: %.1g - %.1g waves\n  SNR: %.1f - %.1f\n", f->mjd_range[0], f->mjd_range[1], 1e9 * f->wave_range[0], 1e9 * f->wave_range[1], f->bas_range[0], f->bas_range[1], f->uvrad_range[0], f->uvrad_range[1], f->snr_range[0], f->snr_range[1]);
  g_string_append(s, f->accept_vis ? "  OI_VIS (complex visibilities)\n" : "  [OI_VIS not accepted]\n"); g_string_append(s, f->accept_vis2 ? "  OI_VIS2 (squared visibilities)\n" : "  [OI_VIS2 not accepted]\n");
  g_string_append(s, f->accept_t3amp ? "  OI_T3 T3AMP (triple amplitudes)\n" : "  [OI_T3 T3AMP not accepted]\n"); g_string_append(s, f->accept_t3phi ? "  OI_T3 T3PHI (closure phases)\n" : "  [OI_T3 T3PHI not accepted]\n");
  g_string_append(s, f->accept_flux ? "  OI_FLUX (incoherent spectra)\n" : "  [OI_FLUX not accepted]\n"); g_string_append(s, f->accept_flagged ? "  All-flagged records\n" : "  [All-flagged records not accepted]\n");
}
typedef struct { const char *opt; int type; size_t off; double scale; } Opt; /* type: 's' 'i' 'd' 'f' */
#define O(n, t, f, s) {n, t, offsetof(oi_filter_spec, f), s}
static const Opt OPTS[] = {O("arrname", 's', arrname, 0), O("insname", 's', insname, 0), O("corrname", 's', corrname, 0), O("target-id", 'i', target_id, 1), O("mjd-min", 'd', mjd_range[0], 1), O("mjd-max", 'd', mjd_range[1], 1),
  O("wave-min", 'f', wave_range[0], 1e-9), O("wave-max", 'f', wave_range[1], 1e-9), O("bas-min", 'd', bas_range[0], 1), O("bas-max", 'd', bas_range[1], 1), O("uvrad-min", 'd', uvrad_range[0], 1), O("uvrad-max", 'd', uvrad_range[1], 1),
  O("snr-min", 'f', snr_range[0], 1), O("snr-max", 'f', snr_range[1], 1), O("accept-vis", 'i', accept_vis, 1), O("accept-vis2", 'i', accept_vis2, 1), O("accept-t3amp", 'i', accept_t3amp, 1), O("accept-t3phi", 'i', accept_t3phi, 1), O("accept-flux", 'i', accept_flux, 1), O("accept-flagged", 'i', accept_flagged, 1)};
enum { NOPT = sizeof OPTS / sizeof *OPTS };
static bool parse(char **argv, int argc, char **err)
{
  GOptionContext *c = g_option_context_new("X"); g_option_context_set_main_group(c, get_oi_filter_option_group()); g_option_context_set_help_enabled(c, FALSE); GError *e = NULL; char **av = g_new0(char *, argc + 1); for (int i = 0; i < argc; i++) av[i] = argv[i]; int ac = argc; char **keep = av;
  stage("parse options"); bool ok = g_option_context_parse(c, &ac, &av, &e); if (ok && ac != 1) { ok = false; *err = g_strdup("arguments left over"); } else if (e) { *err = g_strdup(e->message); g_error_free(e); } g_free(keep); g_option_context_free(c); return ok;
}
void filter_defaults(oi_filter_spec *w)
{
  memset(w, 0, sizeof *w); strcpy(w->arrname, "*"); strcpy(w->insname, "*"); strcpy(w->corrname, "*"); w->target_id = -1; w->mjd_range[1] = 1e7; w->wave_range[1] = 1e-4f; w->bas_range[1] = 1e4; w->uvrad_range[1] = 1e11; w->snr_range[0] = -5; w->snr_range[1] = 1e10f; w->accept_vis = w->accept_vis2 = w->accept_t3amp = w->accept_t3phi = w->accept_flux = w->accept_flagged = 1;
}
static bool spec_same(const oi_filter_spec *w, const oi_filter_spec *g, GString *why)
{
  for (int i = 0; i < NOPT; i++)
  {
    const char *a = (const char *)w + OPTS[i].off, *b = (const char *)g + OPTS[i].off; bool ok; double x, y;
    switch (OPTS[i].type)
    { case 's': ok = !strcmp(a, b); if (!ok) g_string_append_printf(why, "%s: '%s' instead of '%s'", OPTS[i].opt, b, a); break; case 'i': ok = *(int *)a == *(int *)b; if (!ok) g_string_append_printf(why, "%s: %d instead of %d", OPTS[i].opt, *(int *)b, *(int *)a); break;
      case 'd': x = *(double *)a; y = *(double *)b; ok = x == y; if (!ok) g_string_append_printf(why, "%s: %.17g instead of %.17g", OPTS[i].opt, y, x); break; default: x = *(float *)a; y = *(float *)b; ok = x == y || fabs(x - y) <= 3e-7 * fabs(x); if (!ok) g_string_append_printf(why, "%s: %.9g instead of %.9g", OPTS[i].opt, y, x); }
    if (!ok) return false;
  }
  return true;
}
void c24(Rng *r)
{
  GString *why = g_string_new(NULL), *txt = g_string_new(NULL), *out = g_string_new(NULL); oi_filter_spec f, w; filter_defaults(&w); junk_bytes(r, &f, sizeof f);
  stage("init_oi_filter"); init_oi_filter(&f); if (!spec_same(&w, &f, why)) fail("defaults", "default filter: %s", why->str); if (f.arrname_pttn || f.insname_pttn || f.corrname_pttn) fail("defaults", "default filter has compiled patterns");
  /* options in random order, some given twice (last counts), in both spellings */
  int idx[NOPT * 2], n = 0; double p = chance(r, 0.3) ? 0.9 : 0.25; for (int i = 0; i < NOPT; i++) if (chance(r, p)) { idx[n++] = i; if (chance(r, 0.1)) idx[n++] = i; } for (int i = n - 1; i > 0; i--) { int j = ri(r, 0, i), t = idx[i]; idx[i] = idx[j]; idx[j] = t; }
  GPtrArray *av = g_ptr_array_new_with_free_func(g_free); g_ptr_array_add(av, g_strdup("prog"));
  for (int i = 0; i < n; i++)
  {
    const Opt *o = &OPTS[idx[i]]; char v[300]; char *dst = (char *)&w + o->off;
    if (o->type == 's') { GenOpt g = {.asciiplain = chance(r, 0.6), .longstr = chance(r, 0.2)}; char nm[FLEN_VALUE]; gen_str(r, nm, chance(r, 0.1) ? 70 : 30, 0, &g, false); gen_pattern(r, nm, v); g_strlcpy(dst, v, FLEN_VALUE); }
    else if (o->type == 'i') { int x = !strncmp(o->opt, "accept", 6) ? ri(r, 0, 1) : ri(r, 0, 300); if (chance(r, 0.05)) x = ri(r, -3, 3); sprintf(v, "%d", x); *(int *)dst = x; }
    else { double x; switch (ri(r, 0, 3)) { case 0: x = ri(r, 0, 3000); break; case 1: x = ru(r) * 1e4; break; case 2: x = ru(r) * 1e9; break; default: x = (ru(r) - 0.5) * 100; } sprintf(v, chance(r, 0.5) ? "%.17g" : "%.6e", x); x = g_ascii_strtod(v, NULL); if (o->type == 'd') *(double *)dst = x; else *(float *)dst = (float)(x * o->scale); }
    if (chance(r, 0.5)) g_ptr_array_add(av, g_strdup_printf("--%s=%s", o->opt, v)); else if (v[0] == '-' ) g_ptr_array_add(av, g_strdup_printf("--%s=%s", o->opt, v)); else { g_ptr_array_add(av, g_strdup_printf("--%s", o->opt)); g_ptr_array_add(av, g_strdup(v)); }
    cov("option %s", o->opt); ev("options_given", 1);
  }
  for (guint i = 1; i < av->len; i++) g_string_append_printf(txt, "%s ", (char *)av->pdata[i]); sample("options: %s", txt->str);
  char *err = NULL; bool ok = parse((char **)av->pdata, av->len, &err); if (!ok) fail("rejected", "valid options rejected: %s (%s)", err ? err : "?", txt->str);
  else
  {
    stage("get_user_oi_filter"); oi_filter_spec *u = get_user_oi_filter(); g_string_truncate(why, 0); if (!spec_same(&w, u, why)) fail("parsed", "options %s gave %s", txt->str, why->str);
    if (u->arrname_pttn || u->insname_pttn || u->corrname_pttn) fail("parsed", "parsed filter has compiled patterns");
    stage("format_oi_filter"); expect_filter_text(u, why); const char *t = format_oi_filter(u); if (strcmp(t, why->str)) { int i = 0; while (t[i] && t[i] == why->str[i]) i++; while (i > 0 && why->str[i - 1] != '\n') i--; fail("description", "filter described as '%.60s', should be '%.60s'", t + i, why->str + i); }
    cap_begin(); print_oi_filter(u); cap_end(out, NULL); if (strcmp(out->str, why->str)) fail("description", "printed description differs"); ev("descriptions", 1);
    if (chance(r, 0.4))
    { GenOpt g = gen_opt(r); g.physical = true; g.maxwave = MIN(g.maxwave, 8); oi_fits o, a, b; gen_oi(r, &g, &o); oi_filter_spec us = *u; cap_begin(); stage("apply_user_oi_filter"); apply_user_oi_filter(&o, &a); apply_oi_filter(&o, &us, &b); cap_end(NULL, NULL); g_string_truncate(why, 0); if (!cmp_oi(&a, &b, 0, why)) fail("user-filter", "user filter selects other data than the same specification: %s", why->str); ev("user_filters_applied", 1); free_oi_fits(&a); free_oi_fits(&b); free_oi(&o); }
  }
  g_free(err); err = NULL;
  /* a rejected command line, then defaults again */
  { const Opt *o; do o = &OPTS[ri(r, 3, NOPT - 1)]; while (0); static const char *const BAD[] = {"abc", "1x", "", "--", "0x"}; char b[80]; snprintf(b, sizeof b, "--%s=%s", o->opt, BAD[ri(r, 0, 4)]); if (chance(r, 0.1)) strcpy(b, "--no-such-option=1"); char *bv[] = {"prog", b};
    if (parse(bv, 2, &err)) fail("accepted-invalid", "invalid option %s accepted", b); ev("invalid_rejected", 1); cov("invalid %s", o->opt); g_free(err); err = NULL; }
  { char *bv[] = {"prog"}; filter_defaults(&w); g_string_truncate(why, 0); if (!parse(bv, 1, &err)) fail("rejected", "empty command line rejected"); else if (!spec_same(&w, get_user_oi_filter(), why)) fail("stale-option", "no options given, but %s", why->str); g_free(err); ev("defaults_checked", 1); }
  g_ptr_array_free(av, TRUE); g_string_free(why, TRUE); g_string_free(txt, TRUE); g_string_free(out, TRUE);
}
int parse_options(char **argv, int argc) { char *err = NULL; bool ok = parse(argv, argc, &err); g_free(err); return ok; }
