/* C18: ownership of storage. C20: results do not depend on history or stale memory. */
#define _GNU_SOURCE
#include "mon.h"
#include <fitsio.h>
#include <unistd.h>
#include <sys/stat.h>

/* ---------- live-block accounting (allocator hooks of the sanitizer run time) ---------- */
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
enum { TSZ = 1 << 20 };
typedef struct { uintptr_t p; int op; } Slot;
static Slot *T; static int track, curop; static long nmalloc, nfree, lost;
static size_t hp(uintptr_t p) { return (p >> 4) * 0x9e3779b97f4a7c15ULL >> 44; }
static void on_malloc(const volatile void *q, size_t n)
{ (void)n; if (!track || !q) return; nmalloc++; uintptr_t p = (uintptr_t)q; size_t i = hp(p) & (TSZ - 1); for (int c = 0; c < 4096; c++, i = (i + 1) & (TSZ - 1)) if (T[i].p == 0 || T[i].p == 1 || T[i].p == p) { T[i].p = p; T[i].op = curop; return; } lost++; }
static void on_free(const volatile void *q)
{ if (!T || !q) return; uintptr_t p = (uintptr_t)q; size_t i = hp(p) & (TSZ - 1); for (int c = 0; c < 4096; c++, i = (i + 1) & (TSZ - 1)) { if (T[i].p == p) { T[i].p = 1; nfree++; return; } if (T[i].p == 0) return; } }

/* ---------- operations ---------- */
enum { MAXD = 5 };
typedef struct { oi_fits d[MAXD]; bool mine[MAXD]; int n; } Pool;
static GPtrArray *oplog;
static void op(const char *name) { int t = track; track = 0; stage("%s", name); if (oplog) { curop = oplog->len; g_ptr_array_add(oplog, g_strdup(name)); } track = t; }
static void drop(Rng *r, Pool *P, int i)
{ op("free_oi_fits"); if (P->mine[i] && chance(r, 0.5)) free_oi(&P->d[i]); else free_oi_fits(&P->d[i]); P->d[i] = P->d[P->n - 1]; P->mine[i] = P->mine[P->n - 1]; P->n--; }
static int room(Rng *r, Pool *P) { if (P->n == MAXD) drop(r, P, ri(r, 0, P->n - 1)); return P->n; }
static void fill(int k, void *t)
{ const Desc *d = &DESC[k]; for (int c = 0; c < d->ncol; c++) { const Col *q = &d->col[c]; if (!col_used(k, t, q)) continue; for (long i = 0, n = tab_rows(k, t); i < n; i++) { char *p = cell(k, t, q, i); if (q->t == T_STR) { memset(p, 'z', q->strmax); p[q->strmax] = 0; } else memset(p, 0x11, ft_size(q->t) * (d->columnar ? 1 : col_n(k, t, q))); } } }
static void copies(Rng *r, oi_fits *o)
{
  for (int k = 0; k < NK; k++) for (int i = 0, n = tab_count(o, k); i < n; i++)
  {
    char nm[60]; snprintf(nm, sizeof nm, "dup %s", DESC[k].ext); op(nm); void *t = tab_at(o, k, i); uint64_t d0 = dig_tab(k, t, true); void *c = dup_tab(k, t); GString *why = g_string_new(NULL);
    if (!cmp_tab(k, t, c, 0, why)) fail("copy-differs", "copy of %s differs: %s", DESC[k].ext, why->str);
    if (dig_tab(k, t, true) != d0) fail("copy-changes-original", "copying %s changed it", DESC[k].ext);
    oi_fits x; memset(&x, 0, sizeof x); GHashTable *set = g_hash_table_new_full(NULL, NULL, NULL, g_free); collect_ptrs(o, set, "original"); oi_fits y; memset(&y, 0, sizeof y);
    if (k == K_TARGET) y.targets = *(oi_target *)c; else { GList **l = listp(&y, k); *l = g_list_append(NULL, c); *nump(&y, k) = 1; }
    collect_ptrs(&y, set, "copy"); g_hash_table_destroy(set);
    fill(k, c); if (dig_tab(k, t, true) != d0) fail("copy-shares", "changing a copy of %s changed the original", DESC[k].ext);
    void *c2 = dup_tab(k, c); uint64_t d2 = dig_tab(k, c2, false); if (k) g_list_free(*listp(&y, k)); lib_free_tab(k, c); if (dig_tab(k, c2, false) != d2) fail("copy-shares", "freeing %s changed its copy", DESC[k].ext); lib_free_tab(k, c2);
    g_string_free(why, TRUE); int tr = track; track = 0; ev("copies", 1); cov("copy %s rev %d", DESC[k].ext, tab_revn(k, t)); track = tr;
  }
}
static void fresh_tables(Rng *r)
{
  for (int x = 0; x < 3; x++)
  {
    int k = ri(r, 0, NK - 1); long nr = chance(r, 0.15) ? 0 : ri(r, 1, 5); int nw = chance(r, 0.1) ? 0 : ri(r, 1, 6); void *t = malloc(DESC[k].size); junk_bytes(r, t, DESC[k].size); char nm[60]; snprintf(nm, sizeof nm, "alloc %s", DESC[k].ext); op(nm);
    switch (k) { case K_TARGET: ((oi_target *)t)->usecategory = chance(r, 0.5); alloc_oi_target(t, nr); break; case K_ARRAY: alloc_oi_array(t, nr); break; case K_WAVE: alloc_oi_wavelength(t, nr); break; case K_CORR: ((oi_corr *)t)->corrname[0] = 0; alloc_oi_corr(t, nr); break; case K_INSPOL: alloc_oi_inspol(t, nr, nw); break; case K_VIS: ((oi_vis *)t)->corrname[0] = 0; alloc_oi_vis(t, nr, nw); break; case K_VIS2: ((oi_vis2 *)t)->corrname[0] = 0; alloc_oi_vis2(t, nr, nw); break; case K_T3: ((oi_t3 *)t)->corrname[0] = 0; alloc_oi_t3(t, nr, nw); break; default: ((oi_flux *)t)->corrname[0] = 0; alloc_oi_flux(t, nr, nw); }
    if (tab_rows(k, t) != nr) fail("alloc-size", "alloc of %ld rows of %s recorded %ld", nr, DESC[k].ext, tab_rows(k, t));
    if (k >= K_INSPOL && tab_nwave(k, t) != nw) fail("alloc-size", "alloc of %d channels of %s recorded %d", nw, DESC[k].ext, tab_nwave(k, t));
    if (nw || k < K_INSPOL) fill(k, t); lib_free_tab(k, t); int tr = track; track = 0; ev("tables_allocated", 1); track = tr;
  }
}
/* the script of one case: the same seed always does the same */
static void script(uint64_t seed)
{
  Rng rr, *r = &rr; rng_seed(r, seed, 18, g_case); Pool P = {.n = 0}; int n = ri(r, 2, 9); char p[700]; g_strlcpy(p, spath("s.fits"), sizeof p); int st;
  for (int x = 0; x < n; x++)
  {
    int what = P.n == 0 ? ri(r, 0, 4) : ri(r, 0, 17);
    oi_fits *o = P.n ? &P.d[ri(r, 0, P.n - 1)] : NULL;
    switch (what)
    {
    case 0: { op("generate"); int i = room(r, &P); GenOpt g = gen_opt(r); g.ver = chance(r, 0.25) ? 1 : 2; g.smallpool = chance(r, 0.5); g.maxtab = MIN(g.maxtab, 2); gen_oi(r, &g, &P.d[i]); P.mine[i] = true; P.n++; break; }
    case 1: case 2: case 3: case 4: /* read a good, damaged or odd file */
    {
      int i = room(r, &P); GenOpt g = gen_opt(r); g.ver = chance(r, 0.25) ? 1 : 2; g.maxtab = MIN(g.maxtab, 2); oi_fits a; gen_oi(r, &g, &a); EncOpt e = enc_opt(r, g.ver); bool bad = what >= 3; e.hostile = bad && chance(r, 0.4); if (bad && chance(r, 0.4)) odd_dataset(r, &a); GByteArray *f = enc_fits(r, &a, &e, NULL); GString *log = g_string_new(NULL); if (bad) mutate_file(r, f, log);
      spew(p, f->data, f->len); g_byte_array_free(f, TRUE); free_oi(&a); op(bad ? "read damaged file" : "read_oi_fits"); cap_begin(); oi_hush_errors = chance(r, 0.7); st = do_read(r, p, &P.d[i]); oi_hush_errors = 1; cap_end(NULL, NULL); fits_clear_errmsg(); if (!st) { P.mine[i] = false; P.n++; }
      int t = track; track = 0; ev(bad ? st ? "damaged_failed" : "damaged_read" : "files_read", 1); cov("read %s status %d", bad ? "damaged" : "good", st); track = t;
      if (chance(r, 0.4)) { op("table-level reading"); table_level(r, p); } unlink(p); g_string_free(log, TRUE); break;
    }
    case 5: { op("write_oi_fits"); unlink(p); st = 0; cap_begin(); write_oi_fits(p, *o, &st); cap_end(NULL, NULL); fits_clear_errmsg(); unlink(p); break; }
    case 6: { op("failing write"); st = 0; char *q = spath("none/x.fits"); if (chance(r, 0.5)) { q = p; spew(p, "x", 1); } cap_begin(); write_oi_fits(q, *o, &st); cap_end(NULL, NULL); fits_clear_errmsg(); if (!st) fail("write-succeeded", "write to an impossible path succeeded"); unlink(p); int t = track; track = 0; ev("failed_writes", 1); track = t; break; }
    case 7: { op("failing read"); oi_fits b; char *q = spath("absent.fits"); if (chance(r, 0.6)) { q = p; int m = ri(r, 0, 4000); char *z = malloc(m + 1); junk_bytes(r, z, m); spew(p, z, m); free(z); } cap_begin(); st = do_read(r, q, &b); cap_end(NULL, NULL); fits_clear_errmsg(); unlink(p); if (!st) free_oi_fits(&b); int t = track; track = 0; ev("failed_reads", 1); track = t; break; }
    case 8: case 9: { int from = (int)(o - P.d), i; if (P.n == MAXD) { drop(r, &P, (from + 1) % MAXD); if (from >= P.n) from = P.n - 1; } i = P.n; o = &P.d[from]; op("apply_oi_filter"); oi_filter_spec f; gen_filter(r, o, &f); if (chance(r, 0.2)) init_oi_filter(&f); do_filter(r, o, &f, &P.d[i]); P.mine[i] = false; P.n++; int t = track; track = 0; ev("filters", 1); track = t; break; }
    case 10: case 11: { int from = (int)(o - P.d), i; if (P.n == MAXD) { drop(r, &P, (from + 1) % MAXD); if (from >= P.n) from = P.n - 1; } i = P.n; op("merge_oi_fits"); junk_bytes(r, &P.d[i], sizeof P.d[i]); cap_begin(); GList *l = NULL; int m = ri(r, 1, 4); for (int q = 0; q < m; q++) l = g_list_append(l, &P.d[ri(r, 0, i - 1)]); merge_oi_fits_list(l, &P.d[i]); g_list_free(l); cap_end(NULL, NULL); P.mine[i] = false; P.n++; int t = track; track = 0; ev("merges", 1); track = t; break; }
    case 12: copies(r, o); break;
    case 13: fresh_tables(r); break;
    case 14: { op("checks"); oi_check_result res; junk_bytes(r, &res, sizeof res); for (int q = 0, m = ri(r, 1, 6); q < m; q++) { int c = ri(r, 0, NCHECK - 1); CHECK_FN[c](o, &res); format_check_result(&res); cap_begin(); print_check_result(&res); cap_end(NULL, NULL); free_check_result(&res); } int t = track; track = 0; ev("check_results", 1); track = t; break; }
    case 15: { op("summary, lookups and filter text"); format_oi_fits_summary(o); cap_begin(); print_oi_fits_summary(o); oi_filter_spec f; gen_filter(r, o, &f); format_oi_filter(&f); print_oi_filter(&f); cap_end(NULL, NULL); char *av[] = {"prog", "--arrname=A*", "--insname", "b", "--wave-max=900", "--target-id=1"}; int na = ri(r, 1, 6); if (na == 3) na = 2; parse_options(av, na); if (chance(r, 0.5)) { oi_fits b; cap_begin(); apply_user_oi_filter(o, &b); cap_end(NULL, NULL); free_oi_fits(&b); } break; }
    case 16: { op("set_oi_header and upgrades"); set_oi_header(o); for (int k = 0; k < NK; k++) for (int i = 0, m = tab_count(o, k); i < m; i++) { void *t = tab_at(o, k, i); switch (k) { case K_TARGET: upgrade_oi_target(t); break; case K_ARRAY: upgrade_oi_array(t); break; case K_WAVE: upgrade_oi_wavelength(t); break; case K_VIS: upgrade_oi_vis(t); break; case K_VIS2: upgrade_oi_vis2(t); break; case K_T3: upgrade_oi_t3(t); break; } } break; }
    case 17: if (chance(r, 0.5)) { op("every operation"); oi_fits c; copy_oi(o, &c); rehash(&c); exercise(r, &c, ""); free_oi(&c); } else drop(r, &P, (int)(o - P.d)); break;
    }
    /* live datasets are disjoint and intact */
    if (P.n > 1) { GHashTable *set = g_hash_table_new_full(NULL, NULL, NULL, g_free); for (int i = 0; i < P.n; i++) collect_ptrs(&P.d[i], set, "dataset"); int t = track; track = 0; ev("live_blocks_compared", g_hash_table_size(set)); track = t; g_hash_table_destroy(set); }
  }
  while (P.n) drop(r, &P, ri(r, 0, P.n - 1));
}
/* the library function that allocated a block, or NULL when no library function was involved */
int __asan_get_alloc_stack(void *, void **, size_t, uint32_t *); void __sanitizer_symbolize_pc(void *, const char *, char *, size_t);
static char *culprit(void *p)
{
  void *tr[40]; uint32_t th; int n = __asan_get_alloc_stack(p, tr, 40, &th);
  for (int i = 0; i < n; i++) { char b[600]; __sanitizer_symbolize_pc(tr[i], "%f %s", b, sizeof b); if (strstr(b, "/src/oifitslib/") && !strstr(b, "chkmalloc.c") && !strstr(b, "alloc_fits.c")) { *strchr(b, ' ') = 0; return g_strdup(b); } }
  return NULL;
}
void c18(Rng *r)
{
  uint64_t seed = rnd(r); if (!T) { T = calloc(TSZ, sizeof *T); __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
  g_sink = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, NULL); GHashTable *sink = g_sink; GPtrArray *leaks[3]; long m0 = nmalloc;
  for (int pass = 0; pass < 3; pass++)
  {
    oplog = g_ptr_array_new_with_free_func(g_free); curop = 0; track = pass > 0; script(seed); track = 0; leaks[pass] = g_ptr_array_new_with_free_func(g_free);
    if (pass) for (int i = 0; i < TSZ; i++) if (T[i].p) { if (T[i].p > 1) { char *w = culprit((void *)T[i].p); if (w) g_ptr_array_add(leaks[pass], g_strdup_printf("%s during %s", w, oplog->len ? (char *)oplog->pdata[T[i].op] : "?")); else ev("harness_blocks", 1); g_free(w); } T[i].p = 0; }
    if (pass == 1) { GString *s = g_string_new(NULL); for (guint i = 0; i < oplog->len; i++) g_string_append_printf(s, "%s; ", (char *)oplog->pdata[i]); sample("%s", s->str); g_string_free(s, TRUE); }
    g_ptr_array_free(oplog, TRUE); oplog = NULL; if (pass == 1 && !leaks[1]->len) { pass++; leaks[2] = g_ptr_array_new_with_free_func(g_free); }
  }
  ev("blocks_tracked", nmalloc - m0); if (lost) { ev("blocks_not_tracked", lost); lost = 0; }
  if (leaks[1]->len && leaks[2]->len) for (guint i = 0; i < leaks[2]->len; i++) { bool both = false, seen = false; for (guint j = 0; j < leaks[1]->len; j++) if (!strcmp(leaks[1]->pdata[j], leaks[2]->pdata[i])) both = true; for (guint j = 0; j < i; j++) if (!strcmp(leaks[2]->pdata[j], leaks[2]->pdata[i])) seen = true; if (both && !seen) { char key[100]; int n = 0; for (guint j = 0; j < leaks[2]->len; j++) n += !strcmp(leaks[2]->pdata[j], leaks[2]->pdata[i]); snprintf(key, sizeof key, "leak@%s", (char *)leaks[2]->pdata[i]); fail(key, "%d blocks allocated during '%s' are never freed, every time the sequence is run", n, (char *)leaks[2]->pdata[i]); } }
  g_ptr_array_free(leaks[0], TRUE); g_ptr_array_free(leaks[1], TRUE); g_ptr_array_free(leaks[2], TRUE); g_sink = NULL; g_hash_table_destroy(sink);
}

/* ---------- C20 ---------- */
static uint64_t file_digest(const char *p)
{
  GByteArray *b = g_byte_array_new(); slurp(p, b); for (size_t i = 0; i + 80 <= b->len; i += 80) if (!memcmp(b->data + i, "DATE    =", 9) || !memcmp(b->data + i, "CHECKSUM=", 9) || !memcmp(b->data + i, "DATASUM =", 9)) memset(b->data + i, ' ', 80);
  uint64_t h = fnv(FNV0, b->data, b->len); g_byte_array_free(b, TRUE); return h;
}
static void suite(uint64_t seed)
{
  Rng rr, *r = &rr; rng_seed(r, seed, 20, 1); char p[700]; g_strlcpy(p, spath("q.fits"), sizeof p); GString *out = g_string_new(NULL), *err = g_string_new(NULL);
  GenOpt g = gen_opt(r); g.ver = chance(r, 0.3) ? 1 : 2; g.smallpool = chance(r, 0.5); g.maxtab = MIN(g.maxtab, 2); oi_fits a, b; gen_oi(r, &g, &a); if (chance(r, 0.3)) odd_dataset(r, &a);
  { int st = 0; unlink(p); stage("write"); cap_begin(); write_oi_fits(p, a, &st); cap_end(NULL, NULL); fits_clear_errmsg(); digest_out("write status", st); if (!st) { digest_out("file", file_digest(p)); ev("files_compared", 1); } unlink(p); }
  EncOpt e = enc_opt(r, g.ver); e.hostile = chance(r, 0.2); GByteArray *f = enc_fits(r, &a, &e, NULL); free_oi(&a); GString *log = g_string_new(NULL); if (chance(r, 0.4)) mutate_file(r, f, log); spew(p, f->data, f->len); g_byte_array_free(f, TRUE); g_string_free(log, TRUE);
  oi_hush_errors = 0; cap_begin(); int st = do_read(r, p, &b); cap_end(out, err); fits_clear_errmsg(); oi_hush_errors = 1; digest_out("read status", st); g_string_replace(out, g_scratch, "", 0); g_string_replace(err, g_scratch, "", 0); if (getenv("OIMON_SHOW")) fprintf(stderr, "<<%s|%s>>\n", out->str, err->str); digest_out("read output", fnv(fnv(FNV0, out->str, out->len), err->str, err->len));
  if (!st) { digest_out("read", dig_oi(&b, false)); exercise(r, &b, ""); free_oi_fits(&b); ev("datasets_compared", 1); } else ev("failed_reads_compared", 1);
  table_level(r, p); unlink(p);
  { char *av[] = {"prog", "--arrname=A*", "--insname", "b", "--wave-max=900", "--target-id=1"}; int na = ri(r, 1, 6); if (na == 3) na = 2; digest_out("options", parse_options(av, na)); const char *t = format_oi_filter(get_user_oi_filter()); digest_out("option text", fnv(FNV0, t, strlen(t))); }
  { long y = ri(r, 1901, 2099), m = ri(r, 1, 12), d = ri(r, 1, 28), y2, m2, d2; long mjd = date2mjd(y, m, d); mjd2date(mjd, &y2, &m2, &d2); digest_out("dates", mjd * 31 + y2 * 7 + m2 * 3 + d2); }
  g_string_free(out, TRUE); g_string_free(err, TRUE);
}
static void noise(Rng *r)
{
  for (int i = 0, n = ri(r, 1, 3); i < n; i++)
    if (chance(r, 0.3)) { oi_fits b; char *q = spath("absent.fits"); stage("failing read"); cap_begin(); oi_hush_errors = chance(r, 0.5); do_read(r, q, &b); oi_hush_errors = 1; if (chance(r, 0.5)) fits_clear_errmsg(); cap_end(NULL, NULL); cov("failed read before"); }
    else if (chance(r, 0.4)) { script(rnd(r)); cov("random sequence before"); }
    else { suite(rnd(r)); cov("other operations before"); }
}
/* the same storage with changed contents must give what fresh storage with these contents gives */
static void swapstr(char *a, char *b) { char t[FLEN_VALUE]; memcpy(t, a, FLEN_VALUE); memcpy(a, b, FLEN_VALUE); memcpy(b, t, FLEN_VALUE); }
static char *keyname(int k, void *t) { return k == K_ARRAY ? ((oi_array *)t)->arrname : k == K_WAVE ? ((oi_wavelength *)t)->insname : ((oi_corr *)t)->corrname; }
static void in_place(Rng *r)
{
  GenOpt g = gen_opt(r); g.smallpool = true; g.maxtab = MAX(2, MIN(g.maxtab, 3)); g.ver = chance(r, 0.2) ? 1 : 2; oi_fits a, b; gen_oi(r, &g, &a); if (chance(r, 0.2)) odd_dataset(r, &a); GHashTable *s[3];
  for (int x = 0; x < 3; x++) s[x] = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, NULL);
  g_sink = s[0]; exercise(r, &a, ""); g_sink = NULL;
  for (int x = 0, n = ri(r, 1, 4); x < n; x++)
  {
    int k = ri(r, K_ARRAY, K_CORR), c = tab_count(&a, k);
    switch (ri(r, 0, 6))
    {
    case 0: case 1: if (c > 1) { swapstr(keyname(k, tab_at(&a, k, 0)), keyname(k, tab_at(&a, k, c - 1))); cov("names swapped %s", DESC[k].ext); } break;
    case 2: { GList **l = listp(&a, k); *l = g_list_reverse(*l); cov("tables reversed %s", DESC[k].ext); break; }
    case 3: for (GList *l = a.arrayList; l; l = l->next) { oi_array *A = l->data; for (int i = 0, j = A->nelement - 1; i < j; i++, j--) { int t = A->elem[i].sta_index; A->elem[i].sta_index = A->elem[j].sta_index; A->elem[j].sta_index = t; } } cov("stations renumbered"); break;
    case 4: for (int i = 0, j = a.targets.ntarget - 1; i < j; i++, j--) { target t = a.targets.targ[i]; a.targets.targ[i] = a.targets.targ[j]; a.targets.targ[j] = t; } cov("targets reversed"); break;
    case 5: if (c) { char *q = keyname(k, tab_at(&a, k, ri(r, 0, c - 1))); q[0] = q[0] == 'Q' ? 'R' : 'Q'; cov("renamed %s", DESC[k].ext); } break;
    case 6: for (GList *l = a.wavelengthList; l; l = l->next) { oi_wavelength *w = l->data; for (int i = 0; i < w->nwave; i++) w->eff_wave[i] *= 1.1f; } cov("wavelengths changed"); break;
    }
  }
  rehash(&a); copy_oi(&a, &b); rehash(&b); Rng r1 = *r, r2 = *r; (void)rnd(r);
  g_sink = s[1]; exercise(&r1, &a, ""); g_sink = s[2]; exercise(&r2, &b, ""); g_sink = NULL;
  GHashTableIter it; gpointer k, v; g_hash_table_iter_init(&it, s[2]); while (g_hash_table_iter_next(&it, &k, &v)) { if (g_hash_table_lookup(s[1], k) != v) { char key[100]; snprintf(key, sizeof key, "storage-differs:%s", (char *)k); fail(key, "result '%s' differs between a dataset changed in place and an equal one in fresh storage", (char *)k); } ev("in_place_results_compared", 1); }
  free_oi(&a); free_oi(&b); for (int x = 0; x < 3; x++) g_hash_table_destroy(s[x]);
}
void c20(Rng *r)
{ g_clock = 1600000000;
  if (chance(r, 0.3)) { Rng q = *r; q.s[0] ^= 0x5bd1e995; (void)rnd(&q); in_place(&q); }
  uint64_t seed = rnd(r); GHashTable *s[3]; GenOpt g = gen_opt(r); oi_fits u; gen_oi(r, &g, &u); int st = 0; char *p = g_strdup(spath("unrelated.fits")); cap_begin(); write_oi_fits(p, u, &st); oi_fits v; bool have = !st && !do_read(r, p, &v); cap_end(NULL, NULL); fits_clear_errmsg(); uint64_t du = dig_oi(&u, true), dv = have ? dig_oi(&v, true) : 0, df = file_digest(p);
  for (int x = 0; x < 3; x++)
  {
    s[x] = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, NULL);
    if (x == 1) { GHashTable *t = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, NULL); g_sink = t; noise(r); g_sink = NULL; g_hash_table_destroy(t); }
    if (x == 2 && !chance(r, 0.3)) break;
    g_salt = x * 0x9e3779b97f4a7c15ULL; g_sink = s[x]; suite(seed); g_sink = NULL; g_salt = 0;
    if (x) { GHashTableIter it; gpointer k, val; if (g_hash_table_size(s[x]) != g_hash_table_size(s[0])) fail("repeat-differs", "a repeated operation gave %d results instead of %d", g_hash_table_size(s[x]), g_hash_table_size(s[0])); g_hash_table_iter_init(&it, s[0]); while (g_hash_table_iter_next(&it, &k, &val)) { if (g_hash_table_lookup(s[x], k) != val) { char key[100]; snprintf(key, sizeof key, "repeat-differs:%s", (char *)k); fail(key, "result '%s' of an operation on the same input differs when the operation is repeated later", (char *)k); } ev("results_compared", 1); } }
  }
  stage("unrelated objects"); if (dig_oi(&u, true) != du) fail("unrelated-changed", "an unrelated dataset changed"); if (have && dig_oi(&v, true) != dv) fail("unrelated-changed", "an unrelated dataset that had been read changed"); if (file_digest(p) != df) fail("unrelated-changed", "an unrelated file changed (write status %d)", st);
  { GHashTableIter it; gpointer k, val; g_hash_table_iter_init(&it, s[0]); while (g_hash_table_iter_next(&it, &k, &val)) digest_out(k, GPOINTER_TO_SIZE(val)); }
  if (have) free_oi_fits(&v); free_oi(&u); g_free(p); g_hash_table_destroy(s[0]); g_hash_table_destroy(s[1]); if (s[2]) g_hash_table_destroy(s[2]);
}
