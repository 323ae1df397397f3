From 3f9a4061bf1f3c9d351b3d234a0c1f82f21296f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:12 +0000
Subject: [PATCH 01/47] fix: dup_oi_vis copied RVISERR into IVISERR

---
 src/oifitslib/oifile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 43e1152..30d9fe6 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -1335,7 +1335,7 @@ oi_vis *dup_oi_vis(const oi_vis *pInTab)
              pInTab->nwave * sizeof(pInRec->rviserr[0]));
       MEMDUP(pOutRec->ivis, pInRec->ivis,
              pInTab->nwave * sizeof(pInRec->ivis[0]));
-      MEMDUP(pOutRec->iviserr, pInRec->rviserr,
+      MEMDUP(pOutRec->iviserr, pInRec->iviserr,
              pInTab->nwave * sizeof(pInRec->iviserr[0]));
     }
   }
-- 
2.43.0


From 60406205833637b50d71fd76832628a24ec29454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:12 +0000
Subject: [PATCH 02/47] fix: read OI_INSPOL Jones matrix columns as complex
 values

---
 src/oifitslib/read_fits.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index ab3255f..d5e797c 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -634,16 +634,16 @@ static STATUS read_oi_inspol_chdu(fitsfile *fptr, oi_inspol *pInspol,
     fits_read_col(fptr, TDOUBLE, colnum, irow, 1, 1, NULL,
                   &pInspol->record[irow - 1].mjd_end, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JXX", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jxx, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JYY", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jyy, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JXY", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jxy, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JYX", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jyx, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "STA_INDEX", &colnum, pStatus);
     fits_read_col(fptr, TINT, colnum, irow, 1, 1, NULL,
-- 
2.43.0


From 265db50bebc2da46893946163605e5c978278930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:12 +0000
Subject: [PATCH 03/47] fix: make_tform aborted for repeat counts above 9999

---
 src/oifitslib/write_fits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/write_fits.c b/src/oifitslib/write_fits.c
index bdd8cb4..472a360 100644
--- a/src/oifitslib/write_fits.c
+++ b/src/oifitslib/write_fits.c
@@ -54,7 +54,7 @@ char **make_tform(const char **template, int n, int value)
   {
     if (template[i][0] == '?')
     {
-      size = strlen(template[i]) + 4; /* allow for extra digits + \0 */
+      size = strlen(template[i]) + 12; /* allow for extra digits + \0 */
       tform[i] = chkmalloc(size);
       needed = snprintf(tform[i], size, "%d%s", value, &template[i][1]);
       assert(needed < size); /* fails if string was truncated */
-- 
2.43.0


From 34ea3811d41a533ef0cf13d93936c882608e20f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:12 +0000
Subject: [PATCH 04/47] fix: reading a table by name stopped at any image or
 ASCII table HDU

---
 src/oifitslib/read_fits.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index d5e797c..dc39011 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -349,10 +349,9 @@ static STATUS specific_named_hdu(fitsfile *fptr, const char *reqName,
         fits_clear_errmark();
         continue; /* next HDU */
       }
-      if (strcmp(extname, reqName) != 0 || strcmp(value, reqVal) != 0)
-        continue; /* next HDU */
+      if (strcmp(extname, reqName) == 0 && strcmp(value, reqVal) == 0)
+        break; /* current HDU matches */
     }
-    break; /* current HDU matches */
   }
   if (ihdu > nhdu)
   {
-- 
2.43.0


From 14d4a5e8cbe2128ff4b28fd29e9243b166c8463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:12 +0000
Subject: [PATCH 05/47] fix: complexunit was left uninitialised when reading a
 v1 OI_VIS table

---
 src/oifitslib/read_fits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index dc39011..2d5d5d9 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -1120,6 +1120,7 @@ static STATUS read_oi_vis_opt(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
     pVis->phiorder = -1;
     pVis->usevisrefmap = FALSE;
     pVis->usecomplex = FALSE;
+    pVis->complexunit[0] = '\0';
     return *pStatus;
   }
 
-- 
2.43.0


From c724c962888cab89fe26dea161e3f1b618d9464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:41 +0000
Subject: [PATCH 06/47] fix: a truncated table was mistaken for the end of the
 list of tables

---
 src/oifitslib/read_fits.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 2d5d5d9..b46c6e2 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -310,6 +310,19 @@ static STATUS next_named_hdu(fitsfile *fptr, const char *reqName,
   return *pStatus;
 }
 
+/**
+ * Convert an end-of-file error raised while reading a table, i.e. because the
+ * file is truncated, to a read error.
+ *
+ * The functions that read the next table of a given type use END_OF_FILE to
+ * signal that there are no more tables.
+ */
+static STATUS truncated_to_error(STATUS *pStatus)
+{
+  if (*pStatus == END_OF_FILE) *pStatus = READ_ERROR;
+  return *pStatus;
+}
+
 /**
  * Move to first binary table HDU with specified EXTNAME and keyword=value.
  *
@@ -873,6 +886,7 @@ STATUS read_next_oi_array(fitsfile *fptr, oi_array *pArray, STATUS *pStatus)
   if (*pStatus == END_OF_FILE) return *pStatus; /* don't report EOF to stderr */
   verify_chksum(fptr, pStatus);
   read_oi_array_chdu(fptr, pArray, NULL, pStatus);
+  truncated_to_error(pStatus);
 
   if (*pStatus && !oi_hush_errors)
   {
@@ -933,6 +947,7 @@ STATUS read_next_oi_wavelength(fitsfile *fptr, oi_wavelength *pWave,
   if (*pStatus == END_OF_FILE) return *pStatus; /* don't report EOF to stderr */
   verify_chksum(fptr, pStatus);
   read_oi_wavelength_chdu(fptr, pWave, NULL, pStatus);
+  truncated_to_error(pStatus);
 
   if (*pStatus && !oi_hush_errors)
   {
@@ -992,6 +1007,7 @@ STATUS read_next_oi_corr(fitsfile *fptr, oi_corr *pCorr, STATUS *pStatus)
   if (*pStatus == END_OF_FILE) return *pStatus; /* don't report EOF to stderr */
   verify_chksum(fptr, pStatus);
   read_oi_corr_chdu(fptr, pCorr, NULL, pStatus);
+  truncated_to_error(pStatus);
 
   if (*pStatus && !oi_hush_errors)
   {
@@ -1021,6 +1037,7 @@ STATUS read_next_oi_inspol(fitsfile *fptr, oi_inspol *pInspol, STATUS *pStatus)
   if (*pStatus == END_OF_FILE) return *pStatus; /* don't report EOF to stderr */
   verify_chksum(fptr, pStatus);
   read_oi_inspol_chdu(fptr, pInspol, pStatus);
+  truncated_to_error(pStatus);
 
   if (*pStatus && !oi_hush_errors)
   {
@@ -1267,6 +1284,7 @@ STATUS read_next_oi_vis(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
   read_oi_vis_opt(fptr, pVis, pStatus);
 
 except:
+  truncated_to_error(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -1381,6 +1399,7 @@ STATUS read_next_oi_vis2(fitsfile *fptr, oi_vis2 *pVis2, STATUS *pStatus)
   }
 
 except:
+  truncated_to_error(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "FITSIO error in %s:\n", function);
@@ -1511,6 +1530,7 @@ STATUS read_next_oi_t3(fitsfile *fptr, oi_t3 *pT3, STATUS *pStatus)
   }
 
 except:
+  truncated_to_error(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -1631,6 +1651,7 @@ STATUS read_next_oi_flux(fitsfile *fptr, oi_flux *pFlux, STATUS *pStatus)
   }
 
 except:
+  truncated_to_error(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
-- 
2.43.0


From 3f554f5f5d2aefecab6a903dd2e0a6280c360ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:20 +0000
Subject: [PATCH 07/47] fix: a missing mandatory column was ignored if an
 optional one was looked up next

---
 src/oifitslib/read_fits.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index b46c6e2..411de63 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -1161,6 +1161,7 @@ static STATUS read_oi_vis_opt(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
                     &pVis->record[irow - 1].corrindx_visphi, &anynull, pStatus);
     }
   }
+  if (*pStatus) return *pStatus;
   fits_write_errmark();
   fits_get_colnum(fptr, CASEINSEN, "VISREFMAP", &colnum, pStatus);
   if (*pStatus == COL_NOT_FOUND)
@@ -1627,6 +1628,7 @@ STATUS read_next_oi_flux(fitsfile *fptr, oi_flux *pFlux, STATUS *pStatus)
     fits_get_colnum(fptr, CASEINSEN, "FLAG", &colnum, pStatus);
     fits_read_col(fptr, TLOGICAL, colnum, irow, 1, pFlux->nwave, NULL,
                   pFlux->record[irow - 1].flag, &anynull, pStatus);
+    if (*pStatus) break; /* failed to read mandatory column */
     /* read optional columns */
     fits_write_errmark();
     fits_get_colnum(fptr, CASEINSEN, "STA_INDEX", &colnum, pStatus);
-- 
2.43.0


From 034ba04728961a9ce6e408d84601f0841559a459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:41 +0000
Subject: [PATCH 08/47] fix: free the storage allocated for a table that could
 not be read

---
 src/oifitslib/read_fits.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 411de63..82e2d1c 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -145,7 +145,8 @@ static bool read_col_string(fitsfile *fptr, bool optional, char *colname,
   }
   else
   {
-    fits_get_coltype(fptr, colnum, &typecode, &actualRepeat, NULL, pStatus);
+    if (fits_get_coltype(fptr, colnum, &typecode, &actualRepeat, NULL, pStatus))
+      return FALSE;
     if (typecode != TSTRING)
     {
       *pStatus = BAD_BTABLE_FORMAT;
@@ -199,7 +200,8 @@ static bool read_col_string_truncate(fitsfile *fptr, bool optional,
   }
   else
   {
-    fits_get_coltype(fptr, colnum, &typecode, &actualRepeat, NULL, pStatus);
+    if (fits_get_coltype(fptr, colnum, &typecode, &actualRepeat, NULL, pStatus))
+      return FALSE;
     if (typecode != TSTRING)
     {
       *pStatus = BAD_BTABLE_FORMAT;
@@ -211,7 +213,10 @@ static bool read_col_string_truncate(fitsfile *fptr, bool optional,
     char *longvalue = chkmalloc(actualRepeat + 1);
     if (fits_read_col(fptr, TSTRING, colnum, irow, 1, 1, NULL, &longvalue,
                       &anynull, pStatus))
+    {
+      free(longvalue);
       return FALSE;
+    }
     int i;
     for (i = 0; longvalue[i] != '\0' && i < maxRepeat; i++)
     {
@@ -465,6 +470,7 @@ static STATUS read_oi_array_chdu(fitsfile *fptr, oi_array *pArray,
            pArray->elem[irow-1].diameter, pArray->elem[irow-1].staxyz[0],
            pArray->elem[irow-1].staxyz[1], pArray->elem[irow-1].staxyz[2]);*/
   }
+  if (*pStatus) free_oi_array(pArray);
   return *pStatus;
 }
 
@@ -522,6 +528,7 @@ static STATUS read_oi_wavelength_chdu(fitsfile *fptr, oi_wavelength *pWave,
   fits_get_colnum(fptr, CASEINSEN, "EFF_BAND", &colnum, pStatus);
   fits_read_col(fptr, TFLOAT, colnum, 1, 1, pWave->nwave, NULL, pWave->eff_band,
                 &anynull, pStatus);
+  if (*pStatus) free_oi_wavelength(pWave);
   return *pStatus;
 }
 
@@ -583,6 +590,7 @@ static STATUS read_oi_corr_chdu(fitsfile *fptr, oi_corr *pCorr,
   fits_get_colnum(fptr, CASEINSEN, "CORR", &colnum, pStatus);
   fits_read_col(fptr, TDOUBLE, colnum, 1, 1, pCorr->ncorr, NULL, pCorr->corr,
                 &anynull, pStatus);
+  if (*pStatus) free_oi_corr(pCorr);
   return *pStatus;
 }
 
@@ -661,6 +669,7 @@ static STATUS read_oi_inspol_chdu(fitsfile *fptr, oi_inspol *pInspol,
     fits_read_col(fptr, TINT, colnum, irow, 1, 1, NULL,
                   &pInspol->record[irow - 1].sta_index, &anynull, pStatus);
   }
+  if (*pStatus) free_oi_inspol(pInspol);
   return *pStatus;
 }
 
@@ -826,6 +835,7 @@ STATUS read_oi_target(fitsfile *fptr, oi_target *pTargets, STATUS *pStatus)
     /* ignore CATEGORY column in revision 1 table */
     pTargets->usecategory = FALSE;
   }
+  if (*pStatus) free_oi_target(pTargets);
 
 except:
   if (*pStatus && !oi_hush_errors)
@@ -1283,6 +1293,7 @@ STATUS read_next_oi_vis(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
                   pVis->record[irow - 1].flag, &anynull, pStatus);
   }
   read_oi_vis_opt(fptr, pVis, pStatus);
+  if (*pStatus) free_oi_vis(pVis);
 
 except:
   truncated_to_error(pStatus);
@@ -1398,6 +1409,7 @@ STATUS read_next_oi_vis2(fitsfile *fptr, oi_vis2 *pVis2, STATUS *pStatus)
                     pStatus);
     }
   }
+  if (*pStatus) free_oi_vis2(pVis2);
 
 except:
   truncated_to_error(pStatus);
@@ -1529,6 +1541,7 @@ STATUS read_next_oi_t3(fitsfile *fptr, oi_t3 *pT3, STATUS *pStatus)
                     &pT3->record[irow - 1].corrindx_t3phi, &anynull, pStatus);
     }
   }
+  if (*pStatus) free_oi_t3(pT3);
 
 except:
   truncated_to_error(pStatus);
@@ -1651,6 +1664,7 @@ STATUS read_next_oi_flux(fitsfile *fptr, oi_flux *pFlux, STATUS *pStatus)
                     pStatus);
     }
   }
+  if (*pStatus) free_oi_flux(pFlux);
 
 except:
   truncated_to_error(pStatus);
-- 
2.43.0


From 9f7b81d4b6c27e2b1dc76cd4026ab35e2d000a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 09/47] fix: read_oi_fits leaked everything read so far on
 error

---
 src/oifitslib/oifile.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 30d9fe6..16f3b94 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -687,6 +687,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
   char desc[FLEN_STATUS];
   fitsfile *fptr = NULL;
   int hdutype;
+  gboolean initialised = FALSE;
   oi_array *pArray;
   oi_wavelength *pWave;
   oi_corr *pCorr;
@@ -714,13 +715,18 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
   pOi->vis2List = NULL;
   pOi->t3List = NULL;
   pOi->fluxList = NULL;
+  pOi->targets.targ = NULL;
+  initialised = TRUE;
 
   /* Read primary header keywords */
   read_oi_header(fptr, &pOi->header, pStatus);
 
   /* Read compulsory OI_TARGET table */
-  read_oi_target(fptr, &pOi->targets, pStatus);
-  if (*pStatus) goto except;
+  if (read_oi_target(fptr, &pOi->targets, pStatus))
+  {
+    pOi->targets.targ = NULL; /* not allocated on error */
+    goto except;
+  }
 
   /* Read all OI_ARRAY tables */
   pOi->numArray = 0;
@@ -967,6 +973,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
 
 except:
   if (fptr) fits_close_file(fptr, pStatus);
+  if (*pStatus && initialised) free_oi_fits(pOi);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
-- 
2.43.0


From 32f16e8e89971d833a57c6d0ab53c436e12d28f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 10/47] fix: tables not referenced by OI_VIS, OI_VIS2 or OI_T3
 could not be looked up

---
 src/oifitslib/oifile.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 16f3b94..afc587d 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -738,6 +738,8 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
     if (read_next_oi_array(fptr, pArray, pStatus)) break; /* no more OI_ARRAY */
     pOi->arrayList = g_list_append(pOi->arrayList, pArray);
     ++pOi->numArray;
+    if (!g_hash_table_lookup(pOi->arrayHash, pArray->arrname))
+      g_hash_table_insert(pOi->arrayHash, pArray->arrname, pArray);
   }
   free(pArray);
   if (*pStatus != END_OF_FILE) goto except;
@@ -755,6 +757,8 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
       break; /* no more OI_WAVELENGTH */
     pOi->wavelengthList = g_list_append(pOi->wavelengthList, pWave);
     ++pOi->numWavelength;
+    if (!g_hash_table_lookup(pOi->wavelengthHash, pWave->insname))
+      g_hash_table_insert(pOi->wavelengthHash, pWave->insname, pWave);
   }
   free(pWave);
   if (*pStatus != END_OF_FILE) goto except;
@@ -784,6 +788,8 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
     }
     pOi->corrList = g_list_append(pOi->corrList, pCorr);
     ++pOi->numCorr;
+    if (!g_hash_table_lookup(pOi->corrHash, pCorr->corrname))
+      g_hash_table_insert(pOi->corrHash, pCorr->corrname, pCorr);
   }
 
   /* Read all OI_INSPOL tables, skipping over failed tables */
-- 
2.43.0


From edd6715313c7b57fe0498286d47be9d0cc693689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:04 +0000
Subject: [PATCH 11/47] fix: tables without rows caused an abort

---
 src/oifitslib/alloc_fits.c | 74 +++++++++++++++++++++-----------------
 src/oifitslib/oifile.h     |  5 +--
 src/oifitslib/read_fits.c  |  6 ++--
 3 files changed, 49 insertions(+), 36 deletions(-)

diff --git a/src/oifitslib/alloc_fits.c b/src/oifitslib/alloc_fits.c
index c826dcd..4e6e8ee 100644
--- a/src/oifitslib/alloc_fits.c
+++ b/src/oifitslib/alloc_fits.c
@@ -26,6 +26,16 @@
 #include "exchange.h"
 #include "chkmalloc.h"
 
+/**
+ * Allocate storage for array of @a num items of @a size bytes.
+ *
+ * Allocates space for one item if @a num is zero, i.e. for an empty table.
+ */
+static void *alloc_items(long num, size_t size)
+{
+  return chkmalloc((num > 0 ? num : 1) * size);
+}
+
 /**
  * Allocate storage within oi_array struct
  *
@@ -36,7 +46,7 @@
  */
 void alloc_oi_array(oi_array *pArray, int nelement)
 {
-  pArray->elem = chkmalloc(nelement * sizeof(element));
+  pArray->elem = alloc_items(nelement, sizeof(element));
   pArray->nelement = nelement;
 }
 
@@ -50,7 +60,7 @@ void alloc_oi_array(oi_array *pArray, int nelement)
  */
 void alloc_oi_target(oi_target *pTargets, int ntarget)
 {
-  pTargets->targ = chkmalloc(ntarget * sizeof(target));
+  pTargets->targ = alloc_items(ntarget, sizeof(target));
   pTargets->ntarget = ntarget;
 }
 
@@ -64,8 +74,8 @@ void alloc_oi_target(oi_target *pTargets, int ntarget)
  */
 void alloc_oi_wavelength(oi_wavelength *pWave, int nwave)
 {
-  pWave->eff_wave = chkmalloc(nwave * sizeof(pWave->eff_band[0]));
-  pWave->eff_band = chkmalloc(nwave * sizeof(pWave->eff_band[0]));
+  pWave->eff_wave = alloc_items(nwave, sizeof(pWave->eff_band[0]));
+  pWave->eff_band = alloc_items(nwave, sizeof(pWave->eff_band[0]));
   pWave->nwave = nwave;
 }
 
@@ -79,9 +89,9 @@ void alloc_oi_wavelength(oi_wavelength *pWave, int nwave)
  */
 void alloc_oi_corr(oi_corr *pCorr, int ncorr)
 {
-  pCorr->iindx = chkmalloc(ncorr * sizeof(pCorr->iindx[0]));
-  pCorr->jindx = chkmalloc(ncorr * sizeof(pCorr->jindx[0]));
-  pCorr->corr = chkmalloc(ncorr * sizeof(pCorr->corr[0]));
+  pCorr->iindx = alloc_items(ncorr, sizeof(pCorr->iindx[0]));
+  pCorr->jindx = alloc_items(ncorr, sizeof(pCorr->jindx[0]));
+  pCorr->corr = alloc_items(ncorr, sizeof(pCorr->corr[0]));
   pCorr->ncorr = ncorr;
 }
 
@@ -99,14 +109,14 @@ void alloc_oi_inspol(oi_inspol *pInspol, long numrec, int nwave)
   int i;
   oi_inspol_record *pRec;
 
-  pInspol->record = chkmalloc(numrec * sizeof(oi_inspol_record));
+  pInspol->record = alloc_items(numrec, sizeof(oi_inspol_record));
   for (i = 0; i < numrec; i++)
   {
     pRec = &pInspol->record[i];
-    pRec->jxx = chkmalloc(nwave * sizeof(pRec->jxx[0]));
-    pRec->jyy = chkmalloc(nwave * sizeof(pRec->jyy[0]));
-    pRec->jxy = chkmalloc(nwave * sizeof(pRec->jxy[0]));
-    pRec->jyx = chkmalloc(nwave * sizeof(pRec->jyx[0]));
+    pRec->jxx = alloc_items(nwave, sizeof(pRec->jxx[0]));
+    pRec->jyy = alloc_items(nwave, sizeof(pRec->jyy[0]));
+    pRec->jxy = alloc_items(nwave, sizeof(pRec->jxy[0]));
+    pRec->jyx = alloc_items(nwave, sizeof(pRec->jyx[0]));
   }
   pInspol->numrec = numrec;
   pInspol->nwave = nwave;
@@ -126,15 +136,15 @@ void alloc_oi_vis(oi_vis *pVis, long numrec, int nwave)
   int i;
   oi_vis_record *pRec;
 
-  pVis->record = chkmalloc(numrec * sizeof(oi_vis_record));
+  pVis->record = alloc_items(numrec, sizeof(oi_vis_record));
   for (i = 0; i < numrec; i++)
   {
     pRec = &pVis->record[i];
-    pRec->visamp = chkmalloc(nwave * sizeof(pRec->visamp[0]));
-    pRec->visamperr = chkmalloc(nwave * sizeof(pRec->visamperr[0]));
-    pRec->visphi = chkmalloc(nwave * sizeof(pRec->visphi[0]));
-    pRec->visphierr = chkmalloc(nwave * sizeof(pRec->visphierr[0]));
-    pRec->flag = chkmalloc(nwave * sizeof(pRec->flag[0]));
+    pRec->visamp = alloc_items(nwave, sizeof(pRec->visamp[0]));
+    pRec->visamperr = alloc_items(nwave, sizeof(pRec->visamperr[0]));
+    pRec->visphi = alloc_items(nwave, sizeof(pRec->visphi[0]));
+    pRec->visphierr = alloc_items(nwave, sizeof(pRec->visphierr[0]));
+    pRec->flag = alloc_items(nwave, sizeof(pRec->flag[0]));
     pRec->visrefmap = NULL;
     pRec->rvis = NULL;
     pRec->rviserr = NULL;
@@ -161,13 +171,13 @@ void alloc_oi_vis2(oi_vis2 *pVis2, long numrec, int nwave)
   int i;
   oi_vis2_record *pRec;
 
-  pVis2->record = chkmalloc(numrec * sizeof(oi_vis2_record));
+  pVis2->record = alloc_items(numrec, sizeof(oi_vis2_record));
   for (i = 0; i < numrec; i++)
   {
     pRec = &pVis2->record[i];
-    pRec->vis2data = chkmalloc(nwave * sizeof(pRec->vis2data[0]));
-    pRec->vis2err = chkmalloc(nwave * sizeof(pRec->vis2err[0]));
-    pRec->flag = chkmalloc(nwave * sizeof(pRec->flag[0]));
+    pRec->vis2data = alloc_items(nwave, sizeof(pRec->vis2data[0]));
+    pRec->vis2err = alloc_items(nwave, sizeof(pRec->vis2err[0]));
+    pRec->flag = alloc_items(nwave, sizeof(pRec->flag[0]));
   }
   pVis2->numrec = numrec;
   pVis2->nwave = nwave;
@@ -187,15 +197,15 @@ void alloc_oi_t3(oi_t3 *pT3, long numrec, int nwave)
   int i;
   oi_t3_record *pRec;
 
-  pT3->record = chkmalloc(numrec * sizeof(oi_t3_record));
+  pT3->record = alloc_items(numrec, sizeof(oi_t3_record));
   for (i = 0; i < numrec; i++)
   {
     pRec = &pT3->record[i];
-    pRec->t3amp = chkmalloc(nwave * sizeof(pRec->t3amp[0]));
-    pRec->t3amperr = chkmalloc(nwave * sizeof(pRec->t3amperr[0]));
-    pRec->t3phi = chkmalloc(nwave * sizeof(pRec->t3phi[0]));
-    pRec->t3phierr = chkmalloc(nwave * sizeof(pRec->t3phierr[0]));
-    pRec->flag = chkmalloc(nwave * sizeof(pRec->flag[0]));
+    pRec->t3amp = alloc_items(nwave, sizeof(pRec->t3amp[0]));
+    pRec->t3amperr = alloc_items(nwave, sizeof(pRec->t3amperr[0]));
+    pRec->t3phi = alloc_items(nwave, sizeof(pRec->t3phi[0]));
+    pRec->t3phierr = alloc_items(nwave, sizeof(pRec->t3phierr[0]));
+    pRec->flag = alloc_items(nwave, sizeof(pRec->flag[0]));
   }
   pT3->numrec = numrec;
   pT3->nwave = nwave;
@@ -216,13 +226,13 @@ void alloc_oi_flux(oi_flux *pFlux, long numrec, int nwave)
   int i;
   oi_flux_record *pRec;
 
-  pFlux->record = chkmalloc(numrec * sizeof(oi_flux_record));
+  pFlux->record = alloc_items(numrec, sizeof(oi_flux_record));
   for (i = 0; i < numrec; i++)
   {
     pRec = &pFlux->record[i];
-    pRec->fluxdata = chkmalloc(nwave * sizeof(pRec->fluxdata[0]));
-    pRec->fluxerr = chkmalloc(nwave * sizeof(pRec->fluxerr[0]));
-    pRec->flag = chkmalloc(nwave * sizeof(pRec->flag[0]));
+    pRec->fluxdata = alloc_items(nwave, sizeof(pRec->fluxdata[0]));
+    pRec->fluxerr = alloc_items(nwave, sizeof(pRec->fluxerr[0]));
+    pRec->flag = alloc_items(nwave, sizeof(pRec->flag[0]));
   }
   pFlux->numrec = numrec;
   pFlux->nwave = nwave;
diff --git a/src/oifitslib/oifile.h b/src/oifitslib/oifile.h
index 547a606..6f73c56 100644
--- a/src/oifitslib/oifile.h
+++ b/src/oifitslib/oifile.h
@@ -58,8 +58,9 @@
 #define MEMDUP(dest, src, size)                                                \
   do                                                                           \
   {                                                                            \
-    (dest) = _chkmalloc(size, __FILE__, __LINE__, __func__);                   \
-    memcpy(dest, src, size);                                                   \
+    const size_t _size = (size);                                               \
+    (dest) = _chkmalloc(_size > 0 ? _size : 1, __FILE__, __LINE__, __func__);  \
+    if (_size > 0) memcpy(dest, src, _size);                                   \
   } while (0)
 
 /*
diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 82e2d1c..1c3aa9f 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -821,8 +821,10 @@ STATUS read_oi_target(fitsfile *fptr, oi_target *pTargets, STATUS *pStatus)
   /* Read optional column */
   if (pTargets->revision >= 2)
   {
-    pTargets->usecategory = read_col_string(
-        fptr, TRUE, "CATEGORY", 3, 1, pTargets->targ[0].category, pStatus);
+    pTargets->usecategory =
+        (pTargets->ntarget > 0 &&
+         read_col_string(fptr, TRUE, "CATEGORY", 3, 1,
+                         pTargets->targ[0].category, pStatus));
     if (pTargets->usecategory)
     {
       for (irow = 2; irow <= pTargets->ntarget; irow++)
-- 
2.43.0


From cd2a479be7cd3a1052277ef5cc0a32424045f09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:04 +0000
Subject: [PATCH 12/47] fix: absurd table dimensions in a file caused an abort

---
 src/oifitslib/read_fits.c | 78 ++++++++++++++++++++++++++++++---------
 1 file changed, 60 insertions(+), 18 deletions(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 1c3aa9f..73a8663 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -28,6 +28,7 @@
 #include "chkmalloc.h"
 
 #include <fitsio.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <stdbool.h>
@@ -380,6 +381,42 @@ static STATUS specific_named_hdu(fitsfile *fptr, const char *reqName,
   return *pStatus;
 }
 
+/**
+ * Get number of rows in table at current HDU.
+ *
+ * Checks that the last row exists in the file, so that storage is not
+ * allocated for rows that only exist according to the header.
+ */
+static STATUS get_num_rows(fitsfile *fptr, long *pNumRows, STATUS *pStatus)
+{
+  long width;
+  unsigned char lastByte;
+
+  if (*pStatus) return *pStatus; /* error flag set - do nothing */
+
+  fits_get_num_rows(fptr, pNumRows, pStatus);
+  if (*pStatus || *pNumRows == 0) return *pStatus;
+  fits_read_key(fptr, TLONG, "NAXIS1", &width, NULL, pStatus);
+  if (*pStatus) return *pStatus;
+  if (*pNumRows < 0 || *pNumRows > INT_MAX || width < 1)
+    return (*pStatus = BAD_BTABLE_FORMAT);
+  return fits_read_tblbytes(fptr, *pNumRows, width, 1, &lastByte, pStatus);
+}
+
+/**
+ * Get repeat count of column containing one value per wavelength channel.
+ */
+static STATUS get_num_wave(fitsfile *fptr, int colnum, long *pNumWave,
+                           STATUS *pStatus)
+{
+  if (*pStatus) return *pStatus; /* error flag set - do nothing */
+
+  fits_get_coltype(fptr, colnum, NULL, pNumWave, NULL, pStatus);
+  if (*pStatus) return *pStatus;
+  if (*pNumWave < 1 || *pNumWave > INT_MAX) *pStatus = BAD_BTABLE_FORMAT;
+  return *pStatus;
+}
+
 /**
  * Read OI_ARRAY fits binary table at current HDU.
  *
@@ -432,7 +469,7 @@ static STATUS read_oi_array_chdu(fitsfile *fptr, oi_array *pArray,
   fits_read_key(fptr, TDOUBLE, "ARRAYY", &pArray->arrayy, NULL, pStatus);
   fits_read_key(fptr, TDOUBLE, "ARRAYZ", &pArray->arrayz, NULL, pStatus);
   /* get number of rows and allocate storage */
-  fits_get_num_rows(fptr, &nrows, pStatus);
+  get_num_rows(fptr, &nrows, pStatus);
   if (*pStatus) return *pStatus;
   alloc_oi_array(pArray, nrows);
   /* read rows */
@@ -518,7 +555,7 @@ static STATUS read_oi_wavelength_chdu(fitsfile *fptr, oi_wavelength *pWave,
   }
 
   /* get number of rows */
-  fits_get_num_rows(fptr, &nrows, pStatus);
+  get_num_rows(fptr, &nrows, pStatus);
   if (*pStatus) return *pStatus;
   alloc_oi_wavelength(pWave, nrows);
   /* read columns */
@@ -577,7 +614,7 @@ static STATUS read_oi_corr_chdu(fitsfile *fptr, oi_corr *pCorr,
   fits_read_key(fptr, TINT, "NDATA", &pCorr->ndata, NULL, pStatus);
 
   /* get number of rows and allocate storage */
-  fits_get_num_rows(fptr, &nrows, pStatus);
+  get_num_rows(fptr, &nrows, pStatus);
   if (*pStatus) return *pStatus;
   alloc_oi_corr(pCorr, nrows);
   /* read columns */
@@ -632,10 +669,10 @@ static STATUS read_oi_inspol_chdu(fitsfile *fptr, oi_inspol *pInspol,
   fits_read_key(fptr, TSTRING, "ORIENT", pInspol->orient, NULL, pStatus);
   fits_read_key(fptr, TSTRING, "MODEL", pInspol->model, NULL, pStatus);
   /* get dimensions and allocate storage */
-  fits_get_num_rows(fptr, &nrows, pStatus);
+  get_num_rows(fptr, &nrows, pStatus);
   /* note format specifies same repeat count for J* columns = nwave */
   fits_get_colnum(fptr, CASEINSEN, "JXX", &colnum, pStatus);
-  fits_get_coltype(fptr, colnum, NULL, &repeat, NULL, pStatus);
+  get_num_wave(fptr, colnum, &repeat, pStatus);
   if (*pStatus) return *pStatus;
   alloc_oi_inspol(pInspol, nrows, repeat);
   /* read rows */
@@ -757,7 +794,7 @@ STATUS read_oi_target(fitsfile *fptr, oi_target *pTargets, STATUS *pStatus)
            revision, pTargets->revision);
   }
   /* get number of rows and allocate storage */
-  fits_get_num_rows(fptr, &nrows, pStatus);
+  get_num_rows(fptr, &nrows, pStatus);
   if (*pStatus) goto except;
   alloc_oi_target(pTargets, nrows);
   /* read rows */
@@ -1136,6 +1173,7 @@ static STATUS read_oi_vis_complex(fitsfile *fptr, oi_vis *pVis, bool correlated,
 static STATUS read_oi_vis_opt(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
 {
   int irow, colnum, anynull;
+  long nmap, repeat;
   bool correlated;
 
   if (*pStatus) return *pStatus; /* error flag set - do nothing */
@@ -1188,13 +1226,17 @@ static STATUS read_oi_vis_opt(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
   }
   else
   {
+    nmap = (long)pVis->nwave * pVis->nwave;
+    fits_get_coltype(fptr, colnum, NULL, &repeat, NULL, pStatus);
+    if (*pStatus == 0 && repeat < nmap) *pStatus = BAD_BTABLE_FORMAT;
+    if (*pStatus) return *pStatus;
     pVis->usevisrefmap = TRUE;
     for (irow = 1; irow <= pVis->numrec; irow++)
     {
-      pVis->record[irow - 1].visrefmap = chkmalloc(
-          pVis->nwave * pVis->nwave * sizeof(pVis->record[0].visrefmap[0]));
-      fits_read_col(fptr, TLOGICAL, colnum, irow, 1, pVis->nwave * pVis->nwave,
-                    NULL, pVis->record[irow - 1].visrefmap, &anynull, pStatus);
+      pVis->record[irow - 1].visrefmap =
+          chkmalloc(nmap * sizeof(pVis->record[0].visrefmap[0]));
+      fits_read_col(fptr, TLOGICAL, colnum, irow, 1, nmap, NULL,
+                    pVis->record[irow - 1].visrefmap, &anynull, pStatus);
     }
   }
   read_oi_vis_complex(fptr, pVis, correlated, pStatus);
@@ -1245,10 +1287,10 @@ STATUS read_next_oi_vis(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
   read_key_opt_string(fptr, "ARRNAME", pVis->arrname, pStatus);
   fits_read_key(fptr, TSTRING, "INSNAME", pVis->insname, NULL, pStatus);
   /* get dimensions and allocate storage */
-  fits_get_num_rows(fptr, &nrows, pStatus);
+  get_num_rows(fptr, &nrows, pStatus);
   /* note format specifies same repeat count for VIS* & FLAG columns = nwave */
   fits_get_colnum(fptr, CASEINSEN, "VISAMP", &colnum, pStatus);
-  fits_get_coltype(fptr, colnum, NULL, &repeat, NULL, pStatus);
+  get_num_wave(fptr, colnum, &repeat, pStatus);
   if (*pStatus) goto except;
   alloc_oi_vis(pVis, nrows, repeat);
   /* read VISAMP unit (optional) */
@@ -1362,10 +1404,10 @@ STATUS read_next_oi_vis2(fitsfile *fptr, oi_vis2 *pVis2, STATUS *pStatus)
   }
 
   /* get dimensions and allocate storage */
-  fits_get_num_rows(fptr, &nrows, pStatus);
+  get_num_rows(fptr, &nrows, pStatus);
   /* note format specifies same repeat count for VIS2* & FLAG columns = nwave*/
   fits_get_colnum(fptr, CASEINSEN, "VIS2DATA", &colnum, pStatus);
-  fits_get_coltype(fptr, colnum, NULL, &repeat, NULL, pStatus);
+  get_num_wave(fptr, colnum, &repeat, pStatus);
   if (*pStatus) goto except;
   alloc_oi_vis2(pVis2, nrows, repeat);
   /* read rows */
@@ -1479,11 +1521,11 @@ STATUS read_next_oi_t3(fitsfile *fptr, oi_t3 *pT3, STATUS *pStatus)
   }
 
   /* get number of rows & allocate storage */
-  fits_get_num_rows(fptr, &nrows, pStatus);
+  get_num_rows(fptr, &nrows, pStatus);
   /* get value for nwave */
   /* format specifies same repeat count for T3* & FLAG columns */
   fits_get_colnum(fptr, CASEINSEN, "T3AMP", &colnum, pStatus);
-  fits_get_coltype(fptr, colnum, NULL, &repeat, NULL, pStatus);
+  get_num_wave(fptr, colnum, &repeat, pStatus);
   if (*pStatus) goto except;
   alloc_oi_t3(pT3, nrows, repeat);
   /* read rows */
@@ -1612,10 +1654,10 @@ STATUS read_next_oi_flux(fitsfile *fptr, oi_flux *pFlux, STATUS *pStatus)
   fits_read_key(fptr, TSTRING, "CALSTAT", value, NULL, pStatus);
   pFlux->calstat = value[0];
   /* get dimensions and allocate storage */
-  fits_get_num_rows(fptr, &nrows, pStatus);
+  get_num_rows(fptr, &nrows, pStatus);
   /* note format specifies same repeat count for FLUX* columns = nwave */
   fits_get_colnum(fptr, CASEINSEN, "FLUXDATA", &colnum, pStatus);
-  fits_get_coltype(fptr, colnum, NULL, &repeat, NULL, pStatus);
+  get_num_wave(fptr, colnum, &repeat, pStatus);
   if (*pStatus) goto except;
   alloc_oi_flux(pFlux, nrows, repeat);
   /* read unit (mandatory) */
-- 
2.43.0


From f0713987ce4dca57b33039bfaf08a911986a7b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:14 +0000
Subject: [PATCH 13/47] fix: filtering by target lost CATEGORY and leaked if a
 TARGET_ID was repeated

---
 src/oifitslib/oifilter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index d88c7c6..c32f6b5 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -624,7 +624,9 @@ void filter_oi_target(const oi_target *pInTargets,
   {
     /* New oi_target containing single record. TARGET_ID is set to 1 */
     pOutTargets->revision = pInTargets->revision;
+    pOutTargets->usecategory = pInTargets->usecategory;
     pOutTargets->ntarget = 0;
+    pOutTargets->targ = NULL;
     for (i = 0; i < pInTargets->ntarget; i++)
     {
       if (pInTargets->targ[i].target_id == pFilter->target_id)
@@ -632,6 +634,7 @@ void filter_oi_target(const oi_target *pInTargets,
         alloc_oi_target(pOutTargets, 1);
         memcpy(pOutTargets->targ, &pInTargets->targ[i], sizeof(target));
         pOutTargets->targ[0].target_id = 1;
+        break;
       }
     }
   }
-- 
2.43.0


From a87728c02c74e6e66b3ae11cf85ce8caab9be4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:14 +0000
Subject: [PATCH 14/47] fix: filtering leaked the contents of tables that were
 not kept

---
 src/oifitslib/oifilter.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index c32f6b5..d5de757 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -724,6 +724,7 @@ GHashTable *filter_all_oi_wavelength(const oi_fits *pInput,
         g_warning("Empty tables with INSNAME=%s removed from filter output",
                   pInWave->insname);
         free(useWave);
+        free_oi_wavelength(pOutWave);
         free(pOutWave);
       }
     }
@@ -749,10 +750,9 @@ void filter_oi_wavelength(const oi_wavelength *pInWave,
 
   pOutWave->revision = pInWave->revision;
   (void)g_strlcpy(pOutWave->insname, pInWave->insname, FLEN_VALUE);
-  pOutWave->nwave = 0; /* use as counter */
   /* will reallocate eff_wave and eff_band later */
-  pOutWave->eff_wave = chkmalloc(pInWave->nwave * sizeof(pInWave->eff_wave[0]));
-  pOutWave->eff_band = chkmalloc(pInWave->nwave * sizeof(pInWave->eff_band[0]));
+  alloc_oi_wavelength(pOutWave, pInWave->nwave);
+  pOutWave->nwave = 0; /* use as counter */
 
   for (i = 0; i < pInWave->nwave; i++)
   {
@@ -768,7 +768,7 @@ void filter_oi_wavelength(const oi_wavelength *pInWave,
       pOutWave->eff_band[pOutWave->nwave++] = pInWave->eff_band[i];
     }
   }
-  if (pOutWave->nwave < pInWave->nwave)
+  if (pOutWave->nwave > 0 && pOutWave->nwave < pInWave->nwave)
   {
     pOutWave->eff_wave = realloc(
         pOutWave->eff_wave, pOutWave->nwave * sizeof(pInWave->eff_wave[0]));
@@ -845,6 +845,7 @@ void filter_all_oi_inspol(const oi_fits *pInput, const oi_filter_spec *pFilter,
     {
       g_warning("Empty OI_INSPOL table removed from filter output");
       g_debug("Removed empty OI_INSPOL with ARRNAME=%s", pOutTab->arrname);
+      free_oi_inspol(pOutTab);
       free(pOutTab);
     }
   }
@@ -983,6 +984,7 @@ void filter_all_oi_vis(const oi_fits *pInput, const oi_filter_spec *pFilter,
         g_warning("Empty OI_VIS table removed from filter output");
         g_debug("Removed empty OI_VIS with DATE-OBS=%s INSNAME=%s",
                 pOutTab->date_obs, pOutTab->insname);
+        free_oi_vis(pOutTab);
         free(pOutTab);
       }
     }
@@ -1223,6 +1225,7 @@ void filter_all_oi_vis2(const oi_fits *pInput, const oi_filter_spec *pFilter,
         g_warning("Empty OI_VIS2 table removed from filter output");
         g_debug("Removed empty OI_VIS2 with DATE-OBS=%s INSNAME=%s",
                 pOutTab->date_obs, pOutTab->insname);
+        free_oi_vis2(pOutTab);
         free(pOutTab);
       }
     }
@@ -1413,6 +1416,7 @@ void filter_all_oi_t3(const oi_fits *pInput, const oi_filter_spec *pFilter,
         g_warning("Empty OI_T3 table removed from filter output");
         g_debug("Removed empty OI_T3 with DATE-OBS=%s INSNAME=%s",
                 pOutTab->date_obs, pOutTab->insname);
+        free_oi_t3(pOutTab);
         free(pOutTab);
       }
     }
@@ -1669,6 +1673,7 @@ void filter_all_oi_flux(const oi_fits *pInput, const oi_filter_spec *pFilter,
         g_warning("Empty OI_FLUX table removed from filter output");
         g_debug("Removed empty OI_FLUX with DATE-OBS=%s INSNAME=%s",
                 pOutTab->date_obs, pOutTab->insname);
+        free_oi_flux(pOutTab);
         free(pOutTab);
       }
     }
-- 
2.43.0


From e6df21f5c68aba870fb2d08e0a2404cbaaec8bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:14 +0000
Subject: [PATCH 15/47] fix: filtering tables without rows caused an abort

---
 src/oifitslib/oifilter.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index d5de757..c5246a2 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -706,7 +706,7 @@ GHashTable *filter_all_oi_wavelength(const oi_fits *pInput,
     pInWave = (oi_wavelength *)link->data;
     if (ACCEPT_INSNAME(pInWave, pFilter))
     {
-      useWave = chkmalloc(pInWave->nwave * sizeof(useWave[0]));
+      useWave = chkmalloc((pInWave->nwave + 1) * sizeof(useWave[0]));
       pOutWave = chkmalloc(sizeof(oi_wavelength));
       filter_oi_wavelength(pInWave, pFilter->wave_range, pOutWave, useWave);
       if (pOutWave->nwave > 0)
@@ -1147,7 +1147,8 @@ void filter_oi_vis(const oi_vis *pInTab, const oi_filter_spec *pFilter,
   /* Filter records */
   nrec = 0; /* counter */
   pOutTab->record =
-      chkmalloc(pInTab->numrec * sizeof(oi_vis_record)); /* will reallocate */
+      chkmalloc((pInTab->numrec + 1) *
+                sizeof(oi_vis_record)); /* will reallocate */
   for (i = 0; i < pInTab->numrec; i++)
   {
     if (pFilter->target_id >= 0 &&
@@ -1172,7 +1173,8 @@ void filter_oi_vis(const oi_vis *pInTab, const oi_filter_spec *pFilter,
                          pInTab->usecomplex, &pOutTab->record[nrec++]);
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_vis_record));
+  if (nrec > 0)
+    pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_vis_record));
 }
 
 /**
@@ -1339,7 +1341,8 @@ void filter_oi_vis2(const oi_vis2 *pInTab, const oi_filter_spec *pFilter,
   /* Filter records */
   nrec = 0; /* counter */
   pOutTab->record =
-      chkmalloc(pInTab->numrec * sizeof(oi_vis2_record)); /* will reallocate */
+      chkmalloc((pInTab->numrec + 1) *
+                sizeof(oi_vis2_record)); /* will reallocate */
   for (i = 0; i < pInTab->numrec; i++)
   {
     if (pFilter->target_id >= 0 &&
@@ -1364,7 +1367,8 @@ void filter_oi_vis2(const oi_vis2 *pInTab, const oi_filter_spec *pFilter,
                           &pOutTab->record[nrec++]);
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_vis2_record));
+  if (nrec > 0)
+    pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_vis2_record));
 }
 
 /**
@@ -1592,7 +1596,8 @@ void filter_oi_t3(const oi_t3 *pInTab, const oi_filter_spec *pFilter,
   /* Filter records */
   nrec = 0; /* counter */
   pOutTab->record =
-      chkmalloc(pInTab->numrec * sizeof(oi_t3_record)); /* will reallocate */
+      chkmalloc((pInTab->numrec + 1) *
+                sizeof(oi_t3_record)); /* will reallocate */
   for (i = 0; i < pInTab->numrec; i++)
   {
     if (pFilter->target_id >= 0 &&
@@ -1625,7 +1630,8 @@ void filter_oi_t3(const oi_t3 *pInTab, const oi_filter_spec *pFilter,
                         &pOutTab->record[nrec++]);
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_t3_record));
+  if (nrec > 0)
+    pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_t3_record));
 }
 
 /**
@@ -1745,7 +1751,8 @@ void filter_oi_flux(const oi_flux *pInTab, const oi_filter_spec *pFilter,
   /* Filter records */
   nrec = 0; /* counter */
   pOutTab->record =
-      chkmalloc(pInTab->numrec * sizeof(oi_flux_record)); /* will reallocate */
+      chkmalloc((pInTab->numrec + 1) *
+                sizeof(oi_flux_record)); /* will reallocate */
   for (i = 0; i < pInTab->numrec; i++)
   {
     if (pFilter->target_id >= 0 &&
@@ -1760,7 +1767,8 @@ void filter_oi_flux(const oi_flux *pInTab, const oi_filter_spec *pFilter,
                           pOutTab->nwave, &pOutTab->record[nrec++]);
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_flux_record));
+  if (nrec > 0)
+    pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_flux_record));
 }
 
 /**
-- 
2.43.0


From 61173ba75afbf288a899e4933341e3b95559ae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:07 +0000
Subject: [PATCH 16/47] fix: filtering used the wrong channels if an INSNAME
 was repeated

---
 src/oifitslib/oifilter.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index c5246a2..33cbcbe 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -673,7 +673,8 @@ void filter_all_oi_array(const oi_fits *pInput, const oi_filter_spec *pFilter,
       pOutTab = dup_oi_array(pInTab);
       pOutput->arrayList = g_list_append(pOutput->arrayList, pOutTab);
       ++pOutput->numArray;
-      g_hash_table_insert(pOutput->arrayHash, pOutTab->arrname, pOutTab);
+      if (!g_hash_table_lookup(pOutput->arrayHash, pOutTab->arrname))
+        g_hash_table_insert(pOutput->arrayHash, pOutTab->arrname, pOutTab);
     }
     link = link->next;
   }
@@ -714,13 +715,19 @@ GHashTable *filter_all_oi_wavelength(const oi_fits *pInput,
         pOutput->wavelengthList =
             g_list_append(pOutput->wavelengthList, pOutWave);
         ++pOutput->numWavelength;
-        g_hash_table_insert(pOutput->wavelengthHash, pOutWave->insname,
-                            pOutWave);
-        g_hash_table_insert(useWaveHash, g_strdup(pInWave->insname), useWave);
+        if (!g_hash_table_lookup(pOutput->wavelengthHash, pOutWave->insname))
+          g_hash_table_insert(pOutput->wavelengthHash, pOutWave->insname,
+                              pOutWave);
+        /* Data refer to the first table with this INSNAME */
+        if (!g_hash_table_contains(useWaveHash, pInWave->insname))
+          g_hash_table_insert(useWaveHash, g_strdup(pInWave->insname), useWave);
+        else
+          free(useWave);
       }
       else
       {
-        g_hash_table_insert(useWaveHash, g_strdup(pInWave->insname), NULL);
+        if (!g_hash_table_contains(useWaveHash, pInWave->insname))
+          g_hash_table_insert(useWaveHash, g_strdup(pInWave->insname), NULL);
         g_warning("Empty tables with INSNAME=%s removed from filter output",
                   pInWave->insname);
         free(useWave);
@@ -803,7 +810,8 @@ void filter_all_oi_corr(const oi_fits *pInput, const oi_filter_spec *pFilter,
       pOutTab = dup_oi_corr(pInTab);
       pOutput->corrList = g_list_append(pOutput->corrList, pOutTab);
       ++pOutput->numCorr;
-      g_hash_table_insert(pOutput->corrHash, pOutTab->corrname, pOutTab);
+      if (!g_hash_table_lookup(pOutput->corrHash, pOutTab->corrname))
+        g_hash_table_insert(pOutput->corrHash, pOutTab->corrname, pOutTab);
     }
     link = link->next;
   }
-- 
2.43.0


From 6a147b139f936ca6e6dafd5f1c0a72409d33158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:07 +0000
Subject: [PATCH 17/47] fix: filtering overran tables whose channels do not
 match their OI_WAVELENGTH

---
 src/oifitslib/oifilter.c | 54 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index 33cbcbe..bf28802 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -817,6 +817,24 @@ void filter_all_oi_corr(const oi_fits *pInput, const oi_filter_spec *pFilter,
   }
 }
 
+/**
+ * Does the first OI_WAVELENGTH table with the specified INSNAME have
+ * @a nwave channels?
+ */
+static gboolean check_nwave(const oi_fits *pInput, const char *insname,
+                            int nwave)
+{
+  GList *link;
+  oi_wavelength *pWave;
+
+  for (link = pInput->wavelengthList; link != NULL; link = link->next)
+  {
+    pWave = (oi_wavelength *)link->data;
+    if (strcmp(pWave->insname, insname) == 0) return (pWave->nwave == nwave);
+  }
+  return FALSE;
+}
+
 /**
  * Filter all OI_INSPOL tables
  *
@@ -974,7 +992,14 @@ void filter_all_oi_vis(const oi_fits *pInput, const oi_filter_spec *pFilter,
     if (!ACCEPT_CORRNAME(pInTab, pFilter)) continue;
 
     useWave = g_hash_table_lookup(useWaveHash, pInTab->insname);
-    if (useWave != NULL)
+    if (useWave != NULL &&
+        !check_nwave(pInput, pInTab->insname, pInTab->nwave))
+    {
+      g_warning("OI_VIS with wrong number of channels for INSNAME=%s "
+                "removed from filter output",
+                pInTab->insname);
+    }
+    else if (useWave != NULL)
     {
       pOutTab = chkmalloc(sizeof(oi_vis));
       pWave = oi_fits_lookup_wavelength(pInput, pInTab->insname);
@@ -1218,7 +1243,14 @@ void filter_all_oi_vis2(const oi_fits *pInput, const oi_filter_spec *pFilter,
     if (!ACCEPT_CORRNAME(pInTab, pFilter)) continue;
 
     useWave = g_hash_table_lookup(useWaveHash, pInTab->insname);
-    if (useWave != NULL)
+    if (useWave != NULL &&
+        !check_nwave(pInput, pInTab->insname, pInTab->nwave))
+    {
+      g_warning("OI_VIS2 with wrong number of channels for INSNAME=%s "
+                "removed from filter output",
+                pInTab->insname);
+    }
+    else if (useWave != NULL)
     {
       pOutTab = chkmalloc(sizeof(oi_vis2));
       pWave = oi_fits_lookup_wavelength(pInput, pInTab->insname);
@@ -1411,7 +1443,14 @@ void filter_all_oi_t3(const oi_fits *pInput, const oi_filter_spec *pFilter,
     if (!ACCEPT_CORRNAME(pInTab, pFilter)) continue;
 
     useWave = g_hash_table_lookup(useWaveHash, pInTab->insname);
-    if (useWave != NULL)
+    if (useWave != NULL &&
+        !check_nwave(pInput, pInTab->insname, pInTab->nwave))
+    {
+      g_warning("OI_T3 with wrong number of channels for INSNAME=%s "
+                "removed from filter output",
+                pInTab->insname);
+    }
+    else if (useWave != NULL)
     {
       pOutTab = chkmalloc(sizeof(oi_t3));
       pWave = oi_fits_lookup_wavelength(pInput, pInTab->insname);
@@ -1673,7 +1712,14 @@ void filter_all_oi_flux(const oi_fits *pInput, const oi_filter_spec *pFilter,
     if (!ACCEPT_CORRNAME(pInTab, pFilter)) continue;
 
     useWave = g_hash_table_lookup(useWaveHash, pInTab->insname);
-    if (useWave != NULL)
+    if (useWave != NULL &&
+        !check_nwave(pInput, pInTab->insname, pInTab->nwave))
+    {
+      g_warning("OI_FLUX with wrong number of channels for INSNAME=%s "
+                "removed from filter output",
+                pInTab->insname);
+    }
+    else if (useWave != NULL)
     {
       pOutTab = chkmalloc(sizeof(oi_flux));
       filter_oi_flux(pInTab, pFilter, useWave, pOutTab);
-- 
2.43.0


From e562175dcb5699a72c01d8a48378cb532f48c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:07 +0000
Subject: [PATCH 18/47] fix: filtering aborted for all-flagged OI_T3 records if
 OI_WAVELENGTH is not known

---
 src/oifitslib/oifilter.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index bf28802..7a5c7ab 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -1486,8 +1486,6 @@ static bool any_t3_chan_ok(const oi_t3_record *pRec,
   double u1, v1, u2, v2, abRad, bcRad, acRad;
   float snrAmp, snrPhi;
 
-  if (pWave == NULL)
-    return TRUE; /* cannot filter by UV radius, so keep record */
   u1 = pRec->u1coord;
   v1 = pRec->v1coord;
   u2 = pRec->u2coord;
-- 
2.43.0


From 9370fcefc5b89103fea4e4b068cdafa88a15210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:33 +0000
Subject: [PATCH 19/47] fix: filtering OI_INSPOL records with different numbers
 of accepted channels overran the heap

---
 src/oifitslib/oifilter.c | 192 ++++++++++++++++++++++++---------------
 1 file changed, 117 insertions(+), 75 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index 7a5c7ab..2cdf31d 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -835,6 +835,88 @@ static gboolean check_nwave(const oi_fits *pInput, const char *insname,
   return FALSE;
 }
 
+/**
+ * Return number of accepted wavelength channels in OI_INSPOL record, zero if
+ * the record is not accepted by the filter
+ */
+static int count_inspol_chan(const oi_inspol *pInTab, int irec,
+                             const oi_filter_spec *pFilter,
+                             GHashTable *useWaveHash)
+{
+  const oi_inspol_record *pRec = &pInTab->record[irec];
+  char *useWave;
+  int j, nwave;
+
+  if (pFilter->target_id >= 0 && pRec->target_id != pFilter->target_id)
+    return 0; /* skip record as TARGET_ID doesn't match */
+  if (pFilter->insname_pttn != NULL &&
+      !g_pattern_match_string(pFilter->insname_pttn, pRec->insname))
+    return 0; /* skip record as INSNAME doesn't match */
+  if ((pRec->mjd_end < pFilter->mjd_range[0]) ||
+      (pRec->mjd_obs > pFilter->mjd_range[1]))
+    return 0; /* skip record as MJD ranges don't overlap */
+  useWave = g_hash_table_lookup(useWaveHash, pRec->insname);
+  if (useWave == NULL) return 0; /* skip record as INSNAME filtered out */
+
+  nwave = 0;
+  for (j = 0; j < pInTab->nwave; j++)
+    if (useWave[j]) ++nwave;
+  return nwave;
+}
+
+/**
+ * Filter OI_INSPOL table, selecting records with @a nwave accepted channels
+ */
+static void filter_oi_inspol_nwave(const oi_inspol *pInTab,
+                                   const oi_filter_spec *pFilter,
+                                   GHashTable *useWaveHash, int nwave,
+                                   oi_inspol *pOutTab)
+{
+  int i, j, k, nrec;
+  char *useWave;
+
+  /* Copy table header items */
+  memcpy(pOutTab, pInTab, sizeof(oi_inspol));
+
+  nrec = 0;
+  if (nwave > 0)
+  {
+    for (i = 0; i < pInTab->numrec; i++)
+      if (count_inspol_chan(pInTab, i, pFilter, useWaveHash) == nwave) ++nrec;
+  }
+  alloc_oi_inspol(pOutTab, nrec, nwave);
+
+  /* Filter records */
+  nrec = 0; /* counter */
+  for (i = 0; i < pInTab->numrec && nrec < pOutTab->numrec; i++)
+  {
+    if (count_inspol_chan(pInTab, i, pFilter, useWaveHash) != nwave) continue;
+    useWave = g_hash_table_lookup(useWaveHash, pInTab->record[i].insname);
+
+    /* Create output record */
+    pOutTab->record[nrec].target_id =
+        (pFilter->target_id >= 0) ? 1 : pInTab->record[i].target_id;
+    (void)g_strlcpy(pOutTab->record[nrec].insname, pInTab->record[i].insname,
+                    sizeof(pOutTab->record[nrec].insname));
+    pOutTab->record[nrec].mjd_obs = pInTab->record[i].mjd_obs;
+    pOutTab->record[nrec].mjd_end = pInTab->record[i].mjd_end;
+    pOutTab->record[nrec].sta_index = pInTab->record[i].sta_index;
+    k = 0;
+    for (j = 0; j < pInTab->nwave; j++)
+    {
+      if (useWave[j])
+      {
+        pOutTab->record[nrec].jxx[k] = pInTab->record[i].jxx[j];
+        pOutTab->record[nrec].jyy[k] = pInTab->record[i].jyy[j];
+        pOutTab->record[nrec].jxy[k] = pInTab->record[i].jxy[j];
+        pOutTab->record[nrec].jyx[k] = pInTab->record[i].jyx[j];
+        ++k;
+      }
+    }
+    ++nrec;
+  }
+}
+
 /**
  * Filter all OI_INSPOL tables
  *
@@ -848,7 +930,10 @@ void filter_all_oi_inspol(const oi_fits *pInput, const oi_filter_spec *pFilter,
                           GHashTable *useWaveHash, oi_fits *pOutput)
 {
   GList *link;
+  GHashTable *useHash;
   oi_inspol *pInTab, *pOutTab;
+  gboolean isEmpty;
+  int i, j, nwave;
 
   /* Filter OI_INSPOL tables in turn */
   link = pInput->inspolList;
@@ -860,19 +945,36 @@ void filter_all_oi_inspol(const oi_fits *pInput, const oi_filter_spec *pFilter,
     /* If applicable, check whether ARRNAME matches */
     if (!ACCEPT_ARRNAME(pInTab, pFilter)) continue;
 
-    pOutTab = chkmalloc(sizeof(oi_inspol));
-    filter_oi_inspol(pInTab, pFilter, useWaveHash, pOutTab);
-    if (pOutTab->nwave > 0 && pOutTab->numrec > 0)
+    /* Select instruments with same number of channels as this table */
+    useHash = g_hash_table_new(g_str_hash, g_str_equal);
+    for (i = 0; i < pInTab->numrec; i++)
+    {
+      if (check_nwave(pInput, pInTab->record[i].insname, pInTab->nwave))
+        g_hash_table_insert(
+            useHash, pInTab->record[i].insname,
+            g_hash_table_lookup(useWaveHash, pInTab->record[i].insname));
+    }
+
+    /* All records of a table must have the same number of channels, so need
+     * an output table for each distinct number of accepted channels */
+    isEmpty = TRUE;
+    for (i = 0; i < pInTab->numrec; i++)
     {
+      nwave = count_inspol_chan(pInTab, i, pFilter, useHash);
+      for (j = 0; j < i; j++)
+        if (count_inspol_chan(pInTab, j, pFilter, useHash) == nwave) break;
+      if (nwave == 0 || j < i) continue;
+      pOutTab = chkmalloc(sizeof(oi_inspol));
+      filter_oi_inspol_nwave(pInTab, pFilter, useHash, nwave, pOutTab);
       pOutput->inspolList = g_list_append(pOutput->inspolList, pOutTab);
       ++pOutput->numInspol;
+      isEmpty = FALSE;
     }
-    else
+    g_hash_table_destroy(useHash);
+    if (isEmpty)
     {
       g_warning("Empty OI_INSPOL table removed from filter output");
-      g_debug("Removed empty OI_INSPOL with ARRNAME=%s", pOutTab->arrname);
-      free_oi_inspol(pOutTab);
-      free(pOutTab);
+      g_debug("Removed empty OI_INSPOL with ARRNAME=%s", pInTab->arrname);
     }
   }
 }
@@ -880,6 +982,9 @@ void filter_all_oi_inspol(const oi_fits *pInput, const oi_filter_spec *pFilter,
 /**
  * Filter an OI_INSPOL table by TARGET_ID, INSNAME, and MJD
  *
+ * If the accepted records have different numbers of accepted channels, only
+ * those with the same number as the first are output.
+ *
  * @param pInTab   pointer to input oi_inspol
  * @param pFilter  pointer to filter specification
  * @param useWaveHash  hash table with INSAME values as keys and char[]
@@ -889,75 +994,12 @@ void filter_all_oi_inspol(const oi_fits *pInput, const oi_filter_spec *pFilter,
 void filter_oi_inspol(const oi_inspol *pInTab, const oi_filter_spec *pFilter,
                       GHashTable *useWaveHash, oi_inspol *pOutTab)
 {
-  int i, j, k, nrec;
-  char *useWave;
-
-  /* Copy table header items */
-  memcpy(pOutTab, pInTab, sizeof(oi_inspol));
+  int i, nwave;
 
-  /* Filter records */
-  nrec = 0; /* counter */
-  pOutTab->record = chkmalloc(pInTab->numrec *
-                              sizeof(oi_inspol_record)); /* will reallocate */
-  pOutTab->nwave = pInTab->nwave;                        /* upper limit */
-  for (i = 0; i < pInTab->numrec; i++)
-  {
-    if (pFilter->target_id >= 0 &&
-        pInTab->record[i].target_id != pFilter->target_id)
-      continue; /* skip record as TARGET_ID doesn't match */
-    if (pFilter->insname_pttn != NULL &&
-        !g_pattern_match_string(pFilter->insname_pttn,
-                                pInTab->record[i].insname))
-      continue; /* skip record as INSNAME doesn't match */
-    if ((pInTab->record[i].mjd_end < pFilter->mjd_range[0]) ||
-        (pInTab->record[i].mjd_obs > pFilter->mjd_range[1]))
-      continue; /* skip record as MJD ranges don't overlap */
-    useWave = g_hash_table_lookup(useWaveHash, pInTab->record[i].insname);
-    if (useWave == NULL) continue; /* skip record as INSNAME filtered out */
-
-    /* Create output record */
-    memcpy(&pOutTab->record[nrec], &pInTab->record[i],
-           sizeof(oi_inspol_record));
-    if (pFilter->target_id >= 0) pOutTab->record[nrec].target_id = 1;
-    pOutTab->record[nrec].jxx =
-        chkmalloc(pOutTab->nwave * sizeof(pOutTab->record[0].jxx[0]));
-    pOutTab->record[nrec].jyy =
-        chkmalloc(pOutTab->nwave * sizeof(pOutTab->record[0].jyy[0]));
-    pOutTab->record[nrec].jxy =
-        chkmalloc(pOutTab->nwave * sizeof(pOutTab->record[0].jxy[0]));
-    pOutTab->record[nrec].jyx =
-        chkmalloc(pOutTab->nwave * sizeof(pOutTab->record[0].jyx[0]));
-    k = 0;
-    g_assert(useWave != NULL);
-    for (j = 0; j < pInTab->nwave; j++)
-    {
-      if (useWave[j])
-      {
-        pOutTab->record[nrec].jxx[k] = pInTab->record[i].jxx[j];
-        pOutTab->record[nrec].jyy[k] = pInTab->record[i].jyy[j];
-        pOutTab->record[nrec].jxy[k] = pInTab->record[i].jxy[j];
-        pOutTab->record[nrec].jyx[k] = pInTab->record[i].jyx[j];
-        ++k;
-      }
-    }
-    if (nrec == 0 && k < pOutTab->nwave)
-    {
-      /* For 1st output record, length of vectors wasn't known when
-         originally allocated, so reallocate */
-      pOutTab->nwave = k;
-      pOutTab->record[nrec].jxx = realloc(
-          pOutTab->record[nrec].jxx, k * sizeof(pOutTab->record[0].jxx[0]));
-      pOutTab->record[nrec].jyy = realloc(
-          pOutTab->record[nrec].jyy, k * sizeof(pOutTab->record[0].jyy[0]));
-      pOutTab->record[nrec].jxy = realloc(
-          pOutTab->record[nrec].jxy, k * sizeof(pOutTab->record[0].jxy[0]));
-      pOutTab->record[nrec].jyx = realloc(
-          pOutTab->record[nrec].jyx, k * sizeof(pOutTab->record[0].jyx[0]));
-    }
-    ++nrec;
-  }
-  pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_inspol_record));
+  nwave = 0;
+  for (i = 0; i < pInTab->numrec && nwave == 0; i++)
+    nwave = count_inspol_chan(pInTab, i, pFilter, useWaveHash);
+  filter_oi_inspol_nwave(pInTab, pFilter, useWaveHash, nwave, pOutTab);
 }
 
 /**
-- 
2.43.0


From 3d0250afb218edb192bd6d302e7508f31e007640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:40 +0000
Subject: [PATCH 20/47] fix: merging more than 99 targets caused an abort

---
 src/oifitslib/oimerge.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index f1c4e91..52cd208 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -229,16 +229,20 @@ void merge_oi_header(const GList *inList, oi_fits *pOutput)
  */
 GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
 {
-#define MAX_TARGET 100
   GHashTable *targetIdHash;
   const GList *link;
   oi_target *pInTab, *pOutTab;
-  int i, *pValue;
+  int i, maxTarget, *pValue;
+
+  /* Upper limit on number of distinct targets */
+  maxTarget = 0;
+  for (link = inList; link != NULL; link = link->next)
+    maxTarget += ((oi_fits *)link->data)->targets.ntarget;
 
   pOutTab = &pOutput->targets;
   pOutTab->revision = OI_REVN_V2_TARGET;
   pOutTab->ntarget = 0;
-  pOutTab->targ = chkmalloc(MAX_TARGET * sizeof(target));
+  if (maxTarget > 0) pOutTab->targ = chkmalloc(maxTarget * sizeof(target));
   targetIdHash = g_hash_table_new_full(g_str_hash, g_str_equal, NULL, free);
   link = inList;
   while (link != NULL)
@@ -252,7 +256,6 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
       {
         pValue = chkmalloc(sizeof(int));
         *pValue = ++pOutTab->ntarget;
-        g_assert_cmpint(pOutTab->ntarget, <, MAX_TARGET);
         g_hash_table_insert(targetIdHash, pInTab->targ[i].target, pValue);
         memcpy(&pOutTab->targ[pOutTab->ntarget - 1], &pInTab->targ[i],
                sizeof(target));
@@ -261,7 +264,8 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
     }
     link = link->next;
   }
-  pOutTab->targ = realloc(pOutTab->targ, pOutTab->ntarget * sizeof(target));
+  if (pOutTab->ntarget > 0)
+    pOutTab->targ = chkrealloc(pOutTab->targ, pOutTab->ntarget * sizeof(target));
   return targetIdHash;
 }
 
-- 
2.43.0


From 76c35e70c2d19a7b305a495a64cefe3385d6c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:40 +0000
Subject: [PATCH 21/47] fix: merging lost the target categories

---
 src/oifitslib/oimerge.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 52cd208..790441b 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -242,6 +242,7 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
   pOutTab = &pOutput->targets;
   pOutTab->revision = OI_REVN_V2_TARGET;
   pOutTab->ntarget = 0;
+  pOutTab->usecategory = FALSE;
   if (maxTarget > 0) pOutTab->targ = chkmalloc(maxTarget * sizeof(target));
   targetIdHash = g_hash_table_new_full(g_str_hash, g_str_equal, NULL, free);
   link = inList;
@@ -250,6 +251,7 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
     pInTab = &((oi_fits *)link->data)->targets;
     if (pInTab->revision > pOutTab->revision)
       pOutTab->revision = pInTab->revision;
+    if (pInTab->usecategory) pOutTab->usecategory = TRUE;
     for (i = 0; i < pInTab->ntarget; i++)
     {
       if (!g_hash_table_lookup(targetIdHash, pInTab->targ[i].target))
@@ -259,6 +261,8 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
         g_hash_table_insert(targetIdHash, pInTab->targ[i].target, pValue);
         memcpy(&pOutTab->targ[pOutTab->ntarget - 1], &pInTab->targ[i],
                sizeof(target));
+        if (!pInTab->usecategory)
+          pOutTab->targ[pOutTab->ntarget - 1].category[0] = '\0';
         pOutTab->targ[pOutTab->ntarget - 1].target_id = pOutTab->ntarget;
       }
     }
-- 
2.43.0


From 263aa7739497b16e7c760d0056f88604634557ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:40 +0000
Subject: [PATCH 22/47] fix: names of renamed tables in merged datasets were
 not necessarily unique

---
 src/oifitslib/oimerge.c | 67 ++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 35 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 790441b..7492e91 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -156,6 +156,32 @@ static long files_min_mjd(const GList *list)
   return minMjd;
 }
 
+/**
+ * If @a name is already used as key in hash table, replace it with a
+ * new name that isn't.
+ *
+ * @param name    name to make unique, char array of length FLEN_VALUE
+ * @param prefix  start of new name if @a name is too long to be extended
+ * @param hash    hash table of tables indexed by name
+ * @param num     number to append
+ */
+static void make_unique(char *name, const char *prefix, GHashTable *hash,
+                        int num)
+{
+  const size_t maxLen = 68; /* longest string keyword value in FITS */
+  char newName[FLEN_VALUE];
+
+  if (g_hash_table_lookup(hash, name) == NULL) return;
+  do
+  {
+    g_snprintf(newName, FLEN_VALUE, "%s_%03d", name, num);
+    if (strlen(name) > maxLen - 4 || strlen(newName) > maxLen)
+      g_snprintf(newName, FLEN_VALUE, "%s%03d", prefix, num);
+    ++num;
+  } while (g_hash_table_lookup(hash, newName) != NULL);
+  g_strlcpy(name, newName, FLEN_VALUE);
+}
+
 /*
  * Public functions
  */
@@ -288,7 +314,6 @@ GList *merge_all_oi_array(const GList *inList, oi_fits *pOutput)
   const GList *arrayList, *ilink, *jlink;
   GHashTable *hash;
   oi_array *pInTab, *pOutTab;
-  char newName[FLEN_VALUE];
 
   arrnameHashList = NULL;
   g_assert(pOutput->arrayList == NULL);
@@ -312,16 +337,8 @@ GList *merge_all_oi_array(const GList *inList, oi_fits *pOutput)
         /* Add copy of pInTab to output, changing ARRNAME if it clashes */
         pOutTab = dup_oi_array(pInTab);
         upgrade_oi_array(pOutTab);
-        if (g_hash_table_lookup(pOutput->arrayHash, pOutTab->arrname) != NULL)
-        {
-          /* Avoid truncation at FLEN_VALUE - 1 */
-          if (strlen(pOutTab->arrname) < (FLEN_VALUE - 5))
-            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->arrname,
-                       pOutput->numArray + 1);
-          else
-            g_snprintf(newName, FLEN_VALUE, "array%03d", pOutput->numArray + 1);
-          g_strlcpy(pOutTab->arrname, newName, FLEN_VALUE);
-        }
+        make_unique(pOutTab->arrname, "array", pOutput->arrayHash,
+                    pOutput->numArray + 1);
         g_hash_table_insert(pOutput->arrayHash, pOutTab->arrname, pOutTab);
         pOutput->arrayList = g_list_append(pOutput->arrayList, pOutTab);
         ++pOutput->numArray;
@@ -349,7 +366,6 @@ GList *merge_all_oi_wavelength(const GList *inList, oi_fits *pOutput)
   const GList *waveList, *ilink, *jlink;
   GHashTable *hash;
   oi_wavelength *pInTab, *pOutTab;
-  char newName[FLEN_VALUE];
 
   insnameHashList = NULL;
   g_assert(pOutput->wavelengthList == NULL);
@@ -373,18 +389,8 @@ GList *merge_all_oi_wavelength(const GList *inList, oi_fits *pOutput)
         /* Add copy of pInTab to output, changing INSNAME if it clashes */
         pOutTab = dup_oi_wavelength(pInTab);
         upgrade_oi_wavelength(pOutTab);
-        if (g_hash_table_lookup(pOutput->wavelengthHash, pOutTab->insname) !=
-            NULL)
-        {
-          /* Avoid truncation at FLEN_VALUE - 1 */
-          if (strlen(pOutTab->insname) < (FLEN_VALUE - 5))
-            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->insname,
-                       pOutput->numWavelength + 1);
-          else
-            g_snprintf(newName, FLEN_VALUE, "ins%03d",
-                       pOutput->numWavelength + 1);
-          g_strlcpy(pOutTab->insname, newName, FLEN_VALUE);
-        }
+        make_unique(pOutTab->insname, "ins", pOutput->wavelengthHash,
+                    pOutput->numWavelength + 1);
         g_hash_table_insert(pOutput->wavelengthHash, pOutTab->insname, pOutTab);
         pOutput->wavelengthList =
             g_list_append(pOutput->wavelengthList, pOutTab);
@@ -413,7 +419,6 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
   const GList *corrList, *ilink, *jlink;
   GHashTable *hash;
   oi_corr *pInTab, *pOutTab;
-  char newName[FLEN_VALUE];
 
   corrnameHashList = NULL;
   g_assert(pOutput->corrList == NULL);
@@ -434,16 +439,8 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
 
       /* Add copy of pInTab to output, changing CORRNAME if it clashes */
       pOutTab = dup_oi_corr(pInTab);
-      if (g_hash_table_lookup(pOutput->corrHash, pOutTab->corrname) != NULL)
-      {
-        /* Avoid truncation at FLEN_VALUE - 1 */
-        if (strlen(pOutTab->corrname) < (FLEN_VALUE - 5))
-          g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->corrname,
-                     pOutput->numCorr + 1);
-        else
-          g_snprintf(newName, FLEN_VALUE, "ins%03d", pOutput->numCorr + 1);
-        g_strlcpy(pOutTab->corrname, newName, FLEN_VALUE);
-      }
+      make_unique(pOutTab->corrname, "ins", pOutput->corrHash,
+                  pOutput->numCorr + 1);
       g_hash_table_insert(pOutput->corrHash, pOutTab->corrname, pOutTab);
       pOutput->corrList = g_list_append(pOutput->corrList, pOutTab);
       ++pOutput->numCorr;
-- 
2.43.0


From afb9f4d87c2ff829f337302b148fd5fe0aba40aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:40 +0000
Subject: [PATCH 23/47] fix: merging used the wrong table if a name was
 repeated within an input

---
 src/oifitslib/oimerge.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 7492e91..8cbc51f 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -343,7 +343,8 @@ GList *merge_all_oi_array(const GList *inList, oi_fits *pOutput)
         pOutput->arrayList = g_list_append(pOutput->arrayList, pOutTab);
         ++pOutput->numArray;
       }
-      g_hash_table_insert(hash, pInTab->arrname, pOutTab->arrname);
+      if (!g_hash_table_lookup(hash, pInTab->arrname))
+        g_hash_table_insert(hash, pInTab->arrname, pOutTab->arrname);
       jlink = jlink->next;
     }
     ilink = ilink->next;
@@ -396,7 +397,8 @@ GList *merge_all_oi_wavelength(const GList *inList, oi_fits *pOutput)
             g_list_append(pOutput->wavelengthList, pOutTab);
         ++pOutput->numWavelength;
       }
-      g_hash_table_insert(hash, pInTab->insname, pOutTab->insname);
+      if (!g_hash_table_lookup(hash, pInTab->insname))
+        g_hash_table_insert(hash, pInTab->insname, pOutTab->insname);
       jlink = jlink->next;
     }
     ilink = ilink->next;
@@ -445,7 +447,8 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
       pOutput->corrList = g_list_append(pOutput->corrList, pOutTab);
       ++pOutput->numCorr;
 
-      g_hash_table_insert(hash, pInTab->corrname, pOutTab->corrname);
+      if (!g_hash_table_lookup(hash, pInTab->corrname))
+        g_hash_table_insert(hash, pInTab->corrname, pOutTab->corrname);
       jlink = jlink->next;
     }
     ilink = ilink->next;
-- 
2.43.0


From 1019bfa430a3c74b5d21efab52cc122542cde919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:40 +0000
Subject: [PATCH 24/47] fix: merging data that refer to missing targets or
 tables caused a crash

---
 src/oifitslib/oimerge.c | 49 ++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 8cbc51f..2b751a0 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -456,22 +456,46 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
   return corrnameHashList;
 }
 
+/** Replace name with string from hash table, if it is there */
+static void replace_name(char *name, GHashTable *hash, const char *oldName)
+{
+  const char *newName = g_hash_table_lookup(hash, oldName);
+
+  if (newName != NULL) (void)g_strlcpy(name, newName, FLEN_VALUE);
+}
+
+/**
+ * Return new value for TARGET_ID
+ *
+ * @param pInput        pointer to input dataset
+ * @param targetId      value of TARGET_ID in input dataset
+ * @param targetIdHash  hash table giving new TARGET_ID indexed by target name
+ *
+ * @return New TARGET_ID, or zero (which isn't used in merged datasets) if
+ *         there is no such target
+ */
+static int get_new_target_id(const oi_fits *pInput, int targetId,
+                             GHashTable *targetIdHash)
+{
+  const target *pTarget = oi_fits_lookup_target(pInput, targetId);
+
+  if (pTarget == NULL) return 0;
+  return *((int *)g_hash_table_lookup(targetIdHash, pTarget->target));
+}
+
 /** Replace optional ARRNAME with string from hash table */
 #define REPLACE_ARRNAME(pTab, oldArrname, arrnameHash)                         \
   do                                                                           \
   {                                                                            \
     if (strlen(oldArrname) > 0)                                                \
     {                                                                          \
-      (void)g_strlcpy((pTab)->arrname,                                         \
-                      g_hash_table_lookup(arrnameHash, oldArrname),            \
-                      FLEN_VALUE);                                             \
+      replace_name((pTab)->arrname, arrnameHash, oldArrname);                  \
     }                                                                          \
   } while (0)
 
 /** Replace INSNAME with string from hash table */
 #define REPLACE_INSNAME(pTab, oldInsname, insnameHash)                         \
-  (void)g_strlcpy((pTab)->insname,                                             \
-                  g_hash_table_lookup(insnameHash, oldInsname), FLEN_VALUE)
+  replace_name((pTab)->insname, insnameHash, oldInsname)
 
 /** Replace optional CORRNAME with string from hash table */
 #define REPLACE_CORRNAME(pTab, oldCorrname, corrnameHash)                      \
@@ -479,9 +503,7 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
   {                                                                            \
     if (strlen(oldCorrname) > 0)                                               \
     {                                                                          \
-      (void)g_strlcpy((pTab)->corrname,                                        \
-                      g_hash_table_lookup(corrnameHash, oldCorrname),          \
-                      FLEN_VALUE);                                             \
+      replace_name((pTab)->corrname, corrnameHash, oldCorrname);               \
     }                                                                          \
   } while (0)
 
@@ -493,10 +515,8 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
     for (ii = 0; ii < (pTab)->numrec; ii++)                                    \
     {                                                                          \
       /* hash table is indexed by target name */                               \
-      (pTab)->record[ii].target_id = *((int *)g_hash_table_lookup(             \
-          targetIdHash,                                                        \
-          oi_fits_lookup_target(pInOi, (pTab)->record[ii].target_id)           \
-              ->target));                                                      \
+      (pTab)->record[ii].target_id = get_new_target_id(                        \
+          pInOi, (pTab)->record[ii].target_id, targetIdHash);                  \
     }                                                                          \
   } while (0)
 
@@ -542,9 +562,8 @@ void merge_all_oi_inspol(const GList *inList, GHashTable *targetIdHash,
       REPLACE_TARGET_ID(pOutTab, pInput, targetIdHash);
       for (i = 0; i < pOutTab->numrec; i++)
       {
-        g_strlcpy(pOutTab->record[i].insname,
-                  g_hash_table_lookup(insnameHash, pOutTab->record[i].insname),
-                  FLEN_VALUE);
+        REPLACE_INSNAME(&pOutTab->record[i], pOutTab->record[i].insname,
+                        insnameHash);
       }
       /* Append modified copy of table to output */
       pOutput->inspolList = g_list_append(pOutput->inspolList, pOutTab);
-- 
2.43.0


From 1f2f1f79fc56a72da41f7a9b39e5f08b8610b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:40 +0000
Subject: [PATCH 25/47] fix: merging files with DATE-OBS outside 1901-2099
 caused an abort

---
 src/oifitslib/datemjd.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/oifitslib/datemjd.c b/src/oifitslib/datemjd.c
index 6536504..1cb0f23 100644
--- a/src/oifitslib/datemjd.c
+++ b/src/oifitslib/datemjd.c
@@ -23,14 +23,13 @@
  * http://www.gnu.org/licenses/
  */
 
-#include <assert.h>
-
 /**
  * Convert Gregorian date to Modified Julian Day
  *
- * Algorithm adapted from http://aa.usno.navy.mil/faq/docs/JD_Formula.php
+ * Adapted from Fliegel & van Flandern (1968), Communications of the
+ * ACM 11, no. 10, p. 657
  *
- * @param year   year (1901-2099) of the date to convert
+ * @param year   year of the date to convert
  * @param month  month (1-12) of the date to convert
  * @param day    day of month (1-31) of the date to convert
  *
@@ -38,9 +37,10 @@
  */
 long date2mjd(long year, long month, long day)
 {
-  assert(year >= 1901 && year <= 2099);
-  return (367 * year - (7 * (year + (month + 9) / 12)) / 4 + (275 * month) / 9 +
-          day + 1721013 - 2400000);
+  const long a = (month - 14) / 12;
+
+  return (1461 * (year + 4800 + a)) / 4 + (367 * (month - 2 - 12 * a)) / 12 -
+         (3 * ((year + 4900 + a) / 100)) / 4 + day - 32075 - 2400001;
 }
 
 /**
-- 
2.43.0


From 95c57565d542f5d608e828a2e33fcfb0a55d339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:40 +0000
Subject: [PATCH 26/47] fix: absurd MJD values caused an overflow when deriving
 DATE-OBS

---
 src/oifitslib/oifile.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index afc587d..78a8291 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -566,6 +566,8 @@ void set_oi_header(oi_fits *pOi)
   const char multiple[] = "MULTIPLE";
   oi_array *pArray;
   oi_wavelength *pWave;
+  const double firstMjd = -678575.; /* 0001-01-01 */
+  double minMjd;
   long year, month, day;
 
   /* Set TELESCOP */
@@ -605,7 +607,9 @@ void set_oi_header(oi_fits *pOi)
   }
 
   /* Set DATE-OBS */
-  mjd2date(floor(get_min_mjd(pOi)), &year, &month, &day);
+  minMjd = get_min_mjd(pOi);
+  if (minMjd < firstMjd) minMjd = firstMjd; /* don't overflow */
+  mjd2date(floor(minMjd), &year, &month, &day);
   g_snprintf(pOi->header.date_obs, FLEN_VALUE, "%4ld-%02ld-%02ld", year, month,
              day);
 
-- 
2.43.0


From e618f113dccf3a254ceda4603a45d207f5753412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:40 +0000
Subject: [PATCH 27/47] fix: iterating over tables without records or a
 matching OI_WAVELENGTH caused a crash

---
 src/oifitslib/oiiter.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/oifitslib/oiiter.c b/src/oifitslib/oiiter.c
index 5c975fe..4a836e4 100644
--- a/src/oifitslib/oiiter.c
+++ b/src/oifitslib/oiiter.c
@@ -213,6 +213,11 @@ static bool oi_t3_iter_accept_record(oi_t3_iter *pIter)
   return true;
 }
 
+/** Does table contain any data, with channels defined by its OI_WAVELENGTH? */
+#define HAS_DATA(pTable, pWave)                                                \
+  ((pTable)->numrec > 0 && (pWave) != NULL &&                                  \
+   (pTable)->nwave == (pWave)->nwave)
+
 #define ACCEPT_ARRNAME(pTable, pFilter)                                        \
   ((pFilter)->arrname_pttn == NULL ||                                          \
    g_pattern_match_string((pFilter)->arrname_pttn, (pTable)->arrname))
@@ -231,7 +236,8 @@ static bool oi_t3_iter_accept_record(oi_t3_iter *pIter)
 static bool oi_vis_iter_accept_table(oi_vis_iter *pIter)
 {
   oi_vis *pTable = (oi_vis *)pIter->link->data;
-  return (ACCEPT_ARRNAME(pTable, &pIter->filter) &&
+  return (HAS_DATA(pTable, pIter->pWave) &&
+          ACCEPT_ARRNAME(pTable, &pIter->filter) &&
           ACCEPT_INSNAME(pTable, &pIter->filter) &&
           ACCEPT_CORRNAME(pTable, &pIter->filter));
 }
@@ -242,7 +248,8 @@ static bool oi_vis_iter_accept_table(oi_vis_iter *pIter)
 static bool oi_vis2_iter_accept_table(oi_vis2_iter *pIter)
 {
   oi_vis2 *pTable = (oi_vis2 *)pIter->link->data;
-  return (ACCEPT_ARRNAME(pTable, &pIter->filter) &&
+  return (HAS_DATA(pTable, pIter->pWave) &&
+          ACCEPT_ARRNAME(pTable, &pIter->filter) &&
           ACCEPT_INSNAME(pTable, &pIter->filter) &&
           ACCEPT_CORRNAME(pTable, &pIter->filter));
 }
@@ -253,7 +260,8 @@ static bool oi_vis2_iter_accept_table(oi_vis2_iter *pIter)
 static bool oi_t3_iter_accept_table(oi_t3_iter *pIter)
 {
   oi_t3 *pTable = (oi_t3 *)pIter->link->data;
-  return (ACCEPT_ARRNAME(pTable, &pIter->filter) &&
+  return (HAS_DATA(pTable, pIter->pWave) &&
+          ACCEPT_ARRNAME(pTable, &pIter->filter) &&
           ACCEPT_INSNAME(pTable, &pIter->filter) &&
           ACCEPT_CORRNAME(pTable, &pIter->filter));
 }
-- 
2.43.0


From 5b98cf0a9c116e406b373e1d1746165cc67c8aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:40 +0000
Subject: [PATCH 28/47] fix: checks that found breaches of two kinds caused an
 abort

---
 src/oifitslib/oicheck.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index 55a2164..05cd947 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -64,8 +64,13 @@ static void set_result(oi_check_result *pResult, oi_breach_level level,
   if (level > pResult->level) pResult->level = level;
   if (pResult->description == NULL)
     pResult->description = g_string_chunk_insert(pResult->chunk, description);
-  else
-    g_assert_cmpstr(description, ==, pResult->description);
+  else if (strstr(pResult->description, description) == NULL)
+  {
+    /* Different kinds of breach detected by same check */
+    char *both = g_strdup_printf("%s / %s", pResult->description, description);
+    pResult->description = g_string_chunk_insert(pResult->chunk, both);
+    g_free(both);
+  }
   if (++pResult->numBreach < MAX_REPORT)
   {
     pResult->location[pResult->numBreach - 1] =
-- 
2.43.0


From eb63ec9e30f73d60f29205fdb0984cd2e080cee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:40 +0000
Subject: [PATCH 29/47] fix: wrong OI_INSPOL table number was reported for
 missing ARRNAME

---
 src/oifitslib/oicheck.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index 05cd947..1375f4c 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -632,7 +632,7 @@ oi_breach_level check_arrname(const oi_fits *pOi, oi_check_result *pResult)
       if (strlen(pInspol->arrname) == 0)
       {
         g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d",
-                   g_list_position(pOi->visList, link) + 1);
+                   g_list_position(pOi->inspolList, link) + 1);
         set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
       }
       link = link->next;
@@ -746,7 +746,7 @@ oi_breach_level check_elements_present(const oi_fits *pOi,
     else
     {
       g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d",
-                 g_list_position(pOi->visList, link) + 1);
+                 g_list_position(pOi->inspolList, link) + 1);
       set_result(pResult, OI_BREACH_NOT_OIFITS, desc2, location);
     }
     link = link->next;
-- 
2.43.0


From ee91d5d0a268dcce94aed5bf5c800a42776d33cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:40 +0000
Subject: [PATCH 30/47] fix: check_flux read beyond the end of a table without
 records

---
 src/oifitslib/oicheck.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index 1375f4c..c4daa6d 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -1219,7 +1219,7 @@ oi_breach_level check_flux(const oi_fits *pOi, oi_check_result *pResult)
                    g_list_position(pOi->fluxList, link) + 1, pFlux->arrname);
         set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
       }
-      if (pFlux->record[0].sta_index != -1)
+      if (pFlux->numrec > 0 && pFlux->record[0].sta_index != -1)
       {
         g_snprintf(location, FLEN_VALUE,
                    "OI_FLUX #%d Calibrated but STA_INDEX present",
@@ -1236,7 +1236,7 @@ oi_breach_level check_flux(const oi_fits *pOi, oi_check_result *pResult)
                    g_list_position(pOi->fluxList, link) + 1);
         set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
       }
-      if (pFlux->record[0].sta_index == -1)
+      if (pFlux->numrec > 0 && pFlux->record[0].sta_index == -1)
       {
         g_snprintf(location, FLEN_VALUE,
                    "OI_FLUX #%d Uncalibrated but STA_INDEX missing",
-- 
2.43.0


From 29bd9c3cc925020fb900dc08ef0804aa3ca1c1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:40 +0000
Subject: [PATCH 31/47] fix: check_targets_present ignored the targets of
 OI_INSPOL records

---
 src/oifitslib/oicheck.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index c4daa6d..5fa2d28 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -518,6 +518,7 @@ oi_breach_level check_targets_present(const oi_fits *pOi,
 {
   GList *link;
   int i;
+  oi_inspol *pInspol;
   oi_vis *pVis;
   oi_vis2 *pVis2;
   oi_t3 *pT3;
@@ -527,6 +528,23 @@ oi_breach_level check_targets_present(const oi_fits *pOi,
 
   init_check_result(pResult);
 
+  /* Check OI_INSPOL tables */
+  link = pOi->inspolList;
+  while (link != NULL)
+  {
+    pInspol = link->data;
+    for (i = 0; i < pInspol->numrec; i++)
+    {
+      if (oi_fits_lookup_target(pOi, pInspol->record[i].target_id) == NULL)
+      {
+        g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d record %d",
+                   g_list_position(pOi->inspolList, link) + 1, i + 1);
+        set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
+      }
+    }
+    link = link->next;
+  }
+
   /* Check OI_VIS tables */
   link = pOi->visList;
   while (link != NULL)
-- 
2.43.0


From ac84d6764fda69654727f620bef8d2585e14a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:40 +0000
Subject: [PATCH 32/47] fix: print_check_result printed a null pointer if there
 was no breach

---
 src/oifitslib/oicheck.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index 5fa2d28..3c0365f 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -125,7 +125,9 @@ char *format_check_result(oi_check_result *pResult)
  */
 void print_check_result(oi_check_result *pResult)
 {
-  printf("%s", format_check_result(pResult));
+  const char *str = format_check_result(pResult);
+
+  if (str != NULL) printf("%s", str);
 }
 
 #define CHECK_BAD_TAB_REVISION(tabList, tabType, tabName, rev)                 \
-- 
2.43.0


From cfbc518dccdc688bc22e8f31bce9953fb6d9d130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:40 +0000
Subject: [PATCH 33/47] fix: oifits-upgrade crashed if INSMODE was not given

---
 src/util/oifits-upgrade.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/oifits-upgrade.c b/src/util/oifits-upgrade.c
index 7a05c34..0bfdbb9 100644
--- a/src/util/oifits-upgrade.c
+++ b/src/util/oifits-upgrade.c
@@ -36,7 +36,7 @@ int main(int argc, char *argv[])
   int status;
 
   /* Parse command-line */
-  if (argc < 5)
+  if (argc < 6)
   {
     printf("Usage:\n%s INFILE OUTFILE ORIGIN OBSERVER INSMODE\n", argv[0]);
     exit(2); /* standard unix behaviour */
-- 
2.43.0


From 1e54d63f82291bdf0ec8536a050b6533b1fe1c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:31 +0000
Subject: [PATCH 34/47] fix: header giving an HDU a negative size caused an
 endless loop

---
 src/oifitslib/read_fits.c | 66 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 65 insertions(+), 1 deletion(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 73a8663..e2a65a9 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -270,6 +270,68 @@ static STATUS verify_chksum(fitsfile *fptr, STATUS *pStatus)
   return *pStatus;
 }
 
+/**
+ * Move to next HDU.
+ *
+ * If the header of the current HDU gives it a negative size, cfitsio finds
+ * the next HDU at or before the current one, and would never reach the end of
+ * the file. This is reported as an error.
+ *
+ * @param fptr      see cfitsio documentation
+ * @param pHduType  return location for HDU type
+ * @param pStatus   pointer to status variable
+ *
+ * @return On error, returns non-zero cfitsio error code (also assigned to
+ *         *pStatus)
+ */
+static STATUS next_hdu(fitsfile *fptr, int *pHduType, STATUS *pStatus)
+{
+  LONGLONG oldStart, newStart;
+
+  if (*pStatus) return *pStatus; /* error flag set - do nothing */
+
+  fits_get_hduaddrll(fptr, &oldStart, NULL, NULL, pStatus);
+  fits_movrel_hdu(fptr, 1, pHduType, pStatus);
+  fits_get_hduaddrll(fptr, &newStart, NULL, NULL, pStatus);
+  if (!*pStatus && newStart <= oldStart)
+  {
+    fits_write_errmsg("HDU has negative size");
+    *pStatus = READ_ERROR;
+  }
+  return *pStatus;
+}
+
+/**
+ * Check that the end of the file can be reached by moving from HDU to HDU.
+ *
+ * To be used before calling cfitsio functions that search all HDUs. Leaves the
+ * current HDU unchanged.
+ *
+ * @param fptr     see cfitsio documentation
+ * @param pStatus  pointer to status variable
+ *
+ * @return On error, returns non-zero cfitsio error code (also assigned to
+ *         *pStatus)
+ */
+static STATUS check_hdus(fitsfile *fptr, STATUS *pStatus)
+{
+  int current, hdutype;
+  STATUS endStatus = 0;
+
+  if (*pStatus) return *pStatus; /* error flag set - do nothing */
+
+  fits_get_hdu_num(fptr, &current);
+  fits_movabs_hdu(fptr, 1, &hdutype, pStatus);
+  if (*pStatus) return *pStatus;
+  fits_write_errmark();
+  while (next_hdu(fptr, &hdutype, &endStatus) == 0)
+    ;
+  if (endStatus == READ_ERROR) return (*pStatus = endStatus);
+  fits_clear_errmark();
+  fits_movabs_hdu(fptr, current, &hdutype, pStatus);
+  return *pStatus;
+}
+
 /**
  * Move to next binary table HDU with specified EXTNAME.
  *
@@ -291,7 +353,7 @@ static STATUS next_named_hdu(fitsfile *fptr, const char *reqName,
   /* Move to correct HDU - don't assume anything about EXTVERs */
   while (1 == 1)
   {
-    fits_movrel_hdu(fptr, 1, &hdutype, pStatus);
+    next_hdu(fptr, &hdutype, pStatus);
     if (*pStatus) return *pStatus; /* no more HDUs */
     if (hdutype == BINARY_TBL)
     {
@@ -351,6 +413,7 @@ static STATUS specific_named_hdu(fitsfile *fptr, const char *reqName,
   if (*pStatus) return *pStatus; /* error flag set - do nothing */
 
   /* Move to correct HDU - don't assume anything about EXTVERs */
+  check_hdus(fptr, pStatus);
   fits_get_num_hdus(fptr, &nhdu, pStatus);
   if (*pStatus) return *pStatus;
   for (ihdu = 2; ihdu <= nhdu; ihdu++)
@@ -780,6 +843,7 @@ STATUS read_oi_target(fitsfile *fptr, oi_target *pTargets, STATUS *pStatus)
 
   if (*pStatus) return *pStatus; /* error flag set - do nothing */
 
+  check_hdus(fptr, pStatus);
   fits_movnam_hdu(fptr, BINARY_TBL, "OI_TARGET", 0, pStatus);
   verify_chksum(fptr, pStatus);
   fits_read_key(fptr, TINT, "OI_REVN", &pTargets->revision, NULL, pStatus);
-- 
2.43.0


From 32c49cb8cc6b565d0c76c3d4fb0cee3fb8aba9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:33 +0000
Subject: [PATCH 35/47] fix: checksum verification of an HDU of absurd size
 took minutes

---
 src/oifitslib/read_fits.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index e2a65a9..382f8de 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -241,11 +241,24 @@ static bool read_col_string_truncate(fitsfile *fptr, bool optional,
 static STATUS verify_chksum(fitsfile *fptr, STATUS *pStatus)
 {
   int dataok, hduok;
-  char extname[FLEN_VALUE];
+  char extname[FLEN_VALUE], chksum[FLEN_VALUE];
   int hdunum, extver;
+  LONGLONG dataend;
 
   if (*pStatus) return *pStatus; /* error flag set - do nothing */
 
+  if (!read_key_opt_string(fptr, "CHECKSUM", chksum, pStatus) &&
+      !read_key_opt_string(fptr, "DATASUM", chksum, pStatus))
+    return *pStatus; /* nothing to verify */
+  /* cfitsio would sum all the data that exist according to the header */
+  fits_get_hduaddrll(fptr, NULL, NULL, &dataend, pStatus);
+  if (!*pStatus && dataend > fptr->Fptr->filesize)
+  {
+    fits_write_errmsg("HDU extends beyond end of file");
+    *pStatus = READ_ERROR;
+  }
+  if (*pStatus) return *pStatus;
+
   fits_verify_chksum(fptr, &dataok, &hduok, pStatus);
   if (dataok == -1 || hduok == -1)
   {
-- 
2.43.0


From b6c36e41604b065489888c7971a5667b4618cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:44 +0000
Subject: [PATCH 36/47] fix: checksum warning printed uninitialised text when
 verification failed

---
 src/oifitslib/read_fits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 382f8de..5165e51 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -260,6 +260,7 @@ static STATUS verify_chksum(fitsfile *fptr, STATUS *pStatus)
   if (*pStatus) return *pStatus;
 
   fits_verify_chksum(fptr, &dataok, &hduok, pStatus);
+  if (*pStatus) return *pStatus;
   if (dataok == -1 || hduok == -1)
   {
     fits_get_hdu_num(fptr, &hdunum);
-- 
2.43.0


From 06dd378bcb35b71b04224b1e01300a8674642aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:32 +0000
Subject: [PATCH 37/47] fix: do not merge arrays or instruments whose undefined
 (NaN) values match anything

---
 src/oifitslib/oimerge.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 2b751a0..1e721a3 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -54,6 +54,15 @@ static element *lookup_element(const oi_array *pArray, int staIndex)
   return NULL;
 }
 
+/**
+ * Are two values equal to within @a tol, or both undefined (NaN)?
+ */
+static gboolean same_value(double val1, double val2, double tol)
+{
+  if (isnan(val1) || isnan(val2)) return (isnan(val1) && isnan(val2));
+  return (val1 == val2 || fabs(val1 - val2) <= tol);
+}
+
 /**
  * Return pointer to first oi_array in list that contains identical
  * coordinates and station indices to pArray.
@@ -77,18 +86,21 @@ static oi_array *match_oi_array(const oi_array *pArray, const GList *list)
     pCmp = (oi_array *)link->data;
     link = link->next; /* follow link now so we can use continue statements */
 
-    if (fabs(pArray->arrayx - pCmp->arrayx) > tol) continue;
-    if (fabs(pArray->arrayy - pCmp->arrayy) > tol) continue;
-    if (fabs(pArray->arrayz - pCmp->arrayz) > tol) continue;
+    if (!same_value(pArray->arrayx, pCmp->arrayx, tol)) continue;
+    if (!same_value(pArray->arrayy, pCmp->arrayy, tol)) continue;
+    if (!same_value(pArray->arrayz, pCmp->arrayz, tol)) continue;
 
     for (i = 0; i < pArray->nelement; i++)
     {
       pCmpEl = lookup_element(pCmp, pArray->elem[i].sta_index);
       if (pCmpEl == NULL) break;
-      if (fabs(pArray->elem[i].staxyz[0] - pCmpEl->staxyz[0]) > tol) break;
-      if (fabs(pArray->elem[i].staxyz[1] - pCmpEl->staxyz[1]) > tol) break;
-      if (fabs(pArray->elem[i].staxyz[2] - pCmpEl->staxyz[2]) > tol) break;
-      if (fabs(pArray->elem[i].diameter - pCmpEl->diameter) > ftol) break;
+      if (!same_value(pArray->elem[i].staxyz[0], pCmpEl->staxyz[0], tol))
+        break;
+      if (!same_value(pArray->elem[i].staxyz[1], pCmpEl->staxyz[1], tol))
+        break;
+      if (!same_value(pArray->elem[i].staxyz[2], pCmpEl->staxyz[2], tol))
+        break;
+      if (!same_value(pArray->elem[i].diameter, pCmpEl->diameter, ftol)) break;
       if (pArray->revision >= 2 && pCmp->revision >= 2)
       {
         /* compare FOV in OIFITS v2+ */
@@ -121,8 +133,8 @@ static oi_wavelength *match_oi_wavelength(const oi_wavelength *pWave,
     {
       for (i = 0; i < pWave->nwave; i++)
       {
-        if (fabs(pCmp->eff_wave[i] - pWave->eff_wave[i]) >= tol ||
-            fabs(pCmp->eff_band[i] - pWave->eff_band[i]) >= tol)
+        if (!same_value(pCmp->eff_wave[i], pWave->eff_wave[i], tol) ||
+            !same_value(pCmp->eff_band[i], pWave->eff_band[i], tol))
           break;
       }
       if (i == pWave->nwave) return pCmp; /* all wavebands match */
-- 
2.43.0


From 3973fa501db144a15020540dc3b98d88961464bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:41 +0000
Subject: [PATCH 38/47] fix: verify the checksums of a table in a file that is
 still being written

---
 src/oifitslib/read_fits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 5165e51..1d8bb78 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -252,7 +252,7 @@ static STATUS verify_chksum(fitsfile *fptr, STATUS *pStatus)
     return *pStatus; /* nothing to verify */
   /* cfitsio would sum all the data that exist according to the header */
   fits_get_hduaddrll(fptr, NULL, NULL, &dataend, pStatus);
-  if (!*pStatus && dataend > fptr->Fptr->filesize)
+  if (!*pStatus && dataend > fptr->Fptr->logfilesize)
   {
     fits_write_errmsg("HDU extends beyond end of file");
     *pStatus = READ_ERROR;
-- 
2.43.0


From 9c7953adbdcfa4a08538aaf6f24e8e9e5d0b655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:18 +0000
Subject: [PATCH 39/47] fix: check for failure of the reallocations in filters

---
 src/oifitslib/oifilter.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index 2cdf31d..051f031 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -777,9 +777,9 @@ void filter_oi_wavelength(const oi_wavelength *pInWave,
   }
   if (pOutWave->nwave > 0 && pOutWave->nwave < pInWave->nwave)
   {
-    pOutWave->eff_wave = realloc(
+    pOutWave->eff_wave = chkrealloc(
         pOutWave->eff_wave, pOutWave->nwave * sizeof(pInWave->eff_wave[0]));
-    pOutWave->eff_band = realloc(
+    pOutWave->eff_band = chkrealloc(
         pOutWave->eff_band, pOutWave->nwave * sizeof(pInWave->eff_band[0]));
   }
 }
@@ -1249,7 +1249,7 @@ void filter_oi_vis(const oi_vis *pInTab, const oi_filter_spec *pFilter,
   }
   pOutTab->numrec = nrec;
   if (nrec > 0)
-    pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_vis_record));
+    pOutTab->record = chkrealloc(pOutTab->record, nrec * sizeof(oi_vis_record));
 }
 
 /**
@@ -1450,7 +1450,8 @@ void filter_oi_vis2(const oi_vis2 *pInTab, const oi_filter_spec *pFilter,
   }
   pOutTab->numrec = nrec;
   if (nrec > 0)
-    pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_vis2_record));
+    pOutTab->record =
+        chkrealloc(pOutTab->record, nrec * sizeof(oi_vis2_record));
 }
 
 /**
@@ -1718,7 +1719,7 @@ void filter_oi_t3(const oi_t3 *pInTab, const oi_filter_spec *pFilter,
   }
   pOutTab->numrec = nrec;
   if (nrec > 0)
-    pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_t3_record));
+    pOutTab->record = chkrealloc(pOutTab->record, nrec * sizeof(oi_t3_record));
 }
 
 /**
@@ -1862,7 +1863,8 @@ void filter_oi_flux(const oi_flux *pInTab, const oi_filter_spec *pFilter,
   }
   pOutTab->numrec = nrec;
   if (nrec > 0)
-    pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_flux_record));
+    pOutTab->record =
+        chkrealloc(pOutTab->record, nrec * sizeof(oi_flux_record));
 }
 
 /**
-- 
2.43.0


From e1276c610663d936d6b173c0fb74bd4165d1f29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:44 +0000
Subject: [PATCH 40/47] fix: wrong DATE-OBS and time span for observations
 before 1000, before 1858 or after 2132

---
 src/oifitslib/oifile.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 78a8291..19c4bf3 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -27,6 +27,7 @@
 #include "chkmalloc.h"
 #include "datemjd.h"
 
+#include <float.h>
 #include <stdlib.h>
 #include <string.h>
 #include <math.h>
@@ -225,7 +226,7 @@ static double get_min_mjd(const oi_fits *pOi)
   int i;
   double minMjd;
 
-  minMjd = 100000;
+  minMjd = DBL_MAX;
   link = pOi->visList;
   while (link != NULL)
   {
@@ -266,7 +267,7 @@ static double get_min_mjd(const oi_fits *pOi)
     }
     link = link->next;
   }
-  return minMjd;
+  return (minMjd < DBL_MAX) ? minMjd : 100000;
 }
 
 /**
@@ -282,7 +283,7 @@ static double get_max_mjd(const oi_fits *pOi)
   int i;
   double maxMjd;
 
-  maxMjd = 0;
+  maxMjd = -DBL_MAX;
   link = pOi->visList;
   while (link != NULL)
   {
@@ -323,7 +324,7 @@ static double get_max_mjd(const oi_fits *pOi)
     }
     link = link->next;
   }
-  return maxMjd;
+  return (maxMjd > -DBL_MAX) ? maxMjd : 0;
 }
 
 /*
@@ -567,6 +568,7 @@ void set_oi_header(oi_fits *pOi)
   oi_array *pArray;
   oi_wavelength *pWave;
   const double firstMjd = -678575.; /* 0001-01-01 */
+  const double lastMjd = 2973483.;  /* 9999-12-31 */
   double minMjd;
   long year, month, day;
 
@@ -609,8 +611,9 @@ void set_oi_header(oi_fits *pOi)
   /* Set DATE-OBS */
   minMjd = get_min_mjd(pOi);
   if (minMjd < firstMjd) minMjd = firstMjd; /* don't overflow */
+  if (minMjd > lastMjd) minMjd = lastMjd;
   mjd2date(floor(minMjd), &year, &month, &day);
-  g_snprintf(pOi->header.date_obs, FLEN_VALUE, "%4ld-%02ld-%02ld", year, month,
+  g_snprintf(pOi->header.date_obs, FLEN_VALUE, "%04ld-%02ld-%02ld", year, month,
              day);
 
   /* Set other mandatory keywords */
-- 
2.43.0


From 7adc22a1afa924fb3725e91abc443af1539b1c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:44 +0000
Subject: [PATCH 41/47] fix: merging files with DATE-OBS after 2132 or before
 1000 gave a wrong or malformed date

---
 src/oifitslib/oimerge.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 1e721a3..6a1f24f 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -27,6 +27,7 @@
 #include "chkmalloc.h"
 #include "datemjd.h"
 
+#include <limits.h>
 #include <string.h>
 #include <math.h>
 
@@ -153,7 +154,7 @@ static long files_min_mjd(const GList *list)
   oi_header *pHeader;
   long year, month, day, mjd, minMjd;
 
-  minMjd = 100000;
+  minMjd = LONG_MAX;
   link = list;
   while (link != NULL)
   {
@@ -165,7 +166,7 @@ static long files_min_mjd(const GList *list)
     /* note DATE-OBS is set from file contents when reading v1 files */
     link = link->next;
   }
-  return minMjd;
+  return (minMjd < LONG_MAX) ? minMjd : 100000;
 }
 
 /**
@@ -236,7 +237,7 @@ void merge_oi_header(const GList *inList, oi_fits *pOutput)
   g_assert_cmpint(strlen(pOutput->header.origin), ==, 0);
 
   mjd2date(files_min_mjd(inList), &year, &month, &day);
-  g_snprintf(pOutput->header.date_obs, FLEN_VALUE, "%4ld-%02ld-%02ld", year,
+  g_snprintf(pOutput->header.date_obs, FLEN_VALUE, "%04ld-%02ld-%02ld", year,
              month, day);
 
   /* Ensure merged header passes check */
-- 
2.43.0


From d9c2704d39c8e4352a1a52702d76da041fed7be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:37 +0000
Subject: [PATCH 42/47] fix: oitable-demo garbled its input after a target name
 or spectral type of over 16 characters

---
 src/oifitslib/oitable-demo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/oitable-demo.c b/src/oifitslib/oitable-demo.c
index d279b76..0a40eaa 100644
--- a/src/oifitslib/oitable-demo.c
+++ b/src/oifitslib/oitable-demo.c
@@ -119,7 +119,7 @@ void demo_write(void)
   for (itarg = 0; itarg < targets.ntarget; itarg++)
   {
     fscanf(fp, "target_id %d ", &targets.targ[itarg].target_id);
-    fscanf(fp, "target %16s ", targets.targ[itarg].target);
+    fscanf(fp, "target %32s ", targets.targ[itarg].target);
     fscanf(fp, "raep0 %lf ", &targets.targ[itarg].raep0);
     fscanf(fp, "decep0 %lf ", &targets.targ[itarg].decep0);
     fscanf(fp, "equinox %f ", &targets.targ[itarg].equinox);
@@ -134,7 +134,7 @@ void demo_write(void)
     fscanf(fp, "pmdec_err %lf ", &targets.targ[itarg].pmdec_err);
     fscanf(fp, "parallax %f ", &targets.targ[itarg].parallax);
     fscanf(fp, "para_err %f ", &targets.targ[itarg].para_err);
-    fscanf(fp, "spectyp %16s ", targets.targ[itarg].spectyp);
+    fscanf(fp, "spectyp %32s ", targets.targ[itarg].spectyp);
     if (scan_opt_string(fp, "category %3s", targets.targ[itarg].category))
       targets.usecategory = TRUE;
     fscanf(fp, " ");
-- 
2.43.0


From 8be733d7e0b10c0229f0d755e446aa45d1f25c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:37 +0000
Subject: [PATCH 43/47] fix: oitable-demo printed the CORRNAME of an OI_VIS
 table for OI_VIS2 tables

---
 src/oifitslib/oitable-demo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/oitable-demo.c b/src/oifitslib/oitable-demo.c
index 0a40eaa..15daefa 100644
--- a/src/oifitslib/oitable-demo.c
+++ b/src/oifitslib/oitable-demo.c
@@ -541,7 +541,7 @@ void demo_read(void)
   {
     if (read_next_oi_vis2(fptr, &vis2, &status)) break; /* no more OI_VIS2 */
     printf("Read OI_VIS2     with  ARRNAME=%s INSNAME=%s CORRNAME=%s\n",
-           vis2.arrname, vis2.insname, vis.corrname);
+           vis2.arrname, vis2.insname, vis2.corrname);
     if (strlen(vis2.arrname) > 0)
     {
       /* if ARRNAME specified, read corresponding OI_ARRAY */
-- 
2.43.0


From b8cfc674444f1c966942e2d154ab9bb904d3e512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:37 +0000
Subject: [PATCH 44/47] fix: oitable-demo crashed if its input could not be
 opened

---
 src/oifitslib/oitable-demo.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oifitslib/oitable-demo.c b/src/oifitslib/oitable-demo.c
index 15daefa..ce1dde1 100644
--- a/src/oifitslib/oitable-demo.c
+++ b/src/oifitslib/oitable-demo.c
@@ -91,6 +91,11 @@ void demo_write(void)
   filename[strlen(filename) - 1] = '\0'; /* zap newline */
 
   fp = fopen(filename, "r");
+  if (fp == NULL)
+  {
+    perror(filename);
+    exit(EXIT_FAILURE);
+  }
 
   /* Read info for OI_ARRAY table */
   fscanf(fp, "OI_ARRAY arrname %70s ", array.arrname);
-- 
2.43.0


From c32b033bc1fd67839000d7b55aeaa54a6f51c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:37 +0000
Subject: [PATCH 45/47] fix: oitable-demo overran FOVTYPE if the input gave
 over 6 characters

---
 src/oifitslib/oitable-demo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/oitable-demo.c b/src/oifitslib/oitable-demo.c
index ce1dde1..4c10125 100644
--- a/src/oifitslib/oitable-demo.c
+++ b/src/oifitslib/oitable-demo.c
@@ -111,7 +111,7 @@ void demo_write(void)
     fscanf(fp, "staxyz %lf %lf %lf diameter %f ", &array.elem[i].staxyz[0],
            &array.elem[i].staxyz[1], &array.elem[i].staxyz[2],
            &array.elem[i].diameter);
-    fscanf(fp, "fov %lf fovtype %s ", &array.elem[i].fov,
+    fscanf(fp, "fov %lf fovtype %6s ", &array.elem[i].fov,
            array.elem[i].fovtype);
     array.elem[i].sta_index = i + 1;
   }
-- 
2.43.0


From 5079c2ed83f4fbc0270d3826b650489d7a70701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:26 +0000
Subject: [PATCH 46/47] fix: oitable-demo missed OI_VIS tables that precede
 OI_TARGET

---
 src/oifitslib/oitable-demo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/oitable-demo.c b/src/oifitslib/oitable-demo.c
index 4c10125..95079d3 100644
--- a/src/oifitslib/oitable-demo.c
+++ b/src/oifitslib/oitable-demo.c
@@ -509,6 +509,7 @@ void demo_read(void)
 
   /* Read all OI_VIS tables & corresponding
      OI_ARRAY/OI_CORR/OI_WAVELENGTH tables */
+  fits_movabs_hdu(fptr, 1, &hdutype, &status); /* back to start */
   while (TRUE)
   {
     if (read_next_oi_vis(fptr, &vis, &status)) break; /* no more OI_VIS */
-- 
2.43.0


From 7df3365dc5338a7c4b27040c4252fdd183ebac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:43 +0000
Subject: [PATCH 47/47] fix: CATEGORY column of an OI_TARGET table without rows
 was not noticed

---
 src/oifitslib/read_fits.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 1d8bb78..e49cfc6 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -165,6 +165,26 @@ static bool read_col_string(fitsfile *fptr, bool optional, char *colname,
   }
 }
 
+/**
+ * Does the current table have a column with the specified name?
+ */
+static bool has_col(fitsfile *fptr, char *colname, STATUS *pStatus)
+{
+  int colnum;
+
+  if (*pStatus) return FALSE; /* error flag set - do nothing */
+
+  fits_write_errmark();
+  fits_get_colnum(fptr, CASEINSEN, colname, &colnum, pStatus);
+  if (*pStatus == COL_NOT_FOUND)
+  {
+    *pStatus = 0;
+    fits_clear_errmark();
+    return FALSE;
+  }
+  return (*pStatus == 0);
+}
+
 /**
  * Read string column.
  *
@@ -937,9 +957,10 @@ STATUS read_oi_target(fitsfile *fptr, oi_target *pTargets, STATUS *pStatus)
   if (pTargets->revision >= 2)
   {
     pTargets->usecategory =
-        (pTargets->ntarget > 0 &&
-         read_col_string(fptr, TRUE, "CATEGORY", 3, 1,
-                         pTargets->targ[0].category, pStatus));
+        (pTargets->ntarget > 0)
+            ? read_col_string(fptr, TRUE, "CATEGORY", 3, 1,
+                              pTargets->targ[0].category, pStatus)
+            : has_col(fptr, "CATEGORY", pStatus);
     if (pTargets->usecategory)
     {
       for (irow = 2; irow <= pTargets->ntarget; irow++)
-- 
2.43.0

