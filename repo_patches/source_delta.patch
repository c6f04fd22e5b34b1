From df427eea15ee4e5261acac4b47f63d03a4525c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:23 +0000
Subject: [PATCH 01/90] fix: refuse to edit a record's directory entry when the
 file is read-only

---
 src/fstd98/fstd98.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 1d01ae1..f2a615d 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1439,6 +1439,11 @@ int c_fst_edit_dir_plus(
         return(ERR_NO_FILE);
     }
 
+    if ((f->header->rwflg == RDMODE) || f->cur_info->attr.read_only) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) not open with write permission\n",__func__,f->iun);
+        return(ERR_NO_WRITE);
+    }
+
     l1 = Min(strlen(typvar), strlen(in_typvar));
     l2 = Min(strlen(nomvar), strlen(in_nomvar));
     l3 = Min(strlen(etiket), strlen(in_etiket));
-- 
2.43.0


From 7854ecbd2c4c2d08d63a67c99503433603d3cc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:23 +0000
Subject: [PATCH 02/90] fix: fstweo reports an error instead of success on a
 read-only file

---
 src/fstd98/fstd98.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index f2a615d..e58ea74 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -3370,6 +3370,11 @@ int c_fstweo(
         return(ERR_BAD_FTYPE);
     }
 
+    if (f->cur_info->attr.read_only) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) not open with write permission\n",__func__,iun);
+        return(ERR_NO_WRITE);
+    }
+
     VALID(level, 1, 15, "level", "c_fstweo");
     if (level < 15) {
         header64.idtyp = 112 + level;
-- 
2.43.0


From 723ec2d5d48baace7a292d89f8838407da76035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:24 +0000
Subject: [PATCH 03/90] fix: qdfrstr reports an error instead of success when
 its output file is read-only

---
 src/fstd98/xdf98.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 5cbe474..9000bf5 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -599,6 +599,12 @@ int c_qdfrstr(
     file_header fh;
     c_waread(inp, &fh, 1, W64TOWD(header64.lng));
     c_waopen(outp);
+    if (FGFDT[index_fnom].attr.read_only) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) not open with write permission\n",__func__,outp);
+        c_waclos(inp);
+        c_waclos(outp);
+        return(ERR_NO_WRITE);
+    }
 
     // Reset read/write flag to zero
     fh.rwflg = 0;
-- 
2.43.0


From b3d8fbfd85e899dad0a0e29eff9af2fec3da34a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:49 +0000
Subject: [PATCH 04/90] fix: resume a partial word-addressable write where it
 stopped instead of rewriting from the start of the buffer

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index f3d5c80..e5e55e1 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2296,7 +2296,7 @@ static void qqcwawr(
                 }
                 if (nwritten >= 0) {
                     int togo = (nwords * sizeof(uint32_t)) - nwritten;
-                    nwritten = write(lfd, buf, togo);
+                    nwritten = write(lfd, (const char *)buf + nwritten, togo);
                     Lib_Log(APP_LIBRMN,APP_ERROR,"%s: multiple write attempt of file %s last write=%d bytes, total needed=%ld bytes\n",__func__,FGFDT[indf].file_name,togo,nwords*sizeof(uint32_t));
                     if (nwritten != togo) {
                         Lib_Log(APP_LIBRMN,APP_ERROR,"%s: write error for file %s, filename=%s, buf=%p adr=%u, nmots=%d, nwritten=%d, errno=%d\n",__func__,FGFDT[indf].file_name,FGFDT[indf].file_name,buf,ladr,nwords,nwritten,errno);
-- 
2.43.0


From 91a788042285aef93a6d018121a42f185c0aa549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:49 +0000
Subject: [PATCH 05/90] fix: detect a failed page read in wa_page_read (signed
 result was compared as unsigned)

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index e5e55e1..434dc78 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2056,7 +2056,7 @@ static void wa_page_read(
             readbytes = sizeof(uint32_t) * WA_PAGE_SIZE;
         }
         int nbytes = read(fd, wafile[fileIdx].page[pageIdx].page_adr, sizeof(uint32_t) * WA_PAGE_SIZE);
-        if ( nbytes < readbytes ) {
+        if ( nbytes < 0 || nbytes < readbytes ) {
             Lib_Log(APP_LIBRMN,APP_FATAL,"%s: cannot read page from file %d,fd=%d, tried to get %ld bytes, got %d\n",__func__,fileIdx,sizeof(uint32_t)*WA_PAGE_SIZE,nbytes);
             perror("WA_PAGE_READ");
             exit(1);
-- 
2.43.0


From ee66ae61c4314985d14b0bbaaa409b560dc6f749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:49 +0000
Subject: [PATCH 06/90] fix: c_sqputw returns the number of words written, not
 the size of its last write

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 434dc78..9225a8f 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1516,7 +1516,7 @@ int c_sqputw(
         aecrit += necrit;
         pbuf += (necrit / sizeof(uint32_t));
     }
-    return (aecrire == 0) ? necrit / sizeof(uint32_t) : -1;
+    return (aecrire == 0) ? aecrit / sizeof(uint32_t) : -1;
 }
 
 
-- 
2.43.0


From 445f06d494ca2cee67aa68ca6912485f2aa3acfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:49 +0000
Subject: [PATCH 07/90] fix: c_xdfcheck reports a file too short to hold a
 header as damaged

---
 src/fstd98/xdf98.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 9000bf5..b273896 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -93,6 +93,11 @@ int c_xdfcheck(
 
     fclose(fd);
 
+    if (num_records != 1) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: Cannot read file header\n",__func__);
+        return(ERR_DAMAGED);
+    }
+
     // Flip bytes in each 32-bit word (16 of them)
     for(int i = 0 ; i < 16 ; i++) {
         tmp = buf_ptr[i] ;
-- 
2.43.0


From 3a63db5fe27c1d214edf0aed3a67309c81ed28a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:04 +0000
Subject: [PATCH 08/90] fix: c_wb_checkpoint fails when any part of the
 checkpoint is only partially written

---
 src/whiteboard/WhiteBoard_c.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index bcb12a8..24659ed 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1412,7 +1412,7 @@ int c_wb_checkpoint()
 
     // Write signature
     status = write(fd, "WBckp100", 8);
-    if (status < 0) {
+    if (status != 8) {
         // Write error!
         close(fd);
         return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
@@ -1421,19 +1421,19 @@ int c_wb_checkpoint()
     while (page != NULL) {
         // Write number of lines in page
         status = write(fd, &(page->nbLines), 4);
-        if (status < 0) {
+        if (status != 4) {
             close(fd);
             return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
         }
         // Write number of next entry
         status = write(fd, &(page->firstFreeLine), 4);
-        if (status < 0) {
+        if (status != 4) {
             close(fd);
             return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
         }
         // Write page
         status = write(fd, &(page->line[0]), sizeof(wb_line) * page->nbLines);
-        if (status < 0) {
+        if (status != sizeof(wb_line) * page->nbLines) {
             close(fd);
             return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
         }
@@ -1444,7 +1444,7 @@ int c_wb_checkpoint()
 
     // 0 length page is the end marker
     status = write(fd, &zero, 4);
-    if (status < 0) {
+    if (status != 4) {
         close(fd);
         return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
     }
-- 
2.43.0


From b75c857870782dcfc19d6717957086190a88e69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:04 +0000
Subject: [PATCH 09/90] fix: c_wb_checkpoint closes its file descriptor on
 success

---
 src/whiteboard/WhiteBoard_c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 24659ed..26fbce6 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1449,6 +1449,7 @@ int c_wb_checkpoint()
         return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
     }
 
+    close(fd);
     return 0;
 }
 
-- 
2.43.0


From f9b8980812bdaf2ce72528c7167e985b27a69b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:16 +0000
Subject: [PATCH 10/90] fix: c_wb_reload refuses a truncated checkpoint instead
 of using unread data

---
 src/whiteboard/WhiteBoard_c.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 26fbce6..1a46953 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1753,17 +1753,33 @@ int c_wb_reload()
 
     // Page size
     status = read(fd, &pagelen, 4);
+    if (status != 4) {
+        close(fd);
+        return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
+    }
     while (pagelen > 0) {
         // Allocate new page
         status = new_page(BaseWhiteboardPtr, pagelen);
         // Next usable entry in page
         status = read(fd, &(BaseWhiteboardPtr->firstpage->firstFreeLine), 4);
+        if (status != 4) {
+            close(fd);
+            return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
+        }
         Lib_Log(APP_LIBWB,APP_DEBUG,"%s: Page %d, length=%d lines, next entry=%d\n",__func__,pageno,BaseWhiteboardPtr->firstpage->nbLines,BaseWhiteboardPtr->firstpage->firstFreeLine);
 
         // Read page
         status = read(fd, &(BaseWhiteboardPtr->firstpage->line[0]), sizeof(wb_line) * pagelen);
+        if (status != sizeof(wb_line) * pagelen) {
+            close(fd);
+            return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
+        }
         // Page size of next page, 0 means no more
         status = read(fd ,&pagelen, 4);
+        if (status != 4) {
+            close(fd);
+            return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
+        }
         pageno++;
     }
     close(fd);
-- 
2.43.0


From 1483869684b2085016be715259dcd7ca24e81d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:16 +0000
Subject: [PATCH 11/90] fix: c_wb_reload closes the checkpoint when pages
 already exist

---
 src/whiteboard/WhiteBoard_c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 1a46953..70eb0bf 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1741,6 +1741,7 @@ int c_wb_reload()
     }
     
     if (BaseWhiteboardPtr->firstpage != NULL) {
+        close(fd);
         return wb_error(WB_MSG_ERROR,WB_ERR_INITRESTART);
     }
    
-- 
2.43.0


From 1965bd0cdd25996d8c52f084a613a3f39dfb3628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:58 +0000
Subject: [PATCH 12/90] fix: f_def_84bitkey returns ig1 in ig1 instead of
 overwriting ip1

---
 src/fstd98/c_fstgrib_helper.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/c_fstgrib_helper.c b/src/fstd98/c_fstgrib_helper.c
index a916180..b32ab26 100644
--- a/src/fstd98/c_fstgrib_helper.c
+++ b/src/fstd98/c_fstgrib_helper.c
@@ -30,7 +30,7 @@ void c_def_84bitkey(int32_t *ip1, int32_t *ip2, int32_t *ip3, int32_t *ig1, int3
 void f77name(f_def_84bitkey)(int32_t *ip1, int32_t *ip2, int32_t *ip3, int32_t *ig1, int32_t *ig2,
   int32_t *ig3, int32_t *ig4, unsigned char *grib_header, int *len_grib_header)
 {
-    c_def_84bitkey(ip1, ip2, ip3, ip1, ig2, ig3, ig4, grib_header, *len_grib_header);
+    c_def_84bitkey(ip1, ip2, ip3, ig1, ig2, ig3, ig4, grib_header, *len_grib_header);
 }
 
 
-- 
2.43.0


From dddc4b29971d5c2d638d35c94084c59aa6cf0580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:58 +0000
Subject: [PATCH 13/90] fix: gdgaxes hands back the error of c_gdgaxes instead
 of always 0

---
 src/interp/gdgaxes.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/interp/gdgaxes.c b/src/interp/gdgaxes.c
index e59c723..d529660 100644
--- a/src/interp/gdgaxes.c
+++ b/src/interp/gdgaxes.c
@@ -25,8 +25,7 @@
 
 
 int32_t f77name(gdgaxes)(int32_t *gdid, float *ax, float *ay) {
-    c_gdgaxes(*gdid, ax, ay);
-    return 0;
+    return c_gdgaxes(*gdid, ax, ay);
 }
 
 int32_t c_gdgaxes(int32_t gdid, float *ax, float *ay) {
-- 
2.43.0


From 8184b227e0d6fd2783233c31a676b6fec778296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:58 +0000
Subject: [PATCH 14/90] fix: gdgxpndaxes hands back the error of c_gdgxpndaxes
 instead of always 0

---
 src/interp/ez_gdgxpndaxes.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/interp/ez_gdgxpndaxes.c b/src/interp/ez_gdgxpndaxes.c
index 2724260..a3bf7e3 100644
--- a/src/interp/ez_gdgxpndaxes.c
+++ b/src/interp/ez_gdgxpndaxes.c
@@ -26,8 +26,7 @@
 
 
 int32_t f77name(gdgxpndaxes)(int32_t *gdid, float *ax, float *ay) {
-   c_gdgxpndaxes(*gdid, ax, ay);
-   return 0;
+   return c_gdgxpndaxes(*gdid, ax, ay);
 }
 
 
-- 
2.43.0


From 531bba800230d1140bbbb26551e6a647ae1eb98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:20 +0000
Subject: [PATCH 15/90] fix: armn_compress_setswap sets the swap state instead
 of the compression level

---
 src/compresseur/c_zfstlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compresseur/c_zfstlib.c b/src/compresseur/c_zfstlib.c
index 1f8031e..c70ebe8 100644
--- a/src/compresseur/c_zfstlib.c
+++ b/src/compresseur/c_zfstlib.c
@@ -1361,7 +1361,7 @@ void f77name(armn_compress_setswap)(int32_t *swap)
 
     local_swap = *swap;
 
-    c_armn_compress_setlevel(local_swap);
+    c_armn_compress_setswap(local_swap);
 }
 
 
-- 
2.43.0


From 5c7582cbe32b2f9232332526a10d9fa7293fb7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:35 +0000
Subject: [PATCH 16/90] fix: string copies stay inside the source, basename
 keeps a name that has no slash

---
 src/primitives/clib_interface.c | 4 ++--
 src/primitives/ftn2c_helper_c.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/primitives/clib_interface.c b/src/primitives/clib_interface.c
index b5db8b1..ded4aa8 100644
--- a/src/primitives/clib_interface.c
+++ b/src/primitives/clib_interface.c
@@ -732,11 +732,11 @@ F77_INTEGER CLIB_F77NAME(clib_basename)(
     FTN2C_CSTR2FSTR(defStr, mybasename, 1, mybasename_length);
     mybasename[0] = '/';
     int lpath = path_length - 1;
-    if ( lpath == 1 && path[0] == '/' ) {
+    if ( lpath == 0 && path[0] == '/' ) {
         return CLIB_OK;
     }
     // scan backwards to find last '/' in path
-    while (lpath > 0 && path[lpath] != '/') {
+    while (lpath >= 0 && path[lpath] != '/') {
         lpath--;
     }
     F77_INTEGER status = FTN2C_CSTR2FSTR(path + lpath + 1, mybasename, path_length - lpath - 1, mybasename_length);
diff --git a/src/primitives/ftn2c_helper_c.c b/src/primitives/ftn2c_helper_c.c
index 9bc0c9f..870ebf9 100644
--- a/src/primitives/ftn2c_helper_c.c
+++ b/src/primitives/ftn2c_helper_c.c
@@ -35,10 +35,10 @@ int ftn2c_string_copy(
 ) {
     int i;
     // If there is a null before lsrc characters in the source string, act as if it was terminated at null
-    for (i = 0 ; src[i] != 0 && i < lsrc; i++);
+    for (i = 0 ; i < lsrc && src[i] != 0; i++);
     lsrc = i;
     // Ignore trailing blanks in source string
-    while (src[lsrc - 1] == ' ') lsrc--;
+    while (lsrc > 0 && src[lsrc - 1] == ' ') lsrc--;
     // No destination, just return trimmed source length
     if (dest == NULL) return lsrc;
     // Trimmed source longer than destination!
-- 
2.43.0


From 8963fc532ab2c9b5126c0e34f76acecd701f7dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:19 +0000
Subject: [PATCH 17/90] fix: sequential word transfers resume at the byte where
 a partial transfer stopped

---
 src/primitives/c_baseio.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 9225a8f..205249a 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1474,12 +1474,12 @@ int c_sqgetw(
     int fd = c_getfdsc(iun);
     if (fd <= 0) return fd;
 
-    uint32_t *pbuf = buf;
+    char *pbuf = (char *)buf;
     while (alire && (nlu > 0)) {
         nlu = read(fd, pbuf, alire);
         alire -= nlu;
         alu += nlu;
-        pbuf += (nlu / sizeof(uint32_t));
+        pbuf += nlu;
     }
     return (alire == 0) ? alu / sizeof(uint32_t) : -1;
 }
@@ -1509,12 +1509,12 @@ int c_sqputw(
     int fd = c_getfdsc(iun);
     if (fd <= 0) return fd;
 
-    const uint32_t *pbuf = buf;
+    const char *pbuf = (const char *)buf;
     while (aecrire && (necrit > 0)) {
         necrit = write(fd, pbuf, aecrire);
         aecrire -= necrit;
         aecrit += necrit;
-        pbuf += (necrit / sizeof(uint32_t));
+        pbuf += necrit;
     }
     return (aecrire == 0) ? aecrit / sizeof(uint32_t) : -1;
 }
-- 
2.43.0


From 759e89bb2fb5729e17585306cbe0a8544ef920a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:17 +0000
Subject: [PATCH 18/90] fix: c_gduvfwd on 'E' grids overwrote the caller's
 lat/lon with a rotation of uninitialised ones

---
 src/interp/gduvfwd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp/gduvfwd.c b/src/interp/gduvfwd.c
index 828edf6..7eb710f 100644
--- a/src/interp/gduvfwd.c
+++ b/src/interp/gduvfwd.c
@@ -44,7 +44,7 @@ int32_t c_gduvfwd_orig(int32_t gdid,  float *uugdout, float *vvgdout, float *uul
         case 'E':
             lat_true = (float *)(malloc(npts * sizeof(float)));
             lon_true = (float *)(malloc(npts * sizeof(float)));
-            f77name(ez_gfxyfll)(lon_true, lat_true, lonin, latin, &ni,
+            f77name(ez_gfxyfll)(lonin, latin, lon_true, lat_true, &ni,
                                 &Grille[gdrow_id][gdcol_id].fst.xg[XLAT1], &Grille[gdrow_id][gdcol_id].fst.xg[XLON1],
                                 &Grille[gdrow_id][gdcol_id].fst.xg[XLAT2], &Grille[gdrow_id][gdcol_id].fst.xg[XLON2]);
 
-- 
2.43.0


From cc9fa8a8c7d7c99ef25c4be1497c66fa3aace865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:17 +0000
Subject: [PATCH 19/90] fix: ez_llll2gd normalised the caller's longitudes in
 place

---
 src/interp/ez_llll2gd.inc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/interp/ez_llll2gd.inc b/src/interp/ez_llll2gd.inc
index 6424bf4..6499732 100644
--- a/src/interp/ez_llll2gd.inc
+++ b/src/interp/ez_llll2gd.inc
@@ -28,24 +28,28 @@
       real x(npts), y(npts), dlat(npts), dlon(npts)
       real xlat0, xlon0, dellat, dellon, lonref
       integer i
+      real xlon
 
       if (lonref.eq.-180.0) then
          do i=1,npts
-            if (dlon(i).gt.180.0) then
-               dlon(i) = dlon(i) - 360.0
+            xlon = dlon(i)
+            if (xlon.gt.180.0) then
+               xlon = xlon - 360.0
             endif
+            x(i) = (xlon - xlon0)/dellon + 1.0
          enddo
       else
 !    mai 2015 -correction by JP Gauthier
          do i=1,npts
-            if (dlon(i).lt.0.0) then
-               dlon(i) = dlon(i) + 360.0
+            xlon = dlon(i)
+            if (xlon.lt.0.0) then
+               xlon = xlon + 360.0
             endif
+            x(i) = (xlon - xlon0)/dellon + 1.0
          enddo
       endif
 
       do 10 i=1,npts
-         x(i) = (dlon(i) - xlon0)/dellon + 1.0
          y(i) = (dlat(i) - xlat0)/dellat + 1.0
  10   continue
 
-- 
2.43.0


From 9a9f7fc8f071289da04567af60c9167491262460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:17 +0000
Subject: [PATCH 20/90] fix: ez_vtllfxy overwrote the caller's x and y

---
 src/interp/ez_vtxyfll.inc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/interp/ez_vtxyfll.inc b/src/interp/ez_vtxyfll.inc
index c762f46..8472a8b 100644
--- a/src/interp/ez_vtxyfll.inc
+++ b/src/interp/ez_vtxyfll.inc
@@ -103,7 +103,7 @@
       real x(n), y(n), lat(n), lon(n), clat, clon, d60, dgrw
       real r
       real offsetx, offsety,sinclat,cosclat,sinclon,cosclon
-      real rho, c, a, b, temp
+      real rho, c, a, b, temp, xx, yy
 
 
       r = 6371000.0
@@ -116,21 +116,21 @@
       offsety = (-nj-1) * 0.5
 
       do i=1,n
-         x(i) = (x(i) + offsetx) * d60
-         y(i) = (y(i) + offsety) * d60
+         xx = (x(i) + offsetx) * d60
+         yy = (y(i) + offsety) * d60
 
-         rho = sqrt(x(i)*x(i) + y(i)*y(i))
+         rho = sqrt(xx*xx + yy*yy)
          if (rho.eq.0.0) then
             lat(i) = clat
             lon(i) = clon
          else
             c = 2.0 * atan(rho/(2.0*r))
 
-            temp = cos(c)*sinclat + (y(i) * sin(c) * cosclat)/rho
+            temp = cos(c)*sinclat + (yy * sin(c) * cosclat)/rho
             lat(i) = rdtodg * asin(max(-1.0, min(temp, 1.0)))
-            lon(i) = clon + rdtodg * atan(((x(i)*sin(c))/            (rho*cosclat*cos(c)-y(i)*sinclat*sin(c))))
-            a = x(i) * sin(c)
-            b = rho*cosclat*cos(c)-y(i)*sinclat*sin(c)
+            lon(i) = clon + rdtodg * atan(((xx*sin(c))/            (rho*cosclat*cos(c)-yy*sinclat*sin(c))))
+            a = xx * sin(c)
+            b = rho*cosclat*cos(c)-yy*sinclat*sin(c)
             lon(i) = clon + rdtodg * atan2(a,b)
 
 
-- 
2.43.0


From 1878a7db125cacab96434b53a6f35082e3ddc763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:17 +0000
Subject: [PATCH 21/90] fix: ezgetval/ezgetival trimmed the caller's option
 string in place, and overran a 32-byte copy

---
 src/interp/ezgetval.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interp/ezgetval.c b/src/interp/ezgetval.c
index e34eb6a..8bde1bc 100644
--- a/src/interp/ezgetval.c
+++ b/src/interp/ezgetval.c
@@ -29,11 +29,11 @@ int32_t f77name(ezgetval)(char *option, float *fvalue, F2Cl llenoption)
 {
    int32_t icode;
    char local_opt[32];
-   int32_t lenoption=llenoption;
+   int32_t lenoption = llenoption < 32 ? llenoption : 31;
 
-   ftnstrclean(option,lenoption);
    strncpy(local_opt, option, lenoption);
    local_opt[lenoption] = '\0';
+   ftnstrclean(local_opt, lenoption);
 
    icode = c_ezgetval(local_opt, fvalue);
 
@@ -43,11 +43,11 @@ int32_t f77name(ezgetval)(char *option, float *fvalue, F2Cl llenoption)
 int32_t f77name(ezgetival)(char *option, int32_t *ivalue, F2Cl llenoption)
 {
    char local_opt[32];
-   int32_t lenoption=llenoption;
+   int32_t lenoption = llenoption < 32 ? llenoption : 31;
 
-   ftnstrclean(option,lenoption);
    strncpy(local_opt, option, lenoption);
    local_opt[lenoption] = '\0';
+   ftnstrclean(local_opt, lenoption);
 
    return c_ezgetival(local_opt, ivalue);
 }
-- 
2.43.0


From 2e43f9c52af7e468b064880704b42d2aca3f2cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:17 +0000
Subject: [PATCH 22/90] fix: ez_igscint family and ez_rgll2gd trimmed the
 caller's grid type in place

---
 src/interp/ez_igscint.c | 16 ++++++++--------
 src/interp/ez_rgll2gd.c |  5 +----
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/interp/ez_igscint.c b/src/interp/ez_igscint.c
index fbdccd9..cde1dfc 100644
--- a/src/interp/ez_igscint.c
+++ b/src/interp/ez_igscint.c
@@ -35,8 +35,8 @@ int32_t f77name(ez_igscint)(float *zo, int32_t *li, int32_t *lj, float *xlat, fl
                     char* grtyp, char *grref, int32_t *ig1, int32_t *ig2, int32_t *ig3, int32_t *ig4,
                     float *sym, float *ax, float *ay, F2Cl lengrtyp, F2Cl lengrref)
 {
-    ftnstrclean(grtyp,lengrtyp);
-    ftnstrclean(grref,lengrref);
+    char lgrtyp[2] = {grtyp[0], '\0'};
+    char lgrref[2] = {grref[0], '\0'};
 
     int32_t npts = *li * *lj;
     float * tmplon = (float *) malloc(npts * sizeof(float));
@@ -44,7 +44,7 @@ int32_t f77name(ez_igscint)(float *zo, int32_t *li, int32_t *lj, float *xlat, fl
         tmplon[i] = xlon[i] < 0.0 ? xlon[i] + 360.0 : xlon[i];
     }
 
-    int32_t gdin = c_ezgdef_fmem(*ni, *nj, grtyp, grref,  *ig1,  *ig2,  *ig3,  *ig4, ax,   ay);
+    int32_t gdin = c_ezgdef_fmem(*ni, *nj, lgrtyp, lgrref,  *ig1,  *ig2,  *ig3,  *ig4, ax,   ay);
     c_gdllsval(gdin, zo, zi, xlat, tmplon, npts);
     free(tmplon);
     return 0;
@@ -80,9 +80,9 @@ int32_t f77name(ez_iguvint)(float *spdo, float *psio, int32_t *li, int32_t *lj,
         tmplon[i] = xlon[i] < 0.0 ? xlon[i] + 360.0 : xlon[i];
     }
 
-    ftnstrclean(grtyp,lengrtyp);
-    ftnstrclean(grref,lengrref);
-    int32_t gdin = c_ezgdef_fmem(*ni,*nj, grtyp, grref,  *ig1,  *ig2,  *ig3,  *ig4, ax, ay);
+    char lgrtyp[2] = {grtyp[0], '\0'};
+    char lgrref[2] = {grref[0], '\0'};
+    int32_t gdin = c_ezgdef_fmem(*ni,*nj, lgrtyp, lgrref,  *ig1,  *ig2,  *ig3,  *ig4, ax, ay);
     c_gdllwdval(gdin, spdo, psio, ui, vi, xlat, tmplon, npts);
     free(tmplon);
 }
@@ -98,8 +98,8 @@ int32_t f77name(ez_rguvint)(float *spdo, float *psio, int32_t *li, int32_t *lj,
         tmplon[i] = xlon[i] < 0.0 ? xlon[i] + 360.0 : xlon[i];
     }
 
-    ftnstrclean(grtyp,lengrtyp);
-    int32_t gdin  = c_ezgdef(*ni,*nj, grtyp, NULL,  *ig1,  *ig2,  *ig3,  *ig4, NULL, NULL);
+    char lgrtyp[2] = {grtyp[0], '\0'};
+    int32_t gdin  = c_ezgdef(*ni,*nj, lgrtyp, NULL,  *ig1,  *ig2,  *ig3,  *ig4, NULL, NULL);
     c_gdllwdval(gdin, spdo, psio, ui, vi, xlat, tmplon, npts);
     free(tmplon);
 }
diff --git a/src/interp/ez_rgll2gd.c b/src/interp/ez_rgll2gd.c
index 144e662..7115801 100644
--- a/src/interp/ez_rgll2gd.c
+++ b/src/interp/ez_rgll2gd.c
@@ -29,7 +29,7 @@ int f77name(ez_rgll2gd)(float *z1, float *z2, float *xlon, int32_t *ni, int32_t
                     char *grtyp, int32_t *ig1, int32_t *ig2, int32_t *ig3, int32_t *ig4,F2Cl lengrtyp)
 {
     float *tmplat;
-    char lgrtyp[2];
+    char lgrtyp[2] = {grtyp[0], '\0'};
 
     int32_t npts = *ni * *nj;
     tmplat = (float *)malloc(npts*sizeof(float));
@@ -37,9 +37,6 @@ int f77name(ez_rgll2gd)(float *z1, float *z2, float *xlon, int32_t *ni, int32_t
         tmplat[n] = 0.0;
     }
 
-    ftnstrclean(grtyp,lengrtyp);
-    strcpy(lgrtyp, grtyp);
-
     int32_t gdid = c_ezqkdef(*ni, *nj, lgrtyp, *ig1,  *ig2,  *ig3,  *ig4, 0);
 
     c_gduvfwd(gdid, z1, z2, z1, z2, tmplat, xlon, npts);
-- 
2.43.0


From 773584e6a4b1458feca05cbc44b5ab46ec824aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:17 +0000
Subject: [PATCH 23/90] fix: ez_llflamb overwrote the caller's x and y

---
 src/interp/ez_llflamb.inc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/interp/ez_llflamb.inc b/src/interp/ez_llflamb.inc
index a284a4d..b41ab94 100644
--- a/src/interp/ez_llflamb.inc
+++ b/src/interp/ez_llflamb.inc
@@ -29,6 +29,7 @@
 
       real xlat11, xlon11, xlatninj, xlonninj, dx, dy, latin1, latin2
       real yaxislat, yaxislon
+      real xx(npts), yy(npts)
       real x11, y11
       integer i
 
@@ -50,11 +51,11 @@
             call ez_lambxyfll99([x11], [y11], [xlat11], [xlon11], 1, latin1, latin2, yaxislat, yaxislon)
 
             do i=1, npts
-               x(i) = x11 + dx * (x(i) - 1.0)
-               y(i) = y11 + dy * (y(i) - 1.0)
+               xx(i) = x11 + dx * (x(i) - 1.0)
+               yy(i) = y11 + dy * (y(i) - 1.0)
             enddo
 
-            call ez_lambllfxy99(xlat, xlon, x, y, npts, latin1, latin2, yaxislat, yaxislon)
+            call ez_lambllfxy99(xlat, xlon, xx, yy, npts, latin1, latin2, yaxislat, yaxislon)
 
          endif
       endif
-- 
2.43.0


From fcd6f6a4ab0690ead571f993ae2c93a8fe6b7126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:17 +0000
Subject: [PATCH 24/90] fix: Lambert '!' grids: the origin was computed into
 array-constructor temporaries and lost

---
 src/interp/ez_lambfll.inc | 8 ++++----
 src/interp/ez_llflamb.inc | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/interp/ez_lambfll.inc b/src/interp/ez_lambfll.inc
index f046441..37d39ff 100644
--- a/src/interp/ez_lambfll.inc
+++ b/src/interp/ez_lambfll.inc
@@ -28,7 +28,7 @@
 
       real xlat11, xlon11, xlatninj, xlonninj, dx, dy, latin1, latin2
       real yaxislat, yaxislon
-      real x11, y11
+      real x11(1), y11(1)
 
       integer i, nxg
 
@@ -54,12 +54,12 @@
             dx       = xg(3)*1000.0
             dy       = xg(4)*1000.0
 
-            call ez_lambxyfll99([x11], [y11], [xlat11], [xlon11], 1, latin1, latin2, yaxislat, yaxislon)
+            call ez_lambxyfll99(x11, y11, [xlat11], [xlon11], 1, latin1, latin2, yaxislat, yaxislon)
 
             call ez_lambxyfll99(x, y, xlat, xlon, npts, latin1, latin2, yaxislat, yaxislon)
             do i=1, npts
-               x(i) = 1.0 + (x(i) - x11)/dx
-               y(i) = 1.0 + (y(i) - y11)/dy
+               x(i) = 1.0 + (x(i) - x11(1))/dx
+               y(i) = 1.0 + (y(i) - y11(1))/dy
             enddo
 
          endif
diff --git a/src/interp/ez_llflamb.inc b/src/interp/ez_llflamb.inc
index b41ab94..1b21f54 100644
--- a/src/interp/ez_llflamb.inc
+++ b/src/interp/ez_llflamb.inc
@@ -30,7 +30,7 @@
       real xlat11, xlon11, xlatninj, xlonninj, dx, dy, latin1, latin2
       real yaxislat, yaxislon
       real xx(npts), yy(npts)
-      real x11, y11
+      real x11(1), y11(1)
       integer i
 
       nxg =15
@@ -48,11 +48,11 @@
             dx       = xg(3)*1000.0
             dy       = xg(4)*1000.0
 
-            call ez_lambxyfll99([x11], [y11], [xlat11], [xlon11], 1, latin1, latin2, yaxislat, yaxislon)
+            call ez_lambxyfll99(x11, y11, [xlat11], [xlon11], 1, latin1, latin2, yaxislat, yaxislon)
 
             do i=1, npts
-               xx(i) = x11 + dx * (x(i) - 1.0)
-               yy(i) = y11 + dy * (y(i) - 1.0)
+               xx(i) = x11(1) + dx * (x(i) - 1.0)
+               yy(i) = y11(1) + dy * (y(i) - 1.0)
             enddo
 
             call ez_lambllfxy99(xlat, xlon, xx, yy, npts, latin1, latin2, yaxislat, yaxislon)
-- 
2.43.0


From 892c2c95db78f6b3d43fe4798aa56d85f1e7e9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:02 +0000
Subject: [PATCH 25/90] fix: wb_broadcast_init passes all the arguments
 f_wb_bcst_init expects

---
 src/whiteboard/wb_omp.tmpl90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/whiteboard/wb_omp.tmpl90 b/src/whiteboard/wb_omp.tmpl90
index bdc4212..05b7fd2 100644
--- a/src/whiteboard/wb_omp.tmpl90
+++ b/src/whiteboard/wb_omp.tmpl90
@@ -385,7 +385,7 @@ interface wb_broadcast_init
         endif
 #endif
         status = WB_OK
-        call f_wb_bcst_init(bcst_function, allreduce_function)
+        call f_wb_bcst_init(pe_root, pe_me, domain, bcst_function, allreduce_function)
 #endif
     end function
 #ifdef INTERFACEONLY
-- 
2.43.0


From 1d15a957a60a7a0e81a78ff71265002a82500059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:16 +0000
Subject: [PATCH 26/90] fix: load_plugin takes the one argument its published
 prototype and interface pass

---
 src/primitives/plugin_code.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/primitives/plugin_code.c b/src/primitives/plugin_code.c
index 7250d5a..d0808c2 100644
--- a/src/primitives/plugin_code.c
+++ b/src/primitives/plugin_code.c
@@ -42,13 +42,12 @@ int unload_plugin(plugin *p){
 //  load a plugin (shared object)
 //
 //  lib     : character string, name of shared object
-//  verbose : int, if non zero some diagnostics are printed
 //
 //  function return :  handle (pointer to a plugin structure)
 //
 //  the rules for finding "lib" are the rules followed by dlopen (see: man dlopen)
 //
-plugin *load_plugin(const char *lib, int diag){
+plugin *load_plugin(const char *lib){
   const char **temp;
   int nsym;
   int i;
-- 
2.43.0


From 30446ca4ec3b7a1111c25f12260f2b67185c5268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:25 +0000
Subject: [PATCH 27/90] fix: the published prototype of convip lacked the
 string length its definition takes

---
 src/PUBLIC_INCLUDES/rmn/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PUBLIC_INCLUDES/rmn/base.h b/src/PUBLIC_INCLUDES/rmn/base.h
index b91d860..aa649f0 100644
--- a/src/PUBLIC_INCLUDES/rmn/base.h
+++ b/src/PUBLIC_INCLUDES/rmn/base.h
@@ -22,7 +22,7 @@ int newdate_c(int32_t * const fdat1, int32_t * const fdat2, int32_t * const fdat
 
 void f77name(rmnlib_version)(char *rmn,int *print,int len);
 void f77name(ipsort8)       (int32_t  *ip,double *a,int32_t *n);
-void f77name(convip)        (int32_t *ip,float *p,int32_t *kind,int32_t *mode,char *string,int32_t *flag);
+void f77name(convip)        (int32_t *ip,float *p,int32_t *kind,int32_t *mode,char *string,int32_t *flag, F2Cl lstring);
 void f77name(sort)          (float *work,int32_t *n);
 void f77name(ipsort)        (int32_t *ip,float *a,int32_t *n);
 void f77name(fd1)           (float *gd1,float *f,float *h);
-- 
2.43.0


From e10f05eff5defffd4176af157ee15f1e74301020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:30 +0000
Subject: [PATCH 28/90] fix: array_from_file and array_to_file free their copy
 of the file name

---
 src/primitives/array_file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primitives/array_file.c b/src/primitives/array_file.c
index 87d8219..26fec5c 100644
--- a/src/primitives/array_file.c
+++ b/src/primitives/array_file.c
@@ -48,6 +48,7 @@ void f77name(array_from_file)(
         file_name_len--;
     }
     int fd = open(buffer, O_RDONLY);                     /* open file read only */
+    free(buffer);
     array[1] = read(fd, (char *)(array + 2), (*nw - 2) * sizeof(int32_t));  /* read data from file up to array capacity */
     array[0] = 2 + ((array[1] + sizeof(int32_t) - 1)) / sizeof(int32_t);  /* set las index used in array */
     close(fd);
@@ -88,6 +89,7 @@ void f77name(array_to_file)(
         file_name_len--;
     }
     int fd = open(buffer, O_CREAT+O_RDWR, 0777);          /* open file for writing */
+    free(buffer);
     off_t len = write(fd, (char *)(array + 2), array[1]);     /* write data into file */
     ftruncate(fd, len);                            /* make sure to truncate after write */
     close(fd);                                    /* close file */
-- 
2.43.0


From 6e59199a023383fdcffcde0b0ddc718cfde9bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:30 +0000
Subject: [PATCH 29/90] fix: the gif, rrbx and sun raster tests close the file
 when it is too short

---
 src/primitives/wkoffit.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/primitives/wkoffit.c b/src/primitives/wkoffit.c
index d41f806..73714f9 100644
--- a/src/primitives/wkoffit.c
+++ b/src/primitives/wkoffit.c
@@ -578,7 +578,10 @@ static int isgif(
 
    if ( (fp = fopen( path, "rb")) == NULL ) return FALSE;
 
-   if (fread(magic, 6, 1, fp) != 1) return FALSE;
+   if (fread(magic, 6, 1, fp) != 1) {
+       fclose(fp);
+       return FALSE;
+   }
    if (strncmp( magic, IDGIF87, 6 ) == 0) status = WKF_GIF87;
    if (strncmp( magic, IDGIF89, 6 ) == 0) status = WKF_GIF89;
    fclose(fp);
@@ -682,7 +685,10 @@ static  int isrrbx(
     if( (fp = fopen( path, "rb")) == NULL ) return FALSE;
 
     // Read header
-    if ( fread32( &header, sizeof(Rrbxfile), 1, fp ) == 0 ) return FALSE;
+    if ( fread32( &header, sizeof(Rrbxfile), 1, fp ) == 0 ) {
+        fclose(fp);
+        return FALSE;
+    }
 
     fclose(fp);
 
@@ -702,7 +708,10 @@ static int issun(
     if ( (fp = fopen( path, "rb")) == NULL ) return FALSE;
 
     // Read header
-    if ( fread32( &header, sizeof(struct rasterfile), 1, fp ) == 0 ) return FALSE;
+    if ( fread32( &header, sizeof(struct rasterfile), 1, fp ) == 0 ) {
+        fclose(fp);
+        return FALSE;
+    }
 
     if ( header.ras_magic != RAS_MAGIC ) {
         fclose(fp);
-- 
2.43.0


From a31d87422caa62e14605ba8d6ff048b20d02ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:30 +0000
Subject: [PATCH 30/90] fix: c_env_var_cracker frees its work strings when
 quotes do not match

---
 src/primitives/c_env_var_cracker.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/primitives/c_env_var_cracker.c b/src/primitives/c_env_var_cracker.c
index de1ac2d..695f642 100644
--- a/src/primitives/c_env_var_cracker.c
+++ b/src/primitives/c_env_var_cracker.c
@@ -274,6 +274,9 @@ void c_env_var_cracker(
             int result = check_start_end_char(values, strlen(values));
 
             if (result == NONMATCHING) {
+                free(name);
+                free(values);
+                free(value);
                 return;
             }
 
-- 
2.43.0


From 74a7f05dfb11213e8f2ee70c0ad0302e27b83831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:30 +0000
Subject: [PATCH 31/90] fix: clib_putenv frees the string it did not hand to
 the environment

---
 src/primitives/clib_interface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primitives/clib_interface.c b/src/primitives/clib_interface.c
index ded4aa8..0e49ea0 100644
--- a/src/primitives/clib_interface.c
+++ b/src/primitives/clib_interface.c
@@ -177,11 +177,13 @@ F77_INTEGER CLIB_F77NAME(clib_putenv)(
     int name_c_len = 1 + name_value_length;
     char * name_value_c = (char *)malloc((size_t)(name_c_len*sizeof(char)));
     if (!name_value_c || FTN2C_FSTR2CSTR(name_value, name_value_c, name_value_length, name_c_len) < 0) {
+        free(name_value_c);
         return CLIB_ERROR;
     }
 
     /* Call C function */
     if (putenv(name_value_c)) {
+        free(name_value_c);
         return CLIB_ERROR;
     } else {
         return CLIB_OK;
-- 
2.43.0


From bb0fcaab837dabd4b59a7e39bad34f67d549c97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:30 +0000
Subject: [PATCH 32/90] fix: fs_to_cs frees the C string it made

---
 src/fstd98/FC_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstd98/FC_string.c b/src/fstd98/FC_string.c
index 31a9970..44ff452 100644
--- a/src/fstd98/FC_string.c
+++ b/src/fstd98/FC_string.c
@@ -101,6 +101,7 @@ void f77name(fs_to_cs)(char *fstring, int *rmblanks, int *ns, F2Cl fnc)
         Lib_Log(APP_LIBFST,APP_DEBUG,"%f: cmpstring-->%s<--\n",__func__,cmpstring);
         Lib_Log(APP_LIBFST,APP_DEBUG,"%f: strncmp sans blancs=%d\n",__func__,strncmp(cstring, cmpstring, 13));
         free(cmpstring);
+        free(cstring);
     } else {
         fill_string_array(allocate_string_array(*ns), fstring, fnc, *ns, *rmblanks);
     }
-- 
2.43.0


From d48195d1b1bdc0a7d7015cb30d44b07177bcc500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:30 +0000
Subject: [PATCH 33/90] fix: c_fnom closes descriptor 0 too, and the remote
 connection does not leak sockets

---
 src/primitives/c_baseio.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 205249a..4dd389a 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -562,7 +562,7 @@ int c_fnom(
         // lmult is no longer used by qqqf7op, but the argument was kept for backward compatibility
         int32_t lmult = 42;
         ier = open64(FGFDT[entry].file_name, O_RDONLY);
-        if (ier <= 0) {
+        if (ier < 0) {
             FGFDT[entry].file_size = -1;
             FGFDT[entry].eff_file_size = -1;
         } else {
@@ -2452,6 +2452,7 @@ static int fnom_rem_connect(
     int isel = select(fserver + 1, &rfds, NULL, NULL, &tv);
     if (isel) {
         fclient = accept_from_sock(fserver);
+        close(fserver);
         Lib_Log(APP_LIBRMN,APP_INFO,"%s: connected to server\n",__func__);
         FGFDT[ind].fd = -1;
         while ((wafile[indx].file_desc != -1) && (indx < MAXWAFILES)) {
@@ -2459,6 +2460,7 @@ static int fnom_rem_connect(
         }
         if (indx == MAXWAFILES) {
             Lib_Log(APP_LIBRMN,APP_ERROR,"%s: too many open files\n",__func__);
+            close(fclient);
             return -1;
         }
 
@@ -2504,6 +2506,7 @@ static int fnom_rem_connect(
         FGFDT[ind].eff_file_size = *nw;
     } else {
         Lib_Log(APP_LIBRMN,APP_ERROR,"%s: cannot connect to server\n",__func__);
+        close(fserver);
         return -1;
     }
 
-- 
2.43.0


From fdf89cbb303f37795a24d2aea146ca67f4958528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:30 +0000
Subject: [PATCH 34/90] fix: c_armn_compress32 and its helpers free their work
 space on every return

---
 src/compresseur/armn_compress_32.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/compresseur/armn_compress_32.c b/src/compresseur/armn_compress_32.c
index 2aa6403..f0a2dc9 100644
--- a/src/compresseur/armn_compress_32.c
+++ b/src/compresseur/armn_compress_32.c
@@ -204,6 +204,13 @@ int c_armn_compress32(
         if (lng_exposant > (unsigned int) ni * nj) {
             zlng = -1;
             Lib_Log(APP_LIBFST,APP_WARNING,"%s: Exponent range too large, original field left uncompressed",__func__);
+            free(signe);
+            free(zsigne);
+            free(exposant);
+            free(exposant2);
+            free(zexposant);
+            free(mantisse);
+            free(zmantisse);
             return zlng;
         }
 
@@ -313,21 +320,31 @@ int c_armn_uncompress32(
     zsigne = (unsigned char *) malloc(2 * npts * sizeof(unsigned char));
     if (zsigne == NULL) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: Failed to allocate memory (%s:%d)",__func__,__FILE__,__LINE__);
+        free(signe);
         return(-1);
     }
     exposant = (unsigned char *) malloc(2 * npts * sizeof(unsigned char));
     if (exposant == NULL) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: Failed to allocate memory (%s:%d)",__func__,__FILE__,__LINE__);
+        free(signe);
+        free(zsigne);
         return(-1);
     }
     exposant2 = (unsigned char *) malloc(2 * npts * sizeof(unsigned char));
     if (exposant2 == NULL) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: Failed to allocate memory (%s:%d)",__func__,__FILE__,__LINE__);
+        free(signe);
+        free(zsigne);
+        free(exposant);
         return(-1);
     }
     mantisse = (unsigned int *)   malloc(2 * npts * sizeof(unsigned int));
     if (mantisse == NULL) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: Failed to allocate memory (%s:%d)",__func__,__FILE__,__LINE__);
+        free(signe);
+        free(zsigne);
+        free(exposant);
+        free(exposant2);
         return(-1);
     }
 
@@ -549,6 +566,7 @@ void packTokensParallelogram32(
                     }
                     if (remaining_space < ((cur - z) + (1 + ((nbits_needed + 9 * nbits) >> 5)))) {
                         *zlng = 0;
+                        free(ufld_dst);
                         return;
                     }
                     break;
-- 
2.43.0


From 2c3960c798709ccb28b9ded309771b44745338dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:30 +0000
Subject: [PATCH 35/90] fix: interpolation routines free the work arrays they
 allocate

---
 src/interp/ez_calclatlon.c     | 2 ++
 src/interp/ez_calcnpolarwind.c | 5 +++++
 src/interp/gdinterp.c          | 1 +
 src/interp/gdllwdval.c         | 1 +
 src/interp/gdxysint.c          | 7 +++++++
 5 files changed, 16 insertions(+)

diff --git a/src/interp/ez_calclatlon.c b/src/interp/ez_calclatlon.c
index 11e8644..b50d135 100644
--- a/src/interp/ez_calclatlon.c
+++ b/src/interp/ez_calclatlon.c
@@ -247,6 +247,8 @@ int32_t ez_calclatlon(int32_t gdid) {
           Grille[gdrow][gdcol].lon[i] += 360.0;
           }
         }
+      free(x);
+      free(y);
       break;
          }
 
diff --git a/src/interp/ez_calcnpolarwind.c b/src/interp/ez_calcnpolarwind.c
index 8e00cc5..6dc4af3 100644
--- a/src/interp/ez_calcnpolarwind.c
+++ b/src/interp/ez_calcnpolarwind.c
@@ -47,6 +47,8 @@ int32_t ez_calcnpolarwind(
 
 
     c_gdkey2rowcol(gdin, &gdrow, &gdcol);
+    polar_lat_gem = NULL;
+    polar_lon_gem = NULL;
     polar_uu  = (float *) malloc(ni*sizeof(float));
     polar_vv  = (float *) malloc(ni*sizeof(float));
     polar_wd  = (float *) malloc(ni*sizeof(float));
@@ -133,6 +135,9 @@ int32_t ez_calcnpolarwind(
     free(polar_vv);
     free(polar_uu);
 
+    free(polar_lat_gem);
+    free(polar_lon_gem);
+
     //  ier = c_gdrls(gdps);
     return 0;
 }
diff --git a/src/interp/gdinterp.c b/src/interp/gdinterp.c
index 30dde82..f21f7d5 100644
--- a/src/interp/gdinterp.c
+++ b/src/interp/gdinterp.c
@@ -199,6 +199,7 @@ int32_t c_gdinterp(float *zout, float *zin, int32_t gdin, float *x, float *y, in
          f77name(ez_avg_sph)(zout, x, y, gdst_lats, &Grille[gdrow_out][gdcol_out].ni, &Grille[gdrow_out][gdcol_out].nj,
             zin, &Grille[gdrow_in][gdcol_in].ni, &Grille[gdrow_in][gdcol_in].nj,
             &Grille[gdrow_in][gdcol_in].extension);
+         free(gdst_lats);
          break;
          }
 
diff --git a/src/interp/gdllwdval.c b/src/interp/gdllwdval.c
index 140b8aa..2d7b0e7 100644
--- a/src/interp/gdllwdval.c
+++ b/src/interp/gdllwdval.c
@@ -67,6 +67,7 @@ int32_t c_gdllwdval(int32_t gdid, float *uuout, float *vvout, float *uuin, float
         }
         free(uuyin); free(vvyin);
         free(uuyan); free(vvyan);
+        free(x); free(y);
 
     } else {
         ier = c_gdllvval(gdid, uuout, vvout, uuin, vvin, lat, lon, n);
diff --git a/src/interp/gdxysint.c b/src/interp/gdxysint.c
index f26ed1b..6f2b2fc 100644
--- a/src/interp/gdxysint.c
+++ b/src/interp/gdxysint.c
@@ -50,6 +50,13 @@ int32_t c_gdxysint(float *zout, float *zin, int32_t gdin, float *x, float *y, in
 
     c_gdinterp(zout, lxzin, gdin, x, y, npts);
 
+    if (lxzin != lzin) {
+        free(lxzin);
+    }
+    if (lzin != zin) {
+        free(lzin);
+    }
+
     return 0;
 }
 
-- 
2.43.0


From c64cd540920fee51cb0959fb74b5b119469ac248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:46 +0000
Subject: [PATCH 36/90] fix: xdf routines free the header, mask and entry they
 allocate; c_xdfloc2 fills the whole default mask

---
 src/fstd98/xdf98.c | 52 +++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index b273896..92209c0 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -437,7 +437,7 @@ int c_qdfdiag(
 
     vers[4] = '\0';
     appl[4] = '\0';
-    int readpos = 1 + W64TOwd(header64.lng);
+    int readpos = 1 + W64TOwd(fh->lng);
     int eofile = 0;
     int nrec_tot = 0;
     int nrec_act = 0;
@@ -452,6 +452,10 @@ int c_qdfdiag(
         if (addr == readpos) {
             if (header.lng < W64TOwd(1)) {
                 Lib_Log(APP_LIBFST,APP_FATAL,"%s: Invalid record length=%d, addr=%d\n",__func__,header.lng,addr);
+                if (! wasopen) {
+                    c_waclos(iun);
+                    free(fh);
+                }
                 return(ERR_BAD_LEN);
             }
             if (header.idtyp == 0) {
@@ -504,8 +508,8 @@ int c_qdfdiag(
 
     if (! wasopen) {
         c_waclos(iun);
+        free(fh);
     }
-    free(fh);
     if (! thesame) {
         return ERR_DAMAGED;
     } else {
@@ -1608,19 +1612,6 @@ int c_xdfloc2(
     }
     f = file_table[index];
 
-    was_allocated = 0;
-    if ((mskkeys == NULL) && (nprim != 0)) {
-        mskkeys = malloc(nprim * sizeof(uint32_t));
-        was_allocated = 1;
-        for (i = 0; i < nprim; i++) {
-            if (*primk == -1) {
-                *mskkeys = 0;
-            } else {
-                *mskkeys = -1;
-            }
-        }
-    }
-
     if (handle > 0) {
         // search begins from handle given position
         index_h = INDEX_FROM_HANDLE(handle);
@@ -1662,7 +1653,20 @@ int c_xdfloc2(
 
     // If nprim == 0 keep same search target
     if (nprim) {
+        was_allocated = 0;
+        if (mskkeys == NULL) {
+            mskkeys = malloc(nprim * sizeof(uint32_t));
+            was_allocated = 1;
+            for (i = 0; i < nprim; i++) {
+                if (primk[i] == -1) {
+                    mskkeys[i] = 0;
+                } else {
+                    mskkeys[i] = -1;
+                }
+            }
+        }
         f->build_primary(f->target, primk, f->cur_mask, mskkeys, index, WMODE);
+        if (was_allocated) free(mskkeys);
         pmask = (uint32_t *) f->cur_mask;
         psmask = (uint32_t *) f->srch_mask;
         for (i = 0; i < W64TOWD(f->primary_len); i++, pmask++, psmask++) {
@@ -1715,7 +1719,6 @@ int c_xdfloc2(
     }
 
     new_handle = next_match(index);
-    if (was_allocated) free(mskkeys);
     return new_handle;
 }
 
@@ -2565,6 +2568,10 @@ int c_xdfsta(
             break;
         default:
             Lib_Log(APP_LIBFST,APP_ERROR,"%s: wrong number of stat nstat=%d\n",__func__,nstat);
+            if (! wasopen) {
+                c_waclos(iun);
+                free(fh);
+            }
             return(ERR_BAD_NSTAT);
     }
 
@@ -2585,7 +2592,10 @@ int c_xdfsta(
                      (fh->keys[nn].tcle << 8) | (fh->keys[nn].reserved);
     }
 
-    if (! wasopen) c_waclos(iun);
+    if (! wasopen) {
+        c_waclos(iun);
+        free(fh);
+    }
     return 0;
 }
 
@@ -3285,10 +3295,6 @@ static uint32_t next_match(
             }
             if (f->fstd_vintage_89) {
                 /* old sequential standard */
-                if ((stde = malloc(sizeof(stdf_dir_keys))) == NULL) {
-                    Lib_Log(APP_LIBFST,APP_FATAL,"%s: memory is full\n",__func__);
-                    return(ERR_MEM_FULL);
-                }
                 seq_entry = (seq_dir_keys *) f->head_keys;
                 if (seq_entry->dltf) {
                     f->cur_addr += W64TOWD(((seq_entry->lng + 3) >> 2)+15);
@@ -3300,6 +3306,10 @@ static uint32_t next_match(
                     end_of_file = 1;
                     break;
                 }
+                if ((stde = malloc(sizeof(stdf_dir_keys))) == NULL) {
+                    Lib_Log(APP_LIBFST,APP_FATAL,"%s: memory is full\n",__func__);
+                    return(ERR_MEM_FULL);
+                }
                 stde->deleted = 0;
                 stde->select = 1;
                 stde->lng = ((seq_entry->lng + 3) >> 2) + 15;
-- 
2.43.0


From b5c6a40d343f933508300e4b416312ef7ef999ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:15 +0000
Subject: [PATCH 37/90] fix: write_record restores the caller's buffer when the
 send fails too

---
 src/primitives/gossip_sock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index 42a6655..e81af14 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -1926,6 +1926,8 @@ int write_record(int fclient, void *record, int size, int tokensize)  /*   %ENTR
   //JMB  nbytes = write_stream(fclient, record, size * tokensize);
   ier = write_ft_nonblocking_socket(fclient, record, size * tokensize);
 
+  check_swap_records(record, size, tokensize); /* swap back if necessary */
+
 #ifdef DEBUG
   /****************end timing******************/
   tt2 = time_base() - tt1;
@@ -1959,8 +1961,6 @@ int write_record(int fclient, void *record, int size, int tokensize)  /*   %ENTR
   /****************start timing******************/
 #endif
 
-  check_swap_records(record, size, tokensize); /* swap back if necessary */
-
 #ifdef DEBUG
   /****************end timing******************/
   tt2 = time_base() - tt1;
-- 
2.43.0


From 0a8ae215dc3e4cbc505f4f00957bda2b02cd1d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:02 +0000
Subject: [PATCH 38/90] fix: read_record frees the buffer it allocated, not the
 caller's, when the length tags differ

---
 src/primitives/gossip_sock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index e81af14..41f8f83 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -2173,7 +2173,7 @@ void *read_record(
         /* set_timeout_signal(fclient, false); */
         set_timeout_signal(fclient, true);
 
-        if (records != NULL && records2 != NULL) free(records2);
+        if (records == NULL && records2 != NULL) free(records2);
         return NULL;
     }
 
-- 
2.43.0


From 9b2cc57e99134e569219271b921ac7e1931ec8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:15 +0000
Subject: [PATCH 39/90] fix: connect_to_localport closes its socket when the
 connection fails

---
 src/primitives/gossip_sock.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index 41f8f83..fe6fbf2 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -915,6 +915,7 @@ int connect_to_localport(
     if (connect(fserver, (struct  sockaddr *)&server, sizeserver) < 0) {
         fprintf(stderr, "Connection to local port <%d> failed! \n", port);
         fprintf(stderr, "The Server exited abnormally !!\n");
+        close(fserver);
         return -1;
     }
 
-- 
2.43.0


From 42233e3bfb7dc8c4717a86c691a930baf500eae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:20 +0000
Subject: [PATCH 40/90] fix: c_fnom lets freopen close the standard stream
 instead of handing it a closed one

---
 src/primitives/c_baseio.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 4dd389a..d4c61e4 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -329,7 +329,6 @@ int c_fnom(
     }
 
     if (liun == 6) {
-        fclose(stdout);
         if(freopen(nom, "a", stdout) == NULL){
             Lib_Log(APP_LIBRMN, APP_ERROR, "%s: (liun=%d) freopen: %s: %s\n", __func__, liun, nom, strerror(errno));
             return -1;
@@ -337,7 +336,6 @@ int c_fnom(
         stdoutflag = 1;
         return 0;
     } else if (liun == -2) {
-        fclose(stderr);
         if(freopen(nom, "a", stderr) == NULL){
             Lib_Log(APP_LIBRMN, APP_ERROR, "%s: (liun=%d) freopen: %s: %s\n", __func__, liun, nom, strerror(errno));
             return -1;
-- 
2.43.0


From 317671453af09d05bcf05888ef4b616a38773946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:25 +0000
Subject: [PATCH 41/90] fix: status file, plugin and directive stream handles
 are forgotten once closed

---
 src/primitives/plugin_code.c | 2 ++
 src/primitives/read_direct.c | 1 +
 src/primitives/status_file.c | 1 +
 3 files changed, 4 insertions(+)

diff --git a/src/primitives/plugin_code.c b/src/primitives/plugin_code.c
index d0808c2..cdfd129 100644
--- a/src/primitives/plugin_code.c
+++ b/src/primitives/plugin_code.c
@@ -85,6 +85,7 @@ plugin *load_plugin(const char *lib){
   if( (temp == NULL) && (func_nb == NULL)) {
     Lib_Log(APP_LIBRMN,APP_WARNING,"%s: no function table found in plugin %s\n",__func__,p->name);
     dlclose(p->handle);     // nothing useful, close
+    p->handle = NULL;
     free(p->name);
     p->name = NULL;
     return(NULL);
@@ -97,6 +98,7 @@ plugin *load_plugin(const char *lib){
   if (nsym == 0) {
     Lib_Log(APP_LIBRMN,APP_WARNING,"%s: no function advertised found in plugin %s\n",__func__,p->name);
     dlclose(p->handle);     // nothing useful, close
+    p->handle = NULL;
     free(p->name);
     p->name = NULL;
     return(NULL);     // no useful entry points found
diff --git a/src/primitives/read_direct.c b/src/primitives/read_direct.c
index 1d4e618..eff04d2 100644
--- a/src/primitives/read_direct.c
+++ b/src/primitives/read_direct.c
@@ -277,6 +277,7 @@ static int Verb(char *token){
  if((token[0]&0xFF)==0xFF){         /* EOF ? */
   if(rpnCBverbose==RPNCB_VERBOSE) fprintf(stderr,"END of directives\n");
   fclose(streamd);
+  streamd = NULL;
   return (-1);
   }
  if( (char_type[token[0]] & 1) == 0) {  /* bad first character ? (must be letter) */
diff --git a/src/primitives/status_file.c b/src/primitives/status_file.c
index 014b413..20b80ee 100644
--- a/src/primitives/status_file.c
+++ b/src/primitives/status_file.c
@@ -45,4 +45,5 @@ void f77name(write_status_file)(char *msg, F2Cl lmsg) {
 
 void f77name(close_status_file)() {
     close(fd);
+    fd = -1;
 }
-- 
2.43.0


From f1180e61d0aed3fbc1a43483725ecfd147c46a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:08 +0000
Subject: [PATCH 42/90] fix: Yin-Yang masking gives back the caller's
 interpolation options

c_ezyymint saved the options through ezgetopt/ezsetopt: the extrapolation
value stayed at 1.0 unless extrap_degree was 'value', and an interpolation
degree of average or sph_average stayed at nearest. The options are now kept
and restored as a whole. c_find_gdin, which only looks a grid set up, no
longer makes it the current one.
---
 src/interp/ez_find_gdin.c |  5 +++++
 src/interp/ezyymint.c     | 23 +++++------------------
 2 files changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/interp/ez_find_gdin.c b/src/interp/ez_find_gdin.c
index 18ed8ae..50b4eed 100644
--- a/src/interp/ez_find_gdin.c
+++ b/src/interp/ez_find_gdin.c
@@ -10,7 +10,12 @@ int c_find_gdin(int gdin, int gdout) {
     c_gdkey2rowcol(gdout, &gdrow_out, &gdcol_out);
     idx_gdin = Grille[gdrow_out][gdcol_out].idx_last_gdin;
     if (idx_gdin == -1){
+        // the set is only looked up here: it does not become the current one
+        int32_t user_gdin = iset_gdin;
+        int32_t user_gdout = iset_gdout;
         c_ezdefset(gdout, gdin);
+        iset_gdin = user_gdin;
+        iset_gdout = user_gdout;
         idx_gdin = gdin % primes[Grille[gdrow_out][gdcol_out].log_chunk_gdin];
     }
 
diff --git a/src/interp/ezyymint.c b/src/interp/ezyymint.c
index 8b4c43c..58cd507 100644
--- a/src/interp/ezyymint.c
+++ b/src/interp/ezyymint.c
@@ -26,12 +26,11 @@
 
 int32_t c_ezyymint(int32_t gdout, int32_t gdin, int32_t ni, int32_t nj, float *maskout, float *dlat, float *dlon, float *yinlat, float *yinlon, int32_t *yyincount, float *yanlat, float *yanlon, int32_t *yyancount)
 {
-  int32_t ivalue,icode,i,j,k,yin_mgid;
+  int32_t icode,i,j,k,yin_mgid;
   int32_t gdrow_in, gdcol_in, mask_gdrow, mask_gdcol;
   int32_t yincount,yancount,yni,ynj;
-  float *yin_fld, global_extrap_value, local_extrap_value;
+  float *yin_fld, local_extrap_value;
   char interp_degree[32],extrap_degree[32],extrap_value[32],local_val[32];
-  char global_interp_degree[32],global_extrap_degree[32];
   
   c_gdkey2rowcol(gdin,  &gdrow_in,  &gdcol_in);
   yin_mgid=Grille[gdrow_in][gdcol_in].mymaskgrid;
@@ -41,18 +40,11 @@ int32_t c_ezyymint(int32_t gdout, int32_t gdin, int32_t ni, int32_t nj, float *m
 
   yin_fld = (float *) malloc(yni*ynj*sizeof(float));
   memset(yin_fld,0.0,yni*ynj*sizeof(float));
-  /*get original options*/
+  /*keep original options*/
+  _groptions user_options = groptions;
   strcpy(interp_degree,"interp_degree");
-  icode = c_ezgetopt(interp_degree,global_interp_degree);
   strcpy(extrap_degree,"extrap_degree");
   strcpy(extrap_value,"extrap_value");
-  icode = c_ezgetopt(extrap_degree,global_extrap_degree);
-  ivalue = 0;
-  if (0 == strcmp(global_extrap_degree,"value"))
-    {
-    icode = c_ezgetval(extrap_value,&global_extrap_value);
-    ivalue = 1;
-    }
   strcpy(local_val,"nearest");
   icode = c_ezsetopt(interp_degree, local_val);
 
@@ -63,12 +55,7 @@ int32_t c_ezyymint(int32_t gdout, int32_t gdin, int32_t ni, int32_t nj, float *m
   icode = c_ezdefset(gdout,yin_mgid);
   icode = c_ezsint_orig(maskout,yin_fld);
   /*masking is done,reset original interp options*/
-  icode = c_ezsetopt(interp_degree, global_interp_degree);
-    if (ivalue == 1)
-    {
-    icode = c_ezsetval(extrap_value, global_extrap_value);
-    }
-  icode = c_ezsetopt(extrap_degree, global_extrap_degree);
+  groptions = user_options;
   free(yin_fld);
 
 /* now create the destination grids */
-- 
2.43.0


From 2d9600da4bfcd18cb5ddaafca02883ec1b429c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:59 +0000
Subject: [PATCH 43/90] fix: ezgetopt and ezgetval report every option ezsetopt
 and ezsetval accept

average and sph_average were reported as an error, correction_polaire and
use_1sousgrille left the answer untouched, missing_gridpt_distance could not
be read back.
---
 src/interp/ezgetopt.c | 19 +++++++++++++++++++
 src/interp/ezgetval.c |  5 +++++
 2 files changed, 24 insertions(+)

diff --git a/src/interp/ezgetopt.c b/src/interp/ezgetopt.c
index 1297cd1..1eaefb9 100644
--- a/src/interp/ezgetopt.c
+++ b/src/interp/ezgetopt.c
@@ -62,6 +62,9 @@ int32_t c_ezgetopt(char *option, char *value)
         local_opt[i] = (char) tolower((int)local_opt[i]);
     }
 
+    if (0 == strcmp(local_opt, "correction_polaire")) strcpy(local_opt, "polar_correction");
+    if (0 == strcmp(local_opt, "use_1sousgrille")) strcpy(local_opt, "use_1subgrid");
+
     if (0 == strcmp(local_opt, "verbose")) {
         switch (groptions.verbose) {
             case 1:
@@ -116,6 +119,14 @@ int32_t c_ezgetopt(char *option, char *value)
                 strcpy(value, "cubic");
                 break;
 
+            case 4:
+                strcpy(value, "average");
+                break;
+
+            case 5:
+                strcpy(value, "sph_average");
+                break;
+
             default:
                 strcpy(value, "error");
                 break;
@@ -136,6 +147,14 @@ int32_t c_ezgetopt(char *option, char *value)
                 strcpy(value, "cubique");
                 break;
 
+            case 4:
+                strcpy(value, "average");
+                break;
+
+            case 5:
+                strcpy(value, "sph_average");
+                break;
+
             default:
                 strcpy(value, "erreur");
                 break;
diff --git a/src/interp/ezgetval.c b/src/interp/ezgetval.c
index 8bde1bc..1716c6d 100644
--- a/src/interp/ezgetval.c
+++ b/src/interp/ezgetval.c
@@ -69,6 +69,11 @@ int32_t c_ezgetval(char *option, float *fvalue)
       *fvalue = groptions.valeur_extrap;
       }
 
+   if (0 == strcmp(local_opt, "missing_gridpt_distance" ))
+      {
+      *fvalue = groptions.msg_gridpt_dist;
+      }
+
    if (0 == strcmp(local_opt, "missing_distance_threshold" ))
       {
       *fvalue = groptions.msg_dist_thresh;
-- 
2.43.0


From 6fe4063487139be460cf10f151e329650491afe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:12 +0000
Subject: [PATCH 44/90] fix: messages format each value by its own type, with
 as many values as conversions

---
 src/compresseur/c_zfstlib.c         | 20 ++++++++++----------
 src/fstd98/FC_string.c              | 10 +++++-----
 src/fstd98/c_fstgrib_helper.c       |  2 +-
 src/fstd98/xdf98.c                  |  4 ++--
 src/packers/compact.tmplc           | 14 +++++++-------
 src/packers/compact_IEEEblock.tmplc |  2 +-
 src/packers/compact_rle.c           |  2 +-
 src/packers/float_packer.c          | 10 +++++-----
 src/primitives/c_baseio.c           | 18 +++++++++---------
 src/primitives/dmms.c               |  2 +-
 src/primitives/fread32.c            | 12 ++++++------
 src/primitives/mgilib2.c            |  2 +-
 src/primitives/read_direct.c        |  2 +-
 src/primitives/wkoffit.c            |  2 +-
 src/whiteboard/WhiteBoard_c.c       |  2 +-
 15 files changed, 52 insertions(+), 52 deletions(-)

diff --git a/src/compresseur/c_zfstlib.c b/src/compresseur/c_zfstlib.c
index c70ebe8..2fe720d 100644
--- a/src/compresseur/c_zfstlib.c
+++ b/src/compresseur/c_zfstlib.c
@@ -108,7 +108,7 @@ int armn_compress(
     switch (op_code) {
         case COMPRESS:
             if (nbits > 16 || ni == 1 || nj == 1) {
-                Lib_Log(APP_LIBFST,APP_WARNING,"%f: Cannot compress if nbits>16 or ni=1 or nj=1. Returning original field\n",__func__);
+                Lib_Log(APP_LIBFST,APP_WARNING,"%s: Cannot compress if nbits>16 or ni=1 or nj=1. Returning original field\n",__func__);
                 return -1;
             }
 
@@ -139,7 +139,7 @@ int armn_compress(
                         }
                     }
 #endif
-                    Lib_Log(APP_LIBFST,APP_WARNING,"%f: Compressed field is larger than original. Returning original \n",__func__);
+                    Lib_Log(APP_LIBFST,APP_WARNING,"%s: Compressed field is larger than original. Returning original \n",__func__);
 
                     free(zfld_minimum);
                     free(zfld_lle);
@@ -154,7 +154,7 @@ int armn_compress(
 
             c_fstzip(zfld_lle, &zlng_lle, us_fld, ni, nj, PARALLELOGRAM, 1, 3, nbits, 0);
 
-            //Lib_Log(APP_LIBFST,APP_DEBUG,"%f: Entropie theorique:%f\tbps - minimum:%f\tbps - parallele:%f\tbps - sample:%f\n",__func__, entropie, 8.0 * zlng_minimum / ((ni * nj * nk) * 1.0), 8.0 * zlng_lle / ((ni * nj * nk) * 1.0), 8.0 * zlng_sample / ((ni * nj * nk) * 1.0));
+            //Lib_Log(APP_LIBFST,APP_DEBUG,"%s: Entropie theorique:%f\tbps - minimum:%f\tbps - parallele:%f\tbps - sample:%f\n",__func__, entropie, 8.0 * zlng_minimum / ((ni * nj * nk) * 1.0), 8.0 * zlng_lle / ((ni * nj * nk) * 1.0), 8.0 * zlng_sample / ((ni * nj * nk) * 1.0));
 
             if (zlng_lle >= lng_origin) {
 #if defined (Little_Endian)
@@ -164,7 +164,7 @@ int armn_compress(
                     }
                 }
 #endif
-                Lib_Log(APP_LIBFST,APP_WARNING,"%f: Compressed field is larger than original. Returning original\n",__func__);
+                Lib_Log(APP_LIBFST,APP_WARNING,"%s: Compressed field is larger than original. Returning original\n",__func__);
 
                 free(zfld_minimum);
                 free(zfld_lle);
@@ -248,7 +248,7 @@ void c_fstzip(
             break;
 
         case SAMPLE:
-            Lib_Log(APP_LIBFST,APP_ERROR,"%f: The SAMPLE option has been deactivated as of April 2006. This is an error and should never happen\n",__func__);
+            Lib_Log(APP_LIBFST,APP_ERROR,"%s: The SAMPLE option has been deactivated as of April 2006. This is an error and should never happen\n",__func__);
             exit(13);
             break;
 
@@ -285,7 +285,7 @@ void c_fstunzip(
             break;
 
         default:
-            Lib_Log(APP_LIBFST,APP_ERROR,"%f: Unknown compression algorithm\n");
+            Lib_Log(APP_LIBFST,APP_ERROR,"%s: Unknown compression algorithm\n",__func__);
             exit(13);
             break;
     }
@@ -1328,16 +1328,16 @@ void c_armn_compress_setlevel(int level)
     {
     case BEST:
        fstcompression_level = BEST;
-       Lib_Log(APP_LIBFST,APP_INFO,"%f: Setting level to BEST (%d)\n",__func__,level);
+       Lib_Log(APP_LIBFST,APP_INFO,"%s: Setting level to BEST (%d)\n",__func__,level);
        break;
 
     case FAST:
        fstcompression_level = FAST;
-       Lib_Log(APP_LIBFST,APP_INFO,"%f: Setting level to FAST (%d)\n",__func__,level);
+       Lib_Log(APP_LIBFST,APP_INFO,"%s: Setting level to FAST (%d)\n",__func__,level);
        break;
 
     default:
-       Lib_Log(APP_LIBFST,APP_ERROR,"%f: Wrong compression level (%d), reverting to FAST\n",__func__,level);
+       Lib_Log(APP_LIBFST,APP_ERROR,"%s: Wrong compression level (%d), reverting to FAST\n",__func__,level);
        fstcompression_level = FAST;
     }
 }
@@ -1374,7 +1374,7 @@ void c_armn_compress_setswap(int swapState)
             break;
 
         default:
-            Lib_Log(APP_LIBFST,APP_ERROR,"%f: Wrong swapState (%d), should be 0 (no swap) or 1 (swap)\n",__func__,swapState);
+            Lib_Log(APP_LIBFST,APP_ERROR,"%s: Wrong swapState (%d), should be 0 (no swap) or 1 (swap)\n",__func__,swapState);
     }
 }
 
diff --git a/src/fstd98/FC_string.c b/src/fstd98/FC_string.c
index 44ff452..be3c9b4 100644
--- a/src/fstd98/FC_string.c
+++ b/src/fstd98/FC_string.c
@@ -93,13 +93,13 @@ void f77name(fs_to_cs)(char *fstring, int *rmblanks, int *ns, F2Cl fnc)
     if (*ns == 1) {
         char * cmpstring = malloc(13);
         char * cstring = fstring_to_cstring(fstring, fnc, *rmblanks);
-        Lib_Log(APP_LIBFST,APP_DEBUG,"%f: cstring-->%s<--\n",__func__,cstring);
+        Lib_Log(APP_LIBFST,APP_DEBUG,"%s: cstring-->%s<--\n",__func__,cstring);
         strcpy(cmpstring, "Label01");
-        Lib_Log(APP_LIBFST,APP_DEBUG,"%f: cmpstring-->%s<--\n",__func__,cmpstring);
-        Lib_Log(APP_LIBFST,APP_DEBUG,"%f: strncmp sans blancs=%d\n",__func__,strncmp(cstring, cmpstring, 13));
+        Lib_Log(APP_LIBFST,APP_DEBUG,"%s: cmpstring-->%s<--\n",__func__,cmpstring);
+        Lib_Log(APP_LIBFST,APP_DEBUG,"%s: strncmp sans blancs=%d\n",__func__,strncmp(cstring, cmpstring, 13));
         strcpy(cmpstring, "Label01     ");
-        Lib_Log(APP_LIBFST,APP_DEBUG,"%f: cmpstring-->%s<--\n",__func__,cmpstring);
-        Lib_Log(APP_LIBFST,APP_DEBUG,"%f: strncmp sans blancs=%d\n",__func__,strncmp(cstring, cmpstring, 13));
+        Lib_Log(APP_LIBFST,APP_DEBUG,"%s: cmpstring-->%s<--\n",__func__,cmpstring);
+        Lib_Log(APP_LIBFST,APP_DEBUG,"%s: strncmp sans blancs=%d\n",__func__,strncmp(cstring, cmpstring, 13));
         free(cmpstring);
         free(cstring);
     } else {
diff --git a/src/fstd98/c_fstgrib_helper.c b/src/fstd98/c_fstgrib_helper.c
index b32ab26..d1df1a1 100644
--- a/src/fstd98/c_fstgrib_helper.c
+++ b/src/fstd98/c_fstgrib_helper.c
@@ -57,7 +57,7 @@ void c_84bits_token(int32_t *the_84bit_token, unsigned char *grib_header, int32_
   time_of_day_micro = f77name(f_gettimeofday_micro)();
 
   header_crc = calc_crc(grib_header, &length_grib_header, &fseed, 1);
-  Lib_Log(APP_LIBFST,APP_EXTRA,"%s: %d crc: %d timeofday: %lld\n",__func__,strlen(grib_header), header_crc, time_of_day_micro);
+  Lib_Log(APP_LIBFST,APP_EXTRA,"%s: %zu crc: %d timeofday: %lld\n",__func__,strlen(grib_header), header_crc, time_of_day_micro);
 
   micro_secs = time_of_day_micro % 1000000;
   time_of_day = (time_of_day_micro - micro_secs) / 1000000;
diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 92209c0..906631f 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -105,7 +105,7 @@ int c_xdfcheck(
     }
 
     if ((size_t)header.fsiz * 8 != file_size) {
-        Lib_Log(APP_LIBFST,APP_ERROR,"%s: File size does not match header. Expected size: %d bytes. Actual size: %d\n",__func__,header.fsiz*8,file_size);
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: File size does not match header. Expected size: %d bytes. Actual size: %ld\n",__func__,header.fsiz*8,file_size);
         return(ERR_DAMAGED);
     }
 
@@ -2842,7 +2842,7 @@ int c_xdfuse(
             nomore = 1;
         } /* end while */
         free(buf);
-        Lib_Log(APP_LIBFST,APP_INFO,"%s: copy of %d records from unit %d to unit %d\n",nbrec,src_unit,dest_unit);
+        Lib_Log(APP_LIBFST,APP_INFO,"%s: copy of %d records from unit %d to unit %d\n",__func__,nbrec,src_unit,dest_unit);
     } // end copy files block
 
    if (close_src) err = c_xdfcls(src_unit);
diff --git a/src/packers/compact.tmplc b/src/packers/compact.tmplc
index f3a74c9..fc729b8 100644
--- a/src/packers/compact.tmplc
+++ b/src/packers/compact.tmplc
@@ -162,7 +162,7 @@ void *compact_FLOAT_TYPE(
         } else {
             headerStyle = 2;
             if ( floatCount > (powerOf2s[28] - 1) ) {
-                Lib_Log(APP_LIBRMN,APP_ERROR,"%f: element count overflow in xxpack header\n",__func__);
+                Lib_Log(APP_LIBRMN,APP_ERROR,"%s: element count overflow in xxpack header\n",__func__);
                 return NULL;
             }
         }
@@ -204,7 +204,7 @@ void *compact_FLOAT_TYPE(
         }
 
         if ((maxFloat > MAX_RANGE) || (minFloat < -MAX_RANGE)) {
-            Lib_Log(APP_LIBRMN,APP_ERROR,"%f: floating point packer, number too large minFloat=%E maxFloat=%E\n",__func__,minFloat,maxFloat);
+            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: floating point packer, number too large minFloat=%E maxFloat=%E\n",__func__,minFloat,maxFloat);
             exit(33);
         }
         rangeTemplate.XD = (maxFloat - minFloat)*2;
@@ -345,7 +345,7 @@ void *compact_FLOAT_TYPE(
                 // legacy data with more than 2POW(20) elements but only 120-bit header and 20-bit ninj
                 intCount = elementCount;
                 if ((intCount & 0x3777777) != (elementCount & 0x3777777)) {
-                    Lib_Log(APP_LIBRMN,APP_WARNING,"%f: ninj from argument: %d different from ninj from header: %d. Argument ninj is used \n\n",__func__,elementCount, theHeader->counter);
+                    Lib_Log(APP_LIBRMN,APP_WARNING,"%s: ninj from argument: %d different from ninj from header: %d. Argument ninj is used \n\n",__func__,elementCount, theHeader->counter);
                 }
             } else {
                 intCount = theHeader->counter;
@@ -379,7 +379,7 @@ void *compact_FLOAT_TYPE(
             minFloatTemplate.M.mantis = (theHeader->minMantisa32 >> 8 ) & 0x7fffff;
             minFloat = minFloatTemplate.X;
             /*
-            Lib_Log(APP_LIBRMN,APP_DEBUG,"%f: sign=%d minExpo= %d expo=%d mantis=%x minFloat=%f mulFactor=%f \n",__func__,minFloatTemplate.M.sign,theHeader->minExpo,
+            Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: sign=%d minExpo= %d expo=%d mantis=%x minFloat=%f mulFactor=%f \n",__func__,minFloatTemplate.M.sign,theHeader->minExpo,
                 minFloatTemplate.M.expo, minFloatTemplate.M.mantis, minFloat, mulFactor);
             */
         }
@@ -389,7 +389,7 @@ void *compact_FLOAT_TYPE(
         currentSlot = ( firstPackBit / wordSize );
         currentWord = arrayOfInt[currentSlot] << ( wordSize - bitPackInFirstWord );
         /*
-        Lib_Log(APP_LIBRMN,APP_DEBUG,"%f: firstPackBit=%d bitPackInFirstWord=%d currentSlot=%d currentWord=%d\n",__func__,
+        Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: firstPackBit=%d bitPackInFirstWord=%d currentSlot=%d currentWord=%d\n",__func__,
                firstPackBit, bitPackInFirstWord, currentSlot, currentWord);
         */
         if ( tokenSize > wordSize ) {
@@ -404,7 +404,7 @@ void *compact_FLOAT_TYPE(
         arrayPtr = &arrayOfInt[currentSlot];
         for (int i = 0; i < intCount * stride; i += stride) {
             extract(packInt, arrayPtr, wordSize, significantBit, currentWord, bitPackInFirstWord);
-            /*Lib_Log(APP_LIBRMN,APP_DEBUG,"%f: i=%d packInt=%X\n",__func__,packInt);  */
+            /*Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: i=%d packInt=%X\n",__func__,packInt);  */
 
             // Truncate extra bit if necessary
             if ( inSignificantBit > 0 ) {
@@ -425,7 +425,7 @@ void *compact_FLOAT_TYPE(
         return (uint32_t *)arrayOfFloat;
 
     } else {
-        Lib_Log(APP_LIBRMN,APP_ERROR,"%f: opCode (%d) is not defined\n",__func__,opCode);
+        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: opCode (%d) is not defined\n",__func__,opCode);
         return NULL;
     }
 }
diff --git a/src/packers/compact_IEEEblock.tmplc b/src/packers/compact_IEEEblock.tmplc
index d2d0efe..0ee4093 100644
--- a/src/packers/compact_IEEEblock.tmplc
+++ b/src/packers/compact_IEEEblock.tmplc
@@ -281,7 +281,7 @@ void *compact_IEEEblock_FLOAT_TYPE(
         return (int32_t *)arrayOfFloat;
 
     } else {
-        Lib_Log(APP_LIBRMN,APP_ERROR,"%f: opCode is not defined\n",__func__);
+        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: opCode is not defined\n",__func__);
         return NULL;
     }
 }
diff --git a/src/packers/compact_rle.c b/src/packers/compact_rle.c
index 4ca5f0b..ba45635 100644
--- a/src/packers/compact_rle.c
+++ b/src/packers/compact_rle.c
@@ -253,7 +253,7 @@ int  compact_rle(
 
         return totalPackedElementCount;
     } else {
-        Lib_Log(APP_LIBRMN,APP_ERROR,"%f: opCode (%d) is not defined\n",__func__,opCode);
+        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: opCode (%d) is not defined\n",__func__,opCode);
         return 0;
     }
 }
diff --git a/src/packers/float_packer.c b/src/packers/float_packer.c
index 49a9605..833e091 100644
--- a/src/packers/float_packer.c
+++ b/src/packers/float_packer.c
@@ -62,7 +62,7 @@ int32_t float_unpacker_1(
 
     /* verify that the number of points is consistent with header */
     if (npts != header[2]) {
-        Lib_Log(APP_LIBRMN,APP_ERROR,"%f: inconsistent number of points\n",__func__);
+        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: inconsistent number of points\n",__func__);
         return npts - header[2];   /* return discrepancy */
     }
 
@@ -178,7 +178,7 @@ int32_t float_packer_1(float *source, int32_t nbits, int32_t *header, int32_t *s
   header[1] = Minimum;                      /* store minimum, maxexp, shift2, npts into header (64 bits) */
   header[0] = header[0] | ((MaxExp & 0xFF) << 8) | (Shift2 & 0xFF);
 
-/* Lib_Log(APP_LIBRMN,APP_DEBUG,"%f: axExp=%d min=%f fmin.i=%X max=%f Minimum=%d Maximum=%\n",__func__,MaxExp,fmin.f,fmin.i,fmax.f,Minimum,Maximum); */
+/* Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: axExp=%d min=%f fmin.i=%X max=%f Minimum=%d Maximum=%\n",__func__,MaxExp,fmin.f,fmin.i,fmax.f,Minimum,Maximum); */
   Store = 0;
   n=npts;
   while(n--){                               /* transform input floating point into 16 bit integers */
@@ -227,11 +227,11 @@ int32_t c_float_unpacker(
 
     *nbits = ( (header[0]>>16) & 0xF) + 1;
     if (0xEFF != ( (header[0]>>20) & 0xFFF)) {
-        Lib_Log(APP_LIBRMN,APP_ERROR,"%f: Invalid header \n",__func__);
+        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: Invalid header \n",__func__);
         return -1;
     }
     if (npts != header[2]) {
-        Lib_Log(APP_LIBRMN,APP_ERROR,"%f: Inconsistent number of points (header/request mismatch)\n",__func__);
+        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: Inconsistent number of points (header/request mismatch)\n",__func__);
         return -1;
     }
     ierror = float_unpacker_1(dest, header, stream, npts);
@@ -268,7 +268,7 @@ int32_t c_float_packer(
     int32_t npts
 ) {
     if (nbits > 16 || nbits < 1) {
-        Lib_Log(APP_LIBRMN,APP_ERROR,"%f: nbits must be > 0 and <= 16 ,nbits = %d \n",__func__,nbits);
+        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: nbits must be > 0 and <= 16 ,nbits = %d \n",__func__,nbits);
         return -1;
     }
     // Number of values
diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index d4c61e4..68a3b85 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -817,7 +817,7 @@ int c_waopen2(
         if (FGFDT[entry].open_flag) {
             if (FGFDT[entry].attr.wa == 1){
                 // fnom opened the file but does not set wa flag
-                Lib_Log(APP_LIBRMN,APP_ERROR,"%s: unit %d already open as %\n",__func__,iun,FGFDT[entry].file_name);
+                Lib_Log(APP_LIBRMN,APP_ERROR,"%s: unit %d already open as %s\n",__func__,iun,FGFDT[entry].file_name);
             }
             FGFDT[entry].attr.wa = 1;
             return FGFDT[entry].fd;
@@ -1707,7 +1707,7 @@ static void get_new_page(
     wafile[fileIdx].page[pg0].access_count = 0;
     wafile[fileIdx].page[pg0].last_access = 0;
     wafile[fileIdx].page[pg0].touch_flag = 0;
-    Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: pg0=%d, page_adr=%d\n",__func__,pg0,wafile[fileIdx].page[pg0].page_adr);
+    Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: pg0=%d, page_adr=%p\n",__func__,pg0,wafile[fileIdx].page[pg0].page_adr);
 }
 
 
@@ -2055,7 +2055,7 @@ static void wa_page_read(
         }
         int nbytes = read(fd, wafile[fileIdx].page[pageIdx].page_adr, sizeof(uint32_t) * WA_PAGE_SIZE);
         if ( nbytes < 0 || nbytes < readbytes ) {
-            Lib_Log(APP_LIBRMN,APP_FATAL,"%s: cannot read page from file %d,fd=%d, tried to get %ld bytes, got %d\n",__func__,fileIdx,sizeof(uint32_t)*WA_PAGE_SIZE,nbytes);
+            Lib_Log(APP_LIBRMN,APP_FATAL,"%s: cannot read page from file %d,fd=%d, tried to get %ld bytes, got %d\n",__func__,fileIdx,fd,sizeof(uint32_t)*WA_PAGE_SIZE,nbytes);
             perror("WA_PAGE_READ");
             exit(1);
         }
@@ -2211,7 +2211,7 @@ static void wa_page_write(
             if (j != i) {
                 if ((wafile[ind].page[j].wa0 >= wafile[ind].page[i].wa0) &&
                            (wafile[ind].page[j].wa0 <= wafile[ind].page[i].wa0 + WA_PAGE_SIZE - 1)) {
-                    Lib_Log(APP_LIBRMN,APP_FATAL,"%s: overlapping pages i=%d page[j].wa0 =%d, page[i].wa0 =%d, page[i].wa0+WA_PAGE_SIZE =%\n",__func__,i,wafile[ind].page[j].wa0,wafile[ind].page[i].wa0,wafile[ind].page[i].wa0+WA_PAGE_SIZE-1);
+                    Lib_Log(APP_LIBRMN,APP_FATAL,"%s: overlapping pages i=%d page[j].wa0 =%d, page[i].wa0 =%d, page[i].wa0+WA_PAGE_SIZE =%d\n",__func__,i,wafile[ind].page[j].wa0,wafile[ind].page[i].wa0,wafile[ind].page[i].wa0+WA_PAGE_SIZE-1);
                     f77name(tracebck)();
                     exit(1);
                 }
@@ -2286,7 +2286,7 @@ static void qqcwawr(
             int nwritten = write(lfd, buf, sizeof(uint32_t) * nwords);
             if (nwritten != sizeof(uint32_t) * nwords) {
                 if (errno == 14) {
-                    Lib_Log(APP_LIBRMN,APP_ERROR,"%s: write error for file %s, filename=%s, buf=%p adr=%u, nmots=%d, nwritten=%d, errno=%d\n",__func__,FGFDT[indf].file_name,FGFDT[indf].file_name,buf,ladr,nwords,nwritten,errno);
+                    Lib_Log(APP_LIBRMN,APP_ERROR,"%s: write error for file %s, filename=%s, buf=%p adr=%lld, nmots=%d, nwritten=%d, errno=%d\n",__func__,FGFDT[indf].file_name,FGFDT[indf].file_name,buf,ladr,nwords,nwritten,errno);
                     Lib_Log(APP_LIBRMN,APP_ERROR,"%s: Contactez un membre de la section informatique de RPN / Seek support from RPN informatic section\n",__func__);
                     /*            memorymap(1); */
                     perror("qqcwawr");
@@ -2297,12 +2297,12 @@ static void qqcwawr(
                     nwritten = write(lfd, (const char *)buf + nwritten, togo);
                     Lib_Log(APP_LIBRMN,APP_ERROR,"%s: multiple write attempt of file %s last write=%d bytes, total needed=%ld bytes\n",__func__,FGFDT[indf].file_name,togo,nwords*sizeof(uint32_t));
                     if (nwritten != togo) {
-                        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: write error for file %s, filename=%s, buf=%p adr=%u, nmots=%d, nwritten=%d, errno=%d\n",__func__,FGFDT[indf].file_name,FGFDT[indf].file_name,buf,ladr,nwords,nwritten,errno);
+                        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: write error for file %s, filename=%s, buf=%p adr=%lld, nmots=%d, nwritten=%d, errno=%d\n",__func__,FGFDT[indf].file_name,FGFDT[indf].file_name,buf,ladr,nwords,nwritten,errno);
                         perror("qqcwawr");
                         exit(1);
                     }
                 } else {
-                    Lib_Log(APP_LIBRMN,APP_ERROR,"%s: write error or file not open for write, filename=%s, buf=%p adr=%u, nmots=%d, nwritten=%d, errno=%d\n",__func__,FGFDT[indf].file_name,buf,ladr,nwords,nwritten,errno);
+                    Lib_Log(APP_LIBRMN,APP_ERROR,"%s: write error or file not open for write, filename=%s, buf=%p adr=%lld, nmots=%d, nwritten=%d, errno=%d\n",__func__,FGFDT[indf].file_name,buf,ladr,nwords,nwritten,errno);
                     perror("qqcwawr");
                     exit(1);
                 }
@@ -2388,7 +2388,7 @@ static void qqcward(
             }
             int reste = read(lfd, buf, sizeof(uint32_t) * lnmots);
             if (reste != sizeof(uint32_t) * lnmots) {
-                Lib_Log(APP_LIBRMN,APP_ERROR,"%s: tried to read %d words, only read %d, wafile[ind].offset=%d ladr=%Ld\n",__func__,sizeof(uint32_t)*lnmots,reste,wafile[ind].offset,ladr);
+                Lib_Log(APP_LIBRMN,APP_ERROR,"%s: tried to read %ld words, only read %d, wafile[ind].offset=%ld ladr=%lld\n",__func__,sizeof(uint32_t)*lnmots,reste,wafile[ind].offset,ladr);
                 f77name(tracebck)();
                 exit(1);
             }
@@ -2495,7 +2495,7 @@ static int fnom_rem_connect(
         check_swap_records(demande, 5, sizeof(int));
         int new_checksum = *s_ID ^ *addr ^ *RW_mode;
         if (new_checksum != *checksum) {
-            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: invalid checksum=%X not %X\n",__func__,new_checksum,checksum);
+            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: invalid checksum=%X not %X\n",__func__,new_checksum,*checksum);
             close(fclient);
             return -1;
         }
diff --git a/src/primitives/dmms.c b/src/primitives/dmms.c
index 52c69de..68ab07e 100644
--- a/src/primitives/dmms.c
+++ b/src/primitives/dmms.c
@@ -170,7 +170,7 @@ struct blocmem *bloc_alloc(int nbytes, int mode) {
 
     if (badptr != (struct blocmem *) 0) {
         if (badptr ==  ptbloc) {
-            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: bloc_alloc bad_pointer %#x\n",__func__,ptbloc);
+            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: bloc_alloc bad_pointer %p\n",__func__,ptbloc);
             f77name(tracebck)();
             exit(10);
         }
diff --git a/src/primitives/fread32.c b/src/primitives/fread32.c
index b6b6b2d..b4bc749 100644
--- a/src/primitives/fread32.c
+++ b/src/primitives/fread32.c
@@ -49,7 +49,7 @@ size_t fread16(
 
     if (*little_endian) {
         if ((size & 1) != 0) {
-            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: size=%d must be a multiple of 2\n",__func__,size);
+            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: size=%zu must be a multiple of 2\n",__func__,size);
             return -1;
         }
 
@@ -84,7 +84,7 @@ size_t fread32(
 
     if (*little_endian) {
         if ((size & 3) != 0) {
-            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: size=%d must be a multiple of 4\n",__func__,size);
+            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: size=%zu must be a multiple of 4\n",__func__,size);
             return -1;
         }
 
@@ -121,7 +121,7 @@ size_t fread64(
 
     if (*little_endian) {
         if ((size & 3) != 0) {
-            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: size=%d must be a multiple of 4\n",__func__,size);
+            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: size=%zu must be a multiple of 4\n",__func__,size);
             return -1;
         }
 
@@ -166,7 +166,7 @@ size_t fwrite16(
 
     if (*little_endian) {
         if ((size & 1) != 0) {
-            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: size=%d must be a multiple of 2\n",__func__,size);
+            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: size=%zu must be a multiple of 2\n",__func__,size);
             return -1;
         }
 
@@ -208,7 +208,7 @@ size_t fwrite32(
 
     if (*little_endian) {
         if ((size & 3) != 0) {
-            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: size=%d must be a multiple of 4\n",__func__,size);
+            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: size=%zu must be a multiple of 4\n",__func__,size);
             return -1;
         }
 
@@ -251,7 +251,7 @@ size_t fwrite64(
 
     if (*little_endian) {
         if ((size & 3) != 0) {
-            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: size=%d must be a multiple of 4\n",__func__,size);
+            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: size=%zu must be a multiple of 4\n",__func__,size);
             return -1;
         }
 
diff --git a/src/primitives/mgilib2.c b/src/primitives/mgilib2.c
index 2f7df4c..0a5fafe 100644
--- a/src/primitives/mgilib2.c
+++ b/src/primitives/mgilib2.c
@@ -483,7 +483,7 @@ int32_t f77name (mgi_write) (
             return WRITE_ERROR;
         }
     } else {
-        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: Unknown data type: %c on channel %\n",__func__,*dtype,chn[chan].name);
+        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: Unknown data type: %c on channel %s\n",__func__,*dtype,chn[chan].name);
         return WRITE_TYPE_ERROR;
     }
 
diff --git a/src/primitives/read_direct.c b/src/primitives/read_direct.c
index eff04d2..6ea86a5 100644
--- a/src/primitives/read_direct.c
+++ b/src/primitives/read_direct.c
@@ -382,7 +382,7 @@ while(Verb(token)>0){ /* collect "verb" (command name) */
      char term;
      char pad[1024];
      int nargs;
-     nargs=sscanf(ARGV[ARGC]," > %lf , %lf , %lf%[%> ]%c",&dble0,&dble1,&dble2,pad);
+     nargs=sscanf(ARGV[ARGC]," > %lf , %lf , %lf%[%> ]%c",&dble0,&dble1,&dble2,pad,&term);
      /* printf("Range detected, nargs=%d,pad=:%s:,from %f to %f by %f\n",nargs,pad,dble0,dble1,dble2);  */
      if(nargs!=4 || pad[strlen(pad)-1]!='>') { fprintf(stderr,"bad range\n"); goto error;}
 
diff --git a/src/primitives/wkoffit.c b/src/primitives/wkoffit.c
index 73714f9..df81bcb 100644
--- a/src/primitives/wkoffit.c
+++ b/src/primitives/wkoffit.c
@@ -210,7 +210,7 @@ static size_t fread32(
 
     if (*little_endian) {
         if ((size & 3) != 0) {
-            Lib_Log(APP_LIBRMN,APP_ERROR,"%f: size=%d must be a multiple of 4\n",__func__,size);
+            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: size=%zu must be a multiple of 4\n",__func__,size);
             return -1;
         }
 
diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 70eb0bf..8230f7d 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1953,7 +1953,7 @@ static int wb_get_token(
     //! [in] If non zero, do not skip spaces
     int noskip
 ) {
-    Lib_Log(APP_LIBWB,APP_DEBUG,"%s: token=%p, infile=%p, maxTokenLenght=%d, noskip=%p\n",__func__,token,infile,maxTokenLength,noskip);
+    Lib_Log(APP_LIBWB,APP_DEBUG,"%s: token=%p, infile=%p, maxTokenLenght=%d, noskip=%d\n",__func__,token,infile,maxTokenLength,noskip);
 
     char c;
     if (noskip) {
-- 
2.43.0


From 720aa8a719f4926db6b0b478a59afbed6302262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 45/90] fix: releasing a grid leaves the others their
 identifiers and their place in the lists

---
 src/interp/gdrls.c | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/interp/gdrls.c b/src/interp/gdrls.c
index 2570785..67fb2b8 100644
--- a/src/interp/gdrls.c
+++ b/src/interp/gdrls.c
@@ -31,6 +31,31 @@ extern pthread_mutex_t EZ_MTX;
 #endif
 
 
+//! Take a grid out of its list; the others of the list stay in it
+static void RetirerDeLaListe(int32_t gdid) {
+    int32_t gdrow, gdcol;
+    c_gdkey2rowcol(gdid,  &gdrow,  &gdcol);
+    _Grille * const gr = &Grille[gdrow][gdcol];
+    _Grille * suivante = NULL;
+
+    if (gr->next_gd != -1) {
+        c_gdkey2rowcol(gr->next_gd,  &gdrow,  &gdcol);
+        suivante = &Grille[gdrow][gdcol];
+    }
+
+    if (gr_list[gr->grid_index] == gr) {
+        gr_list[gr->grid_index] = suivante;
+    } else {
+        _Grille * avant = gr_list[gr->grid_index];
+        while (avant->next_gd != gdid) {
+            c_gdkey2rowcol(avant->next_gd,  &gdrow,  &gdcol);
+            avant = &Grille[gdrow][gdcol];
+        }
+        avant->next_gd = gr->next_gd;
+    }
+}
+
+
 void EliminerGrille(int32_t gdid) {
 #ifdef MUTEX
     pthread_mutex_lock(&EZ_MTX);
@@ -39,11 +64,13 @@ void EliminerGrille(int32_t gdid) {
     int32_t gdrow_id, gdcol_id;
     c_gdkey2rowcol(gdid,  &gdrow_id,  &gdcol_id);
 
+    int32_t released = 0;
     if (Grille[gdrow_id][gdcol_id].access_count > 0) {
         Grille[gdrow_id][gdcol_id].access_count--;
+        released = (Grille[gdrow_id][gdcol_id].access_count == 0);
     }
 
-    if (Grille[gdrow_id][gdcol_id].access_count == 0) {
+    if (released) {
         if (Grille[gdrow_id][gdcol_id].flags & LAT) {
             if (Grille[gdrow_id][gdcol_id].lat != NULL) {
                 free(Grille[gdrow_id][gdcol_id].lat);
@@ -70,9 +97,16 @@ void EliminerGrille(int32_t gdid) {
             c_ezfreegridset(Grille[gdrow_id][gdcol_id].gdin_for[i], index);
         }
 
-        gr_list[Grille[gdrow_id][gdcol_id].grid_index] = (_Grille *) NULL;
+        RetirerDeLaListe(gdid);
         memset(&(Grille[gdrow_id][gdcol_id]), 0, sizeof(_Grille));
-        nGrilles--;
+        Grille[gdrow_id][gdcol_id].index = -1;
+
+        // The other grids keep their identifiers: only those at the end are available again
+        while (nGrilles > 0) {
+            c_gdkey2rowcol(nGrilles - 1,  &gdrow_id,  &gdcol_id);
+            if (Grille[gdrow_id][gdcol_id].index != -1) break;
+            nGrilles--;
+        }
     }
 
 #ifdef MUTEX
-- 
2.43.0


From 9b218a45f194842083036e866cf92e24110696c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 46/90] fix: grids differing by reference, reference parameters
 or subgrids are not taken for one another

---
 src/interp/ez_findgrid.c      | 30 +++++++++++++++++++++++++-----
 src/interp/ezgdef_supergrid.c |  1 +
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/interp/ez_findgrid.c b/src/interp/ez_findgrid.c
index bfe9a07..316797d 100644
--- a/src/interp/ez_findgrid.c
+++ b/src/interp/ez_findgrid.c
@@ -5,6 +5,17 @@
 extern pthread_mutex_t EZ_MTX;
 #endif
 
+//! Supergrids built from subgrid identifiers are the same when their subgrids are;
+//! those read from a file are known by their descriptor record only
+static int same_subgrids(const _Grille *a, const _Grille *b) {
+    if (a->subgrid == NULL || b->subgrid == NULL) return 1;
+    if (a->ni != b->ni || a->nj != b->nj || a->nsubgrids != b->nsubgrids) return 0;
+    for (int32_t i = 0; i < a->nsubgrids; i++) {
+        if (a->subgrid[i] != b->subgrid[i]) return 0;
+    }
+    return 1;
+}
+
 int c_ez_findgrid(int grid_index, _Grille *gr) {
     int32_t gdrow, gdcol, index_found, resax, resay;
     int32_t found, end_reached, i, j;
@@ -38,7 +49,8 @@ int c_ez_findgrid(int grid_index, _Grille *gr) {
                 gr->fst.ig[IG1] == refgd->fst.ig[IG1] &&
                 gr->fst.ig[IG2] == refgd->fst.ig[IG2] &&
                 gr->fst.ig[IG3] == refgd->fst.ig[IG3] &&
-                gr->fst.ig[IG4] == refgd->fst.ig[IG4]) {
+                gr->fst.ig[IG4] == refgd->fst.ig[IG4] &&
+                same_subgrids(gr, refgd)) {
                     found = 1;
                     index_found = refgd->index;
                     break;
@@ -47,7 +59,7 @@ int c_ez_findgrid(int grid_index, _Grille *gr) {
         // printf("gr->grtyp=%c  ni=%d nj= %d\n",gr->grtyp[0],gr->ni,gr->nj);
         // printf("refgd->grtyp=%c  ni=%d nj= %d\n",refgd->grtyp[0],refgd->ni,refgd->nj);
 
-        if (gr->grtyp[0] == refgd->grtyp[0] &&
+        if (gr->grtyp[0] != 'U' && gr->grtyp[0] == refgd->grtyp[0] &&
             gr->ni == refgd->ni &&  gr->nj == refgd->nj &&
             gr->fst.ig[IG1] == refgd->fst.ig[IG1] && gr->fst.ig[IG2] == refgd->fst.ig[IG2] &&
             gr->fst.ig[IG3] == refgd->fst.ig[IG3] && gr->fst.ig[IG4] == refgd->fst.ig[IG4]) {
@@ -56,14 +68,15 @@ int c_ez_findgrid(int grid_index, _Grille *gr) {
                 index_found = refgd->index;
                 break;
             }
-            if (gr->fst.igref[IG1] == refgd->fst.igref[IG1] &&
+            if (gr->grref[0] == refgd->grref[0] &&
+                gr->fst.igref[IG1] == refgd->fst.igref[IG1] &&
                 gr->fst.igref[IG2] == refgd->fst.igref[IG2] &&
                 gr->fst.igref[IG3] == refgd->fst.igref[IG3] &&
                 gr->fst.igref[IG4] == refgd->fst.igref[IG4]) {
                 if (refgd->ax != NULL && refgd->ay != NULL && gr->ax != NULL && gr->ay != NULL) {
                     resax = 0;
                     resay = 0;
-                    if (refgd->grtyp[0] == 'Z') {
+                    if (refgd->grtyp[0] == 'Z' || refgd->grtyp[0] == '#') {
                         for (i=0; i < gr->ni; i++) {
                             if (refgd->ax[i] != gr->ax[i]) {
                                 resax = 1;
@@ -115,6 +128,13 @@ int c_ez_findgrid(int grid_index, _Grille *gr) {
                     found = 1;
                     index_found = refgd->index;
                 }
+            } else {
+                if (refgd->next_gd == -1) {
+                    end_reached = 1;
+                } else {
+                    c_gdkey2rowcol(refgd->next_gd, &gdrow, &gdcol);
+                    refgd = &Grille[gdrow][gdcol];
+                }
             }
         } else {
             if (refgd->next_gd == -1) {
@@ -126,7 +146,7 @@ int c_ez_findgrid(int grid_index, _Grille *gr) {
         }
     }
 
-    refgd->access_count++;
+    if (found == 1) refgd->access_count++;
 #ifdef MUTEX
     pthread_mutex_unlock(&EZ_MTX);
 #endif
diff --git a/src/interp/ezgdef_supergrid.c b/src/interp/ezgdef_supergrid.c
index 03da0da..e90a230 100644
--- a/src/interp/ezgdef_supergrid.c
+++ b/src/interp/ezgdef_supergrid.c
@@ -106,6 +106,7 @@ int32_t c_ezgdef_supergrid(int32_t ni, int32_t nj, char *grtyp, char *grref, int
     free(ay);
     ay = NULL;
     int32_t grid_index = grid_crc % primes_sq[cur_log_chunk];
+    newgr.subgrid = subgrid;
     int32_t gdid;
     if (gr_list[grid_index] == NULL) {
         gdid = c_ez_addgrid(grid_index, &newgr);
-- 
2.43.0


From c79f8dd069bc7025a040af6b579fcb53882946ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:24 +0000
Subject: [PATCH 47/90] fix: connections and tokens were not given back when a
 login, command or host lookup fails

---
 src/primitives/gossip_sock.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index fe6fbf2..d746015 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -146,6 +146,7 @@ char *get_server_host(
         addr.sin_addr.s_addr = inet_addr(ipStr);
         //! \obsolete Should use getnameinfo instead
         host_str = gethostbyaddr( (char *)&addr.sin_addr.s_addr, sizeof(addr.sin_addr.s_addr), AF_INET );
+        free(host_and_port);
 
         // If a host name structure is obtained, print the host name
         if (host_str) {
@@ -156,6 +157,7 @@ char *get_server_host(
         }
     } else {
         fprintf(stderr,"gossip_sock::get_server_host(), ipStr is null\n");
+        free(host_and_port);
         return NULL;
     }
 }
@@ -1203,6 +1205,7 @@ int connect_to_subchannel_by_name(
     snprintf(command, sizeof(command) - 1, "EXEC %s %s", mode, subchannel);
 
     if ( send_command_to_server(fserver, command) != 0 ) {
+        close(fserver);
         return -1;
     }
 
@@ -1221,10 +1224,12 @@ int connect_to_channel_by_name_2(
 #ifdef DEBUG
     fprintf(stderr, "%s::connect_to_channel_by_name_2(\"%s\", \"%s\")\n", __FILE__, name, msg);
 #endif
-    if (!get_broker_Authorization()) {
+    char * temp = get_broker_Authorization();
+    if (!temp) {
         fprintf(stderr, "Authorizartion token failure \n");
         return -1;
     }
+    free(temp);
 
     char host_name[PATH_MAX];
     if (GetHostName(host_name, sizeof host_name)) {
@@ -1266,7 +1271,7 @@ int connect_to_channel_by_name_2(
 
     // send LOGIN command to server
     int Bauth_token = 0xFFFFFFFF;
-    char * temp = get_broker_Authorization();
+    temp = get_broker_Authorization();
     if (temp) {
         sscanf(temp, "%u", &Bauth_token);
         free(temp);
@@ -1276,6 +1281,7 @@ int connect_to_channel_by_name_2(
     unsigned char buffer[16];
     if (md5_ssh(buffer)) {
         fprintf(stderr, "md5_ssh FAILED\n");
+        close(fserver);
         return -1;
     }
     fprintf(stderr, "SSH Digest: %lx\n", (intptr_t)buffer);
@@ -1285,6 +1291,7 @@ int connect_to_channel_by_name_2(
 
     if (send_command_to_server(fserver, buf)) {
         fprintf(stderr, "LOGIN rejected\n");
+        close(fserver);
         return -1;
     } else {
         fprintf(stderr, "LOGIN accepted\n");
@@ -2390,7 +2397,7 @@ int get_status(char * const reply) {
     reply1[0] = '\0';
 
     int fserver = connect_to_server();
-    if (fserver > 0) {
+    if (fserver >= 0) {
         sprintf(buf, "STATUS");
         int status = send_command_to_server(fserver, buf);
 
@@ -2414,7 +2421,7 @@ int get_status(char * const reply) {
 int send_command(const char * const command) {
     int status;
     int fserver = connect_to_server();
-    if (fserver > 0) {
+    if (fserver >= 0) {
         status = send_command_to_server(fserver, command);
         close(fserver);
     } else {
-- 
2.43.0


From 107159cc4686af1b3d0ea4472d9f8e599b84f8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:11 +0000
Subject: [PATCH 48/90] fix: ftnStrLen read before the start of a text of
 length zero

---
 src/base/ftnStrLen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/base/ftnStrLen.c b/src/base/ftnStrLen.c
index a768d7f..8af19e7 100644
--- a/src/base/ftnStrLen.c
+++ b/src/base/ftnStrLen.c
@@ -8,6 +8,9 @@ unsigned int ftnStrLen(
     //! [in] Maximum length as defined for the Fortran string
     const uint32_t maxLen
 ) {
+    if (maxLen == 0) {
+        return 0;
+    }
     uint32_t len = maxLen - 1;
     while (len > 0 && (str[len] == ' ' || str[len] == '\0')) {
         len--;
-- 
2.43.0


From ba30693bb9d3d0ebcd06d262ca77169f98a7a5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:11 +0000
Subject: [PATCH 49/90] fix: ezgetopt wrote a terminator past the end of the
 caller's text when the value fills it

---
 src/interp/ezgetopt.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interp/ezgetopt.c b/src/interp/ezgetopt.c
index 1eaefb9..1ff878f 100644
--- a/src/interp/ezgetopt.c
+++ b/src/interp/ezgetopt.c
@@ -44,7 +44,9 @@ int32_t f77name(ezgetopt)(char *option, char *value, F2Cl lenoption, F2Cl lenval
     len = strlen(local_val);
     len = len > lenvalue ? lenvalue : len;
     strncpy(value, local_val, len);
-    value[len] = '\0';
+    if (len < lenvalue) {
+        value[len] = '\0';
+    }
 
     return icode;
 }
-- 
2.43.0


From 851a23837912e4c7a3622065b6adfa05dcceb8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 50/90] fix: c_get_appl_var blanked bytes outside the caller's
 text (one past its end; before its start when the value is longer than the
 text)

---
 src/primitives/appl_var.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/appl_var.c b/src/primitives/appl_var.c
index b7bcfa5..f0631c1 100644
--- a/src/primitives/appl_var.c
+++ b/src/primitives/appl_var.c
@@ -105,9 +105,9 @@ int get_appl_var(char* varname,char *value, int ln, int lng) {
 
 int32_t f77name(c_get_appl_var)(char* name, char* value, F2Cl ln, F2Cl lv) {
     int lng = get_appl_var(name, value, ln, lv);
-    int i = lng;
+    int i = (lng < 0) ? (int) lv : lng;
     /* remove null, blank pad */
-    while (i <= lv) {
+    while (i < (int) lv) {
         value[i++] = ' ';
     }
     return (int32_t) lng;
-- 
2.43.0


From acbc6208f772e6d319e9cbf727ae0194d2429d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 51/90] fix: set_appl_var stored names and values without a
 terminator although they are read as C strings

---
 src/primitives/appl_var.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primitives/appl_var.c b/src/primitives/appl_var.c
index f0631c1..4e26c92 100644
--- a/src/primitives/appl_var.c
+++ b/src/primitives/appl_var.c
@@ -73,7 +73,9 @@ void set_appl_var(char* name, char* value, int ln, int lv) {
     appl_var_table[i].ncn = ln;
     appl_var_table[i].ncv = lv;
     strncpy(appl_var_table[i].name,name,ln);
+    appl_var_table[i].name[ln] = '\0';
     strncpy(appl_var_table[i].value,value,lv);
+    appl_var_table[i].value[lv] = '\0';
 }
 
 
-- 
2.43.0


From 305a02665d2578829b02a7de4f2c261ae54b9368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 52/90] fix: free_appl_var_table kept the freed pointers, the
 next set_appl_var freed them again

---
 src/primitives/appl_var.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primitives/appl_var.c b/src/primitives/appl_var.c
index 4e26c92..e7ee15b 100644
--- a/src/primitives/appl_var.c
+++ b/src/primitives/appl_var.c
@@ -33,6 +33,8 @@ void free_appl_var_table(){
     for (int i = 0; i < In_Used; i++) {
         if (appl_var_table[i].name) free(appl_var_table[i].name);
         if (appl_var_table[i].value) free(appl_var_table[i].value);
+        appl_var_table[i].name = (char *) NULL;
+        appl_var_table[i].value = (char *) NULL;
         appl_var_table[i].ncn = 0;
         appl_var_table[i].ncv = 0;
     }
-- 
2.43.0


From a4ebdb08ec439009a39613ab3ecc4247c2109f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 53/90] fix: ezgfstp had no room for the terminator of a two
 character typvar

---
 src/interp/ezgfstp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp/ezgfstp.c b/src/interp/ezgfstp.c
index 54173a5..f48bd57 100644
--- a/src/interp/ezgfstp.c
+++ b/src/interp/ezgfstp.c
@@ -35,7 +35,7 @@ int32_t f77name(ezgfstp)(int32_t *gdid,
    int32_t i;
    int32_t icode;
 
-   char lnomvarx[5],lnomvary[5],letiketx[13],letikety[13],ltypvarx[2],ltypvary[2];
+   char lnomvarx[5],lnomvary[5],letiketx[13],letikety[13],ltypvarx[3],ltypvary[3];
 
    c_ezgfstp(*gdid, lnomvarx, ltypvarx, letiketx, lnomvary, ltypvary,letikety,
              ip1, ip2, ip3, dateo, deet, npas, nbits);
-- 
2.43.0


From 4ce245155cf557c16b76d730028248e895f7f725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:02 +0000
Subject: [PATCH 54/90] fix: ezgfstp blanked and filled each text by the length
 of another one

---
 src/interp/ezgfstp.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/interp/ezgfstp.c b/src/interp/ezgfstp.c
index f48bd57..3aa57b4 100644
--- a/src/interp/ezgfstp.c
+++ b/src/interp/ezgfstp.c
@@ -43,27 +43,39 @@ int32_t f77name(ezgfstp)(int32_t *gdid,
    for (i=0; i < lennomvarx; i++)
       {
       nomvarx[i] = ' ';
+      }
+
+   for (i=0; i < lennomvary; i++)
+      {
       nomvary[i] = ' ';
       }
 
    for (i=0; i < lentypvarx; i++)
       {
       typvarx[i] = ' ';
+      }
+
+   for (i=0; i < lentypvary; i++)
+      {
       typvary[i] = ' ';
       }
 
    for (i=0; i < lenetiketx; i++)
       {
       etiketx[i] = ' ';
+      }
+
+   for (i=0; i < lenetikety; i++)
+      {
       etikety[i] = ' ';
       }
 
-   strncpy(nomvarx, lnomvarx, 4);
-   strncpy(nomvary, lnomvary, 4);
-   strncpy(typvarx, ltypvarx, 2);
-   strncpy(typvary, ltypvary, 2);
-   strncpy(etiketx, letiketx, 12);
-   strncpy(etikety, letikety, 12);
+   strncpy(nomvarx, lnomvarx, lennomvarx < 4 ? lennomvarx : 4);
+   strncpy(nomvary, lnomvary, lennomvary < 4 ? lennomvary : 4);
+   strncpy(typvarx, ltypvarx, lentypvarx < 2 ? lentypvarx : 2);
+   strncpy(typvary, ltypvary, lentypvary < 2 ? lentypvary : 2);
+   strncpy(etiketx, letiketx, lenetiketx < 12 ? lenetiketx : 12);
+   strncpy(etikety, letikety, lenetikety < 12 ? lenetikety : 12);
 
    icode = 0;
    return icode;
-- 
2.43.0


From e614a2815e4ca74450b628d02ab4f6611ae6ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 55/90] fix: the positions kept for a released source grid were
 still marked as computed, the next grid with its identifier used them (null
 pointer)

---
 src/interp/ez_freegridset.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/interp/ez_freegridset.c b/src/interp/ez_freegridset.c
index 904e662..144cee4 100644
--- a/src/interp/ez_freegridset.c
+++ b/src/interp/ez_freegridset.c
@@ -77,7 +77,12 @@ int32_t c_ezfreegridset(int32_t gdid, int32_t index)
             Grille[gdrow][gdcol].gset[index].zones[i].x = NULL;
             Grille[gdrow][gdcol].gset[index].zones[i].y = NULL;
             Grille[gdrow][gdcol].gset[index].zones[i].idx = NULL;
+            Grille[gdrow][gdcol].gset[index].zones[i].npts = 0;
         }
     }
+
+    // Nothing is computed for this pair any more
+    Grille[gdrow][gdcol].gset[index].flags = 0;
+    Grille[gdrow][gdcol].gset[index].yyflags = 0;
     return 0;
 }
-- 
2.43.0


From e910de3805b90c06e1b4e9f70f1bfabe7c013f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 56/90] fix: releasing a source grid after one of its target
 grids divided by zero or freed an entry at index -1

---
 src/interp/ez_find_gdin_in_gset.c | 5 +++++
 src/interp/gdrls.c                | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/interp/ez_find_gdin_in_gset.c b/src/interp/ez_find_gdin_in_gset.c
index 54b9643..ee8b441 100644
--- a/src/interp/ez_find_gdin_in_gset.c
+++ b/src/interp/ez_find_gdin_in_gset.c
@@ -11,6 +11,11 @@
   c_gdkey2rowcol(gdout, &gdrow_out, &gdcol_out);
   gr = &(Grille[gdrow_out][gdcol_out]);
    
+   if (gr->gset == NULL)    /* released meanwhile, or never a target */
+    {
+    return -1;
+    }
+
    idx_gdin = gdin % primes[gr->log_chunk_gdin];
    if (gr->gset[idx_gdin].gdin == gdin)
     {
diff --git a/src/interp/gdrls.c b/src/interp/gdrls.c
index 67fb2b8..2a7c7c3 100644
--- a/src/interp/gdrls.c
+++ b/src/interp/gdrls.c
@@ -94,7 +94,9 @@ void EliminerGrille(int32_t gdid) {
 
         for (int32_t i = 0; i < Grille[gdrow_id][gdcol_id].n_gdin_for; i++) {
             int32_t index = ez_find_gdin_in_gset(gdid, Grille[gdrow_id][gdcol_id].gdin_for[i]);
-            c_ezfreegridset(Grille[gdrow_id][gdcol_id].gdin_for[i], index);
+            if (index >= 0) {
+                c_ezfreegridset(Grille[gdrow_id][gdcol_id].gdin_for[i], index);
+            }
         }
 
         RetirerDeLaListe(gdid);
-- 
2.43.0


From 050ea831923ee6e812ccad35e0cf2faa8d7e3497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 57/90] fix: c_ezdefset recorded a grid identifier where an
 index of the table of sets is expected

---
 src/interp/ezdefset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp/ezdefset.c b/src/interp/ezdefset.c
index d341d50..9255e70 100644
--- a/src/interp/ezdefset.c
+++ b/src/interp/ezdefset.c
@@ -106,7 +106,7 @@ int32_t c_ezdefset(int32_t gdout, int32_t gdin) {
          found = i;
          iset_gdin = gdin;
          iset_gdout = gdout;
-         Grille[gdrow_out][gdcol_out].idx_last_gdin = Grille[gdrow_out][gdcol_out].gset[i].gdin;
+         Grille[gdrow_out][gdcol_out].idx_last_gdin = i;
          return 1;
       }
       else
-- 
2.43.0


From 4e821a7fbb5a6e5c6814f82efa47385f238e1d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 58/90] fix: sets were looked up with the size of a new table
 instead of that of the target grid

---
 src/interp/ez_find_gdin.c         | 2 +-
 src/interp/ez_find_gdin_in_gset.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp/ez_find_gdin.c b/src/interp/ez_find_gdin.c
index 50b4eed..a063337 100644
--- a/src/interp/ez_find_gdin.c
+++ b/src/interp/ez_find_gdin.c
@@ -24,7 +24,7 @@ int c_find_gdin(int gdin, int gdout) {
         return idx_gdin;
     }
 
-    idx_gdin = gdin % primes[cur_log_chunk];
+    idx_gdin = gdin % primes[Grille[gdrow_out][gdcol_out].log_chunk_gdin];
     if (gset[idx_gdin].gdin == gdin) {
         return idx_gdin;
     }
diff --git a/src/interp/ez_find_gdin_in_gset.c b/src/interp/ez_find_gdin_in_gset.c
index ee8b441..f42a03c 100644
--- a/src/interp/ez_find_gdin_in_gset.c
+++ b/src/interp/ez_find_gdin_in_gset.c
@@ -35,7 +35,7 @@
     else
       {
       i++;
-      if (0 == (i % primes[cur_log_chunk]))
+      if (0 == (i % primes[gr->log_chunk_gdin]))
         {
         i = 0;
         }
-- 
2.43.0


From baa09006d8cd2d25cc4f0ef8193b0db9f230d178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 59/90] fix: growing a table of sets could look at the entry
 past its end

---
 src/interp/ezdefset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/interp/ezdefset.c b/src/interp/ezdefset.c
index 9255e70..b878a70 100644
--- a/src/interp/ezdefset.c
+++ b/src/interp/ezdefset.c
@@ -197,6 +197,9 @@ void reallocate_gridset_table(int gdid) {
                 memcpy(&(newTable[newIndex]), &(gr->gset[i]), sizeof(_gridset));
             } else {
                 newIndex++;
+                if (0 == (newIndex % newChunkSize)) {
+                    newIndex = 0;
+                }
                 inserted = -1;
                 /** && curIndex != (newIndex-1)) (a reverifier-- Yves-20120228)**/
                 while (inserted == -1) {
-- 
2.43.0


From 0663d484ad6f78bb23836c0f9c715a0e24cf17e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 60/90] fix: c_ezdefset emptied the sets of the source grid
 instead of those of the full target grid, and lost the table

---
 src/interp/ezdefset.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interp/ezdefset.c b/src/interp/ezdefset.c
index b878a70..1260dd6 100644
--- a/src/interp/ezdefset.c
+++ b/src/interp/ezdefset.c
@@ -78,10 +78,12 @@ int32_t c_ezdefset(int32_t gdout, int32_t gdin) {
       {
          if (gr->gset[i].gdin != -1)
          {
-            c_ezfreegridset(gdin, i);
+            c_ezfreegridset(gdout, i);
          }
       }
       nsets = 0;
+      gr->n_gdin = 0;
+      free(gr->gset);
       allocate_gridset_table(gdout);
       gr->log_chunk_gdin = cur_log_chunk;
    }
-- 
2.43.0


From d8857351dd874050747b59649eb2448364e29793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:06 +0000
Subject: [PATCH 61/90] fix: the largest table of sets was grown past the last
 known size

---
 src/interp/ezdefset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp/ezdefset.c b/src/interp/ezdefset.c
index 1260dd6..1e273e9 100644
--- a/src/interp/ezdefset.c
+++ b/src/interp/ezdefset.c
@@ -135,7 +135,7 @@ int32_t c_ezdefset(int32_t gdout, int32_t gdin) {
    gr->gset[i].y = malloc (sizeof(float)*npts);
    gr->gset[i].use_sincos_cache = 0;
 
-   if (gr->n_gdin >= (primes[gr->log_chunk_gdin]/2))
+   if (gr->log_chunk_gdin < MAX_LOG_CHUNK && gr->n_gdin >= (primes[gr->log_chunk_gdin]/2))
    {
       reallocate_gridset_table(gdout);
    }
-- 
2.43.0


From 53004eda333db748bb7f7e2f04b5411ba038790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:06 +0000
Subject: [PATCH 62/90] fix: ez_calcxy lost the arrays of positions allocated
 when the set was defined

---
 src/interp/ez_calcxy.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/interp/ez_calcxy.c b/src/interp/ez_calcxy.c
index fd7fb2f..a4eaa82 100644
--- a/src/interp/ez_calcxy.c
+++ b/src/interp/ez_calcxy.c
@@ -53,8 +53,12 @@ int32_t ez_calcxy(int32_t gdin, int32_t gdout)
     nj_out = Grille[gdrow_out][gdcol_out].nj;
     ninj_out = ni_out * nj_out;
 
-    Grille[gdrow_out][gdcol_out].gset[idx_gdin].x = (float *) malloc(ninj_out*sizeof(float));
-    Grille[gdrow_out][gdcol_out].gset[idx_gdin].y = (float *) malloc(ninj_out*sizeof(float));
+    if (Grille[gdrow_out][gdcol_out].gset[idx_gdin].x == NULL) {
+        Grille[gdrow_out][gdcol_out].gset[idx_gdin].x = (float *) malloc(ninj_out*sizeof(float));
+    }
+    if (Grille[gdrow_out][gdcol_out].gset[idx_gdin].y == NULL) {
+        Grille[gdrow_out][gdcol_out].gset[idx_gdin].y = (float *) malloc(ninj_out*sizeof(float));
+    }
 
     switch(Grille[gdrow_in][gdcol_in].grtyp[0]) {
         case 'A':
-- 
2.43.0


From 3bc29a511bb90b507f008269fab1df6bdcfce200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:06 +0000
Subject: [PATCH 63/90] fix: releasing a target grid lost its table of sets and
 everything computed for them

---
 src/interp/gdrls.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/interp/gdrls.c b/src/interp/gdrls.c
index 2a7c7c3..8a111a1 100644
--- a/src/interp/gdrls.c
+++ b/src/interp/gdrls.c
@@ -92,6 +92,13 @@ void EliminerGrille(int32_t gdid) {
            }
         }
 
+        if (Grille[gdrow_id][gdcol_id].gset != NULL) {
+            for (int32_t i = 0; i < primes[Grille[gdrow_id][gdcol_id].log_chunk_gdin]; i++) {
+                c_ezfreegridset(gdid, i);
+            }
+            free(Grille[gdrow_id][gdcol_id].gset);
+        }
+
         for (int32_t i = 0; i < Grille[gdrow_id][gdcol_id].n_gdin_for; i++) {
             int32_t index = ez_find_gdin_in_gset(gdid, Grille[gdrow_id][gdcol_id].gdin_for[i]);
             if (index >= 0) {
-- 
2.43.0


From f3d39d345bf22eef00b8f341f741fd48a951e063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:19 +0000
Subject: [PATCH 64/90] fix: ezsint_mask and ezget_mask_zones used positions
 that had not been computed unless a field had been interpolated before

---
 src/interp/ez_mask.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interp/ez_mask.c b/src/interp/ez_mask.c
index 2ab40de..58d7031 100644
--- a/src/interp/ez_mask.c
+++ b/src/interp/ez_mask.c
@@ -204,6 +204,8 @@ int c_ezsint_mask(int *mask_out, int *mask_in) {
       }
 
    c_ezdefset(gdout, gdin);
+   ez_calclatlon(gdout);
+   ez_calcxy(gdin, gdout);
    idx_gdin = c_find_gdin(gdin, gdout);
    c_ezgprm(gdin, grtyp_in, &ni_gdin, &nj_gdin, &ig1_gdin, &ig2_gdin, &ig3_gdin, &ig4_gdin);
    c_ezgprm(gdout, grtyp_out, &ni_gdout, &nj_gdout, &ig1_gdout, &ig2_gdout, &ig3_gdout, &ig4_gdout);
@@ -252,6 +254,8 @@ int c_ezget_mask_zones(int *mask_out, int *mask_in) {
         }
 
     c_ezdefset(gdout, gdin);
+    ez_calclatlon(gdout);
+    ez_calcxy(gdin, gdout);
     idx_gdin = c_find_gdin(gdin, gdout);
     c_ezgprm(gdin, grtyp_in, &ni_gdin, &nj_gdin, &ig1_gdin, &ig2_gdin, &ig3_gdin, &ig4_gdin);
     c_ezgprm(gdout, grtyp_out, &ni_gdout, &nj_gdout, &ig1_gdout, &ig2_gdout, &ig3_gdout, &ig4_gdout);
-- 
2.43.0


From 89826fd9db2819c4030aa530884ab2f76a208f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:09 +0000
Subject: [PATCH 65/90] fix: ez_find_gdin_in_gset lacked the include that
 defines NULL

---
 src/interp/ez_find_gdin_in_gset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interp/ez_find_gdin_in_gset.c b/src/interp/ez_find_gdin_in_gset.c
index f42a03c..f61213d 100644
--- a/src/interp/ez_find_gdin_in_gset.c
+++ b/src/interp/ez_find_gdin_in_gset.c
@@ -1,3 +1,4 @@
+ #include <stddef.h>
  #include <rmn/ezscint.h>
  #include "ez_funcdef.h"
  
-- 
2.43.0


From 0fbaafd80bcfe80184e1f8f285cf1f46448fc926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:23 +0000
Subject: [PATCH 66/90] fix: Yin-Yang interpolation used an index of the table
 of sets found before the table grew

---
 src/interp/ezyy_calcxy.c | 3 +++
 src/interp/ezyysint.c    | 1 +
 src/interp/ezyyuvint.c   | 1 +
 src/interp/ezyywdint.c   | 1 +
 4 files changed, 6 insertions(+)

diff --git a/src/interp/ezyy_calcxy.c b/src/interp/ezyy_calcxy.c
index c6e030b..ca3da9a 100644
--- a/src/interp/ezyy_calcxy.c
+++ b/src/interp/ezyy_calcxy.c
@@ -95,6 +95,7 @@ int32_t c_ezyy_calcxy(int32_t gdout,int32_t gdin)
         lgdout->gset[idx_gdin].yinlon = (float *) malloc(ni*nj*sizeof(float));
         icode = c_gdll(yin_gdout,lgdout->gset[idx_gdin].yinlat,lgdout->gset[idx_gdin].yinlon);
         icode = c_ezyymint(yin_gdout,yin_gdin,ni,nj,lgdout->gset[idx_gdin].yin_maskout,lgdout->gset[idx_gdin].yinlat,lgdout->gset[idx_gdin].yinlon,yin2yin_lat,yin2yin_lon,&yincount_yin,yan2yin_lat,yan2yin_lon,&yancount_yin);
+        idx_gdin = c_find_gdin(gdin, gdout); /* the table of sets may have grown */
         /* store the lats and lons */
         lgdout->gset[idx_gdin].yincount_yin = yincount_yin;
         lgdout->gset[idx_gdin].yancount_yin = yancount_yin;
@@ -124,6 +125,7 @@ int32_t c_ezyy_calcxy(int32_t gdout,int32_t gdin)
         lgdout->gset[idx_gdin].yinlon = (float *) malloc(ni*nj*sizeof(float));
         icode = c_gdll(yin_gdout,lgdout->gset[idx_gdin].yinlat,lgdout->gset[idx_gdin].yinlon);
         icode = c_ezyymint(yin_gdout,yin_gdin,ni,nj,lgdout->gset[idx_gdin].yin_maskout,lgdout->gset[idx_gdin].yinlat,lgdout->gset[idx_gdin].yinlon,yin2yin_lat,yin2yin_lon,&yincount_yin,yan2yin_lat,yan2yin_lon,&yancount_yin);
+        idx_gdin = c_find_gdin(gdin, gdout); /* the table of sets may have grown */
         lgdout->gset[idx_gdin].yincount_yin = yincount_yin;
         lgdout->gset[idx_gdin].yancount_yin = yancount_yin;
         lgdout->gset[idx_gdin].yin2yin_lat = (float *) malloc(yincount_yin*sizeof(float));
@@ -148,6 +150,7 @@ int32_t c_ezyy_calcxy(int32_t gdout,int32_t gdin)
         icode = c_gdll(yan_gdout,lgdout->gset[idx_gdin].yanlat,lgdout->gset[idx_gdin].yanlon);
         int32_t yancount_yan, yincount_yan;
         icode = c_ezyymint(yan_gdout,yin_gdin,ni,nj,lgdout->gset[idx_gdin].yan_maskout,lgdout->gset[idx_gdin].yanlat,lgdout->gset[idx_gdin].yanlon,yin2yan_lat,yin2yan_lon,&yincount_yan,yan2yan_lat,yan2yan_lon,&yancount_yan);
+        idx_gdin = c_find_gdin(gdin, gdout); /* the table of sets may have grown */
         lgdout->gset[idx_gdin].yincount_yan = yincount_yan;
         lgdout->gset[idx_gdin].yancount_yan = yancount_yan;
         lgdout->gset[idx_gdin].yin2yan_lat = (float *) malloc(yincount_yan*sizeof(float));
diff --git a/src/interp/ezyysint.c b/src/interp/ezyysint.c
index 6b35449..5ac9535 100644
--- a/src/interp/ezyysint.c
+++ b/src/interp/ezyysint.c
@@ -140,6 +140,7 @@ int32_t c_ezyysint(float *zout, float *zin,int32_t gdout,int32_t gdin) {
     /* TO USE both Yin and Yang grids in Yin-yang input grid */
     /* Masquer les grilles YY input pour enlever overlap et calculer les X,Y */
     icode = c_ezyy_calcxy(gdout, gdin);
+    idx_gdin = c_find_gdin(gdin, gdout); /* the table of sets may have grown */
 
     /* interp yinyang to one grid */
     if (yyin == 1 && yyout == 0) {
diff --git a/src/interp/ezyyuvint.c b/src/interp/ezyyuvint.c
index cbf7f23..fd7a104 100644
--- a/src/interp/ezyyuvint.c
+++ b/src/interp/ezyyuvint.c
@@ -157,6 +157,7 @@ int32_t c_ezyyuvint(float *uuout, float *vvout, float *uuin,  float *vvin, int32
   /* To use both Yin and Yang grids in Yin-yang input grid */
   /* Masquer les grilles YY input pour enlever overlap et calculer les X,Y */
   icode = c_ezyy_calcxy(gdout,gdin);
+  idx_gdin = c_find_gdin(gdin, gdout); /* the table of sets may have grown */
 
 /* interp yinyang to one grid */
   if (yyin == 1 && yyout == 0)
diff --git a/src/interp/ezyywdint.c b/src/interp/ezyywdint.c
index 856a99c..6723f28 100644
--- a/src/interp/ezyywdint.c
+++ b/src/interp/ezyywdint.c
@@ -152,6 +152,7 @@ int32_t c_ezyywdint(float *uuout, float *vvout, float *uuin,  float *vvin, int32
   /* To use both Yin and Yang grids in Yin-yang input grid */
   /* Masquer les grilles YY input pour enlever overlap et calculer les X,Y */
   icode = c_ezyy_calcxy(gdout,gdin);
+  idx_gdin = c_find_gdin(gdin, gdout); /* the table of sets may have grown */
 
 /* interp yinyang to one grid */
   if (yyin == 1 && yyout == 0)
-- 
2.43.0


From 9e12332be9180fa0fe7fbff9aa6f5a22bb777ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:54 +0000
Subject: [PATCH 67/90] fix: emptying a table of sets kept the index of the
 last one, past the end of the new table

---
 src/interp/ezdefset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interp/ezdefset.c b/src/interp/ezdefset.c
index 1e273e9..0862e16 100644
--- a/src/interp/ezdefset.c
+++ b/src/interp/ezdefset.c
@@ -83,6 +83,7 @@ int32_t c_ezdefset(int32_t gdout, int32_t gdin) {
       }
       nsets = 0;
       gr->n_gdin = 0;
+      gr->idx_last_gdin = -1;
       free(gr->gset);
       allocate_gridset_table(gdout);
       gr->log_chunk_gdin = cur_log_chunk;
-- 
2.43.0


From f3cde01516406834d2330b14e7566f6822078ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:08 +0000
Subject: [PATCH 68/90] fix: ez_applywgts used the weights of the next row for
 the last point of each row, past the end for the last one

---
 src/interp/ez_applywgts.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp/ez_applywgts.inc b/src/interp/ez_applywgts.inc
index 90da7a9..abdc3b8 100644
--- a/src/interp/ez_applywgts.inc
+++ b/src/interp/ez_applywgts.inc
@@ -35,7 +35,7 @@
 
    do k = 1, ni_dst * nj_dst
      i = mod((k - 1), ni_dst) + 1
-     j = 1 + k / ni_dst
+     j = 1 + (k - 1) / ni_dst
      if (masque(k) == 1) then
         outfld(k) = 0.0
         do n = 1, n_wts
-- 
2.43.0


From 73e1f6cc27d7564789c245ee05fef411d03f79da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:18 +0000
Subject: [PATCH 69/90] fix: option names and values longer than 31 characters
 were copied past the end of the local buffers of the interpolation options

---
 src/interp/ezgetopt.c | 3 ++-
 src/interp/ezgetval.c | 5 +++--
 src/interp/ezsetopt.c | 4 ++--
 src/interp/ezsetval.c | 7 ++++---
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/interp/ezgetopt.c b/src/interp/ezgetopt.c
index 1ff878f..846c7d0 100644
--- a/src/interp/ezgetopt.c
+++ b/src/interp/ezgetopt.c
@@ -20,6 +20,7 @@
 
 #include <string.h>
 #include <ctype.h>
+#include <stdio.h>
 
 #include <rmn/ezscint.h>
 #include "ez_funcdef.h"
@@ -58,7 +59,7 @@ int32_t c_ezgetopt(char *option, char *value)
 
     memset(local_opt, (int) '\0', 32);
     memset(local_val, (int) '\0', 32);
-    strcpy(local_opt, option);
+    snprintf(local_opt, sizeof(local_opt), "%s", option);
 
     for (int32_t i = 0; i < strlen(local_opt); i++) {
         local_opt[i] = (char) tolower((int)local_opt[i]);
diff --git a/src/interp/ezgetval.c b/src/interp/ezgetval.c
index 1716c6d..d03d225 100644
--- a/src/interp/ezgetval.c
+++ b/src/interp/ezgetval.c
@@ -19,6 +19,7 @@
  */
 
 #include <ctype.h>
+#include <stdio.h>
 #include <string.h>
 
 #include <rmn/ezscint.h>
@@ -57,7 +58,7 @@ int32_t c_ezgetval(char *option, float *fvalue)
    char local_opt[32];
    int32_t i;
 
-   strcpy(local_opt, option);
+   snprintf(local_opt, sizeof(local_opt), "%s", option);
 
    for (i=0; i < strlen(local_opt); i++)
       {
@@ -96,7 +97,7 @@ int32_t c_ezgetival(char *option, int32_t *ivalue)
    char local_opt[32];
    int32_t i;
 
-   strcpy(local_opt, option);
+   snprintf(local_opt, sizeof(local_opt), "%s", option);
 
    for (i=0; i < strlen(local_opt); i++)
       {
diff --git a/src/interp/ezsetopt.c b/src/interp/ezsetopt.c
index 7b0b759..fb9f1d8 100644
--- a/src/interp/ezsetopt.c
+++ b/src/interp/ezsetopt.c
@@ -68,8 +68,8 @@ int32_t c_ezsetopt(
     memset(local_opt, (int) '\0', 32);
     memset(local_val, (int) '\0', 32);
 
-    strcpy(local_opt, option);
-    strcpy(local_val, value);
+    snprintf(local_opt, sizeof(local_opt), "%s", option);
+    snprintf(local_val, sizeof(local_val), "%s", value);
 
     for (int32_t i = 0; i < strlen(local_opt); i++) {
         local_opt[i] = (char) tolower((int)local_opt[i]);
diff --git a/src/interp/ezsetval.c b/src/interp/ezsetval.c
index 0e3abd1..c8eabc2 100644
--- a/src/interp/ezsetval.c
+++ b/src/interp/ezsetval.c
@@ -20,6 +20,7 @@
 
 
 #include <ctype.h>
+#include <stdio.h>
 #include <string.h>
 
 #include <rmn/ftnStrLen.h>
@@ -88,7 +89,7 @@ int32_t c_ezsetfval(char *option, float fvalue)
    char local_opt[32];
    int32_t i;
 
-   strcpy(local_opt, option);
+   snprintf(local_opt, sizeof(local_opt), "%s", option);
 
    for (i=0; i < strlen(local_opt); i++)
       {
@@ -124,7 +125,7 @@ int32_t c_ezsetival(char *option, int32_t ivalue)
    char local_opt[32];
    int32_t i;
 
-   strcpy(local_opt, option);
+   snprintf(local_opt, sizeof(local_opt), "%s", option);
 
    for (i=0; i < strlen(local_opt); i++)
      local_opt[i] = (char) tolower((int)local_opt[i]);
@@ -152,7 +153,7 @@ int32_t c_ezsetval2(char *option, float *fvalue)
    char local_opt[32];
    int32_t i;
 
-   strcpy(local_opt, option);
+   snprintf(local_opt, sizeof(local_opt), "%s", option);
 
    for (i=0; i < strlen(local_opt); i++)
      local_opt[i] = (char) tolower((int)local_opt[i]);
-- 
2.43.0


From 986b582577f1641ddf91a1c77b9a07873ffe21df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:18 +0000
Subject: [PATCH 70/90] fix: a grid type text longer than 3 characters was
 copied past its member of the grid

---
 src/interp/ezgdef_ffile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp/ezgdef_ffile.c b/src/interp/ezgdef_ffile.c
index 3299050..5efba5c 100644
--- a/src/interp/ezgdef_ffile.c
+++ b/src/interp/ezgdef_ffile.c
@@ -59,7 +59,7 @@ int32_t c_ezgdef_ffile(
     }
 
     memset(&newgr, (int)0, sizeof(_Grille));
-    strcpy(newgr.grtyp, grtyp);
+    newgr.grtyp[0] = grtyp[0];
     /* incoming ni,nj specified by the user */
     newgr.ni = ni;
     newgr.nj = nj;
-- 
2.43.0


From 3bc7e1e1fb3cbaf877f3c6a23294617754664638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:18 +0000
Subject: [PATCH 71/90] fix: remove_c and rename_c wrote the NUL of a name of
 256 characters past their buffers

---
 src/primitives/remove_c.c | 2 +-
 src/primitives/rename_c.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/remove_c.c b/src/primitives/remove_c.c
index 8231852..1be1d5e 100644
--- a/src/primitives/remove_c.c
+++ b/src/primitives/remove_c.c
@@ -31,7 +31,7 @@ int32_t f77name(remove_c)(
     const char * const filename,
     F2Cl lng1)
 {
-    char fname[256];
+    char fname[257];
 
     if (lng1 > 256) {
         Lib_Log(APP_LIBRMN,APP_ERROR,"%s: file name > 256 char\n",__func__);
diff --git a/src/primitives/rename_c.c b/src/primitives/rename_c.c
index 0b24cb4..8f852dc 100644
--- a/src/primitives/rename_c.c
+++ b/src/primitives/rename_c.c
@@ -32,7 +32,7 @@ int32_t f77name(rename_c)(
     F2Cl lng1,
     F2Cl lng2
 ) {
-    char old[256], new[256];
+    char old[257], new[257];
 
     if (lng1 > 256 || lng2 > 256) {
         Lib_Log(APP_LIBRMN,APP_ERROR,"%s: oldname or newname > 256 char\n",__func__);
-- 
2.43.0


From ce2a9a821f787424133d4ea76efb07823634b51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:18 +0000
Subject: [PATCH 72/90] fix: the key of a calling argument was built past the
 end of its buffer for long names

---
 src/primitives/get_ccard_arg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/get_ccard_arg.c b/src/primitives/get_ccard_arg.c
index 6c271c4..5bdf6ae 100644
--- a/src/primitives/get_ccard_arg.c
+++ b/src/primitives/get_ccard_arg.c
@@ -12,7 +12,7 @@ char* get_ccard_arg_m(
     char *pt = NULL;
     int lng, lng2;
 
-    sprintf(keyname,"%s%s%04d%s","%%",nom,ord,"%%");
+    snprintf(keyname,sizeof(keyname),"%s%s%04d%s","%%",nom,ord,"%%");
 //    Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: keyname --->>%s<<--- strlen(keyname)=%d\n",__func__,keyname,strlen(keyname));
     lng = get_appl_var(keyname, &value, strlen(keyname), 0);
     if (lng != 0) {
-- 
2.43.0


From c91a59ae04e12ead5af612eeefe81feaabca5924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:53 +0000
Subject: [PATCH 73/90] fix: texts of a request table longer than 12 characters
 were stored past the end of their row

---
 src/fstd98/excdes_new.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 0bf0212..9fea50b 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -848,7 +848,7 @@ int ReadRequestTable(char *filename)
         for (i=0;i<nvalues;i++) {
         while(*cptr != '\'' ) cptr++ ; cptr++ ;
         j=0;
-        while(*cptr != '\'' ) sar[i][j++]=*cptr++; cptr++ ;
+        while(*cptr != '\'' ) { if (j < (int)sizeof(sar[i]) - 1) sar[i][j++]=*cptr; cptr++; } cptr++ ;
         sar[i][j]='\000';
         sarp[i] = sar[i];
         }
-- 
2.43.0


From bb7eb9b6c43ead67df26af93934629f686102f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:53 +0000
Subject: [PATCH 74/90] fix: the name of a key longer than 255 characters was
 copied past the end of a local buffer

---
 src/primitives/c_ccard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_ccard.c b/src/primitives/c_ccard.c
index eebd0f8..fdc7609 100644
--- a/src/primitives/c_ccard.c
+++ b/src/primitives/c_ccard.c
@@ -250,7 +250,7 @@ int c_jfc_cherche_la_clef(char *nom,struct c_jfc_definition cle[],int n)
 
   char tmpstr[256];
 
-  strcpy(tmpstr, nom);
+  snprintf(tmpstr, sizeof(tmpstr), "%s", nom);
   while (*(tmpstr+i))
   {
     *(tmpstr+i) = toupper(*(tmpstr+i));
-- 
2.43.0


From e9323399fa7f5988652390e71629d078b519d399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:24 +0000
Subject: [PATCH 75/90] fix: igapg_c decoded the parameters for a grid type
 that was never set instead of the one given

---
 src/fstd98/convip.f | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fstd98/convip.f b/src/fstd98/convip.f
index 352a936..990421c 100644
--- a/src/fstd98/convip.f
+++ b/src/fstd98/convip.f
@@ -521,9 +521,8 @@ c     %         goto 101
       integer, intent(IN) :: ig1,ig2,ig3,ig4
       character(len=1), dimension(*), intent(OUT) :: pg1,pg2,pg3,pg4
       character(len=128) :: pg1_, pg2_, pg3_, pg4_
-      character(len=1) :: grtyp_
       integer :: l1, l2, l3, l4
-      call igapg(grtyp_,pg1_,pg2_,pg3_,pg4_,ig1,ig2,ig3,ig4)
+      call igapg(grtyp,pg1_,pg2_,pg3_,pg4_,ig1,ig2,ig3,ig4)
       l1 = len(trim(pg1_)) + 1
       l2 = len(trim(pg2_)) + 1
       l3 = len(trim(pg3_)) + 1
-- 
2.43.0


From 2aa4f5ca09bcbfa519e443ca7e18a707602999d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:24 +0000
Subject: [PATCH 76/90] fix: jjulien received the printable date in a temporary
 and computed with a variable never given a value

---
 src/base/jjulien.f | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/base/jjulien.f b/src/base/jjulien.f
index 8a9a57c..3e7000a 100644
--- a/src/base/jjulien.f
+++ b/src/base/jjulien.f
@@ -46,7 +46,7 @@ C     de commentaires (desactivation de code).
 *      a IDATE est tout de meme retourne.
 *
       Integer     jour,mois,annee
-      Integer     jdebut,jfin,datim(14),is1,is2
+      Integer     jdebut,jfin,datim(14),is1(1),is2
       Integer     dummy, newdate
       Real*8      heures
 *
@@ -70,16 +70,16 @@ C     de commentaires (desactivation de code).
 ***    Extraire l'annee, le mois, le jour et l'heure correspondante.
 *
 *     Call datmgp( datim )
-      dummy = newdate(datim(14), [is1],is2,-3)
+      dummy = newdate(datim(14), is1,is2,-3)
 *
 *     heures = datim(5)
       heures = is2/1000000
 *     annee  = datim(4)
-      annee  = is1/10000
+      annee  = is1(1)/10000
 *     jour   = datim(3)
-      jour   = mod(is1,100)
+      jour   = mod(is1(1),100)
 *     mois   = datim(2)
-      mois   = mod(is1/100,100)
+      mois   = mod(is1(1)/100,100)
 *
 ***    Verifier s'il y a aussi des minutes.
 *
-- 
2.43.0


From eb1fa5d08142dbd544ed1a8c8568567083257e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:24 +0000
Subject: [PATCH 77/90] fix: ez_iguvint and ez_rguvint returned no value

---
 src/interp/ez_igscint.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/interp/ez_igscint.c b/src/interp/ez_igscint.c
index cde1dfc..da3e200 100644
--- a/src/interp/ez_igscint.c
+++ b/src/interp/ez_igscint.c
@@ -85,6 +85,7 @@ int32_t f77name(ez_iguvint)(float *spdo, float *psio, int32_t *li, int32_t *lj,
     int32_t gdin = c_ezgdef_fmem(*ni,*nj, lgrtyp, lgrref,  *ig1,  *ig2,  *ig3,  *ig4, ax, ay);
     c_gdllwdval(gdin, spdo, psio, ui, vi, xlat, tmplon, npts);
     free(tmplon);
+    return 0;
 }
 
 
@@ -102,5 +103,6 @@ int32_t f77name(ez_rguvint)(float *spdo, float *psio, int32_t *li, int32_t *lj,
     int32_t gdin  = c_ezgdef(*ni,*nj, lgrtyp, NULL,  *ig1,  *ig2,  *ig3,  *ig4, NULL, NULL);
     c_gdllwdval(gdin, spdo, psio, ui, vi, xlat, tmplon, npts);
     free(tmplon);
+    return 0;
 }
 
-- 
2.43.0


From 65e1379f79febc998dc5e92e98abe59936cf77a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:24 +0000
Subject: [PATCH 78/90] fix: the last point of the positions of a compressed
 field was computed with steps never given a value

---
 src/compresseur/zfstlib.f90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compresseur/zfstlib.f90 b/src/compresseur/zfstlib.f90
index 859c285..b89a1c6 100644
--- a/src/compresseur/zfstlib.f90
+++ b/src/compresseur/zfstlib.f90
@@ -268,6 +268,8 @@ subroutine fill_last_colrows(px, py, z, ni, nj, nicoarse, njcoarse, istep)
     rstep = 1.0  *  istep
     istart = (nicoarse - 1) * istep
     jstart = (njcoarse - 1) * istep
+    dx = 0.0
+    dy = 0.0
     !  print  * , istart, jstart
     if (jstart .ne. nj) then
         nintervalles = nj - jstart
-- 
2.43.0


From 633d358c0b0d70c12478eced803ddfb3e721540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:24 +0000
Subject: [PATCH 79/90] fix: hyb2pres reported the key at an index never given
 a value

---
 src/fstd98/hybref.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/hybref.f90 b/src/fstd98/hybref.f90
index f49b1e4..bfd34e2 100644
--- a/src/fstd98/hybref.f90
+++ b/src/fstd98/hybref.f90
@@ -56,7 +56,7 @@
            bit, datyp, ip1a,ip2a,ip3a, tva, var, etik_S, grda,         &
            ig1a,ig2a,ig3a,ig4a, swa,lng, dlf, ubc, ex1, ex2, ex3 )
       if (hyb2pres.lt.0) then
-          write(app_msg,*) 'hyb2pres: fstprm failed on key',fstkeys(k)
+          write(app_msg,*) 'hyb2pres: fstprm failed on key',fstkeys(1)
           call lib_log(APP_LIBRMN,APP_ERROR,app_msg)
           return
       else
-- 
2.43.0


From 353f258afba793cced4bfab2d7de3ab3fc7271d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:24 +0000
Subject: [PATCH 80/90] fix: ccard looked at an index never given a value for a
 blank key

---
 src/primitives/ccard.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primitives/ccard.F90 b/src/primitives/ccard.F90
index e88054f..a00c0c7 100644
--- a/src/primitives/ccard.F90
+++ b/src/primitives/ccard.F90
@@ -111,6 +111,7 @@ subroutine ccard(incle, def, val, nbkeys, ii)
             if (plante) call qqexit(21)
         END IF
         CALL low2up(incle(i), cleup)
+        idx = 1
         DO j = 50, 1, -1
             IF (cleup(j:j) /= ' ') THEN
                 idx = j
-- 
2.43.0


From 4d61b72f3f5e510e4f32dd21d1275f87faaa32db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:24 +0000
Subject: [PATCH 81/90] fix: gmm_get compared a rank never given a value for a
 field without dimensions

---
 src/gmm/gmm_get.tmpl90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gmm/gmm_get.tmpl90 b/src/gmm/gmm_get.tmpl90
index 8831f05..667365b 100644
--- a/src/gmm/gmm_get.tmpl90
+++ b/src/gmm/gmm_get.tmpl90
@@ -45,6 +45,7 @@ integer function FNCNAME(gmm_get)(iname, p, m)
             m = m2
         endif
         p => FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%p
+        array_rank = 0
         do i = 1, 4
             if (m2%l(i)%n /= 0) then
                 array_rank = i
-- 
2.43.0


From 8d90c67e904c021d192aca99c452f1792b3864b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:24 +0000
Subject: [PATCH 82/90] fix: xdfgop gave back the content of variables never
 given a value

---
 src/fstd98/xdf98.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 906631f..4bc72c2 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -3641,8 +3641,8 @@ int32_t f77name(xdfget)(const int32_t *fhandle, int32_t *buf)
 int32_t f77name(xdfgop)(char *foptname, char *foptc, int32_t *foptv,
             F2Cl ll1, F2Cl ll2)
 {
-   int optv, err, l1=ll1, l2=ll2;
-   char optname[257], optc[257];
+   int optv = 0, err, l1=ll1, l2=ll2;
+   char optname[257], optc[257] = "";
 
    l1 = (l1 <= 256) ? l1 : 256;
    strncpy(optname, foptname, l1);
-- 
2.43.0


From 3345b70c43bf81bae0b8b6fe5ea04d5be88a1247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:24 +0000
Subject: [PATCH 83/90] fix: packTokensSample counted from values never given
 when it continues a stream

---
 src/compresseur/c_zfstlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compresseur/c_zfstlib.c b/src/compresseur/c_zfstlib.c
index 2fe720d..12b8c13 100644
--- a/src/compresseur/c_zfstlib.c
+++ b/src/compresseur/c_zfstlib.c
@@ -983,7 +983,7 @@ void packTokensSample(unsigned int z[], int *zlng, unsigned int zc[], int nicoar
 
   float entropie;
   int local_max;
-  unsigned int nbits_req_container, local_bins[24];
+  unsigned int nbits_req_container, local_bins[24] = {0};
   int lcl, nbits_needed, nbits2,lsum;
   unsigned char debug;
   unsigned int token, gt16;
-- 
2.43.0


From 394975504eb9533557fdf2d158bb94d01d39be23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:24 +0000
Subject: [PATCH 84/90] fix: the start message of the clock ran past column 72
 and printed a variable never given a value

---
 src/primitives/non_preempt_clock.f | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/non_preempt_clock.f b/src/primitives/non_preempt_clock.f
index a3812a3..9effb78 100644
--- a/src/primitives/non_preempt_clock.f
+++ b/src/primitives/non_preempt_clock.f
@@ -44,7 +44,8 @@
 !
         sleep_tick = 1.0
        is_running = 1
-       write(app_msg,*) 'non_preempt_clock: Clock started, id=',id_thread()
+       write(app_msg,*) 'non_preempt_clock: Clock started, id=',
+     &                  id_thread()
        call lib_log(APP_LIBRMN,APP_INFO,app_msg)
        time1=f_gettimeofday()
 1      call micro_sleep(sleep_tick)
-- 
2.43.0


From de8230fc952f3ede294ada9263a3420d682a3cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:40 +0000
Subject: [PATCH 85/90] fix: DecodeIp looked at kinds never given a value for
 triplets coded the old way

---
 src/fstd98/convert_ip123.f90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fstd98/convert_ip123.f90 b/src/fstd98/convert_ip123.f90
index 05a8208..115d71f 100644
--- a/src/fstd98/convert_ip123.f90
+++ b/src/fstd98/convert_ip123.f90
@@ -371,6 +371,8 @@ function decode_ip_0(RP1,RP2,RP3,IP1V,IP2V,IP3V) result(status) BIND (C,name='De
 
   IP1=IP1V ; IP2=IP2V ; IP3 = IP3V
   status=CONVERT_OK
+  P = 0
+  kind = -1
   if(ip1 < 0 .or. ip2 < 0 .or. ip3 < 0 ) goto 777
 
   call convip_plus(IP1,P(1),kind(1),-1,dummy,.false.)  ! kind of ip1 should be a level
@@ -381,6 +383,7 @@ function decode_ip_0(RP1,RP2,RP3,IP1V,IP2V,IP3V) result(status) BIND (C,name='De
   if(IP2 < 32768) then                          ! IP2 is old style, probably a time value
     RP2%lo = IP2 ; RP2%hi = IP2 ; 
     RP2%kind = 10                               ! time in hours ?
+    kind(2) = RP2%kind
     status = ior(status , CONVERT_GOOD_GUESS)    ! reasonable guess
   else
     call convip_plus(IP2,P(2),kind(2),-1,dummy,.false.)  ! kind of ip2 should be new style time
-- 
2.43.0


From e897d2e6a32aecb9c14feff4cd315e346282306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:40 +0000
Subject: [PATCH 86/90] fix: ez_calclatlon printed a grid computed before with
 dimensions never given a value

---
 src/interp/ez_calclatlon.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp/ez_calclatlon.c b/src/interp/ez_calclatlon.c
index b50d135..11fadff 100644
--- a/src/interp/ez_calclatlon.c
+++ b/src/interp/ez_calclatlon.c
@@ -35,10 +35,10 @@ int32_t ez_calclatlon(int32_t gdid) {
 
 
    c_gdkey2rowcol(gdid, &gdrow, &gdcol);
+   ni = Grille[gdrow][gdcol].ni;
+   nj = Grille[gdrow][gdcol].nj;
    if (!(Grille[gdrow][gdcol].flags & LAT))
       {
-      ni = Grille[gdrow][gdcol].ni;
-      nj = Grille[gdrow][gdcol].nj;
       npts = ni*nj;
 
       Grille[gdrow][gdcol].lat = (float *) malloc(ni*nj*sizeof(float));
-- 
2.43.0


From cc88ffccf2a414c8bd7b84f89446f5acb121ea86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:09 +0000
Subject: [PATCH 87/90] fix: the wind at a pole was computed with a grid
 spacing never given a value

---
 src/base/vglo.F   | 4 ++--
 src/base/vglogg.F | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/vglo.F b/src/base/vglo.F
index 15b1830..a36419f 100644
--- a/src/base/vglo.F
+++ b/src/base/vglo.F
@@ -113,7 +113,8 @@
                     STOP
 
 
-   10          IF( PHI.GT.EPSPHI.AND.PHI.LT. (180. -EPSPHI))  GO TO 30
+   10  DELLAM  =  360.0 / LI
+               IF( PHI.GT.EPSPHI.AND.PHI.LT. (180. -EPSPHI))  GO TO 30
 
 
 *                   SPECIAL INTER NEAR POLE
@@ -129,7 +130,6 @@
 
    30  OFFSET  =  90.0 /NLATS
        DELPHI  =  2.0 * OFFSET
-       DELLAM  =  360.0 / LI
 
 
 *                   CLONG 0 TO 2 PI-DELLAM EAST +
diff --git a/src/base/vglogg.F b/src/base/vglogg.F
index 78bfc61..6fafef5 100644
--- a/src/base/vglogg.F
+++ b/src/base/vglogg.F
@@ -123,7 +123,8 @@
                     STOP
 
 
-   12          IF( PHI.GT.EPSPHI.AND.PHI.LT. (180. -EPSPHI))  GO TO 13
+   12 DELLAM = 360./LI
+               IF( PHI.GT.EPSPHI.AND.PHI.LT. (180. -EPSPHI))  GO TO 13
 
 
 *                   SPECIAL INTER NEAR POLE
@@ -138,7 +139,6 @@
 
 
 13    CONTINUE
-      DELLAM = 360./LI
       MU = COS(PHI*DGTORD)
 *
 * DEFINE GAUSSIAN GRID IF NECESSARY
-- 
2.43.0


From 8ec7ba4520401b30ab5e5a638cb0c06367aaf7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:43 +0000
Subject: [PATCH 88/90] fix: c_ccard counted positional arguments from a number
 never given a value

---
 src/primitives/c_ccard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_ccard.c b/src/primitives/c_ccard.c
index fdc7609..cd15208 100644
--- a/src/primitives/c_ccard.c
+++ b/src/primitives/c_ccard.c
@@ -81,7 +81,7 @@ void c_ccard(char **argv, int argc, char **cle, char val[][NCARMAX],
   int retourne_npos =  FAUX;
   char *keyname, *pointeur,*prognom;
 
-  int   pos, posc, ii, i, posmoin, npos_interne;
+  int   pos, posc, ii, i, posmoin, npos_interne = 0;
   int erreur = 0;
 
   /*  reserver la memoire et initialiser les n structures de clefs  */
-- 
2.43.0


From a1d99ebae9b0101864642ea3219b077f6e5dbadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:49 +0000
Subject: [PATCH 89/90] fix: a jar was zero filled before the insertion was
 known to fit, past its end if it did not

---
 src/serializer/jar_mod.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializer/jar_mod.F90 b/src/serializer/jar_mod.F90
index 5111451..e441451 100644
--- a/src/serializer/jar_mod.F90
+++ b/src/serializer/jar_mod.F90
@@ -369,10 +369,10 @@ module rmn_jar
             insertion_pos = jar_instance%top                                        ! insert after data currently in jar
         endif
         if (insertion_pos < 0) return                                               ! invalid insertion position
-        if (insertion_pos > jar_instance%top) jar_content(jar_instance%top + 1 : insertion_pos) = 0 ! zero fill skipped portion
 
         size_elem = (size_bits + storage_size(jar_content(1)) - 1) / storage_size(jar_content(1))
         if (insertion_pos + size_elem > jar_instance%size_elem) return              ! jar would overflow
+        if (insertion_pos > jar_instance%top) jar_content(jar_instance%top + 1 : insertion_pos) = 0 ! zero fill skipped portion
 
         temp = C_LOC(object)
         call C_F_POINTER(temp, object_as_array, [size_elem])                        ! make what into an integer array
-- 
2.43.0


From c080c860919884262fd23204334da628758e6f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:56 +0000
Subject: [PATCH 90/90] fix: inserting an object that does not fill its last
 element read past its end

---
 src/serializer/jar_mod.F90 | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/serializer/jar_mod.F90 b/src/serializer/jar_mod.F90
index e441451..85a83a6 100644
--- a/src/serializer/jar_mod.F90
+++ b/src/serializer/jar_mod.F90
@@ -355,7 +355,7 @@ module rmn_jar
         integer(JAR_ELEMENT), intent(IN), optional :: position  !> Insertion point (1 = start of jar), optional
         logical :: success                                      !> Whether the operation succeeded
 
-        integer(JAR_ELEMENT) :: size_elem, insertion_pos
+        integer(JAR_ELEMENT) :: size_elem_down, size_elem, insertion_pos
         type(C_PTR) :: temp
         integer(JAR_ELEMENT), dimension(:), pointer :: object_as_array, jar_content
 
@@ -370,13 +370,33 @@ module rmn_jar
         endif
         if (insertion_pos < 0) return                                               ! invalid insertion position
 
-        size_elem = (size_bits + storage_size(jar_content(1)) - 1) / storage_size(jar_content(1))
+        size_elem_down = size_bits / storage_size(jar_content(1))                   ! size of object in JAR_ELEMENTs (rounded down)
+        size_elem      = (size_bits + storage_size(jar_content(1)) - 1) / storage_size(jar_content(1))
         if (insertion_pos + size_elem > jar_instance%size_elem) return              ! jar would overflow
         if (insertion_pos > jar_instance%top) jar_content(jar_instance%top + 1 : insertion_pos) = 0 ! zero fill skipped portion
 
         temp = C_LOC(object)
-        call C_F_POINTER(temp, object_as_array, [size_elem])                        ! make what into an integer array
-        jar_content(insertion_pos + 1 : insertion_pos + size_elem) = object_as_array(1 : size_elem)  ! insert into data portion of jar
+        call C_F_POINTER(temp, object_as_array, [size_elem_down])                   ! make what into an integer array
+        jar_content(insertion_pos + 1 : insertion_pos + size_elem_down) = object_as_array(1 : size_elem_down)  ! insert into data portion of jar
+
+        if (size_elem > size_elem_down) then
+            ! the last element is not full: the object ends before it does, insert extra bytes only
+            block
+                integer(C_INT64_T)   :: size_byte, size_byte_down
+                integer(JAR_ELEMENT) :: byte_pos
+                integer(C_INT8_T)    :: byte
+                integer(C_INT8_T), dimension(:), pointer :: jar_bytes, object_bytes
+
+                size_byte      = (size_bits + storage_size(byte) - 1) / storage_size(byte)
+                size_byte_down = size_elem_down * (storage_size(jar_content(1)) / storage_size(byte))
+                byte_pos       = insertion_pos * (storage_size(jar_content(1)) / storage_size(byte))
+                call C_F_POINTER(temp, object_bytes, [size_byte])
+                call C_F_POINTER(jar_instance%ptr, jar_bytes, [byte_pos + size_byte])
+                jar_content(insertion_pos + size_elem) = 0
+                jar_bytes(byte_pos + size_byte_down + 1 : byte_pos + size_byte) = object_bytes(size_byte_down + 1 : size_byte)
+            end block
+        endif
+
         jar_instance%top = insertion_pos + size_elem                                ! update top of jar position
         success = .true.
 
-- 
2.43.0

