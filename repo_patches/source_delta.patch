From 3a3ecc10c024d9008b2725b7abe41d941bde54f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 001/178] fix: c_wawrit2 wrote stack garbage into file holes
 (only a quarter of the filler was cleared)

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index f3d5c80..72063ff 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -941,7 +941,7 @@ int c_wawrit2(
     }
     if ( offset > FGFDT[entry].file_size + 1 ) {
         uint32_t scrap[WA_HOLE];
-        memset(scrap, 0, WA_HOLE);
+        memset(scrap, 0, sizeof(scrap));
         qqcwawr(scrap, FGFDT[entry].file_size + 1, offset - FGFDT[entry].file_size, entry);
     }
     uint32_t * const bufswap = (uint32_t *) buf;
-- 
2.43.0


From eff13d1de52e54a74c9957ef3a87979cb07155d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 002/178] fix: c_waread2 ended the program when reading two
 words past the end of the file

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 72063ff..e88db8e 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1028,7 +1028,7 @@ int c_waread2(
     if ( offset + lnwords - 1 > FGFDT[entry].eff_file_size ) {
         lnwords -= (offset + lnwords - 1 - FGFDT[entry].eff_file_size);
     }
-    if ( lnwords == 0 ) return 0;
+    if ( lnwords <= 0 ) return 0;
     qqcward((uint32_t *)buf, offset, lnwords, entry);
     if (*little_endian) swap_buffer_endianness(bufswap, lnwords);
     return lnwords;
-- 
2.43.0


From 2838c319a56bd38cc90055f061bbe14d5abd17c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 003/178] fix: paged word addressable I/O attached the last
 word of a page to the wrong page

---
 src/primitives/c_baseio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index e88db8e..02fe236 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2043,7 +2043,7 @@ static void wa_page_read(
         // Obtenir une nouvelle page
         get_new_page(fileIdx);
         pageIdx = wafile[fileIdx].nb_page_in_use - 1;
-        int wa0 = adr - (adr % WA_PAGE_SIZE) + 1;
+        int wa0 = adr - ((adr - 1) % WA_PAGE_SIZE);
         wafile[fileIdx].page[pageIdx].wa0 = (wa0 > 1) ? wa0 : 1;
         wafile[fileIdx].page[pageIdx].access_count++;
         Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: obtention d'une page %d\n",__func__,pageIdx);
@@ -2155,7 +2155,7 @@ static void wa_page_write(
         get_new_page(ind);
         pageIdx = wafile[ind].nb_page_in_use - 1;
         Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: obtention d'une page %d\n",__func__,pageIdx);
-        int wa0 = offset - (offset % WA_PAGE_SIZE) + 1;
+        int wa0 = offset - ((offset - 1) % WA_PAGE_SIZE);
         wafile[ind].page[pageIdx].wa0 = (wa0 > 1) ? wa0 : 1;
         wafile[ind].page[pageIdx].access_count++;
 
-- 
2.43.0


From a8da2f20422ccf8d6bf69c1019d8e84f87f1c37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 004/178] fix: a paged write ending one or two words before EOF
 lost the rest of the page

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 02fe236..edd3272 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2164,7 +2164,7 @@ static void wa_page_write(
         // a la fin de fichier ou plus, alors il faut relire la page en question
         if ((offset > wafile[ind].page[pageIdx].wa0) ||
             ((offset + nmots != wafile[ind].page[pageIdx].wa0 + WA_PAGE_SIZE) &&
-            (offset + nmots < FGFDT[indf].file_size))) {
+            (offset + nmots <= FGFDT[indf].file_size))) {
 
             wseek(fd, wafile[ind].page[pageIdx].wa0 - 1, SEEK_SET);
             int readbytes;
-- 
2.43.0


From 667c394348ff8a537f53d685d4f27d2710d93d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 005/178] fix: scrap_page copied overlapping page descriptors
 with memcpy

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index edd3272..ad2cfcf 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1646,7 +1646,7 @@ static void scrap_page(
     wafile[fl0].nb_page_in_use--;
     free_list[++nfree] = wafile[fl0].page[pg0].page_adr;
     if (pg0 != wafile[fl0].nb_page_in_use) {
-        memcpy(&wafile[fl0].page[pg0], &wafile[fl0].page[pg0+1], sizeof(PAGEINFO) * (wafile[fl0].nb_page_in_use - pg0));
+        memmove(&wafile[fl0].page[pg0], &wafile[fl0].page[pg0+1], sizeof(PAGEINFO) * (wafile[fl0].nb_page_in_use - pg0));
     }
     pg0 = wafile[fl0].nb_page_in_use;
     wafile[fl0].page[pg0].wa0 = 0;
-- 
2.43.0


From bc74da47e94eb93ab5f4aea3acb575d9f01b8798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 006/178] fix: a failed read of a page was taken for success
 (signed/unsigned comparison)

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index ad2cfcf..9add97d 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2056,7 +2056,7 @@ static void wa_page_read(
             readbytes = sizeof(uint32_t) * WA_PAGE_SIZE;
         }
         int nbytes = read(fd, wafile[fileIdx].page[pageIdx].page_adr, sizeof(uint32_t) * WA_PAGE_SIZE);
-        if ( nbytes < readbytes ) {
+        if ( nbytes < (int)readbytes ) {
             Lib_Log(APP_LIBRMN,APP_FATAL,"%s: cannot read page from file %d,fd=%d, tried to get %ld bytes, got %d\n",__func__,fileIdx,sizeof(uint32_t)*WA_PAGE_SIZE,nbytes);
             perror("WA_PAGE_READ");
             exit(1);
-- 
2.43.0


From 4cb2e67fba453bfecd288ed0d7b8e448248d217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 007/178] fix: the retry after a short write wrote the
 beginning of the buffer again

---
 src/primitives/c_baseio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 9add97d..e854c8e 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2287,7 +2287,7 @@ static void qqcwawr(
             if (ladr != 0) wseek(lfd, ladr - 1, SEEK_SET);
             int nwritten = write(lfd, buf, sizeof(uint32_t) * nwords);
             if (nwritten != sizeof(uint32_t) * nwords) {
-                if (errno == 14) {
+                if (nwritten < 0 && errno == 14) {
                     Lib_Log(APP_LIBRMN,APP_ERROR,"%s: write error for file %s, filename=%s, buf=%p adr=%u, nmots=%d, nwritten=%d, errno=%d\n",__func__,FGFDT[indf].file_name,FGFDT[indf].file_name,buf,ladr,nwords,nwritten,errno);
                     Lib_Log(APP_LIBRMN,APP_ERROR,"%s: Contactez un membre de la section informatique de RPN / Seek support from RPN informatic section\n",__func__);
                     /*            memorymap(1); */
@@ -2296,7 +2296,7 @@ static void qqcwawr(
                 }
                 if (nwritten >= 0) {
                     int togo = (nwords * sizeof(uint32_t)) - nwritten;
-                    nwritten = write(lfd, buf, togo);
+                    nwritten = write(lfd, (const char *)buf + nwritten, togo);
                     Lib_Log(APP_LIBRMN,APP_ERROR,"%s: multiple write attempt of file %s last write=%d bytes, total needed=%ld bytes\n",__func__,FGFDT[indf].file_name,togo,nwords*sizeof(uint32_t));
                     if (nwritten != togo) {
                         Lib_Log(APP_LIBRMN,APP_ERROR,"%s: write error for file %s, filename=%s, buf=%p adr=%u, nmots=%d, nwritten=%d, errno=%d\n",__func__,FGFDT[indf].file_name,FGFDT[indf].file_name,buf,ladr,nwords,nwritten,errno);
-- 
2.43.0


From f0ca0c30bf05e81e6b5ab70d0bf4a4d175d3b14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 008/178] fix: c_fclos on an open word addressable file leaked
 its slot and lost its modified pages

---
 src/primitives/c_baseio.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index e854c8e..029243d 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -73,6 +73,7 @@ static int c_qqqfscr(const char * const type);
 static int fnom_rem_connect( const int ind, const char * const remote_host);
 static void wa_pages_flush(const int fileIdx);
 static int qqcopen(const int indf);
+static int qqcclos(const int indf);
 static void qqcwawr(const uint32_t * const buf, const unsigned int wadr, const int nwords, const int indf);
 static void qqcward(uint32_t * const buf, const unsigned int woffset, const int lnmots, const int indf);
 static void arrayZero(uint32_t * const dest, const int nwords);
@@ -647,7 +648,14 @@ int c_fclos(
             int32_t iun77 = iun;
             ier = f77name(ftnclos)(&iun77);
         } else {
-            ier = close(FGFDT[entry].fd);
+            int wa_ind = 0;
+            while (wa_ind < MAXWAFILES && init && wafile[wa_ind].file_desc != FGFDT[entry].fd) wa_ind++;
+            if (init && wa_ind < MAXWAFILES) {
+                // release the word addressable file slot, writing its modified pages
+                ier = qqcclos(entry);
+            } else {
+                ier = close(FGFDT[entry].fd);
+            }
         }
     }
 
-- 
2.43.0


From a9ed7fe33dace2b13fa8c8c9832b25bfccca1d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 009/178] fix: a file opened in the slot of a closed CMCARC
 subfile inherited its offset

---
 src/primitives/c_baseio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 029243d..6e66d9b 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1967,6 +1967,7 @@ static int qqcopen(
             return -1;
         }
         wafile[ind].file_desc = fd;
+        wafile[ind].offset = 0;
         FGFDT[indf].fd = fd;
         FGFDT[indf].open_flag = 1;
     }
-- 
2.43.0


From 68ce11a53ca6acac77e5b7d7ab47e0b57c923690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:23 +0000
Subject: [PATCH 010/178] fix: paged reads ended the program as soon as a file
 had two pages in memory (overlap check compared a page with itself)

---
 src/primitives/c_baseio.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 6e66d9b..bdea7b1 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2088,9 +2088,9 @@ static void wa_page_read(
     for (int j = 0; j < wafile[fileIdx].nb_page_in_use; j++) {
         for (int i = 0; i < wafile[fileIdx].nb_page_in_use; i++) {
             if (j != i) {
-                if ((wafile[fileIdx].page[j].wa0 >= wafile[fileIdx].page[pageIdx].wa0) &&
-                    (wafile[fileIdx].page[j].wa0 <= wafile[fileIdx].page[pageIdx].wa0 + WA_PAGE_SIZE - 1)) {
-                    Lib_Log(APP_LIBRMN,APP_FATAL,"%s: overlapping pages i=%d, page[j].wa0=%d, page[i].wa0=%d, page[i].wa0+WA_PAGE_SIZE=%d\n",__func__,i,wafile[fileIdx].page[j].wa0,wafile[fileIdx].page[pageIdx].wa0,wafile[fileIdx].page[pageIdx].wa0+WA_PAGE_SIZE-1);
+                if ((wafile[fileIdx].page[j].wa0 >= wafile[fileIdx].page[i].wa0) &&
+                    (wafile[fileIdx].page[j].wa0 <= wafile[fileIdx].page[i].wa0 + WA_PAGE_SIZE - 1)) {
+                    Lib_Log(APP_LIBRMN,APP_FATAL,"%s: overlapping pages i=%d, page[j].wa0=%d, page[i].wa0=%d, page[i].wa0+WA_PAGE_SIZE=%d\n",__func__,i,wafile[fileIdx].page[j].wa0,wafile[fileIdx].page[i].wa0,wafile[fileIdx].page[i].wa0+WA_PAGE_SIZE-1);
                     f77name(tracebck)();
                     exit(1);
                 }
-- 
2.43.0


From 81b7f3b05a327f9ee7f69d884c5e57459279f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:12 +0000
Subject: [PATCH 011/178] fix: incompressible integer fields (data type 130)
 were stored one word too far and read back wrong

---
 src/fstd98/fstd98.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 1d01ae1..0e241e1 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1210,9 +1210,18 @@ int c_fstecr(
                         int compressed_lng = armn_compress((unsigned char *)&(buffer->data[keys_len+offset]), ni, nj, nk, nbits, 1);
                         c_armn_compress_setswap(1);
                         if (compressed_lng < 0) {
-                            stdf_entry->datyp = 2;
-                            compact_integer(field, (void *) NULL, &(buffer->data[keys_len+offset]),
-                                ni * nj * nk, nbits, 0, xdf_stride, 1);
+                            // Stored uncompressed: same layout as a record written with data type 2
+                            stdf_entry->datyp = is_missing | 2;
+                            if (xdf_short) {
+                                compact_short(field, (void *) NULL, &(buffer->data[keys_len]),
+                                    ni * nj * nk, nbits, 0, xdf_stride, 5);
+                            } else if (xdf_byte) {
+                                compact_char(field, (void *) NULL, &(buffer->data[keys_len]),
+                                    ni * nj * nk, nbits, 0, xdf_stride, 9);
+                            } else {
+                                compact_integer(field, (void *) NULL, &(buffer->data[keys_len]),
+                                    ni * nj * nk, nbits, 0, xdf_stride, 1);
+                            }
                         } else {
                             int nbytes = 4 + compressed_lng;
                             // fprintf(stderr, "Debug+ fstecr armn_compress compressed_lng=%d\n", compressed_lng);
-- 
2.43.0


From f8ba062f28508ad1dc5b7b9da32001ac9ded8fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:12 +0000
Subject: [PATCH 012/178] fix: incompressible fields with missing values lost
 their missing value flag

---
 src/fstd98/fstd98.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 0e241e1..7b66f05 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1171,7 +1171,7 @@ int c_fstecr(
                         ni * nj * nk, nbits + 64 * Max(16, nbits), 0, xdf_stride, 1, 0, &tempfloat);
                     int compressed_lng = armn_compress((unsigned char *)&(buffer->data[keys_len+5]), ni, nj, nk, nbits, 1);
                     if (compressed_lng < 0) {
-                        stdf_entry->datyp = 1;
+                        stdf_entry->datyp = is_missing | 1;
                         packfunc(field, &(buffer->data[keys_len]), &(buffer->data[keys_len+3]),
                             ni * nj * nk, nbits, 24, xdf_stride, 1, 0, &tempfloat);
                     } else {
@@ -1317,7 +1317,7 @@ int c_fstecr(
                         /* use an additionnal compression scheme */
                         int compressed_lng = c_armn_compress32((unsigned char *)&(buffer->data[keys_len+1]), (float *)field, ni, nj, nk, nbits);
                         if (compressed_lng < 0) {
-                            stdf_entry->datyp = 5;
+                            stdf_entry->datyp = is_missing | 5;
                             f77name(ieeepak)(field, &(buffer->data[keys_len]), &f_ni, &f_njnk, &f_minus_nbits,
                                 &f_zero, &f_one);
                         } else {
@@ -1343,7 +1343,7 @@ int c_fstecr(
                     c_float_packer((float *)field, nbits, &(buffer->data[keys_len+1]), &(buffer->data[keys_len+1+header_size]), ni * nj * nk);
                     int compressed_lng = armn_compress((unsigned char *)&(buffer->data[keys_len+1+header_size]), ni, nj, nk, nbits, 1);
                     if (compressed_lng < 0) {
-                        stdf_entry->datyp = 6;
+                        stdf_entry->datyp = is_missing | 6;
                         c_float_packer((float *)field, nbits, &(buffer->data[keys_len]), &(buffer->data[keys_len+header_size]), ni * nj * nk);
                     } else {
                         int nbytes = 16 + (header_size*4) + compressed_lng;
-- 
2.43.0


From 2557da9fd6bf5e0f4aaedbee343721cfeae0605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:12 +0000
Subject: [PATCH 013/178] fix: compressed floating point fields (data type 129)
 with less than 16 bits were not readable

---
 src/packers/compact.tmplc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packers/compact.tmplc b/src/packers/compact.tmplc
index f3a74c9..2a8edb6 100644
--- a/src/packers/compact.tmplc
+++ b/src/packers/compact.tmplc
@@ -355,7 +355,8 @@ void *compact_FLOAT_TYPE(
         }
 
         tokenSize = theHeader->bitSize;
-        EffectivePackedTokenSize = tokenSize;
+        // packedTokenBitSize > 64 means that tokens were stored in slots wider than themselves
+        if (packedTokenBitSize <= 64) EffectivePackedTokenSize = tokenSize;
         if ( tokenSize != wordSize ) {
             missingToken = ~(-1 << tokenSize);
         } else {
-- 
2.43.0


From b3a7ae61b27767e262712de8d88bb82954a95250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:49 +0000
Subject: [PATCH 014/178] fix: a failed open left the unit marked as open, it
 could not be opened again

---
 src/fstd98/xdf98.c | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 5cbe474..f1c0c7c 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1709,8 +1709,8 @@ int c_xdfloc2(
 }
 
 
-//! Open an XDF file.
-int c_xdfopn(
+//! Open an XDF file; the file table entry is not released on error
+static int open_xdf(
     //! [in] Unit number associated to the file
     int iun,
     //! [in] Open mode (READ, WRITE, R-W, CREATE, APPEND)
@@ -2031,6 +2031,39 @@ int c_xdfopn(
 }
 
 
+//! Open an XDF file.
+int c_xdfopn(
+    //! [in] Unit number associated to the file
+    int iun,
+    //! [in] Open mode (READ, WRITE, R-W, CREATE, APPEND)
+    char *mode,
+    //! [in] Primary keys
+    word_2 *pri,
+    //! [in] Number of primary keys
+    int npri,
+    //! [in] Info keys
+    word_2 *aux,
+    //! [in] Number of info keys
+    int naux,
+    //! [in] Application signature
+    char *appl
+) {
+    const int was_open = init_package_done && (iun > 0) && (file_index(iun) != ERR_NO_FILE);
+    const int ier = open_xdf(iun, mode, pri, npri, aux, naux, appl);
+    if ((ier < 0) && (iun > 0) && !was_open) {
+        // Do not leave an entry for a file that could not be opened in the table
+        const int index = file_index(iun);
+        if (index != ERR_NO_FILE) {
+            for (int i = 0; i < file_table[index]->npages; i++) {
+                free(file_table[index]->dir_page[i]);
+            }
+            init_file(index);
+        }
+    }
+    return ier;
+}
+
+
 //! Set different options in xdf.
 int c_xdfopt(
     //! [in] Name of option to set
-- 
2.43.0


From 46b2f4760585d7f8577d51bbc66f0456be5593a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:49 +0000
Subject: [PATCH 015/178] fix: origin date was wrong when deet * npas is a
 multiple of 2**32 (integer overflow)

---
 src/fstd98/fstd98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 7b66f05..5eded84 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -265,7 +265,7 @@ static void crack_std_parms(
     cracked_parms->date_valid = datexx;
     cracked_parms->date_stamp = datexx;
     int32_t ftn_date = (int32_t) datexx;
-    if ((stdf_entry->deet * stdf_entry->npas) != 0) {
+    if (((int64_t)stdf_entry->deet * stdf_entry->npas) != 0) {
         /* compute origin date */
         f77name(incdatr)(&ftn_date, &ftn_date, &r8_diff);
         cracked_parms->date_stamp = (int) ftn_date;
-- 
2.43.0


From dfa65502d3cf6b601b90fb329b319c4112a4dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:49 +0000
Subject: [PATCH 016/178] fix: handles one past the last record or page were
 accepted

---
 src/fstd98/fstd98.c | 11 ++++++++++-
 src/fstd98/xdf98.c  |  8 ++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 5eded84..b20201d 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1438,6 +1438,11 @@ int c_fst_edit_dir_plus(
 
     f = file_table[index];
 
+    if ((f == NULL) || (f->iun < 0) || (f->cur_info == NULL)) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle=%d\n",__func__,handle);
+        return(ERR_BAD_HNDL);
+    }
+
     if (! f->cur_info->attr.std) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) is not a RPN standard file\n",__func__,f->iun);
         return(ERR_NO_FILE);
@@ -1459,13 +1464,17 @@ int c_fst_edit_dir_plus(
     strncpy(grtyp, in_grtyp, l4);
 
     pageno = PAGENO_FROM_HANDLE(handle);
-    if (pageno > f->npages) {
+    if (pageno >= f->npages) {
         /* page is not in current file */
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid page number\n",__func__);
         return(ERR_BAD_PAGENO);
     }
 
     recno = RECORD_FROM_HANDLE(handle);
+    if (recno >= (f->dir_page[pageno])->dir.nent) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
+        return(ERR_BAD_HNDL);
+    }
     /*  printf("Debug+ c_fst_edit_dir pageno=%d recno=%d\n", pageno, recno); */
     width = W64TOWD(f->primary_len);
     entry = (f->dir_page[pageno])->dir.entry + recno * width;
diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index f1c0c7c..7b211a5 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -997,7 +997,7 @@ int c_xdfdel(
             }
         }
 
-        if (record_number > target_page->dir.nent) {
+        if (record_number >= target_page->dir.nent) {
             Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
             return(ERR_BAD_HNDL);
         }
@@ -1092,7 +1092,7 @@ int c_xdfget2(
             f = file_table[target_page->true_file_index];
         }
 
-        if (record_number > target_page->dir.nent) {
+        if (record_number >= target_page->dir.nent) {
             Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
             return(ERR_BAD_HNDL);
         }
@@ -2141,7 +2141,7 @@ int c_xdfprm(
             }
         }
 
-        if (record_number > target_page->dir.nent) {
+        if (record_number >= target_page->dir.nent) {
             Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
             return(ERR_BAD_HNDL);
         }
@@ -2271,7 +2271,7 @@ int c_xdfput(
                 }
             }
 
-            if (record_number > f->cur_dir_page->dir.nent) {
+            if (record_number >= f->cur_dir_page->dir.nent) {
                 Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
                 return(ERR_BAD_HNDL);
             }
-- 
2.43.0


From 75c142565d0564f1611726b15375724ba5a0fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:49 +0000
Subject: [PATCH 017/178] fix: c_xdfloc only initialised the mask of the first
 key

---
 src/fstd98/xdf98.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 7b211a5..8d5ad61 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1602,10 +1602,10 @@ int c_xdfloc2(
         mskkeys = malloc(nprim * sizeof(uint32_t));
         was_allocated = 1;
         for (i = 0; i < nprim; i++) {
-            if (*primk == -1) {
-                *mskkeys = 0;
+            if (primk[i] == -1) {
+                mskkeys[i] = 0;
             } else {
-                *mskkeys = -1;
+                mskkeys[i] = -1;
             }
         }
     }
-- 
2.43.0


From 8b1dcf190ee710f655b967513b214ccd403c0757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:49 +0000
Subject: [PATCH 018/178] fix: searches continuing in the third or later linked
 page started at the wrong page or crashed

---
 src/fstd98/xdf98.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 8d5ad61..e9e3f42 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1661,7 +1661,7 @@ int c_xdfloc2(
     }
 
     if ((handle != -1) && (! f->xdf_seq)) {
-        if (pageno != f->cur_pageno) {
+        if ((pageno != f->cur_pageno) || (pageno >= f->npages)) {
             if (pageno < f->npages) {
                 // Page is in current file
                 f->cur_dir_page = f->dir_page[pageno];
@@ -1675,7 +1675,7 @@ int c_xdfloc2(
                 }
                 f->cur_dir_page = f->dir_page[f->npages - 1];
                 f->cur_pageno = f->npages - 1;
-                for (i = 0; (i <= pageno - f->cur_pageno) && (f->cur_dir_page); i++) {
+                for (i = f->npages; (i <= pageno) && (f->cur_dir_page); i++) {
                     f->cur_dir_page = (f->cur_dir_page)->next_page;
                     f->cur_pageno++;
                 }
-- 
2.43.0


From fb2bbde5d51e7aabe72506119b86e6be2cde4a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:49 +0000
Subject: [PATCH 019/178] fix: a linked file lost its link when it needed a new
 directory page

---
 src/fstd98/xdf98.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index e9e3f42..a4fee94 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -148,7 +148,8 @@ static int32_t add_dir_page(
         // First page has no predecessor
         (fte->dir_page[fte->npages])->prev_page = NULL;
     } else {
-        // Update succesor to preceding page
+        // Update succesor to preceding page, keep the link to the pages of another file if there is one
+        (fte->dir_page[fte->npages])->next_page = (fte->dir_page[fte->npages-1])->next_page;
         (fte->dir_page[fte->npages])->prev_page = fte->dir_page[fte->npages-1];
         (fte->dir_page[fte->npages-1])->next_page = fte->dir_page[fte->npages];
     }
-- 
2.43.0


From 851cb14ff8b7b3e30b7b398de98f5f413b65d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:12 +0000
Subject: [PATCH 020/178] fix: records following a deleted record of a
 sequential file could not be found

---
 src/fstd98/xdf98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index a4fee94..86a579b 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -3299,7 +3299,7 @@ static uint32_t next_match(
         while (! found) {
             nw = c_waread2(iun, f->head_keys, f->cur_addr, width);
             header = (xdf_record_header *) f->head_keys;
-            if ((header->idtyp >= 112) || (nw < width)) {
+            if (((header->idtyp >= 112) && ((header->idtyp <= 127) || f->fstd_vintage_89)) || (nw < width)) {
                 if ((header->idtyp >= 112) && (header->idtyp < 127)) {
                     f->cur_addr += W64TOWD(1);
                 }
-- 
2.43.0


From b6f483c68937b3ca1339de13e530e37ed6b9bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:12 +0000
Subject: [PATCH 021/178] fix: ip2_all and ip3_all criteria were ignored unless
 ip1_all was used too

---
 src/fstd98/fstd98.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index b20201d..5f48ca1 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1850,14 +1850,16 @@ int c_fstinfx(
             if ((ip1s_flag) && (ip1 >= 0)) {
                 if (ip_is_equal(ip1, stdf_entry->ip1, 1) == 0) {
                     nomatch = 1;
-                } else if ((ip2s_flag) && (ip2 >= 0)) {
-                    if (ip_is_equal(ip2, stdf_entry->ip2, 2) == 0) {
-                        nomatch = 1;
-                    } else if ((ip3s_flag) && (ip3 >= 0)) {
-                        if (ip_is_equal(ip3, stdf_entry->ip3, 3) == 0) {
-                            nomatch = 1;
-                        }
-                    }
+                }
+            }
+            if ((ip2s_flag) && (ip2 >= 0)) {
+                if (ip_is_equal(ip2, stdf_entry->ip2, 2) == 0) {
+                    nomatch = 1;
+                }
+            }
+            if ((ip3s_flag) && (ip3 >= 0)) {
+                if (ip_is_equal(ip3, stdf_entry->ip3, 3) == 0) {
+                    nomatch = 1;
                 }
             }
             if (nomatch) {
-- 
2.43.0


From 2c71a76ff6aabba9963ee20203e8f6f2a9ea2cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:12 +0000
Subject: [PATCH 022/178] fix: c_fstnbr and c_fstnbrv on a file that cannot be
 opened read outside of the file table

---
 src/fstd98/fstd98.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 5f48ca1..2f4fad4 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -2587,7 +2587,8 @@ int c_fstnbr(
     }
 
     if ((index = file_index(iun)) == ERR_NO_FILE) {
-        c_fstouv(iun, "RND");
+        nrec = c_fstouv(iun, "RND");
+        if (nrec < 0) return nrec;
         index = file_index(iun);
         fte = file_table[index];
         nrec = fte->nrecords;
@@ -2615,7 +2616,8 @@ int c_fstnbrv(
     }
 
     if ((index = file_index(iun)) == ERR_NO_FILE) {
-        c_fstouv(iun, "RND");
+        nrec = c_fstouv(iun, "RND");
+        if (nrec < 0) return nrec;
         index = file_index(iun);
         f = file_table[index];
         nrec = f->header->nrec;
-- 
2.43.0


From 36ed7b8f770d4fbbeba0a84aa54e535fd6a84dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:55 +0000
Subject: [PATCH 023/178] fix: deleting a record of a linked file was not saved
 in that file and changed the counts of the wrong one

---
 src/fstd98/xdf98.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 86a579b..2fdfff6 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -996,6 +996,12 @@ int c_xdfdel(
                 Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid page number\n",__func__);
                 return(ERR_BAD_PAGENO);
             }
+            // The record has to be deleted in the file which contains it
+            f = file_table[target_page->true_file_index];
+            if ((f->header->rwflg == RDMODE) || (f->header->rwflg == APPEND) || (f->cur_info->attr.read_only)) {
+                Lib_Log(APP_LIBFST,APP_ERROR,"%s: linked file is read only or open in append mode\n",__func__);
+                return(ERR_RDONLY);
+            }
         }
 
         if (record_number >= target_page->dir.nent) {
-- 
2.43.0


From 6cee61145c78268ec22b2b97654bec595e57ec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:48 +0000
Subject: [PATCH 024/178] fix: a checkpoint left the data in memory when files
 are paged (WA_CONFIG)

---
 src/PUBLIC_INCLUDES/rmn/fnom.h |  2 ++
 src/fstd98/xdf98.c             |  2 ++
 src/primitives/c_baseio.c      | 23 +++++++++++++++++++++++
 3 files changed, 27 insertions(+)

diff --git a/src/PUBLIC_INCLUDES/rmn/fnom.h b/src/PUBLIC_INCLUDES/rmn/fnom.h
index fff9cab..2666020 100644
--- a/src/PUBLIC_INCLUDES/rmn/fnom.h
+++ b/src/PUBLIC_INCLUDES/rmn/fnom.h
@@ -109,6 +109,8 @@ int c_waclos2(const int iun);
 int32_t f77name(waclos2)(const int32_t * const iun);
 
 void c_waclos(const int iun);
+
+int c_waflush(const int iun);
 void f77name(waclos)(const int32_t * const iun);
 
 int c_wawrit2(
diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 2fdfff6..5f5d8c0 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -886,6 +886,8 @@ int c_xdfcls(
         // Reset file informations
         init_file(index);
     } else {
+        // What has been written so far has to reach the file
+        if (FGFDT[index_fnom].open_flag) c_waflush(iun);
         xdf_checkpoint = 0;
     }
 
diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index bdea7b1..e7ea7e6 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -900,6 +900,29 @@ int32_t f77name(waclos2)(
    return c_waclos2(*iun);
 }
 
+//! Write the modified pages of an open word addressable file to disk
+//! \return 0 on success, non-zero otherwise
+int c_waflush(
+    //! [in] Unit number
+    const int iun
+) {
+    int entry = find_file_entry("c_waflush", iun);
+    if (entry < 0) return entry;
+
+    if (! FGFDT[entry].open_flag) {
+        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: unit %d is not open\n",__func__,iun);
+        return -1;
+    }
+
+    if ((WA_PAGE_SIZE != 0) && (! FGFDT[entry].attr.remote)) {
+        for (int ind = 0; ind < MAXWAFILES; ind++) {
+            if (wafile[ind].file_desc == FGFDT[entry].fd) wa_pages_flush(ind);
+        }
+    }
+    return 0;
+}
+
+
 //! Close a word addressable file
 //! \deprecated Use c_waclos2 instead
 void c_waclos(
-- 
2.43.0


From efa8ea92431735b96ea46ab292a69d888ad81065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:59 +0000
Subject: [PATCH 025/178] fix: a failed write or read left its element size
 (c_fst_data_length) on for the next field

---
 src/fstd98/fstd98.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 2f4fad4..b5a6835 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -692,6 +692,15 @@ int c_fstckp(
 }
 
 
+//! Forget the element size set by c_fst_data_length: it applies to one read or write, even one that fails
+static void reset_data_length()
+{
+    xdf_double = 0;
+    xdf_short = 0;
+    xdf_byte = 0;
+}
+
+
 //! Gives information on data length of the elements passed to fstecr and fstlir (double, short integer, byte ...)
 int c_fst_data_length(
     //! [in] Data length and kind
@@ -831,12 +840,14 @@ int c_fstecr(
     int index_fnom = fnom_index(iun);
     if (index_fnom == -1) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) is not connected with fnom\n",__func__,iun);
+        reset_data_length();
         return(ERR_NO_FNOM);
     }
 
     int index = file_index(iun);
     if (index == ERR_NO_FILE) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) is not open\n",__func__,iun);
+        reset_data_length();
         return(ERR_NO_FILE);
     }
 
@@ -844,16 +855,19 @@ int c_fstecr(
 
     if (! fte->cur_info->attr.std) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) is not a RPN standard file\n",__func__,iun);
+        reset_data_length();
         return(ERR_NO_FILE);
     }
 
     if (fte->fstd_vintage_89) {
         Lib_Log(APP_LIBFST,APP_FATAL,"%s: can not write (unit=%d) on an old (version 89) RPN standard file\n",__func__,iun);
+        reset_data_length();
         return(ERR_NO_WRITE);
     }
 
     if (fte->cur_info->attr.read_only) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) not open with write permission\n",__func__,iun);
+        reset_data_length();
         return(ERR_NO_WRITE);
     }
 
@@ -1001,6 +1015,7 @@ int c_fstecr(
         memset(buffer, 0, (10 + keys_len + nw + 128) * sizeof(int));
     } else {
         Lib_Log(APP_LIBFST,APP_FATAL,"%s: memory is full, was trying to allocate %ld bytes\n",__func__,(10 + keys_len + nw + 128) * sizeof(int));
+        reset_data_length();
         return(ERR_MEM_FULL);
     }
     const int bitmot = 32;
@@ -1373,6 +1388,7 @@ int c_fstecr(
 
             default:
                 Lib_Log(APP_LIBFST,APP_ERROR,"%s: (unit=%d) invalid datyp=%d\n",__func__,iun,datyp);
+                reset_data_length();
                 return(ERR_BAD_DATYP);
         } /* end switch */
     } /* end if image mode copy */
@@ -2100,6 +2116,7 @@ int c_fstlirx(
     handle = c_fstinfx(handle, iun, ni, nj, nk, datev, etiket, ip1, ip2, ip3, typvar, nomvar);
     if (handle < 0) {
         Lib_Log(APP_LIBFST,APP_WARNING,"%s: c_fstlirx: (unit=%d) record not found, errcode=%d\n",__func__,iun,handle);
+        reset_data_length();
         return handle;
     }
 
@@ -2130,12 +2147,14 @@ int c_fstlis(
     int index_fnom = fnom_index(iun);
     if (index_fnom == -1) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) is not connected with fnom\n",__func__,iun);
+        reset_data_length();
         return(ERR_NO_FNOM);
     }
 
     int index = file_index(iun);
     if (index == ERR_NO_FILE) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) is not open\n",__func__,iun);
+        reset_data_length();
         return(ERR_NO_FILE);
     }
 
@@ -2144,6 +2163,7 @@ int c_fstlis(
     int handle = c_xdfloc(iun, -1, primk, 0);
     if (handle < 0) {
         Lib_Log(APP_LIBFST,APP_WARNING,"%s: (unit=%d) record not found, errcode=%d\n",__func__,iun,handle);
+        reset_data_length();
         return handle;
     }
 
@@ -2180,7 +2200,10 @@ int c_fstluk(
     // printf("Debug+ c_fstluk - c_xdfprm(handle, &addr, &lng, &idtyp, pkeys, 16);\n");
     int addr, lng, idtyp;
     int ier = c_xdfprm(handle, &addr, &lng, &idtyp, pkeys, 16);
-    if (ier < 0) return ier;
+    if (ier < 0) {
+        reset_data_length();
+        return ier;
+    }
 
     *ni = stdf_entry.ni;
     *nj = stdf_entry.nj;
@@ -2253,10 +2276,14 @@ int c_fstluk(
     // printf("Debug+ fstluk - c_xdfget2(handle, buf, stdf_aux_keys)\n");
     int stdf_aux_keys[2];
     ier = c_xdfget2(handle, buf, stdf_aux_keys);
-    if (ier < 0) return ier;
+    if (ier < 0) {
+        reset_data_length();
+        return ier;
+    }
 
     if ((stdf_aux_keys[0] != 0) && (stdf_aux_keys[1] != 0)) {
         Lib_Log(APP_LIBFST,APP_FATAL,"%s: wrong version of fstd98 (%d), recompile with a more recent version (aux_keys[0]=%d, aux_keys[1]=%d)\n",__func__,stdf_version,stdf_aux_keys[0],stdf_aux_keys[1]);
+        reset_data_length();
         return(ERR_STDF_VERSION);
     }
 
@@ -2466,6 +2493,7 @@ int c_fstluk(
 
             default:
                 Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid datyp=%d\n",__func__,stdf_entry.datyp);
+                reset_data_length();
                 return(ERR_BAD_DATYP);
         } /* end switch */
     }
-- 
2.43.0


From cbb52975d602269defe0c90fd6baad64f8390835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:28 +0000
Subject: [PATCH 026/178] fix: c_create_lock returned a lock that was never
 initialised

---
 src/primitives/f90_threads.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primitives/f90_threads.c b/src/primitives/f90_threads.c
index 3a3e514..750c1ac 100644
--- a/src/primitives/f90_threads.c
+++ b/src/primitives/f90_threads.c
@@ -48,6 +48,7 @@ pthread_mutex_t* c_create_lock()
 {
    pthread_mutex_t *lockno;
    if( ( lockno = (pthread_mutex_t *) malloc(sizeof(pthread_mutex_t)) ) == NULL ) return(NULL) ;
+   pthread_mutex_init(lockno,NULL);       /* initialize  mutex */
    return(lockno);
 }
 
-- 
2.43.0


From 5e87bd68d0f60ba3024f4c97bc75a6e1cea0f417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:28 +0000
Subject: [PATCH 027/178] fix: a thread could not be joined, its 64 bit id had
 been cut to 32 bits

---
 src/primitives/f90_threads.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/primitives/f90_threads.c b/src/primitives/f90_threads.c
index 750c1ac..12b6336 100644
--- a/src/primitives/f90_threads.c
+++ b/src/primitives/f90_threads.c
@@ -22,6 +22,7 @@
 #include <stdlib.h>
 #include <pthread.h>
 
+#include <errno.h>
 #include <App.h>
 #include <rmn/rpnmacros.h>
 
@@ -217,14 +218,31 @@ int c_destroy_event(event *the_event)
    return(0);
 }
 
+/* A pthread_t does not fit in the 32 bit id given to the caller; the threads that
+   were created and not yet joined are kept here with the id they are known by */
+typedef struct known_thread {
+   pthread_t thread;
+   struct known_thread *next;
+} known_thread;
+static known_thread *known_threads = NULL;
+static pthread_mutex_t known_threads_mutex = PTHREAD_MUTEX_INITIALIZER;
+
 /*! Ccreate a new thread (task) */
 int32_t f77name(create_thread)(void *(*function)(void *), void *arg)
 {
    pthread_t thread_id;
+   known_thread *known = (known_thread *) malloc(sizeof(known_thread));
+   if ( known == NULL ) return(-1);
    if ( pthread_create(&thread_id, NULL, function, arg) ) {
+      free(known);
       return(-1);
    } else {
-      return(thread_id);
+      known->thread = thread_id;
+      pthread_mutex_lock(&known_threads_mutex);
+      known->next = known_threads;
+      known_threads = known;
+      pthread_mutex_unlock(&known_threads_mutex);
+      return((int32_t)thread_id);
    }
 }
 
@@ -236,7 +254,18 @@ int c_create_thread(void *(*function)(void *), void *arg)
 /*! Wait for a thread to terminate */
 int32_t f77name(join_thread)(int32_t *id)
 {
-   pthread_t thread_id = *id;
+   pthread_t thread_id;
+   known_thread *known, **link;
+
+   pthread_mutex_lock(&known_threads_mutex);
+   for (link = &known_threads; (known = *link) != NULL; link = &known->next)
+      if ((int32_t)known->thread == *id) break;
+   if (known != NULL) *link = known->next;
+   pthread_mutex_unlock(&known_threads_mutex);
+   if (known == NULL) return(ESRCH);
+
+   thread_id = known->thread;
+   free(known);
    return( pthread_join(thread_id, NULL) );
 }
 
-- 
2.43.0


From c17ad0bf0821b65922875d0bf43fbdcf9933503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:31 +0000
Subject: [PATCH 028/178] fix: clients started or ending at the same time could
 share a slot, a full client table was overrun

---
 src/primitives/gossip_thread.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/primitives/gossip_thread.c b/src/primitives/gossip_thread.c
index 4be4a24..09e6aaf 100644
--- a/src/primitives/gossip_thread.c
+++ b/src/primitives/gossip_thread.c
@@ -73,7 +73,7 @@ static void initialize_client_table()  {
 //! \return Slot number or -1 if there are no slots available
 static int find_client_slot() {
     int slot = 0;
-    while (clients[slot].client_id != 0 && slot < MAX_EXTENDED_CLIENTS) {
+    while (slot < MAX_EXTENDED_CLIENTS && clients[slot].client_id != 0) {
         slot++;
     }
     return slot < MAX_EXTENDED_CLIENTS ? slot : -1 ;
@@ -92,8 +92,10 @@ static void initialize_locks() {
 
 //! Exit from a client serving thread, reinitialize client structure
 void exit_from_client_thread(extendedClientSlot *client) {
+    pthread_mutex_lock(&mutex);
     if (client->command) free(client->command);
     memset(client, 0, sizeof(extendedClientSlot));
+    pthread_mutex_unlock(&mutex);
     pthread_exit(0);
 }
 
@@ -131,15 +133,20 @@ void start_client_thread_2(
     pthread_attr_t client_attr;
 
     initialize_locks();
-    initialize_client_table();
 
     pthread_mutex_lock(&mutex);
-    client_no++;
-    client_ord++;
-    pthread_mutex_unlock(&mutex);
-
+    initialize_client_table();
 
     int slot = find_client_slot();
+    if (slot < 0) {
+        pthread_mutex_unlock(&mutex);
+        fprintf(stderr, "gossip_thread::start_client_thread_2(), too many clients (max. %d), client refused\n", MAX_EXTENDED_CLIENTS);
+        close(fclient);
+        return;
+    }
+
+    client_no++;
+    client_ord++;
     clients[slot].uid = client_uid;
     clients[slot].pid = client_pid;
     clients[slot].socket = fclient;
@@ -151,6 +158,7 @@ void start_client_thread_2(
     clients[slot].data = data;
 
     clients[slot].user_function = user_server;
+    pthread_mutex_unlock(&mutex);
 
     pthread_attr_init(&client_attr);
     pthread_create(&client_thread[0], &client_attr, (void *(*)(void *))client_address, (void *) &clients[slot]);
-- 
2.43.0


From c9f294bc274a023ac61d6ac65ef21ec92d1a64d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:31 +0000
Subject: [PATCH 029/178] fix: the end of a client made the next one get the id
 of one still running

---
 src/primitives/gossip_thread.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/primitives/gossip_thread.c b/src/primitives/gossip_thread.c
index 09e6aaf..2e1350f 100644
--- a/src/primitives/gossip_thread.c
+++ b/src/primitives/gossip_thread.c
@@ -178,7 +178,6 @@ void increment_client_count() {
 void decrement_client_count() {
     pthread_mutex_lock(&mutex);
     client_no-- ;
-    client_ord--;
     pthread_mutex_unlock(&mutex);
 }
 
-- 
2.43.0


From 9fb2d1f5cb4d821486fa86166c54aaabdf2bd2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:31 +0000
Subject: [PATCH 030/178] fix: exit_from_client only found clients in the first
 slots of the table

---
 src/primitives/gossip_thread.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/gossip_thread.c b/src/primitives/gossip_thread.c
index 2e1350f..933c605 100644
--- a/src/primitives/gossip_thread.c
+++ b/src/primitives/gossip_thread.c
@@ -188,8 +188,8 @@ int get_client_count() {
 
 
 int exit_from_client(int fclient) {
-    for (int i = 0; i < get_client_count(); i++) {
-        if (clients[i].socket == fclient) {
+    for (int i = 0; i < MAX_EXTENDED_CLIENTS; i++) {
+        if (clients[i].client_id != 0 && clients[i].socket == fclient) {
             exit_from_client_thread((void *)&clients[i]);
             return 0;
         }
-- 
2.43.0


From b5a725b7527ffc7334d5fcea55045c5b84436227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:31 +0000
Subject: [PATCH 031/178] fix: a client whose thread could not be created kept
 its slot and was detached anyway

---
 src/primitives/gossip_thread.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/primitives/gossip_thread.c b/src/primitives/gossip_thread.c
index 933c605..44e532e 100644
--- a/src/primitives/gossip_thread.c
+++ b/src/primitives/gossip_thread.c
@@ -161,7 +161,16 @@ void start_client_thread_2(
     pthread_mutex_unlock(&mutex);
 
     pthread_attr_init(&client_attr);
-    pthread_create(&client_thread[0], &client_attr, (void *(*)(void *))client_address, (void *) &clients[slot]);
+    if (pthread_create(&client_thread[0], &client_attr, (void *(*)(void *))client_address, (void *) &clients[slot])) {
+        fprintf(stderr, "gossip_thread::start_client_thread_2(), cannot create a thread, client refused\n");
+        pthread_mutex_lock(&mutex);
+        if (clients[slot].command) free(clients[slot].command);
+        memset(&clients[slot], 0, sizeof(extendedClientSlot));
+        client_no--;
+        pthread_mutex_unlock(&mutex);
+        close(fclient);
+        return;
+    }
 
     pthread_detach(client_thread[0]);
 }
-- 
2.43.0


From 9f1d834d1eab68c734d1d106af8960445222d827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:05 +0000
Subject: [PATCH 032/178] fix: write_record left the caller's data byte swapped
 when the transfer failed

---
 src/primitives/gossip_sock.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index 42a6655..0a81ff9 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -1941,6 +1941,7 @@ int write_record(int fclient, void *record, int size, int tokensize)  /*   %ENTR
 
   if(ier != 0)
     {
+      check_swap_records(record, size, tokensize); /* swap back if necessary */
       send_ack_nack(fclient, NOT_OK);
       set_timeout_signal(fclient, true);
       return ier;
-- 
2.43.0


From eff8246e618d0a9e6716db64eecfe69c87fb12d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:05 +0000
Subject: [PATCH 033/178] fix: write_record reported success for a record
 refused by its reader

---
 src/primitives/gossip_sock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index 0a81ff9..ecd6b96 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -2001,7 +2001,7 @@ int write_record(int fclient, void *record, int size, int tokensize)  /*   %ENTR
 #endif
 
   /****************write: get ACK_NACK******************/
-  get_ack_nack(fclient);
+  if (get_ack_nack(fclient) != 0) ier = -1;
   /****************write: get ACK_NACK******************/
 
 #ifdef DEBUG
-- 
2.43.0


From d99551c9c5c4baf08899527165538bac34d704a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:05 +0000
Subject: [PATCH 034/178] fix: read_record freed the caller's buffer when the
 length tags differed

---
 src/primitives/gossip_sock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index ecd6b96..2f5169d 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -2174,7 +2174,7 @@ void *read_record(
         /* set_timeout_signal(fclient, false); */
         set_timeout_signal(fclient, true);
 
-        if (records != NULL && records2 != NULL) free(records2);
+        if (records == NULL && records2 != NULL) free(records2);
         return NULL;
     }
 
-- 
2.43.0


From a344fdbb8585bc5391c68b45bbf2164e7097c42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:05 +0000
Subject: [PATCH 035/178] fix: a record refused by read_record left its length
 tag in the channel, which broke the next record

---
 src/primitives/gossip_sock.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index 2f5169d..915037f 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -2024,6 +2024,7 @@ static int swallow_data(int fd, int nbytes)
   while (nbytes > 0)
     {
       bytes_read = read(fd, buffer, sizeof(buffer) < nbytes ? sizeof(buffer) : nbytes);
+      if(bytes_read < 0 && errno == EINTR) continue;
       if(bytes_read <= 0) return(-nbytes);
       nbytes -= bytes_read;
     }
@@ -2076,7 +2077,7 @@ void *read_record(
 #endif
 
     if ( length1 == 0 ) {
-        swallow_data(fclient, length1);
+        swallow_data(fclient, sizeof(int32_t));
         send_ack_nack(fclient, NOT_OK);
         set_timeout_signal(fclient, true);
         fprintf(stderr, "\n gossip_sock::read_record: Problem reading TAG1 length1= %d", length1);
@@ -2087,7 +2088,7 @@ void *read_record(
     if ( length1 > maxlength * tokensize && maxlength > 0 ) {
         fprintf(stderr, "\n gossip_sock::read_record: Problem reading TAG1 length: \"%d\" is greater than max requested: \"%d\" \n", length1, maxlength);
         fflush(stderr);
-        if (swallow_data(fclient, length1) != 0) {
+        if (swallow_data(fclient, length1) != 0 || swallow_data(fclient, sizeof(int32_t)) != 0) {
             fprintf(stderr, "\n gossip_sock::read_record() : cannot get enough data \n");
             fflush(stderr);
         }
@@ -2105,6 +2106,7 @@ void *read_record(
         fprintf(stderr, "\n gossip_sock::read_record: cannot allocate memory for data with size = %d\n", length1);
         fflush(stderr);
         swallow_data(fclient, length1);
+        swallow_data(fclient, sizeof(int32_t));
         send_ack_nack(fclient, NOT_OK);
         return NULL;
     }
-- 
2.43.0


From 5b9d48be82eac4edd6c84c2ec7aab978ddd9727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:05 +0000
Subject: [PATCH 036/178] fix: get_int32_from_channel returned an undefined
 length when the connection was lost

---
 src/primitives/gossip_sock.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index 915037f..71860a7 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -1087,6 +1087,7 @@ int32_t get_int32_from_channel(
 
         tt2 = time_base() - tt1;
 #endif
+        return 0;
     }
 
 #ifdef INFOLEVEL1
-- 
2.43.0


From d976156a00d1436bfcf1c77397bccfc1beec57ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:05 +0000
Subject: [PATCH 037/178] fix: records read by several threads could be put in
 a buffer sized for another thread's record

---
 src/primitives/gossip_sock.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index 71860a7..f2a8b1d 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -73,7 +73,6 @@
 
 static int endian_flag = 1;
 static char *little_endian = (char *)&endian_flag;
-static int maxsize = 1024;
 static int must_init_signal = 1;
 static int timeout = false;
 static char gossip_default_dir[] = "mgi";
@@ -2097,12 +2096,8 @@ void *read_record(
         return NULL;
     }
 
-    if ( length1 > maxsize ) {
-        maxsize = length1;
-    }
-
     char *records2 = NULL;
-    records2 = (records == NULL) ? malloc(maxsize + 2 * sizeof(int)) : records;
+    records2 = (records == NULL) ? malloc(length1 + 2 * sizeof(int)) : records;
     if (records2 == NULL) {
         fprintf(stderr, "\n gossip_sock::read_record: cannot allocate memory for data with size = %d\n", length1);
         fflush(stderr);
-- 
2.43.0


From 7d81fbf98181c47abdc4aecd57ef52b5eb2a9000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:39 +0000
Subject: [PATCH 038/178] fix: a reused socket kept the timeout of the previous
 connection, and filled the timeout table

---
 src/primitives/client_timeout.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/primitives/client_timeout.c b/src/primitives/client_timeout.c
index 860a386..7cf827b 100644
--- a/src/primitives/client_timeout.c
+++ b/src/primitives/client_timeout.c
@@ -49,6 +49,14 @@ void init_client_table(
     //! [in] Socket descriptor
     const int channel
 ) {
+    // A descriptor that is used again gets its entry back, with the default value
+    for (int i = 0; i < ichan; i++) {
+        if ( channel == ctimeout[i].client_chan ) {
+            ctimeout[i].timeout = default_timeout;
+            return;
+        }
+    }
+
     if ( ichan >= MAX_CHANNELS ) {
         Lib_Log(APP_LIBRMN,APP_ERROR,"%s: Too many channels assigned; MAX = %d\n",__func__,MAX_CHANNELS);
         exit(1);
-- 
2.43.0


From c53d2b55cfa37551822735cbdaa26060274ed74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:39 +0000
Subject: [PATCH 039/178] fix: a timeout set for a new channel was lost as soon
 as another one was set (entry not counted)

---
 src/primitives/client_timeout.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/primitives/client_timeout.c b/src/primitives/client_timeout.c
index 7cf827b..b2bfa3b 100644
--- a/src/primitives/client_timeout.c
+++ b/src/primitives/client_timeout.c
@@ -86,8 +86,13 @@ void set_client_timeout(
     }
 
     if ( found < 0 ) {
+        if ( ichan >= MAX_CHANNELS ) {
+            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: Too many channels assigned; MAX = %d\n",__func__,MAX_CHANNELS);
+            return;
+        }
         ctimeout[ichan].client_chan = fclient;
         ctimeout[ichan].timeout = timeout > default_timeout ? default_timeout : timeout;
+        ichan++;
     }
 }
 
@@ -98,7 +103,7 @@ int get_client_timeout(
     //! [in] Channel descriptor
     const int fclient
 ) {
-    for (int i = 0; i < MAX_CHANNELS; i++ ) {
+    for (int i = 0; i < ichan; i++ ) {
         if ( fclient == ctimeout[i].client_chan ) {
             int new_timeout = ctimeout[i].timeout > 3 ? ctimeout[i].timeout : -ctimeout[i].timeout;
             return new_timeout;
@@ -115,7 +120,7 @@ int get_timeout_value(
     //! [in] Channel descriptor
     const int fclient
 ) {
-    for (int i = 0; i < MAX_CHANNELS; i++ ) {
+    for (int i = 0; i < ichan; i++ ) {
         if ( fclient == ctimeout[i].client_chan ) {
             return ctimeout[i].timeout ;
         }
-- 
2.43.0


From a4f958dbae60e14cfcf24452d367ad89ac4974dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:39 +0000
Subject: [PATCH 040/178] fix: timeouts of 1 to 3 seconds became negative,
 select failed and was taken for ready

---
 src/primitives/client_timeout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/client_timeout.c b/src/primitives/client_timeout.c
index b2bfa3b..d314171 100644
--- a/src/primitives/client_timeout.c
+++ b/src/primitives/client_timeout.c
@@ -105,7 +105,7 @@ int get_client_timeout(
 ) {
     for (int i = 0; i < ichan; i++ ) {
         if ( fclient == ctimeout[i].client_chan ) {
-            int new_timeout = ctimeout[i].timeout > 3 ? ctimeout[i].timeout : -ctimeout[i].timeout;
+            int new_timeout = ctimeout[i].timeout >= 0 ? ctimeout[i].timeout : -ctimeout[i].timeout;
             return new_timeout;
         }
     }
-- 
2.43.0


From 0c1e3e4c0810d1d36098c6b31e5fc2ac1b2ad40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:39 +0000
Subject: [PATCH 041/178] fix: read_stream and write_stream ignored their
 timeout after an interrupted select

---
 src/primitives/gossip_sock.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index f2a8b1d..bde397c 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -1461,7 +1461,13 @@ int write_stream(
     const char * ptr = data;
     int bytesRemaining = nBytes;
     while (bytesRemaining > 0) {
-        if (select(fd + 1, NULL, &wfds, NULL, &tv)) {
+        const int ready = select(fd + 1, NULL, &wfds, NULL, &tv);
+        if (ready < 0 && errno == EINTR) {
+            FD_ZERO(&wfds);
+            FD_SET(fd, &wfds);
+            continue;
+        }
+        if (ready > 0) {
             res = write(fd, ptr, bytesRemaining);
 #ifdef DEBUG
             printf("\nwrite_stream: sent \"%d\" bytes", res);
@@ -1737,7 +1743,13 @@ int read_stream(
     int res;
     char * ptr = data;
     while (bytesRemaining > 0) {
-        if (select(fd + 1, &rfds, NULL, NULL, &tv)) {
+        const int ready = select(fd + 1, &rfds, NULL, NULL, &tv);
+        if (ready < 0 && errno == EINTR) {
+            FD_ZERO(&rfds);
+            FD_SET(fd, &rfds);
+            continue;
+        }
+        if (ready > 0) {
             res = read(fd, ptr, bytesRemaining);
 #ifdef DEBUG
             fprintf(stderr,"\n read_stream(): bytes read = %d of nbytes = %d", res, nbytes);
-- 
2.43.0


From 2c9aa2cef7ef80c0c0e731e4799bd37daaba4ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:39 +0000
Subject: [PATCH 042/178] fix: a partly written channel description was
 reported as written, a shorter one kept the end of the old one

---
 src/primitives/gossip_sock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index bde397c..349e84e 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -228,7 +228,7 @@ int set_host_and_port(
     // $HOME/.broker/channel_name is the file path and name for channel descriptor
     snprintf(buf, PATH_MAX - 1, "%s/.gossip/%s", getenv("HOME"), channel_file);
 
-    int fserver = open(buf, O_WRONLY + O_CREAT, 0700);
+    int fserver = open(buf, O_WRONLY + O_CREAT + O_TRUNC, 0700);
     if ( fserver == -1 ) {
         fprintf(stderr, "Can't open or create Channel Description file (%s)\n", buf);
         return -1;
@@ -238,7 +238,7 @@ int set_host_and_port(
     int nc = snprintf(buf, PATH_MAX - 1, "%s\n", host_and_port);
 
     // write buf to file: $HOME/.broker/channel_name
-    if ( write(fserver, buf, nc) <= 0 ) {
+    if ( write(fserver, buf, nc) != nc ) {
         fprintf(stderr, "Can't write into Channel Description file\n");
         close(fserver);
         return -1;
-- 
2.43.0


From c91e8a5bc4f27c8354bef07479a062275341cebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:39 +0000
Subject: [PATCH 043/178] fix: get_host_and_port looked for the end of line
 beyond what it had read

---
 src/primitives/gossip_sock.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index 349e84e..027d9b4 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -271,13 +271,15 @@ char *get_host_and_port(
     }
 
     char * hostPortStr = malloc(PATH_MAX);
-    if (read(fd, hostPortStr, PATH_MAX) <= 0) {
+    const ssize_t nc = hostPortStr ? read(fd, hostPortStr, PATH_MAX - 1) : -1;
+    if (nc <= 0) {
         fprintf(stderr, "Can't Read Channel Description file \"%s\" \n", channelName);
         close(fd);
         free(hostPortStr);
         return NULL;
     }
     close(fd);
+    hostPortStr[nc] = '\0';
 
     if (index(hostPortStr, '\n') ) {
         *index(hostPortStr,'\n') = '\0' ;
-- 
2.43.0


From 9b84bbaf19a53e45fc5c8b5bdd713d188da94a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:39 +0000
Subject: [PATCH 044/178] fix: saved channel data was followed by the end of
 longer data saved before

---
 src/primitives/gossip_sock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index 027d9b4..a855131 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -2236,7 +2236,7 @@ int store_channel_data(char *buffer, int nbytes, char *file_name)  /*   %ENTRY%
   fprintf(stderr, "gossip_sock::store_channel_data(), buf = %s\n", buf);
 #endif
 
-    if((fd = open(buf, O_WRONLY + O_CREAT, 0700)) == -1)
+    if((fd = open(buf, O_WRONLY + O_CREAT + O_TRUNC, 0700)) == -1)
     {
       fprintf(stderr, "Can't Open or Create Channel Data file\n");
       return -1;
-- 
2.43.0


From e994aa6c14145d2246fed0bef73b4fbd62442fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:39 +0000
Subject: [PATCH 045/178] fix: a partial read of saved channel data lost the
 rest of it (the file was renamed)

---
 src/primitives/gossip_sock.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index a855131..e2d8ebc 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -2332,7 +2332,14 @@ int read_data_file(char *file_name, char *buffer, int size)   /*   %ENTRY%   */
   fprintf(stderr, "gossip_sock::read_data_file(): fd = %d \n", fd);
 #endif
 
-  i = read(fd, buffer, size);
+  while (i < size)
+    {
+      const ssize_t nr = read(fd, buffer + i, size - i);
+      if (nr < 0 && errno == EINTR) continue;
+      if (nr < 0) i = -1;
+      if (nr <= 0) break;
+      i += nr;
+    }
 
   if( i > size || i <= 0)
      {
-- 
2.43.0


From f72778c5f055e83458f0fa1e19f947b30df18f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:39 +0000
Subject: [PATCH 046/178] fix: a channel opened for reading that had to wait
 for its server was connected for writing

---
 src/primitives/mgilib2.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/primitives/mgilib2.c b/src/primitives/mgilib2.c
index 2f7df4c..672fe3e 100644
--- a/src/primitives/mgilib2.c
+++ b/src/primitives/mgilib2.c
@@ -71,7 +71,7 @@ static void removepidfile();
 static void strcopy(char *s, char *t, int charlen);
 static int validchan(int chan);
 static int bwrite(int chan, void *buffer, int nelem, char *dtype);
-int retry_connect(int chan);
+int retry_connect(int chan, const char * const mode);
 int32_t f77name (mgi_init) (const char * const channel_name, F2Cl lname);
 int32_t f77name (mgi_open) (const int32_t * const f_chan, const char * const mode, F2Cl lmode);
 int32_t f77name (mgi_read) (const int32_t * const f_chan, void *data, const int32_t * const f_nelm, const char * const dtype, F2Cl ltype);
@@ -358,14 +358,14 @@ int32_t f77name (mgi_open) (
         chn[chan].gchannel = connect_to_subchannel_by_name( get_gossip_dir(0), chn[chan].name, "write" );
 
         if ( chn[chan].gchannel < 0 ) {
-            chn[chan].gchannel = retry_connect( chan );
+            chn[chan].gchannel = retry_connect( chan, "write" );
         }
 
     } else if (*mode == 'R') {
         chn[chan].gchannel = connect_to_subchannel_by_name( get_gossip_dir(0), chn[chan].name, "read" );
 
         if ( chn[chan].gchannel < 0 ) {
-            chn[chan].gchannel = retry_connect( chan );
+            chn[chan].gchannel = retry_connect( chan, "read" );
         }
     } else if (*mode == 'S') {
         /* store mode (for restart files)*/
@@ -408,7 +408,9 @@ int mgi_get_retry_connect(
 //! Retry to establish the connexion.  Wait 10 seconds between attempts.
 int retry_connect(
     //! [in] Channel number
-    int chan
+    int chan,
+    //! [in] Mode of the connection ("read" or "write")
+    const char * const mode
 ) {
     int PING_INTERVAL = 10;
     int maxAttempts = mgi_get_retry_connect(chan);
@@ -417,7 +419,7 @@ int retry_connect(
     while ( chn[chan].gchannel < 0 && attemptsRemaining > 0 ) {
         sleep( PING_INTERVAL );
         Lib_Log(APP_LIBRMN,APP_INFO,"%s: Connection to Server Failed,  retry to connect: \"%d/%d\n",__func__,maxAttempts-attemptsRemaining+1,maxAttempts);
-        chn[chan].gchannel = connect_to_subchannel_by_name( get_gossip_dir(0), chn[chan].name, "write" );
+        chn[chan].gchannel = connect_to_subchannel_by_name( get_gossip_dir(0), chn[chan].name, mode );
         attemptsRemaining--;
     }
     return chn[chan].gchannel;
-- 
2.43.0


From d2a58a780b3061eba2dc1aeb0d15f7eae34d5c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:39 +0000
Subject: [PATCH 047/178] fix: mgi_term read beyond the channel table once too
 many channels had been asked for

---
 src/primitives/mgilib2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/mgilib2.c b/src/primitives/mgilib2.c
index 672fe3e..846be67 100644
--- a/src/primitives/mgilib2.c
+++ b/src/primitives/mgilib2.c
@@ -276,7 +276,7 @@ int32_t f77name (mgi_clos) (
 int32_t f77name (mgi_term) () {
     int ier = -1;
 
-    for (int chan = 0; chan <= ichan; chan++) {
+    for (int chan = 0; chan <= ichan && chan < MAX_CHANNELS; chan++) {
         if (chn[chan].name && strcmp((char *)chn[chan].name, "") && chn[chan].gchannel > 0) {
             ier = send_command("END");
             Lib_Log(APP_LIBRMN,APP_INFO,"%s: bchannel \"%s\" has been closed\n",__func__,chn[chan].name);
-- 
2.43.0


From 44f2f01d5b6e0585a6ed627d5789518e71e2ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:50 +0000
Subject: [PATCH 048/178] fix: rewinding a newly created sequential file went
 to its header, which the next write destroyed

---
 src/fstd98/xdf98.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 5f5d8c0..b1617e1 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1813,6 +1813,7 @@ static int open_xdf(
             add_dir_page(index, WMODE);
         } else {
             f->cur_addr = f->nxtadr;
+            f->seq_bof = f->nxtadr;
             f->header->fsiz = WDTO64(f->nxtadr -1);
         }
         f->header->rwflg = CREATE;
-- 
2.43.0


From af3c49f784e9feb43e99b26dbfc0dd18ff0b602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:50 +0000
Subject: [PATCH 049/178] fix: a sequential file was truncated before its pages
 were written, under checkpointed contents, and across its last end of file
 mark

---
 src/fstd98/fstd98.c |  3 +++
 src/fstd98/xdf98.c  | 15 ++++++---------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index b5a6835..fb831e1 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -3429,6 +3429,9 @@ int c_fstweo(
     header64.addr = f->cur_addr;
     c_wawrit(iun, &header64, f->cur_addr, W64TOWD(1));
     f->nxtadr = f->cur_addr;
+    // What follows the last mark is dropped when the file is closed
+    f->modified = 1;
+    FGFDT[index_fnom].file_size = f->cur_addr + W64TOWD(1) - 1;
     return 0;
 }
 
diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index b1617e1..624296a 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -805,7 +805,7 @@ int c_xdfcls(
     //! [in] Unit number associated to the file
     int iun
 ) {
-    int index, index_fnom, i, j, lng64, width, open_mode;
+    int index, index_fnom, i, j, lng64, width, open_mode, truncate_file = 0;
     file_table_entry *f;
     xdf_dir_page *curpage;
     uint32_t *check32, checksum;
@@ -859,14 +859,9 @@ int c_xdfcls(
                 f->dir_page[i]->modified = 0;
             } /* end if page modified */
          } /* end for i */
-        if (f->xdf_seq) {
-            {
-                int trunc_to;
-                trunc_to = FGFDT[index_fnom].file_size * sizeof(uint32_t);
-                c_secateur(FGFDT[index_fnom].file_name, trunc_to);
-            }
-        }
-        f->modified = 0;
+        // Sequential files are truncated after their last end of file mark, once they are closed
+        truncate_file = f->xdf_seq;
+        if (!f->xdf_seq) f->modified = 0;
     } // end if file modified
 
     if (!xdf_checkpoint) {
@@ -876,7 +871,9 @@ int c_xdfcls(
             c_wawrit(iun, f->header, 1, W64TOWD(f->header->lng));
         }
 
+        const off_t trunc_to = (off_t)FGFDT[index_fnom].file_size * sizeof(uint32_t);
         c_waclos(iun);
+        if (truncate_file && truncate(FGFDT[index_fnom].file_name, trunc_to) == -1) perror("secateur");
 
         // Free allocated pages
         for (i = 0; i < f->npages; i++) {
-- 
2.43.0


From 483db958cbb06ae044fad24eeaaaacef183e6c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:50 +0000
Subject: [PATCH 050/178] fix: the record last found in a sequential file could
 still be read once erased

---
 src/fstd98/xdf98.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 624296a..9e42c6f 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1045,6 +1045,8 @@ int c_xdfdel(
     f->header->nrec--;
 
     f->modified = 1;
+    // The record last found may be the one erased
+    if (f->xdf_seq) f->valid_pos = 0;
     return 0;
 }
 
-- 
2.43.0


From 646af4dabb1d9d2ad56c74b30739db622ed7f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:50 +0000
Subject: [PATCH 051/178] fix: searching or positioning a truncated sequential
 file never ended, or reported the end of file level of an earlier record

---
 src/fstd98/fstd98.c | 2 +-
 src/fstd98/xdf98.c  | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index fb831e1..e474565 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -649,7 +649,7 @@ int c_fstapp(
         while (!end_of_file) {
             nw = c_waread2(iun, f->head_keys, f->cur_addr, width);
             header = (xdf_record_header *) f->head_keys;
-            if (nw < W64TOWD(1)) {
+            if ((nw < W64TOWD(1)) || (header->lng == 0)) {
                 end_of_file = 1;
                 header->idtyp = 127;
                 header->lng = 1;
diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 9e42c6f..11efd35 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -3307,6 +3307,15 @@ static uint32_t next_match(
         while (! found) {
             nw = c_waread2(iun, f->head_keys, f->cur_addr, width);
             header = (xdf_record_header *) f->head_keys;
+            if (! f->fstd_vintage_89) {
+                const int is_mark = (nw >= W64TOWD(1)) && (header->idtyp >= 112) && (header->idtyp <= 127);
+                if ((! is_mark) && ((nw < width) || (header->lng == 0))) {
+                    // Nothing more, or a damaged record: same as an end of file
+                    header->idtyp = 127;
+                    header->lng = 1;
+                    nw = 0;
+                }
+            }
             if (((header->idtyp >= 112) && ((header->idtyp <= 127) || f->fstd_vintage_89)) || (nw < width)) {
                 if ((header->idtyp >= 112) && (header->idtyp < 127)) {
                     f->cur_addr += W64TOWD(1);
-- 
2.43.0


From 05a8567356159261efdeffbb58d2b9531ac78d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:50 +0000
Subject: [PATCH 052/178] fix: writing an end of file mark to a file opened
 read-only ended the process

---
 src/fstd98/fstd98.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index e474565..dd1755f 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -3416,6 +3416,11 @@ int c_fstweo(
     }
 
     VALID(level, 1, 15, "level", "c_fstweo");
+    if (f->cur_info->attr.read_only || (f->header->rwflg == RDMODE)) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) is read only\n",__func__,iun);
+        return(ERR_RDONLY);
+    }
+    header64.lng = 1;
     if (level < 15) {
         header64.idtyp = 112 + level;
         header64.lng = 1;
-- 
2.43.0


From dc20ba86943771701778dfeeeecc60c36fa4664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:40 +0000
Subject: [PATCH 053/178] fix: a search that ended on an erased record left a
 sequential file positioned inside that record

---
 src/fstd98/xdf98.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 11efd35..73ebf07 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -3413,6 +3413,8 @@ static uint32_t next_match(
 
             if ((header->idtyp < 1) || (header->idtyp > 127)) {
                 f->cur_addr += W64TOWD(header->lng);
+                // The postfix of an erased record is part of it
+                if ((! f->fstd_vintage_89) && (header->idtyp == 255)) f->cur_addr += W64TOWD(2);
                 continue;
             }
             entry = (uint32_t *) f->head_keys;
-- 
2.43.0


From 26ffaf29e80e28801b7e15259909db11651a756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:40 +0000
Subject: [PATCH 054/178] fix: listing the records of a sequential file went on
 past the end of file mark

---
 src/fstd98/fstd98.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index dd1755f..31b99f2 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1966,7 +1966,8 @@ int c_fstinl(
     *infon = nfound;
     Lib_Log(APP_LIBFST,APP_DEBUG,"%s: nombre trouve=%d nmax=%d\n",__func__,nfound,nmax);
 
-    while ( (handle = c_fstsui(iun, ni, nj, nk)) >= 0 ) nfound++;
+    // Count the rest; a search that has ended is not resumed: in a sequential file, it would go on past the end of file mark
+    while ( (handle >= 0) && ((handle = c_fstsui(iun, ni, nj, nk)) >= 0) ) nfound++;
     if (nfound > nmax) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: number of records found (%d) > nmax specified (%d)\n",__func__,nfound,nmax);
         return(-nfound);
-- 
2.43.0


From b6503c44518a832fbf6a5a3795edc9316a2bf541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:08 +0000
Subject: [PATCH 055/178] fix: a search begun from a record and ending at the
 next mark left a sequential file positioned inside that record

---
 src/fstd98/xdf98.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 73ebf07..790e8a1 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1637,6 +1637,8 @@ int c_xdfloc2(
                 c_waread(iun, &header, f->cur_addr, W64TOWD(1));
             }
             f->cur_addr += W64TOWD(header.lng);
+            // The postfix is part of the record
+            if (! f->fstd_vintage_89) f->cur_addr += W64TOWD(2);
         }
     } else if (handle == 0) {
         //! Search from beginning of file
-- 
2.43.0


From 4e34b916bb161afc14058ed4fbda1ee08205a256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:06 +0000
Subject: [PATCH 056/178] fix: erasing a record of a sequential file whose
 record count had not been saved made the file impossible to open

---
 src/fstd98/xdf98.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 790e8a1..fbfb9ee 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1042,7 +1042,8 @@ int c_xdfdel(
 
     // Update file header
     f->header->neff++;
-    f->header->nrec--;
+    // The count may be lower than the number of records if the process that wrote them did not close the file
+    if (f->header->nrec > 0) f->header->nrec--;
 
     f->modified = 1;
     // The record last found may be the one erased
-- 
2.43.0


From 37747a98a64b5b078f7e669e5dddb68c1363b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:48 +0000
Subject: [PATCH 057/178] fix: c_mrbadd left the block header uninitialised and
 read elements beyond a list shorter than three

---
 src/fstd98/burp98.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fstd98/burp98.c b/src/fstd98/burp98.c
index 721aa79..cd63bc9 100644
--- a/src/fstd98/burp98.c
+++ b/src/fstd98/burp98.c
@@ -485,7 +485,7 @@ int c_mrbadd(
     uint32_t r_btyp, r_nbit, r_bit0, r_datyp;
 
     // initialize block header to 0
-    memset(&entete,sizeof(entete),0x0);
+    memset(&entete, 0, sizeof(entete));
 
     if (((datyp == 3) || (datyp == 5)) && (nbit != 8)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: nbits must be 8 for datyp 3 or 5\n",__func__);
@@ -536,9 +536,9 @@ int c_mrbadd(
         entete.nt = nt;
         entete.nele = nele;
         entete.nval = nval;
-        entete.elem1 = lstele[0];
-        entete.elem2 = lstele[1];
-        entete.elem3 = lstele[2];
+        if (nele > 0) entete.elem1 = lstele[0];
+        if (nele > 1) entete.elem2 = lstele[1];
+        if (nele > 2) entete.elem3 = lstele[2];
         done = 3;
     }
     indx = (buf->nbits) / (8 * sizeof(uint32_t));
-- 
2.43.0


From 8194bb614e7bdad74c2cadac9a01bcc52dc14613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:48 +0000
Subject: [PATCH 058/178] fix: a transparent (datyp 0) block had its number of
 bits and type changed according to its content

---
 src/fstd98/burp98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/burp98.c b/src/fstd98/burp98.c
index cd63bc9..310ba05 100644
--- a/src/fstd98/burp98.c
+++ b/src/fstd98/burp98.c
@@ -301,7 +301,7 @@ static int burp_nbit_datyp(
     int32_t tblmin;
 
     /* if transparent mode, nomodifications */
-    if (((*datyp==2) && (*nbits == 32)) || (datyp == 0)) return 0;
+    if (((*datyp==2) && (*nbits == 32)) || (*datyp == 0)) return 0;
 
     /* if datyp > 5 (real, real*8, complex, complex*8) nbits is set to 32 */
     if (*datyp > 5) {
-- 
2.43.0


From 65c9edf1cd4114be413b050f4f3ccbdd28399348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:49 +0000
Subject: [PATCH 059/178] fix: c_xdfcut and c_xdfrep refused every block of
 characters (datyp 3)

---
 src/fstd98/xdf98.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index fbfb9ee..2955221 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -912,7 +912,7 @@ int c_xdfcut(
       return(ERR_BAD_ADDR);
    }
 
-   if ((datyp == 3) || (datyp == 5) && (nbits != 8)) {
+   if (((datyp == 3) || (datyp == 5)) && (nbits != 8)) {
       Lib_Log(APP_LIBFST,APP_FATAL,"%s: nbits must be 8 for datyp %d\n",__func__,datyp);
       return(ERR_BAD_DATYP);
    }
@@ -2447,7 +2447,7 @@ int c_xdfrep(
         return(ERR_BAD_ADDR);
     }
 
-    if ((datyp == 3) || (datyp == 5) && (nbits != 8)) {
+    if (((datyp == 3) || (datyp == 5)) && (nbits != 8)) {
         Lib_Log(APP_LIBFST,APP_FATAL,"%s: nbits must be 8 for datyp %d\n",__func__,datyp);
         return(ERR_BAD_DATYP);
     }
-- 
2.43.0


From 4fa99abdc1c2719d59ec2c5f348cddfbb510a6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:19 +0000
Subject: [PATCH 060/178] fix: records could be read, grown or cut beyond the
 end of the caller's buffer

---
 src/fstd98/xdf98.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 2955221..e5c29d9 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -27,6 +27,7 @@
 */
 
 #include <stdio.h>
+#include <stddef.h>
 #include <stdlib.h>
 #include <stdint.h>
 #include <string.h>
@@ -645,6 +646,10 @@ void* xdf_set_file_filter(const int iun, void* const new_filter) {
     return old_file_filter;
 }
 
+//! Words of a user's buffer that precede the record (buf->nwords counts them)
+#define BUFFER_HEADER_LEN ((int)(offsetof(buffer_interface, data) / sizeof(uint32_t)))
+
+
 //! Add to the end of the record contained in buf, nelm*nbits bits from donnees.
 int c_xdfadd(
     //! [inout] Buffer to contain the record
@@ -669,7 +674,7 @@ int c_xdfadd(
     buffer_interface_ptr buf = (buffer_interface_ptr) buffer;
     int index_word = buf->nbits / (sizeof(uint32_t) * 8);
 
-    if ((index_word + nbwords - 1) > buf->nwords) {
+    if ((index_word + nbwords) > (int)buf->nwords - BUFFER_HEADER_LEN) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: buffer not big enough for insertion\n",__func__);
         return(ERR_BAD_DIM);
     }
@@ -926,10 +931,10 @@ int c_xdfcut(
 
    // Move buffer content nbwords to the left
    if (last_ind != index_word) {
-      for (i=index_word; i <= last_ind-nbwords; i++) {
+      for (i=index_word; i < last_ind-nbwords; i++) {
          buf->data[i] = buf->data[i+nbwords];
       }
-      for( ; i <= last_ind; i++) {
+      for( ; i < last_ind; i++) {
          buf->data[i] = 0 ;
       }
    }
@@ -1153,7 +1158,7 @@ int c_xdfget2(
             }
         }
     }
-    if (lngw > (nw - RECADDR +1)) {
+    if (lngw > (nw - BUFFER_HEADER_LEN)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: dimension of buf (%d) < record size (%d)\n",__func__,nw,lngw);
         return(ERR_BAD_DIM);
     }
@@ -1436,14 +1441,14 @@ int c_xdfins(
 
     last_ind = buf->record_index + (buf->nbits / (sizeof(uint32_t) *8));
 
-    if ((last_ind + nbwords - 1) > buf->nwords) {
+    if ((last_ind + nbwords) > (int)buf->nwords - BUFFER_HEADER_LEN) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: buffer not big enough for insertion\n",__func__);
         return(ERR_BAD_DIM);
     }
 
     // Move buffer content nbwords to the right for insertion
     if (last_ind != index_word) {
-        for (i = last_ind; i >= index_word; i--) {
+        for (i = last_ind - 1; i >= index_word; i--) {
             buf->data[i + nbwords] = buf->data[i];
         }
     }
@@ -2459,7 +2464,7 @@ int c_xdfrep(
 
     last_ind = buf->record_index + (buf->nbits / (sizeof(uint32_t) *8));
 
-    if ((index_word + nbwords - 1) > buf->nwords) {
+    if ((index_word + nbwords) > (int)buf->nwords - BUFFER_HEADER_LEN) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: buffer not big enough for replacemen\n",__func__);
         return(ERR_BAD_DIM);
     }
-- 
2.43.0


From e9d7761e84d9d854430e3fdde8dd6b8a9c453f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:47 +0000
Subject: [PATCH 061/178] fix: a block that could not be added to a report left
 it damaged, and its list of elements was written beyond the buffer

---
 src/fstd98/burp98.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/burp98.c b/src/fstd98/burp98.c
index 310ba05..83efc9a 100644
--- a/src/fstd98/burp98.c
+++ b/src/fstd98/burp98.c
@@ -487,6 +487,11 @@ int c_mrbadd(
     // initialize block header to 0
     memset(&entete, 0, sizeof(entete));
 
+    if ((datyp < 0) || (datyp == 1) || (datyp > 9)) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid datyp=%d\n",__func__,datyp);
+        return(ERR_BAD_DATYP);
+    }
+
     if (((datyp == 3) || (datyp == 5)) && (nbit != 8)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: nbits must be 8 for datyp 3 or 5\n",__func__);
         return(ERR_BAD_DATYP);
@@ -544,7 +549,19 @@ int c_mrbadd(
     indx = (buf->nbits) / (8 * sizeof(uint32_t));
     pos = (uint32_t *) &(buf->data[indx]);
 
-    *pos = 0;
+    // the report is left as it was when the block does not fit
+    const int list_bits = (nele > done) ? (((nele - done) * 16 + 63) / 64) * 64 : 0;
+    const int64_t block_bits = NBENTB + list_bits + (((int64_t)nombre * inbit + 63) / 64) * 64;
+    int bits_used, bits_left;
+    c_mrblen(buf, &bits_used, &bits_left);
+    if (block_bits > bits_left) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: buffer not big enough for block\n",__func__);
+        return(ERR_BAD_DIM);
+    }
+
+    for (i = 0; i < list_bits / 32; i++) {
+        pos[i] = 0;
+    }
     left = 8 * sizeof(uint32_t);
     bits_added = 0;
 
@@ -555,7 +572,6 @@ int c_mrbadd(
         left -= 16;
         if (left == 0) {
             pos++;
-            *pos = 0;
             left = 8*sizeof(uint32_t);
         }
         i++;
-- 
2.43.0


From 82d9e81b9e4ac87424561bfaa74c3c6517319066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:17 +0000
Subject: [PATCH 062/178] fix: a report value of -2147483648 was packed on too
 few bits instead of being refused

---
 src/fstd98/burp98.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/burp98.c b/src/fstd98/burp98.c
index 83efc9a..bfa9d77 100644
--- a/src/fstd98/burp98.c
+++ b/src/fstd98/burp98.c
@@ -327,7 +327,12 @@ static int burp_nbit_datyp(
 
     /* check if signed integer is required and set max to ABS value */
     if (tblmin < -1) {
-        tblmax = (tblmax > (-tblmin)) ? tblmax : (-tblmin);
+        if (tblmin == INT32_MIN) {
+            // its absolute value does not fit
+            tblmax = INT32_MAX;
+        } else {
+            tblmax = (tblmax > (-tblmin)) ? tblmax : (-tblmin);
+        }
         *datyp = 4;
     }
 
-- 
2.43.0


From 006fee10f5aaf891e5dc7e8e2316f9b3f33a55d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:17 +0000
Subject: [PATCH 063/178] fix: extracting an odd number of reals or characters
 from a report wrote beyond the caller's array

---
 src/fstd98/xdf98.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index e5c29d9..7f9f35d 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -2921,6 +2921,8 @@ int c_xdfxtr(
         case 5:
         case 6:
         case 8:
+            // the caller's array is not padded to 64 bits
+            nbwords = (nelm * nbits + 31) / 32;
             for (i = 0; i < nbwords; i++)
                 donnees[i] = buf->data[index_word+i];
             break;
-- 
2.43.0


From 7346de551236d14efeb0068fd059f1b23df2aae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 064/178] fix: a block whose replacement did not fit in the
 report was left with the description of its replacement

---
 src/fstd98/burp98.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fstd98/burp98.c b/src/fstd98/burp98.c
index bfa9d77..b58e3d5 100644
--- a/src/fstd98/burp98.c
+++ b/src/fstd98/burp98.c
@@ -959,24 +959,27 @@ int c_mrbrep(
     err = burp_nbit_datyp(&new_nbit, &new_datyp, tblval, nombre, xdf_stride);
     if (err < 0) return err;
 
-    if (new_datyp != datyp)
-        block[blkno - 1].datyp = new_datyp;
-
     if (new_nbit != nbit) {
-        block[blkno - 1].nbit = new_nbit - 1;
         nmots = (nbit * nombre + 63) / 64;
         new_nmots = (new_nbit * nombre + 63) / 64;
         diff_nmots = new_nmots - nmots;
         /* insertion by 32 bit slices */
         new_nmots = diff_nmots * 2;
         if (new_nmots > 0) {
-            err = c_xdfins(buf, tblval, bitpos, new_nmots, 32, 0);
+            uint32_t * const filler = calloc(new_nmots, sizeof(uint32_t));
+            if (filler == NULL) return(ERR_MEM_FULL);
+            err = c_xdfins(buf, filler, bitpos, new_nmots, 32, 0);
+            free(filler);
             if (err < 0) return err;
             for (i = blkno; i < buf->buf78.buf8; i++) {
                 block[i].bit0 += diff_nmots;
             }
         }
+        block[blkno - 1].nbit = new_nbit - 1;
     }
+    if (new_datyp != datyp)
+        block[blkno - 1].datyp = new_datyp;
+
     /* replace block */
     err = c_xdfrep((uint32_t *)buf, tblval, bitpos, nombre, new_nbit, new_datyp);
     return err;
-- 
2.43.0


From 1377e8a5dafc1e9e0d4ebd10488644bae87a1f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 065/178] fix: c_mrbprm described blocks that do not exist

---
 src/fstd98/burp98.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fstd98/burp98.c b/src/fstd98/burp98.c
index b58e3d5..3cbac89 100644
--- a/src/fstd98/burp98.c
+++ b/src/fstd98/burp98.c
@@ -882,6 +882,11 @@ int c_mrbprm(
     burp_block_header header;
     int ier, bitpos;
 
+    if ((bkno < 1) || (bkno > ((buffer_interface_ptr) buf)->buf78.buf8)) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid block number\n",__func__);
+        return(BURP_ERR_BNUM);
+    }
+
     bitpos = (bkno - 1) * NBENTB;
     ier = c_xdfxtr(buf, (uint32_t *)&header, bitpos, DIMENT, 32, 0);
 
-- 
2.43.0


From 89eb8ea0d2e2ddec493e66d9272cd17ccd750348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:19 +0000
Subject: [PATCH 066/178] fix: a file whose creation was interrupted within its
 header was opened with undefined keys

---
 src/fstd98/xdf98.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 7f9f35d..66b2fee 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1847,14 +1847,19 @@ static int open_xdf(
 
         c_waread(iun, &header64, wdaddress, W64TOWD(2));
         if (header64.data[0] == 'XDF0' || header64.data[0] == 'xdf0') {
-            if ((f->header = calloc(1,header64.lng * 8)) == NULL) {
+            const size_t header_size = header64.lng * 8;
+            if ((f->header = calloc(1, header_size > sizeof(file_header) ? header_size : sizeof(file_header))) == NULL) {
                 Lib_Log(APP_LIBFST,APP_FATAL,"%s: memory is full\n",__func__);
                 return(ERR_MEM_FULL);
             }
 
             // Read file header
             int wdlng_header = W64TOWD(header64.lng);
-            c_waread(iun, f->header, wdaddress, wdlng_header);
+            if (c_waread2(iun, f->header, wdaddress, wdlng_header) < wdlng_header ||
+                f->header->lprm == 0 || f->header->nprm + f->header->naux + 512 / 64 > header64.lng) {
+                Lib_Log(APP_LIBFST,APP_ERROR,"%s: incomplete file header, file probably damaged\n file in error %s\n",__func__,FGFDT[index_fnom].file_name);
+                return(ERR_BAD_DIR);
+            }
             f->primary_len = f->header->lprm;
             f->info_len = f->header->laux;
             // nxtadr = fsiz +1
-- 
2.43.0


From 14d7e9a3f69b9cf307e315fdc7dd1782cb9db13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:33 +0000
Subject: [PATCH 067/178] fix: a whiteboard scalar put as an array overwrote
 other keys, an array got as a scalar returned its descriptor

---
 src/whiteboard/WhiteBoard_c.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index bcb12a8..4a32f01 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1075,7 +1075,8 @@ int c_wb_get(
         return wb_error(WB_MSG_ERROR, WB_ERR_WRONGTYPE);
     }
 
-    if (array && line->meta.flags.array != 1) {
+    if (line->meta.flags.array != array) {
+        // A scalar does not have the storage of an array, nor an array that of a scalar
         return wb_error(WB_MSG_ERROR, WB_ERR_WRONGDIMENSION);
     }
 
@@ -1227,7 +1228,7 @@ int c_wb_put(
         }
         // Mark as bad value in case it fails
         line->meta.flags.badval = 1;
-        if (line->meta.flags.array == 1 && array != 1) {
+        if (line->meta.flags.array != array) {
             // Array to scalar or scalar to array is a NO NO
             return wb_error(WB_MSG_ERROR, WB_ERR_WRONGDIMENSION);
         }
-- 
2.43.0


From e0bcb09c49f8879b35aab8fab22052e26f83164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:33 +0000
Subject: [PATCH 068/178] fix: the name of the whiteboard checkpoint file was
 not terminated

---
 src/whiteboard/WhiteBoard_c.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 4a32f01..88855c3 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -723,11 +723,11 @@ int c_wb_checkpoint_name(
     char *filename
 ) {
     set_extra_error_message("Setting chekpoint file name", -1);
-    WhiteBoardCheckpointFile = (char *)malloc(strlen(filename));
+    WhiteBoardCheckpointFile = (char *)malloc(strlen(filename) + 1);
     if (WhiteBoardCheckpointFile == NULL) {
         return wb_error(WB_MSG_FATAL, WB_ERR_ALLOC);
     }
-    strncpy(WhiteBoardCheckpointFile, filename, strlen(filename));
+    strcpy(WhiteBoardCheckpointFile, filename);
     return wb_init();
 }
 
@@ -746,7 +746,7 @@ int32_t f77_name(f_wb_checkpoint_name)(
     if (WhiteBoardCheckpointFile == NULL) {
         return wb_error(WB_MSG_FATAL, WB_ERR_ALLOC);
     }
-    c_fortran_string_copy(filename, WhiteBoardCheckpointFile, Lfilename, Lfilename, '\0');
+    c_fortran_string_copy(filename, WhiteBoardCheckpointFile, Lfilename, Lfilename + 1, '\0');
     return wb_init();
 }
 
@@ -781,7 +781,7 @@ int32_t f77_name(f_wb_checkpoint_get_name)(
     if (WhiteBoardCheckpointFile == NULL) {
         return wb_error(WB_MSG_FATAL,WB_ERR_ALLOC);
     }
-    c_fortran_string_copy(WhiteBoardCheckpointFile, filename, Lfilename, Lfilename, ' ');
+    c_fortran_string_copy(WhiteBoardCheckpointFile, filename, strlen(WhiteBoardCheckpointFile), Lfilename, ' ');
     return wb_init();
 }
 
-- 
2.43.0


From 0c5f734e489c178b015720f0ed1d00cc2fc2f4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:33 +0000
Subject: [PATCH 069/178] fix: whiteboard string handling went one byte past
 the end of its strings

---
 src/whiteboard/WhiteBoard_c.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 88855c3..d4dff61 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -391,8 +391,8 @@ static void set_extra_error_message(
     int length
 ) {
     // Cap the maximum length
-    if (length > WB_MAX_ETRA_ERROR_LEN  || length < 0) {
-        length = WB_MAX_ETRA_ERROR_LEN;
+    if (length > WB_MAX_ETRA_ERROR_LEN - 1  || length < 0) {
+        length = WB_MAX_ETRA_ERROR_LEN - 1;
     }
 
     int pos = 0;
@@ -504,7 +504,7 @@ static int c_fortran_string_copy(
     int i = 0;
 
     // If there is a null before src_len characters in the source string, act as if it was terminated at null
-    while (src[i] != 0 && i < src_len) {
+    while (i < src_len && src[i] != 0) {
         i++;
     }
     src_len = i;
-- 
2.43.0


From b36e2da5618b08bd0487cd18be041b17c17b87f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:33 +0000
Subject: [PATCH 070/178] fix: WB_REWRITE_AT_RESTART was not kept with a
 whiteboard key and had no effect

---
 src/whiteboard/WhiteBoard.h   | 4 +++-
 src/whiteboard/WhiteBoard_c.c | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/whiteboard/WhiteBoard.h b/src/whiteboard/WhiteBoard.h
index cecca48..6ffe708 100644
--- a/src/whiteboard/WhiteBoard.h
+++ b/src/whiteboard/WhiteBoard.h
@@ -29,7 +29,9 @@ typedef struct {
     //! variable has been set
     unsigned int initialized:1;
     //! number of datalines occupied by variable. if 0 it means entire page
-    unsigned int lines:10;
+    unsigned int lines:9;
+    //! 1 if variable can be set again after a restart
+    unsigned int rewriteatrestart:1;
 } wb_flags;
 
 //! Large token, full name, integers
diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index d4dff61..c0568b0 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -858,6 +858,7 @@ static int options_to_flags(
     line->meta.flags.resetuntil = (options & WB_REWRITE_UNTIL) ? 1 : 0;
     line->meta.flags.resetmany = (options & WB_REWRITE_MANY) ? 1 : 0;
     line->meta.flags.noresetafterrestart = (options & WB_READ_ONLY_ON_RESTART) ? 1 : 0;
+    line->meta.flags.rewriteatrestart = (options & WB_REWRITE_AT_RESTART) ? 1 : 0;
     line->meta.flags.initialized = (options & WB_INITIALIZED) ? 1 : 0;
     if (line->meta.flags.readonly + line->meta.flags.resetmany + line->meta.flags.resetuntil > 1) {
         return wb_error(WB_MSG_ERROR, WB_ERR_OPTION);
@@ -881,6 +882,7 @@ static int flags_to_options(
     if (line->meta.flags.resetuntil) options += WB_REWRITE_UNTIL;
     if (line->meta.flags.resetmany) options += WB_REWRITE_MANY;
     if (line->meta.flags.noresetafterrestart) options += WB_READ_ONLY_ON_RESTART;
+    if (line->meta.flags.rewriteatrestart) options += WB_REWRITE_AT_RESTART;
     if (line->meta.flags.initialized) {
         options += WB_INITIALIZED;
     } else {
@@ -1303,6 +1305,7 @@ int c_wb_put(
         // Not created by a restart
         line->meta.flags.fromrestart = 0;
         line->meta.flags.noresetafterrestart = (options & WB_READ_ONLY_ON_RESTART) ? 1 : 0;
+        line->meta.flags.rewriteatrestart = (options & WB_REWRITE_AT_RESTART) ? 1 : 0;
         line->meta.flags.array = array;
         // Arrays are not explicitely initialized for the time being
         if (array) {
-- 
2.43.0


From b601e82c41389f78789fa3e792d9359120db69bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:33 +0000
Subject: [PATCH 071/178] fix: a put crashed after the checkpoint of an empty
 whiteboard was loaded

---
 src/whiteboard/WhiteBoard_c.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index c0568b0..d859d5f 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -699,7 +699,11 @@ static int wb_init()
         if (fd >= 0) {
             close(fd);
             Lib_Log(APP_LIBWB,APP_INFO,"%s: whiteboard checkpoint file found, loading it\n",__func__);
-            return c_wb_reload();
+            status = c_wb_reload();
+            if (status < 0 || BaseWhiteboardPtr->firstpage != NULL) {
+                return status;
+            }
+            // The checkpoint is that of an empty whiteboard
         }
         // first time through, allocate first page
         status = new_page(BaseWhiteboardPtr, WB_MAXLINESPERPAGE );
-- 
2.43.0


From 5ff035cea1178ead450b35b5727fd605015b2595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:33 +0000
Subject: [PATCH 072/178] fix: the put that loaded a whiteboard checkpoint
 defined its key a second time

---
 src/whiteboard/WhiteBoard_c.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index d859d5f..592d3b6 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1215,6 +1215,14 @@ int c_wb_put(
         nbelem = 1;
     }
 
+    if (wb == BaseWhiteboardPtr && wb->firstpage == NULL) {
+        // First time through, the key may be in the checkpoint file
+        int init_status = wb_init();
+        if (init_status < 0) {
+            return init_status;
+        }
+    }
+
     wb_line *line;
     wb_page *page;
     int stored_type, stored_size, stored_nbelem;
-- 
2.43.0


From 813446c38fab3434fe0b068801c0638840e3712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:33 +0000
Subject: [PATCH 073/178] fix: incomplete whiteboard checkpoints were reported
 as written and loaded, or hung the reader

---
 src/whiteboard/WhiteBoard_c.c | 110 +++++++++++++++++++++++++++++-----
 1 file changed, 95 insertions(+), 15 deletions(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 592d3b6..2f927ce 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -16,6 +16,7 @@
  * Free Software Foundation, Inc., 59 Temple Place - Suite 330,
  * Boston, MA 02111-1307, USA.
  */
+#include <errno.h>
 #include <stdlib.h>
 #include <unistd.h>
 #include <stdio.h>
@@ -1411,6 +1412,50 @@ int32_t f77_name(f_wb_put)(
 }
 
 
+//! Write all the bytes of a buffer to a checkpoint file
+//! \return 0 on success, -1 otherwise
+static int ckpt_write(
+    //! [in] File descriptor
+    int fd,
+    //! [in] Bytes to write
+    const void *buffer,
+    //! [in] Number of bytes to write
+    size_t nbytes
+) {
+    const char *src = (const char *)buffer;
+    while (nbytes > 0) {
+        ssize_t written = write(fd, src, nbytes);
+        if (written < 0 && errno == EINTR) continue;
+        if (written <= 0) return -1;
+        src += written;
+        nbytes -= written;
+    }
+    return 0;
+}
+
+
+//! Read all the bytes of a buffer from a checkpoint file
+//! \return 0 on success, -1 otherwise
+static int ckpt_read(
+    //! [in] File descriptor
+    int fd,
+    //! [out] Bytes read
+    void *buffer,
+    //! [in] Number of bytes to read
+    size_t nbytes
+) {
+    char *dest = (char *)buffer;
+    while (nbytes > 0) {
+        ssize_t nread = read(fd, dest, nbytes);
+        if (nread < 0 && errno == EINTR) continue;
+        if (nread <= 0) return -1;
+        dest += nread;
+        nbytes -= nread;
+    }
+    return 0;
+}
+
+
 //! Write checkpoint file of the WhiteBoard referenced by BaseWhiteboardPtr
 int c_wb_checkpoint()
 {
@@ -1418,7 +1463,7 @@ int c_wb_checkpoint()
     int pageno = 0;
     int zero = 0;
     int status;
-    int fd = open(WhiteBoardCheckpointFile, O_WRONLY|O_CREAT, 0777);
+    int fd = open(WhiteBoardCheckpointFile, O_WRONLY|O_CREAT|O_TRUNC, 0777);
 
     if (fd < 0) {
         // Can't open checkpoint file
@@ -1427,7 +1472,7 @@ int c_wb_checkpoint()
     page = BaseWhiteboardPtr->firstpage;
 
     // Write signature
-    status = write(fd, "WBckp100", 8);
+    status = ckpt_write(fd, "WBckp100", 8);
     if (status < 0) {
         // Write error!
         close(fd);
@@ -1436,19 +1481,19 @@ int c_wb_checkpoint()
 
     while (page != NULL) {
         // Write number of lines in page
-        status = write(fd, &(page->nbLines), 4);
+        status = ckpt_write(fd, &(page->nbLines), 4);
         if (status < 0) {
             close(fd);
             return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
         }
         // Write number of next entry
-        status = write(fd, &(page->firstFreeLine), 4);
+        status = ckpt_write(fd, &(page->firstFreeLine), 4);
         if (status < 0) {
             close(fd);
             return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
         }
         // Write page
-        status = write(fd, &(page->line[0]), sizeof(wb_line) * page->nbLines);
+        status = ckpt_write(fd, &(page->line[0]), sizeof(wb_line) * page->nbLines);
         if (status < 0) {
             close(fd);
             return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
@@ -1459,11 +1504,14 @@ int c_wb_checkpoint()
     }
 
     // 0 length page is the end marker
-    status = write(fd, &zero, 4);
+    status = ckpt_write(fd, &zero, 4);
     if (status < 0) {
         close(fd);
         return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
     }
+    if (close(fd) < 0) {
+        return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
+    }
 
     return 0;
 }
@@ -1588,6 +1636,18 @@ static int wb_cb_read_only(
 }
 
 
+//! c_wb_check callback to set the read-only line attribute after a restart, lines that were never set are left alone
+//! \return Always 0
+static int wb_cb_read_only_if_set(
+    //! [in] Line to set read-only
+    wb_line *line,
+    //! [in] Unused
+    void *blinddata
+) {
+    return line->meta.flags.initialized ? wb_cb_read_only(line, blinddata) : 0;
+}
+
+
 //! c_wb_check callback to remove the read-only attribute of the provided line
 //! \return Always 0
 static int wb_cb_read_write(
@@ -1756,37 +1816,57 @@ int c_wb_reload()
     }
     
     if (BaseWhiteboardPtr->firstpage != NULL) {
+        close(fd);
         return wb_error(WB_MSG_ERROR,WB_ERR_INITRESTART);
     }
    
-    status = read(fd, signature, 8);
+    status = ckpt_read(fd, signature, 8);
     signature[8] = 0;
-    if (status != 8 || 0 != strncmp(signature, "WBckp100", 8)) {
+    if (status < 0 || 0 != strncmp(signature, "WBckp100", 8)) {
         close(fd);
         return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
     }
 
     // Page size
-    status = read(fd, &pagelen, 4);
-    while (pagelen > 0) {
+    status = ckpt_read(fd, &pagelen, 4);
+    while (status == 0 && pagelen != 0) {
+        // Next usable entry in page
+        int firstFreeLine;
+        status = ckpt_read(fd, &firstFreeLine, 4);
+        if (status < 0 || pagelen < 0 || firstFreeLine < 0 || firstFreeLine > pagelen) {
+            status = -1;
+            break;
+        }
         // Allocate new page
         status = new_page(BaseWhiteboardPtr, pagelen);
-        // Next usable entry in page
-        status = read(fd, &(BaseWhiteboardPtr->firstpage->firstFreeLine), 4);
+        if (status < 0) break;
+        BaseWhiteboardPtr->firstpage->firstFreeLine = firstFreeLine;
         Lib_Log(APP_LIBWB,APP_DEBUG,"%s: Page %d, length=%d lines, next entry=%d\n",__func__,pageno,BaseWhiteboardPtr->firstpage->nbLines,BaseWhiteboardPtr->firstpage->firstFreeLine);
 
         // Read page
-        status = read(fd, &(BaseWhiteboardPtr->firstpage->line[0]), sizeof(wb_line) * pagelen);
+        status = ckpt_read(fd, &(BaseWhiteboardPtr->firstpage->line[0]), sizeof(wb_line) * pagelen);
+        if (status < 0) break;
         // Page size of next page, 0 means no more
-        status = read(fd ,&pagelen, 4);
+        status = ckpt_read(fd ,&pagelen, 4);
         pageno++;
     }
     close(fd);
 
+    if (status < 0) {
+        // Incomplete or damaged checkpoint, forget the part of it that has been read
+        while (BaseWhiteboardPtr->firstpage != NULL) {
+            wb_page *next = BaseWhiteboardPtr->firstpage->next;
+            free(BaseWhiteboardPtr->firstpage);
+            BaseWhiteboardPtr->firstpage = next;
+            BaseWhiteboardPtr->validpages--;
+        }
+        return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
+    }
+
     // If variable is WB_REWRITE_AT_RESTART, erase the read-only flag
     status = c_wb_check(BaseWhiteboardPtr, "", WB_REWRITE_AT_RESTART, 0, 0, wb_cb_read_write, NULL);
     // If variable is WB_READ_ONLY_ON_RESTART, make sure it is now marked as reasd-only
-    status = c_wb_check(BaseWhiteboardPtr, "", WB_READ_ONLY_ON_RESTART, 0, 0, wb_cb_read_only, NULL);
+    status = c_wb_check(BaseWhiteboardPtr, "", WB_READ_ONLY_ON_RESTART, 0, 0, wb_cb_read_only_if_set, NULL);
     // If variable is local (not the same on ALL MPI whiteboards, mark it as not initialized
     status = c_wb_check(BaseWhiteboardPtr, "", WB_IS_LOCAL, 0, 0, wb_cb_undefined, NULL);
     // Mark all variables as having been created by a restart
-- 
2.43.0


From 663d01ab4a5ab26a14481031dc68cc0adda571dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:38 +0000
Subject: [PATCH 074/178] fix: the last whiteboard directive of a file that
 does not end with a newline was refused

---
 src/whiteboard/WhiteBoard_c.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 2f927ce..ce39721 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1893,6 +1893,12 @@ static char wb_get_line(
 ) {
     current_char = fgets(linebuffer, WB_MISC_BUFSZ, infile);
     if (current_char) {
+       // The last line of a file may not have a newline
+       size_t len = strlen(linebuffer);
+       if (feof(infile) && len > 0 && len < WB_MISC_BUFSZ - 1 && linebuffer[len - 1] != '\n') {
+           linebuffer[len] = '\n';
+           linebuffer[len + 1] = 0;
+       }
        Lib_Log(APP_LIBWB,APP_INFO,"%s: >>%s\n",__func__,linebuffer);
     }
     if (current_char) {
-- 
2.43.0


From 812bf13c7aef97e757af6dbe004763972c169eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:38 +0000
Subject: [PATCH 075/178] fix: whiteboard directives were read from another
 section whose name starts like the one asked for

---
 src/whiteboard/WhiteBoard_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index ce39721..2990e03 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -2563,7 +2563,7 @@ int c_wb_read(
             return wb_error(WB_MSG_ERROR, WB_ERR_NOTFOUND);
         }
         wb_get_token(token, infile, WB_MISC_BUFSZ - 1, 1);
-        notFound = (strncmp((char *)token, _section, strlen(_section)) != 0);
+        notFound = (_section[0] != 0 && strcmp((char *)token, _section) != 0);
     }
     Lib_Log(APP_LIBWB,APP_INFO,"%s: directive section %s found\n",__func__, _section);
 
-- 
2.43.0


From 50d6d8bac7e8913c55301a9992208abbc8bf0eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:38 +0000
Subject: [PATCH 076/178] fix: the L1 type of the whiteboard define directive
 was refused

---
 src/whiteboard/WhiteBoard_c.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 2990e03..1194e38 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -2264,6 +2264,10 @@ static int wb_define(
     }
 
     if (nread != ntoken) goto error_syntax;
+    if (key_type == WB_FORTRAN_BOOL && len_type == 1) {
+        // Special case, force 4 byte container for FORTRAN logical type
+        len_type = 4;
+    }
     // Check type and length combination
     if ((key_type = get_typecode(key_type, len_type, len_type)) < 0) goto error_syntax;
 
-- 
2.43.0


From 62c40dace66de5a65ffa874183b472e4d209fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:19 +0000
Subject: [PATCH 077/178] fix: keys were lost in the page that a whiteboard put
 refused for its options had allocated

---
 src/whiteboard/WhiteBoard_c.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 1194e38..301b710 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1269,6 +1269,10 @@ int c_wb_put(
             return lookup_result;
         }
 
+        if (((options & WB_REWRITE_NONE) != 0) + ((options & WB_REWRITE_MANY) != 0) + ((options & WB_REWRITE_UNTIL) != 0) > 1) {
+            return wb_error(WB_MSG_ERROR, WB_ERR_OPTION);
+        }
+
         // Number of storage lines is 1 for scalars using less than 9 bytes
         int lines = 1;
         // Arrays and strings need supplementary storage space
@@ -1307,9 +1311,6 @@ int c_wb_put(
         line->meta.flags.readonly = (options & WB_REWRITE_NONE) ? 1 : 0;
         line->meta.flags.resetmany = (options & WB_REWRITE_MANY) ? 1 : 0;
         line->meta.flags.resetuntil = (options & WB_REWRITE_UNTIL) ? 1 : 0;
-        if (line->meta.flags.readonly + line->meta.flags.resetmany + line->meta.flags.resetuntil > 1) {
-            return wb_error(WB_MSG_ERROR, WB_ERR_OPTION);
-        }
         line->meta.flags.initialized = 0;
         // Variable has the local attribute, this will be used when checkpointing
         line->meta.flags.islocal = (options & WB_IS_LOCAL) ? 1 : 0;
-- 
2.43.0


From c5b9445c86f0a29aeba1232a2e0972a1dc875602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:39 +0000
Subject: [PATCH 078/178] fix: a whiteboard directive giving a string key a
 number stored it without its first and last characters

---
 src/whiteboard/WhiteBoard_c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 301b710..ff1d3fd 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -2437,6 +2437,7 @@ static int wb_key(WhiteBoard *wb, FILE *infile, char *token, char *package, int
                 }
                 break;
             case WB_FORTRAN_CHAR:
+                if (buffer[0] != '\'' && buffer[0] != '"') goto error_type;
                 // Copy string in buffer into target, mit firs and last character, the quotes
                 nread = c_fortran_string_copy(buffer + 1, (char *)dataptr, strlen(buffer) - 2, elementsize, ' ');
                 if (nread < 0) goto error_string;
-- 
2.43.0


From ff5e13bb0e9b4c90e0c1aabd52a38f3d3d471ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:36 +0000
Subject: [PATCH 079/178] fix: a whiteboard checkpoint that could not be opened
 was taken for a first run

---
 src/whiteboard/WhiteBoard_c.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index ff1d3fd..ce12919 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -705,6 +705,9 @@ static int wb_init()
                 return status;
             }
             // The checkpoint is that of an empty whiteboard
+        } else if (errno != ENOENT && errno != ENOTDIR) {
+            // There is a checkpoint file, but it can't be opened
+            return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
         }
         // first time through, allocate first page
         status = new_page(BaseWhiteboardPtr, WB_MAXLINESPERPAGE );
-- 
2.43.0


From e19ec0336b5ae54ad62d72973b3cde85e50d8e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:15 +0000
Subject: [PATCH 080/178] fix: sqgetw and sqputw lost bytes when a read or a
 write ended inside a word, sqputw returned the size of the last write

---
 src/primitives/c_baseio.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index e7ea7e6..28e357d 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1505,12 +1505,15 @@ int c_sqgetw(
     int fd = c_getfdsc(iun);
     if (fd <= 0) return fd;
 
-    uint32_t *pbuf = buf;
+    // A read may end anywhere, even inside a word
+    char *pbuf = (char *) buf;
     while (alire && (nlu > 0)) {
         nlu = read(fd, pbuf, alire);
-        alire -= nlu;
-        alu += nlu;
-        pbuf += (nlu / sizeof(uint32_t));
+        if (nlu > 0) {
+            alire -= nlu;
+            alu += nlu;
+            pbuf += nlu;
+        }
     }
     return (alire == 0) ? alu / sizeof(uint32_t) : -1;
 }
@@ -1540,14 +1543,17 @@ int c_sqputw(
     int fd = c_getfdsc(iun);
     if (fd <= 0) return fd;
 
-    const uint32_t *pbuf = buf;
+    // A write may end anywhere, even inside a word
+    const char *pbuf = (const char *) buf;
     while (aecrire && (necrit > 0)) {
         necrit = write(fd, pbuf, aecrire);
-        aecrire -= necrit;
-        aecrit += necrit;
-        pbuf += (necrit / sizeof(uint32_t));
+        if (necrit > 0) {
+            aecrire -= necrit;
+            aecrit += necrit;
+            pbuf += necrit;
+        }
     }
-    return (aecrire == 0) ? necrit / sizeof(uint32_t) : -1;
+    return (aecrire == 0) ? aecrit / sizeof(uint32_t) : -1;
 }
 
 
-- 
2.43.0


From c9d7170da727d290d2b27b1d165ad26817960b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:15 +0000
Subject: [PATCH 081/178] fix: the subfiles of a CMCARC file were looked for
 after the end of that file

---
 src/primitives/c_baseio.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 28e357d..ab14c69 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1864,8 +1864,13 @@ static long long filepos(
                 return -1;
             }
         }
+        if (nd64 < 0 || lng64 < 0 || lng64 >= (int64_t) sizeof(cmcarc.cmcarc_name)) {
+            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: %s is a CMCARC file but nt=%ld nd=%ld\n",__func__,FGFDT[indf].file_name,nt64,nd64);
+            return -1;
+        }
         nblu64 = read(FGFDT[indf].fd, cmcarc.cmcarc_name, lng64);
         if (nblu64 != lng64) return -3;
+        cmcarc.cmcarc_name[lng64] = '\0';
         if (strcmp(FGFDT[indf].subname, &cmcarc.cmcarc_name[1]) == 0) {
             found = 1;
         } else {
@@ -1877,8 +1882,9 @@ static long long filepos(
         }
     } while(!found);
 
-    subfile_length = (nd * 8) / sizeof(uint32_t);
-    off64_t pos64 = lseek(FGFDT[indf].fd, 0, SEEK_END);
+    subfile_length = (nd64 * 8) / sizeof(uint32_t);
+    // The data of the subfile starts where its header ends
+    off64_t pos64 = lseek64(FGFDT[indf].fd, 0, SEEK_CUR);
     return pos64 / sizeof(uint32_t);
 }
 
-- 
2.43.0


From c573bacb79c2e1956b015a25ec70d00324cb57bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:15 +0000
Subject: [PATCH 082/178] fix: a subfile that is not in its CMCARC file left
 that file open

---
 src/primitives/c_baseio.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index ab14c69..7bd58bd 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1965,6 +1965,10 @@ static int qqcopen(
         FGFDT[indf].fd = fd;
         if ((wafile[ind].offset = filepos(indf)) <= 0) {
             Lib_Log(APP_LIBRMN,APP_ERROR,"%s: subfile %s not found in %s\n",__func__, FGFDT[indf].subname,FGFDT[indf].file_name);
+            close(fd);
+            wafile[ind].file_desc = -1;
+            wafile[ind].offset = 0;
+            FGFDT[indf].fd = -1;
             return -1;
         }
         FGFDT[indf].open_flag = 1;
-- 
2.43.0


From 8bc657fd6e47ff8a71002e93e319d5003b26e643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:15 +0000
Subject: [PATCH 083/178] fix: fnom looked beyond the end of a full file table

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 7bd58bd..73c68f7 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -355,7 +355,7 @@ int c_fnom(
     while (entry < MAXFILES && FGFDT[entry].iun != 0) {
         entry++;
     }
-    if (FGFDT[entry].iun == 0) {
+    if (entry < MAXFILES) {
         FGFDT[entry].iun = liun;
     } else {
         Lib_Log(APP_LIBRMN,APP_ERROR,"%s: too many files, file table is full\n",__func__);
-- 
2.43.0


From 975c08aa67452f21120538ff415ffaddbb480143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:15 +0000
Subject: [PATCH 084/178] fix: fnom kept the unit in use when it refused a
 scratch file name or did not find an @ file

---
 src/primitives/c_baseio.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 73c68f7..14db10d 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -443,6 +443,7 @@ int c_fnom(
     if (FGFDT[entry].attr.scratch) {
         if (strstr(lnom, "/")) {
             Lib_Log(APP_LIBRMN,APP_ERROR,"%s: / is illegal in scratch file name, specified name was %s\n",__func__,lnom);
+            c_fclos(liun);
             return -1;
         }
         int pid = getpid();
@@ -535,6 +536,7 @@ int c_fnom(
 
                 if (access(filename, F_OK)  == -1) {
                     /* not under ARMNLIB either */
+                    c_fclos(liun);
                     return -1;
                 }
             }
-- 
2.43.0


From 046d64c9486c96bda2babbc825d9889f5e19cd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:15 +0000
Subject: [PATCH 085/178] fix: fnom gave Fortran the name of scratch files with
 the bytes that follow it in memory

---
 src/primitives/c_baseio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 14db10d..ae9068e 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -460,6 +460,7 @@ int c_fnom(
             exit(1);
         }
         sprintf(FGFDT[entry].file_name, "%s/%d_%s", tmpdir, pid, lnom);
+        lng = strlen(FGFDT[entry].file_name);
     } else {
         // Convert file name to lower case unless it contains a mix of upper case / lower case
         lng = strlen(lnom);
-- 
2.43.0


From 53c81697b6abc76b78424a8466a232908749371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 086/178] fix: fnom and fclos of a Fortran file ended the
 process when the scratch or final I/O failed

---
 src/primitives/f_baseio.F90 | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/primitives/f_baseio.F90 b/src/primitives/f_baseio.F90
index 8e3a94c..a4965ae 100644
--- a/src/primitives/f_baseio.F90
+++ b/src/primitives/f_baseio.F90
@@ -47,7 +47,11 @@ integer function qqqf7op(iun, name, lrec, rndflag, unfflag, lmult)
         inquire (unit = i, opened = opened, iostat = stat)
     enddo
 
-    open(unit = i, ACCESS = 'DIRECT', FORM = 'UNFORMATTED', STATUS = 'SCRATCH', RECL = 1)
+    open(unit = i, ACCESS = 'DIRECT', FORM = 'UNFORMATTED', STATUS = 'SCRATCH', RECL = 1, iostat = stat)
+    if (stat /= 0) then
+        qqqf7op = -1
+        return
+    endif
     d77mult = 4                       ! this value if write generates an error
     write(i, rec = 1, err = 66) scrap ! there will be an error if d77mult needs to be 4 (recl in bytes)
     d77mult = 1                       ! no error, recl had room for 16 bytes, recl is in words
@@ -96,6 +100,9 @@ integer function ftnclos(iun)
     implicit none
     integer, intent(in) :: iun
 
+    integer :: stat
+
     ftnclos = 0
-    CLOSE(iun)
+    CLOSE(iun, iostat = stat)
+    if (stat /= 0) ftnclos = -1
 end
-- 
2.43.0


From 3dc88246e0daa97b13d92d2fbaf6d3a2fc43c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 087/178] fix: gmm_get gave the array of another field when
 asked for another data type

Only the rank was checked, from the useful size of each dimension, which may
be 0; the pointer came from the table of the type asked for.
---
 src/gmm/gmm_get.tmpl90 | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/gmm/gmm_get.tmpl90 b/src/gmm/gmm_get.tmpl90
index 8831f05..193e5ff 100644
--- a/src/gmm/gmm_get.tmpl90
+++ b/src/gmm/gmm_get.tmpl90
@@ -15,7 +15,6 @@ integer function FNCNAME(gmm_get)(iname, p, m)
 #endif
     type(gmm_metadata), optional, intent(out) :: m
 
-    integer :: i, array_rank
     ! name (partially redundant with attributes)
     ! attributes (name in attributes is not used)
     !  integer,intent(inout) :: reqid
@@ -44,19 +43,15 @@ integer function FNCNAME(gmm_get)(iname, p, m)
             ! return a copy of the proper entry
             m = m2
         endif
-        p => FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%p
-        do i = 1, 4
-            if (m2%l(i)%n /= 0) then
-                array_rank = i
-            endif
-        enddo
-        if (array_rank /= DIM) then
+        ! The pointer table index is that of the table of the data type and rank of the variable
+        if (directory(cur_page)%entry(cur_entry)%data_type /= EXTENSION) then
             nullify(p)
             if (present(m)) then
                 m = GMM_NULL_METADATA
             endif
             FNCNAME(gmm_get) = GMM_INCONSISTENT_DIMS
         else
+            p => FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%p
             FNCNAME(gmm_get) = GMM_OK
         endif
     endif
-- 
2.43.0


From afdbce7601bde228a505ac9b12c048079626fc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 088/178] fix: gmm_create of a field that exists with another
 data type used the array of another field

---
 src/gmm/gmm_create.tmpl90 | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gmm/gmm_create.tmpl90 b/src/gmm/gmm_create.tmpl90
index 90d8839..75226f0 100644
--- a/src/gmm/gmm_create.tmpl90
+++ b/src/gmm/gmm_create.tmpl90
@@ -95,6 +95,14 @@ integer function FNCNAME(gmm_create)(iname, p, field_meta, flags_arg)
             ! HOW SERIOUS AN ERROR IS THIS ?
             return
         endif
+        if (directory(cur_page)%entry(cur_entry)%data_type /= EXTENSION) then
+            write(app_msg,*) 'gmm_create: Variable name ="', lcl_name,'" exists with another data type or rank'
+            call lib_log(APP_LIBGMM,APP_ERROR,app_msg)
+            key = 0
+            nullify(p)
+            FNCNAME(gmm_create) = GMM_INCONSISTENT_DIMS
+            return
+        endif
         pp => FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%p
         consistent = .true.
         ! check that all dimensions are identical
-- 
2.43.0


From 19bea73e89ecb29f359369ebc2fa3106c3b29d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 089/178] fix: gmm_nkeys and gmm_keys counted and listed
 deleted fields

---
 src/gmm/rmn_gmm_mod.F90 | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/gmm/rmn_gmm_mod.F90 b/src/gmm/rmn_gmm_mod.F90
index d7bc0ce..b26672f 100644
--- a/src/gmm/rmn_gmm_mod.F90
+++ b/src/gmm/rmn_gmm_mod.F90
@@ -143,6 +143,8 @@ public
 
     !> Total number of entries in directory
     integer, private :: used = 0
+    !> Number of those entries whose variable has been deleted (their key is GMM_KEY_NOT_FOUND)
+    integer, private :: deleted = 0
     !> Number of pages in directory
     integer, private :: table_size = 0
     !> Temporary, set by add_directory_entry
@@ -843,6 +845,7 @@ contains
             end select dtype
             directory(cur_page)%entry(cur_entry)%l = GMM_NULL_LAYOUT
             directory(cur_page)%entry(cur_entry)%a = GMM_NULL_ATTRIB
+            deleted = deleted + 1
             gmm_delete = GMM_OK
         endif
     end function gmm_delete
@@ -901,7 +904,8 @@ contains
         cur_page = 1
         cur_entry = 1
         do i = 1, used
-            if (directory(cur_page)%entry(cur_entry)%name == l_name) then
+            if (directory(cur_page)%entry(cur_entry)%name == l_name .and. &
+                directory(cur_page)%entry(cur_entry)%a%key /= GMM_KEY_NOT_FOUND) then
                 if (present(key)) then
                     key = directory(cur_page)%entry(cur_entry)%a%key
                 endif
@@ -917,7 +921,9 @@ contains
         cur_page = 0
         cur_entry = 0
 
-        key = GMM_KEY_NOT_FOUND
+        if (present(key)) then
+            key = GMM_KEY_NOT_FOUND
+        endif
 
     end subroutine find_directory_entry
 
@@ -1096,7 +1102,7 @@ contains
     integer function gmm_nkeys()
         implicit none
 
-        gmm_nkeys = used
+        gmm_nkeys = used - deleted
     end function gmm_nkeys
 
 
@@ -1113,7 +1119,7 @@ contains
         gmm_keys = -1
 
         maxkeys = size(taglist)
-        if (used > maxkeys) then
+        if (used - deleted > maxkeys) then
             return
         endif
         cur_page = 1
@@ -1122,7 +1128,8 @@ contains
             strlen_pattern = len_trim(pattern)
             gmm_keys = 0
             do i = 1, used
-                if (directory(cur_page)%entry(cur_entry)%name(1:strlen_pattern) == pattern(1:strlen_pattern)) then
+                if (directory(cur_page)%entry(cur_entry)%name(1:strlen_pattern) == pattern(1:strlen_pattern) .and. &
+                    directory(cur_page)%entry(cur_entry)%a%key /= GMM_KEY_NOT_FOUND) then
                     taglist(nkeys+1) = directory(cur_page)%entry(cur_entry)%name
                     nkeys = nkeys + 1
                 endif
@@ -1135,14 +1142,17 @@ contains
             gmm_keys = nkeys
         else
             do i = 1, used
-                taglist(i) = directory(cur_page)%entry(cur_entry)%name
+                if (directory(cur_page)%entry(cur_entry)%a%key /= GMM_KEY_NOT_FOUND) then
+                    taglist(nkeys+1) = directory(cur_page)%entry(cur_entry)%name
+                    nkeys = nkeys + 1
+                endif
                 cur_entry = cur_entry + 1
                 if (cur_entry > PAGE_SIZE) then
                     cur_page = cur_page + 1
                     cur_entry = 1
                 endif
             enddo
-            gmm_keys = used
+            gmm_keys = nkeys
         endif
     end function gmm_keys
 
-- 
2.43.0


From 575b7757ffe642df211bc9f7644b7e7b2861ea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 090/178] fix: gmm_create left a field without an array behind
 when it could not be allocated

---
 src/gmm/gmm_create.tmpl90 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gmm/gmm_create.tmpl90 b/src/gmm/gmm_create.tmpl90
index 75226f0..96c28d5 100644
--- a/src/gmm/gmm_create.tmpl90
+++ b/src/gmm/gmm_create.tmpl90
@@ -209,6 +209,12 @@ integer function FNCNAME(gmm_create)(iname, p, field_meta, flags_arg)
 #endif
                   ), stat = ier)
         if (ier /= 0) then
+            ! the variable does not exist: its entry is that of a deleted one
+            nullify(p)
+            nullify(FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%p)
+            directory(cur_page)%entry(cur_entry)%l = GMM_NULL_LAYOUT
+            directory(cur_page)%entry(cur_entry)%a = GMM_NULL_ATTRIB
+            deleted = deleted + 1
             FNCNAME(gmm_create) = GMM_ERROR
             return
         endif
-- 
2.43.0


From c5951ecdedeb7789d0d76e7d1b0e8156a273b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 091/178] fix: gmm_get after gmm_keys looked into a directory
 page that does not exist yet

---
 src/gmm/rmn_gmm_mod.F90 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gmm/rmn_gmm_mod.F90 b/src/gmm/rmn_gmm_mod.F90
index b26672f..8db57f7 100644
--- a/src/gmm/rmn_gmm_mod.F90
+++ b/src/gmm/rmn_gmm_mod.F90
@@ -867,6 +867,12 @@ contains
         if (cur_page == 0 .and. cur_entry == 0) then
             return
         endif
+        if (table_size == 0) then
+            ! There is no page to look into
+            cur_page = 0
+            cur_entry = 0
+            return
+        endif
 
         l_name = trim(name)
         temp = ishft(key, -PAGE_NB_SHFT)
-- 
2.43.0


From 9284df4e3ab67ccb55d319d16e7129e81de1d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 092/178] fix: gmm_dumpinfo read the arrays of deleted fields
 and those given by the user at a random address

---
 src/gmm/gmm_create.tmpl90 |  2 +-
 src/gmm/rmn_gmm_mod.F90   | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/gmm/gmm_create.tmpl90 b/src/gmm/gmm_create.tmpl90
index 96c28d5..1dafa28 100644
--- a/src/gmm/gmm_create.tmpl90
+++ b/src/gmm/gmm_create.tmpl90
@@ -218,8 +218,8 @@ integer function FNCNAME(gmm_create)(iname, p, field_meta, flags_arg)
             FNCNAME(gmm_create) = GMM_ERROR
             return
         endif
-        directory(cur_page)%entry(cur_entry)%array_addr = c_loc(p)
     endif
+    directory(cur_page)%entry(cur_entry)%array_addr = c_loc(p)
     ier = FNCNAME(gmm_add_table_entry)(p, key)
     field_meta%l = directory(cur_page)%entry(cur_entry)%l
     field_meta%a = directory(cur_page)%entry(cur_entry)%a
diff --git a/src/gmm/rmn_gmm_mod.F90 b/src/gmm/rmn_gmm_mod.F90
index 8db57f7..f856a7e 100644
--- a/src/gmm/rmn_gmm_mod.F90
+++ b/src/gmm/rmn_gmm_mod.F90
@@ -999,9 +999,18 @@ contains
 
         l_page = 1
         l_entry = 1
-        write(app_msg,*) 'gmm_dumpinfo: Number of variables in use is', used
+        write(app_msg,*) 'gmm_dumpinfo: Number of variables in use is', used - deleted
         call lib_log(APP_LIBGMM,APP_ALWAYS,app_msg)
         do i = 1, used
+            if (directory(l_page)%entry(l_entry)%a%key == GMM_KEY_NOT_FOUND) then
+                ! Deleted
+                l_entry = l_entry + 1
+                if (l_entry > PAGE_SIZE) then
+                    l_page = l_page + 1
+                    l_entry = 1
+                endif
+                cycle
+            endif
             dims = directory(l_page)%entry(l_entry)%l
             nelm = ( (dims(1)%high - dims(1)%low +1) * &
                     (dims(2)%high - dims(2)%low +1) * &
-- 
2.43.0


From 2f935db2d9b9b9f045d4cddc010dc533e5dd26d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 093/178] fix: gmm_shuffle left fields in place when another of
 the list did not exist

The keys were shifted by one from the names they are the keys of.
---
 src/gmm/rmn_gmm_mod.F90 | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/gmm/rmn_gmm_mod.F90 b/src/gmm/rmn_gmm_mod.F90
index f856a7e..278b2dc 100644
--- a/src/gmm/rmn_gmm_mod.F90
+++ b/src/gmm/rmn_gmm_mod.F90
@@ -1283,12 +1283,6 @@ contains
                     ier = gmm_rename(tempname, taglist(2))
                 endif
             case default
-                temp_key = key_list(nkeys)
-                do i = 2, nkeys
-                    key_list(i) = key_list(i-1)
-                enddo
-                key_list(1) = temp_key
-
                 if (key_list(nkeys) /= GMM_KEY_NOT_FOUND) then
                     ier = gmm_rename(taglist(nkeys),tempname)
                 endif
-- 
2.43.0


From d016891eb35e82f6b2a6a698debfd68a3a66976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:11 +0000
Subject: [PATCH 094/178] fix: gmm_create ended the process after 2048
 creations, however many fields had been deleted

The entries and array pointers of deleted fields are used again; the creation
ordinal, shifted out of a 32-bit integer until now, makes the keys different.
---
 src/gmm/gmm_checkpoint.tmpl90    |  2 +-
 src/gmm/gmm_create.tmpl90        |  3 ++-
 src/gmm/gmm_dealloc_ptr.tmpl90   |  1 +
 src/gmm/gmm_pointer_table.tmpl90 | 18 +++++++++++++++---
 src/gmm/rmn_gmm_mod.F90          | 12 ++++++++++++
 5 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/gmm/gmm_checkpoint.tmpl90 b/src/gmm/gmm_checkpoint.tmpl90
index c4b416e..fc098f0 100644
--- a/src/gmm/gmm_checkpoint.tmpl90
+++ b/src/gmm/gmm_checkpoint.tmpl90
@@ -32,7 +32,7 @@ subroutine FNCNAME(gmm_checkpoint_)(write)
         directory(cur_page)%entry(cur_entry)%pointer_table_index = FNCNAME(gmm_get_nxt_avail_ptr)()
         ordinal = ordinal + 1
         key = ishft((cur_page - 1), PAGE_NB_SHFT) + ishft((cur_entry - 1), NTRY_NB_SHFT)
-        key = key + ishft(EXTENSION, EXTN_NB_SHFT) + ishft(ordinal, MAGC_NB_SHFT)
+        key = key + ishft(EXTENSION, EXTN_NB_SHFT) + ishft(int(ordinal, int64), MAGC_NB_SHFT)
         ! Set creation ordinal
         directory(cur_page)%entry(cur_entry)%a%key = key
         ! CODE POSSIBLY MISSING HERE FOR FLAGS SETTINGS
diff --git a/src/gmm/gmm_create.tmpl90 b/src/gmm/gmm_create.tmpl90
index 1dafa28..7e6ef43 100644
--- a/src/gmm/gmm_create.tmpl90
+++ b/src/gmm/gmm_create.tmpl90
@@ -173,7 +173,7 @@ integer function FNCNAME(gmm_create)(iname, p, field_meta, flags_arg)
     print *, 'creation ordinal=', ordinal, ' cur_page, cur_entry=', cur_page,cur_entry
 #endif
     key = ishft((cur_page - 1), PAGE_NB_SHFT) + ishft((cur_entry - 1), NTRY_NB_SHFT)
-    key = key + ishft(EXTENSION, EXTN_NB_SHFT) + ishft(ordinal, MAGC_NB_SHFT)
+    key = key + ishft(EXTENSION, EXTN_NB_SHFT) + ishft(int(ordinal, int64), MAGC_NB_SHFT)
     ! name, units, initmode, some flags
     directory(cur_page)%entry(cur_entry)%a = localattr
     ! CODE POSSIBLY MISSING HERE FOR FLAGS SETTINGS
@@ -212,6 +212,7 @@ integer function FNCNAME(gmm_create)(iname, p, field_meta, flags_arg)
             ! the variable does not exist: its entry is that of a deleted one
             nullify(p)
             nullify(FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%p)
+            FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%key = GMM_KEY_NOT_FOUND
             directory(cur_page)%entry(cur_entry)%l = GMM_NULL_LAYOUT
             directory(cur_page)%entry(cur_entry)%a = GMM_NULL_ATTRIB
             deleted = deleted + 1
diff --git a/src/gmm/gmm_dealloc_ptr.tmpl90 b/src/gmm/gmm_dealloc_ptr.tmpl90
index 79bf667..9725484 100644
--- a/src/gmm/gmm_dealloc_ptr.tmpl90
+++ b/src/gmm/gmm_dealloc_ptr.tmpl90
@@ -3,4 +3,5 @@ subroutine FNCNAME(gmm_dealloc_ptr)()
 
     deallocate (FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%p)
     nullify    (FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%p)
+    FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%key = GMM_KEY_NOT_FOUND
 end subroutine FNCNAME(gmm_dealloc_ptr)
diff --git a/src/gmm/gmm_pointer_table.tmpl90 b/src/gmm/gmm_pointer_table.tmpl90
index d10be06..969381b 100644
--- a/src/gmm/gmm_pointer_table.tmpl90
+++ b/src/gmm/gmm_pointer_table.tmpl90
@@ -15,10 +15,13 @@ integer function FNCNAME(gmm_add_table_entry)(p, key)
 #endif
     integer(kind = int64), intent(in) :: key
 
-    FNCNAME(gmm_ptrs)(FNCNAME(gmm_p_table_size_))%p => p
-    FNCNAME(gmm_ptrs)(FNCNAME(gmm_p_table_size_))%key = key
+    integer :: indx
+
+    indx = directory(cur_page)%entry(cur_entry)%pointer_table_index
+    FNCNAME(gmm_ptrs)(indx)%p => p
+    FNCNAME(gmm_ptrs)(indx)%key = key
     if (gmm_verbose_level == GMM_MSG_DEBUG) then
-        write(app_msg,*) 'gmm_add_table_entry: of FNCNAME(gmm_ptrs)', FNCNAME(gmm_p_table_size_)
+        write(app_msg,*) 'gmm_add_table_entry: of FNCNAME(gmm_ptrs)', indx
         call lib_log(APP_LIBGMM,APP_DEBUG,app_msg)
     endif
     FNCNAME(gmm_add_table_entry) = 0
@@ -28,6 +31,15 @@ end function FNCNAME(gmm_add_table_entry)
 integer function FNCNAME(gmm_get_nxt_avail_ptr)()
     implicit none
 
+    integer :: i
+
+    ! Use the place of a deleted array if there is one
+    do i = 1, FNCNAME(gmm_p_table_size_)
+        if (FNCNAME(gmm_ptrs)(i)%key == GMM_KEY_NOT_FOUND) then
+            FNCNAME(gmm_get_nxt_avail_ptr) = i
+            return
+        endif
+    enddo
     FNCNAME(gmm_p_table_size_) = FNCNAME(gmm_p_table_size_) + 1
     FNCNAME(gmm_get_nxt_avail_ptr) = FNCNAME(gmm_p_table_size_)
 end function FNCNAME(gmm_get_nxt_avail_ptr)
diff --git a/src/gmm/rmn_gmm_mod.F90 b/src/gmm/rmn_gmm_mod.F90
index 278b2dc..3b23010 100644
--- a/src/gmm/rmn_gmm_mod.F90
+++ b/src/gmm/rmn_gmm_mod.F90
@@ -946,6 +946,18 @@ contains
             enddo
         endif
 
+        ! Use the entry of a deleted variable if there is one
+        if (deleted > 0) then
+            do cur_page = 1, table_size
+                do cur_entry = 1, PAGE_SIZE
+                    if (directory(cur_page)%entry(cur_entry)%a%key == GMM_KEY_NOT_FOUND) then
+                        deleted = deleted - 1
+                        return
+                    endif
+                enddo
+            enddo
+        endif
+
         used = used + 1
         last_entry = last_entry + 1
         ! Need new directory page ?
-- 
2.43.0


From d53c4842edf5d1fa36b4995cea0d93ef3c57087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:32 +0000
Subject: [PATCH 095/178] fix: a checkpoint of GMM overwrote the only restart
 file in place, and ended the process or returned GMM_OK when it could not be
 written

A crash or full disk left a mixture of the two checkpoints, which a restart
read without complaint, and a checkpoint of no field left the previous one.
It is now written to a new file, which takes the name of the restart file
once it is complete.
---
 src/gmm/gmm_checkpoint.tmpl90 | 26 +++++++++++++++--------
 src/gmm/rmn_gmm_mod.F90       | 39 ++++++++++++++++++++++++++++++++++-
 2 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/src/gmm/gmm_checkpoint.tmpl90 b/src/gmm/gmm_checkpoint.tmpl90
index fc098f0..6ae8ed9 100644
--- a/src/gmm/gmm_checkpoint.tmpl90
+++ b/src/gmm/gmm_checkpoint.tmpl90
@@ -63,29 +63,37 @@ subroutine FNCNAME(gmm_checkpoint_)(write)
                 ' addr=', ptraddr
         endif
         ier = FNCNAME(gmm_add_table_entry)(FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%p, key)
-    else
+    else if (checkpoint_ok) then
         ! Write to checkpoint file (records with FLAG_RSTR property)
         if (gmm_verbose_level == GMM_MSG_DEBUG) then
             write(app_msg,*) 'gmm_checkpoint: checkpointing type ', EXTENSION
             call lib_log(APP_LIBGMM,APP_DEBUG,app_msg)
         endif
-        do i = 1, table_size
+        ier = 0
+        write_fields: do i = 1, table_size
             do j = 1, PAGE_SIZE
                 if (iand(GMM_FLAG_RSTR, directory(i)%entry(j)%a%flags) .ne. 0 .and. directory(i)%entry(j)%data_type == EXTENSION) then
                     if (gmm_verbose_level == GMM_MSG_DEBUG) then
                        write(app_msg,*) 'gmm_checkpoint: writing field ', directory(i)%entry(j)%name
                        call lib_log(APP_LIBGMM,APP_DEBUG,app_msg)
                     endif
-                    write(file_unit)EXTENSION
-                    write(file_unit)directory(i)%entry(j)%name
-                    write(file_unit)directory(i)%entry(j)%l(1:DIM)
+                    write(file_unit, iostat = ier)EXTENSION
+                    if (ier /= 0) exit write_fields
+                    write(file_unit, iostat = ier)directory(i)%entry(j)%name
+                    if (ier /= 0) exit write_fields
+                    write(file_unit, iostat = ier)directory(i)%entry(j)%l(1:DIM)
+                    if (ier /= 0) exit write_fields
                     attrib = directory(i)%entry(j)%a
                     attrib%flags = iand(attrib%flags, FLAGS_KEPT_IN_RESTART)
-                    write(file_unit)attrib
-                    write(file_unit)directory(i)%entry(j)%data_type
-                    write(file_unit)FNCNAME(gmm_ptrs)(directory(i)%entry(j)%pointer_table_index)%p
+                    write(file_unit, iostat = ier)attrib
+                    if (ier /= 0) exit write_fields
+                    write(file_unit, iostat = ier)directory(i)%entry(j)%data_type
+                    if (ier /= 0) exit write_fields
+                    write(file_unit, iostat = ier)FNCNAME(gmm_ptrs)(directory(i)%entry(j)%pointer_table_index)%p
+                    if (ier /= 0) exit write_fields
                 endif
             enddo
-        enddo
+        enddo write_fields
+        if (ier /= 0) checkpoint_ok = .false.
     endif
 end subroutine FNCNAME(gmm_checkpoint_)
diff --git a/src/gmm/rmn_gmm_mod.F90 b/src/gmm/rmn_gmm_mod.F90
index 3b23010..edb0b07 100644
--- a/src/gmm/rmn_gmm_mod.F90
+++ b/src/gmm/rmn_gmm_mod.F90
@@ -155,6 +155,8 @@ public
     integer, private :: last_entry = PAGE_SIZE
     integer, private :: file_unit = 0
     logical, private :: restart_mode = .false.
+    !> No write error so far in the checkpoint being written
+    logical, private :: checkpoint_ok = .true.
     !> Total number of array creations
     integer, private :: ordinal = 0
     integer, private :: gmm_verbose_level = 0
@@ -664,6 +666,18 @@ contains
 
         logical :: read_or_write
         integer :: code, istat, ier
+        character(len = *), parameter :: new_file = 'gmm_restart.new'
+
+        interface
+            integer(c_int) function f_rename(old, new) bind(c, name = "rename")
+                use, intrinsic :: iso_c_binding, only: c_char, c_int
+                character(kind = c_char), dimension(*), intent(in) :: old, new
+            end function
+            integer(c_int) function f_remove(path) bind(c, name = "remove")
+                use, intrinsic :: iso_c_binding, only: c_char, c_int
+                character(kind = c_char), dimension(*), intent(in) :: path
+            end function
+        end interface
 
 #include <rmn/fnom.hf>
 
@@ -739,9 +753,12 @@ contains
             end do
         else
             ! Write all tables to checkpoint file
+            ! into a new file, which replaces the previous one once it is complete
+            checkpoint_ok = .true.
             if (file_unit == 0) then
                 ! Open checkpoint file
-                istat = fnom(file_unit, 'gmm_restart', 'SEQ+UNF+FTN', 0)
+                ier = f_remove(new_file // c_null_char)
+                istat = fnom(file_unit, new_file, 'SEQ+UNF+FTN', 0)
                 write(app_msg,*) 'gmm_checkpoint_all: Open restart file, status=', istat
                 call lib_log(APP_LIBGMM,APP_DEBUG,app_msg)
 
@@ -771,6 +788,26 @@ contains
             call gmm_checkpoint_281(.false.)
             call gmm_checkpoint_241(.false.)
             call gmm_checkpoint_381(.false.)
+
+            if (checkpoint_ok) then
+                ! Closing does not tell whether the last records could be written
+                endfile(file_unit, iostat = ier)
+                if (ier /= 0) checkpoint_ok = .false.
+            endif
+            ier = fclos(file_unit)
+            file_unit = 0
+            if (ier < 0) checkpoint_ok = .false.
+            if (checkpoint_ok) then
+                if (f_rename(new_file // c_null_char, 'gmm_restart' // c_null_char) /= 0) checkpoint_ok = .false.
+            endif
+            if (.not. checkpoint_ok) then
+                call lib_log(APP_LIBGMM,APP_ERROR,'gmm_checkpoint_all: Could not write the restart file')
+                ier = f_remove(new_file // c_null_char)
+                gmm_checkpoint_all = GMM_ERROR
+                return
+            endif
+            gmm_checkpoint_all = GMM_OK
+            return
         endif
     999 ier = fclos(file_unit)
         file_unit = 0
-- 
2.43.0


From 588b3e3b4d713bbcf9899ecbf97a84c77730bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:21 +0000
Subject: [PATCH 096/178] fix: the supplementary selection criterion on ig4 was
 compared with the ig2 of the records

---
 src/fstd98/excdes_new.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 0bf0212..39328fd 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -1087,7 +1087,7 @@ int C_fstmatch_parm(int handle, int datevalid, int ni, int nj, int nk,
         if( (Requests[set_nb].ig1s != ig1 && Requests[set_nb].ig1s != -1)
         ||  (Requests[set_nb].ig2s != ig2 && Requests[set_nb].ig2s != -1)
         ||  (Requests[set_nb].ig3s != ig3 && Requests[set_nb].ig3s != -1)
-        ||  (Requests[set_nb].ig4s != ig2 && Requests[set_nb].ig4s != -1)
+        ||  (Requests[set_nb].ig4s != ig4 && Requests[set_nb].ig4s != -1)
         ||  (Requests[set_nb].nis  !=  ni &&  Requests[set_nb].nis != -1)
         ||  (Requests[set_nb].njs  !=  nj &&  Requests[set_nb].njs != -1)
         ||  (Requests[set_nb].nks  !=  nk &&  Requests[set_nb].nks != -1)
-- 
2.43.0


From 0d241c6e63c5bdd0eec0526f16c9dd65dbe5fe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:21 +0000
Subject: [PATCH 097/178] fix: a refused selection directive erased the date
 criterion of its set, outside of the table when the set number was the reason

---
 src/fstd98/excdes_new.c | 47 ++++++++++++-----------------------------
 1 file changed, 13 insertions(+), 34 deletions(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 39328fd..c9961b0 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -286,8 +286,8 @@ static int ValidateRequestForSet(int set_nb, int des_exc, int nelm, int nelm_lt,
 {
     if (package_not_initialized) RequetesInit();
 
-    if (set_nb > MAX_requetes-1) {
-        Lib_Log(APP_LIBFST,APP_ERROR,"%s: (C_select_%s) set_nb=%d > MAX_requetes-1=%d\n",__func__,msg,set_nb,MAX_requetes-1);
+    if (set_nb < 0 || set_nb > MAX_requetes-1) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: (C_select_%s) set_nb=%d must be between 0 and MAX_requetes-1=%d\n",__func__,msg,set_nb,MAX_requetes-1);
         return -1;
     }
 
@@ -329,10 +329,7 @@ int Xc_Select_ip1(
     const int nelm
 ) {
     int valid = ValidateRequestForSet(set_nb, des_exc, nelm, 1, "ip1");
-    if (valid < 0) {
-        Requests[set_nb].dates.in_use = UNUSED;
-        return -1;
-    }
+    if (valid < 0) return -1;
 
     int *ip_entier = (int *)iplist;
     int lnelm = nelm;
@@ -396,10 +393,7 @@ int Xc_Select_ip2(int set_nb, int des_exc, void *iplist, int nelm)
     int valid;
 
     valid = ValidateRequestForSet(set_nb, des_exc, nelm, 1, "ip2");
-    if (valid < 0) {
-        Requests[set_nb].dates.in_use = UNUSED;
-        return -1;
-    }
+    if (valid < 0) return -1;
 
     if (ip_entier[0] == -1) nelm = 1;        /* universal value, rest of values if any is irrelevant */
     Requests[set_nb].in_use = USED;          /* set is in use */
@@ -454,10 +448,7 @@ int Xc_Select_ip3(int set_nb, int des_exc, void *iplist, int nelm)
     int valid;
 
     valid = ValidateRequestForSet(set_nb, des_exc, nelm, 1, "ip3");
-    if (valid < 0) {
-        Requests[set_nb].dates.in_use = UNUSED;
-        return -1;
-    }
+    if (valid < 0) return -1;
 
     if (ip_entier[0] == -1) nelm = 1;        /* universal value, rest of values if any is irrelevant */
     Requests[set_nb].in_use = USED;          /* set is in use */
@@ -515,7 +506,7 @@ int Xc_Select_date(int set_nb, int des_exc, int *date_list, int nelm)
   }i_or_f;
 
   valid = ValidateRequestForSet(set_nb, des_exc, nelm, 1, "date");
-  if(valid < 0) goto error ;
+  if(valid < 0) return -1;
 
   if (date_list[0] == -1) nelm = 1;        /* universal value, rest of values if any is irrelevant */
   Requests[set_nb].in_use = USED;          /* set is in use */
@@ -583,7 +574,7 @@ int Xc_Select_etiquette(int set_nb, int des_exc, char *etiq_list[], int nelm)
   int valid;
 
   valid = ValidateRequestForSet(set_nb, des_exc, nelm, 1, "etiquette");
-  if(valid < 0) goto error ;
+  if(valid < 0) return -1;
 
   Requests[set_nb].in_use = 1;
   Requests[set_nb].etiquettes.in_use = 1;
@@ -595,9 +586,6 @@ int Xc_Select_etiquette(int set_nb, int des_exc, char *etiq_list[], int nelm)
             __func__, set_nb, i, Requests[set_nb].etiquettes.pdata[i]);
   }
   return 0;
-error:
-  Requests[set_nb].dates.in_use = UNUSED;
-  return -1;
 }
 
 /*****************************************************************************
@@ -620,7 +608,7 @@ int Xc_Select_nomvar(int set_nb, int des_exc, char *nomv_list[], int nelm)
   int valid;
 
   valid = ValidateRequestForSet(set_nb, des_exc, nelm, 1, "nomvar");
-  if(valid < 0) goto error ;
+  if(valid < 0) return -1;
 
   Requests[set_nb].in_use = 1;
   Requests[set_nb].nomvars.in_use = 1;
@@ -632,9 +620,6 @@ int Xc_Select_nomvar(int set_nb, int des_exc, char *nomv_list[], int nelm)
             __func__, set_nb, i, Requests[set_nb].nomvars.pdata[i]);
   }
   return 0;
-error:
-  Requests[set_nb].dates.in_use = UNUSED;
-  return -1;
 }
 
 /*****************************************************************************
@@ -659,7 +644,7 @@ int Xc_Select_suppl(int set_nb, int des_exc, int ni, int nj, int nk, int ig1, in
   int valid;
 
   valid = ValidateRequestForSet(set_nb, des_exc, 1, 1, "suppl");
-  if(valid < 0) goto error ;
+  if(valid < 0) return -1;
 
   Requests[set_nb].in_use = 1;
   Requests[set_nb].in_use_supp = 1;
@@ -674,9 +659,6 @@ int Xc_Select_suppl(int set_nb, int des_exc, int ni, int nj, int nk, int ig1, in
   Requests[set_nb].grdtyps = gtyp;
 //  fprintf(stderr, "CRITSUP: ni=%d nj=%d nk=%d ig1=%d ig2=%d ig3=%d ig4=%d gtyp='%c'\n", ni, nj, nj, ig1, ig2, ig2, ig4, gtyp);
   return 0;
-error:
-  Requests[set_nb].dates.in_use = UNUSED;
-  return -1;
 }
 
 /*****************************************************************************
@@ -699,7 +681,7 @@ int Xc_Select_typvar(int set_nb, int des_exc, char *typv_list[], int nelm)
   int valid;
 
   valid = ValidateRequestForSet(set_nb, des_exc, nelm, 1, "typvar");
-  if(valid < 0) goto error ;
+  if(valid < 0) return -1;
 
   Requests[set_nb].in_use = 1;
   Requests[set_nb].typvars.in_use = 1;
@@ -711,9 +693,6 @@ int Xc_Select_typvar(int set_nb, int des_exc, char *typv_list[], int nelm)
             __func__, set_nb, i, Requests[set_nb].typvars.pdata[i]);
   }
   return 0;
-error:
-  Requests[set_nb].dates.in_use = UNUSED;
-  return -1;
 }
 
 int ReadRequestTable(char *filename)
@@ -892,7 +871,7 @@ int ReadRequestTable(char *filename)
 int C_select_groupset(int first_set_nb, int last_set_nb)
 {
   if(package_not_initialized) RequetesInit();
-  if ((first_set_nb > MAX_requetes-1) || (last_set_nb > MAX_requetes-1) || (first_set_nb > last_set_nb)) {
+  if ((first_set_nb < 0) || (last_set_nb > MAX_requetes-1) || (first_set_nb > last_set_nb)) {
     Lib_Log(APP_LIBFST,APP_ERROR,"%s: first_set_nb=%d, last_set_nb=%d, MAX allowed=%d\n",__func__,first_set_nb,last_set_nb,MAX_requetes-1);
     return -1;
   }
@@ -1533,8 +1512,8 @@ int C_requetes_reset(int set_nb, int nomvars, int typvars, int etikets, int date
 {
   int j;
 
-  if (set_nb > MAX_requetes-1) {
-    Lib_Log(APP_LIBFST,APP_ERROR,"%s: set_nb=%d > MAX allowed=%d\n",__func__,set_nb,MAX_requetes-1);
+  if (set_nb < 0 || set_nb > MAX_requetes-1) {
+    Lib_Log(APP_LIBFST,APP_ERROR,"%s: set_nb=%d must be between 0 and %d\n",__func__,set_nb,MAX_requetes-1);
     return -1;
   }
 
-- 
2.43.0


From b3715eb886ae85723678850b68a7c559eec9a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 098/178] fix: a refused list of dates left its selection set
 in force without any date criterion

---
 src/fstd98/excdes_new.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index c9961b0..9dcb442 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -509,6 +509,18 @@ int Xc_Select_date(int set_nb, int des_exc, int *date_list, int nelm)
   if(valid < 0) return -1;
 
   if (date_list[0] == -1) nelm = 1;        /* universal value, rest of values if any is irrelevant */
+  for (i=0; nelm > 1 && i < nelm; i++) {   /* a malformed list leaves the set as it is */
+    if(date_list[i] == READLX_DELTA) {
+      delta++;
+      if(delta > 1 || range == 0 ) return -1 ;            /* more than one delta keyword or delta encountered before @  */
+      if(i >= nelm-1) return -1 ;                         /* no value follows delta */
+      if(i != 3) return -1 ;                              /* must be date1 @ date2 delta hours */
+    }
+    if(date_list[i] == READLX_RANGE) {
+      range++;
+      if(range>1 || i>1) return -1 ;                      /* more than one @ keyword or @ keyword too far in line */
+    }
+  }
   Requests[set_nb].in_use = USED;          /* set is in use */
   Requests[set_nb].dates.in_use = VALUE;    /* item in set is in use */
   Requests[set_nb].dates.delta = 0;         /* delta not supported */
@@ -522,10 +534,6 @@ int Xc_Select_date(int set_nb, int des_exc, int *date_list, int nelm)
   for (i=0; i<nelm; i++) {
     Requests[set_nb].dates.data[i] = date_list[i];
     if(date_list[i] == READLX_DELTA) {                 /* DELTA keyword */
-      delta++;
-      if(delta > 1 || range == 0 ) goto error ;           /* more than one delta keyword or delta encountered before @  */
-      if(i >= nelm-1) goto error ;                        /* no value follows delta */
-      if(i != 3) goto error ;                             /* must be date1 @ date2 delta hours */
       Requests[set_nb].dates.in_use = DELTA;
       Requests[set_nb].dates.nelm = 3;
       i_or_f.i = date_list[i+1];
@@ -535,9 +543,6 @@ int Xc_Select_date(int set_nb, int des_exc, int *date_list, int nelm)
       Requests[set_nb].dates.delta = i_or_f.i;
     }
     if(date_list[i] == READLX_RANGE) {   /* @  keyword   */
-      range++;
-      if(range>1 || i>1) goto error ;           /* more than one @ keyword or @ keyword too far in line */
-//      if(i > 1) goto error ;                    /*  @ cannot be found beyond position 2 */
       Requests[set_nb].dates.in_use = RANGE ;
 //      if(i==0) Requests[set_nb].dates.data[0] = 0;              /* @ date .... */
       if(i==1 && nelm>2) {                                            /* date @ date  or date @ delta */
@@ -549,9 +554,6 @@ int Xc_Select_date(int set_nb, int des_exc, int *date_list, int nelm)
             __func__, set_nb, i, Requests[set_nb].dates.data[i]);
   }
   return 0;
-error:
-  Requests[set_nb].dates.in_use = UNUSED;
-  return -1;
 }
 
 /*****************************************************************************
-- 
2.43.0


From df465cbf763a427313d6eebbae0cbcade5db580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 099/178] fix: a date @ date delta selection missed dates when
 the interval has no exact representation in hours

---
 src/fstd98/excdes_new.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 9dcb442..898e52c 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -1175,7 +1175,7 @@ int C_fstmatch_parm(int handle, int datevalid, int ni, int nj, int nk,
             f77name(difdatr)(&date, &fin, &diff_fin);
             remainder = fmod(diff_deb, delta8);
             Lib_Log(APP_LIBFST, APP_EXTRA, "%s: diff_deb=%f diff_fin=%f modulo=%f\n", __func__, diff_deb, diff_fin, remainder);
-            if ((diff_deb >= 0.) && (diff_fin <= 0.) && (remainder <= (5.0/3600.))) {
+            if ((diff_deb >= 0.) && (diff_fin <= 0.) && ((remainder <= (5.0/3600.)) || (fabs(delta8) - remainder <= (1.0/3600.)))) {
               amatch = 1;
               Lib_Log(APP_LIBFST, APP_DEBUG, "%s: C_fst_match_req match %s\n", __func__, desire_exclure);
             }
-- 
2.43.0


From 7f46f30126592fd4fa17d450b7908e8b9563cf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 100/178] fix: a selection on a level of value 0 did not match
 the other encoding of that level

---
 src/fstd98/excdes_new.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 898e52c..8c2aa00 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -996,7 +996,8 @@ static int match_ip(int in_use, int nelm, int *data, int ip1, int translatable)
       ip = data[i];
       ConvertIp(&ip, &p2, &kind2, mode); /* convert match reference */
       if(kind1 != kind2) continue;       /* not same kind, no match */
-      if(p2 == 0 && p1 != p2) continue ; /* if one is 0, both must be, no match */
+      if(p1 == p2) return 1 ;            /* we have a match */
+      if(p2 == 0) continue ;             /* if one is 0, both must be, no match */
       delta = 1.0 - p1/p2 ;
       if(delta < 0) delta = -delta;    /* abs(relative error)  */
       if( delta < 0.000001) return 1 ; /* we have a match */
-- 
2.43.0


From 2810740cf0462492da64a90171809c59ae5f4ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 101/178] fix: selections on ip1, ip2 and ip3 read beyond lists
 of less than 4 values

---
 src/fstd98/excdes_new.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 8c2aa00..3880215 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -343,7 +343,7 @@ int Xc_Select_ip1(
 
     if (lnelm == 1 ) return 0;               /* one value, cannot be a range */
 
-    if(ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA && lnelm == 5) {
+    if(lnelm == 5 && ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA) {
         Requests[set_nb].ip1s.data[1] = ip_entier[2];
         Requests[set_nb].ip1s.data[2] = ip_entier[4];
         Requests[set_nb].ip1s.in_use = DELTA;
@@ -405,7 +405,7 @@ int Xc_Select_ip2(int set_nb, int des_exc, void *iplist, int nelm)
 
     if (nelm == 1 ) return 0;               /* one value, cannot be a range */
 
-    if(ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA && nelm == 5) {
+    if(nelm == 5 && ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA) {
         Requests[set_nb].ip2s.data[1] = ip_entier[2];
         Requests[set_nb].ip2s.data[2] = ip_entier[4];
         Requests[set_nb].ip2s.in_use = DELTA;
@@ -460,7 +460,7 @@ int Xc_Select_ip3(int set_nb, int des_exc, void *iplist, int nelm)
 
     if (nelm == 1 ) return 0;               /* one value, cannot be a range */
 
-    if(ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA && nelm == 5) {
+    if(nelm == 5 && ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA) {
         Requests[set_nb].ip3s.data[1] = ip_entier[2];
         Requests[set_nb].ip3s.data[2] = ip_entier[4];
         Requests[set_nb].ip3s.in_use = DELTA;
-- 
2.43.0


From 34d10256edb4d152e0f6c7c40c6d0099be155e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 102/178] fix: reading a table of selection directives ran past
 lines that could not be read, that were cut short or held too many values

---
 src/fstd98/excdes_new.c | 94 ++++++++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 39 deletions(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 3880215..5dc3c1b 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -697,6 +697,25 @@ int Xc_Select_typvar(int set_nb, int des_exc, char *typv_list[], int nelm)
   return 0;
 }
 
+//! Position after the next occurrence of a character, NULL if there is none
+static char *skip_past(char *cptr, char c)
+{
+    if (cptr != NULL) cptr = strchr(cptr, c);
+    return (cptr == NULL) ? NULL : cptr + 1;
+}
+
+
+//! Read integers separated by commas, 1 if all of them are there
+static int read_values(char *cptr, int *values, int nvalues)
+{
+    for (int i = 0; i < nvalues; i++) {
+        if (i > 0) cptr = skip_past(cptr, ',');
+        if (cptr == NULL || sscanf(cptr, "%d", values + i) != 1) return 0;
+    }
+    return 1;
+}
+
+
 int ReadRequestTable(char *filename)
 {
     char line[4096];
@@ -704,10 +723,10 @@ int ReadRequestTable(char *filename)
     char *cptr;
     int dirset;
     char s1[16], s2[16], s3[16];
-    char sar[40][13];
-    char *sarp[41];
+    char sar[MAX_Nlist][13];
+    char *sarp[MAX_Nlist + 1];
     int nvalues;
-    int a[100];
+    int a[MAX_Nlist + 8];
     int i, j;
     char gtyp;
     int rvd; /* range, value, delta */
@@ -723,49 +742,44 @@ int ReadRequestTable(char *filename)
         input = fopen(filename, "r");
     }
     if(input == NULL) {
-        Lib_Log(APP_LIBFST,APP_ERROR,"%s: cannot open directive file '%s'\n",__func__,filename);
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: cannot open directive file '%s'\n",__func__,filename ? filename : "");
         return -1;
     }
     readnext:
     cptr=fgets(line, sizeof(line), input);
     //  fprintf(stderr, "header=%s", line);
     dirset=0;
-    s1[0]='\000';
-    s2[0]='\000';
-    s3[0]='\000';
     nvalues=0;
 
-    sscanf(line, "%d", &dirset);
+    if (cptr == NULL && ferror(input)) goto bad;
+    if (cptr != NULL) sscanf(line, "%d", &dirset);
     if(dirset==0) {
         fclose(input);
         return 0;
     }
-    cptr=line;
-    while(*cptr != '\'' ) cptr++ ; cptr++ ;
-    sscanf(cptr, "%s", s1);
-    while(*cptr != ',' ) cptr++ ; while(*cptr != '\'' ) cptr++ ; cptr++ ;
-    sscanf(cptr, "%s", s2);
-    while(*cptr != ',' ) cptr++ ; while(*cptr != '\'' ) cptr++ ; cptr++ ;
-    sscanf(cptr, "%s", s3);
-    while(*cptr != ',' ) cptr++ ; cptr++ ;
-    sscanf(cptr, "%d", &nvalues);
+    cptr = skip_past(line, '\'');
+    if (cptr == NULL || sscanf(cptr, "%15s", s1) != 1) goto bad;
+    cptr = skip_past(skip_past(cptr, ','), '\'');
+    if (cptr == NULL || sscanf(cptr, "%15s", s2) != 1) goto bad;
+    cptr = skip_past(skip_past(cptr, ','), '\'');
+    if (cptr == NULL || sscanf(cptr, "%15s", s3) != 1) goto bad;
+    cptr = skip_past(cptr, ',');
+    if (cptr == NULL || sscanf(cptr, "%d", &nvalues) != 1) goto bad;
+    if (nvalues > MAX_Nlist) goto bad;
     //  fprintf(stderr, "%d, '%s', '%s', '%s', %d\n", dirset, s1, s2, s3, nvalues);
     rvd = 0 ; /* not used */
     if(s3[0] == 'v') rvd = VALUE;
     if(s3[0] == 'r') rvd = RANGE;
     if(s3[0] == 'd') rvd = DELTA;
     dex = s1[0] == 'D' ? DESIRE : EXCLURE ;
+    if ((rvd == RANGE && nvalues < 2) || (rvd == DELTA && nvalues < 3)) goto bad;
 
     cptr=fgets(line, sizeof(line), input);
-    cptr = line;
+    if (cptr == NULL) goto bad;
     //  fprintf(stderr, "reading data\n");
 
     if(s2[0]=='D') {                            /*  Date */
-        sscanf(cptr, "%d", a);
-        for (i=1;i<nvalues;i++) {
-        while(*cptr != ',' ) cptr++ ; cptr++ ;
-        sscanf(cptr, "%d", a+i);
-        }
+        if (! read_values(cptr, a, nvalues)) goto bad;
         if(rvd == RANGE && a[0] >= 0 && a[1] >= 0) {
         nvalues=3;
         a[2]=a[1];
@@ -788,11 +802,7 @@ int ReadRequestTable(char *filename)
            fprintf(stderr, "\n");
         }
     }else if(s2[0]=='I') {                       /* IP1/2/3 */
-        sscanf(cptr, "%d", a);
-        for (i=1;i<nvalues;i++) {
-        while(*cptr != ',' ) cptr++ ; cptr++ ;
-        sscanf(cptr, "%d", a+i);
-        }
+        if (! read_values(cptr, a, nvalues)) goto bad;
         if(rvd == RANGE) {
         nvalues=3;
         a[2]=a[1];
@@ -810,30 +820,32 @@ int ReadRequestTable(char *filename)
         fprintf(stderr, "\n");
         }
     }else if(s2[0]=='X'){                           /* Xtra  */
-        sscanf(cptr, "%d", a);
-        for (i=1;i<8;i++) {
-        while(*cptr != ',' ) cptr++ ; cptr++ ;
-        sscanf(cptr, "%d", a+i);
-        }
-        while(*cptr != '\'' ) cptr++ ; cptr++ ;
+        if (! read_values(cptr, a, 7)) goto bad;
+        cptr = skip_past(cptr, '\'');
+        if (cptr == NULL) goto bad;
         gtyp=*cptr;
         status = Xc_Select_suppl(dirset, dex, a[0], a[1], a[2], a[3], a[4], a[5], a[6], gtyp);
         if(status != 0) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: bad value(s) in supplementary criteria\n",__func__);
-        for (i=0;i<8;i++) {
+        for (i=0;i<7;i++) {
             fprintf(stderr, " %d", a[i]);
         }
         fprintf(stderr, " %c\n", gtyp);
     }
     }else if(s2[0]=='N' || s2[0]=='T' || s2[0]=='E'){   /* Nomvar, Typvar or Etiket */
         for (i=0;i<nvalues;i++) {
-        while(*cptr != '\'' ) cptr++ ; cptr++ ;
+        cptr = skip_past(cptr, '\'');
+        if (cptr == NULL || strchr(cptr, '\'') == NULL) goto bad;
         j=0;
-        while(*cptr != '\'' ) sar[i][j++]=*cptr++; cptr++ ;
+        while(*cptr != '\'' ) {
+            if (j < 12) sar[i][j++]=*cptr;
+            cptr++;
+        }
+        cptr++ ;
         sar[i][j]='\000';
         sarp[i] = sar[i];
         }
-        sarp[nvalues] = NULL;
+        sarp[i] = NULL;
         if(s2[0] == 'N') status = Xc_Select_nomvar(dirset, dex, sarp, nvalues) ;
         if(s2[0] == 'T') status = Xc_Select_typvar(dirset, dex, sarp, nvalues) ;
         if(s2[0] == 'E') status = Xc_Select_etiquette(dirset, dex, sarp, nvalues) ;
@@ -854,7 +866,11 @@ int ReadRequestTable(char *filename)
         return -1;
     }
     goto readnext;
-    return 0;
+
+    bad:
+    fclose(input);
+    Lib_Log(APP_LIBFST,APP_ERROR,"%s: cannot read a directive of file '%s'\n",__func__,filename);
+    return -1;
 }
 
 
-- 
2.43.0


From 76274c49d5288428871869d2932a96dfeac3d0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 103/178] fix: c_ip1_all, c_ip2_all, c_ip3_all and the _val
 forms wrote past the end of their table once it was full

---
 src/fstd98/fstd98.c | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 31b99f2..d326eb7 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -3501,12 +3501,12 @@ int c_ip1_all(
 
     int ip_new = 0;
     ConvertIp(&ip_new, &llevel, &lkind, 2);
-    ips_tab[0][ip_nb[0]] = ip_new;
-    ip_nb[0]++;
     if (ip_nb[0] >= Max_Ipvals) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: ip1 table full (ip_nb=%d)\n",__func__,ip_nb[0]);
         return -1;
     }
+    ips_tab[0][ip_nb[0]] = ip_new;
+    ip_nb[0]++;
 
     int ip_old = 0;
     if (lkind < 4) {
@@ -3515,13 +3515,12 @@ int c_ip1_all(
         /* no valid value for oldtype */
         ip_old = -9999;
     }
-    ips_tab[0][ip_nb[0]] = ip_old;
-    ip_nb[0]++;
-
-    if (ip_nb[0] > Max_Ipvals) {
+    if (ip_nb[0] >= Max_Ipvals) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: ip1 table full (i1_ind=%d)\n",__func__,ip_nb[0]);
         return -1;
     }
+    ips_tab[0][ip_nb[0]] = ip_old;
+    ip_nb[0]++;
     // printf("Debug+ c_ip1_all llevel=%f lkind=%d ip_new=%d ip_old=%d\n", llevel, lkind, ip_new, ip_old);
     return ip_new;
 }
@@ -3545,12 +3544,12 @@ int c_ip2_all(
 
     int ip_new = 0;
     ConvertIp(&ip_new, &llevel, &lkind, 2);
-    ips_tab[1][ip_nb[1]] = ip_new;
-    ip_nb[1]++;
     if (ip_nb[1] >= Max_Ipvals) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: ip2 table full (ip_nb=%d)\n",__func__,ip_nb[1]);
         return -1;
     }
+    ips_tab[1][ip_nb[1]] = ip_new;
+    ip_nb[1]++;
 
     int ip_old = 0;
     if (lkind < 4) {
@@ -3559,13 +3558,12 @@ int c_ip2_all(
         /* no valid value for oldtype */
         ip_old = -9999;
     }
-    ips_tab[1][ip_nb[1]] = ip_old;
-    ip_nb[1]++;
-
-    if (ip_nb[1] > Max_Ipvals) {
+    if (ip_nb[1] >= Max_Ipvals) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: ip2 table full (i2_ind=%d)\n",__func__,ip_nb[1]);
         return -1;
     }
+    ips_tab[1][ip_nb[1]] = ip_old;
+    ip_nb[1]++;
     return ip_new;
 }
 
@@ -3588,12 +3586,12 @@ int c_ip3_all(
 
     int ip_new = 0;
     ConvertIp(&ip_new, &llevel, &lkind, 2);
-    ips_tab[2][ip_nb[2]] = ip_new;
-    ip_nb[2]++;
     if (ip_nb[2] >= Max_Ipvals) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: ip3 table full (ip_nb=%d)\n",__func__,ip_nb[2]);
         return -1;
     }
+    ips_tab[2][ip_nb[2]] = ip_new;
+    ip_nb[2]++;
 
     int ip_old = 0;
     if (lkind < 4) {
@@ -3602,13 +3600,12 @@ int c_ip3_all(
         /* no valid value for oldtype */
         ip_old = -9999;
     }
-    ips_tab[2][ip_nb[2]] = ip_old;
-    ip_nb[2]++;
-
-    if (ip_nb[2] > Max_Ipvals) {
+    if (ip_nb[2] >= Max_Ipvals) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: ip3 table full (i3_ind=%d)\n",__func__,ip_nb[2]);
         return -1;
     }
+    ips_tab[2][ip_nb[2]] = ip_old;
+    ip_nb[2]++;
     return ip_new;
 }
 
@@ -3631,12 +3628,12 @@ int c_ip1_val(
 
     int ip_new = 0;
     ConvertIp(&ip_new, &llevel, &lkind, 2);
-    ips_tab[0][ip_nb[0]] = ip_new;
-    ip_nb[0]++;
     if (ip_nb[0] >= Max_Ipvals) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: ip1 table full (ip_nb=%d)\n",__func__,ip_nb[0]);
         return -1;
     }
+    ips_tab[0][ip_nb[0]] = ip_new;
+    ip_nb[0]++;
     return ip_new;
 }
 
@@ -3659,12 +3656,12 @@ int c_ip2_val(
 
     int ip_new = 0;
     ConvertIp(&ip_new, &llevel, &lkind, 2);
-    ips_tab[1][ip_nb[1]] = ip_new;
-    ip_nb[1]++;
     if (ip_nb[1] >= Max_Ipvals) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: ip2 table full (ip_nb=%d)\n",__func__,ip_nb[1]);
         return -1;
     }
+    ips_tab[1][ip_nb[1]] = ip_new;
+    ip_nb[1]++;
     return ip_new;
 }
 
@@ -3687,12 +3684,12 @@ int c_ip3_val(
 
     int ip_new = 0;
     ConvertIp(&ip_new, &llevel, &lkind, 2);
-    ips_tab[2][ip_nb[2]] = ip_new;
-    ip_nb[2]++;
     if (ip_nb[2] >= Max_Ipvals) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: ip3 table full (ip_nb=%d)\n",__func__,ip_nb[2]);
         return -1;
     }
+    ips_tab[2][ip_nb[2]] = ip_new;
+    ip_nb[2]++;
     return ip_new;
 }
 
-- 
2.43.0


From 4870cc87749d77ece1888a7b6022a178f5dbb81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 104/178] fix: fstcheck read the Fortran file name past its end

---
 src/fstd98/fstd98.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index d326eb7..2fb2b7d 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -4900,9 +4900,12 @@ int32_t f77name(fstopr)(char *f_option, float *f_value, int32_t * f_getmode,
  *****************************************************************************/
 int32_t f77name(fstcheck)(char *filename, F2Cl lng)
 {
-  int ier;
-  ier = c_fstcheck(filename);
-  return (int32_t) ier;
+  int l = lng;
+  while ((l > 0) && (filename[l-1] == ' ')) l--;
+  char path[l + 1];
+  memcpy(path, filename, l);
+  path[l] = '\0';
+  return (int32_t) c_fstcheck(path);
 }
 
 
-- 
2.43.0


From a870d41d335a9075020372c2b75c158a13c21eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 105/178] fix: fstopi cut option names to 6 characters and
 fstopl kept their trailing blanks, so that options could not be set

---
 src/fstd98/fstd98.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 2fb2b7d..7e6812b 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -4818,10 +4818,12 @@ int32_t f77name(fstopi)(char *f_option, int32_t *f_value, int32_t * f_getmode,
 {
   int getmode = *f_getmode, value = *f_value, ier;
   int l1 = ll1;
-  char option[7] = {' ', ' ', ' ', ' ', ' ', ' ', '\0'};
+  char option[17];
 
-  l1 = (l1 > 6) ? 6 : l1;
+  l1 = (l1 > 16) ? 16 : l1;
   strncpy(option, f_option, l1);
+  while ((l1 > 0) && (option[l1-1] == ' ')) l1--;
+  option[l1] = '\0';
 
   ier = c_fstopi(option, value, getmode);
   return (int32_t) ier;
@@ -4850,6 +4852,7 @@ int32_t f77name(fstopl)(char *f_option, int32_t *f_value, int32_t * f_getmode,
 
   l1 = (l1 > 16) ? 16 : l1;
   strncpy(option, f_option, l1);
+  while ((l1 > 0) && (option[l1-1] == ' ')) l1--;
   option[l1] = '\0';
 
   ier = c_fstopl(option, value, getmode);
-- 
2.43.0


From f5e393418dce8076b175c06537fcb30a14b23f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:26 +0000
Subject: [PATCH 106/178] fix: the second half of a complex field was lost when
 it was copied in image mode

---
 src/fstd98/fstd98.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 7e6812b..5840707 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1132,6 +1132,7 @@ int c_fstecr(
             } else {
                 lngw = ni * nj * nk * nbits;
             }
+            if (datyp == 8) lngw *= 2;
             if (datyp == 1) lngw += 120;
             if (datyp == 3) lngw = ni * nj * 8;
             lngw = (lngw + bitmot - 1) / bitmot;
-- 
2.43.0


From ce3814e2405e8bf07115ae5c00ac31322f75f6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 107/178] fix: fstcheck judged uninitialised memory when a file
 was too short to hold a header

---
 src/fstd98/xdf98.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 66b2fee..d0b4439 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -94,6 +94,11 @@ int c_xdfcheck(
 
     fclose(fd);
 
+    if (num_records != 1) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: File is too short to hold a header\n",__func__);
+        return(ERR_DAMAGED);
+    }
+
     // Flip bytes in each 32-bit word (16 of them)
     for(int i = 0 ; i < 16 ; i++) {
         tmp = buf_ptr[i] ;
-- 
2.43.0


From e7d652e072c31337147efaa90c7af9f0db87d4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 108/178] fix: a missing value at the start of a field is
 recognised when the field is read

---
 src/fstd98/fst_missing.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fstd98/fst_missing.c b/src/fstd98/fst_missing.c
index 8eecee0..2c4e4d5 100644
--- a/src/fstd98/fst_missing.c
+++ b/src/fstd98/fst_missing.c
@@ -745,7 +745,7 @@ static void fst_float_decode_missing(
     float max, min;
     fld_float_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = float_missing_val;
         }
@@ -763,7 +763,7 @@ static void fst_double_decode_missing(
     double max, min;
     fld_double_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = double_missing_val;
         }
@@ -781,7 +781,7 @@ static void fst_int_decode_missing(
     int max, min;
     fld_int_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = int_missing_val;
         }
@@ -799,7 +799,7 @@ static void fst_short_decode_missing(
     short max, min;
     fld_short_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = short_missing_val;
         }
@@ -817,7 +817,7 @@ static void fst_byte_decode_missing(
     char max, min;
     fld_byte_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = byte_missing_val;
         }
@@ -835,7 +835,7 @@ static void fst_uint_decode_missing(
     unsigned int max, min;
     fld_uint_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = uint_missing_val;
         }
@@ -853,7 +853,7 @@ static void fst_ushort_decode_missing(
     unsigned short max, min;
     fld_ushort_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = ushort_missing_val;
         }
@@ -871,7 +871,7 @@ static void fst_ubyte_decode_missing(
     unsigned char max, min;
     fld_ubyte_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = ubyte_missing_val;
         }
-- 
2.43.0


From c5dac106784745807b207e4e3947ff9a9b3c3124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 109/178] fix: missing values of signed 16 and 8 bit fields are
 replaced by a value above the others

---
 src/fstd98/fst_missing.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fst_missing.c b/src/fstd98/fst_missing.c
index 2c4e4d5..b8c567b 100644
--- a/src/fstd98/fst_missing.c
+++ b/src/fstd98/fst_missing.c
@@ -1036,7 +1036,7 @@ static int fst_short_encode_missing(
     int missing = fld_short_anal(src, nElems, &max, &min);
     if (missing == 0) return 0;
 
-    short plug2 = 0xFFFF;
+    unsigned short plug2 = 0xFFFF;
     if (nbits < 16) {
         plug2 = plug2 >> (16 - nbits);
     }
@@ -1097,7 +1097,7 @@ static int fst_byte_encode_missing(
     int missing = fld_byte_anal(src, nElems, &max, &min);
     if (missing == 0) return 0;
 
-    char plug2 = 0xFF;
+    unsigned char plug2 = 0xFF;
     if (nbits < 8) {
         plug2 = plug2 >> (8 - nbits);
     }
-- 
2.43.0


From a872bb336d5e9350ad96ca1d0a9f6fa152618056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 110/178] fix: missing values of a constant negative field are
 replaced by a value above the others

---
 src/fstd98/fst_missing.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fst_missing.c b/src/fstd98/fst_missing.c
index b8c567b..b4e1ca4 100644
--- a/src/fstd98/fst_missing.c
+++ b/src/fstd98/fst_missing.c
@@ -910,7 +910,7 @@ static int fst_double_encode_missing(
 
     if (plug == max) {
         // field is constant, max == min
-        plug = (max == 0.0) ? 1.0 : max * 2.0;
+        plug = (max == 0.0) ? 1.0 : (max > 0.0) ? max * 2.0 : 0.0;
     }
     for (int i = 0; i < nElems; i++) {
         if (src[i] == double_missing_val) {
@@ -949,7 +949,7 @@ static int fst_float_encode_missing(
 
     if (plug == max) {
         // field is constant, max == min
-        plug = (max == 0.0) ? 1.0 : max * 2.0;
+        plug = (max == 0.0) ? 1.0 : (max > 0.0) ? max * 2.0 : 0.0;
     }
     for (int i = 0; i < nElems; i++) {
         if (src[i] == float_missing_val) {
-- 
2.43.0


From 79bd693fa37b53b6885f7d38be4a1bb3b9cb0b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 111/178] fix: values just below the missing value code are not
 read back as missing

---
 src/fstd98/fst_missing.c | 56 ++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/fstd98/fst_missing.c b/src/fstd98/fst_missing.c
index b4e1ca4..8dd21b0 100644
--- a/src/fstd98/fst_missing.c
+++ b/src/fstd98/fst_missing.c
@@ -742,8 +742,11 @@ static void fst_float_decode_missing(
 ) {
     if (missing_value_used() == 0) return;
 
-    float max, min;
-    fld_float_anal(field, nElems, &max, &min);
+    // the value used in place of the missing ones may be the missing value code itself
+    float max = field[0];
+    for (int i = 1; i < nElems; i++) {
+        if (field[i] > max) max = field[i];
+    }
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
@@ -760,8 +763,11 @@ static void fst_double_decode_missing(
 ) {
     if (missing_value_used() == 0) return;
 
-    double max, min;
-    fld_double_anal(field, nElems, &max, &min);
+    // the value used in place of the missing ones may be the missing value code itself
+    double max = field[0];
+    for (int i = 1; i < nElems; i++) {
+        if (field[i] > max) max = field[i];
+    }
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
@@ -778,8 +784,11 @@ static void fst_int_decode_missing(
 {
     if (missing_value_used() == 0) return;
 
-    int max, min;
-    fld_int_anal(field, nElems, &max, &min);
+    // the value used in place of the missing ones may be the missing value code itself
+    int max = field[0];
+    for (int i = 1; i < nElems; i++) {
+        if (field[i] > max) max = field[i];
+    }
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
@@ -796,8 +805,11 @@ static void fst_short_decode_missing(
 {
     if (missing_value_used() == 0) return;
 
-    short max, min;
-    fld_short_anal(field, nElems, &max, &min);
+    // the value used in place of the missing ones may be the missing value code itself
+    short max = field[0];
+    for (int i = 1; i < nElems; i++) {
+        if (field[i] > max) max = field[i];
+    }
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
@@ -814,8 +826,11 @@ static void fst_byte_decode_missing(
 {
     if (missing_value_used() == 0) return;
 
-    char max, min;
-    fld_byte_anal(field, nElems, &max, &min);
+    // the value used in place of the missing ones may be the missing value code itself
+    char max = field[0];
+    for (int i = 1; i < nElems; i++) {
+        if (field[i] > max) max = field[i];
+    }
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
@@ -832,8 +847,11 @@ static void fst_uint_decode_missing(
 {
     if (missing_value_used() == 0) return;
 
-    unsigned int max, min;
-    fld_uint_anal(field, nElems, &max, &min);
+    // the value used in place of the missing ones may be the missing value code itself
+    unsigned int max = field[0];
+    for (int i = 1; i < nElems; i++) {
+        if (field[i] > max) max = field[i];
+    }
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
@@ -850,8 +868,11 @@ static void fst_ushort_decode_missing(
 {
     if (missing_value_used() == 0) return;
 
-    unsigned short max, min;
-    fld_ushort_anal(field, nElems, &max, &min);
+    // the value used in place of the missing ones may be the missing value code itself
+    unsigned short max = field[0];
+    for (int i = 1; i < nElems; i++) {
+        if (field[i] > max) max = field[i];
+    }
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
@@ -868,8 +889,11 @@ static void fst_ubyte_decode_missing(
 {
     if (missing_value_used() == 0) return;
 
-    unsigned char max, min;
-    fld_ubyte_anal(field, nElems, &max, &min);
+    // the value used in place of the missing ones may be the missing value code itself
+    unsigned char max = field[0];
+    for (int i = 1; i < nElems; i++) {
+        if (field[i] > max) max = field[i];
+    }
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
-- 
2.43.0


From 781513214cf2e8d2345f7066d89f54d65fbcfd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 112/178] fix: 64 bit fields with missing values read into 32
 bits are not treated as 64 bit values

---
 src/fstd98/fstd98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 5840707..d639da4 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -2509,7 +2509,7 @@ int c_fstluk(
     if (has_missing) {
         // Replace "missing" data points with the appropriate values given the type of data (int/float)
         // if nbits = 64 and IEEE , set xdf_double
-        if ((stdf_entry.datyp & 0xF) == 5 && stdf_entry.nbits == 64 ) xdf_double = 1;
+        if ((stdf_entry.datyp & 0xF) == 5 && stdf_entry.nbits == 64 ) xdf_double = downgrade_32 ? 0 : 1;
         // printf("Debug+ fstluk - DecodeMissingValue\n");
         DecodeMissingValue(field , (*ni) * (*nj) * (*nk) , xdf_datatyp & 0x3F, xdf_byte, xdf_short, xdf_double);
     }
-- 
2.43.0


From b0077d6a6b6a3ede42c1ecf2763c500d89d6efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 113/178] fix: packed data read in image mode is not searched
 for missing values

---
 src/fstd98/fstd98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index d639da4..e360507 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -2506,7 +2506,7 @@ int c_fstluk(
         stdf_entry.datyp = stdf_entry.datyp | has_missing;
         print_std_parms(&stdf_entry, string, prnt_options, -1);
     }
-    if (has_missing) {
+    if (has_missing && !image_mode_copy) {
         // Replace "missing" data points with the appropriate values given the type of data (int/float)
         // if nbits = 64 and IEEE , set xdf_double
         if ((stdf_entry.datyp & 0xF) == 5 && stdf_entry.nbits == 64 ) xdf_double = downgrade_32 ? 0 : 1;
-- 
2.43.0


From 1d18a5ee85b63928bef32163d3c778bd22a4cdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 114/178] fix: missing values of a field stored without
 compaction are kept

---
 src/fstd98/fstd98.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index e360507..5bc2f4f 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -928,8 +928,9 @@ int c_fstecr(
     }
 
     if ((npak == 0) || (npak == 1)) {
-        /* no compaction */
+        /* no compaction, the values are stored as they are, missing ones included */
         datyp = 0;
+        is_missing = 0;
     }
 
     /* allocate and initialize a buffer interface for xdfput */
-- 
2.43.0


From 1e4840143ca44554bf6b694787a6d6b7b31f151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 115/178] fix: 64 bit IEEE fields with missing values are not
 given to the 32 bit compressor

---
 src/fstd98/fstd98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 5bc2f4f..6debff4 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -880,7 +880,7 @@ int c_fstecr(
     nk = Max(1, nk);
     int minus_nbits = -nbits;
 
-    if ( (in_datyp_ori == 133) && (nbits > 32) ) {
+    if ( (in_datyp == 133) && (nbits > 32) ) {
         Lib_Log(APP_LIBFST,APP_WARNING,"%s: extra compression not supported for IEEE when nbits > 32, data type 133 reset to 5 (IEEE)\n",__func__);
         /* extra compression not supported */
         in_datyp = 5;
-- 
2.43.0


From 3023bced886bdb5e952ad08f7f0731d9b361cd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 116/178] fix: byte fields packed with less than 8 bits are
 unpacked with as many bits

---
 src/fstd98/fstd98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 6debff4..76dc4b0 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -2369,7 +2369,7 @@ int c_fstluk(
                             // printf("Debug+ fstluk xdf_byte armn_compress nbytes=%d nelm=%d\n", nbytes, nelm);
                             memcpy_16_8((int8_t *)field, (int16_t *)(buf->data + offset), nelm);
                         } else {
-                            ier = compact_char(field, (void *) NULL, buf->data, nelm, 8, 0, xdf_stride, 10);
+                            ier = compact_char(field, (void *) NULL, buf->data, nelm, stdf_entry.nbits, 0, xdf_stride, 10);
                         }
                     } else {
                         if (stdf_entry.datyp > 128) {
-- 
2.43.0


From c0f3bbec102a068e0702ab358450ab0292d2bf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:08 +0000
Subject: [PATCH 117/178] fix: compressed unsigned byte fields with values
 above 127 could be read back wrong

---
 src/fstd98/fstd98.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 76dc4b0..72b036f 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -115,7 +115,8 @@ static void str_cp_init(char * const dst, const int dstLen, const char * const s
 
 static void memcpy_8_16(int16_t *p16, int8_t *p8, int nb) {
     for (int i = 0; i < nb; i++) {
-        *p16++ = *p8++;
+        // the bytes are unsigned
+        *p16++ = *p8++ & 0xFF;
     }
 }
 
-- 
2.43.0


From b4ed733a3dbae2a92f6c74af736bd1b494c2ed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:20 +0000
Subject: [PATCH 118/178] fix: winds interpolated to an E grid were rotated
 with uninitialised positions and spoiled the grid's latitudes

---
 src/interp/gduvfwd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp/gduvfwd.c b/src/interp/gduvfwd.c
index 828edf6..7eb710f 100644
--- a/src/interp/gduvfwd.c
+++ b/src/interp/gduvfwd.c
@@ -44,7 +44,7 @@ int32_t c_gduvfwd_orig(int32_t gdid,  float *uugdout, float *vvgdout, float *uul
         case 'E':
             lat_true = (float *)(malloc(npts * sizeof(float)));
             lon_true = (float *)(malloc(npts * sizeof(float)));
-            f77name(ez_gfxyfll)(lon_true, lat_true, lonin, latin, &ni,
+            f77name(ez_gfxyfll)(lonin, latin, lon_true, lat_true, &ni,
                                 &Grille[gdrow_id][gdcol_id].fst.xg[XLAT1], &Grille[gdrow_id][gdcol_id].fst.xg[XLON1],
                                 &Grille[gdrow_id][gdcol_id].fst.xg[XLAT2], &Grille[gdrow_id][gdcol_id].fst.xg[XLON2]);
 
-- 
2.43.0


From 4b5ea5cec6b6a711e6d2497f9f8a4478d306a8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:20 +0000
Subject: [PATCH 119/178] fix: values interpolated from a Y grid overran or
 left part of the target field

---
 src/interp/ez_applywgts.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp/ez_applywgts.inc b/src/interp/ez_applywgts.inc
index 90da7a9..db7dd59 100644
--- a/src/interp/ez_applywgts.inc
+++ b/src/interp/ez_applywgts.inc
@@ -4,7 +4,7 @@
    integer, intent(in) :: ni_src, nj_src, ni_dst, nj_dst, n_wts
    real, dimension(ni_src, nj_src), intent(in) :: x, y
    real, dimension(ni_src * nj_src), intent(in) :: infld
-   real, dimension(ni_src * nj_src), intent(out) :: outfld
+   real, dimension(ni_dst * nj_dst), intent(out) :: outfld
    real, dimension(ni_dst, nj_dst, n_wts), intent(in) :: wts
    integer, dimension(ni_dst, nj_dst, n_wts), intent(in) :: idxs
    integer, dimension(ni_dst * nj_dst), intent(in) :: masque
@@ -35,7 +35,7 @@
 
    do k = 1, ni_dst * nj_dst
      i = mod((k - 1), ni_dst) + 1
-     j = 1 + k / ni_dst
+     j = 1 + (k - 1) / ni_dst
      if (masque(k) == 1) then
         outfld(k) = 0.0
         do n = 1, n_wts
-- 
2.43.0


From 0701e59410a73df1ce4e45864f47298f2122304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:20 +0000
Subject: [PATCH 120/178] fix: values interpolated from a Y grid were replaced
 according to uninitialised positions

---
 src/interp/ez_defzones.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/interp/ez_defzones.c b/src/interp/ez_defzones.c
index 062b878..65caa98 100644
--- a/src/interp/ez_defzones.c
+++ b/src/interp/ez_defzones.c
@@ -85,6 +85,13 @@ switch (Grille[gdrow_in][gdcol_in].grtyp[0])
       Grille[gdrow_out][gdcol_out].gset[idx_gdin].zones[i].npts = 0;
       }
 
+   if (Grille[gdrow_in][gdcol_in].grtyp[0] == 'Y')
+      {
+      /* the x and y of a set whose source is a cloud of points are not positions on a grid: there are no zones */
+      Grille[gdrow_out][gdcol_out].gset[idx_gdin].flags |= ZONES;
+      return 0;
+      }
+
    switch (extrap)
       {
       case EZ_EXTRAP:
-- 
2.43.0


From 91e10a2c6fc90fcf610a4b1ad87a534436ce0d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:34 +0000
Subject: [PATCH 121/178] fix: a table of grid sets with collisions or that had
 grown lost sets and could be searched without end

---
 src/interp/ez_calcxy.c            |  7 ++-
 src/interp/ez_find_gdin.c         | 41 ++--------------
 src/interp/ez_find_gdin_in_gset.c | 59 ++++++++---------------
 src/interp/ezdefset.c             | 80 +++++++++----------------------
 4 files changed, 52 insertions(+), 135 deletions(-)

diff --git a/src/interp/ez_calcxy.c b/src/interp/ez_calcxy.c
index fd7fb2f..2791b4e 100644
--- a/src/interp/ez_calcxy.c
+++ b/src/interp/ez_calcxy.c
@@ -53,8 +53,11 @@ int32_t ez_calcxy(int32_t gdin, int32_t gdout)
     nj_out = Grille[gdrow_out][gdcol_out].nj;
     ninj_out = ni_out * nj_out;
 
-    Grille[gdrow_out][gdcol_out].gset[idx_gdin].x = (float *) malloc(ninj_out*sizeof(float));
-    Grille[gdrow_out][gdcol_out].gset[idx_gdin].y = (float *) malloc(ninj_out*sizeof(float));
+    /* c_ezdefset a deja alloue ces vecteurs, sauf pour une entree remise a neuf */
+    if (Grille[gdrow_out][gdcol_out].gset[idx_gdin].x == NULL) {
+        Grille[gdrow_out][gdcol_out].gset[idx_gdin].x = (float *) malloc(ninj_out*sizeof(float));
+        Grille[gdrow_out][gdcol_out].gset[idx_gdin].y = (float *) malloc(ninj_out*sizeof(float));
+    }
 
     switch(Grille[gdrow_in][gdcol_in].grtyp[0]) {
         case 'A':
diff --git a/src/interp/ez_find_gdin.c b/src/interp/ez_find_gdin.c
index 18ed8ae..271eabf 100644
--- a/src/interp/ez_find_gdin.c
+++ b/src/interp/ez_find_gdin.c
@@ -4,43 +4,10 @@
 #include "ez_funcdef.h"
 
 int c_find_gdin(int gdin, int gdout) {
-    int i, gdrow_out, gdcol_out, idx_gdin, found;
-    _gridset *gset;
-
-    c_gdkey2rowcol(gdout, &gdrow_out, &gdcol_out);
-    idx_gdin = Grille[gdrow_out][gdcol_out].idx_last_gdin;
-    if (idx_gdin == -1){
+    int idx_gdin = ez_find_gdin_in_gset(gdin, gdout);
+    if (idx_gdin == -1) {
         c_ezdefset(gdout, gdin);
-        idx_gdin = gdin % primes[Grille[gdrow_out][gdcol_out].log_chunk_gdin];
-    }
-
-    gset = Grille[gdrow_out][gdcol_out].gset;
-    if (gset[idx_gdin].gdin == gdin) {
-        return idx_gdin;
-    }
-
-    idx_gdin = gdin % primes[cur_log_chunk];
-    if (gset[idx_gdin].gdin == gdin) {
-        return idx_gdin;
-    }
-
-    i = idx_gdin + 1;
-    found = 0;
-    while (found == 0 && i != idx_gdin && gset[i].gdin != -1) {
-        if (gset[i].gdin == gdin) {
-            found = 1;
-            idx_gdin = i;
-        }
-        i++;
-        if (0 == (i % primes[Grille[gdrow_out][gdcol_out].log_chunk_gdin])) {
-            i = 0;
-        }
-    }
-
-    if (found == 0) {
-        return -1;
-    } else {
-        Grille[gdrow_out][gdcol_out].idx_last_gdin = idx_gdin;
-        return idx_gdin;
+        idx_gdin = ez_find_gdin_in_gset(gdin, gdout);
     }
+    return idx_gdin;
 }
diff --git a/src/interp/ez_find_gdin_in_gset.c b/src/interp/ez_find_gdin_in_gset.c
index 54b9643..e51539b 100644
--- a/src/interp/ez_find_gdin_in_gset.c
+++ b/src/interp/ez_find_gdin_in_gset.c
@@ -1,40 +1,21 @@
- #include <rmn/ezscint.h>
- #include "ez_funcdef.h"
- 
- int32_t ez_find_gdin_in_gset(int32_t gdin, int32_t gdout)
-  {
-  int i, found, idx_gdin; 
-  int gdrow_in, gdrow_out, gdcol_in, gdcol_out;
-  _Grille *gr; 
-   
-  c_gdkey2rowcol(gdin,  &gdrow_in,  &gdcol_in);
-  c_gdkey2rowcol(gdout, &gdrow_out, &gdcol_out);
-  gr = &(Grille[gdrow_out][gdcol_out]);
-   
-   idx_gdin = gdin % primes[gr->log_chunk_gdin];
-   if (gr->gset[idx_gdin].gdin == gdin)
-    {
-    return idx_gdin;
+#include <stdlib.h>
+
+#include <rmn/ezscint.h>
+#include "ez_funcdef.h"
+
+int32_t ez_find_gdin_in_gset(int32_t gdin, int32_t gdout) {
+    int32_t gdrow_out, gdcol_out;
+    c_gdkey2rowcol(gdout, &gdrow_out, &gdcol_out);
+
+    const _Grille * const gr = &(Grille[gdrow_out][gdcol_out]);
+    if (gr->gset == NULL) return -1;
+
+    // The table is never full: there always is a free entry that ends the search
+    const int tableSize = primes[gr->log_chunk_gdin];
+    int32_t i = gdin % tableSize;
+    while (gr->gset[i].gdin != -1) {
+        if (gr->gset[i].gdin == gdin) return i;
+        i = (i + 1) % tableSize;
     }
-   
-   i = idx_gdin;
-   found = -1;
-   while ((found == -1) && (i != idx_gdin-1) && (gr->gset[i].gdin != -1))
-    {
-    if (gdin == gr->gset[i].gdin)
-      {
-      found = 1;
-      idx_gdin = i;
-      return idx_gdin;
-      }
-    else
-      {
-      i++;
-      if (0 == (i % primes[cur_log_chunk]))
-        {
-        i = 0;
-        }
-      }
-    }
-  return -1;
-  }  
+    return -1;
+}
diff --git a/src/interp/ezdefset.c b/src/interp/ezdefset.c
index d341d50..43e2a45 100644
--- a/src/interp/ezdefset.c
+++ b/src/interp/ezdefset.c
@@ -40,8 +40,6 @@ int32_t c_ezdefset(int32_t gdout, int32_t gdin) {
 
    int32_t i;
    int32_t gdrow_in, gdrow_out, gdcol_in, gdcol_out, npts, cur_gdin;
-   int idx_gdin;
-   static int32_t found = -1;
    int32_t nsets = 0;
    _Grille *gr;
 
@@ -72,54 +70,37 @@ int32_t c_ezdefset(int32_t gdout, int32_t gdin) {
       gr->log_chunk_gdin = cur_log_chunk;
    }
 
-   if (nsets >= primes[MAX_LOG_CHUNK])
+   if (ez_find_gdin_in_gset(gdin, gdout) != -1)
    {
-      for (i=0; i < nsets; i++)
-      {
-         if (gr->gset[i].gdin != -1)
-         {
-            c_ezfreegridset(gdin, i);
-         }
-      }
-      nsets = 0;
-      allocate_gridset_table(gdout);
-      gr->log_chunk_gdin = cur_log_chunk;
-   }
-
-
-   found = -1;
-
-   idx_gdin = gdin % primes[gr->log_chunk_gdin];
-   if (gr->gset[idx_gdin].gdin == gdin)
-   {
-      found = 1;
       iset_gdin = gdin;
       iset_gdout = gdout;
       return 1;
    }
 
-   i = idx_gdin;
-   while ((found == -1) && (i != idx_gdin-1) && (gr->gset[i].gdin != -1))
+   /* si on se rend jusqu'ici alors c'est que le set n'a pas ete trouve */
+
+   if (gr->log_chunk_gdin == MAX_LOG_CHUNK && nsets >= primes[MAX_LOG_CHUNK]/2)
    {
-      if (gdin == gr->gset[i].gdin)
+      /* La table ne peut plus grossir: on recommence a neuf */
+      for (i=0; i < primes[gr->log_chunk_gdin]; i++)
       {
-         found = i;
-         iset_gdin = gdin;
-         iset_gdout = gdout;
-         Grille[gdrow_out][gdcol_out].idx_last_gdin = Grille[gdrow_out][gdcol_out].gset[i].gdin;
-         return 1;
-      }
-      else
-      {
-         i++;
-         if (0 == (i % (primes[gr->log_chunk_gdin])))
+         if (gr->gset[i].gdin != -1)
          {
-            i = 0;
+            c_ezfreegridset(gdout, i);
          }
       }
+      free(gr->gset);
+      gr->n_gdin = 0;
+      allocate_gridset_table(gdout);
+      gr->log_chunk_gdin = cur_log_chunk;
    }
 
-   /* si on se rend jusqu'ici alors c'est que le set n'a pas ete trouve */
+   /* Premiere entree libre de la table (qui n'est jamais pleine) */
+   i = gdin % primes[gr->log_chunk_gdin];
+   while (gr->gset[i].gdin != -1)
+   {
+      i = (i + 1) % primes[gr->log_chunk_gdin];
+   }
 
    /* On initialise le vecteur de gdout pour lequel gdin est utilise en entree
       Ceci sera utile si le vecteur de grilles deborde */
@@ -133,7 +114,7 @@ int32_t c_ezdefset(int32_t gdout, int32_t gdin) {
    gr->gset[i].y = malloc (sizeof(float)*npts);
    gr->gset[i].use_sincos_cache = 0;
 
-   if (gr->n_gdin >= (primes[gr->log_chunk_gdin]/2))
+   if (gr->log_chunk_gdin < MAX_LOG_CHUNK && gr->n_gdin >= (primes[gr->log_chunk_gdin]/2))
    {
       reallocate_gridset_table(gdout);
    }
@@ -173,7 +154,7 @@ int32_t c_ezdefset(int32_t gdout, int32_t gdin) {
 
 void reallocate_gridset_table(int gdid) {
     int32_t gdrow_id, gdcol_id;
-    int32_t newIndex, inserted;
+    int32_t newIndex;
     int oldChunkSize, newChunkSize;
     int cur_chunk;
     _Grille *gr;
@@ -193,25 +174,10 @@ void reallocate_gridset_table(int gdid) {
     for (int32_t i = 0 ; i < oldChunkSize; i++) {
         if (gr->gset[i].gdin != -1) {
             newIndex = gr->gset[i].gdin % newChunkSize;
-            if (newTable[newIndex].gdin == -1) {
-                memcpy(&(newTable[newIndex]), &(gr->gset[i]), sizeof(_gridset));
-            } else {
-                newIndex++;
-                inserted = -1;
-                /** && curIndex != (newIndex-1)) (a reverifier-- Yves-20120228)**/
-                while (inserted == -1) {
-                    fprintf(stderr, "reallocate_gridset_table -- should not be here\n ");
-                    if (newTable[newIndex].gdin == -1) {
-                        memcpy(&(newTable[newIndex]), &(gr->gset[i]), sizeof(_gridset));
-                        inserted = 1;
-                    } else {
-                        newIndex++;
-                        if (0 == (newIndex % newChunkSize)) {
-                            newIndex = 0;
-                        }
-                    }
-                }
+            while (newTable[newIndex].gdin != -1) {
+                newIndex = (newIndex + 1) % newChunkSize;
             }
+            memcpy(&(newTable[newIndex]), &(gr->gset[i]), sizeof(_gridset));
         }
     }
 
-- 
2.43.0


From 65290fa70dac2ada2b94e8c20e99b766c0c1fedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:34 +0000
Subject: [PATCH 122/178] fix: a grid that differs from one with the same hash
 only by its axes or reference is found or defined properly

---
 src/interp/ez_findgrid.c | 121 +++++++++++----------------------------
 1 file changed, 35 insertions(+), 86 deletions(-)

diff --git a/src/interp/ez_findgrid.c b/src/interp/ez_findgrid.c
index bfe9a07..cab61c9 100644
--- a/src/interp/ez_findgrid.c
+++ b/src/interp/ez_findgrid.c
@@ -6,7 +6,7 @@ extern pthread_mutex_t EZ_MTX;
 #endif
 
 int c_ez_findgrid(int grid_index, _Grille *gr) {
-    int32_t gdrow, gdcol, index_found, resax, resay;
+    int32_t gdrow, gdcol, index_found;
     int32_t found, end_reached, i, j;
     _Grille *refgd;
 
@@ -31,102 +31,51 @@ int c_ez_findgrid(int grid_index, _Grille *gr) {
 #endif
 
     while (found == -1 && end_reached == -1) {
-        if (gr->grtyp[0] == 'U') {
-            if (gr->grtyp[0] == refgd->grtyp[0] &&
-                gr->grref[0] == refgd->grref[0] &&
-                gr->ni_ax == refgd->ni_ax &&  gr->nj_ay == refgd->nj_ay &&
-                gr->fst.ig[IG1] == refgd->fst.ig[IG1] &&
-                gr->fst.ig[IG2] == refgd->fst.ig[IG2] &&
-                gr->fst.ig[IG3] == refgd->fst.ig[IG3] &&
-                gr->fst.ig[IG4] == refgd->fst.ig[IG4]) {
-                    found = 1;
-                    index_found = refgd->index;
-                    break;
-              }
-        }
         // printf("gr->grtyp=%c  ni=%d nj= %d\n",gr->grtyp[0],gr->ni,gr->nj);
         // printf("refgd->grtyp=%c  ni=%d nj= %d\n",refgd->grtyp[0],refgd->ni,refgd->nj);
-
-        if (gr->grtyp[0] == refgd->grtyp[0] &&
-            gr->ni == refgd->ni &&  gr->nj == refgd->nj &&
+        int same = gr->grtyp[0] == refgd->grtyp[0] &&
             gr->fst.ig[IG1] == refgd->fst.ig[IG1] && gr->fst.ig[IG2] == refgd->fst.ig[IG2] &&
-            gr->fst.ig[IG3] == refgd->fst.ig[IG3] && gr->fst.ig[IG4] == refgd->fst.ig[IG4]) {
-            if (gr->grtyp[0] == 'G') {
-                found = 1;
-                index_found = refgd->index;
-                break;
-            }
-            if (gr->fst.igref[IG1] == refgd->fst.igref[IG1] &&
+            gr->fst.ig[IG3] == refgd->fst.ig[IG3] && gr->fst.ig[IG4] == refgd->fst.ig[IG4];
+
+        if (same && gr->grtyp[0] == 'U' && gr->grref[0] == refgd->grref[0] &&
+            gr->ni_ax == refgd->ni_ax && gr->nj_ay == refgd->nj_ay) {
+            found = 1;
+            index_found = refgd->index;
+            break;
+        }
+
+        same = same && gr->ni == refgd->ni && gr->nj == refgd->nj;
+        if (same && gr->grtyp[0] != 'G') {
+            same = gr->fst.igref[IG1] == refgd->fst.igref[IG1] &&
                 gr->fst.igref[IG2] == refgd->fst.igref[IG2] &&
                 gr->fst.igref[IG3] == refgd->fst.igref[IG3] &&
-                gr->fst.igref[IG4] == refgd->fst.igref[IG4]) {
-                if (refgd->ax != NULL && refgd->ay != NULL && gr->ax != NULL && gr->ay != NULL) {
-                    resax = 0;
-                    resay = 0;
-                    if (refgd->grtyp[0] == 'Z') {
-                        for (i=0; i < gr->ni; i++) {
-                            if (refgd->ax[i] != gr->ax[i]) {
-                                resax = 1;
-                                break;
-                            }
-                        }
-                        if (resax == 0) {
-                            for (j=0; j < gr->nj; j++) {
-                                if (refgd->ay[j] != gr->ay[j]) {
-                                    resay=1;
-                                    break;
-                                }
-                            }
-                        }
-                        // resax = memcmp(refgd->ax, gr->ax, (size_t)(gr->ni*sizeof(float)));
-                        // resay = memcmp(refgd->ay, gr->ay, (size_t)(gr->nj*sizeof(float)));
-                    } else {
-                        for (i=0; i < gr->ni*gr->nj; i++) {
-                            if (refgd->ax[i] != gr->ax[i]) {
-                                resax=1;
-                                break;
-                            }
-                        }
-                        if (resax == 0) {
-                            for (j=0; j < gr->ni*gr->nj; j++) {
-                                if (refgd->ay[j] != gr->ay[j]) {
-                                    resay=1;
-                                    break;
-                                }
-                            }
-                        }
-
-                        // resax = memcmp(refgd->ax, gr->ax, (size_t)(gr->ni*gr->nj*sizeof(float)));
-                        // resay = memcmp(refgd->ay, gr->ay, (size_t)(gr->ni*gr->nj*sizeof(float)));*/
-                    }
-
-                    if (resax == 0 && resay == 0) {
-                        found = 1;
-                        index_found = refgd->index;
-                    } else {
-                        if (refgd->next_gd == -1) {
-                            end_reached = 1;
-                        } else {
-                            c_gdkey2rowcol(refgd->next_gd, &gdrow, &gdcol);
-                            refgd = &Grille[gdrow][gdcol];
-                        }
-                    }
-                } else {
-                    found = 1;
-                    index_found = refgd->index;
+                gr->fst.igref[IG4] == refgd->fst.igref[IG4];
+            if (same && refgd->ax != NULL && refgd->ay != NULL && gr->ax != NULL && gr->ay != NULL) {
+                const int axes = refgd->grtyp[0] == 'Z' || refgd->grtyp[0] == '#';
+                const int nax = axes ? gr->ni : gr->ni * gr->nj;
+                const int nay = axes ? gr->nj : gr->ni * gr->nj;
+                same = gr->grref[0] == refgd->grref[0];
+                for (i = 0; same && i < nax; i++) {
+                    same = refgd->ax[i] == gr->ax[i];
+                }
+                for (j = 0; same && j < nay; j++) {
+                    same = refgd->ay[j] == gr->ay[j];
                 }
             }
+        }
+
+        if (same) {
+            found = 1;
+            index_found = refgd->index;
+        } else if (refgd->next_gd == -1) {
+            end_reached = 1;
         } else {
-            if (refgd->next_gd == -1) {
-                end_reached = 1;
-            } else {
-                c_gdkey2rowcol(refgd->next_gd, &gdrow, &gdcol);
-                refgd = &Grille[gdrow][gdcol];
-            }
+            c_gdkey2rowcol(refgd->next_gd, &gdrow, &gdcol);
+            refgd = &Grille[gdrow][gdcol];
         }
     }
 
-    refgd->access_count++;
+    if (found != -1) refgd->access_count++;
 #ifdef MUTEX
     pthread_mutex_unlock(&EZ_MTX);
 #endif
-- 
2.43.0


From 34f9b31c78562955684f2c802ab2ecd8de2f08a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:34 +0000
Subject: [PATCH 123/178] fix: releasing a grid lost the others with the same
 hash, reused live handles and left stale sets

---
 src/interp/ez_addgrid.c     |  22 +++++---
 src/interp/ez_freegridset.c | 101 ++++++++++++++++++++----------------
 src/interp/ez_funcdef.h     |   1 +
 src/interp/ez_statics.c     |   2 +
 src/interp/gdrls.c          |  80 +++++++++++++++++++---------
 5 files changed, 129 insertions(+), 77 deletions(-)

diff --git a/src/interp/ez_addgrid.c b/src/interp/ez_addgrid.c
index 19e2ee0..537524e 100644
--- a/src/interp/ez_addgrid.c
+++ b/src/interp/ez_addgrid.c
@@ -45,9 +45,17 @@ int c_ez_addgrid(
     newgr->access_count++;
     newgr->grid_index = grid_index;
 
+    // Use the entry of a released grid, if there is one, rather than a new one
+    const int newEntry = (grilleLibre == -1);
+    const int32_t newIndex = newEntry ? nGrilles : grilleLibre;
+    if (!newEntry) {
+        c_gdkey2rowcol(newIndex, &gdrow, &gdcol);
+        grilleLibre = Grille[gdrow][gdcol].next_gd;
+    }
+
     cur_gr = gr_list[grid_index];
     if (cur_gr == NULL) {
-        gdindex = nGrilles;
+        gdindex = newIndex;
         c_gdkey2rowcol(gdindex, &gdrow, &gdcol);
         Grille[gdrow][gdcol].grid_index = grid_index;
 
@@ -62,15 +70,15 @@ int c_ez_addgrid(
             c_gdkey2rowcol(next_index, &nxt_row, &nxt_col);
             next_index = Grille[nxt_row][nxt_col].next_gd;
         }
-        Grille[nxt_row][nxt_col].next_gd = nGrilles;
+        Grille[nxt_row][nxt_col].next_gd = newIndex;
     }
 
-    c_gdkey2rowcol(nGrilles, &gdrow, &gdcol);
+    c_gdkey2rowcol(newIndex, &gdrow, &gdcol);
     memcpy(&(Grille[gdrow][gdcol]), newgr, sizeof(_Grille));
-    Grille[gdrow][gdcol].index = nGrilles;
+    Grille[gdrow][gdcol].index = newIndex;
     Grille[gdrow][gdcol].next_gd = -1;
 
-    nGrilles++;
+    if (newEntry) nGrilles++;
     if (nGrilles >= chunks_sq[cur_log_chunk]) {
         fprintf(stderr, "<c_ez_addgrid> : Message from the EZSCINT package\n");
         fprintf(stderr, "<c_ez_addgrid> : Maximum number of definable grids attained : %d\n", nGrilles);
@@ -78,7 +86,7 @@ int c_ez_addgrid(
         exit(13);
     }
 
-    if (0 == (nGrilles % chunks[cur_log_chunk])) {
+    if (newEntry && 0 == (nGrilles % chunks[cur_log_chunk])) {
         c_gdkey2rowcol(nGrilles, &gdrow, &gdcol);
         Grille[gdrow] = (_Grille *) calloc(chunks[cur_log_chunk], sizeof(_Grille));
         for (int i = 0; i < chunks[cur_log_chunk]; i++) {
@@ -89,5 +97,5 @@ int c_ez_addgrid(
 #ifdef MUTEX
     pthread_mutex_unlock(&EZ_MTX);
 #endif
-    return nGrilles - 1;
+    return newIndex;
 }
diff --git a/src/interp/ez_freegridset.c b/src/interp/ez_freegridset.c
index 904e662..31da818 100644
--- a/src/interp/ez_freegridset.c
+++ b/src/interp/ez_freegridset.c
@@ -25,59 +25,70 @@
 #include "ez_funcdef.h"
 
 
-int32_t c_ezfreegridset(int32_t gdid, int32_t index)
-{
-    int32_t gdrow, gdcol;
+static void freeGem(_gemgrid * const gem) {
+    if (gem->lat_rot) {
+        free(gem->lat_rot);
+        free(gem->lon_rot);
+        free(gem->sinlat_rot);
+        free(gem->coslat_rot);
+        free(gem->sinlon_rot);
+        free(gem->coslon_rot);
+        free(gem->sinlat_true);
+        free(gem->coslat_true);
+        free(gem->sinlon_true);
+        free(gem->coslon_true);
+    }
+}
+
 
+//! Forget everything that was computed to interpolate from one source grid to a target grid
+//!
+//! The entry stays in the table of the target (so that the others can still be found) and everything
+//! is computed again if it is used again.
+int32_t c_ezfreegridset(
+    //! Target grid
+    int32_t gdid,
+    //! Position, in the table of the target grid, of the entry of the source grid
+    int32_t index
+) {
+    int32_t gdrow, gdcol;
     c_gdkey2rowcol(gdid,  &gdrow,  &gdcol);
 
-    if (Grille[gdrow][gdcol].gset[index].x != NULL) {
-        free(Grille[gdrow][gdcol].gset[index].x);
-        Grille[gdrow][gdcol].gset[index].x  = NULL;
-    }
+    _gridset * const set = &Grille[gdrow][gdcol].gset[index];
+    const int32_t gdin = set->gdin;
 
-    if (Grille[gdrow][gdcol].gset[index].y) {
-        free(Grille[gdrow][gdcol].gset[index].y);
-        Grille[gdrow][gdcol].gset[index].y  = NULL;
-    }
+    free(set->x);
+    free(set->y);
+    freeGem(&set->gemin);
+    freeGem(&set->gemout);
 
-    if (Grille[gdrow][gdcol].gset[index].gemin.lat_rot) {
-        free(Grille[gdrow][gdcol].gset[index].gemin.lat_rot);
-        free(Grille[gdrow][gdcol].gset[index].gemin.lon_rot);
-        free(Grille[gdrow][gdcol].gset[index].gemin.sinlat_rot);
-        free(Grille[gdrow][gdcol].gset[index].gemin.coslat_rot);
-        free(Grille[gdrow][gdcol].gset[index].gemin.sinlon_rot);
-        free(Grille[gdrow][gdcol].gset[index].gemin.coslon_rot);
-        free(Grille[gdrow][gdcol].gset[index].gemin.sinlat_true);
-        free(Grille[gdrow][gdcol].gset[index].gemin.coslat_true);
-        free(Grille[gdrow][gdcol].gset[index].gemin.sinlon_true);
-        free(Grille[gdrow][gdcol].gset[index].gemin.coslon_true);
-        memset(&Grille[gdrow][gdcol].gset[index].gemin, (int) 0, sizeof(_gemgrid));
-    }
-
-    if (Grille[gdrow][gdcol].gset[index].gemout.lat_rot) {
-        free(Grille[gdrow][gdcol].gset[index].gemout.lat_rot);
-        free(Grille[gdrow][gdcol].gset[index].gemout.lon_rot);
-        free(Grille[gdrow][gdcol].gset[index].gemout.sinlat_rot);
-        free(Grille[gdrow][gdcol].gset[index].gemout.coslat_rot);
-        free(Grille[gdrow][gdcol].gset[index].gemout.sinlon_rot);
-        free(Grille[gdrow][gdcol].gset[index].gemout.coslon_rot);
-        free(Grille[gdrow][gdcol].gset[index].gemout.sinlat_true);
-        free(Grille[gdrow][gdcol].gset[index].gemout.coslat_true);
-        free(Grille[gdrow][gdcol].gset[index].gemout.sinlon_true);
-        free(Grille[gdrow][gdcol].gset[index].gemout.coslon_true);
-        memset(&Grille[gdrow][gdcol].gset[index].gemout, (int) 0, sizeof(_gemgrid));
-    }
+    free(set->ygrid.lat);
+    free(set->ygrid.lon);
+    free(set->ygrid.wts);
+    free(set->ygrid.mask);
+    free(set->ygrid.idx);
 
     for (int32_t i = 0; i < NZONES; i++) {
-        if (Grille[gdrow][gdcol].gset[index].zones[i].npts > 0) {
-            free(Grille[gdrow][gdcol].gset[index].zones[i].x);
-            free(Grille[gdrow][gdcol].gset[index].zones[i].y);
-            free(Grille[gdrow][gdcol].gset[index].zones[i].idx);
-            Grille[gdrow][gdcol].gset[index].zones[i].x = NULL;
-            Grille[gdrow][gdcol].gset[index].zones[i].y = NULL;
-            Grille[gdrow][gdcol].gset[index].zones[i].idx = NULL;
+        if (set->zones[i].npts > 0) {
+            free(set->zones[i].x);
+            free(set->zones[i].y);
+            free(set->zones[i].idx);
         }
     }
+
+    float * const yy[] = {
+        set->yin_maskout, set->yan_maskout,
+        set->yinlat, set->yinlon, set->yanlat, set->yanlon,
+        set->yin2yin_lat, set->yin2yin_lon, set->yan2yin_lat, set->yan2yin_lon,
+        set->yin2yan_lat, set->yin2yan_lon, set->yan2yan_lat, set->yan2yan_lon,
+        set->yin2yin_x, set->yin2yin_y, set->yan2yin_x, set->yan2yin_y,
+        set->yin2yan_x, set->yin2yan_y, set->yan2yan_x, set->yan2yan_y
+    };
+    for (size_t i = 0; i < sizeof(yy) / sizeof(yy[0]); i++) {
+        free(yy[i]);
+    }
+
+    memset(set, 0, sizeof(_gridset));
+    set->gdin = gdin;
     return 0;
 }
diff --git a/src/interp/ez_funcdef.h b/src/interp/ez_funcdef.h
index dff5a47..317a294 100644
--- a/src/interp/ez_funcdef.h
+++ b/src/interp/ez_funcdef.h
@@ -14,6 +14,7 @@ extern _Grille **gr_list;
 extern int32_t nGrilles;
 extern int32_t nGrillesMax;
 extern int32_t cur_log_chunk;
+extern int32_t grilleLibre;
 
 extern __thread int32_t nsets;
 extern __thread int32_t iset;
diff --git a/src/interp/ez_statics.c b/src/interp/ez_statics.c
index 1fc30bd..4ab1a56 100644
--- a/src/interp/ez_statics.c
+++ b/src/interp/ez_statics.c
@@ -8,6 +8,8 @@ _Grille **gr_list = NULL;
 int32_t nGrilles = 0;
 int32_t nGrillesMax = CHUNK * CHUNK;
 int32_t cur_log_chunk = 7;
+//! First of the released entries of the table of grids (linked by next_gd), -1 if there are none
+int32_t grilleLibre = -1;
 
 __thread int32_t nsets    = 0;
 __thread int32_t iset     = -1;
diff --git a/src/interp/gdrls.c b/src/interp/gdrls.c
index 2570785..cb1f7e4 100644
--- a/src/interp/gdrls.c
+++ b/src/interp/gdrls.c
@@ -32,47 +32,77 @@ extern pthread_mutex_t EZ_MTX;
 
 
 void EliminerGrille(int32_t gdid) {
+    if (gdid < 0 || gdid >= nGrilles) return;
+
 #ifdef MUTEX
     pthread_mutex_lock(&EZ_MTX);
 #endif
 
     int32_t gdrow_id, gdcol_id;
     c_gdkey2rowcol(gdid,  &gdrow_id,  &gdcol_id);
+    _Grille * const gr = &Grille[gdrow_id][gdcol_id];
 
-    if (Grille[gdrow_id][gdcol_id].access_count > 0) {
-        Grille[gdrow_id][gdcol_id].access_count--;
-    }
+    if (gr->access_count > 0 && --gr->access_count == 0) {
+        if (gr->flags & LAT) {
+            free(gr->lat);
+            free(gr->lon);
+        }
 
-    if (Grille[gdrow_id][gdcol_id].access_count == 0) {
-        if (Grille[gdrow_id][gdcol_id].flags & LAT) {
-            if (Grille[gdrow_id][gdcol_id].lat != NULL) {
-                free(Grille[gdrow_id][gdcol_id].lat);
-                free(Grille[gdrow_id][gdcol_id].lon);
-            }
+        if (gr->flags & AX) {
+            free(gr->ax);
+            free(gr->ay);
         }
 
-        if (Grille[gdrow_id][gdcol_id].flags & AX) {
-            if (Grille[gdrow_id][gdcol_id].ax != NULL) {
-                free(Grille[gdrow_id][gdcol_id].ax);
-                free(Grille[gdrow_id][gdcol_id].ay);
-            }
+        free(gr->ncx);
+        free(gr->ncy);
+        free(gr->mask);
+        free(gr->gdin_for);
+
+        // What was computed to interpolate from other grids to this one
+        if (gr->gset != NULL) {
+            for (int32_t i = 0; i < primes[gr->log_chunk_gdin]; i++) {
+                if (gr->gset[i].gdin != -1) {
+                    c_ezfreegridset(gdid, i);
+                }
             }
+            free(gr->gset);
+            gr->gset = NULL;
+        }
 
-        if (Grille[gdrow_id][gdcol_id].ncx != NULL) {
-            if (Grille[gdrow_id][gdcol_id].ncx != NULL) {
-                free(Grille[gdrow_id][gdcol_id].ncx);
-                free(Grille[gdrow_id][gdcol_id].ncy);
-           }
+        // What was computed to interpolate from this grid to others.  The list gdin_for can't be used,
+        // because it can have grids that have themselves been released (and replaced by others)
+        for (int32_t target = 0; target < nGrilles; target++) {
+            const int32_t index = ez_find_gdin_in_gset(gdid, target);
+            if (index != -1) {
+                c_ezfreegridset(target, index);
+            }
         }
 
-        for (int32_t i = 0; i < Grille[gdrow_id][gdcol_id].n_gdin_for; i++) {
-            int32_t index = ez_find_gdin_in_gset(gdid, Grille[gdrow_id][gdcol_id].gdin_for[i]);
-            c_ezfreegridset(Grille[gdrow_id][gdcol_id].gdin_for[i], index);
+        // Remove the grid, and only it, from the list of the grids that have the same hash
+        const int32_t grid_index = gr->grid_index;
+        if (gr_list[grid_index] == gr) {
+            if (gr->next_gd == -1) {
+                gr_list[grid_index] = NULL;
+            } else {
+                int32_t row, col;
+                c_gdkey2rowcol(gr->next_gd, &row, &col);
+                gr_list[grid_index] = &Grille[row][col];
+            }
+        } else {
+            _Grille * previous = gr_list[grid_index];
+            while (previous->next_gd != gdid) {
+                int32_t row, col;
+                c_gdkey2rowcol(previous->next_gd, &row, &col);
+                previous = &Grille[row][col];
+            }
+            previous->next_gd = gr->next_gd;
         }
 
-        gr_list[Grille[gdrow_id][gdcol_id].grid_index] = (_Grille *) NULL;
-        memset(&(Grille[gdrow_id][gdcol_id]), 0, sizeof(_Grille));
-        nGrilles--;
+        // The entry will be used for another grid
+        memset(gr, 0, sizeof(_Grille));
+        gr->index = -1;
+        gr->next_gd = grilleLibre;
+        grilleLibre = gdid;
     }
 
 #ifdef MUTEX
-- 
2.43.0


From 2277bfa278971e861ecf08dd5d3613bfbc0d4968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:34 +0000
Subject: [PATCH 124/178] fix: the longitudes given to interpolation (or kept
 for a grid) are not changed

---
 src/interp/ez_ll2rgd.inc  | 31 ++++++++++++++++++-------------
 src/interp/ez_llll2gd.inc | 28 +++++++++++-----------------
 2 files changed, 29 insertions(+), 30 deletions(-)

diff --git a/src/interp/ez_ll2rgd.inc b/src/interp/ez_ll2rgd.inc
index c4bd7e6..e7448a7 100644
--- a/src/interp/ez_ll2rgd.inc
+++ b/src/interp/ez_ll2rgd.inc
@@ -37,6 +37,7 @@
       real dellat, dellon, xlat0, xlon0
       real lroots(nj)
       real clat, clon
+      real, allocatable :: lon(:)
       
       integer i
       
@@ -59,6 +60,10 @@
          return
       endif
       
+      ! The longitudes of the caller (often those kept for a grid) must not be changed
+      allocate(lon(npts))
+      lon(1:npts) = xlon(1:npts)
+
       if (grtyp.eq.'A') then
          dellon = 360.0 / real(ni)
          xlon0 = 0.0
@@ -78,11 +83,11 @@
          endif
          
          do i=1,npts
-            if (xlon(i).lt.0.0) xlon(i) = xlon(i) + 360.0
+            if (lon(i).lt.0.0) lon(i) = lon(i) + 360.0
          enddo
          
          
-         call ez_llll2gd(px,py,xlat,xlon,npts,xlat0, xlon0, dellat, dellon, 0.0)
+         call ez_llll2gd(px,py,xlat,lon,npts,xlat0, xlon0, dellat, dellon, 0.0)
          return
       endif
       
@@ -105,9 +110,9 @@
          endif
          
          do i=1,npts
-            if (xlon(i).lt.0.0) xlon(i) = xlon(i) + 360.0
+            if (lon(i).lt.0.0) lon(i) = lon(i) + 360.0
          enddo
-         call ez_llll2gd(px,py,xlat,xlon,npts,xlat0, xlon0, dellat, dellon, 0.0)
+         call ez_llll2gd(px,py,xlat,lon,npts,xlat0, xlon0, dellat, dellon, 0.0)
          return
       endif
       
@@ -115,18 +120,18 @@
          dellon = 360.0 / real(ni)
          xlon0 = 0.0
          do i=1,npts
-            if (xlon(i).lt.0.0) xlon(i) = xlon(i) + 360.0
+            if (lon(i).lt.0.0) lon(i) = lon(i) + 360.0
          enddo
          if (ig1.eq.GLOBAL) then
-            call ez_ggll2gd(px,py,xlat,xlon,npts,ni,nj,ig1,lroots)
+            call ez_ggll2gd(px,py,xlat,lon,npts,ni,nj,ig1,lroots)
          else if  (ig1 .eq. NORD) then
             dellat = 90.0 / real(nj)
             xlat0 =  dellat * 0.5
-            call ez_llll2gd(px,py,xlat,xlon,npts,xlat0, xlon0, dellat, dellon, 0.0)
+            call ez_llll2gd(px,py,xlat,lon,npts,xlat0, xlon0, dellat, dellon, 0.0)
          else
             dellat = 90.0 / real(nj)
             xlat0 = -90.0 + dellat * 0.5
-            call ez_llll2gd(px,py,xlat,xlon,npts,xlat0, xlon0, dellat, dellon, 0.0)
+            call ez_llll2gd(px,py,xlat,lon,npts,xlat0, xlon0, dellat, dellon, 0.0)
          endif
          return
       endif
@@ -135,16 +140,16 @@
          call cigaxg(grtyp,xlat0,xlon0,dellat,dellon,ig1,ig2,ig3,ig4)
          
          do 10 i=1,npts
-            if (xlon(i).lt.xlon0) then
-               xlon(i) = xlon(i) + 360.0
+            if (lon(i).lt.xlon0) then
+               lon(i) = lon(i) + 360.0
             endif
-            if (xlon(i).gt.(xlon0 + ni*dellon)) then
-               xlon(i) = xlon(i) - 360.0
+            if (lon(i).gt.(xlon0 + ni*dellon)) then
+               lon(i) = lon(i) - 360.0
             endif
             
  10      continue
          
-         call ez_llll2gd(px,py,xlat,xlon,npts,xlat0,xlon0,dellat,dellon, 0.0)
+         call ez_llll2gd(px,py,xlat,lon,npts,xlat0,xlon0,dellat,dellon, 0.0)
          return
       endif
 
diff --git a/src/interp/ez_llll2gd.inc b/src/interp/ez_llll2gd.inc
index 6424bf4..0f07b1b 100644
--- a/src/interp/ez_llll2gd.inc
+++ b/src/interp/ez_llll2gd.inc
@@ -27,27 +27,21 @@
       integer npts
       real x(npts), y(npts), dlat(npts), dlon(npts)
       real xlat0, xlon0, dellat, dellon, lonref
+      real lon
       integer i
 
-      if (lonref.eq.-180.0) then
-         do i=1,npts
-            if (dlon(i).gt.180.0) then
-               dlon(i) = dlon(i) - 360.0
-            endif
-         enddo
-      else
+      ! The longitudes of the caller must not be changed
+      do i=1,npts
+         lon = dlon(i)
+         if (lonref.eq.-180.0) then
+            if (lon.gt.180.0) lon = lon - 360.0
+         else
 !    mai 2015 -correction by JP Gauthier
-         do i=1,npts
-            if (dlon(i).lt.0.0) then
-               dlon(i) = dlon(i) + 360.0
-            endif
-         enddo
-      endif
-
-      do 10 i=1,npts
-         x(i) = (dlon(i) - xlon0)/dellon + 1.0
+            if (lon.lt.0.0) lon = lon + 360.0
+         endif
+         x(i) = (lon - xlon0)/dellon + 1.0
          y(i) = (dlat(i) - xlat0)/dellat + 1.0
- 10   continue
+      enddo
 
       return
       end
-- 
2.43.0


From 860c062689a125f1988b34dd1b6357272c1c67b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:34 +0000
Subject: [PATCH 125/178] fix: cubic interpolation with polar correction from
 an E grid used axes it does not have

---
 src/interp/ez_corrval_aunord.c | 1 -
 src/interp/ez_corrval_ausud.c  | 1 -
 src/interp/ez_corrvec_aunord.c | 1 -
 src/interp/ez_corrvec_ausud.c  | 1 -
 4 files changed, 4 deletions(-)

diff --git a/src/interp/ez_corrval_aunord.c b/src/interp/ez_corrval_aunord.c
index 2e06b29..0970fb2 100644
--- a/src/interp/ez_corrval_aunord.c
+++ b/src/interp/ez_corrval_aunord.c
@@ -54,7 +54,6 @@ int32_t ez_corrval_aunord(float *zout, float *zin, int32_t gdin, int32_t gdout)
             case CUBIQUE:
             switch (lgd->grtyp[0]) {
                 case 'Z':
-                case 'E':
                 case 'G': {
                     float ay[4];
                     if  (lgd->ay[lgd->j2-1] == 90.0) {
diff --git a/src/interp/ez_corrval_ausud.c b/src/interp/ez_corrval_ausud.c
index 3f7304c..1682701 100644
--- a/src/interp/ez_corrval_ausud.c
+++ b/src/interp/ez_corrval_ausud.c
@@ -67,7 +67,6 @@ int32_t ez_corrval_ausud(float *zout, float *zin, int32_t gdin, int32_t gdout)
 	   switch (lgdin->grtyp[0])
 	     {
 	     case 'Z':
-	     case 'E':
 	     case 'G':
           if  (lgdin->ay[lgdin->j1-1] == -90.0)
              {
diff --git a/src/interp/ez_corrvec_aunord.c b/src/interp/ez_corrvec_aunord.c
index 5ba8dd6..b863400 100644
--- a/src/interp/ez_corrvec_aunord.c
+++ b/src/interp/ez_corrvec_aunord.c
@@ -65,7 +65,6 @@ int32_t ez_corrvec_aunord(float *uuout, float *vvout, float *uuin, float *vvin,
         switch (laGrille.grtyp[0])
             {
             case 'Z':
-            case 'E':
             case 'G':
             if (laGrille.ay[j1+1] == 90.0)
                 {
diff --git a/src/interp/ez_corrvec_ausud.c b/src/interp/ez_corrvec_ausud.c
index 71d9841..0f7bc66 100644
--- a/src/interp/ez_corrvec_ausud.c
+++ b/src/interp/ez_corrvec_ausud.c
@@ -62,7 +62,6 @@ int32_t ez_corrvec_ausud(float *uuout, float *vvout,
         case CUBIQUE:
             switch (laGrille.grtyp[0]) {
                 case 'Z':
-                case 'E':
                 case 'G':
                 if (laGrille.ay[0] == -90.0)
                     {
-- 
2.43.0


From 88be80ea20344551d62aead76426638714d18c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:12 +0000
Subject: [PATCH 126/178] fix: options changed to compute the mask of a
 Yin-Yang grid are all put back

---
 src/interp/ezyymint.c | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/interp/ezyymint.c b/src/interp/ezyymint.c
index 8b4c43c..d70c520 100644
--- a/src/interp/ezyymint.c
+++ b/src/interp/ezyymint.c
@@ -26,12 +26,11 @@
 
 int32_t c_ezyymint(int32_t gdout, int32_t gdin, int32_t ni, int32_t nj, float *maskout, float *dlat, float *dlon, float *yinlat, float *yinlon, int32_t *yyincount, float *yanlat, float *yanlon, int32_t *yyancount)
 {
-  int32_t ivalue,icode,i,j,k,yin_mgid;
+  int32_t icode,i,j,k,yin_mgid;
   int32_t gdrow_in, gdcol_in, mask_gdrow, mask_gdcol;
   int32_t yincount,yancount,yni,ynj;
-  float *yin_fld, global_extrap_value, local_extrap_value;
+  float *yin_fld, local_extrap_value;
   char interp_degree[32],extrap_degree[32],extrap_value[32],local_val[32];
-  char global_interp_degree[32],global_extrap_degree[32];
   
   c_gdkey2rowcol(gdin,  &gdrow_in,  &gdcol_in);
   yin_mgid=Grille[gdrow_in][gdcol_in].mymaskgrid;
@@ -41,18 +40,13 @@ int32_t c_ezyymint(int32_t gdout, int32_t gdin, int32_t ni, int32_t nj, float *m
 
   yin_fld = (float *) malloc(yni*ynj*sizeof(float));
   memset(yin_fld,0.0,yni*ynj*sizeof(float));
-  /*get original options*/
+  /* keep the original options, to put them back as they are once the masking is done */
+  const int32_t global_interp_degree = groptions.degre_interp;
+  const int32_t global_extrap_degree = groptions.degre_extrap;
+  const float global_extrap_value = groptions.valeur_extrap;
   strcpy(interp_degree,"interp_degree");
-  icode = c_ezgetopt(interp_degree,global_interp_degree);
   strcpy(extrap_degree,"extrap_degree");
   strcpy(extrap_value,"extrap_value");
-  icode = c_ezgetopt(extrap_degree,global_extrap_degree);
-  ivalue = 0;
-  if (0 == strcmp(global_extrap_degree,"value"))
-    {
-    icode = c_ezgetval(extrap_value,&global_extrap_value);
-    ivalue = 1;
-    }
   strcpy(local_val,"nearest");
   icode = c_ezsetopt(interp_degree, local_val);
 
@@ -63,12 +57,9 @@ int32_t c_ezyymint(int32_t gdout, int32_t gdin, int32_t ni, int32_t nj, float *m
   icode = c_ezdefset(gdout,yin_mgid);
   icode = c_ezsint_orig(maskout,yin_fld);
   /*masking is done,reset original interp options*/
-  icode = c_ezsetopt(interp_degree, global_interp_degree);
-    if (ivalue == 1)
-    {
-    icode = c_ezsetval(extrap_value, global_extrap_value);
-    }
-  icode = c_ezsetopt(extrap_degree, global_extrap_degree);
+  groptions.degre_interp = global_interp_degree;
+  groptions.degre_extrap = global_extrap_degree;
+  groptions.valeur_extrap = global_extrap_value;
   free(yin_fld);
 
 /* now create the destination grids */
-- 
2.43.0


From 3eb57b710e8da2a80e1d9ccf20cc777b6efc6577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:28 +0000
Subject: [PATCH 127/178] fix: positions kept for a Yin-Yang source are found
 again when the table of sets grows

---
 src/interp/ezyy_calcxy.c | 2 ++
 src/interp/ezyysint.c    | 2 ++
 src/interp/ezyyuvint.c   | 2 ++
 src/interp/ezyywdint.c   | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/interp/ezyy_calcxy.c b/src/interp/ezyy_calcxy.c
index c6e030b..da506d0 100644
--- a/src/interp/ezyy_calcxy.c
+++ b/src/interp/ezyy_calcxy.c
@@ -95,6 +95,8 @@ int32_t c_ezyy_calcxy(int32_t gdout,int32_t gdin)
         lgdout->gset[idx_gdin].yinlon = (float *) malloc(ni*nj*sizeof(float));
         icode = c_gdll(yin_gdout,lgdout->gset[idx_gdin].yinlat,lgdout->gset[idx_gdin].yinlon);
         icode = c_ezyymint(yin_gdout,yin_gdin,ni,nj,lgdout->gset[idx_gdin].yin_maskout,lgdout->gset[idx_gdin].yinlat,lgdout->gset[idx_gdin].yinlon,yin2yin_lat,yin2yin_lon,&yincount_yin,yan2yin_lat,yan2yin_lon,&yancount_yin);
+        /* The table of sets of gdout can have been reallocated */
+        idx_gdin = c_find_gdin(gdin, gdout);
         /* store the lats and lons */
         lgdout->gset[idx_gdin].yincount_yin = yincount_yin;
         lgdout->gset[idx_gdin].yancount_yin = yancount_yin;
diff --git a/src/interp/ezyysint.c b/src/interp/ezyysint.c
index 6b35449..daed3d0 100644
--- a/src/interp/ezyysint.c
+++ b/src/interp/ezyysint.c
@@ -140,6 +140,8 @@ int32_t c_ezyysint(float *zout, float *zin,int32_t gdout,int32_t gdin) {
     /* TO USE both Yin and Yang grids in Yin-yang input grid */
     /* Masquer les grilles YY input pour enlever overlap et calculer les X,Y */
     icode = c_ezyy_calcxy(gdout, gdin);
+    /* The table of sets of gdout can have been reallocated */
+    idx_gdin = c_find_gdin(gdin, gdout);
 
     /* interp yinyang to one grid */
     if (yyin == 1 && yyout == 0) {
diff --git a/src/interp/ezyyuvint.c b/src/interp/ezyyuvint.c
index cbf7f23..55e9695 100644
--- a/src/interp/ezyyuvint.c
+++ b/src/interp/ezyyuvint.c
@@ -157,6 +157,8 @@ int32_t c_ezyyuvint(float *uuout, float *vvout, float *uuin,  float *vvin, int32
   /* To use both Yin and Yang grids in Yin-yang input grid */
   /* Masquer les grilles YY input pour enlever overlap et calculer les X,Y */
   icode = c_ezyy_calcxy(gdout,gdin);
+  /* The table of sets of gdout can have been reallocated */
+  idx_gdin = c_find_gdin(gdin, gdout);
 
 /* interp yinyang to one grid */
   if (yyin == 1 && yyout == 0)
diff --git a/src/interp/ezyywdint.c b/src/interp/ezyywdint.c
index 856a99c..4f48b17 100644
--- a/src/interp/ezyywdint.c
+++ b/src/interp/ezyywdint.c
@@ -152,6 +152,8 @@ int32_t c_ezyywdint(float *uuout, float *vvout, float *uuin,  float *vvin, int32
   /* To use both Yin and Yang grids in Yin-yang input grid */
   /* Masquer les grilles YY input pour enlever overlap et calculer les X,Y */
   icode = c_ezyy_calcxy(gdout,gdin);
+  /* The table of sets of gdout can have been reallocated */
+  idx_gdin = c_find_gdin(gdin, gdout);
 
 /* interp yinyang to one grid */
   if (yyin == 1 && yyout == 0)
-- 
2.43.0


From 58305b61bf60a3e64d91ad75f4166210f8d743e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:31 +0000
Subject: [PATCH 128/178] fix: mask of a Yin-Yang source does not depend on the
 polar_correction option

---
 src/interp/ezyymint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interp/ezyymint.c b/src/interp/ezyymint.c
index d70c520..9403d99 100644
--- a/src/interp/ezyymint.c
+++ b/src/interp/ezyymint.c
@@ -44,6 +44,7 @@ int32_t c_ezyymint(int32_t gdout, int32_t gdin, int32_t ni, int32_t nj, float *m
   const int32_t global_interp_degree = groptions.degre_interp;
   const int32_t global_extrap_degree = groptions.degre_extrap;
   const float global_extrap_value = groptions.valeur_extrap;
+  const int32_t global_polar_correction = groptions.polar_correction;
   strcpy(interp_degree,"interp_degree");
   strcpy(extrap_degree,"extrap_degree");
   strcpy(extrap_value,"extrap_value");
@@ -54,12 +55,15 @@ int32_t c_ezyymint(int32_t gdout, int32_t gdin, int32_t ni, int32_t nj, float *m
   icode = c_ezsetval(extrap_value,local_extrap_value);
   strcpy(local_val,"value");
   icode = c_ezsetopt(extrap_degree, local_val);
+  /* Points outside of the grid are only set to the extrapolation value with the polar correction */
+  groptions.polar_correction = 1;
   icode = c_ezdefset(gdout,yin_mgid);
   icode = c_ezsint_orig(maskout,yin_fld);
   /*masking is done,reset original interp options*/
   groptions.degre_interp = global_interp_degree;
   groptions.degre_extrap = global_extrap_degree;
   groptions.valeur_extrap = global_extrap_value;
+  groptions.polar_correction = global_polar_correction;
   free(yin_fld);
 
 /* now create the destination grids */
-- 
2.43.0


From 741a99b7c78ff5745aba356785e4fe479063abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:32 +0000
Subject: [PATCH 129/178] fix: c_wkoffit: the kind of a short file depended on
 what was on the stack

The buffers the signatures are looked for in were not initialized: past the end
of a file shorter than 4 kB, what an earlier call had read was still there. The
closing marker of a Fortran record was compared without having been read.
---
 src/primitives/wkoffit.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/primitives/wkoffit.c b/src/primitives/wkoffit.c
index d41f806..9cea56b 100644
--- a/src/primitives/wkoffit.c
+++ b/src/primitives/wkoffit.c
@@ -236,8 +236,9 @@ static int isftnbin(
     int32_t offset;
 
     offset = lng + 4;
-    fseek(pf, offset, 0);
-    fread32(&mot, sizeof(int), 1, pf);
+    if (fseek(pf, offset, 0) != 0 || fread32(&mot, sizeof(int), 1, pf) != 1) {
+        return 0;
+    }
     if (mot == lng && lng != 0) {
         return 1;
     } else {
@@ -329,6 +330,9 @@ int32_t c_wkoffit(
         if (lngf == 0) return retour(pf, WKF_VIDE);
 
         /* positionnement et lecture au debut du fichier */
+        /* ce qui suit la fin d'un fichier plus court que les tampons ne doit ressembler a rien */
+        memset(cbuf, 0, sizeof(cbuf));
+        memset(buffer, 0, sizeof(buffer));
         fseek(pf, pos, 0);
         fread(cbuf, 1024, 1, pf);           // suite de caracteres
         fseek(pf, pos, 0);
-- 
2.43.0


From c3984a9295b66314fd367ba95712358a029ed729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:32 +0000
Subject: [PATCH 130/178] fix: c_wkoffit left short files open

Each call on a file too short to hold a GIF, RRBX or Sun raster header leaked up
to three descriptors.
---
 src/primitives/wkoffit.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/primitives/wkoffit.c b/src/primitives/wkoffit.c
index 9cea56b..a035919 100644
--- a/src/primitives/wkoffit.c
+++ b/src/primitives/wkoffit.c
@@ -582,7 +582,10 @@ static int isgif(
 
    if ( (fp = fopen( path, "rb")) == NULL ) return FALSE;
 
-   if (fread(magic, 6, 1, fp) != 1) return FALSE;
+   if (fread(magic, 6, 1, fp) != 1) {
+       fclose(fp);
+       return FALSE;
+   }
    if (strncmp( magic, IDGIF87, 6 ) == 0) status = WKF_GIF87;
    if (strncmp( magic, IDGIF89, 6 ) == 0) status = WKF_GIF89;
    fclose(fp);
@@ -686,7 +689,10 @@ static  int isrrbx(
     if( (fp = fopen( path, "rb")) == NULL ) return FALSE;
 
     // Read header
-    if ( fread32( &header, sizeof(Rrbxfile), 1, fp ) == 0 ) return FALSE;
+    if ( fread32( &header, sizeof(Rrbxfile), 1, fp ) == 0 ) {
+        fclose(fp);
+        return FALSE;
+    }
 
     fclose(fp);
 
@@ -706,7 +712,10 @@ static int issun(
     if ( (fp = fopen( path, "rb")) == NULL ) return FALSE;
 
     // Read header
-    if ( fread32( &header, sizeof(struct rasterfile), 1, fp ) == 0 ) return FALSE;
+    if ( fread32( &header, sizeof(struct rasterfile), 1, fp ) == 0 ) {
+        fclose(fp);
+        return FALSE;
+    }
 
     if ( header.ras_magic != RAS_MAGIC ) {
         fclose(fp);
-- 
2.43.0


From 39b1d60dfd9fd062336201ba3f7d4055c92876e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:32 +0000
Subject: [PATCH 131/178] fix: c_wkoffit: KMW files

The colour variant, once seen, was reported for every KMW file examined after
it, or because of an uninitialized depth; a byte 0xff ended the search for the
signature; a file with no line before the signature was read through a null
pointer.
---
 src/primitives/wkoffit.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/primitives/wkoffit.c b/src/primitives/wkoffit.c
index a035919..8f3cedf 100644
--- a/src/primitives/wkoffit.c
+++ b/src/primitives/wkoffit.c
@@ -609,9 +609,11 @@ static int get_mode(
 
      register char *data = buf;
      int32_t  curpos;
+     int c;
 
     // Verifie dans les 350 premiers caracteres si on trouve la chaine PLOT$Z qui indique un fichier KMW
-    while ( (*data = getc(fp)) != EOF && cpt++ < 350) {
+    while ( (c = getc(fp)) != EOF && cpt++ < 350) {
+        *data = (char) c;
         if ( *data == sigkmw[kmwndx] ) {
             if ( kmwndx == strlen(sigkmw) - 1) {
                 mode = 1;
@@ -632,7 +634,9 @@ static int get_mode(
     if (cpt < 10) mode = 0 ;
     if ( mode != 0 ) {
         data = (char *)rindex(buf, '\n');
-        sscanf(data - 9, "%4d%4d%1d", width, height, depth );
+        if (data != NULL && data - buf >= 9) {
+            sscanf(data - 9, "%4d%4d%1d", width, height, depth );
+        }
 
         if( mode == 1 && (*depth != 1 && *depth != 3) ) {
             *depth = 777;
@@ -671,7 +675,7 @@ static int iskmw(
     if ( (fp = fopen( path, "rb")) == NULL ) return ierr;
 
     ierr = get_mode( fp, &depth, &height, &width, &length );
-    if ( depth == 3 ) mutant_kmw = TRUE;
+    mutant_kmw = ( ierr != 0 && depth == 3 );
 
     fclose(fp) ;
 
-- 
2.43.0


From bd41f2e0a8079273055ccbb27c4159406cc425af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:32 +0000
Subject: [PATCH 132/178] fix: c_wkoffit read before the start of a blank file
 name

---
 src/primitives/wkoffit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/wkoffit.c b/src/primitives/wkoffit.c
index 8f3cedf..5ef9057 100644
--- a/src/primitives/wkoffit.c
+++ b/src/primitives/wkoffit.c
@@ -316,7 +316,7 @@ int32_t c_wkoffit(
         strncpy(nom2, filePath, longnom);
     }
     nom2[longnom] = '\0';
-    while (nom2[--longnom] == ' ') {
+    while (longnom > 0 && nom2[--longnom] == ' ') {
         nom2[longnom] = '\0';
     }
     
-- 
2.43.0


From eb3580cc0822f962faedc8f070ebfbafd23633a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:30 +0000
Subject: [PATCH 133/178] fix: compressed unsigned integers of 16 bits with
 their high bit set came back negative

---
 src/fstd98/fstd98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 72b036f..98b7fd8 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -129,7 +129,7 @@ static void memcpy_16_8(int8_t *p8, int16_t *p16, int nb) {
 
 
 static void memcpy_16_32(int32_t *p32, int16_t *p16, int nbits, int nb) {
-    int16_t mask = ~ (-1 << nbits);
+    int32_t mask = ~ (-1 << nbits);
     for (int i = 0; i < nb; i++) {
         *p32++ = *p16++ & mask;
     }
-- 
2.43.0


From 8e29f479cf9cfd5533d66cbe90212cf8bd36775f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:34 +0000
Subject: [PATCH 134/178] fix: ftn2c_string_copy read before the start of a
 blank string and past the end of a full one

---
 src/primitives/ftn2c_helper_c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/ftn2c_helper_c.c b/src/primitives/ftn2c_helper_c.c
index 9bc0c9f..870ebf9 100644
--- a/src/primitives/ftn2c_helper_c.c
+++ b/src/primitives/ftn2c_helper_c.c
@@ -35,10 +35,10 @@ int ftn2c_string_copy(
 ) {
     int i;
     // If there is a null before lsrc characters in the source string, act as if it was terminated at null
-    for (i = 0 ; src[i] != 0 && i < lsrc; i++);
+    for (i = 0 ; i < lsrc && src[i] != 0; i++);
     lsrc = i;
     // Ignore trailing blanks in source string
-    while (src[lsrc - 1] == ' ') lsrc--;
+    while (lsrc > 0 && src[lsrc - 1] == ' ') lsrc--;
     // No destination, just return trimmed source length
     if (dest == NULL) return lsrc;
     // Trimmed source longer than destination!
-- 
2.43.0


From a672aa32a25fad1b16a5ef07ea088cc8e5b27e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:34 +0000
Subject: [PATCH 135/178] fix: clib_basename took '/' for the name of any
 two-character path and lost the first character of a path without '/'

---
 src/primitives/clib_interface.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/primitives/clib_interface.c b/src/primitives/clib_interface.c
index b5db8b1..d176e51 100644
--- a/src/primitives/clib_interface.c
+++ b/src/primitives/clib_interface.c
@@ -730,16 +730,20 @@ F77_INTEGER CLIB_F77NAME(clib_basename)(
     char *defStr = " ";
     // fill destination with blanks, in case ...
     FTN2C_CSTR2FSTR(defStr, mybasename, 1, mybasename_length);
-    mybasename[0] = '/';
-    int lpath = path_length - 1;
-    if ( lpath == 1 && path[0] == '/' ) {
-        return CLIB_OK;
-    }
-    // scan backwards to find last '/' in path
-    while (lpath > 0 && path[lpath] != '/') {
-        lpath--;
+    // ignore trailing blanks
+    int path_end = path_length;
+    while (path_end > 0 && path[path_end - 1] == ' ') {
+        path_end--;
+    }
+    int base = 0;
+    if (path_end > 1 || path[0] != '/') {
+        // scan backwards to find the character that follows the last '/' in path
+        base = path_end;
+        while (base > 0 && path[base - 1] != '/') {
+            base--;
+        }
     }
-    F77_INTEGER status = FTN2C_CSTR2FSTR(path + lpath + 1, mybasename, path_length - lpath - 1, mybasename_length);
+    F77_INTEGER status = FTN2C_CSTR2FSTR(path + base, mybasename, path_end - base, mybasename_length);
     return status < 0 ? CLIB_ERROR : CLIB_OK;
 }
 
-- 
2.43.0


From 0ab9d674663e35b4735d60241d1e685ad4528fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:34 +0000
Subject: [PATCH 136/178] fix: clib_mkdir_r reported success when its last
 component exists and is not a directory

---
 src/primitives/clib_interface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/clib_interface.c b/src/primitives/clib_interface.c
index d176e51..228c5f2 100644
--- a/src/primitives/clib_interface.c
+++ b/src/primitives/clib_interface.c
@@ -960,6 +960,7 @@ F77_INTEGER CLIB_F77NAME(clib_isxdigit)(
 // Source: http://niallohiggins.com/2009/01/08/mkpath-mkdir-p-alike-in-c-for-unix/
 int mkpath(char *s, mode_t mode){
     char *q, *r = NULL, *path = NULL, *up = NULL;
+    struct stat buf;
     int rv;
 
     rv = -1;
@@ -981,7 +982,7 @@ int mkpath(char *s, mode_t mode){
     if ((mkpath(up, mode) == -1) && (errno != EEXIST))
             goto out;
 
-    if ((mkdir(path, mode) == -1) && (errno != EEXIST))
+    if ((mkdir(path, mode) == -1) && (errno != EEXIST || stat(path, &buf) || !S_ISDIR(buf.st_mode)))
             rv = -1;
     else
             rv = 0;
-- 
2.43.0


From a51f39f20fd1405591841025a60e8d02403a7714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:34 +0000
Subject: [PATCH 137/178] fix: rename_c and remove_c wrote past their buffers
 with a name of 256 characters

---
 src/primitives/remove_c.c | 4 ++--
 src/primitives/rename_c.c | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/primitives/remove_c.c b/src/primitives/remove_c.c
index 8231852..c7a4804 100644
--- a/src/primitives/remove_c.c
+++ b/src/primitives/remove_c.c
@@ -31,14 +31,14 @@ int32_t f77name(remove_c)(
     const char * const filename,
     F2Cl lng1)
 {
-    char fname[256];
+    char fname[257];
 
     if (lng1 > 256) {
         Lib_Log(APP_LIBRMN,APP_ERROR,"%s: file name > 256 char\n",__func__);
         return((int32_t) -1);
     }
     int llng1 = lng1;
-    while (filename[llng1 - 1] == ' ' && llng1 > 0) llng1--;
+    while (llng1 > 0 && filename[llng1 - 1] == ' ') llng1--;
     strncpy(fname, filename, llng1);
     fname[llng1] = '\0';
     int rcode = unlink(fname);
diff --git a/src/primitives/rename_c.c b/src/primitives/rename_c.c
index 0b24cb4..af54665 100644
--- a/src/primitives/rename_c.c
+++ b/src/primitives/rename_c.c
@@ -32,7 +32,7 @@ int32_t f77name(rename_c)(
     F2Cl lng1,
     F2Cl lng2
 ) {
-    char old[256], new[256];
+    char old[257], new[257];
 
     if (lng1 > 256 || lng2 > 256) {
         Lib_Log(APP_LIBRMN,APP_ERROR,"%s: oldname or newname > 256 char\n",__func__);
@@ -40,8 +40,8 @@ int32_t f77name(rename_c)(
     }
     int llng1 = lng1;
     int llng2 = lng2;
-    while (oldname[llng1 - 1] == ' ' && llng1 > 0) llng1--;
-    while (newname[llng2 - 1] == ' ' && llng2 > 0) llng2--;
+    while (llng1 > 0 && oldname[llng1 - 1] == ' ') llng1--;
+    while (llng2 > 0 && newname[llng2 - 1] == ' ') llng2--;
     strncpy(old, oldname, llng1);
     old[llng1] = '\0';
     strncpy(new, newname, llng2);
-- 
2.43.0


From 32a4121f1e8247cc53f6fef813ba9d66d1efeb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:43 +0000
Subject: [PATCH 138/178] fix: resetenv dropped the last character of a file
 without a final newline and overwrote the variables set by its previous call

---
 src/primitives/resetenv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/primitives/resetenv.c b/src/primitives/resetenv.c
index 3aab88f..6a8dec1 100644
--- a/src/primitives/resetenv.c
+++ b/src/primitives/resetenv.c
@@ -49,8 +49,9 @@ void f77name(resetenv)()
        fclose(stream);
       exit(22);
     }
-    var[lng-1]='\0';  /* replace newline/EOF with NULL */
-    if (putenv(var) < 0)  /* modify environment variables */
+    if (var[lng-1] == '\n') var[lng-1]='\0';  /* replace newline/EOF with NULL */
+    char *entry = strdup(var);  /* putenv keeps the string it is given, this buffer is used again by the next call */
+    if (entry == NULL || putenv(entry) < 0)  /* modify environment variables */
       perror("resetenv");
     var += lng;
   }
-- 
2.43.0


From ef8f43955cede0cf062058a8eeaad4efeef09b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:52 +0000
Subject: [PATCH 139/178] fix: gdllfxy turned the y axis of a Z grid around
 when the grid's IG2 is 1

---
 src/interp/gdllfxy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp/gdllfxy.c b/src/interp/gdllfxy.c
index 04c5355..568a81a 100644
--- a/src/interp/gdllfxy.c
+++ b/src/interp/gdllfxy.c
@@ -190,7 +190,7 @@ int32_t c_gdllfxy_new(int32_t gdid, float *lat, float *lon, float *x, float *y,
          {
          indx = (int)x[i]-1;
               ytmp[i] = y[i];
-              if (gr.fst.ig[IG2] == 1)
+              if (gr.grtyp[0] == 'G' && gr.fst.ig[IG2] == 1)
                   {
                     ytmp[i] = gr.nj +1.0 - y[i];
                   }
-- 
2.43.0


From ea19f4e727d6fe51edc72e5c067b878da94b99ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:52 +0000
Subject: [PATCH 140/178] fix: a grid defined from a file with a non-zero IG4
 got a new handle at each definition

---
 src/interp/ezgdef_ffile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interp/ezgdef_ffile.c b/src/interp/ezgdef_ffile.c
index 3299050..336c320 100644
--- a/src/interp/ezgdef_ffile.c
+++ b/src/interp/ezgdef_ffile.c
@@ -74,6 +74,10 @@ int32_t c_ezgdef_ffile(
         /* problems with finding grid descriptors */
         return found;
     }
+    if (newgr.grtyp[0] == 'Y' || newgr.grtyp[0] == 'Z') {
+        // IG4 is not used to find the positional records of these grids and is always 0 in their definition
+        newgr.fst.ig[IG4] = 0;
+    }
     int32_t newgrsize = sizeof(_Grille);
     unsigned int grid_crc = ez_calc_crc((int *)&newgr, &newgrsize, newgr.ax, newgr.ay, newgr.ni, newgr.nj);
     int32_t grid_index = grid_crc % primes_sq[cur_log_chunk];
-- 
2.43.0


From c9c0304c3275a0e07ad79da08dffdc69e0b4a513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:52 +0000
Subject: [PATCH 141/178] fix: ezgdef called from Fortran with 'FILE' looked
 for the axes in memory

---
 src/interp/ezgdef.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/interp/ezgdef.c b/src/interp/ezgdef.c
index bc0a3aa..e1557b0 100644
--- a/src/interp/ezgdef.c
+++ b/src/interp/ezgdef.c
@@ -29,13 +29,19 @@ int32_t f77name(ezgdef)(int32_t *ni, int32_t *nj, char *grtyp, char *grref,
          float *ax, float *ay, F2Cl lengrtyp, F2Cl lengrref)
 {
     int32_t icode;
-    char lgrtyp[2],lgrref[2];
+    char lgrtyp[2],lgrref[5];
 
     lgrtyp[0] = grtyp[0];
     lgrtyp[1] = '\0';
 
-    lgrref[0] = grref[0];
-    lgrref[1] = '\0';
+    if (lengrref >= 4 && (0 == strncmp(grref, "FILE", 4) || 0 == strncmp(grref, "file", 4))) {
+        // The positional records are in a file
+        strncpy(lgrref, grref, 4);
+        lgrref[4] = '\0';
+    } else {
+        lgrref[0] = grref[0];
+        lgrref[1] = '\0';
+    }
 
     icode = c_ezgdef(*ni, *nj, lgrtyp, lgrref, *ig1, *ig2, *ig3, *ig4, ax, ay);
     return icode;
-- 
2.43.0


From faa202ebaf775a3d5a76e19cb4f20b5fb1f20b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:52 +0000
Subject: [PATCH 142/178] fix: a grid whose positional records can't be read
 was defined with axes made of garbage, or half-defined and given to later
 definitions

---
 src/interp/ez_lireEnrPositionnels.c | 20 +++++++++++++++++++-
 src/interp/ezgdef_ffile.c           |  3 ++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/interp/ez_lireEnrPositionnels.c b/src/interp/ez_lireEnrPositionnels.c
index 23a9516..f5cf884 100644
--- a/src/interp/ez_lireEnrPositionnels.c
+++ b/src/interp/ez_lireEnrPositionnels.c
@@ -159,6 +159,11 @@ int32_t LireEnrPositionnels(_Grille *gr, int32_t iunit, int32_t ip1, int32_t ip2
               trouve_y = 1;
               ier2 = Cles_ax;
               }
+           else
+              {
+              /* not a grid descriptor, look for the next one */
+              Cles_ax = c_fstsui(intiunit, &nix, &njx, &nkx);
+              }
            }
         else if (nix == gr->ni || gr->grtyp[0] == '#')
           {
@@ -196,6 +201,12 @@ int32_t LireEnrPositionnels(_Grille *gr, int32_t iunit, int32_t ip1, int32_t ip2
         /* read the ^> grid descriptor */
         yy = (float *)malloc(nix * sizeof(float));
         ier = f77name(fstluk)((uint32_t *)yy, &ier2, &nix, &njx, &nkx);
+        if (ier < 0)
+           {
+           fprintf(stderr,"<LireEnrPositionnels>: Error reading positional record ^>\n");
+           free(yy);
+           return -1;
+           }
         /* vercode=ig1ref */
         switch (ig1ref)
           {
@@ -264,7 +275,14 @@ int32_t LireEnrPositionnels(_Grille *gr, int32_t iunit, int32_t ip1, int32_t ip2
          ay = (float *) malloc(niy*njy*sizeof(float));
          ier = f77name(fstluk)((uint32_t *)ay, &ier1, &niy, &njy, &nky);
          ax = (float *) malloc(nix*njx*sizeof(float));
-         f77name(fstluk)((uint32_t*)ax, &ier2, &nix, &njx, &nkx);
+         if (ier >= 0) ier = f77name(fstluk)((uint32_t*)ax, &ier2, &nix, &njx, &nkx);
+         if (ier < 0)
+            {
+            fprintf(stderr,"<LireEnrPositionnels>: Error reading positional records ^^ and >>\n");
+            free(ax);
+            free(ay);
+            return -1;
+            }
          Lire_enrTicTac(gr,ax,nix*njx,ay,niy*njy,ip3,ip4);
          free(ax);
          free(ay);
diff --git a/src/interp/ezgdef_ffile.c b/src/interp/ezgdef_ffile.c
index 336c320..c0595a8 100644
--- a/src/interp/ezgdef_ffile.c
+++ b/src/interp/ezgdef_ffile.c
@@ -110,7 +110,8 @@ int32_t c_ezgdef_ffile(
             break;
     }
     if (found < 0) {
-        /* problems with reading grid descriptors */
+        /* problems with reading grid descriptors: this entry must not be found by later definitions */
+        c_gdrls(gdid);
         return found;
     }
 
-- 
2.43.0


From 25591bbba5d61932463b11c4fc081c3be948a90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:00 +0000
Subject: [PATCH 143/178] fix: the definition from a file of a Z grid on L that
 crosses the meridian of Greenwich ended the program

---
 src/interp/ez_lireEnrPositionnels.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interp/ez_lireEnrPositionnels.c b/src/interp/ez_lireEnrPositionnels.c
index f5cf884..a33ea83 100644
--- a/src/interp/ez_lireEnrPositionnels.c
+++ b/src/interp/ez_lireEnrPositionnels.c
@@ -74,7 +74,8 @@ void Lire_enrTicTac(_Grille *gr, float *ax, int32_t nixnjx, float *ay, int32_t n
         }
       break;
     }
-  if (gr->grref[0] == 'L')
+  /* An axis that goes from negative to positive longitudes has to stay as it is: it would not be increasing any more */
+  if (gr->grref[0] == 'L' && (gr->grtyp[0] == 'Y' || gr->ax[gr->ni-1] < 0.0))
       {
       for (i=0; i < gr->ni; i++)
           {
-- 
2.43.0


From b61f96cf3cb599164fbdc1bd38060d07927c39aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:45 +0000
Subject: [PATCH 144/178] fix: the definition of a grid wrote past the end of
 its x axis when the file also has a ^^ record of another length

---
 src/interp/ez_lireEnrPositionnels.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp/ez_lireEnrPositionnels.c b/src/interp/ez_lireEnrPositionnels.c
index a33ea83..12c712d 100644
--- a/src/interp/ez_lireEnrPositionnels.c
+++ b/src/interp/ez_lireEnrPositionnels.c
@@ -240,7 +240,7 @@ int32_t LireEnrPositionnels(_Grille *gr, int32_t iunit, int32_t ip1, int32_t ip2
          }
        else
          {
-          Cles_ay = c_fstsui(intiunit, &nix, &njx, &nkx);
+          Cles_ay = c_fstsui(intiunit, &niy, &njy, &nky);
          }
        }
      if (trouve_x == 0 || trouve_y == 0)
-- 
2.43.0


From 141a642b7223d62993988a35f2e814a7f604fb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:16 +0000
Subject: [PATCH 145/178] fix: no leap day is skipped going back from the end
 of a February 28

With a 365-day calendar, LeapYear_Adjust counted the February 29 of the starting
year when an interval went back from the last time step (5 s, or the hour of the
extended dates) of a February 28: the answer was a day off.
---
 src/base/moduledate.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index 6c45b1f..ff10bb6 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -944,7 +944,7 @@
           else
             ier = naetwed(tdate29f,dat,limite,print2true)
             if (tdate29f <= tdate28f) call lib_log(APP_LIBRMN,APP_ERROR,'LeapYear_Adjust_int: tdate29f < tdate28f')
-            if ((tdate2 >= tdate28f) .and. (tdate1L <= tdate29f)) then
+            if ((tdate2 > tdate28f) .and. (tdate1L <= tdate29f)) then
               ndays = ndays+inc
               tdate1L = tdate1L+addit*inc
             endif
@@ -968,7 +968,7 @@
           else
             ier = naetwed(tdate29f,dat,limite,print2true)
             if (tdate29f <= tdate28f) call lib_log(APP_LIBRMN,APP_ERROR,'LeapYear_Adjust_int: tdate29f < tdate28f')
-            if ((tdate2 >= tdate28f) .and. (tdate1L <= tdate29f)) then
+            if ((tdate2 > tdate28f) .and. (tdate1L <= tdate29f)) then
               ndays = ndays+inc
               tdate1L = tdate1L+addit*inc
             endif
-- 
2.43.0


From 08f5c2aeac3e445228f4569a82a0f86c2b23c217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:28 +0000
Subject: [PATCH 146/178] fix: a sum in the 360-day calendar that leaves the
 basic dates is right

incdatr converted the sum to a basic true date, which is refused before 1900 and
after 2235, and went on with whatever the variable held: adding a negative
interval that ends shortly before 1900 gave an unrelated stamp.
---
 src/base/moduledate.f90 | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index ff10bb6..875feab 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -1001,7 +1001,8 @@
       integer :: true2print,print2true,ier
       integer :: ye1,mo1,da1,ho1,mi1,se1,p1a(2),p1b
       integer :: ye2,mo2,da2,ho2,mi2,se2,p2a(2),p2b
-      integer :: addit,tdateL
+      integer :: addit,tdateL,jdL
+      integer, parameter :: jd1980=2444240, jd0=1721060 ! julian days of jan 1, 1980 and jan 1, 0
       integer, external :: naetwed
 
       addit=0 ! Holds a day in units of TrueDates
@@ -1138,10 +1139,14 @@
 
          ! calculate the real TrueDate
 
-         p1a(1) =  (ye1*100+mo1)*100+da1
-         p1b    = ((ho1*100+mi1)*100+se1)*100
+         ! (which may be outside of the range of the basic TrueDates)
 
-         ier = naetwed( tdateL, p1a,p1b, print2true )
+         call jdatec( jdL, ye1,mo1,da1 )
+         if (true_date_mode == 'B') then
+            tdateL = (jdL-jd1980)*17280 + ho1*720 + (mi1*60+se1)/5
+         else
+            tdateL = (jdL-jd0)*24 + ho1
+         endif
 
          ! ensure that tdate1 + CcclxDays_Adjust = tdateL
          CcclxDays_Adjust_int = ( tdateL - tdate1 ) / addit
-- 
2.43.0


From c566d5224a6d6d876d43101cd258286bc6f504a5 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 02:07:28 +0000
Subject: [PATCH 147/178] fix: an insertion refused because it does not fit in
 the jar wrote zeros up to its position, beyond the jar

---
 src/serializer/jar_mod.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializer/jar_mod.F90 b/src/serializer/jar_mod.F90
index 5111451..e441451 100644
--- a/src/serializer/jar_mod.F90
+++ b/src/serializer/jar_mod.F90
@@ -369,10 +369,10 @@ module rmn_jar
             insertion_pos = jar_instance%top                                        ! insert after data currently in jar
         endif
         if (insertion_pos < 0) return                                               ! invalid insertion position
-        if (insertion_pos > jar_instance%top) jar_content(jar_instance%top + 1 : insertion_pos) = 0 ! zero fill skipped portion
 
         size_elem = (size_bits + storage_size(jar_content(1)) - 1) / storage_size(jar_content(1))
         if (insertion_pos + size_elem > jar_instance%size_elem) return              ! jar would overflow
+        if (insertion_pos > jar_instance%top) jar_content(jar_instance%top + 1 : insertion_pos) = 0 ! zero fill skipped portion
 
         temp = C_LOC(object)
         call C_F_POINTER(temp, object_as_array, [size_elem])                        ! make what into an integer array
-- 
2.43.0


From 83458701b148274b2226605be3437b121af6c762 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 02:07:28 +0000
Subject: [PATCH 148/178] fix: a jar whose size in bytes cannot be expressed
 was created with no memory

---
 src/serializer/jar_mod.F90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serializer/jar_mod.F90 b/src/serializer/jar_mod.F90
index e441451..0d03e10 100644
--- a/src/serializer/jar_mod.F90
+++ b/src/serializer/jar_mod.F90
@@ -131,6 +131,9 @@ module rmn_jar
         ok = .false.
         if (C_ASSOCIATED(jar_instance%ptr)) return       ! error, there is already an allocated data container
 
+        ! the size in bytes has to be one that can be expressed
+        if (data_size < 0 .or. data_size > huge(data_size) / (storage_size(dummy_jar_element) / 8)) return
+
         data_size_byte = data_size * (storage_size(dummy_jar_element) / 8)
         ! size in bytes
         jar_instance%ptr = libc_malloc(data_size_byte)
-- 
2.43.0


From 151f9ab24c40923e716fa8182cb960393be0f94f Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 02:21:44 +0000
Subject: [PATCH 149/178] fix: the command that starts the server of a remote
 file was never built

---
 src/primitives/c_baseio.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index ae9068e..351f336 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2486,7 +2486,9 @@ static int fnom_rem_connect(
     char pbuf[1024];
     Lib_Log(APP_LIBRMN,APP_INFO,"%s: echo wa_server %s %s @%s | ssh %s 'bash --login 1>/dev/null 2>/dev/null'\n",__func__,FGFDT[ind].file_name,(FGFDT[ind].attr.read_only == 1)?"R/O":"R/W",cbuf,remote_host);
 
-    char remote_command[1024];
+    char remote_command[PATH_MAX + 2048];
+    snprintf(remote_command, sizeof(remote_command), "r.remote_wa_server %s %s %s %s", FGFDT[ind].file_name,
+             (FGFDT[ind].attr.read_only == 1) ? "R/O" : "R/W", cbuf, remote_host);
     Lib_Log(APP_LIBRMN,APP_INFO,"%s: r.remote_wa_server %s %s %s %s\n",__func__,FGFDT[ind].file_name,(FGFDT[ind].attr.read_only==1)?"R/O":"R/W",cbuf,remote_host);
     Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: commande passee =%s\n",__func__,remote_command);
     system(remote_command);
-- 
2.43.0


From 017b798fe3aa54fcd2569230b63e82ee7a1a27a7 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 02:21:44 +0000
Subject: [PATCH 150/178] fix: a long host name in the name of a remote file
 overflowed a buffer

---
 src/primitives/c_baseio.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 351f336..03a7d4f 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -469,6 +469,12 @@ int c_fnom(
             if (FGFDT[entry].attr.rnd) {
                 char *pos2p = strchr(lnom, ':');
                 if (pos2p != NULL) {
+                    if (pos2p - lnom >= (int) sizeof(remote_mach)) {
+                        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: host name too long in %s\n",__func__,lnom);
+                        FGFDT[entry].file_name[0] = '\0';
+                        c_fclos(liun);
+                        return -1;
+                    }
                     strncpy(remote_mach, lnom, pos2p - lnom);
                     remote_mach[pos2p - lnom] = '\0';
                     lnom = ++pos2p;
-- 
2.43.0


From 48c644f602a561940631512af3fc02ca41a952c7 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 02:21:44 +0000
Subject: [PATCH 151/178] fix: a remote file whose server does not answer is
 refused and releases its sockets

---
 src/primitives/c_baseio.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 03a7d4f..b44e9f5 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2483,6 +2483,10 @@ static int fnom_rem_connect(
     //! [in] Remote host name
     const char * const remote_host
 ) {
+    // Not connected yet
+    FGFDT[ind].fd = -1;
+    FGFDT[ind].open_flag = 0;
+
     int server_port = -1;
     char cbuf[1024];
     int fserver = bind_to_localport(&server_port, cbuf, sizeof(cbuf)-1);
@@ -2500,24 +2504,29 @@ static int fnom_rem_connect(
     system(remote_command);
 
     fd_set rfds;
-    FD_ZERO(&rfds);
-    FD_SET(fserver, &rfds);
     struct timeval tv;
     tv.tv_sec = 5;
     tv.tv_usec = 0;
 
     int fclient = -1;
     int indx = 0;
-    int isel = select(fserver + 1, &rfds, NULL, NULL, &tv);
-    if (isel) {
-        fclient = accept_from_sock(fserver);
+    int isel;
+    do {
+        FD_ZERO(&rfds);
+        FD_SET(fserver, &rfds);
+        isel = select(fserver + 1, &rfds, NULL, NULL, &tv);
+    } while (isel < 0 && errno == EINTR);
+    if (isel > 0) fclient = accept_from_sock(fserver);
+    // There is only one connection to wait for
+    close(fserver);
+    if (fclient >= 0) {
         Lib_Log(APP_LIBRMN,APP_INFO,"%s: connected to server\n",__func__);
-        FGFDT[ind].fd = -1;
-        while ((wafile[indx].file_desc != -1) && (indx < MAXWAFILES)) {
+        while ((indx < MAXWAFILES) && (wafile[indx].file_desc != -1)) {
             indx++;
         }
         if (indx == MAXWAFILES) {
             Lib_Log(APP_LIBRMN,APP_ERROR,"%s: too many open files\n",__func__);
+            close(fclient);
             return -1;
         }
 
-- 
2.43.0


From d75ce5b5fb03ce94ecad5c9517e201174bbea292 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 02:21:44 +0000
Subject: [PATCH 152/178] fix: writes to a remote file were shifted by the
 position of a subfile opened earlier

---
 src/primitives/c_baseio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index b44e9f5..ba98443 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2576,6 +2576,7 @@ static int fnom_rem_connect(
     }
 
     wafile[indx].file_desc = fclient;
+    wafile[indx].offset = 0;
     FGFDT[ind].fd = fclient;
     FGFDT[ind].open_flag = 1;
     return 0;
-- 
2.43.0


From 58d7b23e8f6f55cfee545a1b2d785a2438255624 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 02:21:44 +0000
Subject: [PATCH 153/178] fix: a connection lost while reading or writing a
 remote file returned unread words as data

---
 src/primitives/c_baseio.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index ba98443..2c25ec9 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2329,8 +2329,13 @@ static void qqcwawr(
         int nc = write_stream(FGFDT[indf].fd, (const char *)demande, 5 * sizeof(int));
         if (nc != 0) {
             Lib_Log(APP_LIBRMN,APP_ERROR,"%s: socket wrote only %i bytes to server\n",__func__,nc);
+            exit(1);
         }
         int nelm = write_stream(FGFDT[indf].fd, (const char *)buf, nwords * sizeof(int));
+        if (nelm != 0) {
+            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: could not write %d words to server, file %s\n",__func__,nwords,FGFDT[indf].file_name);
+            exit(1);
+        }
 #if defined (DEBUG)
         if (nelm == 0) Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: socket wrote %d bytes\n",__func__,nwords*sizeof(int));
 #endif
@@ -2431,8 +2436,13 @@ static void qqcward(
         int nc = write_stream(FGFDT[indf].fd, (const char *)demande, 5 * sizeof(int));
         if (nc != 0) {
             Lib_Log(APP_LIBRMN,APP_ERROR,"%s: socket wrote only %d bytes to server\n",__func__,nc);
+            exit(1);
         }
         int nelm = read_stream(FGFDT[indf].fd, (char *)buf, lnmots * sizeof(int));
+        if (nelm != lnmots * (int) sizeof(int)) {
+            Lib_Log(APP_LIBRMN,APP_ERROR,"%s: could not read %d words from server, file %s\n",__func__,lnmots,FGFDT[indf].file_name);
+            exit(1);
+        }
 #       if defined (DEBUG)
             Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: read %d bytes\n",__func__,nelm);
 #       endif
-- 
2.43.0


From 4d39ed09fe91764ab47a5a42d866b6707929388b Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 02:33:57 +0000
Subject: [PATCH 154/178] fix: a plugin unloaded twice is refused, and an
 unloaded plugin provides no function

---
 src/primitives/plugin_code.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/primitives/plugin_code.c b/src/primitives/plugin_code.c
index 7250d5a..78527e4 100644
--- a/src/primitives/plugin_code.c
+++ b/src/primitives/plugin_code.c
@@ -22,7 +22,8 @@ static int last_plugin=0;
 
 int unload_plugin(plugin *p){
   if(p == NULL) return(-1) ; // bad handle
-  if( (p - plugin_table) >= last_plugin) return(-1);  // out of table
+  if( (p - plugin_table) < 0 || (p - plugin_table) >= last_plugin) return(-1);  // out of table
+  if(p->handle == NULL) return(-1);    // already unloaded
 
   if(p->addr) free(p->addr);           // free address table if allocated
   p->addr = NULL;
@@ -86,6 +87,7 @@ plugin *load_plugin(const char *lib, int diag){
   if( (temp == NULL) && (func_nb == NULL)) {
     Lib_Log(APP_LIBRMN,APP_WARNING,"%s: no function table found in plugin %s\n",__func__,p->name);
     dlclose(p->handle);     // nothing useful, close
+    p->handle = NULL;
     free(p->name);
     p->name = NULL;
     return(NULL);
@@ -98,6 +100,7 @@ plugin *load_plugin(const char *lib, int diag){
   if (nsym == 0) {
     Lib_Log(APP_LIBRMN,APP_WARNING,"%s: no function advertised found in plugin %s\n",__func__,p->name);
     dlclose(p->handle);     // nothing useful, close
+    p->handle = NULL;
     free(p->name);
     p->name = NULL;
     return(NULL);     // no useful entry points found
@@ -184,7 +187,8 @@ void *plugin_function(const plugin *p, const char *name){
     return(NULL);   // nothing found
   }
 
-  if( (p - plugin_table) >= last_plugin) return(NULL);  // out of table
+  if( (p - plugin_table) < 0 || (p - plugin_table) >= last_plugin) return(NULL);  // out of table
+  if(p->handle == NULL) return(NULL);   // not loaded (a NULL handle would search the whole program)
 
   for(i=0 ; i<p->nentries ; i++){
     if(strcmp(name, p->symbol[i]) == 0) return(p->addr[i]) ;
-- 
2.43.0


From f74b08d891769afb6273d978cc2af765dd59b99b Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 02:33:57 +0000
Subject: [PATCH 155/178] fix: a plugin without entry_list crashed the program
 that loaded it

---
 src/primitives/plugin_code.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/plugin_code.c b/src/primitives/plugin_code.c
index 78527e4..6489496 100644
--- a/src/primitives/plugin_code.c
+++ b/src/primitives/plugin_code.c
@@ -84,7 +84,7 @@ plugin *load_plugin(const char *lib, int diag){
   nsym = 0;
   if(func_nb) nsym = (*func_nb)();                        // optional function (mainly for Fortran usage)
 
-  if( (temp == NULL) && (func_nb == NULL)) {
+  if(temp == NULL) {
     Lib_Log(APP_LIBRMN,APP_WARNING,"%s: no function table found in plugin %s\n",__func__,p->name);
     dlclose(p->handle);     // nothing useful, close
     p->handle = NULL;
-- 
2.43.0


From 7250ef75cde7f9153bd1b93b06f5b11f60a3cbf4 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 02:33:57 +0000
Subject: [PATCH 156/178] fix: a plugin loaded when memory is short is refused

---
 src/primitives/plugin_code.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/primitives/plugin_code.c b/src/primitives/plugin_code.c
index 6489496..5a3c148 100644
--- a/src/primitives/plugin_code.c
+++ b/src/primitives/plugin_code.c
@@ -69,6 +69,10 @@ plugin *load_plugin(const char *lib, int diag){
   p->ordinal = slot;
 
   p->name = (char *)malloc(strlen(lib)+1);
+  if(p->name == NULL) {
+    Lib_Log(APP_LIBRMN,APP_ERROR,"%s: cannot allocate name of plugin %s\n",__func__,lib);
+    return(NULL);
+  }
   strncpy(p->name, lib, strlen(lib)+1);
   Lib_Log(APP_LIBRMN,APP_INFO,"%s: attempting to load plugin %s (slot %d)\n",__func__,p->name,slot);
   p->handle = dlopen(p->name,RTLD_LAZY);
@@ -110,6 +114,16 @@ plugin *load_plugin(const char *lib, int diag){
   p->nentries = nsym;
   Lib_Log(APP_LIBRMN,APP_INFO,"%s: %d functions advertised in plugin %s\n",__func__,p->nentries,p->name);
   p->addr = (void *)malloc(nsym*sizeof(void *));   // allocate address table
+  if(p->addr == NULL) {
+    Lib_Log(APP_LIBRMN,APP_ERROR,"%s: cannot allocate address table of plugin %s\n",__func__,p->name);
+    dlclose(p->handle);
+    p->handle = NULL;
+    p->symbol = NULL;
+    p->nentries = 0;
+    free(p->name);
+    p->name = NULL;
+    return(NULL);
+  }
   if(slot >= last_plugin) last_plugin = slot + 1;
 
   for(i=0 ; i<nsym ; i++){
-- 
2.43.0


From fddcc12b8fede70be99e494dab4755d8629a4685 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 02:33:57 +0000
Subject: [PATCH 157/178] fix: DlClose called a null pointer when no dynamic
 loader is registered

---
 src/primitives/DlInterface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/DlInterface.c b/src/primitives/DlInterface.c
index 8bc0f5a..2610b5c 100644
--- a/src/primitives/DlInterface.c
+++ b/src/primitives/DlInterface.c
@@ -46,7 +46,7 @@ int _DlClose_(void *handle)
 {
     return -1;
 }
-static int (*P_DlClose)(void *) = NULL;
+static int (*P_DlClose)(void *) = _DlClose_;
 int DlClose(void *handle)
 {
     return ((*P_DlClose)(handle));
-- 
2.43.0


From 379371f1bfa699c927cb1a2b85e31fc0be5f007a Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 02:42:42 +0000
Subject: [PATCH 158/178] fix: reading the options in an environment variable
 cut that variable short

strtok was used on the string of the environment itself, so that a program
started later, or a second reader, only saw the first option.
---
 src/primitives/c_env_var_cracker.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/primitives/c_env_var_cracker.c b/src/primitives/c_env_var_cracker.c
index de1ac2d..fb05b3e 100644
--- a/src/primitives/c_env_var_cracker.c
+++ b/src/primitives/c_env_var_cracker.c
@@ -205,7 +205,14 @@ void c_env_var_cracker(
         return;
     }
 
-    if (strlen(option = getenv(fstoption)) == 0) {
+    if (strlen(option) == 0) {
+        return;
+    }
+
+    /* split a copy, the environment must stay as it is */
+    char * const option_copy = strdup(option);
+    if (option_copy == NULL) {
+        fprintf(stderr, "%s: cannot allocate memory for the options in %s\n", __func__, fstoption);
         return;
     }
 
@@ -214,7 +221,7 @@ void c_env_var_cracker(
 #endif
 
     /* parse options (extract variable name and values) using ";" separator */
-    char * token = strtok(option, delimiter1);
+    char * token = strtok(option_copy, delimiter1);
 
     int length = 0;
     strncpy(strings[length], token, strlen(token));
@@ -274,6 +281,10 @@ void c_env_var_cracker(
             int result = check_start_end_char(values, strlen(values));
 
             if (result == NONMATCHING) {
+                free(name);
+                free(values);
+                free(value);
+                free(option_copy);
                 return;
             }
 
@@ -325,6 +336,7 @@ void c_env_var_cracker(
         }
     }
 
+    free(option_copy);
     if (name) {
         free(name);
     }
-- 
2.43.0


From 3b541fea75b3f726852d6165b3003bfb6fdb1c51 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 02:42:42 +0000
Subject: [PATCH 159/178] fix: too many, too long or no options in an
 environment variable were stored out of bounds

---
 src/primitives/c_env_var_cracker.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/primitives/c_env_var_cracker.c b/src/primitives/c_env_var_cracker.c
index fb05b3e..371b363 100644
--- a/src/primitives/c_env_var_cracker.c
+++ b/src/primitives/c_env_var_cracker.c
@@ -224,19 +224,29 @@ void c_env_var_cracker(
     char * token = strtok(option_copy, delimiter1);
 
     int length = 0;
-    strncpy(strings[length], token, strlen(token));
-    strings[length][strlen(token)] = '\0';
-    length++;
-
+    while (token != NULL) {
+        if (length == MAXSTRINGS) {
+            fprintf(stderr, "%s: more than %d options in %s, the rest is ignored\n", __func__, MAXSTRINGS, fstoption);
+            break;
+        }
+        if (strlen(token) >= MAXLINELENGTH) {
+            fprintf(stderr, "%s: option longer than %d characters in %s ignored\n", __func__, MAXLINELENGTH - 1, fstoption);
+        } else {
+            strcpy(strings[length++], token);
+        }
+        token = strtok(0, delimiter1);
+    }
 
     char * name = (char *)malloc(MAXLINELENGTH);
     char * values = (char *)malloc(MAXLINELENGTH);
     char * value = (char *)malloc(MAXLINELENGTH);
-
-    while ((token = strtok(0, delimiter1)) != 0) {
-        strncpy(strings[length], token, strlen(token));
-        strings[length][strlen(token)] = '\0';
-        length++;
+    if (name == NULL || values == NULL || value == NULL) {
+        fprintf(stderr, "%s: cannot allocate memory for the options in %s\n", __func__, fstoption);
+        free(name);
+        free(values);
+        free(value);
+        free(option_copy);
+        return;
     }
 
     int index = 0;
-- 
2.43.0


From e19d8dda88deb7cd3b6e9af5337c91a0ebd48d1f Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 02:42:42 +0000
Subject: [PATCH 160/178] fix: an option without a value, or with a lone quote,
 crashed the reader of the options

---
 src/primitives/c_env_var_cracker.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/primitives/c_env_var_cracker.c b/src/primitives/c_env_var_cracker.c
index 371b363..630c76c 100644
--- a/src/primitives/c_env_var_cracker.c
+++ b/src/primitives/c_env_var_cracker.c
@@ -75,7 +75,7 @@ static void trimright(char *string) {
 
     if (string != NULL && string[0] != '\0') {
         string_dest = string + strlen(string) - 1;
-        while (isspace(*string_dest)) {
+        while (string_dest >= string && isspace(*string_dest)) {
             *string_dest-- = '\0';
         }
     }
@@ -96,6 +96,11 @@ int check_start_end_char(char *string, int length)
 {
     int space_count = 0;
 
+    // a single character cannot be both the opening and the closing one
+    if (length == 1 && strchr("[](){}\"'", string[0]) != NULL) {
+        return NONMATCHING;
+    }
+
     // count leading whitespaces in string
     while (isspace(string[space_count])) {
         space_count++;
@@ -253,6 +258,7 @@ void c_env_var_cracker(
     for (int i = 0; i < length; i++) {
         /* parse variable name /value using "=" separator */
         token = strtok(strings[i], delimiter2);
+        if (token == NULL) continue;    /* only '=' signs */
         strncpy(name, token, strlen(token));
 
         name[strlen(token)] = '\0';
@@ -316,6 +322,7 @@ void c_env_var_cracker(
 
                 /* parse values using "," separator */
                 token = strtok(values, delimiter3);
+                if (token == NULL) continue;    /* no value at all */
                 strncpy(value, token, strlen(token));
                 value[strlen(token)] = '\0';
 
-- 
2.43.0


From 9fdb4cb97a9ff6926a0f397f29389c6891ab1336 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 02:42:42 +0000
Subject: [PATCH 161/178] fix: the number of a quoted option value went on from
 the option before

---
 src/primitives/c_env_var_cracker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_env_var_cracker.c b/src/primitives/c_env_var_cracker.c
index 630c76c..1da4f4d 100644
--- a/src/primitives/c_env_var_cracker.c
+++ b/src/primitives/c_env_var_cracker.c
@@ -254,8 +254,8 @@ void c_env_var_cracker(
         return;
     }
 
-    int index = 0;
     for (int i = 0; i < length; i++) {
+        int index = 0;
         /* parse variable name /value using "=" separator */
         token = strtok(strings[i], delimiter2);
         if (token == NULL) continue;    /* only '=' signs */
-- 
2.43.0


From e35e9547aaec68efeed2c6962c601374e8b43d67 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 02:42:42 +0000
Subject: [PATCH 162/178] fix: more than ten pairs in DATATYPE_REMAP were
 stored beyond the table

---
 src/fstd98/fstd98.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 98b7fd8..a1d079c 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -3464,6 +3464,10 @@ void c_fst_env_var(
         }
         c_fstopc("TURBOCOMP", content, 0);
     } else if (strcasecmp(cle, "DATATYPE_REMAP") == 0) {
+        if (index > 2 * (int) (sizeof(remap_table[0]) / sizeof(remap_table[0][0]))) {
+            Lib_Log(APP_LIBFST,APP_ERROR,"%s: too many data types in DATATYPE_REMAP, %s ignored\n",__func__,content);
+            return;
+        }
         remap_table[(index-1) % 2][(index-1) / 2] = atoi(content);
         // fprintf(stderr, "Debug+ remap_table[%d][%d]=%d\n", (index-1)%2, (index-1)/2, remap_table[(index-1) % 2][(index-1) / 2]);
         nb_remap = index / 2;
-- 
2.43.0


From 1f0d35357bb70e58983858180c775df47d18d4ee Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 02:52:47 +0000
Subject: [PATCH 163/178] fix: fread16, fread32 and fread64 swapped the words
 they had not read

At the end of a file, or after an error, the part of the array that was not
read was swapped, whatever it held.
---
 src/primitives/fread32.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/primitives/fread32.c b/src/primitives/fread32.c
index b6b6b2d..e97238b 100644
--- a/src/primitives/fread32.c
+++ b/src/primitives/fread32.c
@@ -54,6 +54,8 @@ size_t fread16(
         }
 
         nr = fread(ptr, size, nitems, stream);
+        // Only what was read is to be swapped
+        n2 = (size * nr) / 2;
 
         for (int i=0; i < n2; i++) {
             *pt2 = (*pt2 >> 8) | (*pt2 << 8);
@@ -89,6 +91,8 @@ size_t fread32(
         }
 
         nr = fread(ptr, size, nitems, stream);
+        // Only what was read is to be swapped
+        n4 = (size * nr) / 4;
 
         for (int i = 0; i < n4; i++) {
             *pt4 = (*pt4 >> 24) | (*pt4 << 24) | ((*pt4 >> 8) & 0xFF00) | ((*pt4 & 0xFF00) << 8);
@@ -126,6 +130,8 @@ size_t fread64(
         }
 
         nr = fread(ptr, size, nitems, stream);
+        // Only what was read is to be swapped
+        n4 = (size * nr) / 4;
 
         for (int i = 0; i < n4; i++) {
             *pt4 = (*pt4 >> 24) | (*pt4 << 24) | ((*pt4 >> 8) & 0xFF00) | ((*pt4 & 0xFF00) << 8);
-- 
2.43.0


From ab545d6d226378f7eabe434c8a87b349e887dbd8 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 03:08:43 +0000
Subject: [PATCH 164/178] fix: a file of directives that cannot be opened
 crashed the program

---
 src/primitives/read_direct.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/read_direct.c b/src/primitives/read_direct.c
index 1d4e618..9d5cad2 100644
--- a/src/primitives/read_direct.c
+++ b/src/primitives/read_direct.c
@@ -324,7 +324,7 @@ streamd=stdin;
 if(filename != NULL) streamd=fopen(filename,"r");
 if (streamd == NULL) {
   fprintf(stderr,"process_c_callback: Cannot Open File -%s-\n",filename);
-  goto error;
+  return(1);
 }
 
 while(Verb(token)>0){ /* collect "verb" (command name) */
-- 
2.43.0


From 28f1239a5ed1b4550c194cd2ead6552c1831a743 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 03:08:43 +0000
Subject: [PATCH 165/178] fix: directives after a bad verb were ignored without
 an error

---
 src/primitives/read_direct.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/primitives/read_direct.c b/src/primitives/read_direct.c
index 9d5cad2..186df0e 100644
--- a/src/primitives/read_direct.c
+++ b/src/primitives/read_direct.c
@@ -268,6 +268,7 @@ static int Argument(char *token){
 }
 
 /* collect the verb for a command ,return token and length */
+/* return 0 when there is none left, a negative value if it is not a verb */
 static int Verb(char *token){
  int len=0;
  token[0]=Current_Char();
@@ -277,7 +278,7 @@ static int Verb(char *token){
  if((token[0]&0xFF)==0xFF){         /* EOF ? */
   if(rpnCBverbose==RPNCB_VERBOSE) fprintf(stderr,"END of directives\n");
   fclose(streamd);
-  return (-1);
+  return (0);
   }
  if( (char_type[token[0]] & 1) == 0) {  /* bad first character ? (must be letter) */
   fprintf(stderr,"Bad starting character for Verb:%c:\n",token[0]);
@@ -310,7 +311,7 @@ return(0);
 
 /* process directives from file */
 int process_c_callback(char *filename){
-int oo, errors=0;
+int oo, errors=0, verb_length;
 int i, nrange, start_of_list=0;
 int status;
 int32_t wstatus;
@@ -327,7 +328,8 @@ if (streamd == NULL) {
   return(1);
 }
 
-while(Verb(token)>0){ /* collect "verb" (command name) */
+while((verb_length=Verb(token))!=0){ /* collect "verb" (command name) */
+  if(verb_length<0) goto error;
   ARGLEN=0;
   ARGC=0;
   ARGV[0]=token;
-- 
2.43.0


From 4b45697e0dc60a7f96f4f30751f010392ded3eb3 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 03:08:43 +0000
Subject: [PATCH 166/178] fix: the end of a long line of directives was read as
 directives after an error

---
 src/primitives/read_direct.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/primitives/read_direct.c b/src/primitives/read_direct.c
index 186df0e..e43f87f 100644
--- a/src/primitives/read_direct.c
+++ b/src/primitives/read_direct.c
@@ -178,6 +178,15 @@ redo:
  cur_char_typ = char_type[cur_char] ;
 }
 
+/* skip what is left of the current line, some of which may not have been read yet */
+static void Skip_Line(){
+ while(buffer_in>buffer+1024 && *(buffer_in-1)!='\n') {
+   buffer_in=buffer+1024;
+   if(NULL != fgets(buffer_in,buffer_end-buffer_in-1,streamd)) buffer_in+=strlen(buffer_in);
+ }
+ buffer_out=buffer_in;
+}
+
 /* get current input character, do not bump input pointer, if buffer empty, fill it */
 static unsigned int Current_Char(){
 
@@ -472,7 +481,7 @@ while((verb_length=Verb(token))!=0){ /* collect "verb" (command name) */
 continue;
 error: fprintf(stderr,"skipping rest of line\n");
   errors++;
-  buffer_out=buffer_in;
+  Skip_Line();
   start_of_list=0;
   if(abort_on_error) return(errors);
 }  /* while verb */
-- 
2.43.0


From d03e974edd3fb0fe7bab97631d4ce173e36bcc77 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 03:08:43 +0000
Subject: [PATCH 167/178] fix: characters beyond 127 and the end of file in a
 directive were looked up before the table

---
 src/primitives/read_direct.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/primitives/read_direct.c b/src/primitives/read_direct.c
index e43f87f..fe2ee95 100644
--- a/src/primitives/read_direct.c
+++ b/src/primitives/read_direct.c
@@ -236,7 +236,7 @@ static int Argument(char *token){
  Skip_Blanks(0); Current_Char(); Skip_Blanks(0);
 
  token[0]=Current_Char();                          /* get first character */
- if( (char_type[token[0]] & 4) == 0) {             /* check that charset is OK */
+ if( (char_type[0xFF & token[0]] & 4) == 0) {             /* check that charset is OK */
    fprintf(stderr,"Bad char in token:%c:\n",token[0]);
    token[1]='\0';
    return (-1);
@@ -251,7 +251,7 @@ static int Argument(char *token){
  }
 
  if(token[0]!='"' && token[0]!='\'' && token[0]!='<') {    /* not a delimited string */
-  while ( (len < MAXTOKEN) && (char_type[token[len]=Current_Char()] & 4) ) {
+  while ( (len < MAXTOKEN) && (char_type[0xFF & (token[len]=Current_Char())] & 4) ) {
    len++;
    Next_Char(0);
   }
@@ -289,14 +289,14 @@ static int Verb(char *token){
   fclose(streamd);
   return (0);
   }
- if( (char_type[token[0]] & 1) == 0) {  /* bad first character ? (must be letter) */
+ if( (char_type[0xFF & token[0]] & 1) == 0) {  /* bad first character ? (must be letter) */
   fprintf(stderr,"Bad starting character for Verb:%c:\n",token[0]);
   return (-1);
   }
 
  len = 1;
  Next_Char(0);  /* colect rest of verb, letters + digits only */
- while ( (len < MAXTOKEN) && (char_type[token[len]=Current_Char()] & (1+2)) ) {
+ while ( (len < MAXTOKEN) && (char_type[0xFF & (token[len]=Current_Char())] & (1+2)) ) {
    len++;
    Next_Char(0);
  }
-- 
2.43.0


From 2e25828502fff248630097f2c7502efcfb1ac2b0 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 03:08:43 +0000
Subject: [PATCH 168/178] fix: text after the step of a range was stored at a
 random address

---
 src/primitives/read_direct.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/read_direct.c b/src/primitives/read_direct.c
index fe2ee95..aad026f 100644
--- a/src/primitives/read_direct.c
+++ b/src/primitives/read_direct.c
@@ -392,7 +392,7 @@ while((verb_length=Verb(token))!=0){ /* collect "verb" (command name) */
      char term;
      char pad[1024];
      int nargs;
-     nargs=sscanf(ARGV[ARGC]," > %lf , %lf , %lf%[%> ]%c",&dble0,&dble1,&dble2,pad);
+     nargs=sscanf(ARGV[ARGC]," > %lf , %lf , %lf%[%> ]%c",&dble0,&dble1,&dble2,pad,&term);
      /* printf("Range detected, nargs=%d,pad=:%s:,from %f to %f by %f\n",nargs,pad,dble0,dble1,dble2);  */
      if(nargs!=4 || pad[strlen(pad)-1]!='>') { fprintf(stderr,"bad range\n"); goto error;}
 
-- 
2.43.0


From 0a7b520b39238f0c3ead713dbcca68094b29fd98 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 03:08:43 +0000
Subject: [PATCH 169/178] fix: the count of a list of 1000 elements or more
 erased the first one

---
 src/primitives/read_direct.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/read_direct.c b/src/primitives/read_direct.c
index aad026f..5cfd8ab 100644
--- a/src/primitives/read_direct.c
+++ b/src/primitives/read_direct.c
@@ -376,7 +376,7 @@ while((verb_length=Verb(token))!=0){ /* collect "verb" (command name) */
      ARGTXT[ARGLEN+3] = '0';
      ARGTXT[ARGLEN+4] = ']';
      ARGTXT[ARGLEN+5] = '\0';
-     ARGLEN=ARGLEN+6;
+     ARGLEN=ARGLEN+8;              /* room for the 5 digits of MAXARGS */
      if(start_of_list!=0) {
       fprintf(stderr,"List already open \n");
       goto error;
-- 
2.43.0


From ba954925d447f779d3c4f44acee12c246bab1742 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 03:08:43 +0000
Subject: [PATCH 170/178] fix: blanks at the start of a line, or where a long
 line is cut, were taken as characters of a directive

---
 src/primitives/read_direct.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/primitives/read_direct.c b/src/primitives/read_direct.c
index 5cfd8ab..b8be1e5 100644
--- a/src/primitives/read_direct.c
+++ b/src/primitives/read_direct.c
@@ -229,11 +229,15 @@ char_type['\''] = 4+64;                     /* TOKEN + SEPAR */
 }
 
 /* collect an argument for a command ,return token and length */
+static void Skip_All_Blanks(){
+ /* skip blanks, even through newlines */
+ while(Current_Char()!=0xFF && cur_char_typ==0) buffer_out++;
+}
+
 static int Argument(char *token){
  int len=0; char tmp_char;
 
- /* Skip blanks, even through a newline */
- Skip_Blanks(0); Current_Char(); Skip_Blanks(0);
+ Skip_All_Blanks();
 
  token[0]=Current_Char();                          /* get first character */
  if( (char_type[0xFF & token[0]] & 4) == 0) {             /* check that charset is OK */
@@ -280,8 +284,7 @@ static int Argument(char *token){
 /* return 0 when there is none left, a negative value if it is not a verb */
 static int Verb(char *token){
  int len=0;
- token[0]=Current_Char();
- Skip_Blanks(0);
+ Skip_All_Blanks();
  token[0]=Current_Char();  /* get first character of verb */
 
  if((token[0]&0xFF)==0xFF){         /* EOF ? */
@@ -416,7 +419,7 @@ while((verb_length=Verb(token))!=0){ /* collect "verb" (command name) */
 
     again:
 
-    Skip_Blanks(0); Current_Char();
+    Skip_All_Blanks();
 
     if(cur_char == ']') {
      if(start_of_list==0) {
-- 
2.43.0


From feaaf487762e9501a4d090020141cfbc4fdba8b6 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 03:09:16 +0000
Subject: [PATCH 171/178] fix: an error reading a file of directives was taken
 for its end, or cut a directive in two

---
 src/primitives/read_direct.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/primitives/read_direct.c b/src/primitives/read_direct.c
index b8be1e5..7898eba 100644
--- a/src/primitives/read_direct.c
+++ b/src/primitives/read_direct.c
@@ -161,7 +161,8 @@ redo:
  buffer_in=buffer_out=buffer+1024;   /* make sure that it is possible to push back some chars */
  *buffer_in=0xFF;
 
- if(NULL != fgets(buffer_in,buffer_end-buffer_in-1,streamd))
+ /* nothing is read after a read error, as what was being read is lost */
+ if(!ferror(streamd) && NULL != fgets(buffer_in,buffer_end-buffer_in-1,streamd))
    nc=strlen(buffer_in);
  else
    nc=0;
@@ -182,7 +183,7 @@ redo:
 static void Skip_Line(){
  while(buffer_in>buffer+1024 && *(buffer_in-1)!='\n') {
    buffer_in=buffer+1024;
-   if(NULL != fgets(buffer_in,buffer_end-buffer_in-1,streamd)) buffer_in+=strlen(buffer_in);
+   if(!ferror(streamd) && NULL != fgets(buffer_in,buffer_end-buffer_in-1,streamd)) buffer_in+=strlen(buffer_in);
  }
  buffer_out=buffer_in;
 }
@@ -289,7 +290,6 @@ static int Verb(char *token){
 
  if((token[0]&0xFF)==0xFF){         /* EOF ? */
   if(rpnCBverbose==RPNCB_VERBOSE) fprintf(stderr,"END of directives\n");
-  fclose(streamd);
   return (0);
   }
  if( (char_type[0xFF & token[0]] & 1) == 0) {  /* bad first character ? (must be letter) */
@@ -488,6 +488,11 @@ error: fprintf(stderr,"skipping rest of line\n");
   start_of_list=0;
   if(abort_on_error) return(errors);
 }  /* while verb */
+if(ferror(streamd)) {
+  fprintf(stderr,"process_c_callback: read error in file of directives\n");
+  errors++;
+}
+fclose(streamd);
 return (errors);
 }
 
-- 
2.43.0


From 715dd12b64b6813a51550ada78e8240c7d93e6f3 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 03:09:16 +0000
Subject: [PATCH 172/178] fix: the arguments of a directive for a FORTRAN
 routine were stored without memory

---
 src/primitives/read_direct.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primitives/read_direct.c b/src/primitives/read_direct.c
index 7898eba..b942bf3 100644
--- a/src/primitives/read_direct.c
+++ b/src/primitives/read_direct.c
@@ -455,6 +455,10 @@ while((verb_length=Verb(token))!=0){ /* collect "verb" (command name) */
      max_arg_lng=arg_lng>max_arg_lng?arg_lng:max_arg_lng;
     }
     F_ARGV=(char *)malloc(max_arg_lng*(1+ARGC));  /* allocate FORTRAN string space */
+    if(F_ARGV==NULL) {
+      fprintf(stderr,"Not enough memory for the arguments\n");
+      goto error;
+    }
  
     for (i=0 ; i<max_arg_lng*(1+ARGC) ; i++) F_ARGV[i]=' ';
     temp=F_ARGV;
-- 
2.43.0


From 2c4b8ad01ee653120a276647762eb5cc19659f5d Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 03:32:09 +0000
Subject: [PATCH 173/178] fix: positions and latitudes of a northern gaussian
 grid were converted with the southern half of its axis

---
 src/interp/gdllfxy.c |  9 +++++++--
 src/interp/gdxyfll.c | 13 ++++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/interp/gdllfxy.c b/src/interp/gdllfxy.c
index 568a81a..c8c8003 100644
--- a/src/interp/gdllfxy.c
+++ b/src/interp/gdllfxy.c
@@ -96,7 +96,7 @@ int32_t c_gdllfxy_new(int32_t gdid, float *lat, float *lon, float *x, float *y,
   float *tmpx, *tmpy, *ytmp=NULL;
   float delxx, delyy;
   float dlat, dlon, swlat, swlon;
-  int32_t indx, indy;
+  int32_t indx, indy, nj_ax;
 
   _Grille gr;
 
@@ -186,6 +186,7 @@ int32_t c_gdllfxy_new(int32_t gdid, float *lat, float *lon, float *x, float *y,
       tmpx = (float *) malloc(n*sizeof(float));
       tmpy = (float *) malloc(n*sizeof(float));
       ytmp = (float *) malloc(n*sizeof(float));
+      nj_ax = (gr.grtyp[0] == 'G' && gr.fst.ig[IG1] == NORD) ? 2 * gr.nj : gr.j2;
       for (i=0; i < n; i++)
          {
          indx = (int)x[i]-1;
@@ -194,12 +195,16 @@ int32_t c_gdllfxy_new(int32_t gdid, float *lat, float *lon, float *x, float *y,
                   {
                     ytmp[i] = gr.nj +1.0 - y[i];
                   }
+              if (gr.grtyp[0] == 'G' && gr.fst.ig[IG1] == NORD)
+                  {
+                    ytmp[i] = ytmp[i] + gr.nj;     /* the axis is that of both hemispheres */
+                  }
          indy = (int)ytmp[i]-1;
 
          indx = indx < 0 ? 0 : indx;
          indy = indy < 0 ? 0 : indy;
          indx = indx > gr.ni-2 ? gr.ni-2 : indx;
-         indy = indy > gr.j2-2 ? gr.j2-2 : indy;
+         indy = indy > nj_ax-2 ? nj_ax-2 : indy;
          delxx = gr.ax[indx+1]-gr.ax[indx];
          tmpx[i] = gr.ax[indx] + ((x[i]-1.0-indx)*delxx);
 
diff --git a/src/interp/gdxyfll.c b/src/interp/gdxyfll.c
index d37592a..d19094f 100644
--- a/src/interp/gdxyfll.c
+++ b/src/interp/gdxyfll.c
@@ -73,6 +73,10 @@ int32_t c_gdxyfll_new(int32_t gdid, float *x, float *y, float *lat, float *lon,
         case 'G':
             coordonnee = RELATIF;
             nj_in =  gr.j2;
+            if (gr.grtyp[0] == 'G' && gr.fst.ig[IG1] == NORD)
+                {
+                nj_in = 2 * gr.nj;     /* the axis is that of both hemispheres */
+                }
             f77name(ez_ll2igd)(x, y, lat, lon, &npts,
                 &ni_in,&nj_in,gr.grtyp, gr.grref,
                 &gr.fst.igref[IG1], &gr.fst.igref[IG2],
@@ -82,14 +86,14 @@ int32_t c_gdxyfll_new(int32_t gdid, float *x, float *y, float *lat, float *lon,
                 {
                 for  (j=0; j < npts; j++)
                         {
-                    y[j] = y[j] - nj_in;
+                    y[j] = y[j] - gr.nj;
                     }
                 }
             if (gr.grtyp[0] == 'G' && gr.fst.ig[IG2] == 1)
         {
                 for  (j=0; j < npts; j++)
                         {
-                    y[j] = nj_in +1.0 - y[j];
+                    y[j] = gr.nj +1.0 - y[j];
                     }
                 }
         break;
@@ -141,6 +145,9 @@ int32_t c_gdxyfll_orig(int32_t gdid, float *x, float *y, float *lat, float *lon,
         case 'Z':
         case 'G':
             nj_in =  gr.j2;
+            if (gr.grtyp[0] == 'G' && gr.fst.ig[IG1] == NORD) {
+                nj_in = 2 * gr.nj;     /* the axis is that of both hemispheres */
+            }
             f77name(ez_ll2igd)(x, y, lat, lon, &npts,
                 &ni_in,&nj_in,gr.grtyp, gr.grref,
                 &gr.fst.igref[IG1], &gr.fst.igref[IG2],
@@ -148,7 +155,7 @@ int32_t c_gdxyfll_orig(int32_t gdid, float *x, float *y, float *lat, float *lon,
                 gr.ax, gr.ay, &coordonnee, 1, 1);
             if (gr.grtyp[0] == 'G' && gr.fst.ig[IG1] == 1) {
                 for (int32_t j = 0; j < npts; j++) {
-                    y[j] = y[j] - nj_in;
+                    y[j] = y[j] - gr.nj;
                 }
             }
             break;
-- 
2.43.0


From 2734cf69208beeae8c391246831009537269879f Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 03:33:20 +0000
Subject: [PATCH 174/178] fix: points of a row of a rotated grid of type E were
 given the value of its pole, when the geographic pole is on this row

---
 src/interp/ez_defzone_polenord.c | 3 ++-
 src/interp/ez_defzone_polesud.c  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/interp/ez_defzone_polenord.c b/src/interp/ez_defzone_polenord.c
index af7acb7..4d2dc87 100644
--- a/src/interp/ez_defzone_polenord.c
+++ b/src/interp/ez_defzone_polenord.c
@@ -43,7 +43,8 @@ int32_t ez_defzone_polenord(int32_t gdin, float *x, float *y, int32_t npts, _zon
     tmpidx = (int32_t  *) malloc(npts*sizeof(int32_t));
 
     nhits = 0;
-    if (Grille[gdrow_in][gdcol_in].grtyp[0] == 'Z' && Grille[gdrow_in][gdcol_in].grref[0] == 'E') {
+    if (Grille[gdrow_in][gdcol_in].grtyp[0] == 'E' ||
+        (Grille[gdrow_in][gdcol_in].grtyp[0] == 'Z' && Grille[gdrow_in][gdcol_in].grref[0] == 'E')) {
         xpolenord = 0.5 * Grille[gdrow_in][gdcol_in].ni;
         ypolenord = Grille[gdrow_in][gdcol_in].nj+0.5;
     } else {
diff --git a/src/interp/ez_defzone_polesud.c b/src/interp/ez_defzone_polesud.c
index 4e0c7e4..1e0ab4d 100644
--- a/src/interp/ez_defzone_polesud.c
+++ b/src/interp/ez_defzone_polesud.c
@@ -43,7 +43,8 @@ int32_t ez_defzone_polesud(int32_t gdin, float *x, float *y, int32_t npts, _zone
 
     nhits = 0;
 
-    if (Grille[gdrow_in][gdcol_in].grtyp[0] == 'Z' && Grille[gdrow_in][gdcol_in].grref[0] == 'E') {
+    if (Grille[gdrow_in][gdcol_in].grtyp[0] == 'E' ||
+        (Grille[gdrow_in][gdcol_in].grtyp[0] == 'Z' && Grille[gdrow_in][gdcol_in].grref[0] == 'E')) {
         xpolesud = 0.5 * Grille[gdrow_in][gdcol_in].ni;
         ypolesud = 0.5;
     } else {
-- 
2.43.0


From 2a4d7e933dcae0c7d2f982e5f537bb14fb98c149 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 03:35:40 +0000
Subject: [PATCH 175/178] fix: linear interpolation from a global irregular
 grid extrapolated between its first two rows

---
 src/interp/ez_irgdint_1_w.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp/ez_irgdint_1_w.inc b/src/interp/ez_irgdint_1_w.inc
index dd279e9..2379f42 100644
--- a/src/interp/ez_irgdint_1_w.inc
+++ b/src/interp/ez_irgdint_1_w.inc
@@ -31,10 +31,10 @@
       do n=1,npts
          limite = ni+2-wrap
          i = min(ni-2+wrap,max(1,ifix(px(n))))
-         j = min(j2-1,max(j1+1, ifix(py(n))))
+         j = min(j2-1,max(j1, ifix(py(n))))
 
          if (j.lt.0) then
-            j = j-1
+            j = max(j1,j-1)
          endif
 
          iplus1 = i+1
-- 
2.43.0


From 257b055372426b57853660cb222cb2cbaca4ce31 Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 04:10:53 +0000
Subject: [PATCH 176/178] fix: cubic interpolation round a grid that repeats
 its first column took wrong columns

On a regular grid the fourth column was the second of the grid in the
interval before the last as well, and near the poles of an irregular
grid it was the first instead of the second in the last interval.
---
 src/interp/ez_irgdint_3_wnnc.inc | 2 +-
 src/interp/ez_rgdint_3_w.inc     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp/ez_irgdint_3_wnnc.inc b/src/interp/ez_irgdint_3_wnnc.inc
index 8c9d4f9..f12650b 100644
--- a/src/interp/ez_irgdint_3_wnnc.inc
+++ b/src/interp/ez_irgdint_3_wnnc.inc
@@ -111,7 +111,7 @@
             if (i.eq.(ni-1)) then
                imoins1 = ni-2
                iplus1  = ni
-               iplus2  = 1
+               iplus2  = 2
                x1 = ax(ni-2)
                x2 = ax(ni-1)
                x3 = ax(ni)
diff --git a/src/interp/ez_rgdint_3_w.inc b/src/interp/ez_rgdint_3_w.inc
index e4c8da5..8a0fc33 100644
--- a/src/interp/ez_rgdint_3_w.inc
+++ b/src/interp/ez_rgdint_3_w.inc
@@ -84,7 +84,7 @@
             if (iplus2.eq.0) iplus2 = ni
 
             if (wrap.eq.1) then
-               if (iplus2.eq.ni) iplus2 = 2
+               if (i.eq.ni-1) iplus2 = 2
                if (imoins1.eq.ni) imoins1=ni-1
             endif
          else
-- 
2.43.0


From 497f5ea4158b8ea9e7a93f34e507c69dd07f4c6e Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 04:17:19 +0000
Subject: [PATCH 177/178] fix: nearest interpolation past the last column of a
 global grid never took the first column

---
 src/PUBLIC_INCLUDES/rmn/f_ezscint.h |  2 ++
 src/interp/ez_corrval_aunord.c      |  2 +-
 src/interp/ez_corrval_ausud.c       |  2 +-
 src/interp/ez_corrvec_aunord.c      |  4 ++--
 src/interp/ez_corrvec_ausud.c       |  4 ++--
 src/interp/ez_rgdint_0.inc          | 22 ++++++++++++++++++++++
 src/interp/gdinterp.c               |  8 ++++----
 7 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/PUBLIC_INCLUDES/rmn/f_ezscint.h b/src/PUBLIC_INCLUDES/rmn/f_ezscint.h
index 6286c86..06e179d 100644
--- a/src/PUBLIC_INCLUDES/rmn/f_ezscint.h
+++ b/src/PUBLIC_INCLUDES/rmn/f_ezscint.h
@@ -57,6 +57,8 @@ void f77name(ez_nwtncof)(float *cx, float *cy, float *ax, float *ay, int32_t *ni
                          int32_t *i1, int32_t *i2, int32_t *j1, int32_t *j2, int32_t *extension);
 void f77name(ez_rgdint_0)(float *zo, float *px, float *py, int32_t *npts, float *z,
                           int32_t *ni, int32_t *j1, int32_t *j2);
+void f77name(ez_rgdint_0_w)(float *zo, float *px, float *py, int32_t *npts, float *z,
+                            int32_t *ni, int32_t *j1, int32_t *j2, int32_t *wrap);
 void f77name(ez_rgdint_1_nw)(float *zo, float *px, float *py, int32_t *npts, float *z,
                              int32_t *ni, int32_t *j1, int32_t *j2);
 void f77name(ez_rgdint_1_w)(float *zo, float *px, float *py, int32_t *npts, float *z,
diff --git a/src/interp/ez_corrval_aunord.c b/src/interp/ez_corrval_aunord.c
index 0970fb2..d8c77c8 100644
--- a/src/interp/ez_corrval_aunord.c
+++ b/src/interp/ez_corrval_aunord.c
@@ -99,7 +99,7 @@ int32_t ez_corrval_aunord(float *zout, float *zin, int32_t gdin, int32_t gdout)
                 for (int32_t i = 0; i < npts; i++) {
                     temp_y[i] = gset->zones[AU_NORD].y[i] - (1.0 * (lgd->j2-3));
                 }
-                f77name(ez_rgdint_0)(vals,gset->zones[AU_NORD].x,temp_y,&npts,temp,&ni, (int32_t *)&un, (int32_t *)&quatre);
+                f77name(ez_rgdint_0_w)(vals,gset->zones[AU_NORD].x,temp_y,&npts,temp,&ni, (int32_t *)&un, (int32_t *)&quatre, &(lgd->extension));
                 free(temp_y);
                 break;
             }
diff --git a/src/interp/ez_corrval_ausud.c b/src/interp/ez_corrval_ausud.c
index 1682701..2728f91 100644
--- a/src/interp/ez_corrval_ausud.c
+++ b/src/interp/ez_corrval_ausud.c
@@ -119,7 +119,7 @@ int32_t ez_corrval_ausud(float *zout, float *zin, int32_t gdin, int32_t gdout)
 	     {
 	     temp_y[i] = gset->zones[AU_SUD].y[i] - (1.0*j1);
 	     }*/
-	   f77name(ez_rgdint_0)(vals,gset->zones[AU_SUD].x,gset->zones[AU_SUD].y,&npts,temp,&ni, &j1, &j2);
+	   f77name(ez_rgdint_0_w)(vals,gset->zones[AU_SUD].x,gset->zones[AU_SUD].y,&npts,temp,&ni, &j1, &j2, &(lgdin->extension));
 	   free(temp_y);
 	   break;
       }
diff --git a/src/interp/ez_corrvec_aunord.c b/src/interp/ez_corrvec_aunord.c
index b863400..a9847d9 100644
--- a/src/interp/ez_corrvec_aunord.c
+++ b/src/interp/ez_corrvec_aunord.c
@@ -116,8 +116,8 @@ int32_t ez_corrvec_aunord(float *uuout, float *vvout, float *uuin, float *vvin,
             {
             temp_y[i] = gset->zones[AU_NORD].y[i] - (1.0 * (laGrille.j2-3));
             }
-        f77name(ez_rgdint_0)(corr_uus,gset->zones[AU_NORD].x,temp_y,&npts,polar_uu_in,&ni, &un, &quatre);
-        f77name(ez_rgdint_0)(corr_vvs,gset->zones[AU_NORD].x,temp_y,&npts,polar_vv_in,&ni, &un, &quatre);
+        f77name(ez_rgdint_0_w)(corr_uus,gset->zones[AU_NORD].x,temp_y,&npts,polar_uu_in,&ni, &un, &quatre, &laGrille.extension);
+        f77name(ez_rgdint_0_w)(corr_vvs,gset->zones[AU_NORD].x,temp_y,&npts,polar_vv_in,&ni, &un, &quatre, &laGrille.extension);
         free(temp_y);
         break;
     }
diff --git a/src/interp/ez_corrvec_ausud.c b/src/interp/ez_corrvec_ausud.c
index 0f7bc66..268f02a 100644
--- a/src/interp/ez_corrvec_ausud.c
+++ b/src/interp/ez_corrvec_ausud.c
@@ -105,8 +105,8 @@ int32_t ez_corrvec_ausud(float *uuout, float *vvout,
             break;
 
         case VOISIN:
-            f77name(ez_rgdint_0)(corr_uus,gset->zones[AU_SUD].x,gset->zones[AU_SUD].y,&npts,polar_uu_in,&ni, &j1, &j2);
-            f77name(ez_rgdint_0)(corr_vvs,gset->zones[AU_SUD].x,gset->zones[AU_SUD].y,&npts,polar_vv_in,&ni, &j1, &j2);
+            f77name(ez_rgdint_0_w)(corr_uus,gset->zones[AU_SUD].x,gset->zones[AU_SUD].y,&npts,polar_uu_in,&ni, &j1, &j2, &laGrille.extension);
+            f77name(ez_rgdint_0_w)(corr_vvs,gset->zones[AU_SUD].x,gset->zones[AU_SUD].y,&npts,polar_vv_in,&ni, &j1, &j2, &laGrille.extension);
             break;
     }
 
diff --git a/src/interp/ez_rgdint_0.inc b/src/interp/ez_rgdint_0.inc
index 554b17a..73d1fe1 100644
--- a/src/interp/ez_rgdint_0.inc
+++ b/src/interp/ez_rgdint_0.inc
@@ -34,3 +34,25 @@
       return
       end
 
+! The same on a grid that goes round the globe: when its first column is not
+! repeated (wrap = 2), the columns nearest to a point past the last one are the
+! last and the first
+      subroutine ez_rgdint_0_w(zo,px,py,npts,z,ni,j1,j2,wrap)
+      implicit none
+
+      integer npts, ni, j1, j2, wrap, i, j, n
+      real zo(npts),px(npts),py(npts)
+      real z(ni,j1:j2)
+
+      do n=1,npts
+         i = nint(px(n))
+         if (wrap.eq.2 .and. i.eq.ni+1) i = 1
+         i = min(ni,max(1,i))
+         j = min(j2,max(j1,nint(py(n))))
+
+         zo(n)=z(i,j)
+      enddo
+
+      return
+      end
+
diff --git a/src/interp/gdinterp.c b/src/interp/gdinterp.c
index 30dde82..12ea584 100644
--- a/src/interp/gdinterp.c
+++ b/src/interp/gdinterp.c
@@ -136,8 +136,8 @@ int32_t c_gdinterp(float *zout, float *zin, int32_t gdin, float *x, float *y, in
         case 'G':
             switch (groptions.degre_interp) {
                 case VOISIN:
-                    f77name(ez_rgdint_0)(zout, x, y, &lnpts, zin, &Grille[gdrow_in][gdcol_in].ni,
-                        &Grille[gdrow_in][gdcol_in].j1, &Grille[gdrow_in][gdcol_in].j2);
+                    f77name(ez_rgdint_0_w)(zout, x, y, &lnpts, zin, &Grille[gdrow_in][gdcol_in].ni,
+                        &Grille[gdrow_in][gdcol_in].j1, &Grille[gdrow_in][gdcol_in].j2, &Grille[gdrow_in][gdcol_in].extension);
                 break;
 
                 case LINEAIRE:
@@ -238,9 +238,9 @@ int32_t c_gdinterp(float *zout, float *zin, int32_t gdin, float *x, float *y, in
       switch (groptions.degre_interp)
          {
          case VOISIN:
-         f77name(ez_rgdint_0)(zout,x,y,
+         f77name(ez_rgdint_0_w)(zout,x,y,
             &lnpts, zin, &Grille[gdrow_in][gdcol_in].ni,
-            &Grille[gdrow_in][gdcol_in].j1, &Grille[gdrow_in][gdcol_in].j2);
+            &Grille[gdrow_in][gdcol_in].j1, &Grille[gdrow_in][gdcol_in].j2, &Grille[gdrow_in][gdcol_in].extension);
          break;
 
          case LINEAIRE:
-- 
2.43.0


From e898260e780a32851313e9300f090d0803cf792f Mon Sep 17 00:00:00 2001
From: sim <sim@x>
Date: Thu, 19 Nov 2026 04:24:39 +0000
Subject: [PATCH 178/178] fix: interpolation in the mirrored half of a northern
 hemisphere grid used the next rows

Row numbers are negative there, and were truncated towards zero.
---
 src/interp/ez_gggdint_nw.inc     | 2 +-
 src/interp/ez_gggdint_w.inc      | 2 +-
 src/interp/ez_irgdint_1_w.inc    | 6 +-----
 src/interp/ez_irgdint_3_nw.inc   | 2 +-
 src/interp/ez_irgdint_3_w.inc    | 2 +-
 src/interp/ez_irgdint_3_wnnc.inc | 2 +-
 src/interp/ez_rgdint_1_nw.inc    | 2 +-
 src/interp/ez_rgdint_1_w.inc     | 2 +-
 src/interp/ez_rgdint_3_nw.inc    | 2 +-
 src/interp/ez_rgdint_3_w.inc     | 2 +-
 src/interp/ez_rgdint_3_wnnc.inc  | 2 +-
 11 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/interp/ez_gggdint_nw.inc b/src/interp/ez_gggdint_nw.inc
index c47919e..a6a5701 100644
--- a/src/interp/ez_gggdint_nw.inc
+++ b/src/interp/ez_gggdint_nw.inc
@@ -72,7 +72,7 @@
       
       do n=1,npts
          i = min(i2-2,max(i1+1,ifix(px(n))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
          
          dx = px(n) - i
          
diff --git a/src/interp/ez_gggdint_w.inc b/src/interp/ez_gggdint_w.inc
index 711933b..09fc8e3 100644
--- a/src/interp/ez_gggdint_w.inc
+++ b/src/interp/ez_gggdint_w.inc
@@ -87,7 +87,7 @@
          do n=1,npts
             limite = ni +2 -wrap
             i = min(ni-2+wrap,max(1,max(2-wrap,ifix(px(n)))))
-            j = min(j2-2,max(j1,ifix(py(n))))
+            j = min(j2-2,max(j1,floor(py(n))))
             
             imoins1 = i-1
             iplus1 = i+1
diff --git a/src/interp/ez_irgdint_1_w.inc b/src/interp/ez_irgdint_1_w.inc
index 2379f42..ea67d2c 100644
--- a/src/interp/ez_irgdint_1_w.inc
+++ b/src/interp/ez_irgdint_1_w.inc
@@ -31,11 +31,7 @@
       do n=1,npts
          limite = ni+2-wrap
          i = min(ni-2+wrap,max(1,ifix(px(n))))
-         j = min(j2-1,max(j1, ifix(py(n))))
-
-         if (j.lt.0) then
-            j = max(j1,j-1)
-         endif
+         j = min(j2-1,max(j1, floor(py(n))))
 
          iplus1 = i+1
 
diff --git a/src/interp/ez_irgdint_3_nw.inc b/src/interp/ez_irgdint_3_nw.inc
index a27a97e..170695f 100644
--- a/src/interp/ez_irgdint_3_nw.inc
+++ b/src/interp/ez_irgdint_3_nw.inc
@@ -88,7 +88,7 @@
       
       do n=1,npts
          i = min(i2-2,max(i1+1,ifix(px(n))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
          
          x = ax(i) + (ax(i+1)-ax(i))*(px(n)-i)
          y = ay(j) + (ay(j+1)-ay(j))*(py(n)-j)
diff --git a/src/interp/ez_irgdint_3_w.inc b/src/interp/ez_irgdint_3_w.inc
index c7eb1d4..b5fa6e2 100644
--- a/src/interp/ez_irgdint_3_w.inc
+++ b/src/interp/ez_irgdint_3_w.inc
@@ -92,7 +92,7 @@
 !zzzzzz$OMP DO PRIVATE(n)
       do n=1,npts
          i = min(ni-2+wrap,max(1,max(2-wrap,ifix(px(n)))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
          
          imoins1 = i-1
          iplus1 = i+1
diff --git a/src/interp/ez_irgdint_3_wnnc.inc b/src/interp/ez_irgdint_3_wnnc.inc
index f12650b..c13bf26 100644
--- a/src/interp/ez_irgdint_3_wnnc.inc
+++ b/src/interp/ez_irgdint_3_wnnc.inc
@@ -92,7 +92,7 @@
       limite = ni+2-wrap
       do n=1,npts
          i = min(ni-2+wrap,max(1,max(2-wrap,ifix(px(n)))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
          
          imoins1 = i-1
          iplus1 = i+1
diff --git a/src/interp/ez_rgdint_1_nw.inc b/src/interp/ez_rgdint_1_nw.inc
index 8781271..4185faf 100644
--- a/src/interp/ez_rgdint_1_nw.inc
+++ b/src/interp/ez_rgdint_1_nw.inc
@@ -29,7 +29,7 @@
 
       do n=1,npts
          i = min(ni-1,max(1,ifix(px(n))))
-         j = min(j2-1,max(j1,ifix(py(n))))
+         j = min(j2-1,max(j1,floor(py(n))))
          
          dx = px(n) - i
          dy = py(n) - j
diff --git a/src/interp/ez_rgdint_1_w.inc b/src/interp/ez_rgdint_1_w.inc
index 6006d90..320bbdf 100644
--- a/src/interp/ez_rgdint_1_w.inc
+++ b/src/interp/ez_rgdint_1_w.inc
@@ -31,7 +31,7 @@
       limite = ni +2 - wrap
       do n=1,npts
          i = min(ni-2+wrap,max(1,ifix(px(n))))
-         j = min(j2-1,max(j1,ifix(py(n))))
+         j = min(j2-1,max(j1,floor(py(n))))
          
          iplus1 = i + 1
          if (wrap.gt.0.and.(i.eq.(ni-2+wrap))) then
diff --git a/src/interp/ez_rgdint_3_nw.inc b/src/interp/ez_rgdint_3_nw.inc
index 3d6f4cf..5beb3d6 100644
--- a/src/interp/ez_rgdint_3_nw.inc
+++ b/src/interp/ez_rgdint_3_nw.inc
@@ -60,7 +60,7 @@
 
       do n=1,npts
          i = min(ni-2,max(2,ifix(px(n))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
 
          dx = px(n) - i
          dy = py(n) - j
diff --git a/src/interp/ez_rgdint_3_w.inc b/src/interp/ez_rgdint_3_w.inc
index 8a0fc33..36f3c53 100644
--- a/src/interp/ez_rgdint_3_w.inc
+++ b/src/interp/ez_rgdint_3_w.inc
@@ -71,7 +71,7 @@
 !zzzzzz$OMP DO private(n, i, j, imoins1, iplus1, iplus2, y1, y2, y3, y4)
       do n=1,npts
          i = min(ni-2+wrap,max(1,max(2-wrap,ifix(px(n)))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
 
          if (wrap.gt.0) then
             imoins1 = mod(limite+i-1,limite)
diff --git a/src/interp/ez_rgdint_3_wnnc.inc b/src/interp/ez_rgdint_3_wnnc.inc
index ad60415..3cd539f 100644
--- a/src/interp/ez_rgdint_3_wnnc.inc
+++ b/src/interp/ez_rgdint_3_wnnc.inc
@@ -71,7 +71,7 @@
 
       do n=1,npts
          i = min(ni-2+wrap,max(1,max(2-wrap,ifix(px(n)))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
 
          if (wrap.gt.0.and.(i.le.1).or.i.ge.(ni-1)) then
             imoins1 = mod(limite+i-1,limite)
-- 
2.43.0

