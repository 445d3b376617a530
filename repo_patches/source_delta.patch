From 54dd74b3e71998896550ef40b90b8731ab547f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:09 +0000
Subject: [PATCH 01/44] fix: size the per-pass error flags for the pass limit
 and one more

The array was indexed with the pass number after it had been incremented
past the limit, its allocation was not checked, and an error in a -D
expression used it before it was allocated.
---
 src/main.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index b42be44..a19a4eb 100644
--- a/src/main.c
+++ b/src/main.c
@@ -573,8 +573,10 @@ nofile:
         goto fail;
     }
 
-    bStopAtEnd = malloc((nMaxPasses+1) * sizeof(bool));
-    memset(bStopAtEnd, 0, nMaxPasses+1);	// we dont count from zero ! (for fewer code changes)
+    // we dont count from zero ! (for fewer code changes); pass 1 always runs, and
+    // the pass number goes one above the limit when "too many passes" is reported
+    i = (nMaxPasses > 1 ? nMaxPasses : 1) + 2;
+    bStopAtEnd = (bool *)zmalloc(i * sizeof(bool));
 
     /*    INITIAL SEGMENT */
 
@@ -1595,7 +1597,8 @@ int asmerr(int err, bool bAbort, const char *sText )
     else
     {
 
-        if (sErrorDef[err].bFatal)
+        /* not allocated yet while the command line is evaluated */
+        if (sErrorDef[err].bFatal && bStopAtEnd)
             bStopAtEnd[pass] = true;
 
 	pincfile = pIncfile;
-- 
2.43.0


From 8fa7c50961f2075d518237da8860bbc70e82ae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:09 +0000
Subject: [PATCH 02/44] fix: do not write error messages to a closed list file

After a pass the list file is closed, but the messages about too many
passes and missing ENDMs were still printed to it.
---
 src/main.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main.c b/src/main.c
index a19a4eb..8a9361b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -722,8 +722,10 @@ nextpass:
 
     closegenerate();
     fclose(FI_temp);
+    FI_temp = NULL;
     if (FI_listfile)
         fclose(FI_listfile);
+    FI_listfile = NULL;
 
     if (mlflag) // check if a multi-line comment is missing a terminator
         return ERROR_MISSING_COMMENT_END;
@@ -781,11 +783,9 @@ nextpass:
     }
 
     if (nMacroClosings != nMacroDeclarations) {
-        /* determine the file pointer to use */
-        FILE *error_file = (F_listfile != NULL) ? FI_listfile : stdout;
-
-    	fprintf(error_file, "premature end of file, macros opened:%d  closed:%d", nMacroDeclarations, nMacroClosings);
-        fprintf(error_file, "Aborting assembly\n");
+        /* the list file is closed by now */
+        printf("premature end of file, macros opened:%d  closed:%d\n", nMacroDeclarations, nMacroClosings);
+        printf("Aborting assembly\n");
 
         exit(ERROR_MISSING_ENDM);
     }
@@ -1626,8 +1626,8 @@ int asmerr(int err, bool bAbort, const char *sText )
             eventually I hope... [phf]
         */
 
-        /* determine the file pointer to use */
-        error_file = (F_listfile != NULL) ? FI_listfile : stdout;
+        /* determine the file pointer to use; the list file is open only during a pass */
+        error_file = (FI_listfile != NULL) ? FI_listfile : stdout;
 
         /* print first part of message, different formats offered */
 	if (pincfile != NULL)
-- 
2.43.0


From c05bf6fd0872b035a919f781d3806bc05942fac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:09 +0000
Subject: [PATCH 03/44] fix: keep messages inside the pass buffer

The terminating zero was not counted when growing the buffer, and when it
could not be grown the message was appended all the same.
---
 src/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 8a9361b..3a4c0ba 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1821,7 +1821,7 @@ void passbuffer_update(int mbindex,char *message)
     }
 
     // check if we need to grow the buffer...
-    newsizerequired=strlen(passbuffer[mbindex])+strlen(message);
+    newsizerequired=strlen(passbuffer[mbindex])+strlen(message)+1; // includes the terminating zero
     if( newsizerequired > passbuffersize[mbindex])
     {
         char *tmpalloc;
@@ -1830,7 +1830,10 @@ void passbuffer_update(int mbindex,char *message)
 
         tmpalloc = realloc(passbuffer[mbindex], newsizerequired);
         if(tmpalloc == NULL)
-           strcpy(passbuffer[0],"Insufficient memeory to extend the pass buffer. Some output was lost.\n");
+        {
+            strcpy(passbuffer[mbindex],"Insufficient memeory to extend the pass buffer. Some output was lost.\n");
+            return;
+        }
         else
         {
             passbuffer[mbindex] = tmpalloc;
-- 
2.43.0


From 0735c8cca4f42100168d86955dab7451206a3842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:09 +0000
Subject: [PATCH 04/44] fix: fail when the binary or the listing cannot be
 written

Write, seek and close errors were ignored, so dasm ended with status 0
and a truncated file, for example on a full disk.
---
 src/main.c | 18 ++++++++++++++++--
 src/ops.c  | 16 ++++++++++++----
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/main.c b/src/main.c
index 3a4c0ba..50aee37 100644
--- a/src/main.c
+++ b/src/main.c
@@ -721,11 +721,25 @@ nextpass:
     }
 
     closegenerate();
-    fclose(FI_temp);
+    i = ferror(FI_temp);
+    if (fclose(FI_temp) != 0 || i)
+    {
+        printf("Warning: Unable to write '%s'\n", F_outfile);
+        nError = ERROR_FILE_ERROR;
+    }
     FI_temp = NULL;
     if (FI_listfile)
-        fclose(FI_listfile);
+    {
+        i = ferror(FI_listfile);
+        if (fclose(FI_listfile) != 0 || i)
+        {
+            printf("Warning: Unable to write '%s'\n", F_listfile);
+            nError = ERROR_FILE_ERROR;
+        }
+    }
     FI_listfile = NULL;
+    if (nError)
+        return nError;
 
     if (mlflag) // check if a multi-line comment is missing a terminator
         return ERROR_MISSING_COMMENT_END;
diff --git a/src/ops.c b/src/ops.c
index 3321bb2..0234b5c 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1671,6 +1671,8 @@ generate(void)
                     if ( F_format == FORMAT_RAS )
                     {
                         Seekback = ftell(FI_temp);
+                        if (Seekback < 0)
+                            asmerr( ERROR_FILE_ERROR, true, NULL );
                         Seglen = 0;
                         putc(0, FI_temp);
                         putc(0, FI_temp);
@@ -1712,13 +1714,17 @@ generate(void)
                 {
                     org = Csegment->org;
                     seekpos = ftell(FI_temp);
-                    fseek(FI_temp, Seekback, 0);
+                    if (seekpos < 0 || fseek(FI_temp, Seekback, 0) != 0)
+                        asmerr( ERROR_FILE_ERROR, true, NULL );
                     putc((Seglen & 0xFF), FI_temp);
                     putc(((Seglen >> 8) & 0xFF), FI_temp);
-                    fseek(FI_temp, seekpos, 0);
+                    if (fseek(FI_temp, seekpos, 0) != 0)
+                        asmerr( ERROR_FILE_ERROR, true, NULL );
                     putc((org & 0xFF), FI_temp);
                     putc(((org >> 8) & 0xFF), FI_temp);
                     Seekback = ftell(FI_temp);
+                    if (Seekback < 0)
+                        asmerr( ERROR_FILE_ERROR, true, NULL );
                     Seglen = 0;
                     putc(0, FI_temp);
                     putc(0, FI_temp);
@@ -1753,10 +1759,12 @@ void closegenerate(void)
     {
         if ( F_format == FORMAT_RAS )
         {
-            fseek(FI_temp, Seekback, 0);
+            if (fseek(FI_temp, Seekback, 0) != 0)
+                asmerr( ERROR_FILE_ERROR, true, NULL );
             putc((Seglen & 0xFF), FI_temp);
             putc(((Seglen >> 8) & 0xFF), FI_temp);
-            fseek(FI_temp, 0L, 2);
+            if (fseek(FI_temp, 0L, 2) != 0)
+                asmerr( ERROR_FILE_ERROR, true, NULL );
         }
     }
 }
-- 
2.43.0


From ddca0005c9c5db41acc69c5e9da1d6c307354744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:09 +0000
Subject: [PATCH 05/44] fix: report when the symbol file cannot be written

---
 src/main.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 50aee37..338d23d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -389,8 +389,12 @@ static void DumpSymbolTable( int sortMode )
         FILE *fi = fopen(F_symfile, "w");
         if (fi)
         {
+            int bFailed;
+
             ShowSymbols( fi, sortMode );
-            fclose(fi);
+            bFailed = ferror(fi);
+            if (fclose(fi) != 0 || bFailed)
+                printf("Warning: Unable to write Symbol Dump file '%s'\n", F_symfile);
         }
         else
         {
-- 
2.43.0


From b09077c95e2be8897a7a08bef27e97a27d4d0e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:09 +0000
Subject: [PATCH 06/44] fix: list the symbols unsorted when there is no memory
 to sort them

The fallback for that case could not be reached, the checked allocation
ended the program in the middle of the symbol file.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 338d23d..da4a8eb 100644
--- a/src/main.c
+++ b/src/main.c
@@ -238,7 +238,7 @@ static void ShowSymbols( FILE *file, int sortMode )
 
     /* Malloc an array of pointers to data */
 
-    symArray = (SYMBOL **)ckmalloc( sizeof( SYMBOL * ) * nSymbols );
+    symArray = (SYMBOL **)malloc( sizeof( SYMBOL * ) * nSymbols );
     if ( !symArray )
     {
         fprintf( file, " (unsorted - not enough memory to sort!)\n" );
-- 
2.43.0


From 29e10a2a8a019b713d2357bcebb87d33d2bd562f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:09 +0000
Subject: [PATCH 07/44] fix: fail when a source, include or INCBIN file cannot
 be read

Read errors were taken for the end of the file and seek errors were
ignored, so the rest of an input was silently left out.
---
 src/main.c |  6 ++++++
 src/ops.c  | 20 ++++++++++++--------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/main.c b/src/main.c
index da4a8eb..e9475a4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -690,6 +690,12 @@ nextpass:
                 outlistfile(comment);
         }
 
+        if (ferror(pIncfile->fi))
+        {
+            printf("Warning: Unable to read '%s'\n", pIncfile->name);
+            asmerr( ERROR_FILE_ERROR, true, NULL );
+        }
+
         while (Reploop && Reploop->file == pIncfile)
             rmnode((void **)&Reploop, sizeof(REPLOOP));
 
diff --git a/src/ops.c b/src/ops.c
index 0234b5c..7047c74 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -603,19 +603,22 @@ v_incbin(char *str, MNEMONIC *dummy)
     if (binfile) {
         if (Redo) {
             /* optimize: don't actually read the file if not needed */
-            fseek(binfile, 0, SEEK_END);
-            Glen = ftell(binfile);
+            if (fseek(binfile, 0, SEEK_END) != 0 || (Glen = ftell(binfile)) < 0)
+                asmerr( ERROR_FILE_ERROR, true, NULL );
             generate();     /* does not access Gen[] if Redo is set */
         }
         else
         {
-            fseek(binfile, skip_bytes, SEEK_SET);
+            if (fseek(binfile, skip_bytes, SEEK_SET) != 0)
+                asmerr( ERROR_FILE_ERROR, true, NULL );
             for (;;) {
                 Glen = fread(Gen, 1, sizeof(Gen), binfile);
                 if (Glen <= 0)
                     break;
                 generate();
             }
+            if (ferror(binfile))
+                asmerr( ERROR_FILE_ERROR, true, NULL );
         }
         fclose(binfile);
     }
@@ -1368,7 +1371,8 @@ void v_end(char *str, MNEMONIC *dummy)
     while ( pIncfile->flags & INF_MACRO)
         v_endm(NULL, NULL);
 
-    fseek( pIncfile->fi, 0, SEEK_END);
+    if (fseek( pIncfile->fi, 0, SEEK_END) != 0)
+        asmerr( ERROR_FILE_ERROR, true, NULL );
 }
 
 void
@@ -1514,8 +1518,8 @@ void v_repeat(char *str, MNEMONIC *dummy)
     rp->file = pIncfile;
     if (pIncfile->flags & INF_MACRO)
         rp->seek = (long)pIncfile->strlist;
-    else
-        rp->seek = ftell(pIncfile->fi);
+    else if ((rp->seek = ftell(pIncfile->fi)) < 0)
+        asmerr( ERROR_FILE_ERROR, true, NULL );
     rp->lineno = pIncfile->lineno;
     rp->count = sym->value;
     if ((rp->flags = sym->flags) != 0) {
@@ -1538,8 +1542,8 @@ v_repend(char *str, MNEMONIC *dummy)
         if (Reploop->flags == 0 && --Reploop->count) {
             if (pIncfile->flags & INF_MACRO)
                 pIncfile->strlist = (STRLIST *)Reploop->seek;
-            else
-                fseek(pIncfile->fi,Reploop->seek,0);
+            else if (fseek(pIncfile->fi,Reploop->seek,0) != 0)
+                asmerr( ERROR_FILE_ERROR, true, NULL );
             pIncfile->lineno = Reploop->lineno;
         }
         else
-- 
2.43.0


From d349f955fe04850f9cc099f81c0d4343d6970fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:09 +0000
Subject: [PATCH 08/44] fix: leave out the skipped bytes of an INCBIN in all
 passes

Passes that do not read the file counted its whole size, so labels behind
it changed from pass to pass and some sources could not be assembled.
---
 src/ops.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ops.c b/src/ops.c
index 7047c74..bcc6fbc 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -605,6 +605,7 @@ v_incbin(char *str, MNEMONIC *dummy)
             /* optimize: don't actually read the file if not needed */
             if (fseek(binfile, 0, SEEK_END) != 0 || (Glen = ftell(binfile)) < 0)
                 asmerr( ERROR_FILE_ERROR, true, NULL );
+            Glen = (Glen > skip_bytes) ? Glen - skip_bytes : 0;
             generate();     /* does not access Gen[] if Redo is set */
         }
         else
-- 
2.43.0


From 5c6e22fdd4f7edb8ba170693389633348a8c34f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:09 +0000
Subject: [PATCH 09/44] fix: let -R remove the binary when the assembly is
 aborted

Errors that end the assembly at once left the unfinished binary behind.
---
 src/main.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index e9475a4..5041499 100644
--- a/src/main.c
+++ b/src/main.c
@@ -49,6 +49,7 @@ static const char *cleanup(char *buf, bool bDisable);
 
 MNEMONIC *parse(char *buf);
 void panic(const char *str);
+void abort_assembly(int status);
 MNEMONIC *findmne(char *str);
 void clearsegs(void);
 void clearrefs(void);
@@ -811,7 +812,7 @@ nextpass:
         printf("premature end of file, macros opened:%d  closed:%d\n", nMacroDeclarations, nMacroClosings);
         printf("Aborting assembly\n");
 
-        exit(ERROR_MISSING_ENDM);
+        abort_assembly(ERROR_MISSING_ENDM);
     }
     printf( "Complete. (%d)\n", nError);
     return nError;
@@ -1160,7 +1161,15 @@ br2:
 void panic(const char *str)
 {
     puts(str);
-    exit(1);
+    abort_assembly(1);
+}
+
+/* end with an error status; with -R the binary goes away */
+void abort_assembly(int status)
+{
+    if (bRemoveOutBin)
+        unlink(F_outfile);
+    exit(status);
 }
 
 /*
@@ -1719,7 +1728,7 @@ int asmerr(int err, bool bAbort, const char *sText )
             passbuffer_output(MSGBUF); // dump messages from this pass
             fprintf(error_file, "Aborting assembly\n");
             passbuffer_output(ERRORBUF); // time to dump the errors from this pass!
-            exit(err);
+            abort_assembly(err);
         }
     }
 
-- 
2.43.0


From 1ac43a08e079edaa54de87c25512be61a886d567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:09 +0000
Subject: [PATCH 10/44] fix: start every pass in the same state

The current segment, the ORG fill value and the LIST mode were carried
over from the end of one pass to the beginning of the next, so the result
depended on how many passes were needed.
---
 src/asm.h  | 1 +
 src/main.c | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/asm.h b/src/asm.h
index 1d58a8f..1ef3a7d 100644
--- a/src/asm.h
+++ b/src/asm.h
@@ -398,6 +398,7 @@ extern unsigned char    Fisclear;
 extern unsigned long    Plab, Pflags;
 extern char    Inclevel;
 extern char    ListMode;
+extern unsigned char OrgFill;
 extern unsigned long    Processor;
 
 /*extern unsigned int _fmode;*/
diff --git a/src/main.c b/src/main.c
index 5041499..b01de0c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -416,6 +416,8 @@ static int MainShadow(int ac, char **av, int *pSortMode )
     int argVal;
     MNEMONIC *mne;
 
+    SEGMENT *initialSegment;
+
     int oldredo = -1;
     unsigned long oldwhy = 0;
     int oldeval = 0;
@@ -589,7 +591,7 @@ nofile:
         SEGMENT *seg = (SEGMENT *)permalloc(sizeof(SEGMENT));
         seg->name = strcpy(permalloc(sizeof(ISEGNAME)), ISEGNAME);
         seg->flags= seg->rflags = seg->initflags = seg->initrflags = SF_UNKNOWN;
-        Csegment = Seglist = seg;
+        initialSegment = Seglist = seg;
     }
     /*    TOP LEVEL IF    */
     {
@@ -620,6 +622,11 @@ nextpass:
     Localdollarindex = Lastlocaldollarindex = 0;
 	SymbolCount = 0;
 
+    /* nothing but the symbols is carried over from the previous pass */
+    Csegment = initialSegment;
+    OrgFill = DEFORGFILL;
+    ListMode = 1;
+
     /*_fmode = 0x8000;*/
     FI_temp = fopen(F_outfile, "wb");
     /*_fmode = 0;*/
-- 
2.43.0


From 2acaa162e53aabb7cbeb616913969ea4009d85fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:09 +0000
Subject: [PATCH 11/44] fix: let ftohex fail on a truncated input and on read
 or write errors

A file that ended early was converted to made-up bytes, for an empty one
ftohex did not stop, and a full disk went unnoticed.
---
 src/ftohex.c | 58 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/ftohex.c b/src/ftohex.c
index a201983..f33fb3d 100644
--- a/src/ftohex.c
+++ b/src/ftohex.c
@@ -40,6 +40,7 @@
 
 void exiterr(const char *str);
 void convert(int format, FILE *in, FILE *out);
+int atend(FILE *in);
 unsigned int getwlh(FILE *in);
 void puth(unsigned char c, FILE *out);
 
@@ -67,7 +68,9 @@ main(int ac, char **av)
 	exiterr("unable to open output file");
     convert(format, infile, outfile);
     fclose(infile);
-    fclose(outfile);
+    format = ferror(outfile);
+    if (fclose(outfile) != 0 || format)
+	exiterr("unable to write output file");
 
     return 0;
 }
@@ -99,18 +102,21 @@ convert(int format, FILE *in, FILE *out)
 {
     unsigned int org = 0;
     unsigned int idx;
-    long len;
+    long len = 0;
     unsigned char buf[256];
 
-    if (format < 3)
-    org = getwlh(in);
-    if (format == 2) {
-	len = getwlh(in);
-    } else {
-	long begin = ftell(in);
-	fseek(in, 0, SEEK_END);
-	len = ftell(in) - begin;
-	fseek(in, begin, 0);
+    if (format == 3 || !atend(in)) {
+	if (format < 3)
+	    org = getwlh(in);
+	if (format == 2) {
+	    len = getwlh(in);
+	} else {
+	    long begin = ftell(in);
+	    if (begin < 0 || fseek(in, 0, SEEK_END) != 0
+		|| (len = ftell(in)) < 0 || fseek(in, begin, 0) != 0)
+		exiterr("unable to read input file");
+	    len -= begin;
+	}
     }
     for (;;) {
 	while (len > 0) {
@@ -118,7 +124,8 @@ convert(int format, FILE *in, FILE *out)
 	    register unsigned int i;
 
 	    idx = (len > PERLINE) ? PERLINE : len;
-	    fread(buf, idx, 1, in);
+	    if (fread(buf, idx, 1, in) != 1)
+		exiterr(ferror(in) ? "unable to read input file" : "unexpected end of input file");
 	    putc(':', out);
 	    puth(idx, out);
 	    puth(org >> 8, out);
@@ -137,9 +144,9 @@ convert(int format, FILE *in, FILE *out)
 	    org += idx;
 	}
 	if (format == 2) {
-	    org = getwlh(in);
-	    if (feof(in))
+	    if (atend(in))
 		break;
+	    org = getwlh(in);
 	    len = getwlh(in);
 	} else {
 	    break;
@@ -148,13 +155,28 @@ convert(int format, FILE *in, FILE *out)
     fprintf(out, ":00000001FF\r\n");
 }
 
+/* is this the end of the input? */
+int atend(FILE *in)
+{
+    int c = getc(in);
+
+    if (c == EOF) {
+	if (ferror(in))
+	    exiterr("unable to read input file");
+	return 1;
+    }
+    ungetc(c, in);
+    return 0;
+}
+
 unsigned int getwlh(FILE *in)
 {
-    unsigned int result;
+    int lo = getc(in);
+    int hi = getc(in);
 
-    result = getc(in);
-    result += getc(in) << 8;
-    return result;
+    if (lo == EOF || hi == EOF)
+	exiterr(ferror(in) ? "unable to read input file" : "unexpected end of input file");
+    return lo + (hi << 8);
 }
 
 void
-- 
2.43.0


From 26be12ec3362b36e487277c22f0fb917b24b4c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:09 +0000
Subject: [PATCH 12/44] fix: do not write a length without a hunk in output
 format 2

A source without code left two bytes in the binary that are no valid hunk.
---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index bcc6fbc..7c6e90c 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1762,7 +1762,7 @@ void closegenerate(void)
 {
     if (!Redo)
     {
-        if ( F_format == FORMAT_RAS )
+        if ( F_format == FORMAT_RAS && !Fisclear )
         {
             if (fseek(FI_temp, Seekback, 0) != 0)
                 asmerr( ERROR_FILE_ERROR, true, NULL );
-- 
2.43.0


From 40987ddb4140ff895c2ac3505e08fb71f0bd0d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:09 +0000
Subject: [PATCH 13/44] fix: list symbols in the order of the code with -T2

The order was taken from whichever pass met a symbol first, with the count
starting again in every pass, and forward referenced EQUs got none at all.
---
 src/main.c | 20 +++++++++++++++++++-
 src/ops.c  |  6 ++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index b01de0c..9f33559 100644
--- a/src/main.c
+++ b/src/main.c
@@ -53,6 +53,7 @@ void abort_assembly(int status);
 MNEMONIC *findmne(char *str);
 void clearsegs(void);
 void clearrefs(void);
+static void clearorder(unsigned long first);
 
 static unsigned int hash1(const char *str);
 static void outlistfile(const char *);
@@ -417,6 +418,7 @@ static int MainShadow(int ac, char **av, int *pSortMode )
     MNEMONIC *mne;
 
     SEGMENT *initialSegment;
+    unsigned long predefinedSymbols;
 
     int oldredo = -1;
     unsigned long oldwhy = 0;
@@ -603,6 +605,8 @@ nofile:
         Ifstack = ifs;
     }
 
+    predefinedSymbols = SymbolCount;
+
     // ready error and message buffer...
     passbuffer_clear(ERRORBUF);
     passbuffer_clear(MSGBUF);
@@ -620,7 +624,7 @@ nextpass:
     Localindex = Lastlocalindex = 0;
 
     Localdollarindex = Lastlocaldollarindex = 0;
-	SymbolCount = 0;
+	SymbolCount = predefinedSymbols;
 
     /* nothing but the symbols is carried over from the previous pass */
     Csegment = initialSegment;
@@ -795,6 +799,7 @@ nextpass:
             passbuffer_clear(MSGBUF);
 
             clearrefs();
+            clearorder(predefinedSymbols);
             clearsegs();
             goto nextpass;
         }
@@ -986,6 +991,19 @@ void clearrefs(void)
 }
 
 
+/* forget the order of all but the first symbols, the next pass finds it again */
+static void clearorder(unsigned long first)
+{
+    SYMBOL *sym;
+    int i;
+
+    for (i = 0; i < SHASHSIZE; ++i)
+        for (sym = SHash[i]; sym; sym = sym->next)
+            if (sym->order > first)
+                sym->order = 0;
+}
+
+
 
 
 static const char *cleanup(char *buf, bool bDisable)
diff --git a/src/ops.c b/src/ops.c
index 7c6e90c..3f5bb5a 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1094,6 +1094,8 @@ v_equ(char *str, MNEMONIC *dummy)
     lab = findsymbol(Av[0], strlen(Av[0]));
     if (!lab)
         lab = CreateSymbol( Av[0], strlen(Av[0]), true );
+    else if (!lab->order)
+        lab->order = ++SymbolCount;
     if (!(lab->flags & SYM_UNKNOWN))
     {
         if (sym->flags & SYM_UNKNOWN)
@@ -1147,6 +1149,8 @@ v_eqm(char *str, MNEMONIC *dummy)
     if ((lab = findsymbol(Av[0], len)) != NULL) {
         if (lab->flags & SYM_STRING)
             free(lab->string);
+        if (!lab->order)
+            lab->order = ++SymbolCount;
     }
     else
     {
@@ -1273,6 +1277,8 @@ void v_set(char *str, MNEMONIC *dummy)
     lab = findsymbol(Av[0], strlen(Av[0]));
     if (!lab)
         lab = CreateSymbol( Av[0], strlen(Av[0]), true );
+    else if (!lab->order)
+        lab->order = ++SymbolCount;
     lab->value = sym->value;
     lab->flags = sym->flags & (SYM_UNKNOWN|SYM_STRING);
     lab->string = sym->string;
-- 
2.43.0


From 9ae9b008576c24600c068ab89eddac32c978edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:09 +0000
Subject: [PATCH 14/44] fix: do not read an uninitialised buffer in SETSYM

For an argument that is not a string, what was left on the stack was
evaluated; now it is treated like the argument of SET.
---
 src/ops.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 3f5bb5a..294521b 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1306,6 +1306,8 @@ void v_setsym(char *symstr, MNEMONIC *dummy)
 
     if (sym->flags & SYM_STRING)
         strcpy(str,sym->string);
+    else
+        snprintf(str,sizeof(str),"%s",symstr);
 
     FreeSymbolList(sym);
 
-- 
2.43.0


From 77c85e67d59617bebfff8949695838fd251b832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:04 +0000
Subject: [PATCH 15/44] fix: list only a line's own bytes and address

A line without code after one that was not listed showed the bytes of the
latter, and the first lines of a pass the last address of the previous one.
---
 src/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.c b/src/main.c
index 9f33559..688bafd 100644
--- a/src/main.c
+++ b/src/main.c
@@ -630,6 +630,7 @@ nextpass:
     Csegment = initialSegment;
     OrgFill = DEFORGFILL;
     ListMode = 1;
+    Plab = Pflags = 0;
 
     /*_fmode = 0x8000;*/
     FI_temp = fopen(F_outfile, "wb");
@@ -676,6 +677,7 @@ nextpass:
 
             comment = cleanup(buf, false);
             ++pIncfile->lineno;
+            Glen = 0;       /* a line that was not listed leaves its bytes behind */
             mne = parse(buf);
 
             if (Av[1][0])
-- 
2.43.0


From d2a7ed7766224b2519ba8559ea706b7ea18c51aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:58 +0000
Subject: [PATCH 16/44] fix: make another pass when a REPEAT count is not known
 yet

The loop was silently left out if nothing else in the source called for
another pass, also when its count was never defined.
---
 src/ops.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 294521b..18f5eb2 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1502,6 +1502,10 @@ void v_repeat(char *str, MNEMONIC *dummy)
     programlabel();
     sym = eval(str, 0);
     if (sym->value == 0) {
+        if (sym->flags & SYM_UNKNOWN) {
+            ++Redo;
+            Redo_why |= REASON_REPEAT_NOT_RESOLVED;
+        }
         pushif(0);
         FreeSymbolList(sym);
         return;
-- 
2.43.0


From 5efe88e47bad4005ba69cb16f9e519a802799f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:15 +0000
Subject: [PATCH 17/44] fix: remove only the named output file with -R

---
 src/main.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 688bafd..ece3d46 100644
--- a/src/main.c
+++ b/src/main.c
@@ -411,6 +411,7 @@ static int MainShadow(int ac, char **av, int *pSortMode )
 {
     int nError = ERROR_NONE;
     bool bDoAllPasses = false;
+    bool bRemove = false;
 
     char buf[MAXLINE];
     int i;
@@ -562,7 +563,7 @@ nofile:
                 break;
 
             case 'R':
-            	bRemoveOutBin = true;
+            	bRemove = true;
                 break;
 
             case 'm':   /*  F_passes   */
@@ -582,6 +583,9 @@ nofile:
         goto fail;
     }
 
+    // not before the name of the output file is known
+    bRemoveOutBin = bRemove;
+
     // we dont count from zero ! (for fewer code changes); pass 1 always runs, and
     // the pass number goes one above the limit when "too many passes" is reported
     i = (nMaxPasses > 1 ? nMaxPasses : 1) + 2;
-- 
2.43.0


From 9773c02c150da8bdb24ab0a2b76ba0d64cde32fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:27:46 +0000
Subject: [PATCH 18/44] fix: do not assemble a line that could not be read in
 full

---
 src/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index ece3d46..4dd20b6 100644
--- a/src/main.c
+++ b/src/main.c
@@ -672,7 +672,8 @@ nextpass:
             }
             else
             {
-                if (fgets(buf, MAXLINE, pIncfile->fi) == NULL)
+                /* the rest of a line that could not be read is missing */
+                if (fgets(buf, MAXLINE, pIncfile->fi) == NULL || ferror(pIncfile->fi))
                     break;
             }
 
-- 
2.43.0


From 0fb06fb95e0746df7874d85fb7657e5e793bf653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:27:46 +0000
Subject: [PATCH 19/44] fix: do not overflow the stack with a long mnemonic

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 4dd20b6..d3be8c0 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1477,7 +1477,7 @@ MNEMONIC *findmne(char *str)
     int i;
     char c;
     MNEMONIC *mne;
-    char buf[64];
+    char buf[MAXLINE];
 
 
     if (str[0] == '.') {    /* Allow .OP for OP */
-- 
2.43.0


From dd9d6542bcca6c64f03ac5b53c5d541f9970f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:27:46 +0000
Subject: [PATCH 20/44] fix: have room for source lines of the full length

---
 src/globals.c | 2 +-
 src/main.c    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/globals.c b/src/globals.c
index 36c7bd3..868037a 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -37,7 +37,7 @@ SEGMENT *Seglist;	    /*	segment list	    */
 SEGMENT *Csegment;	    /*	current segment     */
 IFSTACK *Ifstack;	    /*	IF/ELSE/ENDIF stack */
 char	*Av[256];	    /*	up to 256 arguments */
-char	Avbuf[512];
+char	Avbuf[MAXLINE * 8];  /*  a label argument of one character may become a long number */
 unsigned char	MsbOrder = 1;
 int	Mnext;
 char	Inclevel;
diff --git a/src/main.c b/src/main.c
index d3be8c0..65c9f12 100644
--- a/src/main.c
+++ b/src/main.c
@@ -879,8 +879,8 @@ static void outlistfile(const char *comment)
 {
     char xtrue;
     char c;
-    static char buf1[MAXLINE+32];
-    static char buf2[MAXLINE+32];
+    static char buf1[MAXLINE*10];
+    static char buf2[MAXLINE*10];
     const char *ptr;
     const char *dot;
     int i, j;
-- 
2.43.0


From 6a04a7b95f82efe4af54755040ac2a660cec6a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:27:59 +0000
Subject: [PATCH 21/44] fix: have room for long operands in error messages

---
 src/exp.c  | 4 ----
 src/main.c | 2 +-
 src/ops.c  | 4 ++--
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 8e818e6..2ebee66 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -381,8 +381,6 @@ SYMBOL *eval(const char *str, int wantmode)
 		//FIX: detect illegal opc (zp),x syntax...
                 if (cur->addrmode == AM_INDWORD && str[1] == ',' && (str[2]|0x20) == 'x')
                 {
-                   char sBuffer[128];
-                   sprintf( sBuffer, "%s", str );
                    asmerr( ERROR_ILLEGAL_ADDRESSING_MODE,false, pLine );
                    ++Redo;
                    Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
@@ -479,8 +477,6 @@ SYMBOL *eval(const char *str, int wantmode)
             //FIX: detect illegal opc (zp,y) syntax...
             else if ((cur->addrmode == AM_INDWORD && scr == 'y' && str[2]==')')&&(wantmode))
             {
-                   char sBuffer[128];
-                   sprintf( sBuffer, "%s", str );
                    asmerr( ERROR_ILLEGAL_ADDRESSING_MODE,false, pLine );
                    ++Redo;
                    Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
diff --git a/src/main.c b/src/main.c
index 65c9f12..8e3222a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -70,7 +70,7 @@ void passbuffer_cleanup(void);
 int mlflag = 0; // multi-line comments
 
 static char erroradd1[500]; // temp error holders
-static char erroradd2[500];
+static char erroradd2[MAXLINE*10];
 static char erroradd3[500];
 
 /* Table encapsulates errors, descriptions, and fatality flags. */
diff --git a/src/ops.c b/src/ops.c
index 18f5eb2..82b3e29 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -158,7 +158,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     SYMBOL *symbase;
     int     opsize;
     bool	byteRequested;
-    char sBuffer[128];
+    char sBuffer[MAXLINE*9];
 
     Csegment->flags |= SF_REF;
     programlabel();
@@ -1325,7 +1325,7 @@ v_execmac(char *str, MACRO *mac)
     programlabel();
 
     if (Mlevel == MAXMACLEVEL) {
-        char errMsg[256];
+        char errMsg[MAXLINE*9];
         sprintf(errMsg, " macro [%s] recursion > %d", mac->name, MAXMACLEVEL);
         asmerr( ERROR_RECURSION_TOO_DEEP, true, errMsg );
         return;
-- 
2.43.0


From 46375eeb824f8da16bdb9ed5c240810ed8bc5306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:12 +0000
Subject: [PATCH 22/44] fix: have room for the bytes of a full line of long
 words

---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 82b3e29..2d896ed 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -29,7 +29,7 @@
 
 #include "asm.h"
 
-unsigned char Gen[MAXLINE];
+unsigned char Gen[MAXLINE * 4];
 unsigned char OrgFill = DEFORGFILL;
 int	 Glen;
 
-- 
2.43.0


From df4795a77b44f4d20af7efc1c0add80aefe28148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:27 +0000
Subject: [PATCH 23/44] fix: close the loops and conditionals of a macro that
 is left early

MEXIT and END inside an IF or REPEAT of a macro left the entry on the
stack. The caller's own ELSE and ENDIF then failed to match, and the rest
of the file was skipped without an error.
---
 src/ops.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 2d896ed..9b6bff1 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1401,6 +1401,13 @@ v_endm(char *str, MNEMONIC *dummy)
 
         Localdollarindex = inc->savedolidx;
 
+        /* a macro left from within a loop or conditional closes it */
+        while (Reploop && Reploop->file == inc)
+            rmnode((void **)&Reploop, sizeof(REPLOOP));
+
+        while (Ifstack->file == inc)
+            rmnode((void **)&Ifstack, sizeof(IFSTACK));
+
         pIncfile = inc->next;
         free(inc);
         return;
-- 
2.43.0


From 90cc4243c1400bb0a4f00891e4ddc92c21b85ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:27 +0000
Subject: [PATCH 24/44] fix: have room for long strings in ECHO

A string of more than 255 characters overran the buffer on the stack.
---
 src/ops.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 9b6bff1..56870ff 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1167,18 +1167,20 @@ v_echo(char *str, MNEMONIC *dummy)
     SYMBOL *sym = eval(str, 0);
     SYMBOL *s;
     char buf[256];
+    char *text;
 
     for (s = sym; s; s = s->next) {
         if (!(s->flags & SYM_UNKNOWN)) {
+            text = buf;
             if (s->flags & (SYM_MACRO|SYM_STRING))
-                sprintf(buf,"%s", s->string);
+                text = s->string;
             else
                 sprintf(buf,"$%lx", s->value);
             if (FI_listfile)
-                fprintf(FI_listfile, " %s", buf);
+                fprintf(FI_listfile, " %s", text);
             //printf(" %s", buf);
             addmsg(" "); // -FXQ supress output until final pass
-            addmsg(buf);
+            addmsg(text);
         }
     }
     //puts("");
-- 
2.43.0


From e8ca47dc1a8c10d991fe677d3aab388de5797848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:27 +0000
Subject: [PATCH 25/44] fix: have room for long include directory and file
 names

The joined path was built in a fixed buffer of 512 bytes.
---
 src/ops.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 56870ff..9789aaf 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1645,17 +1645,16 @@ pfopen(const char *name, const char *mode)
     if (strchr(name, ':'))
         return NULL;
 
-    buf = zmalloc(512);
-
     for (incdir = incdirlist; incdir; incdir = incdir->next) {
+        buf = zmalloc(strlen(incdir->buf) + strlen(name) + 2);
         addpart(buf, incdir->buf, name);
 
         f = fopen(buf, mode);
+        free(buf);
         if (f)
             break;
     }
 
-    free(buf);
     return f;
 }
 
-- 
2.43.0


From e17132c403141e2ff958732773d6f2d83cf7a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:27 +0000
Subject: [PATCH 26/44] fix: have room for long file names in error messages

A file name of about 480 characters overran the buffer that holds the
start of the message.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 8e3222a..6505944 100644
--- a/src/main.c
+++ b/src/main.c
@@ -69,7 +69,7 @@ void passbuffer_cleanup(void);
 
 int mlflag = 0; // multi-line comments
 
-static char erroradd1[500]; // temp error holders
+static char erroradd1[MAXLINE*10]; // temp error holders
 static char erroradd2[MAXLINE*10];
 static char erroradd3[500];
 
-- 
2.43.0


From 6f1ae1c2fa558e81d8e72c662d31004e68d137ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:56 +0000
Subject: [PATCH 27/44] fix: sort symbols with large values by value

The difference of two values was cut to an int, so string symbols and
values above 32 bits came out in the wrong order with -T1.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 6505944..221f7a7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -207,7 +207,7 @@ static int CompareAddress( const void *arg1, const void *arg2 )
     const SYMBOL *sym1 = *(SYMBOL * const *) arg1;
     const SYMBOL *sym2 = *(SYMBOL * const *) arg2;
 
-    return sym1->value - sym2->value;
+    return (sym1->value > sym2->value) - (sym1->value < sym2->value);
 }
 
 static int CompareOrder( const void *arg1, const void *arg2 )
-- 
2.43.0


From 0fc7b8fa6c78bf51b42dbaa3421c4470b1e90b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:19 +0000
Subject: [PATCH 28/44] fix: report messages that could not be written

A full disk or a failed device behind the standard output lost the ECHO
texts, and the exit status still was 0.
---
 src/main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.c b/src/main.c
index 221f7a7..2612e65 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1850,6 +1850,13 @@ int main(int ac, char **av)
 
     passbuffer_cleanup();
 
+    if (fflush(stdout) != 0 || ferror(stdout))
+    {
+        fprintf(stderr, "Warning: Unable to write the messages\n");
+        if (nError == 0)
+            nError = ERROR_FILE_ERROR;
+    }
+
     if (nError != 0) {
     	if (bRemoveOutBin) {
     		unlink(F_outfile);
-- 
2.43.0


From 010355895bac34693c154cc69895a8ea6aa16955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:57 +0000
Subject: [PATCH 29/44] fix: list the text of string symbols also when there is
 no memory to sort

---
 src/main.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 2612e65..43818ef 100644
--- a/src/main.c
+++ b/src/main.c
@@ -248,7 +248,12 @@ static void ShowSymbols( FILE *file, int sortMode )
         /* Display complete symbol table */
         for (i = 0; i < SHASHSIZE; ++i)
             for (sym = SHash[i]; sym; sym = sym->next)
-                fprintf( file, "%-24s %s\n", sym->name, sftos( sym->value, sym->flags ) );
+            {
+                fprintf( file, "%-24s %-12s", sym->name, sftos( sym->value, sym->flags ) );
+                if ( sym->flags & SYM_STRING )
+                    fprintf( file, " \"%s\"", sym->string );
+                fprintf( file, "\n" );
+            }
     }
     else
     {
-- 
2.43.0


From 868e5dc2e18be3a174cef6ff01f7066548af533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:52 +0000
Subject: [PATCH 30/44] fix: resolve the EQM symbol of DV in a later pass

DV with an EQM symbol that was defined further down, or not at all, left
out its data and the exit status still was 0.
---
 src/ops.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 9789aaf..9402928 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -753,9 +753,14 @@ v_dc(char *str, MNEMONIC *mne)
         vmode = 1;
         for (i = 0; str[i] && str[i] != ' '; ++i);
         tmp = findsymbol(str, i);
-        str += i;
         if (tmp == NULL) {
-            puts("EQM label not found");
+            tmp = CreateSymbol( str, i, false );
+            tmp->flags = SYM_REF|SYM_MASREF|SYM_UNKNOWN;
+        }
+        str += i;
+        if (tmp->flags & SYM_UNKNOWN) {
+            ++Redo;
+            Redo_why |= REASON_DV_NOT_RESOLVED_PROBABLY;
             return;
         }
         if (tmp->flags & SYM_MACRO) {
-- 
2.43.0


From 91068e74ec30812a4d5d9989abba128823a87f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:01 +0000
Subject: [PATCH 31/44] fix: report lines that are too long

The part of a line behind 1023 characters was taken for a line of its own. The rest of a long list of values became a label, and the values were missing without any message.
---
 src/main.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/main.c b/src/main.c
index 43818ef..08bd234 100644
--- a/src/main.c
+++ b/src/main.c
@@ -55,6 +55,7 @@ void clearsegs(void);
 void clearrefs(void);
 static void clearorder(unsigned long first);
 
+static bool incomplete(const char *buf);
 static unsigned int hash1(const char *str);
 static void outlistfile(const char *);
 
@@ -666,6 +667,7 @@ nextpass:
     {
         for (;;) {
             const char *comment;
+            bool bTooLong = false;
             if ( pIncfile->flags & INF_MACRO) {
                 if ( pIncfile->strlist == NULL) {
                     Av[0] = "";
@@ -680,6 +682,7 @@ nextpass:
                 /* the rest of a line that could not be read is missing */
                 if (fgets(buf, MAXLINE, pIncfile->fi) == NULL || ferror(pIncfile->fi))
                     break;
+                bTooLong = incomplete(buf);
             }
 
             if (Xdebug)
@@ -687,6 +690,8 @@ nextpass:
 
             comment = cleanup(buf, false);
             ++pIncfile->lineno;
+            if (bTooLong)
+                asmerr( ERROR_SYNTAX_ERROR, false, "line too long" );
             Glen = 0;       /* a line that was not listed leaves its bytes behind */
             mne = parse(buf);
 
@@ -848,6 +853,14 @@ void addmsg(char *message) // add to message buffer (FXQ)
 }
 
 
+/* is there more to this line than there was room for? what is not assembled may be of any length */
+static bool incomplete(const char *buf)
+{
+    return strlen(buf) == MAXLINE - 1 && buf[MAXLINE - 2] != '\n'
+        && !mlflag && Ifstack->xtrue && Ifstack->acctrue;
+}
+
+
 static int tabit(char *buf1, char *buf2)
 {
     char *bp, *ptr;
@@ -1567,6 +1580,8 @@ void v_macro(char *str, MNEMONIC *dummy)
 
         ++pIncfile->lineno;
 
+        if (incomplete(buf))
+            asmerr( ERROR_SYNTAX_ERROR, false, "line too long" );
 
         comment = cleanup(buf, true);
 
-- 
2.43.0


From 212a11b7963d3ee7ce9b0d2e416520a6b8fd5a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:22 +0000
Subject: [PATCH 32/44] fix: start a new segment when the length of one does
 not fit

A segment of 65536 bytes was written with a length of 0 in format 2.
---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 9402928..4c68544 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1740,7 +1740,7 @@ generate(void)
 
             case FORMAT_RAS:
 
-                if (org != Csegment->org)
+                if (org != Csegment->org || Seglen + Glen > 0xFFFF)
                 {
                     org = Csegment->org;
                     seekpos = ftell(FI_temp);
-- 
2.43.0


From 2530a6a88ee4ea573ba51664b4c09ccea33f5161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:48:33 +0000
Subject: [PATCH 33/44] fix: report ALIGN 0 instead of dividing by it

---
 src/ops.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 4c68544..d69da5b 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1028,6 +1028,10 @@ v_align(char *str, MNEMONIC *dummy)
             fill = sym->next->value;
         }
     }
+    if (sym->value == 0 && !(sym->flags & SYM_UNKNOWN)) {
+        asmerr( ERROR_DIVISION_BY_0, false, NULL );
+        sym->value = 1;
+    }
     if (rorg) {
         if ((Csegment->rflags | sym->flags) & SYM_UNKNOWN) {
             ++Redo;
-- 
2.43.0


From f113fcd526499eed38d6c8c3caa9816a71a7db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:48:33 +0000
Subject: [PATCH 34/44] fix: make DV without an EQM label an error

The data was left out and the run ended with status 0.
---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index d69da5b..a84141d 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -768,7 +768,7 @@ v_dc(char *str, MNEMONIC *mne)
         }
         else
         {
-            puts("must specify EQM label for DV");
+            asmerr( ERROR_SYNTAX_ERROR, false, "must specify EQM label for DV" );
             return;
         }
     }
-- 
2.43.0


From afb1614a59c1f1eb0e51e9d0d515fbc51e5cad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:50:15 +0000
Subject: [PATCH 35/44] fix: name the right line for errors found before
 parsing it

An unterminated string, a missing macro argument or a stray end of
comment was reported for the line before.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 08bd234..33cf23c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -688,8 +688,8 @@ nextpass:
             if (Xdebug)
                 printf("%08lx %s\n", (unsigned long) pIncfile, buf);
 
-            comment = cleanup(buf, false);
             ++pIncfile->lineno;
+            comment = cleanup(buf, false);
             if (bTooLong)
                 asmerr( ERROR_SYNTAX_ERROR, false, "line too long" );
             Glen = 0;       /* a line that was not listed leaves its bytes behind */
-- 
2.43.0


From 53885c4d33f771253b21c783756bc32d8f42bda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:50:15 +0000
Subject: [PATCH 36/44] fix: take another pass when an origin is not known yet

If nothing needed the addresses, the run ended with status 0, and the
labels were without a value in the symbol file.
---
 src/ops.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index a84141d..b546d20 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -958,7 +958,11 @@ v_org(char *str, MNEMONIC *dummy)
     Csegment->org = sym->value;
 
     if (sym->flags & SYM_UNKNOWN)
+    {
         Csegment->flags |= SYM_UNKNOWN;
+        ++Redo;
+        Redo_why |= REASON_OBSCURE;
+    }
     else
         Csegment->flags &= ~SYM_UNKNOWN;
 
@@ -987,8 +991,11 @@ v_rorg(char *str, MNEMONIC *dummy)
     Csegment->flags |= SF_RORG;
     if (sym->addrmode != AM_IMP) {
         Csegment->rorg = sym->value;
-        if (sym->flags & SYM_UNKNOWN)
+        if (sym->flags & SYM_UNKNOWN) {
             Csegment->rflags |= SYM_UNKNOWN;
+            ++Redo;
+            Redo_why |= REASON_OBSCURE;
+        }
         else
             Csegment->rflags &= ~SYM_UNKNOWN;
         if (Csegment->initrflags & SYM_UNKNOWN) {
-- 
2.43.0


From 74bc9986dd0bb7413f332b107e068a4e4f99720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:50:15 +0000
Subject: [PATCH 37/44] fix: take another pass when ECHO uses a value not known
 yet

A symbol defined by a later EQU was left out of the message.
---
 src/ops.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index b546d20..e381c51 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1198,6 +1198,11 @@ v_echo(char *str, MNEMONIC *dummy)
             addmsg(" "); // -FXQ supress output until final pass
             addmsg(text);
         }
+        else
+        {
+            ++Redo;
+            Redo_why |= REASON_OBSCURE;
+        }
     }
     //puts("");
     addmsg("\n");
-- 
2.43.0


From 34a212e32a63b4cab6a2e1ba2c93253fa47c4dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:31:35 +0000
Subject: [PATCH 38/44] fix: fail when an F8 branch is out of range

The message was printed, but the run ended with status 0 and a wrong
displacement in the output.
---
 src/mnef8.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mnef8.c b/src/mnef8.c
index 5e9ae0b..ca572f4 100644
--- a/src/mnef8.c
+++ b/src/mnef8.c
@@ -544,6 +544,8 @@ static void generate_branch(unsigned char opcode, char *str) {
                 char buf[64];
                 sprintf(buf, "%d", (int)disp);
                 asmerr(ERROR_BRANCH_OUT_OF_RANGE, false, buf);
+                ++Redo;
+                Redo_why |= REASON_BRANCH_OUT_OF_RANGE;
         }
     } else {
         /* unknown pc, will be (hopefully) resolved in future passes */
-- 
2.43.0


From be14599b348c5752974f07f5dcd8996457694687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:31:35 +0000
Subject: [PATCH 39/44] fix: end the name of a concatenated SET symbol at the
 right place

The terminator was written at an index of the last part, so the name
was cut off or ran on into what the buffer held before.
---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index e381c51..7276db9 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1287,7 +1287,7 @@ void v_set(char *str, MNEMONIC *dummy)
 
             continue; // process any remaining arguments
         }
-        dynamicname[i++] = 0;
+        dynamicname[j] = 0;
         if (setundefined) // not all of the arguments are defined yet, so skip this SET
         {
             return;
-- 
2.43.0


From 667e781b670966b8285bbe07b8e559a8c48aa055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:31:35 +0000
Subject: [PATCH 40/44] fix: report expressions that are nested too deeply

The stacks of operators and arguments were emptied or overrun with a
line on standard output only. The value was wrong, or the run crashed.
---
 src/exp.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 2ebee66..d8bd588 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -362,7 +362,7 @@ SYMBOL *eval(const char *str, int wantmode)
 	    } else {
 		ucasm_indexed_notation = false;
             if (Opi == MAXOPS)
-                puts("too many ops");
+                asmerr( ERROR_RECURSION_TOO_DEEP, true, "eval()" );
             else
                 Oppri[Opi++] = 0;
             ++str;
@@ -689,8 +689,7 @@ static void stackarg(long val, int flags, const char *ptr1)
     Argstring[Argi] = str;
     Argflags[Argi] = flags;
     if (++Argi == MAXARGS) {
-        puts("stackarg: maxargs stacked");
-        Argi = Argibase;
+        asmerr( ERROR_RECURSION_TOO_DEEP, true, "stackarg()" );
     }
     while (Opi != Opibase && Oppri[Opi-1] == 128)
         evaltop();
@@ -725,16 +724,15 @@ void doop(opfunc_t func, int pri)
     if (Xdebug)
         printf("doop @ %d\n", Opi);
 
-    Opdis[Opi] = func;
-    Oppri[Opi] = pri;
-    ++Opi;
-
     if (Opi == MAXOPS)
     {
-        puts("doop: too many operators");
-        Opi = Opibase;
+        asmerr( ERROR_RECURSION_TOO_DEEP, true, "doop()" );
+        return;
     }
-    return;
+
+    Opdis[Opi] = func;
+    Oppri[Opi] = pri;
+    ++Opi;
 }
 
 void op_takelsb(long v1, int f1)
-- 
2.43.0


From 739cb3e341ecf0c78509bec51b3331f679958985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:31:35 +0000
Subject: [PATCH 41/44] fix: report closing brackets without an opening one

They were skipped, and the line was assembled as if they were not there.
---
 src/exp.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index d8bd588..6d685ad 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -361,12 +361,12 @@ SYMBOL *eval(const char *str, int wantmode)
 		}
 	    } else {
 		ucasm_indexed_notation = false;
+            ++str;
+	    }
             if (Opi == MAXOPS)
                 asmerr( ERROR_RECURSION_TOO_DEEP, true, "eval()" );
             else
                 Oppri[Opi++] = 0;
-            ++str;
-	    }
             break;
 
         case ')':
@@ -406,6 +406,8 @@ SYMBOL *eval(const char *str, int wantmode)
                 evaltop();
             if (Opi != Opibase)
                 --Opi;
+            else
+                asmerr( ERROR_SYNTAX_ERROR, false, pLine );
             ++str;
 
 	    if (ucasm_indexed_notation) {
@@ -413,7 +415,7 @@ SYMBOL *eval(const char *str, int wantmode)
 	    } else {
             if (Argi == Argibase)
             {
-                puts("']' error, no arg on stack");
+                asmerr( ERROR_SYNTAX_ERROR, false, pLine );
                 break;
             }
             }
-- 
2.43.0


From a3e3aa3a6eded047fe3c6a0573ee93bd697f6567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:00:00 +0000
Subject: [PATCH 42/44] fix: F8 register operand not yet known is listed as 0

An instruction with a scratchpad register given by a symbol that is not
defined yet was put together from an uninitialised variable, so the -L
listing of that pass showed random opcodes.
---
 src/mnef8.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mnef8.c b/src/mnef8.c
index ca572f4..1dfae8c 100644
--- a/src/mnef8.c
+++ b/src/mnef8.c
@@ -235,6 +235,7 @@ static int parse_scratchpad_register(char *str, unsigned char *reg) {
 
     /* parse register number */
     if (parse_value(str, &regnum)) {
+        *reg = 0;
         return 1;       /* unresolved expr */
     } else {
         if (regnum > 14) {
-- 
2.43.0


From 2d3d223a168d15c5012aec85a26e570a5d5654f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:01:19 +0000
Subject: [PATCH 43/44] fix: report negative operands that do not fit in a byte

Negative values below -255 were only rejected for some addressing modes;
for the indirect ones, bit operations and masks they were cut to a byte
without a word, and a negative bit number changed the opcode.
---
 src/ops.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 7276db9..bc73943 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -309,6 +309,10 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_BYTEADRX:
     	case AM_BYTEADRY:
     	case AM_BYTEADR_SP:
+    	case AM_INDBYTE:
+    	case AM_INDBYTEX:
+    	case AM_INDBYTEY:
+    	case AM_BYTEREL:
     		if (sym->value < -0xFF) {	// isn't this our space ?
     			sprintf( sBuffer, "negative %s %s", mne->name, str );
     			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
@@ -377,7 +381,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     {
     case AM_BITMOD:
         sym = symbase->next;
-        if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
+        if (!(sym->flags & SYM_UNKNOWN) && (sym->value >= 0x100 || sym->value < -0xFF)) {
             sprintf( sBuffer, "unknown %s %ld", mne->name, sym->value);
             asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
         }
@@ -385,7 +389,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
         if (!(symbase->flags & SYM_UNKNOWN))
         {
-            if (symbase->value > 7)
+            if (symbase->value > 7 || symbase->value < 0)
                 asmerr( ERROR_ILLEGAL_BIT_SPECIFICATION, false, str );
             else
                 Gen[0] += symbase->value << 1;
@@ -396,7 +400,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
         if (!(symbase->flags & SYM_UNKNOWN))
         {
-            if (symbase->value > 7)
+            if (symbase->value > 7 || symbase->value < 0)
                 asmerr( ERROR_ILLEGAL_BIT_SPECIFICATION, false, str );
             else
                 Gen[0] += symbase->value << 1;
@@ -404,7 +408,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
         sym = symbase->next;
 
-        if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
+        if (!(sym->flags & SYM_UNKNOWN) && (sym->value >= 0x100 || sym->value < -0xFF)) {
             sprintf( sBuffer, "%s %ld", mne->name, sym->value);
             asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
         }
@@ -438,7 +442,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     {
         if (sym)
         {
-            if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
+            if (!(sym->flags & SYM_UNKNOWN) && (sym->value >= 0x100 || sym->value < -0xFF)) {
                 sprintf( sBuffer, "unknown && > 256 %s %ld", mne->name, sym->value);
                 asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
             }
-- 
2.43.0


From a3b23b80ded2c445f20bd1b772b57134f52ca6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:02:19 +0000
Subject: [PATCH 44/44] fix: check word operands in strict mode after the
 addressing mode is known

With -S an operand beyond 16 bits was only reported for instructions that
have no byte form; for the others the check was made before the word form
was chosen.
---
 src/ops.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index bc73943..9bd394e 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -292,18 +292,6 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     }
 
     switch(addrmode) {
-    	case AM_IMM16:
-    	case AM_WORDADR:
-    	case AM_WORDADRX:
-    	case AM_WORDADRY:
-    	case AM_INDWORD:
-    	case AM_WORDADR_SP:
-    		if ( bStrictMode && ((sym->value > 0xFFFF) || (sym->value < -0xFFFF))) {	// isn't this our space ?
-    			sprintf( sBuffer, "%s %s", mne->name, str );
-    			asmerr( ERROR_ADDRESS_MUST_BE_LT_10000, false, sBuffer );
-    		}
-    		break;
-
     	case AM_IMM8:
     	case AM_BYTEADR:
     	case AM_BYTEADRX:
@@ -365,6 +353,21 @@ void v_mnemonic(char *str, MNEMONIC *mne)
         }
         addrmode = Cvt[addrmode];
     }
+
+    switch(addrmode) {
+    	case AM_IMM16:
+    	case AM_WORDADR:
+    	case AM_WORDADRX:
+    	case AM_WORDADRY:
+    	case AM_INDWORD:
+    	case AM_WORDADR_SP:
+    		if ( bStrictMode && ((sym->value > 0xFFFF) || (sym->value < -0xFFFF))) {	// isn't this our space ?
+    			sprintf( sBuffer, "%s %s", mne->name, str );
+    			asmerr( ERROR_ADDRESS_MUST_BE_LT_10000, false, sBuffer );
+    		}
+    		break;
+    }
+
     opcode = mne->opcode[addrmode];
     opidx = 1 + (opcode > 0xFF);
     if (opidx == 2)
-- 
2.43.0

